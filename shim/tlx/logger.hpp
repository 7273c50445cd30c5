// Stand-in for tlx's logger (the submodule is not available offline).
// Operands are evaluated, nothing is printed (LOGTEXT: kept in a string).
#pragma once
#include <algorithm>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#ifdef LOGTEXT
#include "sim/rt.h"
#endif
namespace tlx {
#ifdef SIMLOG       // debugging aid
template <typename T> auto logprint(const T& t, int) -> decltype((void)(std::cerr << t)) { std::cerr << t; }
template <typename T> void logprint(const T&, long) { std::cerr << '?'; }
struct Logger {
    template <typename T> Logger& operator << (const T& t) { logprint(t, 0); return *this; }
};
#elif defined(LOGTEXT)         // kept for the harness: the programs report through the logger
// A line is collected and then written at once, as the real logger does.
inline std::string& log_text() { static std::string* s = new std::string; return *s; }
template <typename T> auto logprint(std::ostream& o, const T& t, int) -> decltype((void)(o << t)) { o << t; }
template <typename T> void logprint(std::ostream& o, const T&, long) { o << '?'; }
struct Logger {
    std::ostringstream line;
    template <typename T> Logger& operator << (const T& t) { logprint(line, t, 0); return *this; }
    ~Logger() { sim::Quiet q; log_text() += line.str() + "\n"; }
};
#else
struct Logger {
    template <typename T> Logger& operator << (const T&) { return *this; }
};
#endif
struct LoggerVoidify { void operator & (const Logger&) { } };
struct SpacingLogger {
    template <typename T> SpacingLogger& operator << (const T&) { return *this; }
};
#ifdef LOGTEXT
inline Logger null_logger() { return Logger(); }
#else
inline Logger& null_logger() {
    static Logger l;
#ifdef SIMLOG
    std::cerr << '\n';
#endif
    return l;
}
#endif
}
#define LOGC(cond) !(cond) ? (void)0 : ::tlx::LoggerVoidify() & ::tlx::null_logger()
#define LOG LOGC(debug)
#define LOG0 LOGC(false)
#define LOG1 LOGC(true)
#define sLOGC(cond) LOGC(cond)
#define sLOG LOG
#define sLOG0 LOG0
#define sLOG1 LOG1
