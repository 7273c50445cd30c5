// What the code under test reported: exit(), an exception, text on std::cerr.
#pragma once
#include <iostream>
#include <sstream>
#include "sim/rt.h"

using namespace sim;
namespace {
struct Report {
    bool exited = false, thrown = false, said = false;
    int code = 0;
    bool any() const { return (exited && code != 0) || thrown || said; }
};
Report rep;
// Text on a standard stream. The real ones may be used by several threads at once.
struct Text : std::streambuf {
    std::string s;
    int_type overflow(int_type c) override { Quiet q; if (c != traits_type::eof()) s += (char)c; return 0; }
    std::streamsize xsputn(const char* p, std::streamsize n) override { Quiet q; s.append(p, n); return n; }
};
Text* err_text = nullptr;
std::streambuf* err_old = nullptr;
void listen() {
    err_text = new Text;
    err_old = std::cerr.rdbuf(err_text);
}
void unlisten() {
    if (!err_old) return;
    std::cerr.rdbuf(err_old);
    err_old = nullptr;
    rep.said = !err_text->s.empty();
}
void (*judge)() = nullptr;      // after exit()
void exited(int code) {
    unlisten();
    rep.exited = true;
    rep.code = code;
    judge();
}
// runs f, collecting what it reports; false if it threw
template <class F> bool attempt(F f) {
    listen();
    on_exit(exited);
    bool ok = true;
    try { f(); } catch (const std::exception&) { ok = false; rep.thrown = true; }
    on_exit(nullptr);
    unlisten();
    return ok;
}
}
