// Running a program's main() inside the simulator: arguments, files, what it prints.
#pragma once
#include <map>
#include <sstream>
#include "sim/rt.h"
#include "sim/oracle.h"
#include "report.h"
extern "C" int app_main(int, char**);     // main() of the program, renamed by build.sh

using namespace sim;
typedef unsigned long long ull;

namespace {
// ---- running a program -----------------------------------------------------------
std::vector<std::string> args;
Text* out_text = nullptr;
std::streambuf* out_old = nullptr;
int code = 0;
bool refused = false;           // ended with an exception or a nonzero status
std::string out;                // what it printed
void (*verdict)() = nullptr;
void finished() {
    Quiet q;
    if (out_old) std::cout.rdbuf(out_old);
    out_old = nullptr;
    out = out_text->s + tlx::log_text();
    code = rep.exited ? rep.code : code;
    refused = rep.thrown || code != 0;
    verdict();
}
void start(void (*v)()) {
    verdict = v;
    judge = finished;
    std::vector<char*> a;
    for (auto& s : args) a.push_back(&s[0]);
    a.push_back(nullptr);
    tlx::log_text().clear();
    out_text = new Text;
    out_old = std::cout.rdbuf(out_text);
    attempt([&] { code = app_main((int)args.size(), a.data()); });
    finished();
}
std::string command() {
    std::string s;
    for (size_t i = 1; i < args.size(); ++i) s += (i > 1 ? " " : "") + args[i];
    return s;
}
void add(const std::string& a) { args.push_back(a); }
void add(const std::string& a, const std::string& b) { args.push_back(a); args.push_back(b); }
std::string num(uint64_t x) { return std::to_string(x); }
// every "key=value" of the lines that start with RESULT
std::vector<std::map<std::string, std::string> > results() {
    std::vector<std::map<std::string, std::string> > r;
    std::istringstream in(out);
    std::string l;
    while (std::getline(in, l)) {
        if (l.compare(0, 6, "RESULT")) continue;
        r.emplace_back();
        std::istringstream w(l);
        std::string t;
        while (w >> t) {
            size_t e = t.find('=');
            if (e != std::string::npos) r.back()[t.substr(0, e)] = t.substr(e + 1);
        }
    }
    return r;
}
void expect(const std::map<std::string, std::string>& r, const char* key, const std::string& want) {
    auto it = r.find(key);
    if (it == r.end()) fail("result-line", "'%s': the result line has no %s", command().c_str(), key);
    if (it->second != want) fail("result-line", "'%s': %s=%s instead of %s", command().c_str(), key, it->second.c_str(), want.c_str());
}
uint64_t field(const std::map<std::string, std::string>& r, const char* key) {
    auto it = r.find(key);
    if (it == r.end() || it->second.empty() || it->second[0] < '0' || it->second[0] > '9') fail("result-line", "'%s': the result line has no %s", command().c_str(), key);
    return strtoull(it->second.c_str(), nullptr, 10);
}
bool io_fault = false;
void not_refused() {
    if (refused && !io_fault) fail("refused", "'%s' gave up (%s %d) although nothing failed", command().c_str(), rep.thrown ? "exception, status" : "status", code);
}

// ---- the input graph -----------------------------------------------------------------
ora::Graph g;
std::string metis_text(const ora::Graph& g, bool weights) {
    std::vector<std::vector<std::pair<uint32_t, uint64_t> > > a(g.n);
    for (auto& e : g.e) { a[e.u].push_back({ e.v, e.w }); a[e.v].push_back({ e.u, e.w }); }
    std::string t = num(g.n) + " " + num(g.e.size()) + (weights ? " 1" : "") + "\n";
    for (auto& l : a) {
        for (auto& x : l) t += num(x.first + 1) + (weights ? " " + num(x.second) : "") + " ";
        t += "\n";
    }
    return t;
}
void place_graph(const Case& c) {
    bool w = c.get("fmt");
    for (auto& e : g.e) if (e.w != 1) w = true;
    if (c.get("bad") == 1) probe("no_such_file");
    else fs::put("/simfs/graph.metis", metis_text(g, w));
}
void faults(const Case& c) {
    bool rd = c.get("rdfault"), wr = c.get("wrfault");
    if (rd || wr) fs::enable(rd, wr, c.get("errors") ? 5 : 0);
}
const Case* cur = nullptr;
}
