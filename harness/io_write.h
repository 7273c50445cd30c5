// C14: what is written, on disks that fill up and fail (part of io.cpp)
namespace {
std::string OUT;        // file name as given to the code under test
int ret = 0;
std::function<std::string()>* content_wrong = nullptr;      // empty: the file is exactly right
void judge_write() {
    Quiet q;
    on_exit(nullptr);
    bool reported = rep.any() || ret != 0, failed = fs::write_failed(PATH);
    std::string w = (*content_wrong)();
    if (reported && !failed) fail("false-error", "an error was reported although every write succeeded (file: %s)", w.empty() ? "right" : w.c_str());
    if (!reported && !w.empty()) {
        if (failed) fail("unreported", "a write failed and nothing was reported: %s", w.c_str());
        fail("wrong-file", "%s", w.c_str());
    }
    if (failed) { probe("write_failure"); if (w.empty()) probe("complete_despite_failure"); }
    nontrivial();
    std::string t;
    if (fs::get(PATH, &t)) for (char ch : t) note((uint64_t)(unsigned char)ch);
}
template <class F> void write_file(const Case& c, F f) {
    if (c.get("stale")) fs::put(PATH, std::string((size_t)c.get("stale"), '7'));
    judge = judge_write;
    fs::enable(false, c.get("faulty") != 0);
    bool ok = attempt([&] { ret = f(); });
    (void)ok;
    fs::enable(false, false);
    judge_write();
}
template <class R> int code_of(R r) { return (int)r; }
// a function that may or may not have a result
template <class F> int call(F f) {
    if constexpr (std::is_void<decltype(f())>::value) { f(); return 0; } else return code_of(f());
}

std::string graph_problem(const std::string& t, const ora::Graph& g, bool weighted) {
    Parsed P = metis(t);
    if (P.cls != VALID || P.loops) return "the file is not a valid graph: " + P.why;
    if (P.n != g.n) return "the file has " + std::to_string(P.n) + " vertices instead of " + std::to_string(g.n);
    auto a = wl::adjacency(g);
    for (uint32_t v = 0; v < g.n; ++v) {
        std::vector<std::pair<uint64_t, uint64_t> > x, y = P.adj[v];
        for (auto& e : a[v]) x.push_back({ e.first, weighted ? e.second : 1 });
        std::sort(x.begin(), x.end());
        std::sort(y.begin(), y.end());
        if (x != y) return "the neighbours of vertex " + std::to_string(v + 1) + " differ";
    }
    return "";
}
std::string dimacs_problem(const std::string& t, const ora::Graph& g, const std::string& format) {
    std::map<std::pair<uint64_t, uint64_t>, uint64_t> want, got;
    for (auto& e : g.e) want[{ std::min(e.u, e.v) + 1, std::max(e.u, e.v) + 1 }] = e.w;
    bool header = false;
    if (!t.empty() && t.back() != '\n') return "the last line is not complete";
    for (auto& l : split(t)) {
        auto k = tokens(l);
        uint64_t a, b, w;
        if (!header) {
            if (k.size() != 4 || k[0] != "p" || k[1] != format || number(k[2], &a) != NUM || number(k[3], &b) != NUM || a != g.n || b != g.e.size()) return "wrong header " + l;
            header = true;
        } else {
            if (k.size() != 4 || k[0] != "a" || number(k[1], &a) != NUM || number(k[2], &b) != NUM || number(k[3], &w) != NUM) return "wrong line " + l;
            if (!got.insert({ { std::min(a, b), std::max(a, b) }, w }).second) return "edge written twice: " + l;
        }
    }
    if (!header) return "no header";
    return want == got ? "" : "the edges differ";
}
std::string vector_problem(const std::string& t, const std::vector<uint64_t>& v) {
    if (!t.empty() && t.back() != '\n') return "the last line is not complete";
    auto l = split(t);
    if (l.size() != v.size()) return std::to_string(l.size()) + " lines instead of " + std::to_string(v.size());
    for (size_t i = 0; i < l.size(); ++i) if (l[i] != std::to_string(v[i])) return "line " + std::to_string(i + 1) + " is " + l[i] + " instead of " + std::to_string(v[i]);
    return "";
}
bool file(std::string* t) { return fs::get(PATH, t); }

void run_write(const Case& c) {
    int kind = (int)c.get("kind");
    ora::Graph g = wl::graph_of(c.ops);
    if (g.n == 0) skip("empty");
    OUT = FILE_NAME;
    graphAccessPtr G = wl::Make<graphAccessPtr>::make(g);
    mutableGraphPtr M = wl::Make<mutableGraphPtr>::make(g);
    std::vector<uint64_t> vec;
    {
        Quiet q;
        Rng r((uint64_t)c.get("seed"));
        for (uint32_t v = 0; v < g.n; ++v) { bool b = r.chance(0.5); G->setNodeInCut(v, b); M->setNodeInCut(v, b); vec.push_back(kind >= 6 ? (r.chance(0.5) ? r.below(10) : r.below(1ull << 53)) : b); }
    }
    std::function<std::string()> check = [&]() -> std::string {
        std::string t;
        if (!file(&t)) return "there is no file";
        switch (kind) {
        case 0: case 1: return graph_problem(t, g, true);
        case 2: return graph_problem(t, g, false);
        case 3: return dimacs_problem(t, g, "FORMAT");
        default: return vector_problem(t, vec);
        }
    };
    content_wrong = &check;
    write_file(c, [&]() -> int {
        switch (kind) {
        case 0: return call([&] { return graph_io::writeGraphWeighted(G, OUT); });
        case 1: return call([&] { return graph_io::writeGraphWeighted(M, OUT); });
        case 2: return call([&] { return graph_io::writeGraph(G, OUT); });
        case 3: return call([&] { return graph_io::writeGraphDimacsKS(G, OUT); });
        case 4: return call([&] { return graph_io::writeCut(G, OUT); });
        case 5: return call([&] { return graph_io::writeCut(M, OUT); });
        default: return call([&] { graph_io io; return io.writeVector(vec, OUT); });
        }
    });
    if (fs::write_failed(PATH)) return;
    // read it back
    bool weighted = kind != 2;
    auto back = [&](auto ptr) {
        typedef typename decltype(ptr)::element_type GT;
        auto B = graph_io::readGraphWeighted<GT>(OUT);
        Quiet q;
        Parsed P;
        P.n = g.n;
        auto a = wl::adjacency(g);
        P.adj.resize(g.n);
        for (uint32_t v = 0; v < g.n; ++v) for (auto& e : a[v]) P.adj[v].push_back({ e.first, weighted ? e.second : 1 });
        compare(B, P);
    };
    if (kind <= 2) { if (c.get("rep")) back(mutableGraphPtr()); else back(graphAccessPtr()); }
    else if (kind > 3) {
        auto v = graph_io::readVector<uint64_t>(OUT);
        if (v.size() != vec.size()) fail("wrong-vector", "%zu entries read back instead of %zu", v.size(), vec.size());
        for (size_t i = 0; i < v.size(); ++i) if (v[i] != vec[i]) fail("wrong-vector", "entry %zu reads back as %llu instead of %llu", i, (unsigned long long)v[i], (unsigned long long)vec[i]);
    }
}

// ---- cactus files -----------------------------------------------------------------
struct CactusFile { std::map<uint64_t, std::multiset<uint64_t> > nodes; std::multiset<std::tuple<uint64_t, uint64_t, uint64_t> > edges; };
// minimal XML: tags with attributes, text inside <data>
std::string parse_graphml(const std::string& t, CactusFile* F) {
    std::vector<std::string> stack;
    size_t i = 0;
    std::string key, text;
    uint64_t node = 0, src = 0, tgt = 0;
    bool graph = false, closed = false, weight = false;
    auto attr = [](const std::string& tag, const std::string& a) -> std::string {
        size_t p = tag.find(" " + a + "=\"");
        if (p == std::string::npos) return "";
        p += a.size() + 3;
        return tag.substr(p, tag.find('"', p) - p);
    };
    while (i < t.size()) {
        if (t[i] != '<') { text += t[i++]; continue; }
        size_t e = t.find('>', i);
        if (e == std::string::npos) return "a tag is not closed";
        std::string tag = t.substr(i + 1, e - i - 1);
        i = e + 1;
        if (tag[0] == '?' || tag[0] == '!') { text.clear(); continue; }
        if (tag[0] == '/') {
            if (stack.empty() || stack.back() != tag.substr(1)) return "unbalanced tag " + tag;
            stack.pop_back();
            if (tag == "/data") {
                std::string up = stack.empty() ? "" : stack.back();
                if (up == "node" && key == "containedVertices") {
                    std::stringstream ss(text);
                    std::string x;
                    while (std::getline(ss, x, ',')) { uint64_t v; if (x.empty() || number(x, &v) != NUM) return "not a vertex: " + x; F->nodes[node].insert(v); }
                } else if (up == "edge" && key == "weight") {
                    char* end;
                    double w = strtod(text.c_str(), &end);
                    if (text.empty() || *end) return "not a weight: " + text;
                    F->edges.insert({ std::min(src, tgt), std::max(src, tgt), (uint64_t)w });
                    weight = true;
                }
            } else if (tag == "/edge" && !weight) return "an edge has no weight";
            else if (tag == "/graphml") closed = true;
            text.clear();
            continue;
        }
        text.clear();
        bool self = tag.back() == '/';
        std::string name = tag.substr(0, tag.find_first_of(" \n/"));
        if (name == "graph") graph = true;
        if (name == "node") { if (number(attr(tag, "id") + "", &node) != NUM) return "node without id"; if (F->nodes.count(node)) return "node written twice"; F->nodes[node]; }
        if (name == "edge") {
            weight = false;
            if (attr(tag, "source").empty() || attr(tag, "target").empty() || number(attr(tag, "source"), &src) != NUM || number(attr(tag, "target"), &tgt) != NUM) return "edge without ends";
        }
        if (name == "data") key = attr(tag, "key");
        if (!self) stack.push_back(name);
    }
    if (!stack.empty() || !closed || !graph) return "the document is not complete";
    return "";
}
template <class GP> void cactus_file(const Case& c, const ora::Graph& g) {
    GP G = wl::Make<GP>::make(g);
    auto cf = configuration::getConfig();
    cf->save_cut = true;
    cf->cactus_filename = FILE_NAME;
    cf->seed = (size_t)c.get("seed");
    cf->threads = (size_t)sim::cfg.threads;
    random_functions::setSeed((int)c.get("seed"));
    mutableGraphPtr C;
    std::function<std::string()> check = [&]() -> std::string {
        std::string t;
        if (!file(&t)) return "there is no file";
        CactusFile F;
        std::string w = parse_graphml(t, &F);
        if (!w.empty()) return w;
        if (!C) return "";
        CactusFile K;
        for (NodeID v : C->nodes()) {
            K.nodes[v];
            for (NodeID x : C->containedVertices(v)) K.nodes[v].insert(x);
            for (EdgeID e : C->edges_of(v)) if (v < C->getEdgeTarget(v, e)) K.edges.insert({ v, C->getEdgeTarget(v, e), C->getEdgeWeight(v, e) });
        }
        if (F.nodes.size() != K.nodes.size()) return "the file has " + std::to_string(F.nodes.size()) + " nodes, the cactus has " + std::to_string(K.nodes.size());
        if (F.nodes != K.nodes) return "the vertices of the nodes differ from those of the cactus";
        if (F.edges != K.edges) return "the edges differ from those of the cactus";
        std::multiset<uint64_t> all;
        for (auto& x : F.nodes) all.insert(x.second.begin(), x.second.end());
        if (all.size() != g.n || (g.n && *all.rbegin() != g.n - 1) || std::set<uint64_t>(all.begin(), all.end()).size() != g.n) return "the vertices of the graph are not in exactly one node each";
        return "";
    };
    content_wrong = &check;
    write_file(c, [&]() -> int {
#ifdef PARALLEL
        parallel_cactus<GP> alg;
#else
        cactus_mincut<GP> alg;
#endif
        auto [v, K, e] = alg.findAllMincuts(G);
        C = K;
        return 0;
    });
}
void run_cactus(const Case& c) {
    ora::Graph g = wl::graph_of(c.ops);
    if (g.n < 2) skip("trivial");
    std::vector<uint32_t> comp;
    if (ora::components(g, &comp) != 1) skip("disconnected");
    if (c.get("rep")) cactus_file<mutableGraphPtr>(c, g); else cactus_file<graphAccessPtr>(c, g);
}
void write_params(Case& c, Rng& r) {
    c.p["faulty"] = r.chance(0.8);
    c.p["rep"] = (int64_t)r.below(2);
    c.p["seed"] = (int64_t)r.below(1000);
    c.p["stale"] = r.chance(0.3) ? r.range(1, 3000) : 0;
}
void gen_write(Case& c, Rng& r, int) {
    wl::gen_case(c, r, r.chance(0.1) ? 120 : 14, true, false);
    c.p["kind"] = (int64_t)r.below(7);
    write_params(c, r);
}
void gen_cactus(Case& c, Rng& r, int) {
    wl::gen_case(c, r, r.chance(0.1) ? 60 : 14, false, true);
    write_params(c, r);
}
void tune(const Case&, Rng& r, Config& cf) {
    static const double F[] = { 0.02, 0.1, 0.3, 0.6, 0.9 };
    cf.f_io = F[r.below(5)];
    cf.soft_steps = 20000000; cf.hard_steps = 300000000;
}
#ifndef PARALLEL
Reg g1({ "write", 70, gen_write, tune, run_write, true });
#endif
Reg g2({ "cactus", 30, gen_cactus, tune, run_cactus, true });
}  // namespace
