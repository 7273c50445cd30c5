// C05: concurrent union-find.
#include "sim/rt.h"
#include <thread>
#include "parallel/data_structure/union_find.h"

using namespace sim;

namespace {
struct Ref {            // sequential reference partition
    std::vector<unsigned> p;
    explicit Ref(unsigned n) : p(n) { for (unsigned i = 0; i < n; ++i) p[i] = i; }
    unsigned find(unsigned x) { while (p[x] != x) x = p[x]; return x; }
    bool uni(unsigned a, unsigned b) { a = find(a); b = find(b); if (a == b) return false; p[a] = b; return true; }
};

// op: {thread, kind, a, b}   kind 0 = Union, 1 = Find, 2 = SameSet
void gen(Case& c, Rng& r, int) {
    int n = (int)(r.chance(0.5) ? r.range(2, 5) : r.range(4, 24));
    int t = (int)r.range(2, 5);
    int m = (int)r.range(2, r.chance(0.6) ? 12 : 60);
    c.p["n"] = n; c.p["t"] = t;
    int style = (int)r.below(4);
    for (int i = 0; i < m; ++i) {
        int64_t a, b;
        if (style == 0) { a = r.range(0, n - 1); b = r.range(0, n - 1); }
        else if (style == 1) { a = i % n; b = (i + 1) % n; }
        else if (style == 2) { a = 0; b = r.range(0, n - 1); if (r.chance(0.5)) std::swap(a, b); }
        else { a = r.range(0, n / 2); b = r.range(n / 2, n - 1); }
        int64_t k = r.chance(0.8) ? 0 : r.range(1, 2);
        c.ops.push_back({ r.range(0, t - 1), k, a, b });
        if (r.chance(0.2)) c.ops.push_back({ r.range(0, t - 1), k, b, a });
    }
}
void tune(const Case&, Rng& r, Config& g) {
    g.soft_steps = 400000; g.hard_steps = 4000000;
    if (g.strategy == 0) g.p_mem = 0.02 + 0.5 * r.unit();
    if (r.chance(0.5)) { g.strategy = r.chance(0.5) ? 0 : 3; }
    g.pct_len = 50 + r.below(2000);
}

void run(const Case& c) {
    unsigned n = (unsigned)c.get("n");
    int t = (int)c.get("t");
    union_find uf(n);
    std::vector<std::vector<std::vector<int64_t> > > prog((size_t)t);
    for (auto& o : c.ops) if (o[0] < t) prog[(size_t)o[0]].push_back(o);
    std::vector<int> merges((size_t)t, 0);
    Ref ref(n);
    for (auto& o : c.ops) if (o[0] < t && o[1] == 0) ref.uni((unsigned)o[2], (unsigned)o[3]);
    int started = 0;
    std::vector<std::thread> th;
    for (int i = 0; i < t; ++i)
        th.emplace_back([&, i]() {
            ++started;
            for (auto& o : prog[(size_t)i]) {
                unsigned a = (unsigned)o[2], b = (unsigned)o[3];
                if (o[1] == 0) {
                    if (uf.Union(a, b)) merges[(size_t)i]++;
                    // once united, elements stay in one set
                    if (!uf.SameSet(a, b)) fail("union-lost", "after Union(%u,%u) returned, SameSet(%u,%u) is false", a, b, a, b);
                } else if (o[1] == 1) {
                    unsigned f = uf.Find(a);
                    if (f >= n || ref.find(f) != ref.find(a)) fail("find-foreign", "Find(%u) returned %u, which is never united with it", a, f);
                } else {
                    if (uf.SameSet(a, b) && ref.find(a) != ref.find(b)) fail("sameset-foreign", "SameSet(%u,%u) is true but they are never united", a, b);
                }
            }
        });
    for (auto& x : th) x.join();
    nontrivial();
    Quiet q;
    unsigned classes = 0;
    for (unsigned i = 0; i < n; ++i) if (ref.find(i) == i) ++classes;
    for (unsigned i = 0; i < n; ++i)
        for (unsigned j = 0; j < i; ++j) {
            bool got = uf.Find(i) == uf.Find(j), want = ref.find(i) == ref.find(j);
            if (got != want) fail(want ? "final-lost" : "final-spurious", "elements %u and %u %s in one set at the end", i, j, got ? "are" : "are not");
            if (uf.SameSet(i, j) != want) fail("sameset", "SameSet(%u,%u) differs from the reference at the end", i, j);
        }
    if (uf.n() != classes) fail("count", "n() is %u, the reference has %u sets", uf.n(), classes);
    int tot = 0;
    for (int m : merges) tot += m;
    if ((unsigned)tot != n - classes) fail("merge-count", "%d Union calls reported a merge, %u merges happened", tot, n - classes);
}
Reg reg({ "unionfind", 1, gen, tune, run, true });
}
