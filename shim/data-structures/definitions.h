// Stand-in for growt's concurrent growing hash table: a linearizable map.
// Every operation is one atomic step of the simulation.
#pragma once
#include <cstdint>
#include <map>
#include <utility>
#include "sim/rt.h"
namespace growt {
template <class Hash>
class uaGrow {
 public:
    typedef std::map<uint64_t, uint64_t> M;
    struct iterator {
        std::pair<const uint64_t, uint64_t> v; bool ok;
        std::pair<const uint64_t, uint64_t> operator * () const { return v; }
        const std::pair<const uint64_t, uint64_t>* operator -> () const { return &v; }
        bool operator == (const iterator& o) const { return ok == o.ok && (!ok || v.first == o.v.first); }
        bool operator != (const iterator& o) const { return !(*this == o); }
    };
    explicit uaGrow(size_t) { }
    class Handle {
        M* m;
        iterator at(M::iterator i) { return iterator { { i->first, i->second }, true }; }
     public:
        explicit Handle(M* p) : m(p) { }
        template <class F, class... A>
        std::pair<iterator, bool> insert_or_update(const uint64_t& k, const uint64_t& d, F f, A... a) {
            sim::yield_point();
            sim::Quiet q;
            auto r = m->emplace(k, d);
            if (!r.second) { f(r.first->second, a...); }
            return { at(r.first), r.second };
        }
        std::pair<iterator, bool> insert(const uint64_t& k, const uint64_t& d) {
            sim::yield_point();
            sim::Quiet q;
            auto r = m->emplace(k, d);
            return { at(r.first), r.second };
        }
        template <class F, class... A>
        std::pair<iterator, bool> update(const uint64_t& k, F f, A... a) {
            sim::yield_point();
            sim::Quiet q;
            auto i = m->find(k);
            if (i == m->end()) return { end(), false };
            f(i->second, a...);
            return { at(i), true };
        }
        iterator find(const uint64_t& k) {
            sim::yield_point();
            sim::Quiet q;
            auto i = m->find(k);
            if (i == m->end()) return end();
            return at(i);
        }
        iterator end() { return iterator { { 0, 0 }, false }; }
    };
    Handle get_handle() { return Handle(&m_); }
 private:
    M m_;
};
}
