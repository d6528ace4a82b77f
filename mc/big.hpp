// Long runs on the real containers with cheap counting elements: every public way to grow or shrink a container
// one element (or one block) at a time, at sizes where a growth policy shows what it is, followed by whole-container
// operations at that size. Deterministic: the programs are enumerated, contents are compared with the ideal
// sequence / set, work (element operations, comparisons, allocations, bytes) with the documented complexity.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <algorithm>
#include <cstdarg>
#include <csignal>
#include <deque>
#include <vector>
#include <string>
#include <utility>
#include <iterator>
#include <new>
#include <chrono>
#include "sfl/vector.hpp"
#include "sfl/small_vector.hpp"
#include "sfl/static_vector.hpp"
#include "sfl/compact_vector.hpp"
#include "sfl/devector.hpp"
#include "sfl/segmented_vector.hpp"
#include "sfl/segmented_devector.hpp"
#include "sfl/small_flat_set.hpp"
#include "sfl/small_flat_map.hpp"
#include "sfl/small_flat_multiset.hpp"
#include "sfl/small_flat_multimap.hpp"
#include "sfl/small_unordered_flat_set.hpp"
#include "sfl/small_unordered_flat_map.hpp"
#include "sfl/small_unordered_flat_multiset.hpp"
#include "sfl/small_unordered_flat_multimap.hpp"
#include "sfl/static_flat_set.hpp"
#include "sfl/static_flat_map.hpp"
#include "sfl/static_flat_multiset.hpp"
#include "sfl/static_flat_multimap.hpp"
#include "sfl/static_unordered_flat_set.hpp"
#include "sfl/static_unordered_flat_map.hpp"
#include "sfl/static_unordered_flat_multiset.hpp"
#include "sfl/static_unordered_flat_multimap.hpp"

namespace big {

typedef unsigned long long u64;
struct Cnt { u64 made, moved, gone, alloc, bytes, cmp; long live, blocks; };
inline Cnt g;
inline std::string out_path, driver, prog, label;
inline u64 n_prog, n_ops, n_checked;
inline std::vector<std::string> samples;

[[noreturn]] inline void fail(const char* f, ...)
{
    char b[600]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
    std::string t = "property: " + prog + "\ndriver: " + driver + "\nprogram: " + label + "\nviolation: " + b + "\n";
    if (!out_path.empty()) if (FILE* o = fopen(out_path.c_str(), "w")) { fputs(t.c_str(), o); fclose(o); }
    fputs(t.c_str(), stdout); fflush(stdout); _exit(10);
}
inline void on_signal(int s) { fail("%s while executing the library", s == SIGABRT ? "an assertion or abort" : s == SIGSEGV ? "an access to unmapped memory" : "a fatal signal"); }

// element: an int that counts what happens to it (moves do not throw; a moved-from element holds -1)
struct E {
    int v;
    E() : v(0) { ++g.made; ++g.live; } E(int x) : v(x) { ++g.made; ++g.live; }
    E(const E& o) : v(o.v) { ++g.made; ++g.live; } E(E&& o) noexcept : v(o.v) { o.v = -1; ++g.moved; ++g.live; }
    E& operator=(const E& o) { v = o.v; ++g.made; return *this; } E& operator=(E&& o) noexcept { int t = o.v; o.v = -1; v = t; ++g.moved; return *this; }
    ~E() { ++g.gone; --g.live; }
    friend bool operator==(const E& a, const E& b) { ++g.cmp; return a.v == b.v; } friend bool operator!=(const E& a, const E& b) { ++g.cmp; return a.v != b.v; }
    friend bool operator<(const E& a, const E& b) { ++g.cmp; return a.v < b.v; }
};
template <class T> struct A {
    using value_type = T; A() {} template <class U> A(const A<U>&) {}
    T* allocate(std::size_t n) { ++g.alloc; ++g.blocks; g.bytes += n * sizeof(T); return static_cast<T*>(::operator new(n * sizeof(T))); }
    void deallocate(T* p, std::size_t n) noexcept { --g.blocks; ::operator delete(p, n * sizeof(T)); }
    template <class U> bool operator==(const A<U>&) const { return true; } template <class U> bool operator!=(const A<U>&) const { return false; }
};
// single-pass and bidirectional counting ranges of ints
template <class Cat> struct R {
    using iterator_category = Cat; using value_type = int; using difference_type = std::ptrdiff_t; using pointer = const int*; using reference = int;
    int i; int operator*() const { return i; } R& operator++() { ++i; return *this; } R operator++(int) { R t = *this; ++i; return t; } R& operator--() { --i; return *this; }
    friend bool operator==(R a, R b) { return a.i == b.i; } friend bool operator!=(R a, R b) { return a.i != b.i; }
};
using In = R<std::input_iterator_tag>; using Bi = R<std::bidirectional_iterator_tag>;

struct Meter { Cnt c; Meter() : c(g) {} u64 ops() const { return g.made + g.moved - c.made - c.moved; } u64 dt() const { return g.gone - c.gone; } u64 al() const { return g.alloc - c.alloc; } u64 by() const { return g.bytes - c.bytes; } u64 cmp() const { return g.cmp - c.cmp; } };
inline void within(const char* what, double got, double max) { ++n_checked; if (got > max) fail("complexity: %s: %.0f, at most %.0f expected", what, got, max); }

enum Fam { VECTOR, SMALL, STATIC, COMPACT, DEVECTOR, SEGV, SEGD };

template <class C, Fam f, int N> struct SeqBig {
    static constexpr bool front = f == DEVECTOR || f == SEGD, seg = f == SEGV || f == SEGD, geo = f == VECTOR || f == SMALL || f == DEVECTOR;
    static void same(const C& x, const std::deque<int>& q)
    {
        if (x.size() != q.size() || x.empty() != q.empty()) fail("size() is %zu, expected %zu", (std::size_t)x.size(), q.size());
        auto w = q.begin(); std::size_t i = 0;
        for (auto it = x.begin(); it != x.end(); ++it, ++w, ++i) { if (w == q.end()) fail("iteration does not stop after %zu elements", i); if (it->v != *w) fail("element %zu of %zu is %d, expected %d", i, q.size(), it->v, *w); }
        if (w != q.end()) fail("iteration stops after %zu of %zu elements", i, q.size());
        for (i = 0; i < q.size(); i += 1 + q.size() / 4001) { if (x[i].v != q[i] || &x[i] != &*(x.begin() + (long)i) || &*x.nth(i) != &x[i] || x.index_of(x.nth(i)) != i) fail("operator[], nth and index_of disagree at %zu of %zu", i, q.size()); }
        if (g.live < (long)q.size()) fail("%ld live elements, expected at least %zu", g.live, q.size());
    }
    static void run1(const char* name, int n0, u64 K, void (*body)(C&, std::deque<int>&, int))
    {
        if (f == COMPACT) K = 600; else if (f == STATIC) K = (u64)N - (u64)n0 - 2; else if (f == SEGV || f == SEGD) K = std::min(K, (u64)1 << 18) ; 
        label = std::string(name) + ", " + std::to_string(K) + " times on a container of " + std::to_string(n0) + " elements"; ++n_prog; if (samples.size() < 4) samples.push_back(label);
        Cnt before = g;
        {
            C* xp = new C; C& x = *xp; std::deque<int> q; for (int i = 0; i < n0; ++i) { x.emplace_back(i); q.push_back(i); }
            Meter m; u64 half_al = 0, i = 0; std::size_t half_sz = 0;
            auto look = [&] {
                const double S = (double)(i + (u64)n0);
                if (f != COMPACT) { within("amortized element operations", (double)m.ops(), 12 * S + 64); within("amortized destructions", (double)m.dt(), 12 * S + 64); }
                if (geo) { within("allocations of a growing container", (double)m.al(), 3 * std::log2(S + 2) + 16); within("bytes allocated", (double)m.by(), (12 * S + 64) * sizeof(E)); }
                if (seg) { const double sg = S / N + 2; within("allocations", (double)m.al(), sg + 6 * std::log2(sg + 2) + 16); within("bytes allocated", (double)m.by(), 2 * (S + 8 * N) * sizeof(E) + 24 * (sg + 16) * sizeof(void*)); }
                if (f == COMPACT) { within("allocations", (double)m.al(), 4 * (double)i + 2); within("element operations", (double)m.ops(), (double)(i + 1) * (S + 4)); }
                if (f == STATIC && m.al()) fail("a static container allocated memory");
            };
            for (i = 0; i < K; ++i) { body(x, q, (int)i); if ((i & 255) == 0) look(); if (half_sz == 0 && i >= K / 2) { half_sz = x.size(); half_al = g.alloc; } n_ops++; }
            look();
            if (geo && half_sz > 1000 && x.size() >= half_sz) within("allocations while the last half of the elements was added", (double)(g.alloc - half_al), 10);
            same(x, q);
            after(x, q);
            same(x, q);
            delete xp;
        }
        if (g.live != before.live) fail("%ld elements were not destroyed (or destroyed twice)", g.live - before.live);
        if (g.blocks != before.blocks) fail("%ld allocations were not returned", g.blocks - before.blocks);
    }
    // operations on the container as a whole, at its full size; leaves (x, q) matching
    static void after(C& x, std::deque<int>& q)
    {
        const std::size_t n = q.size(); const double dn = (double)n;
        { Meter m; C y(x); within("copy construction: element operations", (double)m.ops(), dn); if (f != STATIC) within("copy construction: allocations", (double)m.al(), seg ? dn / N + 4 : 1); same(y, q); if (!(y == x) || y < x) fail("a copy compares different"); y.clear(); std::deque<int> e; same(y, e);
          Meter k; y = x; within("copy assignment: element operations", (double)k.ops(), 2 * dn); same(y, q); C z(std::move(y)); same(z, q); x.swap(z); same(z, q); same(x, q); }
        const std::size_t ps[] = {0, 1, n / 4, n / 2, n - n / 4, n ? n - 1 : 0, n}; const std::size_t cs[] = {1, 2, 300, n / 2};
        for (std::size_t p : ps) for (std::size_t k : cs) {
            if (p > n || (f == STATIC && n + k > (std::size_t)N) || k > 20000) continue;
            const std::size_t far = front ? std::min(p, n - p) : n - p;
            for (int kind = 0; kind < 4; ++kind) {
                if (kind == 3 && k > 2) continue;
                Meter m; typename C::iterator r = x.begin();
                if (kind == 0) r = x.insert(x.cbegin() + (long)p, k, E(7)); else if (kind == 1) r = x.insert(x.cbegin() + (long)p, Bi{0}, Bi{(int)k}); else if (kind == 2) { std::vector<E> s; s.reserve(k); for (std::size_t i = 0; i < k; ++i) s.emplace_back((int)i); r = x.insert(x.cbegin() + (long)p, s.data(), s.data() + k); } else r = x.insert(x.cbegin() + (long)p, In{0}, In{(int)k});
                ++n_ops; if ((std::size_t)(r - x.begin()) != p) fail("insert at %zu of %zu returns an iterator to %zu", p, n, (std::size_t)(r - x.begin()));
                if (kind < 2) within("insertion: element operations", (double)m.ops(), (m.al() && !seg ? 2 * dn : 2.0 * (double)(far + k)) + 3 * (double)k + 8);
                for (std::size_t i = 0; i < k; ++i) if (x[p + i].v != (kind ? (int)i : 7)) fail("insert at %zu of %zu: element %zu inserted is %d", p, n, i, x[p + i].v);
                const std::size_t f2 = front ? std::min(p, n - p) : n - p; Meter e; r = k == 1 ? x.erase(x.cbegin() + (long)p) : x.erase(x.cbegin() + (long)p, x.cbegin() + (long)(p + k));
                ++n_ops; if ((std::size_t)(r - x.begin()) != p) fail("erase at %zu of %zu returns an iterator to %zu", p, n, (std::size_t)(r - x.begin()));
                within("erasure: element operations", (double)e.ops(), f == COMPACT ? dn + (double)k : (double)f2 + 1); within("erasure: allocations", (double)e.al(), f == COMPACT ? 1 : 0);
            }
            same(x, q);
        }
        { Meter m; x.resize(n / 2 + 1); within("resize to half: element operations", (double)m.ops(), f == COMPACT ? dn + 1 : 0); std::deque<int> h(q.begin(), q.begin() + (long)std::min(n, n / 2 + 1)); if (n == 0) h.push_back(0); same(x, h); x.resize(n, E(5)); }
        for (std::size_t i = std::min(n, n / 2 + 1); i < n; ++i) q[i] = 5;
        // the value-initialized one
        same(x, q);
        { std::size_t d = 0, r = 0; std::deque<int> h; for (int v : q) if (v % 3 == 0) ++d; else h.push_back(v); u64 calls = 0; Meter m; r = erase_if(x, [&](const E& e) { ++calls; return e.v % 3 == 0; }); if (r != d) fail("erase_if returns %zu, expected %zu", r, d); if (calls != n) fail("erase_if calls its predicate %llu times on %zu elements", calls, n); within("erase_if: element operations", (double)m.ops(), (f == COMPACT ? 2 : 1) * (dn + 1)); q.swap(h); same(x, q); }
        { Meter m; x.assign(Bi{3}, Bi{3 + (int)n}); within("assign: element operations", (double)m.ops(), 3 * dn + 2); q.clear(); for (std::size_t i = 0; i < n; ++i) q.push_back(3 + (int)i); same(x, q); }
        if constexpr (f != STATIC && f != COMPACT) { Meter m; x.shrink_to_fit(); within("shrink_to_fit: element operations", (double)m.ops(), seg ? 0 : dn); if (!seg && x.capacity() != x.size() && x.capacity() != (f == SMALL ? (std::size_t)N : x.size())) fail("shrink_to_fit leaves capacity() %zu with %zu elements", (std::size_t)x.capacity(), (std::size_t)x.size()); same(x, q); }
    }
    static int run()
    {
        const u64 K = f == VECTOR || f == SMALL || f == DEVECTOR ? (u64)1 << 20 : (u64)1 << 18;
        for (int n0 : {0, 5}) {
            run1("push_back", n0, K, [](C& x, std::deque<int>& q, int i) { x.push_back(E(i)); q.push_back(i); });
            run1("emplace_back", n0, K / 4, [](C& x, std::deque<int>& q, int i) { x.emplace_back(i); q.push_back(i); });
            run1("insert(end(), value)", n0, K / 4, [](C& x, std::deque<int>& q, int i) { x.insert(x.cend(), E(i)); q.push_back(i); });
            run1("insert(end(), first, last) of one element", n0, K / 16, [](C& x, std::deque<int>& q, int i) { x.insert(x.cend(), Bi{i}, Bi{i + 1}); q.push_back(i); });
            if constexpr (f != COMPACT) run1("two push_back and one pop_back", n0, K / 16, [](C& x, std::deque<int>& q, int i) { x.emplace_back(i); x.emplace_back(i + 1); q.push_back(i); x.pop_back(); });
            if constexpr (front) {
                run1("push_front", n0, K, [](C& x, std::deque<int>& q, int i) { x.push_front(E(i)); q.push_front(i); });
                run1("emplace_front", n0, K / 4, [](C& x, std::deque<int>& q, int i) { x.emplace_front(i); q.push_front(i); });
                run1("insert(begin(), value)", n0, K / 4, [](C& x, std::deque<int>& q, int i) { x.insert(x.cbegin(), E(i)); q.push_front(i); });
                run1("push_back and push_front alternating", n0, K / 8, [](C& x, std::deque<int>& q, int i) { if (i & 1) { x.push_front(E(i)); q.push_front(i); } else { x.push_back(E(i)); q.push_back(i); } });
            }
        }
        if constexpr (f != STATIC && f != COMPACT) {   // a single-pass range cannot announce its length
            for (int w = 0; w < 3; ++w) { // in the middle: documented as linear in the range plus the distance to the (nearer) end
                const int n = 1 << 14, at = w == 0 ? n / 4 : w == 1 ? n / 2 : n - n / 4; label = "insert a single-pass range of 16384 elements at position " + std::to_string(at) + " of 16384"; ++n_prog;
                C x; for (int i = 0; i < n; ++i) x.emplace_back(-i); std::deque<int> q; for (int i = 0; i < at; ++i) q.push_back(-i); for (int i = 0; i < n; ++i) q.push_back(i); for (int i = at; i < n; ++i) q.push_back(-i);
                Meter m; auto it = x.insert(x.cbegin() + at, In{0}, In{n}); within("element operations", (double)m.ops(), 20.0 * n); if (it - x.begin() != at) fail("the returned iterator is at %ld", (long)(it - x.begin())); same(x, q); n_ops += (u64)n;
            }
            for (int w = 0; w < 3; ++w) {
                const int n = 1 << 17; label = std::string(w == 0 ? "construct" : w == 1 ? "assign" : "insert at the end") + " from a single-pass range of 131072 elements"; ++n_prog;
                Meter m; std::deque<int> q; for (int i = 0; i < n; ++i) q.push_back(i);
                C x; if (w == 0) { C y(In{0}, In{n}); x.swap(y); } else if (w == 1) x.assign(In{0}, In{n}); else x.insert(x.cend(), In{0}, In{n});
                within("element operations", (double)m.ops(), 14.0 * n); if (geo) within("allocations", (double)m.al(), 3 * 17 + 16); same(x, q); n_ops += (u64)n;
            }
        }
        return 0;
    }
};

template <class C, bool ord, bool uniq, bool mapp, int N> struct FlatBig { // N > 0: static container
    static int key(const E& e) { return e.v; } template <class P> static int key(const P& p) { return p.first.v; }
    static void put(C& x, int k) { if constexpr (mapp) x.emplace(k, k + 1); else x.emplace(k); }
    static void puth(C& x, typename C::const_iterator h, int k) { if constexpr (mapp) x.emplace_hint(h, k, k + 1); else x.emplace_hint(h, k); }
    static void sorted(const C& x, int n, int step, const char* w)
    {
        if (x.size() != (std::size_t)n) fail("%s: size() is %zu, expected %d", w, (std::size_t)x.size(), n);
        std::vector<int> s; for (auto it = x.begin(); it != x.end(); ++it) { s.push_back(key(*it)); if constexpr (mapp) if (it->second.v != it->first.v + 1) fail("%s: key %d has value %d", w, it->first.v, it->second.v); }
        if (!ord) std::sort(s.begin(), s.end());
        for (int i = 0; i < n; ++i) if (s[(std::size_t)i] != i * step) fail("%s: element %d of %d has key %d, expected %d", w, i, n, s[(std::size_t)i], i * step);
    }
    static int run()
    {
        const int n = N ? N - 2 : ord || !uniq ? 1 << 15 : 1 << 11; const double per = mapp ? 2 : 1;
        for (int kind = 0; kind < 4; ++kind) {
            label = std::string(kind == 0 ? "emplace of ascending keys" : kind == 1 ? "emplace_hint(end()) of ascending keys" : kind == 2 ? "insert(first, last) of ascending keys" : "emplace of keys from the middle outwards") + ", " + std::to_string(n) + " times"; ++n_prog; samples.push_back(label);
            const int nn = kind == 3 && ord ? std::min(n, 1 << 11) : n; Cnt before = g;
            {
                C* xp = new C; C& x = *xp; Meter m;
                auto look = [&](int i) { const double S = i + 1; if (kind < 3 || !ord) within("element operations of a series of insertions at the end", (double)m.ops(), per * (14 * S + 20)); if (!N) { within("allocations of a series of insertions", (double)m.al(), 3 * std::log2(S + 2) + 16); within("bytes allocated", (double)m.by(), (12 * S + 64) * per * sizeof(E)); } else if (m.al()) fail("a static container allocated memory");
                    if (ord) within("comparisons of a series of insertions", (double)m.cmp(), S * (2 * std::log2(S + 2) + 6)); else if (!uniq) within("comparisons of a series of insertions", (double)m.cmp(), 0); else within("comparisons of a series of insertions", (double)m.cmp(), S * (S + 2)); };
                if (kind == 2) { if constexpr (mapp) { std::vector<std::pair<E, E>> s; s.reserve((std::size_t)n); for (int i = 0; i < n; ++i) s.emplace_back(2 * i, 2 * i + 1); m = Meter(); x.insert(s.begin(), s.end()); look(n); } else { std::vector<E> s; s.reserve((std::size_t)n); for (int i = 0; i < n; ++i) s.emplace_back(2 * i); m = Meter(); x.insert(s.begin(), s.end()); look(n); } n_ops += (u64)n; }
                else for (int i = 0; i < nn; ++i) { const int k = kind < 3 ? 2 * i : 2 * (i % 2 ? nn / 2 + i / 2 : nn / 2 - 1 - i / 2); if (kind == 1) puth(x, x.cend(), k); else put(x, k); ++n_ops; if ((i & 63) == 0) look(i); }
                sorted(x, nn, 2, "after the insertions");
                const C& y = x; const double B = ord ? 2 * std::log2(nn + 1.0) + 2 : nn + 2.0;
                for (int k = -1; k <= 2 * nn; k += k < 40 || k > 2 * nn - 40 ? 1 : 1 + nn / 50) {
                    E e(k); const bool has = k >= 0 && k < 2 * nn && k % 2 == 0; n_ops += 4;
                    { Meter c; auto it = y.find(e); within("find: comparisons", (double)c.cmp(), B); if ((it != y.end()) != has || (has && key(*it) != k)) fail("find(%d) among %d elements is wrong", k, nn); }
                    { Meter c; bool h = y.contains(e); within("contains: comparisons", (double)c.cmp(), B); if (h != has) fail("contains(%d) among %d elements is wrong", k, nn); }
                    { Meter c; auto h = y.count(e); within("count: comparisons", (double)c.cmp(), ord ? 2 * B : B); if (h != (has ? 1u : 0u)) fail("count(%d) among %d elements is wrong", k, nn); }
                    if constexpr (ord) { Meter c; auto l = y.lower_bound(e), u = y.upper_bound(e); within("lower_bound and upper_bound: comparisons", (double)c.cmp(), 2 * B); const long li = std::min<long>((k + 1) / 2, nn); if (l - y.begin() != li || u - l != (has ? 1 : 0)) fail("lower_bound/upper_bound(%d) among %d elements are wrong", k, nn); auto r = y.equal_range(e); if (r.first != l || r.second != u) fail("equal_range(%d) among %d elements is wrong", k, nn); }
                    if constexpr (uniq) { Meter c; put(x, std::max(0, std::min(k & ~1, 2 * nn - 2))); within("insertion of an existing key: comparisons", (double)c.cmp(), B + 2); if (x.size() != (std::size_t)nn) fail("insertion of an existing key changed size() to %zu", (std::size_t)x.size()); }
                }
                if (C z(y); true) { sorted(z, nn, 2, "copy"); Meter c; if (!(z == y)) fail("a copy compares different"); if constexpr (ord) within("operator==: comparisons", (double)c.cmp(), 2.0 * per * nn); C w(std::move(z)); sorted(w, nn, 2, "move"); w.swap(x); sorted(x, nn, 2, "swap"); }
                for (int k : {0, nn / 2, nn - 1}) { Meter c; auto r = x.erase(E(2 * k)); if (r != 1) fail("erase(key) returns %zu", (std::size_t)r); within("erase(key): element operations", (double)c.ops(), per * (nn + 2)); put(x, 2 * k); }
                if constexpr (ord) sorted(x, nn, 2, "erase and re-insert");
                u64 calls = 0; Meter c; auto r = erase_if(x, [&](const typename C::value_type& e) { ++calls; return key(e) % 4 != 0; });
                if ((int)r != nn / 2 || calls != (u64)nn) fail("erase_if returned %zu after %llu calls of the predicate on %d elements", (std::size_t)r, calls, nn);
                if (!ord) within("erase_if: element operations", (double)c.ops(), per * (nn + 2)); /* ordered: known finding ordered_flat_erase_if_quadratic, judged on small containers */ sorted(x, nn - nn / 2, 4, "erase_if");
                delete xp;
            }
            if (g.live != before.live) fail("%ld elements were not destroyed (or destroyed twice)", g.live - before.live);
            if (g.blocks != before.blocks) fail("%ld allocations were not returned", g.blocks - before.blocks);
        }
        return 0;
    }
};

template <class D> int big_main(int argc, char** argv)
{
    for (int i = 1; i + 1 < argc; i += 2) { std::string a = argv[i], v = argv[i + 1]; if (a == "--out") out_path = v; else if (a == "--prop") prog = v; else if (a == "--name") driver = v; }
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) std::signal(s, on_signal);
    auto t0 = std::chrono::steady_clock::now();
    try { D::run(); } catch (const std::exception& e) { fail("exception %s", e.what()); }
    printf("STATS {\"driver\":\"%s\",\"states\":%llu,\"transitions\":%llu,\"replays\":%llu,\"distinct\":%llu,\"complete\":true,\"bounds_checked\":%llu,\"wall\":%.2f,\"samples\":[", driver.c_str(), n_prog, n_ops, n_prog, n_prog, n_checked, std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count());
    for (std::size_t i = 0; i < samples.size() && i < 4; ++i) printf("%s\"%s\"", i ? "," : "", samples[i].c_str());
    printf("]}\n"); return 0;
}

} // namespace big
