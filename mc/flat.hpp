// Flat associative containers: {small_,static_}{flat,unordered_flat}_{set,map,multiset,multimap}.
#pragma once
#include "engine.hpp"
#include <cmath>
#include "sfl/small_flat_set.hpp"
#include "sfl/small_flat_map.hpp"
#include "sfl/small_flat_multiset.hpp"
#include "sfl/small_flat_multimap.hpp"
#include "sfl/static_flat_set.hpp"
#include "sfl/static_flat_map.hpp"
#include "sfl/static_flat_multiset.hpp"
#include "sfl/static_flat_multimap.hpp"
#include "sfl/small_unordered_flat_set.hpp"
#include "sfl/small_unordered_flat_map.hpp"
#include "sfl/small_unordered_flat_multiset.hpp"
#include "sfl/small_unordered_flat_multimap.hpp"
#include "sfl/static_unordered_flat_set.hpp"
#include "sfl/static_unordered_flat_map.hpp"
#include "sfl/static_unordered_flat_multiset.hpp"
#include "sfl/static_unordered_flat_multimap.hpp"
#include "sfl/segmented_vector.hpp"

namespace mc {

#ifndef MC_FMAXN
#define MC_FMAXN 24
#endif
constexpr int FMAXN = MC_FMAXN;
enum : int { G_MOD = 1, G_ALIAS = 2, G_CAT = 4, G_HINT = 8, G_CTOR = 16, G_ERASEIF = 32, G_CAP = 64, G_OBS = 128, G_COPY = 256, G_PAIR = 512, G_HET = 1024, G_REL = 2048, G_BAD = 4096, G_COST = 8192, G_BUILD = 16384, G_HUGE = 32768 };
enum FCat { CT_PTR, CT_IN, CT_FWD, CT_IL, CT_INT, CT_MOVE, CT_SEG, CT_COUNT };

enum FlatOp : u8 {
    F_CDEF = 1, F_CRANGE, F_CBUILD,
    F_INS_C, F_INS_M, F_INS_P, F_INS_X, F_EMP, F_EMPH, F_INSH_C, F_INSH_M, F_INSH_P, F_INSH_X, F_INS_R, F_OPIL,
    F_ER1, F_ER1C, F_ERR, F_ERK, F_ERX, F_CLEAR, F_RES, F_SHRINK, F_OBS, F_ERIF, F_FILLUP, F_HUGE,
    F_TE, F_TE_M, F_TE_X, F_TEH, F_TEH_M, F_TEH_X, F_IOA, F_IOA_M, F_IOA_X, F_IOAH, F_IOAH_M, F_IOAH_X, F_SUB, F_SUB_M, F_SUB_X,
    F_A_INS, F_A_INSH, F_A_EMP, F_A_EMPH, F_A_ERK, F_A_TE, F_A_TEK, F_A_IOA, F_A_IOAK, F_A_SUBK, F_A_INSR, F_A_IOAM, F_A_TEM,
    F_SELFCA, F_SELFSW, F_BAD, F_LADDER, F_BIG,
    F_CC = 200, F_CCA, F_MC, F_MCA,
    F_CA = 220, F_MA, F_SWAP, F_NSWAP, F_CMP, F_INS_FROM, F_BADSW
};

// ------------------------------------------------------------------ keys: val = class * 256 + tag
inline int cls(i32 v) { return v >> 8; }
inline int mk(int c, int tag) { return c * 256 + tag; }
struct Probe { int v; operator int() const { return v; } };     // heterogeneous key
struct Band { int lo, hi; };                                     // heterogeneous key equivalent to a range of classes

inline u32 cmp_ids;     // comparator objects used during the current call (bit per id)
inline bool key_bad(i32 v) { return v == MOVED; }
inline void cmp_event(int id, i32 a, i32 b)
{
    event(K_CMP); cmp_ids |= 1u << (id & 31);
    (void)a; (void)b;
}
inline i32 rawkey(const ElCore& e) { el_check(&e, "comparison of"); return e.val; }
inline i32 rawkey(const TR& e) { return e.val; }

// Ordered comparison: even ids ascending, odd ids descending by class.
template <bool TRANSP> struct LessT {};
template <> struct LessT<true> { using is_transparent = void; };
template <class K, bool TRANSP> struct Less : LessT<TRANSP>
{
    int id;
    Less(int i = 0) : id(i) {}
    Less(const Less& o) : id(o.id) { event(K_CMPCP); }
    Less(Less&& o) noexcept : id(o.id) {}
    Less& operator=(const Less& o) { event(K_CMPCP); id = o.id; return *this; }
    Less& operator=(Less&& o) noexcept { id = o.id; return *this; }
    static bool lt(int id, int a, int b) { return id & 1 ? b < a : a < b; }
    bool operator()(const K& a, const K& b) const { cmp_event(id, rawkey(a), rawkey(b)); return lt(id, cls(rawkey(a)), cls(rawkey(b))); }
    template <bool B = TRANSP, typename std::enable_if<B>::type* = nullptr> bool operator()(const K& a, const Probe& b) const { cmp_event(id, rawkey(a), b.v); return lt(id, cls(rawkey(a)), cls(b.v)); }
    template <bool B = TRANSP, typename std::enable_if<B>::type* = nullptr> bool operator()(const Probe& a, const K& b) const { cmp_event(id, a.v, rawkey(b)); return lt(id, cls(a.v), cls(rawkey(b))); }
    template <bool B = TRANSP, typename std::enable_if<B>::type* = nullptr> bool operator()(const K& a, const Band& b) const { cmp_event(id, rawkey(a), 0); return id & 1 ? b.hi < cls(rawkey(a)) : cls(rawkey(a)) < b.lo; }
    template <bool B = TRANSP, typename std::enable_if<B>::type* = nullptr> bool operator()(const Band& a, const K& b) const { cmp_event(id, 0, rawkey(b)); return id & 1 ? cls(rawkey(b)) < a.lo : a.hi < cls(rawkey(b)); }
};
// Equality: even ids compare classes, odd ids classes without their lowest bit.
template <class K, bool TRANSP> struct Eq : LessT<TRANSP>
{
    int id;
    Eq(int i = 0) : id(i) {}
    Eq(const Eq& o) : id(o.id) { event(K_CMPCP); }
    Eq(Eq&& o) noexcept : id(o.id) {}
    Eq& operator=(const Eq& o) { event(K_CMPCP); id = o.id; return *this; }
    Eq& operator=(Eq&& o) noexcept { id = o.id; return *this; }
    static bool eq(int id, int a, int b) { return (a >> (id & 1)) == (b >> (id & 1)); }
    bool operator()(const K& a, const K& b) const { cmp_event(id, rawkey(a), rawkey(b)); return eq(id, cls(rawkey(a)), cls(rawkey(b))); }
    template <bool B = TRANSP, typename std::enable_if<B>::type* = nullptr> bool operator()(const K& a, const Probe& b) const { cmp_event(id, rawkey(a), b.v); return eq(id, cls(rawkey(a)), cls(b.v)); }
    template <bool B = TRANSP, typename std::enable_if<B>::type* = nullptr> bool operator()(const Probe& a, const K& b) const { cmp_event(id, a.v, rawkey(b)); return eq(id, cls(a.v), cls(rawkey(b))); }
};

struct FEnt { i32 k, v; };
struct FlatModel { i32 n, aid, cid, broken; FEnt e[FMAXN]; };
inline FlatModel FM[NSLOT];

struct NoMap {};

template <class CFG> struct Flat
{
    using K = typename CFG::K; using K_t = K;
    using V = typename CFG::V;                        // NoMap for sets
    using C = typename CFG::C;
    using VT = typename C::value_type;
    using It = typename C::iterator; using CI = typename C::const_iterator;
    static constexpr bool ord = CFG::ord, uniq = CFG::uniq, small = CFG::small, transp = CFG::transp;
    static constexpr bool mapp = !std::is_same<V, NoMap>::value;
    static constexpr int N = CFG::N, AC = CFG::AC;
    static constexpr bool has_alloc = small;
    static constexpr bool can_copy = std::is_copy_constructible<VT>::value;
    static constexpr bool nothrow_move = std::is_nothrow_move_constructible<VT>::value && std::is_nothrow_move_assignable<VT>::value;
    static constexpr bool documented_strong = std::is_nothrow_move_constructible<VT>::value || can_copy;
    static constexpr std::size_t objsz = sizeof(C), objal = alignof(C);
    static constexpr bool small_max = (AC > 0) && (AC & A_MAX);
    static bool over_max(int n) { return small_max && n > (int)H.maxsz; }
    static constexpr bool pocca = (AC >= 0) && (AC & A_POCCA), pocma = (AC >= 0) && (AC & A_POCMA), pocs = (AC >= 0) && (AC & A_POCS), stateful = (AC >= 0) && (AC & A_STATE);
    using A = typename CFG::A;
    using Cmp = typename CFG::Cmp;
    static constexpr int per = mapp ? 2 : 1;          // tracked elements per entry

    static C& c(int s) { return *std::launder(reinterpret_cast<C*>(slot(s))); }
    static void reset() { cons_required = AC > 0 && (AC & A_CONS); model_mem = (char*)FM; model_sz = sizeof FM; memset(FM, 0, sizeof FM); H.fresh = 128; if (small_max) H.maxsz = (u32)(opt.extra ? opt.extra : 5); }
    static int size(int s) { return FM[s].broken ? 10000 : FM[s].n; }
    static int capacity(int s) { return (int)c(s).capacity(); }
    static int limit() { return small ? opt.L : std::min(opt.L, N); }
    static int tag() { int t = H.fresh++; if (t > 255) fail("harness: out of tags"); return t; }
    static int mval() { return 300000 + H.fresh++; }
    static bool eqv(int id, i32 a, i32 b) { if constexpr (ord) return cls(a) == cls(b); else return Eq<K, false>::eq(id, cls(a), cls(b)); }
    static bool lt(int id, i32 a, i32 b) { return Less<K, false>::lt(id, cls(a), cls(b)); }
    static const K& key(const VT& e) { if constexpr (mapp) return e.first; else return e; }
    static i32 kv(const VT& e) { return val_of(key(e)); }
    static i32 mv(const VT& e) { if constexpr (mapp) return val_of(e.second); else { (void)e; return 0; } }
    static bool alloc_eq(int a, int b) { return !stateful || a == b; }

    // ------------------------------------------------------------ model
    static int m_find(const FlatModel& m, i32 k) { for (int i = 0; i < m.n; ++i) if (eqv(m.cid, m.e[i].k, k)) return i; return -1; }
    static int m_lb(const FlatModel& m, i32 k) { int i = 0; while (i < m.n && lt(m.cid, m.e[i].k, k)) ++i; return i; }
    static int m_ub(const FlatModel& m, i32 k) { int i = 0; while (i < m.n && !lt(m.cid, k, m.e[i].k)) ++i; return i; }
    static int m_count(const FlatModel& m, i32 k) { int r = 0; for (int i = 0; i < m.n; ++i) r += eqv(m.cid, m.e[i].k, k); return r; }
    static void m_put(FlatModel& m, int p, i32 k, i32 v) { if (m.n >= FMAXN) fail("harness: model full"); for (int i = m.n; i > p; --i) m.e[i] = m.e[i-1]; m.e[p] = FEnt{k, v}; ++m.n; }
    // returns position and whether inserted
    static int m_insert(FlatModel& m, i32 k, i32 v, bool& ins, int hint = -1)
    {
        ins = true;
        if constexpr (uniq) { int f = m_find(m, k); if (f >= 0) { ins = false; return f; } }
        int p;
        if constexpr (ord) { p = m_ub(m, k); if (hint >= 0) { int l = m_lb(m, k); if (hint >= l && hint <= p) p = hint; } } else p = m.n;
        m_put(m, p, k, v); return p;
    }
    static void m_er(FlatModel& m, int p, int q) { for (int i = q; i < m.n; ++i) m.e[p + i - q] = m.e[i]; m.n -= q - p; }

    // Equivalence classes in order of first position: number of classes, class label of every position.
    static int runs(const FlatModel& m, int* lab)
    {
        int r = 0; int rep[FMAXN];
        for (int i = 0; i < m.n; ++i) { int f = -1; for (int j = 0; j < r; ++j) if (eqv(m.cid, m.e[rep[j]].k, m.e[i].k)) f = j; if (f < 0) { rep[r] = i; f = r++; } lab[i] = f; }
        return r;
    }
    static void relabel(int s)
    {
        FlatModel& m = FM[s]; H.fresh = 128; if (m.broken) return;
        int lab[FMAXN]; int R = runs(m, lab); C& x = c(s);
        for (int i = 0; i < m.n; ++i) {
            int cl = ord ? ((m.cid & 1) ? 2 * (R - lab[i]) : 2 * (lab[i] + 1)) : 2 * (lab[i] + 1);
            const VT& e = *(x.begin() + i);
            m.e[i].k = mk(cl, 64 * s + i + 1); set_val(key(e), m.e[i].k);
            if constexpr (mapp) { m.e[i].v = 200000 + 1000 * s + i; set_val(e.second, m.e[i].v); }
        }
    }
    static void canon(int s, std::string& out)
    {
        C& x = c(s); FlatModel& m = FM[s];
        auto put = [&](u64 v) { out.append((const char*)&v, 8); };
        put(x.size()); put(x.capacity()); put((u64)m.cid); put((u64)m.broken);
        int lab[FMAXN]; if (!m.broken) { runs(m, lab); for (int i = 0; i < m.n; ++i) put((u64)lab[i]); }
        if constexpr (K::tracked) canon_graph(slot(s), sizeof(C), K::SZ, out, [](const ElCore*) { return 0; });
        else { if (m.n) put(slot_of(&*x.begin()) >= 0); if constexpr (has_alloc) put((u64)x.get_allocator().get()); }
    }
    static void destroy(int s)
    {
        Outcome o = call([&] { c(s).~C(); });
        if (o != OK) fail("destructor threw");
        H.slot_on[s] = 0; FM[s].n = 0; memset(slot(s), POISON, sizeof(C));
    }
    static u32 total_live() { u32 n = 0; for (int s = 0; s < NSLOT; ++s) if (H.slot_on[s]) n += (u32)(FM[s].n * per); return n; }
    static void check_global() { if (K::tracked && H.live_arena != (i32)total_live()) fail("%d live elements in container storage, expected %u (leaked or lost elements)", H.live_arena, total_live());
        if constexpr (small && sizeof(VT) != 8) {
            std::size_t have = 0, need = 0;
            for (u32 i = 0; i < H.na; ++i) if (recs[i].st == 1 && recs[i].esz == sizeof(VT)) have += recs[i].n;
            for (int s = 0; s < NSLOT; ++s) if (H.slot_on[s]) { std::size_t k = c(s).capacity(); need += k == (std::size_t)N ? 0 : k; }
            if (need > have) fail("capacity() promises %zu elements, but only %zu are allocated", need, have);
        }
    }
    // the fixed series of operations of Explorer::probe
    static constexpr int PROBES = 10;
    static bool probe_op(int s, int k, Op& o)
    {
        const int n = FM[s].n; const bool full = (!small && n >= N) || n > FMAXN - 8;
        if (FM[s].broken && k < 8) return false;
        switch (k) {
        case 0: case 9: o = Op(F_EMP, 1); return !full;
        case 1: o = Op(F_EMP, n + 40); return !full;
        case 2: o = Op(F_EMP, 3); return !full;
        case 3: o = Op(F_FILLUP); return small;
        case 4: o = Op(F_ER1, 0); return n > 0;
        case 5: o = Op(F_SHRINK); return small;
        case 6: o = Op(F_ER1, n - 1); return n > 0;
        case 7: o = Op(F_EMP, 2); return !full;
        default: o = Op(F_CLEAR); return true;
        }
    }

    static void check(int s)
    {
        C& x = c(s); const C& y = x; FlatModel& m = FM[s]; std::size_t n = y.size();
        if (n != (std::size_t)m.n) fail("size() is %zu, expected %d", n, m.n);
        if (y.empty() != (m.n == 0)) fail("empty() disagrees with size()");
        if (y.capacity() < n) fail("capacity() < size()");
        if (y.end() - y.begin() != m.n) fail("end()-begin() is %td, expected %d", (std::ptrdiff_t)(y.end() - y.begin()), m.n);
        int i = 0;
        for (auto it = y.begin(); it != y.end(); ++it, ++i) {
            if (i >= m.n) fail("iteration visits more than size() elements");
            i32 k = kv(*it), v = mv(*it);
            if (m.broken) continue;
            if (k != m.e[i].k) fail("element %d has key (class %d, tag %d), expected (class %d, tag %d)", i, cls(k), k & 255, cls(m.e[i].k), m.e[i].k & 255);
            if (mapp && v != m.e[i].v) fail("element %d has mapped value %d, expected %d", i, v, m.e[i].v);
        }
        if (i != m.n) fail("iteration visits fewer than size() elements");
        if (n && (y.data() != &*y.begin() || y.data() + (n - 1) != &*(y.end() - 1))) fail("data() / contiguity wrong");
        if (const_cast<C&>(y).data() != y.data()) fail("data() of a non-const container is not the address of the first element");
        if (y.available() != y.capacity() - n) fail("available() != capacity() - size()");
        if constexpr (!small) { if (y.capacity() != (std::size_t)N || y.max_size() != (std::size_t)N || y.full() != (n == (std::size_t)N)) fail("static container: capacity/max_size/full wrong"); if (slot_of(y.data()) != s && n) fail("static container: elements not inside the object"); }
        else {
            if (y.capacity() < (std::size_t)N) fail("capacity() < N");
            if (n) { bool inside = slot_of(y.data()) == s; if (inside != (y.capacity() == (std::size_t)N)) fail("internal storage in use iff capacity()==N is violated (capacity %zu)", (std::size_t)y.capacity()); }
            if (y.get_allocator().get() != (stateful ? m.aid : 0)) fail("get_allocator() returns allocator %d, expected %d", y.get_allocator().get(), m.aid);
        }
        int id; if constexpr (ord) id = y.key_comp().id; else id = y.key_eq().id;
        if (id != m.cid) fail("container uses comparison object %d, expected %d", id, m.cid);
        if (m.broken) return;
        for (int a = 0; a + 1 < m.n; ++a) if constexpr (ord) { if (lt(m.cid, m.e[a + 1].k, m.e[a].k)) fail("elements %d and %d are out of order", a, a + 1); }
        if constexpr (uniq) for (int a = 0; a < m.n; ++a) for (int b = a + 1; b < m.n; ++b) if (eqv(m.cid, m.e[a].k, m.e[b].k)) fail("elements %d and %d have equivalent keys", a, b);
    }

    // all read-only operations, for every key class around the content
    template <class X> static void lookups(C& x, const FlatModel& m, i32 k, const X& q, const char* how)
    {
        const C& y = x; int f = m_find(m, k), cnt_ = m_count(m, k);
        auto ix = [&](auto it) { return (long)(it - (decltype(it))x.begin()); };
        auto budget = [&](const char* w, double lim) { if ((double)fp_count > lim) fail("%s performs %llu comparisons for %d elements", w, (unsigned long long)fp_count, m.n); };
        double lg = 2 * std::ceil(std::log2(m.n + 1.0)) + 2, lin = 2.0 * m.n + 2;
        double B = ord ? lg : lin;
        long r1, r2;
        r1 = -2; call([&] { r1 = ix(x.find(q)); }); budget("find", B);
        r2 = -2; call([&] { r2 = (long)(y.find(q) - y.begin()); }); budget("find", B);
        if (uniq || !ord) { if (f < 0) { if (r1 != m.n || r2 != m.n) fail("find(absent %s) does not return end()", how); } else if (r1 < 0 || r1 >= m.n || !eqv(m.cid, m.e[r1].k, k) || r2 != r1) fail("find(present %s) returns index %ld", how, r1); }
        else { if (f < 0) { if (r1 != m.n || r2 != m.n) fail("find(absent %s) does not return end()", how); } else if (r1 < 0 || r1 >= m.n || r2 < 0 || r2 >= m.n || !eqv(m.cid, m.e[r1].k, k) || !eqv(m.cid, m.e[r2].k, k)) fail("find(present %s) returns index %ld", how, r1); }
        std::size_t ct = 99; call([&] { ct = (std::size_t)y.count(q); }); if ((int)ct != cnt_) fail("count(%s) is %zu, expected %d", how, ct, cnt_);
        budget("count", ord ? (uniq ? lg : 2 * lg + m.n) : lin);
        bool cn = false; call([&] { cn = y.contains(q); }); if (cn != (f >= 0)) fail("contains(%s) is %d", how, (int)cn); budget("contains", B);
        if constexpr (ord) {
            int l = m_lb(m, k), u = m_ub(m, k);
            call([&] { r1 = ix(x.lower_bound(q)); r2 = (long)(y.lower_bound(q) - y.begin()); }); if (r1 != l || r2 != l) fail("lower_bound(%s) returns index %ld/%ld, expected %d", how, r1, r2, l); budget("lower_bound x2", 2 * lg);
            call([&] { r1 = ix(x.upper_bound(q)); r2 = (long)(y.upper_bound(q) - y.begin()); }); if (r1 != u || r2 != u) fail("upper_bound(%s) returns index %ld/%ld, expected %d", how, r1, r2, u); budget("upper_bound x2", 2 * lg);
            call([&] { auto p = x.equal_range(q); r1 = ix(p.first); r2 = ix(p.second); }); if (r1 != l || r2 != u) fail("equal_range(%s) returns [%ld,%ld), expected [%d,%d)", how, r1, r2, l, u); budget("equal_range", 2 * lg);
            call([&] { auto p = y.equal_range(q); r1 = (long)(p.first - y.begin()); r2 = (long)(p.second - y.begin()); }); if (r1 != l || r2 != u) fail("equal_range(%s) const returns [%ld,%ld), expected [%d,%d)", how, r1, r2, l, u);
        }
        if constexpr (mapp && uniq) {
            const V* pv = nullptr; const V* pc = nullptr;
            Outcome o1 = OK, o2 = OK;
#ifdef MC_NOEXC
            if (f >= 0)
#endif
            { o1 = call([&] { pv = &x.at(q); }); o2 = call([&] { pc = &y.at(q); });
            if (f < 0) { if (o1 != OOR || o2 != OOR) fail("at(absent %s) does not throw std::out_of_range", how); }
            else if (o1 != OK || o2 != OK || pv != pc || pv != &(y.begin() + f)->second) fail("at(present %s) wrong", how); }
#ifdef MC_NOEXC
            if (f < 0) { if (!aborts([&] { (void)x.at(q); }) || !aborts([&] { (void)y.at(q); })) fail("at(absent %s) does not abort", how); }
#endif
        }
    }
    static void observe(int s)
    {
        C& x = c(s); const C& y = x; FlatModel& m = FM[s]; int n = m.n;
        cmp_ids = 0;
        int lab[FMAXN]; int R = runs(m, lab); (void)lab;
        for (int q = 1; q <= 2 * R + 3; ++q) {
            K k(mk(q, 200)); lookups(x, m, mk(q, 200), static_cast<const K&>(k), "key");
            if constexpr (transp) { Probe p{mk(q, 201)}; lookups(x, m, p.v, static_cast<const Probe&>(p), "heterogeneous key"); }
        }
        for (int i = 0; i < n; ++i) lookups(x, m, m.e[i].k, key(*(y.begin() + i)), "own key");
        if constexpr (transp && ord && !uniq) for (int lo = 1; lo <= 2 * R + 1; ++lo) for (int hi = lo; hi <= 2 * R + 1; ++hi) {
            Band b{lo, hi}; int l = 0, cn = 0; for (int i = 0; i < n; ++i) { int q = cls(m.e[i].k); if (q >= lo && q <= hi) ++cn; else if (m.cid & 1 ? q > hi : q < lo) ++l; }
            if ((int)y.count(b) != cn || y.contains(b) != (cn > 0) || y.lower_bound(b) - y.begin() != l || y.upper_bound(b) - y.begin() != l + cn || y.equal_range(b).first - y.begin() != l || y.equal_range(b).second - y.begin() != l + cn) fail("lookup with a heterogeneous key equivalent to several elements wrong");
            auto it = y.find(b); if ((it != y.end()) != (cn > 0) || (cn && (it - y.begin() < l || it - y.begin() >= l + cn))) fail("find with a heterogeneous key equivalent to several elements wrong");
        }
        if (cmp_ids & ~(1u << m.cid)) fail("a comparison object other than the container's own was used");
        if constexpr (ord) { auto vc = y.value_comp(); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (vc(*(y.begin() + i), *(y.begin() + j)) != lt(m.cid, m.e[i].k, m.e[j].k)) fail("value_comp() wrong"); }
        // iterators
        It b = x.begin(), e = x.end(); CI cb = y.begin(), ce = y.end();
        if (cb != y.cbegin() || ce != y.cend()) fail("cbegin()/cend() differ from begin()/end()");
        { CI t = b; if (t != cb) fail("iterator converts to a different const_iterator"); }
        for (int i = 0; i <= n; ++i) {
            It a = b + i; CI ca = cb + i;
            if (x.nth((std::size_t)i) != a || y.nth((std::size_t)i) != ca) fail("nth(%d) is not begin() + %d", i, i);
            if ((int)y.index_of(a) != i || (int)y.index_of(ca) != i) fail("index_of(nth(%d)) is not %d", i, i);
            if (i < n) {
                if (&*a != &*ca || &b[i] != &*a || &cb[i] != &*a || kv(*a) != m.e[i].k) fail("iterator dereference at %d wrong", i);
                It t = a; It r = t++; if (r != a || t != b + (i + 1)) fail("post-increment wrong"); r = t--; if (t != a || r != b + (i + 1)) fail("post-decrement wrong");
                if (&++t != &t || t != b + (i + 1)) fail("pre-increment wrong"); if (&--t != &t || t != a) fail("pre-decrement wrong");
            }
            for (int j = 0; j <= n; ++j) {
                It d = b + j; CI cd = cb + j;
                if ((a - d) != i - j || (ca - cd) != i - j) fail("iterator difference wrong (%d,%d)", i, j);
                if ((a == d) != (i == j) || (a != d) != (i != j) || (a < d) != (i < j) || (a > d) != (i > j) || (a <= d) != (i <= j) || (a >= d) != (i >= j)) fail("iterator comparison wrong (%d,%d)", i, j);
                It t = a; t += (j - i); if (t != d) fail("iterator += wrong"); t = a; t -= (i - j); if (t != d) fail("iterator -= wrong");
            }
        }
        if constexpr (ord) {
            int k = n; for (auto it = x.rbegin(); it != x.rend(); ++it) { --k; if (k < 0 || &*it != &*(x.begin() + k)) fail("reverse iteration wrong"); } if (k) fail("reverse iteration wrong length");
            k = n; for (auto it = y.crbegin(); it != y.crend(); ++it) { --k; if (k < 0 || &*it != &*(y.begin() + k)) fail("const reverse iteration wrong"); } if (k) fail("reverse iteration wrong length");
            k = n; for (auto it = y.rbegin(); it != y.rend(); ++it) { --k; if (k < 0 || &*it != &*(y.begin() + k)) fail("const reverse iteration wrong"); } if (k) fail("reverse iteration wrong length");
        }
        if ((y.max_size() < (std::size_t)n && !(small && n <= N)) || y.max_size() == 0) fail("max_size() too small");
        if constexpr (small_max) if (y.max_size() != H.maxsz) fail("max_size() ignores the allocator's max_size()");
        if (C::static_capacity != (std::size_t)N) fail("static_capacity is not N");
    }

    struct Pre { FlatModel m; std::size_t cap; const VT* addr[FMAXN]; bool inside; };
    static Pre& grab(int s) { static Pre p[2]; static int w = 0; w ^= 1; Pre& q = p[w]; C& x = c(s); q.m = FM[s]; q.cap = x.capacity(); int i = 0; for (auto& e : x) q.addr[i++] = &e; q.inside = q.cap == (std::size_t)N; return q; }

    // read the content as it is (after an exception, or where any order is allowed)
    static void adopt(int s, FlatModel& m)
    {
        C& x = c(s); std::size_t n = x.size(); if (n > (std::size_t)FMAXN) fail("size() is %zu after an exception", n);
        int i = 0; for (auto& e : x) { if (i >= (int)n) fail("iteration visits more than size() elements"); m.e[i].k = kv(e); m.e[i].v = mv(e); ++i; }
        m.n = (i32)n;
        int id; if constexpr (ord) id = x.key_comp().id; else id = x.key_eq().id;
        m.cid = id;
    }
    static bool in_model(const FlatModel& m, const FEnt& e, bool with_v = true) { for (int i = 0; i < m.n; ++i) if (m.e[i].k == e.k && (!with_v || m.e[i].v == e.v)) return true; return false; }
    // after an exception: lifetime monitors have run; invariants must hold where element moves cannot throw
    static void after_fault(int s, const FlatModel* old, bool keep_old, const char* what)
    {
        FlatModel& m = FM[s]; adopt(s, m);
        if (!nothrow_move) { m.broken = 1; return; }
        for (int i = 0; i < m.n; ++i) if (m.e[i].k == MOVED) fail("%s: a moved-from key is left in the container after an exception", what);
        for (int a = 0; a + 1 < m.n; ++a) if constexpr (ord) { if (lt(m.cid, m.e[a + 1].k, m.e[a].k)) fail("%s: elements out of order after an exception", what); }
        if constexpr (uniq) for (int a = 0; a < m.n; ++a) for (int b = a + 1; b < m.n; ++b) if (eqv(m.cid, m.e[a].k, m.e[b].k)) fail("%s: equivalent keys in a unique container after an exception", what);
        if (old && keep_old) for (int i = 0; i < old->n; ++i) if (!in_model(m, old->e[i], false)) fail("%s: element %d was lost although the operation only inserts", what, i);
    }
    static void expect_unchanged(int s, const Pre& p, const char* what, bool cap)
    {
        C& x = c(s);
        if ((int)x.size() != p.m.n) fail("%s: size changed from %d to %zu although the operation failed (strong guarantee)", what, p.m.n, (std::size_t)x.size());
        int i = 0; for (auto& e : x) { if (kv(e) != p.m.e[i].k || (mapp && mv(e) != p.m.e[i].v) || &e != p.addr[i]) fail("%s: element %d changed or moved although the operation failed (strong guarantee)", what, i); ++i; }
        if (cap && x.capacity() != p.cap) fail("%s: capacity changed although the operation failed (strong guarantee)", what);
    }

    // ------------------------------------------------------------ ranges: pattern = classes in base 8, n digits
    static inline bool in_reached, last_ok;
    static VT make(i32 k, i32 v) { if constexpr (mapp) return VT(K(k), V(v)); else { (void)v; return VT(k); } }
    template <class F> static void with_range(int cat, int n, int pat, FEnt* ent, F f)
    {
        bool ic = in_call; in_call = false;
        { for (int i = 0; i < n; ++i) { ent[i].k = mk(1 + ((pat >> (3 * i)) & 7), tag()); ent[i].v = mapp ? mval() : 0; }
        ExtBuf<VT, 8> src; for (int i = 0; i < n; ++i) { if constexpr (mapp) src.add(std::piecewise_construct, std::forward_as_tuple(ent[i].k), std::forward_as_tuple(ent[i].v)); else src.add(ent[i].k); }
        in_call = ic;
        VT* a = src.data(); // mutable: insertion must copy from it all the same
        if constexpr (can_copy) switch (cat) {
            case CT_PTR: f(a, a + n); break;
            case CT_IN: { InRange<VT> r{a, (std::size_t)n, 0}; f(InIt<VT>{&r, false, 0}, InIt<VT>{&r, true, (std::size_t)n}); if (in_reached && last_ok && r.cur != (std::size_t)n) fail("input range not fully consumed"); break; }
            case CT_FWD: f(RgIt<const VT, std::forward_iterator_tag>{a, a + n, a}, RgIt<const VT, std::forward_iterator_tag>{a, a + n, a + n}); break;
            case CT_SEG: { bool ic2 = in_call; in_call = false; { sfl::segmented_vector<VT, 2> sv(a, a + n); in_call = ic2; f(sv.begin(), sv.end()); in_call = false; for (int i = 0; i < n; ++i) if (kv(sv[i]) != ent[i].k || (mapp && mv(sv[i]) != ent[i].v)) fail("operation modified its source range"); } in_call = ic2; break; }
            default: break;
        }
        if (cat == CT_INT) { if constexpr (mapp) { std::pair<int, int> q[8]; for (int i = 0; i < n; ++i) q[i] = {ent[i].k, ent[i].v}; const std::pair<int, int>* qq = q; f(qq, qq + n); } else { int q[8]; for (int i = 0; i < n; ++i) q[i] = ent[i].k; const int* qq = q; f(qq, qq + n); } }
        if (cat == CT_MOVE) f(std::make_move_iterator(src.data()), std::make_move_iterator(src.data() + n));
        in_call = false;
        if (cat != CT_MOVE) for (int i = 0; i < n; ++i) if (kv(src[i]) != ent[i].k || (mapp && mv(src[i]) != ent[i].v)) fail("operation modified its source range");
        in_call = false; }
        in_call = ic;
    }
    template <class F> static void with_il(int n, int pat, FEnt* ent, F f)
    {
        bool ic = in_call; in_call = false;
        for (int i = 0; i < n; ++i) { ent[i].k = mk(1 + ((pat >> (3 * i)) & 7), tag()); ent[i].v = mapp ? mval() : 0; }
        if constexpr (can_copy) {
            auto go = [&](std::initializer_list<VT> il) { in_call = ic; f(il); in_call = false; };
            switch (n) {
            case 0: go(std::initializer_list<VT>{}); break;
            case 1: go({make(ent[0].k, ent[0].v)}); break;
            case 2: go({make(ent[0].k, ent[0].v), make(ent[1].k, ent[1].v)}); break;
            case 3: go({make(ent[0].k, ent[0].v), make(ent[1].k, ent[1].v), make(ent[2].k, ent[2].v)}); break;
            case 4: go({make(ent[0].k, ent[0].v), make(ent[1].k, ent[1].v), make(ent[2].k, ent[2].v), make(ent[3].k, ent[3].v)}); break;
            default: fail("harness: il");
            }
        }
        in_call = ic;
    }
    // all patterns of length n over the classes 1..K
    template <class F> static void patterns(int n, int kmax, F f) { int tot = 1; for (int i = 0; i < n; ++i) tot *= kmax; for (int t = 0; t < tot; ++t) { int p = 0, q = t; for (int i = 0; i < n; ++i) { p |= (q % kmax) << (3 * i); q /= kmax; } f(p); } }
    static bool cat_ok(int k) { return k == CT_INT || k == CT_MOVE || can_copy; }

    // ------------------------------------------------------------ enumeration
    static void ops(int s, std::vector<Op>& o)
    {
        const int mask = opt.mask, L = limit();
        if (!H.slot_on[s]) {
            for (int a = 0; a <= (has_alloc ? 2 : 0); a += 2) for (int b = 0; b <= 3; ++b) if (b == 0 || b == 1 || (b >= 2 && a == 0 && false)) o.emplace_back(F_CDEF, a, b);
            if (mask & G_CTOR) for (int ov = 0; ov < (has_alloc ? 4 : 2); ++ov) for (int k = 0; k < CT_COUNT; ++k) if (cat_ok(k)) {
                if (k == CT_IL && !can_copy) continue;
                int mx = std::min(L, ov == 0 || !has_alloc ? 4 : 3); if (k != CT_PTR && k != CT_IL) mx = std::min(mx, 3);
                for (int n = 0; n <= mx; ++n) patterns(n, 3, [&](int p) { o.emplace_back(F_CRANGE, n, p, k, ov); });
            }
            if (mask & G_BUILD) for (int n = 0; n <= L; ++n) for (int q : {0, 1, L}) for (int d = 0; d < (uniq ? 1 : 3); ++d) for (int b = 0; b < 2; ++b) if (small || q == 0) o.emplace_back(F_CBUILD, n, b, q, d);
            if (small_max && can_copy) for (int n = 5; n <= 7; ++n) for (int c : {(int)CT_PTR, (int)CT_IN}) o.emplace_back(F_CRANGE, n, 0 | 1 << 3 | 2 << 6 | 3 << 9 | 4 << 12, c, 0);
            return;
        }
        FlatModel& m = FM[s]; const int n = m.n; int lab[FMAXN]; const int R = runs(m, lab); (void)lab;
        const bool full = !small && n >= N; const int room = small ? L + 1 - n : std::min(L + 1, N) - n;
        // candidate classes for a new key
        std::vector<int> cl;
        if constexpr (ord) for (int q = 1; q <= 2 * R + 1; ++q) cl.push_back(q);
        else { for (int r = 1; r <= R; ++r) { cl.push_back(2 * r); if (m.cid & 1) cl.push_back(2 * r + 1); } cl.push_back(2 * R + 2); }
        if (mask & G_OBS) o.emplace_back(F_OBS);
        if (mask & (G_COST | G_BUILD)) if (small || N > 100) for (int k = 0; k < 2; ++k) o.emplace_back(F_LADDER, k);
        if ((mask & G_BUILD) && !(mask & G_COST) && (small || N > 100)) for (int k = 0; k < 3; ++k) o.emplace_back(F_BIG, k);
        if (mask & G_BAD) o.emplace_back(F_BAD);
        const bool grow = !full && (room > 0 || small_max);
        auto fitting = [&](int q) { return room > 0 || small_max || (uniq && m_find(m, mk(q, 0)) >= 0); };
        if (!full) for (int q : cl) {
            if (!fitting(q)) continue;
            if (mask & G_MOD) {
                if constexpr (can_copy) o.emplace_back(F_INS_C, q);
                o.emplace_back(F_INS_M, q); o.emplace_back(F_EMP, q); o.emplace_back(F_EMP, q, 0, 1); if (mapp) { o.emplace_back(F_INS_P, q); o.emplace_back(F_INS_P, q, 0, 1); }
                if constexpr (transp && !mapp && uniq) o.emplace_back(F_INS_X, q);
                if constexpr (mapp && uniq) { o.emplace_back(F_TE, q); o.emplace_back(F_TE_M, q); o.emplace_back(F_IOA, q); o.emplace_back(F_IOA_M, q); o.emplace_back(F_SUB, q); o.emplace_back(F_SUB_M, q);
                    if constexpr (transp) { o.emplace_back(F_TE_X, q); o.emplace_back(F_IOA_X, q); o.emplace_back(F_SUB_X, q); } }
            }
            if (mask & G_HINT) for (int h = 0; h <= n; ++h) {
                if constexpr (can_copy) o.emplace_back(F_INSH_C, q, h);
                o.emplace_back(F_INSH_M, q, h); o.emplace_back(F_EMPH, q, h); o.emplace_back(F_EMPH, q, h, 1); if (mapp) { o.emplace_back(F_INSH_P, q, h); o.emplace_back(F_INSH_P, q, h, 1); }
                if constexpr (transp && !mapp && uniq) o.emplace_back(F_INSH_X, q, h);
                if constexpr (mapp && uniq) { o.emplace_back(F_TEH, q, h); o.emplace_back(F_TEH_M, q, h); o.emplace_back(F_IOAH, q, h); o.emplace_back(F_IOAH_M, q, h); if constexpr (transp) { o.emplace_back(F_TEH_X, q, h); o.emplace_back(F_IOAH_X, q, h); } }
            }
        }
        if (mask & G_CAT) for (int k = 0; k < CT_COUNT; ++k) if (cat_ok(k)) {
            if (k == CT_IL && !can_copy) continue;
            int mx = std::min(room - (small ? 1 : 0), k == CT_PTR || k == CT_IN ? 3 : 2); if (mx < 0) mx = small ? 0 : 0;
            for (int t = 0; t <= mx; ++t) patterns(t, std::min(2 * R + 1, t == 3 ? 3 : 5), [&](int p) { o.emplace_back(F_INS_R, t, p, k); });
        }
        else if (mask & G_MOD) { if (room >= 2) patterns(2, std::min(2 * R + 1, 7), [&](int p) { o.emplace_back(F_INS_R, 2, p, can_copy ? CT_FWD : CT_INT); }); }
        if ((mask & (G_CAT | G_CTOR)) && can_copy) for (int t = 0; t <= std::min(L, 3); ++t) patterns(t, 3, [&](int p) { o.emplace_back(F_OPIL, t, p); });
        if (mask & G_MOD) {
            for (int p = 0; p < n; ++p) { o.emplace_back(F_ER1, p); o.emplace_back(F_ER1C, p); }
            for (int p = 0; p <= n; ++p) for (int q = p; q <= n; ++q) o.emplace_back(F_ERR, p, q);
            for (int q = 1; q <= 2 * R + 3; ++q) { o.emplace_back(F_ERK, q); if constexpr (transp) { o.emplace_back(F_ERX, q); if constexpr (ord && !uniq) for (int hi = q + 1; hi <= 2 * R + 1; ++hi) o.emplace_back(F_ERX, q, hi); } }
            o.emplace_back(F_CLEAR);
            if constexpr (can_copy) o.emplace_back(F_SELFCA);
            o.emplace_back(F_SELFSW);
        }
        if (mask & G_CAP) if constexpr (small) { int Rr = opt.R; if (small_max) Rr = std::max(Rr, (int)H.maxsz + 1); for (int t = 0; t <= Rr; ++t) o.emplace_back(F_RES, t); o.emplace_back(F_SHRINK); o.emplace_back(F_FILLUP); }
        if (mask & G_HUGE) if constexpr (small) { for (int i = 0; i < HUGE_COUNTS; ++i) o.emplace_back(F_HUGE, i); if (small_max && c(s).size()) for (int i = 0; i < 21; ++i) o.emplace_back(F_HUGE, 100 + i); }
        if (mask & G_ERASEIF) for (int p = 0; p < (1 << std::min(n, 8)); ++p) o.emplace_back(F_ERIF, p);
        if (mask & G_ALIAS) {
            for (int i = 0; i < n; ++i) {
                if constexpr (can_copy) if (grow || (uniq && !full)) {
                    o.emplace_back(F_A_INS, i); o.emplace_back(F_A_EMP, i); o.emplace_back(F_A_INSR, i);
                    if (mask & G_HINT) for (int h = 0; h <= n; ++h) { o.emplace_back(F_A_INSH, i, h); o.emplace_back(F_A_EMPH, i, h); }
                }
                o.emplace_back(F_A_ERK, i);
                if constexpr (mapp && uniq) {
                    if constexpr (std::is_copy_constructible<V>::value) {
                        if (!full) for (int q : cl) if (fitting(q)) { o.emplace_back(F_A_TE, q, i); o.emplace_back(F_A_IOA, q, i); }
                        if (!full) for (int j = 0; j < n; ++j) { o.emplace_back(F_A_IOAK, i, j); o.emplace_back(F_A_TEK, i, j); }
                    }
                    if (!full) { for (int q : cl) if (fitting(q)) { o.emplace_back(F_A_IOAM, q, i); o.emplace_back(F_A_TEM, q, i); } o.emplace_back(F_A_SUBK, i); }
                }
            }
        }
        if (mask & G_COPY) {
            if constexpr (can_copy) { o.emplace_back(F_CC); if constexpr (has_alloc) for (int a = 1; a <= (stateful ? 2 : 1); ++a) o.emplace_back(F_CCA, a); }
            o.emplace_back(F_MC); if constexpr (has_alloc) for (int a = 1; a <= (stateful ? 2 : 1); ++a) o.emplace_back(F_MCA, a);
        }
    }
    static void ops2(std::vector<Op>& o)
    {
        if (opt.mask & G_PAIR) {
            const int V = FM[0].n && FM[1].n && !FM[0].broken && !FM[1].broken ? 4 : 1;    // relative position of the keys of the other container
            for (int b = 0; b < V; ++b) if (ord || b != 1) {
                if constexpr (can_copy) o.emplace_back(F_CA, 0, b);
                o.emplace_back(F_MA, 0, b);
                if constexpr (can_copy) if (FM[0].n + FM[1].n <= limit()) o.emplace_back(F_INS_FROM, 0, b);
            }
            if (!stateful || pocs || FM[0].aid == FM[1].aid) { o.emplace_back(F_SWAP); o.emplace_back(F_NSWAP); }
        }
        if (opt.mask & G_REL) for (int b = 0; b < (FM[0].n && FM[1].n && !FM[0].broken && !FM[1].broken ? 4 : 1); ++b) if (ord || b != 1) o.emplace_back(F_CMP, 0, b);
        if (opt.mask & G_BAD) if (has_alloc && stateful && !pocs && FM[0].aid != FM[1].aid) o.emplace_back(F_BADSW);
    }
    static std::string op_name(const Op& o)
    {
        char b[200]; const char* n = "?";
        switch (o.k) {
#define NMX(k, s) case k: n = s; break;
            NMX(F_CDEF,"construct(alloc a, comparison object b)") NMX(F_BIG,"grow to more than 100 elements, then every operation there") NMX(F_CBUILD,"construct(comparison object b), reserve a+c, emplace a elements (pattern d)") NMX(F_LADDER,"long series of insertions, then lookups") NMX(F_CRANGE,"construct from range (n=a, classes=octal b, category c, overload d)") NMX(F_INS_C,"insert(const value&) class a") NMX(F_INS_M,"insert(value&&) class a") NMX(F_INS_P,"insert(P&&) class a") NMX(F_INS_X,"insert(heterogeneous) class a")
            NMX(F_EMP,"emplace class a") NMX(F_EMPH,"emplace_hint class a, hint b") NMX(F_INSH_C,"insert(hint b, const value&) class a") NMX(F_INSH_M,"insert(hint b, value&&) class a") NMX(F_INSH_P,"insert(hint b, P&&) class a") NMX(F_INSH_X,"insert(hint b, heterogeneous) class a")
            NMX(F_INS_R,"insert(range of a, classes=octal b, category c)") NMX(F_OPIL,"operator=(initializer_list of a, classes=octal b)") NMX(F_ER1,"erase(iterator a)") NMX(F_ER1C,"erase(const_iterator a)") NMX(F_ERR,"erase(range [a,b))") NMX(F_ERK,"erase(key class a)") NMX(F_ERX,"erase(heterogeneous key class a[..b])") NMX(F_CLEAR,"clear")
            NMX(F_RES,"reserve(a)") NMX(F_SHRINK,"shrink_to_fit") NMX(F_OBS,"observe") NMX(F_ERIF,"erase_if(positions mask a)") NMX(F_FILLUP,"insert until capacity is used up") NMX(F_HUGE,"reserve(beyond max_size)") NMX(F_TE,"try_emplace(const key&) class a") NMX(F_TE_M,"try_emplace(key&&) class a") NMX(F_TE_X,"try_emplace(heterogeneous) class a") NMX(F_TEH,"try_emplace(hint b, const key&) class a") NMX(F_TEH_M,"try_emplace(hint b, key&&) class a") NMX(F_TEH_X,"try_emplace(hint b, heterogeneous) class a")
            NMX(F_IOA,"insert_or_assign(const key&) class a") NMX(F_IOA_M,"insert_or_assign(key&&) class a") NMX(F_IOA_X,"insert_or_assign(heterogeneous) class a") NMX(F_IOAH,"insert_or_assign(hint b, const key&) class a") NMX(F_IOAH_M,"insert_or_assign(hint b, key&&) class a") NMX(F_IOAH_X,"insert_or_assign(hint b, heterogeneous) class a")
            NMX(F_SUB,"operator[](const key&) class a") NMX(F_SUB_M,"operator[](key&&) class a") NMX(F_SUB_X,"operator[](heterogeneous) class a")
            NMX(F_A_INS,"insert(own element a)") NMX(F_A_INSH,"insert(hint b, own element a)") NMX(F_A_EMP,"emplace(own element a)") NMX(F_A_EMPH,"emplace_hint(hint b, own element a)") NMX(F_A_ERK,"erase(own key a)") NMX(F_A_TE,"try_emplace(class a, own mapped b)") NMX(F_A_TEK,"try_emplace(own key a, own mapped b)") NMX(F_A_IOA,"insert_or_assign(class a, own mapped b)") NMX(F_A_IOAK,"insert_or_assign(own key a, own mapped b)") NMX(F_A_SUBK,"operator[](own key a)") NMX(F_A_INSR,"insert(initializer_list of a copy of own element a)") NMX(F_A_IOAM,"insert_or_assign(class a, move(own mapped b))") NMX(F_A_TEM,"try_emplace(class a, move(own mapped b))")
            NMX(F_SELFCA,"self copy assignment") NMX(F_SELFSW,"self swap") NMX(F_CC,"copy-construct other") NMX(F_CCA,"copy-construct other with allocator a") NMX(F_MC,"move-construct other") NMX(F_MCA,"move-construct other with allocator a")
            NMX(F_CA,"*this = other (keys of the other: variant b)") NMX(F_MA,"*this = move(other)") NMX(F_SWAP,"swap(other)") NMX(F_NSWAP,"swap(*this, other)") NMX(F_CMP,"relational operators") NMX(F_BAD,"calls that violate a precondition") NMX(F_BADSW,"swap with unequal allocators that do not propagate") NMX(F_INS_FROM,"insert(other.begin(), other.end())")
#undef NMX
        }
        snprintf(b, sizeof b, "%s {a=%d b=%d/0%o c=%d d=%d}", n, o.a, o.b, o.b, o.c, o.d);
        return b;
    }

    // ------------------------------------------------------------ one container
    static void construct(int s, const Op& o)
    {
        H.slot_on[s] = 1; FlatModel& m = FM[s]; m.n = 0; m.broken = 0; m.aid = 1; m.cid = 0; memset(slot(s), POISON, sizeof(C));
        void* w = slot(s); Outcome r = OK; i32 ext0 = H.live_ext;
        if (o.k == F_CDEF) {
            int a = o.a, b = o.b; m.cid = b; if (a) m.aid = a;
            r = call([&] {
                if constexpr (has_alloc) {
                    if (a && b) ::new (w) C(Cmp(b), A(a)); else if (a) ::new (w) C(A(a)); else if (b) ::new (w) C(Cmp(b)); else ::new (w) C;
                } else { if (b) ::new (w) C(Cmp(b)); else ::new (w) C; }
            });
            if (r != OK && r != FAULTED) fail("constructor threw %s", outcome_name(r));
            if (r == OK && cnt[K_ALLOC]) fail("constructing an empty container allocated memory");
        } else if (o.k == F_CBUILD) { // a elements (d: 0 distinct, 1 pairs of equivalent, 2 all equivalent), c free places
            m.cid = o.b;
            r = call([&] {
                ::new (w) C(Cmp(o.b)); C& x = c(s);
                if constexpr (small) x.reserve((std::size_t)(o.a + o.c));
                for (int i = 0; i < o.a; ++i) {
                    int q = o.d == 0 ? i : o.d == 1 ? i / 2 : 0, kk = mk(ord ? ((o.b & 1) ? 2 * (o.a - q) : 2 * (q + 1)) : 2 * (q + 1), tag()), vv = mapp ? mval() : 0;
                    if constexpr (mapp) x.emplace(kk, vv); else x.emplace(kk);
                }
            }); fp_count = 0;
            if (r == OK) { adopt(s, m); if (m.n != o.a) fail("%d insertions give size %d", o.a, m.n); }
            else fail("construct and emplace threw %s", outcome_name(r));
        } else {
            int n = o.a; FEnt ent[8]; int b = o.d & 1, a = o.d & 2; m.cid = b; m.aid = a ? 2 : 1;
            in_reached = false; last_ok = false;
            auto mkc = [&](auto f, auto l) {
                in_reached = true;
                r = call([&] {
                    if constexpr (has_alloc) { if (a && b) { ::new (w) C(f, l, Cmp(b), A(2)); return; } if (a) { ::new (w) C(f, l, A(2)); return; } }
                    if (b) ::new (w) C(f, l, Cmp(b)); else ::new (w) C(f, l);
                });
                last_ok = r == OK; };
            if (o.c == CT_IL) { if constexpr (can_copy) with_il(n, o.b, ent, [&](std::initializer_list<VT> il) {
                r = call([&] {
                    if constexpr (has_alloc) { if (a && b) { ::new (w) C(il, Cmp(b), A(2)); return; } if (a) { ::new (w) C(il, A(2)); return; } }
                    if (b) ::new (w) C(il, Cmp(b)); else ::new (w) C(il);
                }); }); }
            else with_range(o.c, n, o.b, ent, mkc);
            if (r == OK) for (int i = 0; i < n; ++i) { bool ins; m_insert(m, ent[i].k, ent[i].v, ins); }
            else if (r == LEN) { FlatModel e = m; for (int i = 0; i < n; ++i) { bool ins; m_insert(e, ent[i].k, ent[i].v, ins); } if (!small_max || e.n <= (int)H.maxsz) fail("constructor threw length_error for %d elements", e.n); if (g_aborted) { H.slot_on[s] = 0; m.n = 0; st_out = r; return; } }
            else if (r != FAULTED) fail("constructor threw %s", outcome_name(r));
            if (r == OK && (!ord || !uniq)) reorder(s, m);
            if (r == OK && small && n <= N && cnt[K_ALLOC]) fail("construction of <= N elements allocated memory");
            if (!small && cnt[K_ALLOC]) fail("static container allocated memory");
        }
        if (r != OK) { H.slot_on[s] = 0; m.n = 0; }
        if (H.live_ext != ext0) fail("element leaked outside container storage");
        st_out = r;
    }
    static inline Outcome st_out;
    // Where the order is free (unordered: everything; ordered multi: new elements among equivalent ones)
    // the content must be the expected bag; the actual order is adopted.  old: elements whose relative
    // order must not change (ordered containers).
    static void reorder(int s, FlatModel& want, const FlatModel* old = nullptr)
    {
        if constexpr (!ord || !uniq) {
            C& x = c(s); FlatModel got = want; adopt(s, got);
            if (got.n != want.n) fail("size() is %d, expected %d", got.n, want.n);
            bool used[FMAXN] = {};
            for (int i = 0; i < got.n; ++i) { int f = -1; for (int j = 0; j < want.n; ++j) if (!used[j] && want.e[j].k == got.e[i].k && (!mapp || want.e[j].v == got.e[i].v)) { f = j; break; } if (f < 0) fail("container holds an unexpected element (class %d, tag %d, mapped %d)", cls(got.e[i].k), got.e[i].k & 255, got.e[i].v); used[f] = true; }
            (void)x;
            if constexpr (ord) {
                for (int i = 0; i + 1 < got.n; ++i) if (lt(got.cid, got.e[i + 1].k, got.e[i].k)) fail("elements %d and %d are out of order", i, i + 1);
                if (old) { int last = -1; for (int i = 0; i < old->n; ++i) { int f = -1; for (int j = 0; j < got.n; ++j) if (got.e[j].k == old->e[i].k && j > last) { f = j; break; }
                    bool in_want = false; for (int j = 0; j < want.n; ++j) if (want.e[j].k == old->e[i].k) in_want = true;
                    if (!in_want) continue; if (f < 0) fail("relative order of existing equivalent elements changed"); last = f; } }
            }
            for (int i = 0; i < got.n; ++i) want.e[i] = got.e[i];
        }
    }

    static Outcome apply(int s, const Op& o)
    {
        if (!H.slot_on[s]) { construct(s, o); return st_out; }
        FlatModel& m = FM[s]; C& x = c(s); const int n = m.n, a = o.a, b = o.b; Outcome r = OK; i32 ext0 = H.live_ext;
        if (o.k >= 200) return apply2(s, 1 - s, o);
        Pre& p = grab(s); FlatModel e = m;
        long ret = -2; int exp_ret = -2; int ins_flag = -1, exp_ins = -1; const void* refp = nullptr; bool want_ref = false;
        int stable_to = n; bool inserts = false, resets = false; int strong = 0; bool any_order = false; bool single = false;
        auto P = [&](int i) { return x.begin() + i; };
        auto CP = [&](int i) { return CI(x.begin() + i); };
        auto ix = [&](auto it) { return (long)(CI(it) - x.cbegin()); };
        // result of insertion functions: iterator or pair<iterator,bool>
        auto put = [&](auto&& q) { if constexpr (std::is_convertible<decltype(q), CI>::value) ret = ix(q); else { ret = ix(q.first); ins_flag = q.second; } };
        auto modelins = [&](i32 k, i32 v, int hint) { bool ins;
            if constexpr (ord && !uniq) { // any position among equivalent elements, unless a hint selects one
                int l = m_lb(e, k), u = m_ub(e, k); inserts = single = true; stable_to = l;
                if (hint < l || hint > u) { if (r == OK && (ret < l || ret > u)) fail("returned iterator has index %ld, but the insertion position must be in [%d,%d]", ret, l, u); m_put(e, r == OK ? (int)ret : u, k, v); stable_to = r == OK ? (int)ret : l; exp_ret = r == OK ? (int)ret : -2; return; }
                m_put(e, hint, k, v); exp_ret = hint; stable_to = hint; return; }
            int pos = m_insert(e, k, v, ins, ord ? hint : -1); exp_ret = pos; if (uniq && hint < 0) exp_ins = ins; inserts = true; single = true; if (ins && ord) stable_to = pos; };
        cmp_ids = 0;
        switch (o.k) {
        case F_OBS: nofault_next = true; { ReadOnly ro; observe(s); } nofault_next = false; fp_count = 0; return OK;
        case F_BAD: bad_calls(s); return OK;
        case F_LADDER: ladder(s, a); fp_count = 0; return OK;
        case F_BIG: big(s, a); fp_count = 0; return OK;
        case F_CLEAR: r = call([&] { x.clear(); }); e.n = 0; stable_to = 0; if (r != OK) fail("clear() threw"); break;
        case F_RES: if constexpr (small) { strong = 1; r = call([&] { x.reserve((std::size_t)a); });
            if (r == OK) { if (x.capacity() < (std::size_t)a) fail("capacity() %zu after reserve(%d)", (std::size_t)x.capacity(), a); if ((std::size_t)a <= p.cap && (x.capacity() != p.cap || cnt[K_ALLOC])) fail("reserve(%d) with capacity %zu is documented to have no effect", a, p.cap); if (a <= N && cnt[K_ALLOC]) fail("reserve(n <= N) allocated"); }
            else if (r == LEN) { if (!(small_max && a > (int)H.maxsz)) fail("reserve(%d) threw length_error", a); } } break;
        case F_HUGE: if constexpr (small) { if constexpr (small_max) if (a >= 100) return lower_limit(s, p, (a - 100) / 3, (a - 100) % 3); const std::size_t k = huge_count(a, (std::size_t)n, p.cap, sizeof(typename C::value_type), x.max_size()); if (k <= (std::size_t)N) { fp_count = 0; return OK; } r = call([&] { x.reserve(k); });
            if (r != LEN) fail("reserve(%zu): %s, expected length_error", k, outcome_name(r)); if (g_aborted) return r;
            expect_unchanged(s, p, "reserve beyond max_size()", true); if (cnt[K_ALLOC]) fail("reserve(%zu) allocated memory", k); fp_count = 0; return OK; } break;
        case F_SHRINK: if constexpr (small) { strong = 1; resets = true; r = call([&] { x.shrink_to_fit(); }); if (r == OK && x.capacity() != (std::size_t)std::max(n, N)) fail("capacity() is %zu after shrink_to_fit() with %d elements and N=%d", (std::size_t)x.capacity(), n, N); if (r == LEN) fail("shrink_to_fit threw length_error"); } break;
        case F_FILLUP: if constexpr (small) { int k = (int)(p.cap - (std::size_t)n); if (n + k > FMAXN - 4) return OK;
            std::vector<FEnt> ent; { int lab[FMAXN]; int R = runs(m, lab); for (int i = 0; i < k; ++i) ent.push_back({mk(ord ? ((m.cid & 1) ? 2 * R + 2 + (k - i) : 2 * R + 2 + i) : 2 * R + 2 + 2 * i, tag()), mapp ? mval() : 0}); }
            for (auto& t : ent) { r = call([&] { if constexpr (mapp) x.emplace(t.k, t.v); else x.emplace(t.k); });
                if (r != OK) { if (r != FAULTED) fail("insertion within capacity threw %s", outcome_name(r)); after_fault(s, &p.m, true, "emplace"); return r; }
                if (cnt[K_ALLOC] || x.capacity() != p.cap) fail("insertion within capacity() reallocated"); bool ins; m_insert(m, t.k, t.v, ins); if (!ord || !uniq) reorder(s, m); }
            if (!ord) for (int i = 0; i < n; ++i) if (&*P(i) != p.addr[i]) fail("insertion within capacity() invalidated a reference");
            return OK; } break;
        // ---- insertion of one element
#define KV i32 k = mk(a, tag()), v = mapp ? mval() : 0
        case F_INS_C: if constexpr (can_copy) { KV; VT t = make(k, v); r = call([&] { put(x.insert(static_cast<const VT&>(t))); }); modelins(k, v, -1); if (kv(t) != k || (mapp && mv(t) != v)) fail("insert(const value_type&) modified its argument"); } break;
        case F_INS_M: { KV; VT t = make(k, v); r = call([&] { put(x.insert(std::move(t))); }); modelins(k, v, -1); if (r == OK && K::tracked) { bool ins = e.n > n; if constexpr (uniq) if (!ins && kv(t) != k) fail("insert(value_type&&) moved from its argument although nothing was inserted"); if (ins && key_has_move() && kv(t) != MOVED) fail("insert(value_type&&) copied instead of moved"); } } break;
        case F_INS_P: if constexpr (mapp) { KV; if (o.c) { PairLike t(k, v); r = call([&] { put(x.insert(std::move(t))); }); modelins(k, v, -1); if (r == OK) moved_from("insert(P&&)", e.n > n, t.first, t.second); } else { std::pair<int, int> t(k, v); r = call([&] { put(x.insert(t)); }); modelins(k, v, -1); } } break;
        case F_INS_X: if constexpr (transp && !mapp && uniq) { KV; Probe t{k}; r = call([&] { put(x.insert(t)); }); modelins(k, v, -1); } break;
        case F_EMP: if (o.c) { KV; K t(k); typename std::conditional<mapp, V, NoV>::type w(v); r = call([&] { if constexpr (mapp) put(x.emplace(std::move(t), std::move(w))); else put(x.emplace(std::move(t))); }); modelins(k, v, -1); if (r == OK && e.n > n) moved_from("emplace(key, value)", true, t, w); } else { KV; r = call([&] { if constexpr (mapp) put(x.emplace(k, v)); else put(x.emplace(k)); }); modelins(k, v, -1); } break;
        case F_EMPH: if (o.c) { KV; K t(k); typename std::conditional<mapp, V, NoV>::type w(v); r = call([&] { if constexpr (mapp) put(x.emplace_hint(CP(b), std::move(t), std::move(w))); else put(x.emplace_hint(CP(b), std::move(t))); }); modelins(k, v, b); if (r == OK && e.n > n) moved_from("emplace_hint(hint, key, value)", true, t, w); } else { KV; r = call([&] { if constexpr (mapp) put(x.emplace_hint(CP(b), k, v)); else put(x.emplace_hint(CP(b), k)); }); modelins(k, v, b); } break;
        case F_INSH_C: if constexpr (can_copy) { KV; VT t = make(k, v); r = call([&] { put(x.insert(CP(b), static_cast<const VT&>(t))); }); modelins(k, v, b); } break;
        case F_INSH_M: { KV; VT t = make(k, v); r = call([&] { put(x.insert(CP(b), std::move(t))); }); modelins(k, v, b); if (r == OK && K::tracked && e.n > n && key_has_move() && kv(t) != MOVED) fail("insert(hint, value_type&&) copied instead of moved"); } break;
        case F_INSH_P: if constexpr (mapp) { KV; if (o.c) { PairLike t(k, v); r = call([&] { put(x.insert(CP(b), std::move(t))); }); modelins(k, v, b); if (r == OK) moved_from("insert(hint, P&&)", e.n > n, t.first, t.second); } else { std::pair<int, int> t(k, v); r = call([&] { put(x.insert(CP(b), t)); }); modelins(k, v, b); } } break;
        case F_INSH_X: if constexpr (transp && !mapp && uniq) { KV; Probe t{k}; r = call([&] { put(x.insert(CP(b), t)); }); modelins(k, v, b); } break;
        case F_TE: case F_TE_M: case F_TE_X: case F_TEH: case F_TEH_M: case F_TEH_X: if constexpr (mapp && uniq) {
            KV; K t(k); V w(v); Probe pr{k}; (void)pr; bool hinted = o.k >= F_TEH; bool mvk = o.k == F_TE_M || o.k == F_TEH_M; bool het = o.k == F_TE_X || o.k == F_TEH_X;
            r = call([&] {
                if (het) { if constexpr (transp) { if (hinted) put(x.try_emplace(CP(b), pr, std::move(w))); else put(x.try_emplace(pr, std::move(w))); } }
                else if (mvk) { if (hinted) put(x.try_emplace(CP(b), std::move(t), std::move(w))); else put(x.try_emplace(std::move(t), std::move(w))); }
                else { if constexpr (std::is_copy_constructible<K>::value) { if (hinted) put(x.try_emplace(CP(b), static_cast<const K&>(t), std::move(w))); else put(x.try_emplace(static_cast<const K&>(t), std::move(w))); } else { if (hinted) put(x.try_emplace(CP(b), std::move(t), std::move(w))); else put(x.try_emplace(std::move(t), std::move(w))); mvk = true; } }
            });
            modelins(k, v, hinted ? b : -1);
            if (r == OK && K::tracked) { bool ins = e.n > n; if (!ins && (val_of(w) != v || val_of(t) != k)) fail("try_emplace moved from its arguments although nothing was inserted"); if (ins && !mvk && val_of(t) != k) fail("try_emplace(const key&) modified the key"); if (ins) moved_from("try_emplace(key, args...)", mvk, t, w); }
            } break;
        case F_IOA: case F_IOA_M: case F_IOA_X: case F_IOAH: case F_IOAH_M: case F_IOAH_X: if constexpr (mapp && uniq) {
            KV; K t(k); V w(v); Probe pr{k}; (void)pr; bool hinted = o.k >= F_IOAH; bool mvk = o.k == F_IOA_M || o.k == F_IOAH_M; bool het = o.k == F_IOA_X || o.k == F_IOAH_X;
            if constexpr (!std::is_copy_constructible<K>::value) if (!het) mvk = true;
            r = call([&] {
                if (het) { if constexpr (transp) { if (hinted) put(x.insert_or_assign(CP(b), pr, std::move(w))); else put(x.insert_or_assign(pr, std::move(w))); } }
                else if (mvk) { if (hinted) put(x.insert_or_assign(CP(b), std::move(t), std::move(w))); else put(x.insert_or_assign(std::move(t), std::move(w))); }
                else { if constexpr (std::is_copy_constructible<K>::value) { if (hinted) put(x.insert_or_assign(CP(b), static_cast<const K&>(t), std::move(w))); else put(x.insert_or_assign(static_cast<const K&>(t), std::move(w))); } }
            });
            modelins(k, v, hinted ? b : -1);
            if (e.n == n) e.e[exp_ret].v = v;
            if (r == OK && K::tracked) { bool ins = e.n > n; if (!ins && val_of(t) != k) fail("insert_or_assign moved from the key although nothing was inserted"); if (!mvk && val_of(t) != k) fail("insert_or_assign(const key&) modified the key"); moved_from("insert_or_assign(key, obj)", ins && mvk, t, w); }
            } break;
        case F_SUB: case F_SUB_M: case F_SUB_X: if constexpr (mapp && uniq) {
            i32 k = mk(a, tag()); K t(k); Probe pr{k}; (void)pr; bool mvk = o.k == F_SUB_M;
            if constexpr (!std::is_copy_constructible<K>::value) if (o.k == F_SUB) mvk = true;
            r = call([&] { if (o.k == F_SUB_X) { if constexpr (transp) refp = &x[pr]; } else if (mvk) refp = &x[std::move(t)]; else { if constexpr (std::is_copy_constructible<K>::value) refp = &x[static_cast<const K&>(t)]; } });
            modelins(k, 0, -1); exp_ins = -1; ret = exp_ret; want_ref = true;
            if (r == OK && K::tracked && e.n == n && val_of(t) != k) fail("operator[] moved from the key although nothing was inserted");
            if (r == OK && e.n > n) moved_key("operator[](key&&)", mvk, t);
            } break;
        // ---- several elements
        case F_INS_R: { FEnt ent[8]; int nn = a; in_reached = last_ok = false;
            if (o.c == CT_IL) { if constexpr (can_copy) with_il(nn, b, ent, [&](std::initializer_list<VT> il) { r = call([&] { x.insert(il); }); }); }
            else with_range(o.c, nn, b, ent, [&](auto f, auto l) { in_reached = true; r = call([&] { x.insert(f, l); }); last_ok = r == OK; });
            for (int i = 0; i < nn; ++i) { bool ins; m_insert(e, ent[i].k, ent[i].v, ins); } inserts = true; any_order = true; if (ord) stable_to = 0; } break;
        case F_OPIL: if constexpr (can_copy) { FEnt ent[8]; with_il(a, b, ent, [&](std::initializer_list<VT> il) { r = call([&] { C& q = (x = il); if (&q != &x) fail("operator= does not return *this"); }); }); e.n = 0; for (int i = 0; i < a; ++i) { bool ins; m_insert(e, ent[i].k, ent[i].v, ins); } stable_to = 0; any_order = true; } break;
        // ---- erasure
        case F_ER1: case F_ER1C: { r = call([&] { if (o.k == F_ER1) ret = ix(x.erase(P(a))); else ret = ix(x.erase(CP(a))); }); exp_ret = a; erase_model(s, e, a, a + 1, r); stable_to = a; } break;
        case F_ERR: { r = call([&] { ret = ix(x.erase(CP(a), CP(b))); }); exp_ret = a; erase_model(s, e, a, b, r); stable_to = a == b ? n : a; } break;
        case F_ERK: { i32 k = mk(a, 200); K t(k); std::size_t q = 99; int want = m_count(m, k); r = call([&] { q = (std::size_t)x.erase(static_cast<const K&>(t)); }); if (r == OK && (int)q != want) fail("erase(key) returned %zu, expected %d", q, want); int j = 0; for (int i = 0; i < n; ++i) if (!eqv(m.cid, m.e[i].k, k)) e.e[j++] = m.e[i]; e.n = j; any_order = true; stable_to = want ? (ord ? m_lb(m, k) : 0) : n; } break;
        case F_ERX: if constexpr (transp) { std::size_t q = 99; int want = 0; int j = 0;
            if (b) { for (int i = 0; i < n; ++i) { int w = cls(m.e[i].k); if (w >= a && w <= b) ++want; else e.e[j++] = m.e[i]; } if constexpr (ord && !uniq) { Band t{a, b}; r = call([&] { q = (std::size_t)x.erase(t); }); } }
            else { i32 k = mk(a, 200); for (int i = 0; i < n; ++i) { if (eqv(m.cid, m.e[i].k, k)) ++want; else e.e[j++] = m.e[i]; } Probe t{k}; r = call([&] { q = (std::size_t)x.erase(t); }); }
            e.n = j; any_order = true; stable_to = want ? 0 : n; if (r == OK && (int)q != want) fail("erase(heterogeneous key) returned %zu, expected %d", q, want); } break;
        case F_ERIF: { std::size_t q = 99; u32 seen = 0; bool twice = false;
            r = call([&] { q = (std::size_t)erase_if(x, [&](const VT& t) { event(K_PRED); for (int i = 0; i < n; ++i) if (m.e[i].k == kv(t)) { if (seen >> i & 1) twice = true; seen |= 1u << i; return (bool)(a >> i & 1); } fail("erase_if: predicate called with an element that is not in the container"); return false; }); });
            int j = 0; for (int i = 0; i < n; ++i) if (!(a >> i & 1)) e.e[j++] = m.e[i]; e.n = j; any_order = true; int fi = 0; while (fi < n && !(a >> fi & 1)) ++fi; stable_to = fi;
            if (r == OK && (int)q != n - j) fail("erase_if returned %zu, expected %d", q, n - j);
            if (r == OK && (seen != (n ? (1u << n) - 1 : 0))) fail("erase_if did not examine every element"); if (twice) fail("erase_if examined an element twice"); } break;
        case F_SELFCA: if constexpr (can_copy) { C& q = x; r = call([&] { x = static_cast<const C&>(q); }); if (r == OK && (cnt[K_ALLOC] || cnt[K_COPY] || cnt[K_CASG])) {} } break;
        case F_SELFSW: { C& q = x; r = call([&] { x.swap(q); }); } break;
        // ---- arguments inside the container
        case F_A_INS: if constexpr (can_copy) { i32 k = m.e[a].k, v = m.e[a].v; r = call([&] { put(x.insert(static_cast<const VT&>(*P(a)))); }); modelins(k, v, -1); } break;
        case F_A_EMP: if constexpr (can_copy) { i32 k = m.e[a].k, v = m.e[a].v; r = call([&] { put(x.emplace(static_cast<const VT&>(*P(a)))); }); modelins(k, v, -1); } break;
        case F_A_INSH: if constexpr (can_copy) { i32 k = m.e[a].k, v = m.e[a].v; r = call([&] { put(x.insert(CP(b), static_cast<const VT&>(*P(a)))); }); modelins(k, v, b); } break;
        case F_A_EMPH: if constexpr (can_copy) { i32 k = m.e[a].k, v = m.e[a].v; r = call([&] { put(x.emplace_hint(CP(b), static_cast<const VT&>(*P(a)))); }); modelins(k, v, b); } break;
        case F_A_INSR: if constexpr (can_copy) { const VT* q = &*P(a); VT cp(*q); r = call([&] { x.insert({cp}); }); bool ins; m_insert(e, m.e[a].k, m.e[a].v, ins); inserts = true; stable_to = ord ? m_lb(m, m.e[a].k) : n; } break;
        case F_A_ERK: { std::size_t q = 99; i32 k = m.e[a].k; int want = m_count(m, k); r = call([&] { q = (std::size_t)x.erase(key(*P(a))); }); if (r == OK && (int)q != want) fail("erase(own key) returned %zu, expected %d", q, want); int j = 0; for (int i = 0; i < n; ++i) if (!eqv(m.cid, m.e[i].k, k)) e.e[j++] = m.e[i]; e.n = j; any_order = true; stable_to = 0; } break;
        case F_A_TE: if constexpr (mapp && uniq && std::is_copy_constructible<V>::value) { i32 k = mk(a, tag()); K t(k); r = call([&] { put(x.try_emplace(std::move(t), static_cast<const V&>(P(b)->second))); }); modelins(k, m.e[b].v, -1); } break;
        case F_A_TEM: if constexpr (mapp && uniq) { i32 k = mk(a, tag()); K t(k); bool will = m_find(m, k) < 0; r = call([&] { put(x.try_emplace(std::move(t), std::move(P(b)->second))); }); i32 v = m.e[b].v; if (will && val_has_move()) e.e[b].v = MOVED; modelins(k, v, -1); } break;
        case F_A_TEK: if constexpr (mapp && uniq && std::is_copy_constructible<V>::value && std::is_copy_constructible<K>::value) { i32 k = m.e[a].k; r = call([&] { put(x.try_emplace(static_cast<const K&>(P(a)->first), static_cast<const V&>(P(b)->second))); }); modelins(k, m.e[b].v, -1); } break;
        case F_A_IOA: if constexpr (mapp && uniq && std::is_copy_constructible<V>::value) { i32 k = mk(a, tag()); K t(k); r = call([&] { put(x.insert_or_assign(std::move(t), static_cast<const V&>(P(b)->second))); }); i32 v = m.e[b].v; modelins(k, v, -1); if (e.n == n) e.e[exp_ret].v = v; } break;
        case F_A_IOAM: if constexpr (mapp && uniq) { i32 k = mk(a, tag()); K t(k); int f = m_find(m, k); r = call([&] { put(x.insert_or_assign(std::move(t), std::move(P(b)->second))); }); i32 v = m.e[b].v; if (val_has_move()) e.e[b].v = MOVED; modelins(k, v, -1); if (f >= 0) { if (f != b) e.e[f].v = v; else { if (r == OK) e.e[f].v = mv(*P(f)); } } } break;
        case F_A_IOAK: if constexpr (mapp && uniq && std::is_copy_constructible<V>::value && std::is_copy_constructible<K>::value) { i32 k = m.e[a].k; r = call([&] { put(x.insert_or_assign(static_cast<const K&>(P(a)->first), static_cast<const V&>(P(b)->second))); }); modelins(k, m.e[b].v, -1); e.e[a].v = m.e[b].v; } break;
        case F_A_SUBK: if constexpr (mapp && uniq) { i32 k = m.e[a].k; if constexpr (std::is_copy_constructible<K>::value) r = call([&] { refp = &x[static_cast<const K&>(P(a)->first)]; }); else { r = call([&] { refp = &x.at(static_cast<const K&>(P(a)->first)); }); } modelins(k, 0, -1); exp_ins = -1; ret = exp_ret; want_ref = true; } break;
        default: fail("harness: unknown op %d", o.k);
        }
        if (cmp_ids & ~(1u << p.m.cid)) fail("a comparison object other than the container's own was used");
        const Work c1 = work();
        if (r == OK) {
            if (any_order || (!ord && (o.k == F_CLEAR || inserts)) || (!uniq && (o.k == F_A_INSR || o.k == F_INS_R))) reorder(s, e, o.k == F_OPIL ? nullptr : &p.m);
            m = e;
            if (exp_ret >= -1 && exp_ret != -2 && o.k != F_INS_R && o.k != F_A_INSR) {
                if (ret != exp_ret) {
                    // unordered: position of a new element is free
                    if (!(!ord && inserts && ret >= 0 && ret < m.n)) fail("returned iterator has index %ld, expected %d", ret, exp_ret);
                    fail("returned iterator has index %ld, expected %d", ret, exp_ret);
                }
            }
            if (exp_ins >= 0 && ins_flag != exp_ins) fail("returned pair.second is %d, expected %d", ins_flag, exp_ins);
            if (want_ref) { if constexpr (mapp) if (refp != &(x.begin() + exp_ret)->second) fail("returned reference is not the mapped value of the key"); }
            // documented: "The element may be constructed even if there already is an element with the key" -- unordered
            // containers construct it in their storage, which may have to grow for it.
            const bool may_grow = !ord && uniq && (o.k == F_EMP || o.k == F_EMPH || o.k == F_A_EMP || o.k == F_A_EMPH) && e.n == n && n == (int)p.cap;
            if (!may_grow && uniq && inserts && single && e.n == n && (cnt[K_ALLOC] || x.capacity() != p.cap)) fail("operation that inserts nothing reallocated");
            if constexpr (!small) { if (cnt[K_ALLOC]) fail("static container allocated memory"); }
            else {
                if (!may_grow && !resets && o.k != F_RES && n <= N && e.n <= N && p.cap == (std::size_t)N && cnt[K_ALLOC]) fail("container allocated memory although it never holds more than N elements");
                if (!may_grow && !resets && o.k != F_RES && (std::size_t)e.n <= p.cap && cnt[K_ALLOC]) fail("operation allocated memory although the elements fit into the capacity");
                if (!resets && x.capacity() < p.cap) fail("operation reduced capacity()");
            }
            bool same_store = !cnt[K_ALLOC] && x.capacity() == p.cap;
            int st_to = std::min(stable_to, n);
            if (same_store) for (int i = 0; i < st_to && i < (int)x.size(); ++i) if (&*P(i) != p.addr[i] || kv(*P(i)) != p.m.e[i].k) fail("reference to element %d before the affected position was invalidated without reallocation", i);
            if (opt.mask & G_COST) check_cost(o, n, e.n, c1);
        } else if (r == LEN) {
            if (!small_max) fail("length_error although the result does not exceed max_size()");
            int need = o.k == F_RES ? a : e.n; if (need <= (int)H.maxsz && o.k != F_OPIL && !(!ord && uniq && n == (int)H.maxsz && (o.k == F_EMP || o.k == F_EMPH || o.k == F_A_EMP || o.k == F_A_EMPH))) fail("length_error although the result (%d elements) does not exceed max_size() (%u)", need, H.maxsz);
            if (g_aborted) return r;
            if (o.k == F_INS_R || o.k == F_OPIL) after_fault(s, &p.m, o.k == F_INS_R, "length_error"); else if (o.k != F_A_IOAM && o.k != F_A_TEM) { expect_unchanged(s, p, "length_error", true); } else after_fault(s, &p.m, true, "length_error");
        } else if (r == FAULTED) {
            bool chk_strong = strong == 1 && documented_strong;
            if (chk_strong) expect_unchanged(s, p, "exception", true);
            bool nomutate = inserts && nothrow_move;
            after_fault(s, &p.m, nomutate, op_short(o));
            if (nothrow_move && !inserts && strong == 0 && o.k != F_OPIL && o.k != F_SELFCA) for (int i = 0; i < m.n; ++i) if (!in_model(p.m, m.e[i], false)) fail("an erasing operation that failed left an element that was not there before");
            if (strong == 1 && nothrow_move) { /* unchanged already checked */ }
        } else fail("unexpected exception (%s)", outcome_name(r));
        if (r == OK && small_max && e.n > std::max(N, (int)H.maxsz)) fail("operation produced %d elements, max_size() is %u", e.n, H.maxsz);
        if (H.live_ext != ext0) fail("element leaked outside container storage");
        return r;
    }
    static const char* op_short(const Op& o) { static std::string t; t = op_name(o); return t.c_str(); }
    static constexpr bool key_has_move() { return K::tracked && !std::is_same<K, CO>::value; }
    struct PairLike { K first; V second; PairLike(int k, int v) : first(k), second(v) {} operator VT() && { return VT(std::move(first), std::move(second)); } operator VT() const& { return VT(first, second); } };
    // arguments passed as rvalues are documented to be moved (forwarded) into the element
    static void moved_key(const char* what, bool key_too, const K& k) { if constexpr (key_has_move()) if (key_too && val_of(k) != MOVED) fail("%s copied its key argument instead of moving it", what); }
    struct NoV { NoV(int) {} };
    template <class W> static void moved_from(const char* what, bool key_too, const K& k, const W& v)
    {
        moved_key(what, key_too, k);
        if constexpr (val_has_move()) if (val_of(v) != MOVED) fail("%s copied its mapped argument instead of moving it", what);
    }
    static constexpr bool val_has_move() { if constexpr (mapp) return V::tracked; else return false; }

    // ------------------------------------------------------------ documented complexity
    struct Work { u64 w, d, al, cmp, pr; };
    static Work work() { return Work{cnt[K_CTOR] + cnt[K_COPY] + cnt[K_MOVE] + cnt[K_CASG] + cnt[K_MASG], cnt[K_DTOR], cnt[K_ALLOC], cnt[K_CMP], cnt[K_PRED]}; }
    static inline u64 n_cost, n_ladder;
    static void within(const char* what, u64 got, long lim, int n) { if (!(opt.mask & G_COST)) return; ++n_cost; if ((long)got > lim) fail("complexity: %s: %llu, at most %ld expected with %d elements", what, (unsigned long long)got, lim, n); }
    static void check_cost(const Op& o, int n, int n2, const Work& k)
    {
        const long re = k.al ? 2 * n * per : 0; long w = -1, d = -1, cm = -1;
        switch (o.k) {
        case F_CLEAR: w = 0; d = n * per; cm = 0; break;
        case F_RES: case F_SHRINK: w = d = 2 * n * per; cm = 0; break;
        case F_ER1: case F_ER1C: w = per * (ord ? 2 * (n - o.a) + 2 : 3); d = w + 2 * per; cm = 0; break;
        case F_ERR: w = per * (ord ? 2 * (n - o.b) + 2 : 3 * (o.b - o.a) + 2); if (o.a == o.b) w = 0; d = w + per * (o.b - o.a + 2); cm = 0; break;
        case F_ERK: case F_ERX: w = per * (ord ? 2 * n + 2 : 3 * (n - n2) + 3); d = w + per * (n - n2 + 2); cm = 2 * n + 6; break;
        case F_ERIF: w = per * (3 * n + 4); d = w + per * n; within("erase_if: predicate calls", k.pr, n, n);
            // open finding: erase_if of the ordered containers erases one by one, so it moves up to n elements per erased one
            if (ord && (long)k.w > w) { const long q = (long)per * (n - n2 + 1) * (n + 2); if ((long)k.w <= q && known("ordered_flat_erase_if_quadratic")) w = d = q; else fail("complexity: erase_if of an ordered flat container: %llu element operations, linear cost is documented (%d elements, %d erased)", (unsigned long long)k.w, n, n - n2); }
            break;
        case F_INS_C: case F_INS_M: case F_INS_P: case F_INS_X: case F_EMP: case F_EMPH: case F_INSH_C: case F_INSH_M: case F_INSH_P: case F_INSH_X:
        case F_TE: case F_TE_M: case F_TE_X: case F_TEH: case F_TEH_M: case F_TEH_X: case F_IOA: case F_IOA_M: case F_IOA_X: case F_IOAH: case F_IOAH_M: case F_IOAH_X: case F_SUB: case F_SUB_M: case F_SUB_X:
            w = per * (ord ? 3 * n + 10 : 10) + re; d = w; cm = 3 * n + 8; if (!ord && !uniq) cm = 0; break;
        default: return;
        }
        within("element constructions, copies, moves and assignments", k.w, w, n);
        within("element destructions", k.d, d, n);
        if (cm >= 0) within("comparisons", k.cmp, cm, n);
        within("allocations", k.al, 1, n);
    }
    // a long series of insertions from this state, then every kind of lookup (the state is put back)
    static void ladder(int s, int kind)
    {
        static Snap sn; save(sn); ++n_ladder;
        C& x = c(s); const C& y = x; FlatModel& m = FM[s]; const int K = small ? 200 : std::min(200, (N - m.n - 2) & ~1); const int n = m.n; Outcome r = OK;
        int hi = 2; for (int i = 0; i < n; ++i) hi = std::max(hi, cls(m.e[i].k) + 2);
        hi &= ~1; const bool asc = !ord || !(m.cid & 1);
        // kind 0: new elements go to the end; kind 1: the same with a right hint
        auto kk = [&](int i) { return mk(asc ? hi + 2 * i : -2 * i - 2, 1); };
        r = call([&] { for (int i = 0; i < K; ++i) { if (kind == 0) { if constexpr (mapp) x.emplace(kk(i), 7); else x.emplace(kk(i)); } else { if constexpr (mapp) x.emplace_hint(x.cend(), kk(i), 7); else x.emplace_hint(x.cend(), kk(i)); } } });
        if (r != OK) fail("%d insertions threw %s", K, outcome_name(r));
        const Work w = work();
        if ((int)x.size() != n + K) fail("%d insertions of new keys: size() is %zu", K, (std::size_t)x.size());
        within("amortized cost: element operations of 200 insertions at the end", w.w, 14L * per * (n + K) + 20, n);
        within("amortized cost: allocations of 200 insertions at the end", w.al, 34, n);
        const int S = n + K; const double lg = 2 * std::ceil(std::log2(S + 1.0)) + 2, lin = 2.0 * S + 2, B = ord ? lg : lin;
        for (int i = -1; i <= 2 * K; i += (i % 16 == 0 ? 1 : i < 20 ? 1 : 7)) {
            if (!ord && (m.cid & 1) && (i < 0 || i % 2)) continue; // that equality takes 2k and 2k+1 for equal
            K_t q(asc ? mk(hi + i, 1) : mk(-i - 2, 1)); const bool has = i >= 0 && i < 2 * K && i % 2 == 0; const long at = n + i / 2; long ix = -1;
            call([&] { auto it = y.find(q); ix = it == y.end() ? -1 : (long)(it - y.begin()); }); if (has ? ix != at : ix >= 0) fail("find() in a container of %d elements returns index %ld", S, ix); within("find: comparisons", cnt[K_CMP], (long)B, S);
            bool h2 = false; call([&] { h2 = y.contains(q); }); if (h2 != has) fail("contains() in a container of %d elements is wrong", S); within("contains: comparisons", cnt[K_CMP], (long)B, S);
            std::size_t ct = 9; call([&] { ct = (std::size_t)y.count(q); }); if (ct != (std::size_t)has) fail("count() in a container of %d elements is wrong", S); within("count: comparisons", cnt[K_CMP], (long)(ord ? 2 * lg + 1 : lin), S);
            if constexpr (ord) {
                call([&] { ix = (long)(y.lower_bound(q) - y.begin()); }); within("lower_bound: comparisons", cnt[K_CMP], (long)B, S); if (i >= 0 && ix != n + (i + 1) / 2) fail("lower_bound() in a container of %d elements returns index %ld", S, ix);
                call([&] { ix = (long)(y.upper_bound(q) - y.begin()); }); within("upper_bound: comparisons", cnt[K_CMP], (long)B, S); if (i >= 0 && ix != std::min(n + i / 2 + 1, S)) fail("upper_bound() in a container of %d elements returns index %ld", S, ix);
                long iy = -1; call([&] { auto pr = y.equal_range(q); ix = (long)(pr.first - y.begin()); iy = (long)(pr.second - y.begin()); }); within("equal_range: comparisons", cnt[K_CMP], (long)(2 * lg), S); if (iy - ix != (long)has) fail("equal_range() in a container of %d elements is wrong", S);
            }
            if constexpr (mapp && uniq) if (has) {
                int v = 0; call([&] { v = val_of(x.at(q)); }); if (v != 7) fail("at() in a container of %d elements is wrong", S); within("at: comparisons", cnt[K_CMP], (long)B, S);
                if constexpr (std::is_copy_constructible<K_t>::value) { call([&] { v = val_of(x[static_cast<const K_t&>(q)]); }); if (v != 7) fail("operator[] in a container of %d elements is wrong", S); within("operator[]: comparisons", cnt[K_CMP], (long)(B + 4), S); }
            }
        }
        restore(sn);
    }

    // ------------------------------------------------------------ the same operations on a large container
    using Q = std::vector<std::pair<int, int>>;
    static inline int big_other = 0; static inline long big_at = -1;
    static void contents(const C& x, Q& q) { q.clear(); for (auto it = x.begin(); it != x.end(); ++it) q.emplace_back(kv(*it), mv(*it)); }
    static void expect(const C& x, const Q& q, const char* what, int a, bool loose = false)
    {
        if (x.size() != q.size() || (std::size_t)(x.end() - x.begin()) != q.size()) fail("%s (%d): size() is %zu, expected %zu", what, a, (std::size_t)x.size(), q.size());
        if (ord && !loose) { std::size_t i = 0; for (auto it = x.begin(); it != x.end(); ++it, ++i) if (kv(*it) != q[i].first || mv(*it) != q[i].second) fail("%s (%d): element %zu of %zu is (class %d, tag %d), expected (class %d, tag %d)", what, a, i, q.size(), cls(kv(*it)), kv(*it) & 255, cls(q[i].first), q[i].first & 255); }
        else { Q g, w(q); contents(x, g); std::sort(g.begin(), g.end()); std::sort(w.begin(), w.end()); if (g != w) { std::size_t i = 0; while (g[i] == w[i]) ++i; fail("%s (%d): the elements are not those expected (around class %d, expected class %d)", what, a, cls(g[i].first), cls(w[i].first)); }
            if constexpr (ord) for (auto it = x.begin(); it != x.end() && it + 1 != x.end(); ++it) { i32 ka = kv(*it), kb = kv(*(it + 1)); if (cls(ka) != cls(kb) ? !lt(x.key_comp().id, ka, kb) : uniq) fail("%s (%d): the elements are not sorted", what, a); } }
        if (K::tracked && H.live_arena != (i32)(per * (int)q.size()) + big_other) fail("%s (%d): %d live elements, expected %d", what, a, H.live_arena, per * (int)q.size() + big_other);
    }
    static int q_lb(const Q& q, int id, int k) { int i = 0; while (i < (int)q.size() && lt(id, q[(std::size_t)i].first, k)) ++i; return i; }
    static int q_ub(const Q& q, int id, int k) { int i = 0; while (i < (int)q.size() && !lt(id, k, q[(std::size_t)i].first)) ++i; return i; }
    static int q_find(const Q& q, int id, int k) { for (int i = 0; i < (int)q.size(); ++i) if (eqv(id, q[(std::size_t)i].first, k)) return i; return -1; }
    static int q_count(const Q& q, int id, int k) { int r = 0; for (auto& e : q) r += eqv(id, e.first, k); return r; }
    static int q_ins(Q& q, int id, int k, int v, bool& ins, int hint = -1)
    {
        ins = true; if (uniq) { int f = q_find(q, id, k); if (f >= 0) { ins = false; return f; } }
        int p = (int)q.size(); if (ord) { p = q_ub(q, id, k); int l = q_lb(q, id, k); if (hint >= l && hint <= p) p = hint; else if (!uniq && big_at >= l && big_at <= p) p = (int)big_at; } // without a valid hint: anywhere among the equivalent ones
        q.insert(q.begin() + p, std::make_pair(k, v)); return p;
    }
    static void lookups(const C& y0, const Q& q, int id, int k)
    {
        C& x = const_cast<C&>(y0); const C& y = y0; K_t t(k); const int S = (int)q.size(), f = q_find(q, id, k), ct = q_count(q, id, k);
        long a = -1, b = -1, d = -1; bool h = false, hx = false; std::size_t cn = 0, cx = 0;
        auto good = [&](auto it) { return it == y.end() ? -1L : (long)(it - y.begin()); };
        call([&] { a = good(y.find(t)); b = good(CI(x.find(t))); h = y.contains(t); cn = (std::size_t)y.count(t); });
        auto okf = [&](long z) { return f < 0 ? z == -1 : z >= 0 && z < S && eqv(id, kv(*(y.begin() + z)), k) && (!ord || z == f); };
        if (!okf(a) || !okf(b)) fail("find() of class %d in a container of %d elements returns index %ld / %ld", cls(k), S, a, b);
        if (h != (f >= 0) || cn != (std::size_t)ct) fail("contains()/count() of class %d in a container of %d elements: %d, %zu; expected %d, %d", cls(k), S, h, cn, f >= 0, ct);
        if constexpr (transp) { Probe pr{k}; call([&] { d = good(y.find(pr)); hx = y.contains(pr); cx = (std::size_t)y.count(pr); }); if (!okf(d) || hx != h || cx != cn) fail("heterogeneous find/contains/count of class %d in a container of %d elements: %ld, %d, %zu; expected count %d", cls(k), S, d, hx, cx, ct); }
        if constexpr (ord) {
            const long l = q_lb(q, id, k), u = q_ub(q, id, k); long z[8];
            call([&] { z[0] = (long)(y.lower_bound(t) - y.begin()); z[1] = (long)(y.upper_bound(t) - y.begin()); auto e = y.equal_range(t); z[2] = (long)(e.first - y.begin()); z[3] = (long)(e.second - y.begin());
                z[4] = (long)(x.lower_bound(t) - x.begin()); z[5] = (long)(x.upper_bound(t) - x.begin()); auto g = x.equal_range(t); z[6] = (long)(g.first - x.begin()); z[7] = (long)(g.second - x.begin()); });
            for (int i = 0; i < 8; ++i) if (z[i] != ((i & 1) ? u : l)) fail("lower_bound/upper_bound/equal_range of class %d in a container of %d elements: result %d is %ld, expected %ld", cls(k), S, i, z[i], (i & 1) ? u : l);
            if constexpr (transp) { Probe pr{k}; call([&] { z[0] = (long)(y.lower_bound(pr) - y.begin()); z[1] = (long)(y.upper_bound(pr) - y.begin()); auto e = y.equal_range(pr); z[2] = (long)(e.first - y.begin()); z[3] = (long)(e.second - y.begin()); }); for (int i = 0; i < 4; ++i) if (z[i] != ((i & 1) ? u : l)) fail("heterogeneous lower_bound/upper_bound/equal_range of class %d in a container of %d elements: result %d is %ld, expected %ld", cls(k), S, i, z[i], (i & 1) ? u : l); }
        }
        if constexpr (mapp && uniq) { int v = 0; Outcome r = call([&] { v = val_of(y.at(t)); }); if (f >= 0 ? r != OK || v != q[(std::size_t)f].second : r != OOR) fail("at() of class %d in a container of %d elements: %s, value %d", cls(k), S, outcome_name(r), v); }
    }
    static void big(int s, int variant)
    {
        static Snap sn, sb; save(sn); ++n_ladder; big_other = ((int)total_live() - FM[s].n * per);
        C& x = c(s); const C& y = x; FlatModel& m = FM[s]; const int id = m.cid; Q q0, q; contents(x, q0);
        const int K0 = small ? 60 : std::min(60, (N - m.n - 44) / (uniq ? 1 : 2)); if (K0 < 8) return;
        int hi = 2; for (auto& e : q0) hi = std::max(hi, cls(e.first) + 2); hi &= ~1;
        auto kk = [&](int i, int tg = 1) { return mk(hi + 2 * i, tg); };
        auto emp = [&](int k, int v) { if constexpr (mapp) x.emplace(k, v); else { (void)v; x.emplace(k); } };
        int v = 1000;
        Outcome r = call([&] { for (int i = 0; i < K0; ++i) { const int z = variant == 0 ? i : variant == 1 ? (i * 37) % K0 : K0 - 1 - i; for (int d = 0; d < (uniq ? 1 : 1 + (z % 3)); ++d) { bool ins; const int w = mapp ? ++v : 0; emp(kk(z, d), w); q_ins(q0, id, kk(z, d), w, ins); } } });
        if (r != OK) fail("building a large container threw %s", outcome_name(r));
        expect(x, q0, "growing", K0, !uniq); save(sb); const int n = (int)q0.size(); q = q0;
        { Q g; contents(x, g); if (!ord || !uniq) q0 = q = g; }      // the order of an unordered container is its own choice
        const int room = small ? 1 << 20 : N - n;
        for (int i = 0; i < 2 * K0 + 2; ++i) { if (!ord && (id & 1) && (i & 1)) continue; lookups(y, q, id, mk(hi + i - 1 + (hi & 1), 9)); }
        if constexpr (transp && ord) for (int lo = 0; lo < 2 * K0; lo += 5) for (int w : {1, 6, 30}) {
            Band bd{hi + lo, hi + lo + w}; long z[4]; int in = 0, first = -1; for (int i = 0; i < n; ++i) if (cls(q[(std::size_t)i].first) >= bd.lo && cls(q[(std::size_t)i].first) <= bd.hi) { ++in; if (first < 0) first = i; }
            std::size_t cn = 0; call([&] { cn = (std::size_t)y.count(bd); auto e = y.equal_range(bd); z[0] = (long)(e.first - y.begin()); z[1] = (long)(e.second - y.begin()); z[2] = (long)(y.lower_bound(bd) - y.begin()); z[3] = (long)(y.upper_bound(bd) - y.begin()); });
            if ((!uniq && cn != (std::size_t)in) || z[1] - z[0] != in || z[3] - z[2] != in || (in && (z[0] != first || z[2] != first))) fail("lookup of a heterogeneous key equivalent to %d of %d elements: count %zu, equal_range [%ld,%ld), lower/upper_bound %ld/%ld", in, n, cn, z[0], z[1], z[2], z[3]);
        }
        auto done = [&](const char* w, int a, Outcome rr, bool loose = false) { if (rr != OK) fail("%s (%d) in a container of %d elements threw %s", w, a, n, outcome_name(rr)); expect(x, q, w, a, loose); settle(); restore(sb); q = q0; big_at = -1; };
        long& at = big_at; at = -1; bool okb = false; auto put = [&](auto it) { at = (long)(it - x.begin()); }; auto P = [&](int i) { return y.begin() + i; };
        const int cl[] = {-2, -1, 0, 1, 2, 5, K0 / 2, K0, K0 + 1, K0 + 7, 2 * K0 - 2, 2 * K0 - 1, 2 * K0, 2 * K0 + 6};
        auto check_at = [&](const char* w, int ci, int want, int k) { if (ord ? at != want : at < 0 || at >= (long)x.size() || !eqv(id, kv(*(x.begin() + at)), k)) fail("%s of class %d into %d elements returns an iterator to %ld, expected %d", w, ci, n, at, want); };
        for (int ci : cl) {
            if (!ord && (id & 1) && (ci & 1)) continue;
            if (hi + ci < 1) continue;
            const int k = mk(hi + ci, 77), l = ord ? q_lb(q, id, k) : 0, u = ord ? q_ub(q, id, k) : 0; bool ins; int p;
            if (room >= 1) {
                { const int w = mapp ? 5001 : 0; r = call([&] { if constexpr (uniq) { auto pr = [&] { if constexpr (mapp) return x.emplace(k, w); else return x.emplace(k); }(); put(pr.first); okb = pr.second; } else { if constexpr (mapp) put(x.emplace(k, w)); else put(x.emplace(k)); } });
                  p = q_ins(q, id, k, w, ins); if (uniq && r == OK && okb != ins) fail("emplace of class %d into %d elements reports %d", ci, n, okb); if (r == OK) check_at("emplace", ci, p, k); done("emplace", ci, r); }
                { const int w = mapp ? 5002 : 0; VT t = make(k, w); r = call([&] { if constexpr (uniq) { auto pr = x.insert(std::move(t)); put(pr.first); okb = pr.second; } else put(x.insert(std::move(t))); });
                  p = q_ins(q, id, k, w, ins); if (uniq && r == OK && okb != ins) fail("insert of class %d into %d elements reports %d", ci, n, okb); if (r == OK) check_at("insert", ci, p, k); done("insert", ci, r); }
                for (int h : {0, 1, l - 1, l, l + 1, u, u + 1, n / 2, n - 1, n}) {
                    if (h < 0 || h > n) continue; const int w = mapp ? 5003 : 0;
                    r = call([&] { if constexpr (mapp) put(x.emplace_hint(P(h), k, w)); else put(x.emplace_hint(P(h), k)); }); p = q_ins(q, id, k, w, ins, h); if (r == OK) check_at("emplace_hint", ci, p, k); done("emplace_hint", ci * 1000 + h, r);
                    { VT t = make(k, w); r = call([&] { put(x.insert(P(h), std::move(t))); }); p = q_ins(q, id, k, w, ins, h); if (r == OK) check_at("insert(hint)", ci, p, k); done("insert(hint)", ci * 1000 + h, r); }
                    if constexpr (mapp && uniq) {
                        r = call([&] { put(x.try_emplace(P(h), K_t(k), 5004)); }); p = q_ins(q, id, k, 5004, ins); if (r == OK) check_at("try_emplace(hint)", ci, p, k); done("try_emplace(hint)", ci * 1000 + h, r);
                        r = call([&] { put(x.insert_or_assign(P(h), K_t(k), V(5005))); }); p = q_ins(q, id, k, 5005, ins); q[(std::size_t)p].second = 5005; if (r == OK) check_at("insert_or_assign(hint)", ci, p, k); done("insert_or_assign(hint)", ci * 1000 + h, r);
                    }
                }
                if constexpr (mapp && uniq) {
                    r = call([&] { auto pr = x.try_emplace(K_t(k), 5006); put(pr.first); okb = pr.second; }); p = q_ins(q, id, k, 5006, ins); if (r == OK && okb != ins) fail("try_emplace reports %d", okb); if (r == OK) check_at("try_emplace", ci, p, k); done("try_emplace", ci, r);
                    r = call([&] { auto pr = x.insert_or_assign(K_t(k), V(5007)); put(pr.first); okb = pr.second; }); p = q_ins(q, id, k, 5007, ins); q[(std::size_t)p].second = 5007; if (r == OK && okb != ins) fail("insert_or_assign reports %d", okb); if (r == OK) check_at("insert_or_assign", ci, p, k); done("insert_or_assign", ci, r);
                    r = call([&] { x[K_t(k)] = V(5008); }); p = q_ins(q, id, k, 5008, ins); q[(std::size_t)p].second = 5008; done("operator[]", ci, r);
                }
            }
            { std::size_t e = 0; const int ct = q_count(q, id, k); K_t t(k); r = call([&] { e = (std::size_t)x.erase(static_cast<const K_t&>(t)); }); if (r == OK && (int)e != ct) fail("erase(key) of class %d in %d elements returns %zu, expected %d", ci, n, e, ct); q.erase(std::remove_if(q.begin(), q.end(), [&](auto& z) { return eqv(id, z.first, k); }), q.end()); done("erase(key)", ci, r); }
            if constexpr (transp) { std::size_t e = 0; const int ct = q_count(q, id, k); Probe t{k}; r = call([&] { e = (std::size_t)x.erase(t); }); if (r == OK && (int)e != ct) fail("erase(heterogeneous key) of class %d in %d elements returns %zu, expected %d", ci, n, e, ct); q.erase(std::remove_if(q.begin(), q.end(), [&](auto& z) { return eqv(id, z.first, k); }), q.end()); done("erase(heterogeneous key)", ci, r); }
        }
        for (int p : {0, 1, 5, n / 3, n / 2, n - 17, n - 3, n - 2, n - 1, n}) {
            if (p < 0) continue;
            auto er = [&](const char* w, int cnt_, auto f) { r = call([&] { put(f()); }); if (r == OK && at != p) fail("%s at %d of %d elements returns an iterator to %ld", w, p, n, at);
                if (r == OK) for (int i = 0; i < p; ++i) if (kv(*(y.begin() + i)) != q[(std::size_t)i].first) fail("%s at %d of %d elements changed element %d", w, p, n, i);
                q.erase(q.begin() + p, q.begin() + p + cnt_); done(w, p * 1000 + cnt_, r); };
            if (p < n) { er("erase(iterator)", 1, [&] { return x.erase(x.begin() + p); }); er("erase(const_iterator)", 1, [&] { return x.erase(y.begin() + p); }); }
            for (int k : {0, 1, 2, 5, 16, 33, 50, n - p}) if (p + k <= n) er("erase(first,last)", k, [&] { return x.erase(P(p), P(p + k)); });
        }
        for (int cntr : {1, 10, 40}) if (cntr <= room) {            // ranges with present, absent and repeated keys, in scattered order
            Q in; for (int i = 0; i < cntr; ++i) in.emplace_back(mk(hi + 2 * ((i * 29) % (K0 + 15)), 90 + i % 3), mapp ? 6000 + i : 0);
            if constexpr (mapp) { std::vector<std::pair<int, int>> iv; for (auto& e : in) iv.push_back(e); const auto* f = iv.data(); r = call([&] { x.insert(f, f + cntr); }); for (auto& e : in) { bool ins; q_ins(q, id, e.first, e.second, ins); } done("insert(first,last)", cntr, r, !uniq); }
            else { std::vector<int> iv; for (auto& e : in) iv.push_back(e.first); const int* f = iv.data(); r = call([&] { x.insert(f, f + cntr); }); for (auto& e : in) { bool ins; q_ins(q, id, e.first, 0, ins); } done("insert(first,last)", cntr, r, !uniq); }
        }
        for (int md : {2, 3, 7}) { std::size_t e = 0; auto pr = [&](const VT& t) { return (cls(key(t).val) / 2) % md == 0; }; r = call([&] { e = (std::size_t)sfl::erase_if(x, pr); }); auto ne = std::remove_if(q.begin(), q.end(), [&](auto& z) { return (cls(z.first) / 2) % md == 0; }); if (r == OK && e != (std::size_t)(q.end() - ne)) fail("erase_if returns %zu in a container of %d elements", e, n); q.erase(ne, q.end()); done("erase_if", md, r); }
        { r = call([&] { x.clear(); }); q.clear(); done("clear", 0, r); }
        if constexpr (small) { r = call([&] { x.shrink_to_fit(); }); done("shrink_to_fit", 0, r); r = call([&] { x.reserve((std::size_t)(n + 50)); }); done("reserve", 0, r); }
        // whole-container operations with a second container
        if (!H.slot_on[1]) { C& z = c(1); static Snap s2; const int base = big_other;
            auto two = [&](const char* w, const Q& ex, const Q* ez, int other) { if (r != OK) fail("%s of containers of %d and %d elements threw %s", w, n, other, outcome_name(r)); big_other = base + per * (int)z.size(); expect(x, ex, w, other); big_other = base + per * (int)x.size(); Q g; if (!ez) contents(z, g); expect(z, ez ? *ez : g, w, other); big_other = base; settle(); restore(s2); };
            for (int mm : {0, 2, 5, n / 2, n, n + 20}) for (int dif = 0; dif < 2; ++dif) {
                if (!small && mm > N) continue; if (dif && mm < n / 2) continue;
                Q p0; H.slot_on[1] = 1; memset(slot(1), POISON, sizeof(C));
                r = call([&] { if constexpr (has_alloc) ::new ((void*)slot(1)) C(Cmp(id), x.get_allocator()); else ::new ((void*)slot(1)) C(Cmp(id)); for (int i = 0; i < mm; ++i) { bool ins; const bool old = i < n; const int src = n - 1 - i; int k1 = old ? q0[(std::size_t)src].first : kk(200 + i), v1 = old ? q0[(std::size_t)src].second : mapp ? 7000 + i : 0; if (dif && i == mm / 2) { k1 = kk(150); } if constexpr (mapp) z.emplace(k1, v1); else z.emplace(k1); q_ins(p0, id, k1, v1, ins); } if (!uniq) contents(z, p0); });
                if (r != OK) fail("building the second container threw %s", outcome_name(r));
                save(s2);
                { bool b[2]; const C& w = z; r = call([&] { b[0] = y == w; b[1] = y != w; }); Q g(q0), h(p0); if (!ord) { std::sort(g.begin(), g.end()); std::sort(h.begin(), h.end()); } const bool e = g == h; if (b[0] != e || b[1] == e) { if (ord || !uniq || true) { bool val_eq = e; if (b[0] != val_eq) fail("operator== of containers of %d and %d elements is %d", n, mm, b[0]); fail("operator!= of containers of %d and %d elements is %d", n, mm, b[1]); } } two("comparison", q0, &p0, mm); }
                if constexpr (can_copy) { r = call([&] { x = static_cast<const C&>(z); }); two("copy assignment", p0, &p0, mm); }
                r = call([&] { x = std::move(z); }); two("move assignment", p0, nullptr, mm);
                r = call([&] { x.swap(z); }); two("swap", p0, &q0, mm);
                r = call([&] { z.swap(x); }); two("swap", p0, &q0, mm);
                restore(sb);
            }
            H.slot_on[1] = 1; memset(slot(1), POISON, sizeof(C)); save(s2);
            auto cons = [&](const char* w, bool same) { if (r != OK) fail("%s of %d elements threw %s", w, n, outcome_name(r)); big_other = base + per * (int)x.size(); expect(z, q0, w, n); big_other = base + per * (int)z.size(); Q g; contents(x, g); expect(x, same ? q0 : g, w, n); big_other = base; settle(); restore(s2); };
            if constexpr (can_copy) { r = call([&] { ::new ((void*)slot(1)) C(static_cast<const C&>(x)); }); cons("copy construction", true); }
            r = call([&] { ::new ((void*)slot(1)) C(std::move(x)); }); cons("move construction", false);
            restore(sb);
        }
        restore(sn);
    }

    // erase(pos) / erase(range): the elements before the position stay; the positions from it on hold exactly
    // the elements that followed the erased ones (in order, for ordered containers).
    static void erase_model(int s, FlatModel& e, int p, int q, Outcome r)
    {
        FlatModel old = e; m_er(e, p, q); if (r != OK) return;
        if constexpr (!ord) {
            FlatModel got = e; adopt(s, got); if (got.n != e.n) fail("size() is %d, expected %d", got.n, e.n);
            for (int i = 0; i < p; ++i) if (got.e[i].k != old.e[i].k) fail("erase changed element %d before the erased position", i);
            for (int i = p; i < got.n; ++i) { bool f = false; for (int j = q; j < old.n; ++j) if (old.e[j].k == got.e[i].k && (!mapp || old.e[j].v == got.e[i].v)) f = true; if (!f) fail("after erase, iterating from the returned iterator visits an element that did not follow the erased ones"); for (int j = p; j < i; ++j) if (got.e[j].k == got.e[i].k) fail("erase duplicated an element"); }
            e = got;
        }
    }

    // ------------------------------------------------------------ two containers
    // ------------------------------------------------------------ a container that holds more than another allocator allows
    template <class P> static Outcome lower_limit(int s, P& p, int kind, int which)
    {
        C& x = c(s); const int n = p.m.n; const u32 keep = H.maxsz, lim = (u32)(which == 2 ? n : which ? n / 2 : n - 1); Outcome r = which == 2 ? OK : LEN;
        static const char* nm[] = {"copy construction", "copy construction with an allocator", "move construction with an unequal allocator", "copy assignment", "move assignment between unequal allocators", "construction from a range", "insert(first,last)"};
        const int other = p.m.aid == 2 ? 1 : 2; H.maxsz = lim;
        switch (kind) {
        case 0: if constexpr (can_copy) r = call([&] { C tmp(static_cast<const C&>(x)); }); break;
        case 1: if constexpr (can_copy) r = call([&] { C tmp(static_cast<const C&>(x), A(other)); }); break;
        case 2: if constexpr (stateful) r = call([&] { C tmp(std::move(x), A(other)); }); break;
        case 3: if constexpr (can_copy) r = call([&] { C tmp{A(p.m.aid)}; tmp = static_cast<const C&>(x); }); break;
        case 4: if constexpr (stateful && !pocma) r = call([&] { C tmp{A(other)}; tmp = std::move(x); }); break;
        case 5: if constexpr (can_copy) r = call([&] { C tmp(x.begin(), x.end(), A(other)); }); break;
        case 6: if constexpr (can_copy) r = call([&] { C tmp{A(other)}; tmp.insert(x.begin(), x.end()); }); break;
        }
        in_call = false; H.maxsz = keep;
        if (which == 2) { // exactly max_size() elements fit
            if (r != OK) fail("%s of %d elements where max_size() is %u: %s", nm[kind], n, lim, outcome_name(r));
            if (kind == 2 || kind == 4) { call([&] { x.clear(); }); adopt(s, FM[s]); FM[s].broken = 0; } else expect_unchanged(s, p, nm[kind], true);
            fp_count = 0; return OK;
        }
        if (r != LEN && !(r == OK && n <= N)) fail("%s of %d elements where max_size() is %u: %s, expected length_error", nm[kind], n, lim, outcome_name(r));
        if (g_aborted) return r;
        if (kind == 2 || kind == 4) { adopt(s, FM[s]); bool same = FM[s].n == n; for (int i = 0; same && i < n; ++i) same = FM[s].e[i].k == p.m.e[i].k; FM[s].broken = same ? p.m.broken : 1; } else expect_unchanged(s, p, nm[kind], true);
        fp_count = 0; return OK;
    }

    static Outcome apply2(int s, int t, const Op& o)
    {
        Outcome r = OK; FlatModel& ms = FM[s]; FlatModel& mt = FM[t]; i32 ext0 = H.live_ext; C& x = c(s);
        if (o.b) { // the keys of the other container: interleaved, shifted by one key up or down, in the reverse order
            C& y = c(t); int lab[FMAXN]; const int R = runs(mt, lab);
            for (int i = 0; i < mt.n; ++i) {
                const int cl = o.b == 3 && !ord ? 2 * (R - lab[i]) : cls(mt.e[i].k) + (o.b == 3 ? -2 : o.b);
                const VT& e = *(y.begin() + i); mt.e[i].k = mk(cl, mt.e[i].k & 255); set_val(key(e), mt.e[i].k);
            }
        }
        auto aid_of = [&](int q, FlatModel& m) { if constexpr (has_alloc) { if (c(q).get_allocator().get()) m.aid = c(q).get_allocator().get(); } else { (void)q; (void)m; } };
        auto moved = [&](int q) { // moved-from: valid but unspecified
            FlatModel& m = FM[q]; int id = m.cid; adopt(q, m); (void)id;
            bool bad = false; for (int i = 0; i < m.n; ++i) if (m.e[i].k == MOVED) bad = true;
            if (!bad) { for (int a = 0; a + 1 < m.n; ++a) if (ord && lt(m.cid, m.e[a + 1].k, m.e[a].k)) bad = true; if (uniq) for (int a = 0; a < m.n; ++a) for (int b = a + 1; b < m.n; ++b) if (eqv(m.cid, m.e[a].k, m.e[b].k)) bad = true; }
            if (bad) m.broken = 1; };
        switch (o.k) {
        case F_CC: case F_CCA: if constexpr (can_copy) {
            H.slot_on[t] = 1; mt = ms; mt.n = 0; memset(slot(t), POISON, sizeof(C));
            r = call([&] { if constexpr (has_alloc) { if (o.k == F_CCA) { ::new ((void*)slot(t)) C(static_cast<const C&>(x), A(o.a)); return; } } ::new ((void*)slot(t)) C(static_cast<const C&>(x)); });
            if (r != OK) { H.slot_on[t] = 0; if (r != FAULTED && !(r == LEN && over_max(ms.n))) fail("copy constructor threw %s", outcome_name(r)); }
            else { mt = ms; mt.aid = o.k == F_CCA ? o.a : (stateful ? (ms.aid < 10 ? ms.aid + 10 : ms.aid) : 1); if (ms.n <= N && cnt[K_ALLOC]) fail("copy construction of a container with <= N elements allocated memory"); }
            } break;
        case F_MC: case F_MCA: {
            H.slot_on[t] = 1; mt = ms; mt.n = 0; memset(slot(t), POISON, sizeof(C)); Pre& p = grab(s);
            r = call([&] { if constexpr (has_alloc) { if (o.k == F_MCA) { ::new ((void*)slot(t)) C(std::move(x), A(o.a)); return; } } ::new ((void*)slot(t)) C(std::move(x)); });
            if (r != OK) { H.slot_on[t] = 0; if (r != FAULTED && !(r == LEN && over_max(p.m.n))) fail("move constructor threw %s", outcome_name(r)); moved(s); }
            else { mt = p.m; mt.aid = o.k == F_MCA ? o.a : p.m.aid; moved(s);
                if (small && !p.inside && alloc_eq(mt.aid, p.m.aid)) for (int i = 0; i < p.m.n && i < (int)c(t).size(); ++i) if (&*(c(t).begin() + i) != p.addr[i]) fail("move construction with an equal allocator moved elements instead of transferring storage");
                if ((!small || p.inside) && cnt[K_ALLOC]) fail("move construction from internal storage allocated memory"); }
            } break;
        case F_CA: if constexpr (can_copy) { C& y = c(t); FlatModel want = mt; Pre& p = grab(s);
            r = call([&] { C& q = (x = static_cast<const C&>(y)); if (&q != &x) fail("operator= does not return *this"); });
            if (r == OK) { int aid = pocca ? mt.aid : ms.aid; ms = want; ms.aid = aid; if (!(pocca && stateful && p.m.aid != mt.aid) && (std::size_t)want.n <= p.cap && cnt[K_ALLOC]) fail("copy assignment allocated memory although the capacity is sufficient"); if (!small && cnt[K_ALLOC]) fail("static container allocated memory"); }
            else { if (r != FAULTED && !(r == LEN && over_max(want.n))) fail("copy assignment threw %s", outcome_name(r)); assign_fault(s); aid_of(s, ms); }
            } break;
        case F_MA: { C& y = c(t); FlatModel want = mt; Pre& p = grab(t);
            r = call([&] { C& q = (x = std::move(y)); if (&q != &x) fail("operator= does not return *this"); });
            if (r == OK) { bool eqa = pocma || alloc_eq(ms.aid, want.aid); int aid = pocma ? want.aid : ms.aid; ms = want; ms.aid = aid; moved(t);
                if (small && !p.inside && eqa) for (int i = 0; i < want.n && i < (int)x.size(); ++i) if (&*(x.begin() + i) != p.addr[i]) fail("move assignment moved elements instead of transferring storage"); }
            else { if (r != FAULTED && !(r == LEN && over_max(want.n))) fail("move assignment threw %s", outcome_name(r)); assign_fault(s); moved(t); aid_of(s, ms); aid_of(t, mt); }
            } break;
        case F_SWAP: case F_NSWAP: { C& y = c(t); Pre& p = grab(s); Pre& q = grab(t);
            r = call([&] { if (o.k == F_SWAP) x.swap(y); else { using std::swap; swap(x, y); } });
            if (r == OK) { int as = ms.aid, at = mt.aid; std::swap(ms, mt); if (!pocs) { ms.aid = as; mt.aid = at; }
                if (cnt[K_ALLOC]) fail("swap allocated memory");
                if (small && !p.inside && !q.inside) { for (int i = 0; i < p.m.n; ++i) if (&*(y.begin() + i) != p.addr[i]) fail("swap of two heap-allocated containers moved elements"); for (int i = 0; i < q.m.n; ++i) if (&*(x.begin() + i) != q.addr[i]) fail("swap of two heap-allocated containers moved elements"); } }
            else { if (r != FAULTED) fail("swap threw %s", outcome_name(r)); assign_fault(s); assign_fault(t); aid_of(s, ms); aid_of(t, mt); }
            } break;
        case F_INS_FROM: if constexpr (can_copy) { C& y = c(t); FlatModel e = ms, old = ms; r = call([&] { x.insert(y.cbegin(), y.cend()); });
            for (int i = 0; i < mt.n; ++i) { bool ins; m_insert(e, mt.e[i].k, mt.e[i].v, ins); }
            if (r == OK) { if (!ord || !uniq) reorder(s, e, &old); ms = e; } else if (r == FAULTED || (r == LEN && small_max)) { if (g_aborted) return r; after_fault(s, &old, nothrow_move, "insert(range)"); } else fail("insert(range) threw %s", outcome_name(r));
            } break;
        case F_CMP: compare_all(s, t); break;
        case F_BADSW: { C& y = c(t); must_abort("swap of containers with unequal allocators that do not propagate", 0, 0, [&] { x.swap(y); }); must_abort("non-member swap of containers with unequal allocators that do not propagate", 0, 0, [&] { using std::swap; swap(x, y); }); } break;
        default: fail("harness: op2");
        }
        if (H.live_ext != ext0) fail("element leaked outside container storage");
        return r;
    }
    // an assignment or swap that failed half way may leave elements in an arbitrary (but valid) state
    static void assign_fault(int s)
    {
        FlatModel& m = FM[s]; adopt(s, m); bool bad = !nothrow_move;
        for (int i = 0; i < m.n; ++i) if (m.e[i].k == MOVED) bad = true;
        for (int a = 0; a + 1 < m.n; ++a) if (ord && lt(m.cid, m.e[a + 1].k, m.e[a].k)) bad = true;
        if (uniq) for (int a = 0; a < m.n; ++a) for (int b = a + 1; b < m.n; ++b) if (eqv(m.cid, m.e[a].k, m.e[b].k)) bad = true;
        if (bad && nothrow_move) fail("an assignment or swap that threw left elements that are out of order, duplicated or moved from");
        if (bad) m.broken = 1;
    }
    // every call that violates a documented precondition: the assertion must fire
    static void bad_calls(int s)
    {
        C& x = c(s); const C& y = x; FlatModel& m = FM[s]; const int n = m.n; using SZ = std::size_t;
        int lab[FMAXN]; const int R = runs(m, lab);
        for (SZ i : {(SZ)n + 1, (SZ)n + 2, (SZ)-1}) { must_abort("nth(i)", (int)i, n, [&] { (void)x.nth(i); }); must_abort("nth(i) const", (int)i, n, [&] { (void)y.nth(i); }); }
        const int lo = y.capacity() ? -1 : 0, hi = y.capacity() ? n + 1 : n;
        auto P = [&](int i) { CI q = y.cbegin(); q += i; return q; };
        auto Q = [&](int i) { It q = x.begin(); q += i; return q; };
        if (n > 0 || y.capacity()) { must_abort("erase(end())", n, n, [&] { x.erase(P(n)); }); must_abort("erase(end()) iterator", n, n, [&] { x.erase(Q(n)); }); }
        for (int f = lo; f <= hi; ++f) for (int l = lo; l <= hi; ++l) if (f < 0 || l > n || f > l) must_abort("erase(first,last) with positions", f, l, [&] { x.erase(P(f), P(l)); });
        const bool full = !small && n >= N;
        auto newc = [&](int j) { return ord ? 2 * R + 1 - 2 * j : 2 * R + 2 + 2 * j; };          // classes not in the container (j = 0: last position / new)
        // all single-element insertions; hint < -1: without hint
        auto inserts = [&](const char* why, int cl, int h) {
            const i32 k = mk(cl, 200); const bool hinted = h != -100;
            auto go = [&](const char* w, auto f) { static char b[160]; snprintf(b, sizeof b, "%s %s", w, why); must_abort(b, cl, h, f); };
            if (hinted) {
                go("emplace_hint", [&] { if constexpr (mapp) x.emplace_hint(P(h), K(k), V(1)); else x.emplace_hint(P(h), k); });
                go("insert(hint,&&)", [&] { x.insert(P(h), make(k, 1)); });
                if constexpr (can_copy) { VT t = make(k, 1); go("insert(hint,const&)", [&] { x.insert(P(h), static_cast<const VT&>(t)); }); }
                if constexpr (mapp) go("insert(hint,P&&)", [&] { x.insert(P(h), std::pair<i32, i32>(k, 1)); });
                if constexpr (transp && !mapp && uniq) go("insert(hint,heterogeneous)", [&] { Probe q{k}; x.insert(P(h), static_cast<const Probe&>(q)); });
                if constexpr (mapp && uniq) {
                    go("try_emplace(hint,&&)", [&] { x.try_emplace(P(h), K(k), 1); }); go("insert_or_assign(hint,&&)", [&] { x.insert_or_assign(P(h), K(k), V(1)); });
                    if constexpr (std::is_copy_constructible<K>::value) { K q(k); go("try_emplace(hint,const&)", [&] { x.try_emplace(P(h), static_cast<const K&>(q), 1); }); go("insert_or_assign(hint,const&)", [&] { x.insert_or_assign(P(h), static_cast<const K&>(q), V(1)); }); }
                    if constexpr (transp) { Probe q{k}; go("try_emplace(hint,heterogeneous)", [&] { x.try_emplace(P(h), static_cast<const Probe&>(q), 1); }); go("insert_or_assign(hint,heterogeneous)", [&] { x.insert_or_assign(P(h), static_cast<const Probe&>(q), V(1)); }); }
                }
            } else {
                go("emplace", [&] { if constexpr (mapp) x.emplace(K(k), V(1)); else x.emplace(k); });
                go("insert(&&)", [&] { x.insert(make(k, 1)); });
                if constexpr (can_copy) { VT t = make(k, 1); go("insert(const&)", [&] { x.insert(static_cast<const VT&>(t)); }); go("insert(range)", [&] { x.insert(&t, &t + 1); }); }
                if constexpr (mapp) go("insert(P&&)", [&] { x.insert(std::pair<i32, i32>(k, 1)); });
                if constexpr (transp && !mapp && uniq) go("insert(heterogeneous)", [&] { Probe q{k}; x.insert(static_cast<const Probe&>(q)); });
                if constexpr (mapp && uniq) {
                    go("try_emplace(&&)", [&] { x.try_emplace(K(k), 1); }); go("insert_or_assign(&&)", [&] { x.insert_or_assign(K(k), V(1)); }); go("operator[](&&)", [&] { (void)x[K(k)]; });
                    if constexpr (std::is_copy_constructible<K>::value) { K q(k); go("try_emplace(const&)", [&] { x.try_emplace(static_cast<const K&>(q), 1); }); go("insert_or_assign(const&)", [&] { x.insert_or_assign(static_cast<const K&>(q), V(1)); }); go("operator[](const&)", [&] { (void)x[static_cast<const K&>(q)]; }); }
                    if constexpr (transp) { Probe q{k}; go("try_emplace(heterogeneous)", [&] { x.try_emplace(static_cast<const Probe&>(q), 1); }); go("insert_or_assign(heterogeneous)", [&] { x.insert_or_assign(static_cast<const Probe&>(q), V(1)); }); go("operator[](heterogeneous)", [&] { (void)x[static_cast<const Probe&>(q)]; }); }
                }
            }
        };
        for (int q : {lo, hi}) if (q < 0 || q > n) {
            must_abort("index_of(pos)", q, n, [&] { (void)y.index_of(P(q)); });
            must_abort("erase(pos)", q, n, [&] { x.erase(P(q)); }); must_abort("erase(pos) iterator", q, n, [&] { x.erase(Q(q)); });
            if (!full) { inserts("with a hint outside the container, new key", newc(0), q); if (n) inserts("with a hint outside the container, existing key", cls(m.e[0].k), q); }
        }
        if constexpr (!small) {
            if (full) {
                for (int j = 0; j <= (ord ? R : 0); ++j) { inserts("into a full container, new key", newc(j), -100); for (int h = 0; h <= n; ++h) inserts("into a full container, new key", newc(j), h); }
                if (!uniq) for (int i = 0; i < n; ++i) inserts("into a full container, existing key", cls(m.e[i].k), -100);
            }
            if constexpr (can_copy) {
                ExtBuf<VT, 8> b; const int K1 = N - n + 1; for (int i = 0; i < std::min(K1, 8); ++i) b.add(make(mk(2 * R + 3 + 2 * i, 200 + i), 1));
                if (K1 <= 8) { must_abort("insert(range) beyond the capacity", K1, N, [&] { x.insert(b.data(), b.data() + K1); }); }
                ExtBuf<VT, 8> d; for (int i = 0; i < std::min(N + 1, 8); ++i) d.add(make(mk(2 + 2 * i, 200 + i), 1));
                if (N + 1 <= 8 && !H.slot_on[1 - s]) {
                    void* w = slot(1 - s); auto ct = [&](const char* what, auto f) { must_abort(what, N + 1, N, [&] { H.slot_on[1 - s] = 1; f(); }); };
                    ct("construct(first,last) beyond the capacity", [&] { ::new (w) C(d.data(), d.data() + N + 1); });
                    ct("construct(first,last,comparator) beyond the capacity", [&] { ::new (w) C(d.data(), d.data() + N + 1, Cmp(0)); });
                    ct("construct(input range) beyond the capacity", [&] { InRange<VT> r{d.data(), (SZ)(N + 1), 0}; ::new (w) C(InIt<VT>{&r, false, 0}, InIt<VT>{&r, true, (SZ)(N + 1)}); });
                }
                if constexpr (N == 2) {
                    std::initializer_list<VT> l3{make(mk(2, 200), 1), make(mk(4, 201), 1), make(mk(6, 202), 1)};
                    if (N < 3) { must_abort("operator=(ilist) beyond the capacity", 3, N, [&] { x = l3; });
                        if (!H.slot_on[1 - s]) must_abort("construct(ilist) beyond the capacity", 3, N, [&] { H.slot_on[1 - s] = 1; ::new ((void*)slot(1 - s)) C(l3); }); }
                }
            }
        }
    }

    static void compare_all(int s, int t)
    {
        C& x = c(s); C& y = c(t); const C& a = x; const C& b = y; int n = FM[s].n, k = FM[t].n; if (n > 4 || k > 4) return;
        // mapped values range over {1,2}; keys keep class, tags are all equal or pairwise different
        FlatModel sv[2] = {FM[s], FM[t]};
        int np = mapp ? n : 0, kp = mapp ? k : 0;
        for (int tg = 0; tg < 2; ++tg) for (int p = 0; p < (1 << np); ++p) for (int q = 0; q < (1 << kp); ++q) {
            std::vector<std::pair<int, int>> va, vb;
            for (int i = 0; i < n; ++i) { auto& e = *(x.begin() + i); int kk = mk(cls(sv[0].e[i].k), tg ? (sv[0].e[i].k & 63) : 1), vv = mapp ? 1 + (p >> i & 1) : 0; set_val(key(e), kk); if constexpr (mapp) set_val(e.second, vv); va.push_back({kk, vv}); }
            for (int i = 0; i < k; ++i) { auto& e = *(y.begin() + i); int kk = mk(cls(sv[1].e[i].k), tg ? (sv[1].e[i].k & 63) : 1), vv = mapp ? 1 + (q >> i & 1) : 0; set_val(key(e), kk); if constexpr (mapp) set_val(e.second, vv); vb.push_back({kk, vv}); }
            ReadOnly ro(p == 0 && q == 0 && tg == 0);
            if constexpr (ord) {
                bool eq = va == vb, l = va < vb, g = vb < va;
                if ((a == b) != eq || (a != b) == eq || (a < b) != l || (a > b) != g || (a <= b) == g || (a >= b) == l) fail("relational operator gives a wrong result");
            } else { auto sa = va, sb = vb; std::sort(sa.begin(), sa.end()); std::sort(sb.begin(), sb.end()); bool eq = sa == sb; if ((a == b) != eq || (a != b) == eq) fail("operator==/!= of an unordered container gives a wrong result"); }
        }
        for (int i = 0; i < n; ++i) { auto& e = *(x.begin() + i); set_val(key(e), sv[0].e[i].k); if constexpr (mapp) set_val(e.second, sv[0].e[i].v); }
        for (int i = 0; i < k; ++i) { auto& e = *(y.begin() + i); set_val(key(e), sv[1].e[i].k); if constexpr (mapp) set_val(e.second, sv[1].e[i].v); }
    }
};

} // namespace mc
