// Sequence containers: vector, small_vector, compact_vector, static_vector, devector,
// segmented_vector, segmented_devector.
#pragma once
#include "engine.hpp"
#include "sfl/vector.hpp"
#include "sfl/small_vector.hpp"
#include "sfl/compact_vector.hpp"
#include "sfl/static_vector.hpp"
#include "sfl/devector.hpp"
#include "sfl/segmented_vector.hpp"
#include "sfl/segmented_devector.hpp"

namespace mc {

enum Fam { VECTOR, SMALL, COMPACT, STATIC, DEVECTOR, SEGV, SEGD };
#ifndef MC_MAXN
#define MC_MAXN 48
#endif
constexpr int MAXN = MC_MAXN;

// operation groups, selected with --mask
enum : int { G_MOD = 1, G_ALIAS = 2, G_CAT = 4, G_ASSIGN = 8, G_CTOR = 16, G_ERASEIF = 32, G_CAP = 64, G_OBS = 128, G_COPY = 256, G_PAIR = 512, G_ITER = 1024, G_REL = 2048, G_BAD = 4096, G_COST = 8192, G_BUILD = 16384, G_HUGE = 32768 };

enum SeqOp : u8 {
    S_CDEF = 1, S_CN, S_CNV, S_CRANGE, S_CDI, S_CBUILD,
    S_PUSHB_C, S_PUSHB_M, S_EMPB, S_EMPB2, S_POPB, S_PUSHF_C, S_PUSHF_M, S_EMPF, S_POPF,
    S_INS_C, S_INS_M, S_INS_N, S_INS_R, S_EMP, S_ER1, S_ERR, S_CLEAR,
    S_RSZ, S_RSZ_V, S_RSZ_F, S_RSZ_FV, S_RSZ_B, S_RSZ_BV, S_RSZ_DI,
    S_ASG_N, S_ASG_R, S_OPIL, S_RES, S_RESF, S_RESB, S_SHRINK,
    S_ERV, S_ERIF, S_AT, S_SELFCA, S_SELFMA, S_SELFSW, S_OBS,
    S_A_PUSHB, S_A_EMPB, S_A_EMPBM, S_A_PUSHF, S_A_EMPF, S_A_EMPFM, S_A_INS, S_A_INSN, S_A_EMP, S_A_EMPM, S_A_RSZ, S_A_RSZF, S_A_RSZB, S_A_ASGN, S_A_ERV,
    S_FILLUP, S_BAD, S_LADDER, S_BIG, S_HUGE,
    S_CC = 200, S_CCA, S_MC, S_MCA,
    S_CA = 220, S_MA, S_SWAP, S_NSWAP, S_CMP, S_BADSW
};
enum Cat { CT_PTR, CT_IN, CT_FWD, CT_BIDI, CT_RA, CT_IL, CT_INT, CT_MOVE, CT_SEG, CT_COUNT };

struct SeqModel { i32 n; i32 aid; i32 v[MAXN]; };
inline SeqModel SM[NSLOT];

template <class CFG> struct Seq
{
    using T = typename CFG::T;
    using C = typename CFG::C;
    static constexpr Fam fam = CFG::fam;
    static constexpr int N = CFG::N;           // internal / static / segment capacity
    static constexpr int AC = CFG::AC;         // allocator configuration (-1: none)
    static constexpr bool has_alloc = fam != STATIC;
    static constexpr bool contiguous = fam != SEGV && fam != SEGD;
    static constexpr bool front = fam == DEVECTOR || fam == SEGD;
    static constexpr bool can_copy = std::is_copy_constructible<T>::value;
    static constexpr bool has_reserve = fam == VECTOR || fam == SMALL || fam == SEGV;
    static constexpr bool has_shrink = fam != COMPACT && fam != STATIC;
    static constexpr bool movable_mark = T::tracked && !std::is_same<T, CO>::value;  // moved-from source is observable
    static constexpr bool nothrow_move = std::is_nothrow_move_constructible<T>::value && std::is_nothrow_move_assignable<T>::value;
    static constexpr bool documented_strong = std::is_nothrow_move_constructible<T>::value || can_copy;
    static constexpr std::size_t objsz = sizeof(C), objal = alignof(C);
    static constexpr bool small_max = (AC > 0) && (AC & A_MAX);
    static bool over_max(int n) { return small_max && n > (int)H.maxsz; }
    static int top() { return fam == SMALL ? std::max(N, (int)H.maxsz) : (int)H.maxsz; }     // elements that need no allocation are no violation of the allocator's max_size()
    static constexpr bool pocca = (AC >= 0) && (AC & A_POCCA), pocma = (AC >= 0) && (AC & A_POCMA), pocs = (AC >= 0) && (AC & A_POCS), stateful = (AC >= 0) && (AC & A_STATE);

    static C& c(int s) { return *std::launder(reinterpret_cast<C*>(slot(s))); }
    static void reset() { cons_required = AC > 0 && (AC & A_CONS); model_mem = (char*)SM; model_sz = sizeof SM; memset(SM, 0, sizeof SM); if (small_max) H.maxsz = (u32)(opt.extra ? opt.extra : 7); }
    static int size(int s) { return SM[s].n; }
    static int capacity(int s) { return (int)c(s).capacity(); }
    static int limit() { return fam == STATIC ? std::min(opt.L, N) : opt.L; }
    static int fresh() { return H.fresh++; }

    // ------------------------------------------------------------ model helpers
    static void m_ins(SeqModel& m, int p, int v) { for (int i = m.n; i > p; --i) m.v[i] = m.v[i-1]; m.v[p] = v; ++m.n; }
    static void m_er(SeqModel& m, int p, int q) { for (int i = q; i < m.n; ++i) m.v[p + i - q] = m.v[i]; m.n -= q - p; }

    static void relabel(int s)
    {
        SeqModel& m = SM[s]; int i = 0;
        for (auto it = c(s).begin(); it != c(s).end(); ++it, ++i) { set_val(*it, 1000 * s + i + 1); m.v[i] = 1000 * s + i + 1; }
        if (i != m.n) fail("iteration visits %d elements but size is %d", i, m.n);
        H.fresh = 100;
    }

    static void canon(int s, std::string& out)
    {
        C& x = c(s);
        auto put = [&](u64 v) { out.append((const char*)&v, 8); };
        put(x.size()); put(x.capacity());
        if constexpr (front) { put(x.available_front()); put(x.available_back()); }
        if constexpr (T::tracked) canon_graph(slot(s), sizeof(C), T::SZ, out, [](const ElCore*) { return 0; });
        else {
            if constexpr (contiguous) put(x.size() ? slot_of(x.data()) >= 0 : 7);
            if constexpr (has_alloc) put((u64)x.get_allocator().get());
        }
    }

    static void destroy(int s)
    {
        Outcome o = call([&] { c(s).~C(); });
        if (o != OK) fail("destructor threw");
        H.slot_on[s] = 0; SM[s].n = 0;
        memset(slot(s), POISON, sizeof(C));
    }

    static u32 total_live() { u32 n = 0; for (int s = 0; s < NSLOT; ++s) if (H.slot_on[s]) n += (u32)SM[s].n; return n; }
    static void check_global()
    {
        if (T::tracked && H.live_arena != (i32)total_live()) fail("%d live elements in container storage, expected %u (leaked or lost elements)", H.live_arena, total_live());
        if constexpr (has_alloc && sizeof(T) != 8) { // the advertised capacity is memory that the containers own
            std::size_t have = 0, need = 0;
            for (u32 i = 0; i < H.na; ++i) if (recs[i].st == 1 && recs[i].esz == sizeof(T)) have += recs[i].n;
            for (int s = 0; s < NSLOT; ++s) if (H.slot_on[s]) { std::size_t k = c(s).capacity(); need += fam == SMALL && k == (std::size_t)N ? 0 : k; }
            if (need > have) fail("capacity() promises %zu elements, but only %zu are allocated", need, have);
        }
    }
    // the fixed series of operations of Explorer::probe
    static constexpr int PROBES = 13;
    static bool probe_op(int s, int k, Op& o)
    {
        const int n = SM[s].n; const bool full = (fam == STATIC && n >= N) || n > MAXN - 12;
        switch (k) {
        case 0: case 9: case 12: o = Op(S_EMPB); return !full;
        case 1: case 8: case 11: o = Op(S_EMPF); return front && !full;
        case 2: o = Op(S_EMP, n / 2); return !full;
        case 3: o = Op(S_FILLUP); return true;
        case 4: o = Op(S_ER1, n / 2); return n > 0;
        case 5: o = Op(S_POPF); return front && n > 0;
        case 6: o = Op(S_POPB); return n > 0;
        case 7: o = Op(S_SHRINK); return has_shrink;
        default: o = Op(S_CLEAR); return true;
        }
    }

    // ------------------------------------------------------------ full observation of one container
    static void check(int s)
    {
        C& x = c(s); const C& y = x; SeqModel& m = SM[s];
        std::size_t n = y.size();
        if (n != (std::size_t)m.n) fail("size() is %zu, expected %d", n, m.n);
        if (y.empty() != (m.n == 0)) fail("empty() disagrees with size()");
        if (y.capacity() < n) fail("capacity() %zu < size() %zu", (std::size_t)y.capacity(), n);
        if (y.end() - y.begin() != m.n) fail("end()-begin() is %td, expected %d", (std::ptrdiff_t)(y.end() - y.begin()), m.n);
        int i = 0;
        for (auto it = x.begin(); it != x.end(); ++it, ++i) {
            if (i >= m.n) fail("iteration visits more than size() elements");
            i32 v = val_of(*it);
            if (v != m.v[i]) fail("element %d is %d, expected %d", i, v, m.v[i]);
            if (&x[(std::size_t)i] != &*it || &y[(std::size_t)i] != &*it) fail("operator[](%d) does not agree with iteration", i);
        }
        if (i != m.n) fail("iteration visits fewer than size() elements");
        if constexpr (contiguous) {
            if (n && y.data() != &*y.begin()) fail("data() is not the address of the first element");
            if (x.data() != y.data()) fail("data() of a non-const container is not the address of the first element");
            if (n && x.data() + (n - 1) != &x[n - 1]) fail("elements are not contiguous");
        }
        if (n) { if (&x.front() != &x[0] || &x.back() != &x[n - 1] || &y.front() != &x[0] || &y.back() != &x[n - 1]) fail("front()/back() wrong"); }
        if constexpr (front) {
            if (x.available_front() > x.capacity() || x.available_back() > x.capacity()) fail("available_front() %zu or available_back() %zu exceeds capacity() %zu", (std::size_t)x.available_front(), (std::size_t)x.available_back(), (std::size_t)x.capacity());
            if (x.available_front() + x.available_back() + n != x.capacity()) fail("available_front() + size() + available_back() != capacity()");
        } else {
            if (y.available() != y.capacity() - n) fail("available() != capacity() - size()");
        }
        if constexpr (fam == COMPACT) if (y.capacity() != n) fail("compact_vector capacity() != size()");
        if constexpr (fam == STATIC) { if (y.capacity() != (std::size_t)N || y.max_size() != (std::size_t)N || y.full() != (n == (std::size_t)N)) fail("static_vector capacity/max_size/full wrong"); }
        if constexpr (fam == SMALL) {
            if (y.capacity() < (std::size_t)N) fail("small_vector capacity() < N");
            if (n) {
                bool inside = slot_of(x.data()) == s;
                if (inside != (y.capacity() == (std::size_t)N)) fail("small_vector: internal storage in use iff capacity()==N is violated (capacity %zu)", (std::size_t)y.capacity());
            }
        }
        if constexpr (has_alloc) if (y.get_allocator().get() != (stateful ? m.aid : 0)) fail("get_allocator() returns allocator %d, expected %d", y.get_allocator().get(), m.aid);
    }

    // iterator laws and the remaining observers; read-only
    static void observe(int s)
    {
        C& x = c(s); const C& y = x; SeqModel& m = SM[s]; int n = m.n;
        using It = typename C::iterator; using CI = typename C::const_iterator;
        It b = x.begin(), e = x.end(); CI cb = y.begin(), ce = y.end();
        if (cb != y.cbegin() || ce != y.cend()) fail("cbegin()/cend() differ from begin()/end() of a const container");
        { CI t = b; if (t != cb || !(t == cb)) fail("iterator converts to a different const_iterator"); }
        It di{}; (void)di; It as = b; as = e; if (as != e) fail("iterator assignment");
        for (int i = 0; i <= n; ++i) {
            It a = b + i; CI ca = cb + i;
            if (a != i + b || ca != i + cb) fail("n + iterator != iterator + n");
            if (x.nth((std::size_t)i) != a || y.nth((std::size_t)i) != ca) fail("nth(%d) is not begin() + %d", i, i);
            if ((int)y.index_of(a) != i || (int)y.index_of(ca) != i) fail("index_of(nth(%d)) is not %d", i, i);
            { It t = e; t -= (n - i); if (t != a) fail("iterator -= wrong"); t = b; t += i; if (t != a) fail("iterator += wrong"); if (e - (n - i) != a) fail("end() - k wrong"); }
            { CI t = ce; t -= (n - i); if (t != ca) fail("const_iterator -= wrong"); t = cb; t += i; if (t != ca) fail("const_iterator += wrong"); if (ce - (n - i) != ca) fail("cend() - k wrong"); }
            if (i < n) {
                if (val_of(*a) != m.v[i] || a->val != m.v[i] || &*a != &x[(std::size_t)i] || &*ca != &*a || &b[i] != &*a || &cb[i] != &*a || &ca[0] != &*a) fail("iterator dereference at %d wrong", i);
                It t = a; It r = t++; if (r != a || t != b + (i + 1)) fail("post-increment wrong"); It r2 = t--; if (t != a || r2 != b + (i + 1)) fail("post-decrement wrong");
                CI u = ca; CI ur = u++; if (ur != ca || u != cb + (i + 1)) fail("const post-increment wrong"); CI ur2 = u--; if (u != ca || ur2 != cb + (i + 1)) fail("const post-decrement wrong");
                t = a; if (&++t != &t || t != b + (i + 1)) fail("pre-increment wrong"); if (&--t != &t || t != a) fail("pre-decrement wrong");
                u = ca; if (&++u != &u || u != cb + (i + 1)) fail("const pre-increment wrong"); if (&--u != &u || u != ca) fail("const pre-decrement wrong");
                if (&x.at((std::size_t)i) != &*a || &y.at((std::size_t)i) != &*a) fail("at(%d) wrong", i);
            }
            for (int j = 0; j <= n; ++j) {
                It d = b + j; CI cd = cb + j;
                if ((a - d) != i - j || (ca - cd) != i - j || (a - cd) != i - j || (ca - d) != i - j) fail("iterator difference wrong (%d,%d)", i, j);
                if ((a == d) != (i == j) || (a != d) != (i != j) || (a < d) != (i < j) || (a > d) != (i > j) || (a <= d) != (i <= j) || (a >= d) != (i >= j)) fail("iterator comparison wrong (%d,%d)", i, j);
                if ((ca == d) != (i == j) || (ca != cd) != (i != j) || (ca < d) != (i < j) || (a > cd) != (i > j) || (ca <= cd) != (i <= j) || (a >= cd) != (i >= j)) fail("const_iterator comparison wrong (%d,%d)", i, j);
                It t = a; t += (j - i); if (t != d) fail("iterator += (%d) wrong", j - i); if (a + (j - i) != d || a - (i - j) != d) fail("iterator + (%d) wrong", j - i);
                t = a; t -= (i - j); if (t != d) fail("iterator -= (%d) wrong", i - j);
                CI ct = ca; ct += (j - i); if (ct != cd) fail("const_iterator += wrong"); if (ca + (j - i) != cd || ca - (i - j) != cd) fail("const_iterator + wrong"); ct = ca; ct -= (i - j); if (ct != cd) fail("const_iterator -= wrong");
                if (j < n && &a[j - i] != &x[(std::size_t)j]) fail("iterator[%d] wrong", j - i);
                if (j < n && &ca[j - i] != &x[(std::size_t)j]) fail("const_iterator[%d] wrong", j - i);
            }
        }
        int k = n; for (auto it = x.rbegin(); it != x.rend(); ++it) { --k; if (k < 0 || &*it != &x[(std::size_t)k]) fail("reverse iteration wrong"); } if (k) fail("reverse iteration wrong length");
        k = n; for (auto it = y.crbegin(); it != y.crend(); ++it) { --k; if (k < 0 || &*it != &x[(std::size_t)k]) fail("const reverse iteration wrong"); } if (k) fail("reverse iteration wrong length");
        k = n; for (auto it = y.rbegin(); it != y.rend(); ++it) { --k; if (k < 0 || &*it != &x[(std::size_t)k]) fail("const reverse iteration wrong"); } if (k) fail("const reverse iteration wrong length");
#ifndef MC_NOEXC
        for (std::size_t i : {(std::size_t)n, (std::size_t)n + 1, (std::size_t)y.capacity(), (std::size_t)y.capacity() + 1, (std::size_t)-1}) if (i >= (std::size_t)n) {
            bool t1 = false, t2 = false;
            try { (void)x.at(i); } catch (const std::out_of_range&) { t1 = true; }
            try { (void)y.at(i); } catch (const std::out_of_range&) { t2 = true; }
            if (!t1 || !t2) fail("at(%zu) with size() %d does not throw std::out_of_range", i, n);
        }
#else
        for (std::size_t i : {(std::size_t)n, (std::size_t)n + 1, (std::size_t)-1}) { if (!aborts([&] { (void)x.at(i); }) || !aborts([&] { (void)y.at(i); })) fail("at(%zu) with size() %d does not abort", i, n); }
#endif
        if ((y.max_size() < (std::size_t)n && !(fam == SMALL && n <= N)) || y.max_size() == 0) fail("max_size() too small");
        if constexpr (small_max && fam != STATIC) if (y.max_size() != H.maxsz) fail("max_size() ignores the allocator's max_size()");
    }

    // ------------------------------------------------------------ pre-state of an operation
    struct Pre {
        SeqModel m; std::size_t cap; const T* addr[MAXN]; const T* dat; std::size_t af, ab; u32 na;
    };
    static Pre& grab(int s)
    {
        static Pre p; C& x = c(s); p.m = SM[s]; p.cap = x.capacity(); p.na = H.na;
        int i = 0; for (auto& e : x) p.addr[i++] = &e;
        p.dat = nullptr; if constexpr (contiguous) p.dat = x.data();
        p.af = p.ab = 0;
        if constexpr (front) { p.af = x.available_front(); p.ab = x.available_back(); } else p.ab = x.available();
        return p;
    }
    // after an exception: adopt whatever valid content is there
    static void resync(int s)
    {
        SeqModel& m = SM[s]; C& x = c(s); std::size_t n = x.size(); if (n > MAXN) fail("size() is %zu after an exception", n);
        int i = 0; for (auto& e : x) { if (i >= (int)n) fail("iteration visits more than size() elements after an exception"); m.v[i++] = val_of(e); } m.n = (i32)n;
    }
    static void expect_unchanged(int s, const Pre& p, const char* what, bool cap)
    {
        C& x = c(s);
        if ((int)x.size() != p.m.n) fail("%s: size changed from %d to %zu although the operation failed (strong guarantee)", what, p.m.n, (std::size_t)x.size());
        int i = 0;
        for (auto& e : x) { if (val_of(e) != p.m.v[i]) fail("%s: element %d changed although the operation failed (strong guarantee)", what, i); if (&e != p.addr[i]) fail("%s: element %d moved although the operation failed (strong guarantee)", what, i); ++i; }
        if (cap && x.capacity() != p.cap) fail("%s: capacity changed although the operation failed (strong guarantee)", what);
    }
    // elements [0, k) of the old content keep their addresses
    static void stable(int s, const Pre& p, int from, int to, int shift, const char* what)
    {
        C& x = c(s);
        for (int i = from; i < to; ++i) if (&x[(std::size_t)(i + shift)] != p.addr[i]) fail("%s: reference to element %d was invalidated", what, i);
    }

    // ------------------------------------------------------------ ranges
    template <class F> static void with_range(int cat, int n, i32* vals, F f)
    {
        // source elements are created outside the container call
        static int iv[MAXN];
        bool ic = in_call; in_call = false;
        for (int i = 0; i < n; ++i) { vals[i] = fresh(); iv[i] = vals[i]; }
        ExtBuf<T, MAXN> src; for (int i = 0; i < n; ++i) src.add(iv[i]);
        in_call = ic;
        T* a = src.data(); // mutable: insertion must copy from it all the same
        bool moved = false;
        if constexpr (can_copy) {
            switch (cat) {
            case CT_PTR: f(a, a + n); break;
            case CT_IN: { InRange<T> r{a, (std::size_t)n, 0}; f(InIt<T>{&r, false, 0}, InIt<T>{&r, true, (std::size_t)n}); if (in_reached && r.cur != (std::size_t)n) fail("input range not fully consumed"); break; }
            case CT_FWD: f(RgIt<T, std::forward_iterator_tag>{a, a + n, a}, RgIt<T, std::forward_iterator_tag>{a, a + n, a + n}); break;
            case CT_BIDI: f(RgIt<const T, std::bidirectional_iterator_tag>{a, a + n, a}, RgIt<const T, std::bidirectional_iterator_tag>{a, a + n, a + n}); break;
            case CT_RA: f(RgIt<T, std::random_access_iterator_tag>{a, a + n, a}, RgIt<T, std::random_access_iterator_tag>{a, a + n, a + n}); break;
            case CT_SEG: {
                bool ic2 = in_call; in_call = false;
                { sfl::segmented_vector<T, 2> sv(a, a + n); if (n > 0) { sv.insert(sv.begin(), T(1)); }
                  in_call = ic2;
                  f(sv.cbegin() + (n > 0 ? 1 : 0), sv.cend());
                  in_call = false; }
                in_call = ic2; break; }
            default: break;
            }
        }
        if (cat == CT_INT) { const int* q = iv; f(q, q + n); }
        if (cat == CT_MOVE) { moved = true; f(std::make_move_iterator(src.data()), std::make_move_iterator(src.data() + n)); }
        in_call = false;
        for (int i = 0; i < n; ++i) if (!moved && src[i].val != iv[i]) fail("operation modified its source range");
        if constexpr (movable_mark) if (moved && in_reached && last_ok) for (int i = 0; i < n; ++i) if (src[i].val != MOVED) fail("source element %d of a move_iterator range was not moved from", i);
    }
    static inline bool in_reached, last_ok;

    static bool cat_ok(int cat) { if (cat == CT_INT || cat == CT_MOVE) return true; return can_copy; }

    // ------------------------------------------------------------ operation enumeration
    static void ops(int s, std::vector<Op>& o)
    {
        const int mask = opt.mask, L = limit();
        if (!H.slot_on[s]) {
            int amax = has_alloc ? 2 : 0;
            for (int a = 0; a <= amax; a += 2) {
                o.emplace_back(S_CDEF, a);
                if (!(mask & G_CTOR) && a == 2 && !stateful) continue;
                if (mask & G_CTOR) {
                    if constexpr (std::is_default_constructible<T>::value) for (int n = 0; n <= L; ++n) o.emplace_back(S_CN, n, a);
                    if constexpr (can_copy) for (int n = 0; n <= L; ++n) o.emplace_back(S_CNV, n, a);
                    for (int k = 0; k < CT_COUNT; ++k) if (cat_ok(k)) for (int n = 0; n <= (k == CT_IL ? std::min(L, 4) : L); ++n) { if (k == CT_IL && !can_copy) continue; o.emplace_back(S_CRANGE, n, a, k); }
                    if (small_max && a == 2) { int M = (int)H.maxsz; for (int n : {M, M + 1, M + 2}) {
                        if constexpr (std::is_default_constructible<T>::value) o.emplace_back(S_CN, n, a);
                        if constexpr (can_copy) o.emplace_back(S_CNV, n, a);
                        for (int k = 0; k < CT_COUNT; ++k) if (k != CT_IL && cat_ok(k) && !(k == CT_IN && (front || fam == SEGV))) o.emplace_back(S_CRANGE, n, a, k); } }
                }
            }
            if (mask & G_BUILD) for (int n = 0; n <= L; ++n) for (int q : {0, 1, 2, L}) { o.emplace_back(S_CBUILD, n, 0, q); if constexpr (front) for (int f : {1, 2, 3, L}) o.emplace_back(S_CBUILD, n, f, q); }
            if constexpr (fam == STATIC) if (mask & G_CTOR) for (int n = 0; n <= L; ++n) o.emplace_back(S_CDI, n);
            return;
        }
        C& x = c(s); const int n = SM[s].n; const int room = L - n;
        const bool full = fam == STATIC && n >= N;
        if (mask & G_OBS) o.emplace_back(S_OBS);
        if (mask & G_BAD) o.emplace_back(S_BAD);
        if ((mask & G_BUILD) && !(mask & G_COST)) for (int k = 0; k < 4; ++k) o.emplace_back(S_BIG, k);
        if (fam != STATIC && (mask & G_HUGE)) { for (int k = 0; k < 13; ++k) for (int i = 0; i < HUGE_COUNTS; ++i) o.emplace_back(S_HUGE, k, i); if (small_max && (contiguous || fam == DEVECTOR) && c(s).size()) for (int k = 13; k < 21; ++k) for (int i = 0; i < 3; ++i) o.emplace_back(S_HUGE, k, i); }
        if (mask & (G_COST | G_BUILD)) for (int k = 0; k < 9; ++k) if (fam != STATIC && fam != COMPACT) o.emplace_back(S_LADDER, k);
        if (mask & G_MOD) {
            if (!full && (room > 0 || small_max)) {
                if constexpr (can_copy) o.emplace_back(S_PUSHB_C);
                o.emplace_back(S_PUSHB_M); o.emplace_back(S_EMPB); o.emplace_back(S_EMPB, 0, 0, 1); o.emplace_back(S_EMPB2);
                if constexpr (front) { if constexpr (can_copy) o.emplace_back(S_PUSHF_C); o.emplace_back(S_PUSHF_M); o.emplace_back(S_EMPF); o.emplace_back(S_EMPF, 0, 0, 1); }
                for (int p = 0; p <= n; ++p) { if constexpr (can_copy) o.emplace_back(S_INS_C, p); o.emplace_back(S_INS_M, p); o.emplace_back(S_EMP, p); o.emplace_back(S_EMP, p, 0, 1); }
            }
            if (n > 0) {
                o.emplace_back(S_POPB); if constexpr (front) o.emplace_back(S_POPF);
                for (int p = 0; p < n; ++p) o.emplace_back(S_ER1, p);
                for (int p = 0; p <= n; ++p) for (int q = p; q <= n; ++q) o.emplace_back(S_ERR, p, q);
            } else o.emplace_back(S_ERR, 0, 0);
            o.emplace_back(S_CLEAR);
            int over = small_max && n <= (int)H.maxsz ? (int)H.maxsz + 1 : 0;
            auto rs = [&](int k) { for (int t = 0; t <= L; ++t) o.emplace_back((u8)k, t); if (over > L) { o.emplace_back((u8)k, over); o.emplace_back((u8)k, over - 1); } };
            if constexpr (std::is_default_constructible<T>::value) { rs(S_RSZ); if constexpr (front) { rs(S_RSZ_F); rs(S_RSZ_B); } if constexpr (fam == STATIC) rs(S_RSZ_DI); }
            if constexpr (can_copy) { rs(S_RSZ_V); if constexpr (front) { rs(S_RSZ_FV); rs(S_RSZ_BV); } }
            if constexpr (can_copy) for (int p = 0; p <= n; ++p) for (int k = 0; k <= room; ++k) o.emplace_back(S_INS_N, p, k);
            if (over) if constexpr (can_copy) for (int p = 0; p <= n; ++p) { o.emplace_back(S_INS_N, p, over - 1 - n); o.emplace_back(S_INS_N, p, over - n); o.emplace_back(S_INS_R, p, over - n, CT_FWD); o.emplace_back(S_INS_R, p, over - n, CT_IN); o.emplace_back(S_INS_R, p, over - 1 - n, CT_IN); o.emplace_back(S_INS_R, p, over - 1 - n, CT_FWD); }
            // a range insertion of the most common kind is part of the basic alphabet
            if (!(mask & G_CAT)) for (int p = 0; p <= n; ++p) for (int k = 0; k <= room; ++k) { if constexpr (can_copy) { o.emplace_back(S_INS_R, p, k, CT_FWD); o.emplace_back(S_INS_R, p, k, CT_IN); } else o.emplace_back(S_INS_R, p, k, CT_INT); }
        }
        if (mask & G_CAT) for (int k = 0; k < CT_COUNT; ++k) if (cat_ok(k)) for (int p = 0; p <= n; ++p) for (int t = 0; t <= (k == CT_IL ? std::min(room, 4) : room); ++t) { if (k == CT_IL && !can_copy) continue; o.emplace_back(S_INS_R, p, t, k); }
        if (mask & G_ASSIGN) {
            if constexpr (can_copy) for (int t = 0; t <= L; ++t) o.emplace_back(S_ASG_N, t);
            for (int k = 0; k < CT_COUNT; ++k) if (cat_ok(k)) for (int t = 0; t <= (k == CT_IL ? std::min(L, 4) : L); ++t) { if (k == CT_IL && !can_copy) continue; if (!(mask & G_CAT) && k > CT_FWD) continue; o.emplace_back(S_ASG_R, t, k); }
            if constexpr (can_copy) for (int t = 0; t <= std::min(L, 4); ++t) o.emplace_back(S_OPIL, t);
            if constexpr (small_max && can_copy) { int M = (int)H.maxsz; o.emplace_back(S_ASG_N, M); o.emplace_back(S_ASG_N, M + 1); o.emplace_back(S_ASG_R, M + 1, CT_FWD); o.emplace_back(S_ASG_R, M + 1, CT_IN); o.emplace_back(S_ASG_R, M, CT_FWD); o.emplace_back(S_ASG_R, M, CT_IN); }
            if constexpr (can_copy) o.emplace_back(S_SELFCA);
            o.emplace_back(S_SELFSW);
        }
        if (mask & G_CAP) {
            int R = opt.R; if (small_max) R = std::max(R, (int)H.maxsz + 1);
            if constexpr (has_reserve) for (int t = 0; t <= R; ++t) o.emplace_back(S_RES, t);
            if constexpr (front) for (int t = 0; t <= R; ++t) { o.emplace_back(S_RESF, t); o.emplace_back(S_RESB, t); }
            if constexpr (has_shrink) o.emplace_back(S_SHRINK);
            o.emplace_back(S_FILLUP);
        }
        if (mask & G_ERASEIF) {
            int lim = std::min(n, 8);
            for (int b = 0; b < (1 << lim); ++b) { o.emplace_back(S_ERIF, b); o.emplace_back(S_ERV, b); }
        }
        if (mask & G_ALIAS) {
            bool room1 = !full && (room > 0 || small_max);
            for (int i = 0; i < n; ++i) {
                if (room1) {
                    if constexpr (can_copy) {
                        o.emplace_back(S_A_PUSHB, i); o.emplace_back(S_A_EMPB, i);
                        if constexpr (front) { o.emplace_back(S_A_PUSHF, i); o.emplace_back(S_A_EMPF, i); }
                        for (int p = 0; p <= n; ++p) { o.emplace_back(S_A_INS, p, i); o.emplace_back(S_A_EMP, p, i); }
                    }
                    o.emplace_back(S_A_EMPBM, i); if constexpr (front) o.emplace_back(S_A_EMPFM, i);
                    for (int p = 0; p <= n; ++p) o.emplace_back(S_A_EMPM, p, i);
                }
                if constexpr (can_copy) {
                    for (int p = 0; p <= n; ++p) for (int k = 0; k <= room; ++k) o.emplace_back(S_A_INSN, p, i, k);
                    for (int t = 0; t <= L; ++t) { o.emplace_back(S_A_RSZ, t, i); if constexpr (front) { o.emplace_back(S_A_RSZF, t, i); o.emplace_back(S_A_RSZB, t, i); } }
                    o.emplace_back(S_A_ERV, i);
                }
            }
        }
        if (mask & G_COPY) {
            if constexpr (can_copy) { o.emplace_back(S_CC); if constexpr (has_alloc) { o.emplace_back(S_CCA, 1); o.emplace_back(S_CCA, 2); } }
            o.emplace_back(S_MC); if constexpr (has_alloc) { o.emplace_back(S_MCA, 1); o.emplace_back(S_MCA, 2); }
        }
        (void)x;
    }

    static bool alloc_eq(int a, int b) { return !stateful || a == b; }

    static void ops2(std::vector<Op>& o)
    {
        if constexpr (can_copy) o.emplace_back(S_CA);
        o.emplace_back(S_MA);
        if (!has_alloc || pocs || alloc_eq(SM[0].aid, SM[1].aid)) { o.emplace_back(S_SWAP); o.emplace_back(S_NSWAP); }
        if (opt.mask & G_REL) o.emplace_back(S_CMP);
        if (opt.mask & G_BAD) if (has_alloc && !pocs && !alloc_eq(SM[0].aid, SM[1].aid)) o.emplace_back(S_BADSW);
    }

    static std::string op_name(const Op& o)
    {
        static const char* nm[256] = {};
        static bool init = false;
        if (!init) { init = true;
#define NMX(k, t) nm[k] = t;
            NMX(S_CDEF,"construct()") NMX(S_CN,"construct(n)") NMX(S_CNV,"construct(n,value)") NMX(S_CRANGE,"construct(first,last)") NMX(S_CDI,"construct(n,default_init)") NMX(S_CBUILD,"construct, reserve at the ends, push n") NMX(S_LADDER,"long series of operations at the ends") NMX(S_BIG,"grow to more than 100 elements, then every operation there")
            NMX(S_PUSHB_C,"push_back(const&)") NMX(S_PUSHB_M,"push_back(&&)") NMX(S_EMPB,"emplace_back(v)") NMX(S_EMPB2,"emplace_back(a,b)") NMX(S_POPB,"pop_back") NMX(S_PUSHF_C,"push_front(const&)") NMX(S_PUSHF_M,"push_front(&&)") NMX(S_EMPF,"emplace_front") NMX(S_POPF,"pop_front")
            NMX(S_INS_C,"insert(pos,const&)") NMX(S_INS_M,"insert(pos,&&)") NMX(S_INS_N,"insert(pos,n,value)") NMX(S_INS_R,"insert(pos,first,last)") NMX(S_EMP,"emplace(pos,v)") NMX(S_ER1,"erase(pos)") NMX(S_ERR,"erase(first,last)") NMX(S_CLEAR,"clear")
            NMX(S_RSZ,"resize(n)") NMX(S_RSZ_V,"resize(n,value)") NMX(S_RSZ_F,"resize_front(n)") NMX(S_RSZ_FV,"resize_front(n,value)") NMX(S_RSZ_B,"resize_back(n)") NMX(S_RSZ_BV,"resize_back(n,value)") NMX(S_RSZ_DI,"resize(n,default_init)")
            NMX(S_ASG_N,"assign(n,value)") NMX(S_ASG_R,"assign(first,last)") NMX(S_OPIL,"operator=(ilist)") NMX(S_RES,"reserve") NMX(S_RESF,"reserve_front") NMX(S_RESB,"reserve_back") NMX(S_SHRINK,"shrink_to_fit")
            NMX(S_ERV,"sfl::erase(c,value) pattern") NMX(S_ERIF,"sfl::erase_if(c,pred) pattern") NMX(S_SELFCA,"self copy assignment") NMX(S_SELFMA,"self move assignment") NMX(S_SELFSW,"self swap") NMX(S_OBS,"observers")
            NMX(S_A_PUSHB,"push_back(own element)") NMX(S_A_EMPB,"emplace_back(own element)") NMX(S_A_EMPBM,"emplace_back(move(own element))") NMX(S_A_PUSHF,"push_front(own element)") NMX(S_A_EMPF,"emplace_front(own element)") NMX(S_A_EMPFM,"emplace_front(move(own element))")
            NMX(S_A_INS,"insert(pos,own element)") NMX(S_A_INSN,"insert(pos,own element,n)") NMX(S_A_EMP,"emplace(pos,own element)") NMX(S_A_EMPM,"emplace(pos,move(own element))") NMX(S_A_RSZ,"resize(n,own element)") NMX(S_A_RSZF,"resize_front(n,own element)") NMX(S_A_RSZB,"resize_back(n,own element)") NMX(S_A_ASGN,"assign(n,own element)") NMX(S_A_ERV,"sfl::erase(c,own element)")
            NMX(S_FILLUP,"fill up to capacity") NMX(S_HUGE,"operation with a count beyond max_size() (a: kind, b: count)")
            NMX(S_CC,"copy construct") NMX(S_CCA,"copy construct with allocator") NMX(S_MC,"move construct") NMX(S_MCA,"move construct with allocator") NMX(S_CA,"this = other") NMX(S_MA,"this = move(other)") NMX(S_SWAP,"this.swap(other)") NMX(S_NSWAP,"swap(this,other)") NMX(S_CMP,"comparisons") NMX(S_BAD,"calls that violate a precondition") NMX(S_BADSW,"swap with unequal allocators that do not propagate")
        }
        char b[128]; snprintf(b, sizeof b, "%s [%d,%d,%d,%d]", nm[o.k] ? nm[o.k] : "?", o.a, o.b, o.c, o.d); return b;
    }

    using A_t = typename CFG::A;
    template <class... Ar> static void make(int s, int aid, Ar&&... ar)
    {
        if constexpr (has_alloc) { if (aid) ::new ((void*)slot(s)) C(std::forward<Ar>(ar)..., A_t(aid)); else ::new ((void*)slot(s)) C(std::forward<Ar>(ar)...); }
        else ::new ((void*)slot(s)) C(std::forward<Ar>(ar)...);
    }

    // no reallocation may happen when the result fits into the capacity at hand
    static void no_alloc_if(bool fits, const char* what) { if (fits && cnt[K_ALLOC]) fail("%s allocated memory although the result fits the existing capacity", what); }

    template <class F> static void il(int n, i32* v, F f)
    {
        for (int i = 0; i < n; ++i) v[i] = fresh();
        bool ic = in_call; in_call = false;
        if constexpr (can_copy) {
            switch (n) {
            case 0: { std::initializer_list<T> l{}; in_call = ic; f(l); in_call = false; break; }
            case 1: { std::initializer_list<T> l{T(v[0])}; in_call = ic; f(l); in_call = false; break; }
            case 2: { std::initializer_list<T> l{T(v[0]), T(v[1])}; in_call = ic; f(l); in_call = false; break; }
            case 3: { std::initializer_list<T> l{T(v[0]), T(v[1]), T(v[2])}; in_call = ic; f(l); in_call = false; break; }
            default: { std::initializer_list<T> l{T(v[0]), T(v[1]), T(v[2]), T(v[3])}; in_call = ic; f(l); in_call = false; break; }
            }
        }
    }

    // ------------------------------------------------------------ one operation on slot s
    static Outcome apply(int s, const Op& o)
    {
        in_reached = last_ok = false;
        i32 ext0 = H.live_ext;
        Outcome r = o.k <= S_CBUILD ? apply_ctor(s, o) : apply_mod(s, o);
        if (g_aborted) return r;
        if (H.live_ext != ext0) fail("element leaked outside container storage");
        return r;
    }

    static Outcome apply_ctor(int s, const Op& o)
    {
        SeqModel& m = SM[s]; m.n = 0; i32 v[MAXN + 32]; Outcome r = OK; int n = o.a, aid = o.b; 
        H.slot_on[s] = 1;
        memset(slot(s), POISON, sizeof(C));
        u64 fpn = 0;
        switch (o.k) {
        case S_CDEF: aid = o.a; n = 0; r = call([&] { make(s, aid); }); break;
        case S_CN: if constexpr (std::is_default_constructible<T>::value) r = call([&] { make(s, aid, (std::size_t)n); }); for (int i = 0; i < n; ++i) v[i] = 0; break;
        case S_CDI: if constexpr (fam == STATIC) r = call([&] { ::new ((void*)slot(s)) C((std::size_t)n, sfl::default_init_t()); }); for (int i = 0; i < n; ++i) v[i] = 0; aid = 0; break;
        case S_CBUILD: { // n elements with b free places at the front and c at the back
            aid = 0; const int fr = o.b, bk = o.c;
            r = call([&] {
                make(s, 0); C& x = c(s);
                if constexpr (front) { x.reserve_front((std::size_t)(fr)); x.reserve_back((std::size_t)(n + bk)); }
                else if constexpr (has_reserve) x.reserve((std::size_t)(n + bk));
                for (int i = 0; i < n; ++i) { v[i] = fresh(); x.emplace_back(v[i]); }
            }); fp_count = 0;
            break; }
        case S_CNV: if constexpr (can_copy) { T x(v[0] = fresh()); r = call([&] { make(s, aid, (std::size_t)n, static_cast<const T&>(x)); }); fpn = fp_count; for (int i = 0; i < n; ++i) v[i] = val_of(x); } break;
        case S_CRANGE:
            if (o.c == CT_IL) { il(n, v, [&](std::initializer_list<T> l) { if constexpr (can_copy) { r = call([&] { make(s, aid, l); }); } }); }
            else with_range(o.c, n, v, [&](auto f, auto l) { r = call([&] { make(s, aid, f, l); }); in_reached = r == OK; last_ok = r == OK; });
            break;
        }
        (void)fpn;
        if (r != OK) {
            H.slot_on[s] = 0; memset(slot(s), POISON, sizeof(C));
            if (r == LEN) { if (!(small_max && n > (int)H.maxsz)) fail("constructor threw length_error (or aborted) for %d elements", n); if (g_aborted) return r; }
            else if (r != FAULTED) fail("constructor threw: %s", outcome_name(r));
            return r;
        }
        if (small_max && n > top()) fail("constructor accepted %d elements, max_size() is %u", n, H.maxsz);
        m.n = n; m.aid = aid ? aid : 1;
        for (int i = 0; i < n; ++i) m.v[i] = v[i];
        if (!T::tracked && o.k == S_CDI) resync(s);
        if constexpr (fam == SMALL) { if (n <= N && o.k != S_CRANGE && o.k != S_CBUILD && cnt[K_ALLOC]) fail("small_vector allocated memory for %d <= N elements", n); if (o.k == S_CRANGE && n <= N && cnt[K_ALLOC]) fail("small_vector allocated memory for a range of %d <= N elements", n); }
        if constexpr (fam == STATIC) if (cnt[K_ALLOC]) fail("static_vector allocated memory");
        if ((opt.mask & G_COST) && (o.k == S_CN || o.k == S_CNV || o.k == S_CRANGE || o.k == S_CDI)) {
            const bool sp = o.k == S_CRANGE && o.c == CT_IN; long w = 2 + n + (sp && contiguous ? 4 * n + 4 : 0);
            if (fam == COMPACT && sp && (long)work() > w) { const long q = (long)(n + 1) * (n + 2) / 2; if ((long)work() <= q && known("compact_single_pass_construct_quadratic")) w = q; }
            within("construction: element constructions, copies, moves and assignments", work(), w, n);
            within("construction: element destructions", cnt[K_DTOR], w - n + 2, n);
            if (!sp && contiguous) within("construction: allocations", cnt[K_ALLOC], 1, n);
        }
        return r;
    }

    static Outcome apply_mod(int s, const Op& o)
    {
        C& x = c(s); SeqModel& m = SM[s]; Pre& p = grab(s); SeqModel e = m; i32 v[MAXN + 32]; Outcome r = OK;
        const int n = m.n, a = o.a, b = o.b; using It = typename C::iterator;
        long ret = -1; const T* refp = nullptr; long exp_ret = -1, exp_ref = -1;
        int newsize = n; int strong = 0; bool resets = false; bool lenok = false;
        int stable_to = 0, stable_from = n, stable_shift = 0;   // [0,stable_to) and [stable_from,n)+shift keep their addresses
        auto idx = [&](It it) { return (long)(it - x.begin()); };
        auto P = [&](int i) { return typename C::const_iterator(x.begin() + i); };
        switch (o.k) {
        case S_OBS: { std::string before(slot(s), sizeof(C)); { ReadOnly ro; observe(s); } if (memcmp(before.data(), slot(s), sizeof(C))) fail("a const member function modified the container"); return OK; }
        case S_BAD: bad_calls(s); return OK;
        case S_LADDER: ladder(s, a); fp_count = 0; return OK;
        case S_BIG: big(s, a); fp_count = 0; return OK;
        case S_HUGE: if constexpr (fam != STATIC) { if constexpr (small_max) if (a >= 13) return lower_limit(s, p, a, b); return huge(s, p, a, b); } return OK;
        case S_PUSHB_C: if constexpr (can_copy) { int w = fresh(); T t(w); r = call([&] { x.push_back(static_cast<const T&>(t)); }); if (val_of(t) != w) fail("push_back(const T&) modified its argument"); m_ins(e, n, w); newsize = n + 1; stable_to = n; strong = 2; } break;
        case S_PUSHB_M: { int w = fresh(); T t(w); r = call([&] { x.push_back(std::move(t)); }); if constexpr (movable_mark) if (r == OK && t.val != MOVED) fail("push_back(T&&) did not move from its argument"); m_ins(e, n, w); newsize = n + 1; stable_to = n; strong = 2; } break;
        case S_EMPB: { int w = fresh(); T t(w); r = call([&] { refp = o.c ? &x.emplace_back(std::move(t)) : &x.emplace_back(w); }); if constexpr (movable_mark) if (o.c && r == OK && t.val != MOVED) fail("emplace_back(std::move(object)) copied its argument instead of moving it"); m_ins(e, n, w); exp_ref = n; newsize = n + 1; stable_to = n; strong = 2; } break;
        case S_EMPB2: { int w = fresh(); r = call([&] { refp = &x.emplace_back(w - 1, 1); }); m_ins(e, n, w); exp_ref = n; newsize = n + 1; stable_to = n; strong = 2; } break;
        case S_POPB: r = call([&] { x.pop_back(); }); m_er(e, n - 1, n); newsize = n - 1; stable_to = n - 1; break;
        case S_PUSHF_C: if constexpr (front && can_copy) { int w = fresh(); T t(w); r = call([&] { x.push_front(static_cast<const T&>(t)); }); m_ins(e, 0, w); newsize = n + 1; stable_from = 0; stable_shift = 1; strong = 2; } break;
        case S_PUSHF_M: if constexpr (front) { int w = fresh(); T t(w); r = call([&] { x.push_front(std::move(t)); }); if constexpr (movable_mark) if (r == OK && t.val != MOVED) fail("push_front(T&&) did not move from its argument"); m_ins(e, 0, w); newsize = n + 1; stable_from = 0; stable_shift = 1; strong = 2; } break;
        case S_EMPF: if constexpr (front) { int w = fresh(); T t(w); r = call([&] { refp = o.c ? &x.emplace_front(std::move(t)) : &x.emplace_front(w); }); if constexpr (movable_mark) if (o.c && r == OK && t.val != MOVED) fail("emplace_front(std::move(object)) copied its argument instead of moving it"); m_ins(e, 0, w); exp_ref = 0; newsize = n + 1; stable_from = 0; stable_shift = 1; strong = 2; } break;
        case S_POPF: if constexpr (front) { r = call([&] { x.pop_front(); }); m_er(e, 0, 1); newsize = n - 1; stable_from = 1; stable_shift = -1; } break;
        case S_INS_C: if constexpr (can_copy) { int w = fresh(); T t(w); r = call([&] { ret = idx(x.insert(P(a), static_cast<const T&>(t))); }); m_ins(e, a, w); exp_ret = a; newsize = n + 1; stable_to = a; } break;
        case S_INS_M: { int w = fresh(); T t(w); r = call([&] { ret = idx(x.insert(P(a), std::move(t))); }); if constexpr (movable_mark) if (r == OK && t.val != MOVED) fail("insert(pos,T&&) did not move from its argument"); m_ins(e, a, w); exp_ret = a; newsize = n + 1; stable_to = a; } break;
        case S_EMP: { int w = fresh(); T t(w); r = call([&] { ret = o.c ? idx(x.emplace(P(a), std::move(t))) : idx(x.emplace(P(a), w)); }); if constexpr (movable_mark) if (o.c && r == OK && t.val != MOVED) fail("emplace(std::move(object)) copied its argument instead of moving it"); m_ins(e, a, w); exp_ret = a; newsize = n + 1; stable_to = a; } break;
        case S_INS_N: if constexpr (can_copy) { int w = fresh(); T t(w); r = call([&] { ret = idx(x.insert(P(a), (std::size_t)b, static_cast<const T&>(t))); }); for (int i = 0; i < b; ++i) m_ins(e, a, w); exp_ret = a; newsize = n + b; stable_to = a; lenok = true; } break;
        case S_INS_R:
            if (o.c == CT_IL) il(b, v, [&](std::initializer_list<T> l) { if constexpr (can_copy) r = call([&] { ret = idx(x.insert(P(a), l)); }); });
            else with_range(o.c, b, v, [&](auto f, auto l) { r = call([&] { ret = idx(x.insert(P(a), f, l)); }); in_reached = last_ok = r == OK; });
            for (int i = b - 1; i >= 0; --i) m_ins(e, a, v[i]);
            exp_ret = a; newsize = n + b; stable_to = a; lenok = true; break;
        case S_ER1: r = call([&] { ret = idx(x.erase(P(a))); }); m_er(e, a, a + 1); exp_ret = a; newsize = n - 1; stable_to = a; break;
        case S_ERR: r = call([&] { ret = idx(x.erase(P(a), P(b))); }); m_er(e, a, b); exp_ret = a; newsize = n - (b - a); stable_to = a; if (a == b) { stable_to = n; } break;
        case S_CLEAR: r = call([&] { x.clear(); }); e.n = 0; newsize = 0; if (r == OK && fam != COMPACT && x.capacity() != p.cap) fail("clear() changed capacity() from %zu to %zu", p.cap, (std::size_t)x.capacity()); break;
        case S_RSZ: case S_RSZ_B: case S_RSZ_V: case S_RSZ_BV: case S_RSZ_DI: {
            int w = 0; bool val = o.k == S_RSZ_V || o.k == S_RSZ_BV;
            if (val) { if constexpr (can_copy) { w = fresh(); T t(w); r = call([&] { if constexpr (front) { if (o.k == S_RSZ_BV) { x.resize_back((std::size_t)a, t); return; } } x.resize((std::size_t)a, static_cast<const T&>(t)); }); } }
            else if constexpr (std::is_default_constructible<T>::value) r = call([&] { if constexpr (front) { if (o.k == S_RSZ_B) { x.resize_back((std::size_t)a); return; } } if constexpr (fam == STATIC) { if (o.k == S_RSZ_DI) { x.resize((std::size_t)a, sfl::default_init_t()); return; } } x.resize((std::size_t)a); });
            if (a < n) m_er(e, a, n);
            newsize = a; stable_to = std::min(n, a); lenok = true;
            if (r == OK && a > n) {
                if constexpr (front) {
                    if (o.k == S_RSZ || o.k == S_RSZ_V) {
                        // documented: new elements may be inserted at both ends
                        int k = 0; if ((int)x.size() != a) fail("resize(%d) gives size %zu", a, (std::size_t)x.size());
                        while (k + n <= a) { bool ok = true; for (int i = 0; i < n && ok; ++i) ok = val_of(x[(std::size_t)(k + i)]) == m.v[i]; if (ok) break; ++k; }
                        if (k + n > a) fail("resize(): old elements not preserved");
                        e.n = a; for (int i = 0; i < a; ++i) e.v[i] = i >= k && i < k + n ? m.v[i - k] : w; stable_to = 0; break;
                    }
                }
                if (a > MAXN) fail("harness: resize too big");
                for (int i = n; i < a; ++i) e.v[i] = w;
                e.n = a;
                if (!T::tracked && o.k == S_RSZ_DI) for (int i = n; i < a; ++i) e.v[i] = x[(std::size_t)i].val;
            }
            break; }
        case S_RSZ_F: case S_RSZ_FV: if constexpr (front) {
            int w = 0;
            if (o.k == S_RSZ_FV) { if constexpr (can_copy) { w = fresh(); T t(w); r = call([&] { x.resize_front((std::size_t)a, static_cast<const T&>(t)); }); } }
            else if constexpr (std::is_default_constructible<T>::value) r = call([&] { x.resize_front((std::size_t)a); });
            newsize = a; lenok = true;
            if (a < n) { m_er(e, 0, n - a); stable_from = n - a; stable_shift = -(n - a); } else if (a <= MAXN) { for (int i = n; i < a; ++i) m_ins(e, 0, w); stable_from = 0; stable_shift = a - n; }
            } break;
        case S_ASG_N: if constexpr (can_copy) { int w = fresh(); T t(w); r = call([&] { x.assign((std::size_t)a, static_cast<const T&>(t)); }); e.n = a; for (int i = 0; i < a; ++i) e.v[i] = w; newsize = a; lenok = true; } break;
        case S_ASG_R:
            if (b == CT_IL) il(a, v, [&](std::initializer_list<T> l) { if constexpr (can_copy) r = call([&] { x.assign(l); }); });
            else with_range(b, a, v, [&](auto f, auto l) { r = call([&] { x.assign(f, l); }); in_reached = last_ok = r == OK; });
            e.n = a; for (int i = 0; i < a; ++i) e.v[i] = v[i]; newsize = a; lenok = true; break;
        case S_OPIL: il(a, v, [&](std::initializer_list<T> l) { if constexpr (can_copy) r = call([&] { C& rr = (x = l); if (&rr != &x) fail("operator= does not return *this"); }); }); e.n = a; for (int i = 0; i < a; ++i) e.v[i] = v[i]; newsize = a; lenok = true; break;
        case S_SELFCA: if constexpr (can_copy) { r = call([&] { C& rr = (x = static_cast<const C&>(x)); if (&rr != &x) fail("operator= does not return *this"); }); stable_to = n; } break;
        case S_SELFSW: r = call([&] { x.swap(x); }); stable_to = n; break;
        case S_RES: if constexpr (has_reserve) { r = call([&] { x.reserve((std::size_t)a); }); lenok = true; strong = 1; newsize = n; int need = a; resets = true; stable_to = contiguous ? ((std::size_t)a <= p.cap ? n : 0) : n;
            if (r == OK) {
                if (x.capacity() < (std::size_t)need || x.capacity() < p.cap) fail("reserve(%d): capacity() is %zu", need, (std::size_t)x.capacity());
                if ((std::size_t)a <= p.cap && (x.capacity() != p.cap || cnt[K_ALLOC] || cnt[K_MOVE] || cnt[K_COPY])) fail("reserve(%d) with capacity() %zu has effects", a, p.cap);
                if constexpr (fam == VECTOR || fam == SMALL) if ((std::size_t)a > p.cap && x.capacity() != (std::size_t)a) fail("reserve(%d): capacity() is %zu, documented to be equal to the argument", a, (std::size_t)x.capacity());
                if (small_max && a > top() && (std::size_t)a > p.cap) fail("reserve(%d) beyond max_size() %u succeeded", a, H.maxsz);
            } else if (r == LEN && !(small_max && a > (int)H.maxsz)) fail("reserve(%d) threw length_error", a);
            } break;
        case S_RESF: case S_RESB: if constexpr (front) {
            bool f = o.k == S_RESF; r = call([&] { if (f) x.reserve_front((std::size_t)a); else x.reserve_back((std::size_t)a); }); lenok = true; strong = 1; resets = true;
            std::size_t av = f ? p.af : p.ab; std::size_t want = a > n ? (std::size_t)(a - n) : 0;
            if (r == OK) {
                std::size_t now = f ? x.available_front() : x.available_back(), oth = f ? x.available_back() : x.available_front(), oth0 = f ? p.ab : p.af;
                if (now < want) fail("%s(%d): only %zu elements can be pushed without allocation, %zu required", f ? "reserve_front" : "reserve_back", a, now, want);
                if (want <= av && (x.capacity() != p.cap || cnt[K_ALLOC] || cnt[K_MOVE] || cnt[K_COPY] || now != av)) fail("%s(%d) has effects although the space is already available", f ? "reserve_front" : "reserve_back", a);
                if (fam == DEVECTOR && oth != oth0) fail("%s changed the space available at the other end", f ? "reserve_front" : "reserve_back");
                if (want <= av || !contiguous) stable_to = n;
            } else if (r == LEN && !small_max) fail("reserve_front/back(%d) threw length_error", a);
            } break;
        case S_SHRINK: if constexpr (has_shrink) { r = call([&] { x.shrink_to_fit(); }); strong = 1; resets = true; if (!contiguous) stable_to = n;
            if (r == OK) {
                if (x.capacity() > p.cap) fail("shrink_to_fit() increased capacity()");
                if (fam == VECTOR || fam == DEVECTOR) if ((int)x.capacity() != n) fail("shrink_to_fit(): capacity() is %zu with size() %d", (std::size_t)x.capacity(), n);
                if (fam == SMALL) if ((int)x.capacity() != std::max(n, N)) fail("shrink_to_fit(): capacity() is %zu with size() %d and N %d", (std::size_t)x.capacity(), n, N);
                if (x.capacity() == p.cap && (fam == VECTOR || fam == DEVECTOR || fam == SMALL)) { stable_to = n; if (cnt[K_ALLOC] || cnt[K_MOVE] || cnt[K_COPY]) fail("shrink_to_fit() with capacity() == size() has effects"); }
            } } break;
        case S_FILLUP: { // pushing up to the advertised space never allocates and never moves elements
            std::size_t kb = 0, kf = 0; if constexpr (front) { kb = x.available_back(); kf = x.available_front(); } else kb = x.available();
            if (kb + kf + (std::size_t)n > (std::size_t)MAXN) return OK;
            r = call([&] { for (std::size_t i = 0; i < kb; ++i) x.emplace_back(500 + (int)i); if constexpr (front) for (std::size_t i = 0; i < kf; ++i) x.emplace_front(700 + (int)i); });
            if (r == OK) {
                if (cnt[K_ALLOC]) fail("pushing %zu elements at the back and %zu at the front, as advertised by available*(), allocated memory", kb, kf);
                for (std::size_t i = 0; i < kb; ++i) m_ins(e, e.n, 500 + (int)i);
                for (std::size_t i = 0; i < kf; ++i) m_ins(e, 0, 700 + (int)i);
                stable_from = 0; stable_shift = (int)kf; newsize = e.n;
            } } break;
        case S_ERIF: { auto keep = [&](int i) { return i >= 16 || !(a >> i & 1); };
            int lb = x.begin() == x.end() ? 0 : m.v[0]; (void)lb; std::size_t rr = 0;
            r = call([&] { rr = (std::size_t)sfl::erase_if(x, [&](const T& t) { event(K_PRED); i32 q = val_of(t); for (int i = 0; i < n; ++i) if (m.v[i] == q) return !keep(i); fail("erase_if: predicate called with a value (%d) that is not in the container", q); return false; }); });
            int j = 0; for (int i = 0; i < n; ++i) if (keep(i)) e.v[j++] = m.v[i]; e.n = j; newsize = j;
            if (r == OK && (int)rr != n - j) fail("erase_if returned %zu, expected %d", rr, n - j); } break;
        case S_ERV: { // duplicate values: positions in the pattern get the value to erase
            for (int i = 0; i < n && i < 16; ++i) if (a >> i & 1) { set_val(x[(std::size_t)i], 777); m.v[i] = e.v[i] = 777; p.m.v[i] = 777; }
            std::size_t rr = 0; T t(777);
            r = call([&] { rr = (std::size_t)sfl::erase(x, static_cast<const T&>(t)); });
            int j = 0; for (int i = 0; i < n; ++i) if (e.v[i] != 777) e.v[j++] = e.v[i]; e.n = j; newsize = j;
            if (r == OK && (int)rr != n - j) fail("erase returned %zu, expected %d", rr, n - j); } break;
        // ---- arguments referring to own elements
        case S_A_PUSHB: if constexpr (can_copy) { r = call([&] { x.push_back(static_cast<const T&>(x[(std::size_t)a])); }); m_ins(e, n, m.v[a]); newsize = n + 1; strong = 2; } break;
        case S_A_EMPB: if constexpr (can_copy) { r = call([&] { refp = &x.emplace_back(static_cast<const T&>(x[(std::size_t)a])); }); m_ins(e, n, m.v[a]); exp_ref = n; newsize = n + 1; strong = 2; } break;
        case S_A_EMPBM: { r = call([&] { refp = &x.emplace_back(std::move(x[(std::size_t)a])); }); if (movable_mark) e.v[a] = MOVED; m_ins(e, n, m.v[a]); exp_ref = n; newsize = n + 1; } break;
        case S_A_PUSHF: if constexpr (can_copy && front) { r = call([&] { x.push_front(static_cast<const T&>(x[(std::size_t)a])); }); m_ins(e, 0, m.v[a]); newsize = n + 1; strong = 2; } break;
        case S_A_EMPF: if constexpr (can_copy && front) { r = call([&] { refp = &x.emplace_front(static_cast<const T&>(x[(std::size_t)a])); }); m_ins(e, 0, m.v[a]); exp_ref = 0; newsize = n + 1; strong = 2; } break;
        case S_A_EMPFM: if constexpr (front) { r = call([&] { refp = &x.emplace_front(std::move(x[(std::size_t)a])); }); if (movable_mark) e.v[a] = MOVED; m_ins(e, 0, m.v[a]); exp_ref = 0; newsize = n + 1; } break;
        case S_A_INS: if constexpr (can_copy) { r = call([&] { ret = idx(x.insert(P(a), static_cast<const T&>(x[(std::size_t)b]))); }); m_ins(e, a, m.v[b]); exp_ret = a; newsize = n + 1; } break;
        case S_A_EMP: if constexpr (can_copy) { r = call([&] { ret = idx(x.emplace(P(a), static_cast<const T&>(x[(std::size_t)b]))); }); m_ins(e, a, m.v[b]); exp_ret = a; newsize = n + 1; } break;
        case S_A_EMPM: { r = call([&] { ret = idx(x.emplace(P(a), std::move(x[(std::size_t)b]))); }); if (movable_mark) e.v[b] = MOVED; m_ins(e, a, m.v[b]); exp_ret = a; newsize = n + 1; } break;
        case S_A_INSN: if constexpr (can_copy) { r = call([&] { ret = idx(x.insert(P(a), (std::size_t)o.c, static_cast<const T&>(x[(std::size_t)b]))); }); for (int i = 0; i < o.c; ++i) m_ins(e, a, m.v[b]); exp_ret = a; newsize = n + o.c; lenok = true; } break;
        case S_A_RSZ: case S_A_RSZB: if constexpr (can_copy) {
            r = call([&] { if constexpr (front) { if (o.k == S_A_RSZB) { x.resize_back((std::size_t)a, static_cast<const T&>(x[(std::size_t)b])); return; } } x.resize((std::size_t)a, static_cast<const T&>(x[(std::size_t)b])); });
            newsize = a; lenok = true; if (a < n) m_er(e, a, n);
            if (r == OK && a > n) {
                int k = 0;
                if constexpr (front) if (o.k == S_A_RSZ) {
                    if ((int)x.size() != a) fail("resize(%d) gives size %zu", a, (std::size_t)x.size());
                    // find a split that matches; new elements must equal the referenced value
                    for (; k + n <= a; ++k) { bool ok = true; for (int i = 0; i < a && ok; ++i) ok = val_of(x[(std::size_t)i]) == (i >= k && i < k + n ? m.v[i - k] : m.v[b]); if (ok) break; }
                    if (k + n > a) fail("resize(n, own element): wrong content");
                }
                e.n = a; for (int i = 0; i < a; ++i) e.v[i] = i >= k && i < k + n ? m.v[i - k] : m.v[b];
            } } break;
        case S_A_RSZF: if constexpr (can_copy && front) { r = call([&] { x.resize_front((std::size_t)a, static_cast<const T&>(x[(std::size_t)b])); }); newsize = a; lenok = true; if (a < n) m_er(e, 0, n - a); else for (int i = n; i < a; ++i) m_ins(e, 0, m.v[b]); } break;
        case S_A_ASGN: if constexpr (can_copy) { r = call([&] { x.assign((std::size_t)a, static_cast<const T&>(x[(std::size_t)b])); }); e.n = a; for (int i = 0; i < a; ++i) e.v[i] = m.v[b]; newsize = a; lenok = true; } break;
        case S_A_ERV: if constexpr (can_copy) { std::size_t rr = 0; int w = m.v[a];
            // every third element equal to the referenced one
            for (int i = 0; i < n; ++i) if (i % 3 == a % 3) { set_val(x[(std::size_t)i], w); m.v[i] = e.v[i] = w; p.m.v[i] = w; }
            (void)rr; return OK; } break;
        default: fail("harness: unknown op %d", o.k);
        }
        // ---- outcome
        last_ok = r == OK;
        if (r == OK && (opt.mask & G_COST)) check_cost(o, p, n);
        std::size_t need = (std::size_t)newsize;
        if (r == LEN) {
            // growth strategy and segment granularity of devector and segmented containers may reject sizes close to max_size()
            const bool approx = small_max && (front || fam == SEGV) && 2 * (newsize + (int)p.cap + 2 * N + 1) > (int)H.maxsz;
            if (!approx && (!small_max || (newsize <= (int)H.maxsz && !resets))) { fail("length_error although the result (%d elements) does not exceed max_size() (%u)", newsize, H.maxsz); }
            (void)lenok;
            if (g_aborted) return r;
        } else if (r == OOR || r == OTHER) fail("unexpected exception (%s)", outcome_name(r));
#ifdef MC_NOEXC
        constexpr bool strict_limit = false;
#else
        const bool strict_limit = opt.mask & G_HUGE;
#endif
        // open finding: segmented containers hold as many elements as fit into whole segments, which can be more than max_size()
        const bool rounding = !contiguous && newsize <= (int)H.maxsz + 2 * N + 1 && (!strict_limit || known("segmented_rounding_exceeds_max_size"));
        if (r == OK && small_max && newsize > top() && !rounding) fail("operation produced %d elements, max_size() is %u", newsize, H.maxsz);
        if (r == OK) {
            m = e;
            if (exp_ret >= 0 && ret != exp_ret) fail("returned iterator has index %ld, expected %ld", ret, exp_ret);
            if (exp_ref >= 0 && refp != &x[(std::size_t)exp_ref]) fail("returned reference does not refer to the inserted element");
            // capacity contract
            if constexpr (fam == STATIC) if (cnt[K_ALLOC]) fail("static_vector allocated memory");
            if constexpr (fam == SMALL) if (!resets && n <= N && need <= (std::size_t)N && p.cap == (std::size_t)N && cnt[K_ALLOC]) fail("small_vector allocated memory although it never holds more than N elements");
            if constexpr (fam == VECTOR || fam == SMALL || fam == SEGV) if (!resets && need <= p.cap && cnt[K_ALLOC]) fail("operation allocated memory although %zu elements fit into capacity %zu", need, p.cap);
            if constexpr (fam == VECTOR || fam == SMALL || fam == DEVECTOR) if (!resets && x.capacity() < p.cap) fail("operation reduced capacity()");
            if constexpr (front) {
                bool bk = o.k == S_PUSHB_C || o.k == S_PUSHB_M || o.k == S_EMPB || o.k == S_EMPB2 || o.k == S_A_PUSHB || o.k == S_A_EMPB, fr = o.k == S_PUSHF_C || o.k == S_PUSHF_M || o.k == S_EMPF || o.k == S_A_PUSHF || o.k == S_A_EMPF;
                if ((bk && p.ab >= 1) || (fr && p.af >= 1)) { if (cnt[K_ALLOC]) fail("push/emplace at an end with available space allocated memory"); }
                if ((o.k == S_RSZ_B || o.k == S_RSZ_BV) && a > n && (std::size_t)(a - n) <= p.ab && cnt[K_ALLOC]) fail("resize_back within available_back() allocated memory");
                if ((o.k == S_RSZ_F || o.k == S_RSZ_FV) && a > n && (std::size_t)(a - n) <= p.af && cnt[K_ALLOC]) fail("resize_front within available_front() allocated memory");
            }
            // reference stability
            bool no_realloc;
            if constexpr (fam == DEVECTOR) {
                bool endop = o.k == S_PUSHB_C || o.k == S_PUSHB_M || o.k == S_EMPB || o.k == S_EMPB2 || o.k == S_PUSHF_C || o.k == S_PUSHF_M || o.k == S_EMPF || o.k == S_POPB || o.k == S_POPF
                    || o.k == S_RES || o.k == S_RESF || o.k == S_RESB || o.k == S_SHRINK || o.k == S_FILLUP || o.k == S_RSZ_B || o.k == S_RSZ_BV || o.k == S_RSZ_F || o.k == S_RSZ_FV || o.k == S_SELFCA || o.k == S_SELFSW || (o.k == S_ERR && a == b);
                bool bk = o.k == S_PUSHB_C || o.k == S_PUSHB_M || o.k == S_EMPB || o.k == S_EMPB2, fr = o.k == S_PUSHF_C || o.k == S_PUSHF_M || o.k == S_EMPF;
                if ((bk && p.ab < 1) || (fr && p.af < 1)) endop = false; // elements may be shifted towards the other end
                if ((o.k == S_RSZ_B || o.k == S_RSZ_BV) && a > n && (std::size_t)(a - n) > p.ab) endop = false;
                if ((o.k == S_RSZ_F || o.k == S_RSZ_FV) && a > n && (std::size_t)(a - n) > p.af) endop = false;
                no_realloc = endop && !cnt[K_ALLOC];
            } else if constexpr (fam == COMPACT) no_realloc = o.k == S_SELFCA || o.k == S_SELFSW;
            else if constexpr (fam == SEGD) {
                // only end operations and capacity operations are promised
                bool endop = o.k == S_PUSHB_C || o.k == S_PUSHB_M || o.k == S_EMPB || o.k == S_EMPB2 || o.k == S_PUSHF_C || o.k == S_PUSHF_M || o.k == S_EMPF || o.k == S_POPB || o.k == S_POPF
                    || o.k == S_RESF || o.k == S_RESB || o.k == S_SHRINK || o.k == S_FILLUP || o.k == S_RSZ_B || o.k == S_RSZ_BV || o.k == S_RSZ_F || o.k == S_RSZ_FV || o.k == S_SELFCA || o.k == S_SELFSW || (o.k == S_ERR && a == b);
                no_realloc = endop;
            } else if constexpr (fam == SEGV) no_realloc = true;
            else no_realloc = !cnt[K_ALLOC] && x.capacity() == p.cap;
            if (no_realloc) { stable(s, p, 0, std::min(stable_to, n), 0, "operation without capacity change"); stable(s, p, stable_from, n, stable_shift, "operation without capacity change"); }
        } else {
            // documented for reserve*/shrink_to_fit (1); single-element insertion at an end (2)
            bool chk_strong = (strong == 1 && documented_strong) || (strong == 2 && (nothrow_move || (documented_strong && fam != DEVECTOR)));
            bool single_pass = (o.k == S_INS_R && o.c == CT_IN) || (o.k == S_ASG_R && o.b == CT_IN);
            const bool from_own = o.k == S_A_EMPBM || o.k == S_A_EMPFM || o.k == S_A_EMPM; // the argument may already have been consumed
            if (r == LEN && !single_pass && !from_own) expect_unchanged(s, p, "length_error", true); // nothing can have happened
            if (chk_strong) expect_unchanged(s, p, "exception", strong == 1 && contiguous);
            resync(s);
            if (x.capacity() < x.size()) fail("capacity() < size() after an exception");
        }
        return r;
    }

    // ------------------------------------------------------------ counts beyond every limit, also those that overflow in a sum
    static Outcome huge(int s, Pre& p, int kind, int vi)
    {
        C& x = c(s); const int n = p.m.n; Outcome r = LEN; static char b[96];
        if (vi == HUGE_COUNTS - 1 && (!contiguous || fam == DEVECTOR)) { fp_count = 0; return OK; }
        const std::size_t k = huge_count(vi, (std::size_t)n, p.cap, sizeof(T), x.max_size());
        if (fam == SMALL && k <= (std::size_t)N) { fp_count = 0; return OK; }      // fits without an allocation, whatever max_size() says
        static const char* nm[] = {"resize(n)", "resize(n,value)", "reserve", "reserve_front", "reserve_back", "resize_front(n)", "resize_back(n)", "insert(pos,n,value)", "assign(n,value)", "construct(n)", "construct(n,value)", "insert(pos,first,last)", "assign(first,last)"};
        bool ic = in_call; in_call = false; T val(fresh()); in_call = ic;
        const auto ran = [&] { return (std::ptrdiff_t)(k >> 63 ? k >> 1 : k); };
        constexpr bool dc = std::is_default_constructible<T>::value;
        switch (kind) {
        case 0: if constexpr (dc) r = call([&] { x.resize(k); }); break;
        case 1: if constexpr (can_copy) r = call([&] { x.resize(k, val); }); break;
        case 2: if constexpr (has_reserve) r = call([&] { x.reserve(k); }); break;
        case 3: if constexpr (front) r = call([&] { x.reserve_front(k); }); break;
        case 4: if constexpr (front) r = call([&] { x.reserve_back(k); }); break;
        case 5: if constexpr (front && dc) r = call([&] { x.resize_front(k); }); break;
        case 6: if constexpr (front && dc) r = call([&] { x.resize_back(k); }); break;
        case 7: if constexpr (can_copy) for (int q = 0; q <= n && r == LEN && !g_aborted; ++q) r = call([&] { x.insert(x.cbegin() + q, k, val); }); break;
        case 8: if constexpr (can_copy) r = call([&] { x.assign(k, val); }); break;
        case 9: if constexpr (dc && has_alloc) r = call([&] { C tmp(k); }); break;
        case 10: if constexpr (can_copy && has_alloc) r = call([&] { C tmp(k, val); }); break;
        case 11: if constexpr (can_copy) for (int q = 0; q <= n && r == LEN && !g_aborted; ++q) r = call([&] { x.insert(x.cbegin() + q, GIt<T>{&val, 0}, GIt<T>{&val, ran()}); }); break;
        case 12: if constexpr (can_copy) r = call([&] { x.assign(GIt<T>{&val, 0}, GIt<T>{&val, ran()}); }); break;
        }
        in_call = false;
        snprintf(b, sizeof b, "%s with n = %zu (size() %d, capacity() %zu)", nm[kind], k, n, p.cap);
        if (r != LEN) fail("%s: %s, expected length_error (max_size() is %zu)", b, outcome_name(r), (std::size_t)x.max_size());
        if (g_aborted) return r;
        if (cnt[K_ALLOC]) fail("%s: allocated memory", b);
        expect_unchanged(s, p, b, true);
        fp_count = 0; return OK;
    }

    // ------------------------------------------------------------ a container that holds more than another allocator allows
    static Outcome lower_limit(int s, Pre& p, int kind, int which)
    {
        C& x = c(s); const int n = p.m.n; const u32 keep = H.maxsz, lim = (u32)(which == 2 ? n : which ? n / 2 : n - 1); Outcome r = which == 2 ? OK : LEN;
        static const char* nm[] = {"copy construction", "copy construction with an allocator", "move construction with an unequal allocator", "copy assignment", "move assignment between unequal allocators", "construction from a range", "assign(first,last)", "insert(pos,first,last)"};
        const int other = p.m.aid == 2 ? 1 : 2; H.maxsz = lim;
        switch (kind) {
        case 13: if constexpr (can_copy) r = call([&] { C tmp(static_cast<const C&>(x)); }); break;
        case 14: if constexpr (can_copy) r = call([&] { C tmp(static_cast<const C&>(x), A_t(other)); }); break;
        case 15: if constexpr (stateful) r = call([&] { C tmp(std::move(x), A_t(other)); }); break;
        case 16: if constexpr (can_copy) r = call([&] { C tmp{A_t(p.m.aid)}; tmp = static_cast<const C&>(x); }); break;
        case 17: if constexpr (stateful && !pocma) r = call([&] { C tmp{A_t(other)}; tmp = std::move(x); }); break;
        case 18: if constexpr (can_copy) r = call([&] { C tmp(x.begin(), x.end(), A_t(other)); }); break;
        case 19: if constexpr (can_copy) r = call([&] { C tmp{A_t(other)}; tmp.assign(x.begin(), x.end()); }); break;
        case 20: if constexpr (can_copy) r = call([&] { C tmp{A_t(other)}; tmp.insert(tmp.cbegin(), x.begin(), x.end()); }); break;
        }
        in_call = false; H.maxsz = keep;
        const bool approx = fam == SMALL && n <= N;
        if (which == 2) { // exactly max_size() elements fit
            if (r != OK && !(r == LEN && fam == DEVECTOR)) fail("%s of %d elements where max_size() is %u: %s", nm[kind - 13], n, lim, outcome_name(r));
            if (g_aborted) return r;
            if (kind == 15 || kind == 17) { if (r == OK) call([&] { x.clear(); }); resync(s); } else expect_unchanged(s, p, nm[kind - 13], true);
            fp_count = 0; return OK;
        }
        if (r != LEN && !(r == OK && approx)) fail("%s of %d elements where max_size() is %u: %s, expected length_error", nm[kind - 13], n, lim, outcome_name(r));
        if (g_aborted) return r;
        if (kind == 15 || kind == 17) resync(s); else expect_unchanged(s, p, nm[kind - 13], true);
        fp_count = 0; return OK;
    }

    // ------------------------------------------------------------ two containers: s (this) and t (other)
    static Outcome apply2(int s, int t, const Op& o)
    {
        Outcome r = OK; SeqModel& ms = SM[s]; SeqModel& mt = SM[t]; i32 ext0 = H.live_ext;
        C& x = c(s);
        auto fixup_moved = [&](int q) { resync(q); };
        switch (o.k) {
        case S_CC: case S_CCA: if constexpr (can_copy) {
            H.slot_on[t] = 1; mt = ms; mt.n = 0; memset(slot(t), POISON, sizeof(C));
            r = call([&] { if constexpr (has_alloc) { if (o.k == S_CCA) { ::new ((void*)slot(t)) C(static_cast<const C&>(x), A_t(o.a)); return; } } ::new ((void*)slot(t)) C(static_cast<const C&>(x)); });
            if (r != OK) { H.slot_on[t] = 0; if (r != FAULTED && !(r == LEN && over_max(ms.n))) fail("copy constructor threw %s", outcome_name(r)); }
            else { mt = ms; mt.aid = o.k == S_CCA ? o.a : (stateful ? (ms.aid < 10 ? ms.aid + 10 : ms.aid) : 1); if (fam == SMALL && ms.n <= N && cnt[K_ALLOC]) fail("copy construction of a small_vector with <= N elements allocated memory"); }
            } break;
        case S_MC: case S_MCA: {
            H.slot_on[t] = 1; mt = ms; mt.n = 0; memset(slot(t), POISON, sizeof(C)); Pre p = grab(s);
            r = call([&] { if constexpr (has_alloc) { if (o.k == S_MCA) { ::new ((void*)slot(t)) C(std::move(x), A_t(o.a)); return; } } ::new ((void*)slot(t)) C(std::move(x)); });
            if (r != OK) { H.slot_on[t] = 0; if (r != FAULTED && !(r == LEN && over_max(p.m.n))) fail("move constructor threw %s", outcome_name(r)); resync(s); }
            else {
                mt = p.m; mt.aid = o.k == S_MCA ? o.a : p.m.aid; fixup_moved(s);
                bool eqa = alloc_eq(mt.aid, p.m.aid);
                if (fam == COMPACT || fam == SEGV || fam == SEGD) { if (o.k == S_MC && x.size() != 0) fail("moved-from container is documented to be empty, size() is %zu", (std::size_t)x.size()); }
                if (eqa && p.m.n && (fam == VECTOR || fam == DEVECTOR || fam == COMPACT || fam == SEGV || fam == SEGD)) {
                    C& y = c(t); for (int i = 0; i < p.m.n && i < (int)y.size(); ++i) if (&y[(std::size_t)i] != p.addr[i]) fail("move construction with an equal allocator moved or copied elements instead of transferring storage");
                }
            } } break;
        case S_CA: if constexpr (can_copy) {
            C& y = c(t); SeqModel want = mt; Pre p = grab(s);
            r = call([&] { C& rr = (x = static_cast<const C&>(y)); if (&rr != &x) fail("operator= does not return *this"); });
            if (r == OK) { int aid = pocca ? mt.aid : ms.aid; ms = want; ms.aid = aid; if ((fam == VECTOR || fam == SMALL || fam == SEGV) && !(pocca && p.m.aid != mt.aid && stateful) && (std::size_t)want.n <= p.cap && cnt[K_ALLOC]) fail("copy assignment allocated memory although the capacity is sufficient"); }
            else { if (r != FAULTED && !(r == LEN && over_max(want.n))) fail("copy assignment threw %s", outcome_name(r)); resync(s); if constexpr (has_alloc) ms.aid = x.get_allocator().get() ? x.get_allocator().get() : ms.aid; }
            } break;
        case S_MA: {
            C& y = c(t); SeqModel want = mt; Pre p = grab(t);
            r = call([&] { C& rr = (x = std::move(y)); if (&rr != &x) fail("operator= does not return *this"); });
            if (r == OK) {
                bool eqa = alloc_eq(ms.aid, want.aid) ; int aid = pocma ? want.aid : ms.aid; ms = want; ms.aid = aid; fixup_moved(t);
                if (eqa && want.n && (fam == VECTOR || fam == DEVECTOR || fam == COMPACT || fam == SEGV || fam == SEGD))
                    for (int i = 0; i < want.n && i < (int)x.size(); ++i) if (&x[(std::size_t)i] != p.addr[i]) fail("move assignment moved or copied elements instead of transferring storage");
            } else { if (r != FAULTED && !(r == LEN && over_max(want.n))) fail("move assignment threw %s", outcome_name(r)); resync(s); resync(t); if constexpr (has_alloc) { ms.aid = x.get_allocator().get() ? x.get_allocator().get() : ms.aid; mt.aid = y.get_allocator().get() ? y.get_allocator().get() : mt.aid; } }
            } break;
        case S_SWAP: case S_NSWAP: {
            C& y = c(t); Pre p = grab(s); Pre q = grab(t);
            r = call([&] { if (o.k == S_SWAP) x.swap(y); else { using std::swap; swap(x, y); } });
            if (r == OK) {
                int as = ms.aid, at = mt.aid; std::swap(ms, mt); if (!pocs) { ms.aid = as; mt.aid = at; }
                if (fam != SMALL && fam != STATIC) {
                    if (cnt[K_ALLOC] || cnt[K_MOVE] || cnt[K_COPY] || cnt[K_MASG] || cnt[K_CASG]) fail("swap is documented to be constant time but touched elements or memory");
                    for (int i = 0; i < p.m.n; ++i) if (&y[(std::size_t)i] != p.addr[i]) fail("swap invalidated a reference");
                    for (int i = 0; i < q.m.n; ++i) if (&x[(std::size_t)i] != q.addr[i]) fail("swap invalidated a reference");
                }
            } else { if (r != FAULTED) fail("swap threw %s", outcome_name(r)); resync(s); resync(t); if constexpr (has_alloc) { ms.aid = x.get_allocator().get() ? x.get_allocator().get() : ms.aid; mt.aid = y.get_allocator().get() ? y.get_allocator().get() : mt.aid; } }
            } break;
        case S_CMP: { C& y = c(t); compare_all(x, y); } break;
        case S_BADSW: { C& y = c(t); must_abort("swap of containers with unequal allocators that do not propagate", 0, 0, [&] { x.swap(y); }); must_abort("non-member swap of containers with unequal allocators that do not propagate", 0, 0, [&] { using std::swap; swap(x, y); }); } break;
        }
        if (H.live_ext != ext0) fail("element leaked outside container storage");
        return r;
    }

    // ------------------------------------------------------------ documented complexity
    static u64 work() { return cnt[K_CTOR] + cnt[K_COPY] + cnt[K_MOVE] + cnt[K_CASG] + cnt[K_MASG]; }
    static inline u64 n_cost, n_ladder;
    static void within(const char* what, u64 got, long lim, int n) { if (!(opt.mask & G_COST)) return; ++n_cost; if ((long)got > lim) fail("complexity: %s: %llu, at most %ld expected with %d elements", what, (unsigned long long)got, lim, n); }
    // element operations of one operation on a container that had n elements, against the documented distance
    static void check_cost(const Op& o, const Pre& p, int n)
    {
        const int a = o.a, b = o.b; const u64 W = work(), DT = cnt[K_DTOR], AL = cnt[K_ALLOC];
        const long re = contiguous && (AL || fam == COMPACT) ? 2 * n : 0;            // reallocation moves everything once
        // distance the documentation speaks about, for elements from position x to position y
        auto dist = [&](int x, int y, int k) -> long {
            if constexpr (fam == SEGD) { (void)k; return std::min(x, n - y); }
            if constexpr (fam == DEVECTOR) return (int)p.af >= k && (int)p.ab >= k ? std::min(x, n - y) : n;
            return n - y; };
        long w = -1, d = -1;
        switch (o.k) {
        case S_PUSHB_C: case S_PUSHB_M: case S_EMPB: case S_EMPB2: w = 4 + re + (fam == DEVECTOR && p.ab < 1 ? 3 * n : 0); d = w; break;
        case S_PUSHF_C: case S_PUSHF_M: case S_EMPF: w = 4 + re + (fam == DEVECTOR && p.af < 1 ? 3 * n : 0); d = w; break;
        case S_POPB: case S_POPF: w = fam == COMPACT ? 2 * n : 0; d = 1 + w; break;
        case S_INS_C: case S_INS_M: case S_EMP: w = 6 + re + 3 * dist(a, a, 1); d = w; break;
        case S_INS_N: w = 6 + 3 * b + re + 3 * dist(a, a, b); d = w; break;
        case S_INS_R: if (o.c != CT_IN) { w = 6 + 3 * b + re + 3 * dist(a, a, b); d = w; } else { const long D = fam == SEGD || fam == DEVECTOR ? std::min(a, n - a) : n - a; w = 8 + (fam == SEGD ? 6 : 5) * b + 4 * D + (fam == DEVECTOR ? 6 * (n + b) : contiguous && AL ? 4 * (n + b) : 0); if (fam == COMPACT) w = 8 * (n + b) * (n + b) + 8; d = w + 3 * D; } break;
        case S_ER1: w = 3 + (fam == COMPACT ? 2 * n : 2 * (front ? std::min(a, n - a - 1) : n - a - 1)); d = w + 2; break;
        case S_ERR: w = 3 + (a == b ? 0 : fam == COMPACT ? 2 * n : 2 * (front ? std::min(a, n - b) : n - b)); d = w + 2 + (b - a); break;
        case S_CLEAR: w = 0; d = n; break;
        case S_RSZ: case S_RSZ_V: case S_RSZ_DI: w = 4 + re + 3 * std::max(0, a - n) + (fam == DEVECTOR && a > n && a - n > (int)p.ab ? 3 * n : 0) + (fam == COMPACT && a != n ? 2 * n : 0); d = w + std::max(0, n - a); break;
        case S_RSZ_B: case S_RSZ_BV: w = 4 + re + 3 * std::max(0, a - n) + (fam == DEVECTOR && a > n && a - n > (int)p.ab ? 3 * n : 0); d = w + std::max(0, n - a); break;
        case S_RSZ_F: case S_RSZ_FV: w = 4 + re + 3 * std::max(0, a - n) + (fam == DEVECTOR && a > n && a - n > (int)p.af ? 3 * n : 0); d = w + std::max(0, n - a); break;
        case S_ASG_N: case S_OPIL: w = 4 + 3 * std::max(n, a); d = 4 + 2 * (n + a); break;
        case S_ASG_R: w = 4 + 3 * std::max(n, a) + (b == CT_IN ? 4 * a : 0); if (fam == COMPACT && b == CT_IN) w = 8 * (n + a) * (n + a) + 8; d = w + 2 * (n + a); break;
        case S_RES: case S_RESF: case S_RESB: case S_SHRINK: w = contiguous ? 2 * n : 0; d = w; if (fam == SEGV || fam == SEGD) w = d = 0; break;
        case S_ERIF: case S_ERV: w = 4 + 3 * n; d = 4 + 3 * n; within("erase_if/erase: predicate calls", cnt[K_PRED] + cnt[K_CMP], n, n); break;
        case S_SELFCA: w = 4 + 3 * n; d = w; break;
        case S_SELFSW: w = fam == SMALL || fam == STATIC ? 4 + 3 * n : 0; d = w; break;
        default: return;
        }
        within("element constructions, copies, moves and assignments", W, w, n);
        within("element destructions", DT, d, n);
        if (contiguous && o.k != S_INS_R && o.k != S_ASG_R) within("allocations", AL, 1, n);
        if (contiguous && ((o.k == S_INS_R && o.c != CT_IN) || (o.k == S_ASG_R && b != CT_IN))) within("allocations", AL, 1, n);
    }
    // amortized cost at the ends: a long series of operations from this state (put back afterwards)
    static void contents(const C& x, std::vector<int>& q) { q.clear(); for (auto it = x.begin(); it != x.end(); ++it) q.push_back((*it).val); }
    static void expect(const C& x, const std::vector<int>& q, const char* what, int a)
    {
        if (x.size() != q.size() || (std::size_t)(x.end() - x.begin()) != q.size()) fail("%s (%d): size() is %zu, expected %zu", what, a, (std::size_t)x.size(), q.size());
        std::size_t i = 0;
        for (auto it = x.begin(); it != x.end(); ++it, ++i) if (val_of(*it) != q[i] || &x[i] != &*it) fail("%s (%d): element %zu of %zu is %d, expected %d", what, a, i, q.size(), (*it).val, q[i]);
        if (i != q.size()) fail("%s (%d): iteration stops after %zu of %zu elements", what, a, i, q.size());
        i = q.size(); for (auto it = x.rbegin(); it != x.rend(); ++it) if (val_of(*it) != q[--i]) fail("%s (%d): reverse iteration disagrees at %zu", what, a, i);
        if (T::tracked && H.live_arena != (i32)q.size() + (i32)big_other) fail("%s (%d): %d live elements, expected %zu", what, a, H.live_arena, q.size());
    }
    static inline int big_other = 0;
    static void ladder(int s, int kind)
    {
        static Snap sn; save(sn); ++n_ladder; big_other = (int)total_live() - SM[s].n;
        const int K = 240; C& x = c(s); const int n = SM[s].n; int i = 0, e = 0; bool bad = false; auto nx = [&] { return 1 + (e++ % 200); };
        std::vector<int> q; contents(x, q);
        static const char* nm[] = {"push_back", "push_front", "alternating push_back and push_front", "push_back and pop_front", "push_front and pop_back", "push_back and pop_back", "insert(end())", "insert(begin())", "two push_back, one pop"};
        auto sz = [&] { if ((int)x.size() != n + i) bad = true; };
        auto pb = [&](int v) { q.push_back(v); return v; }; auto pf = [&](int v) { q.insert(q.begin(), v); return v; };
        auto ob = [&] { q.pop_back(); }; auto of = [&] { q.erase(q.begin()); };
        Outcome r = OK;
        #define MC_LAD(...) r = call([&] { for (i = 0; i < K; ) { __VA_ARGS__; } })
        switch (kind) {
        case 0: MC_LAD(x.emplace_back(pb(nx())); ++i); sz(); break;
        case 1: if constexpr (front) { MC_LAD(x.emplace_front(pf(nx())); ++i); sz(); } break;
        case 2: if constexpr (front) { MC_LAD(x.emplace_back(pb(nx())); ++i; x.emplace_front(pf(nx())); ++i); sz(); } break;
        case 3: if constexpr (front) { MC_LAD(x.emplace_back(pb(nx())); x.pop_front(); of(); ++i); i = 0; sz(); } break;
        case 4: if constexpr (front) { MC_LAD(x.emplace_front(pf(nx())); x.pop_back(); ob(); ++i); i = 0; sz(); } break;
        case 5: MC_LAD(x.emplace_back(pb(nx())); x.pop_back(); ob(); ++i); i = 0; sz(); break;
        case 6: MC_LAD(x.emplace(x.cend(), pb(nx())); ++i); sz(); break;
        case 7: if constexpr (front) { MC_LAD(x.emplace(x.cbegin(), pf(nx())); ++i); sz(); } break;
        case 8: MC_LAD(x.emplace_back(pb(nx())); x.emplace_back(pb(nx())); x.pop_back(); ob(); ++i); sz(); break;
        }
        #undef MC_LAD
        if (r != OK) fail("%d times %s threw %s", K, nm[kind], outcome_name(r));
        if (bad) fail("%d times %s: size() is %zu", K, nm[kind], (std::size_t)x.size());
        u64 wk = work(), al = cnt[K_ALLOC];
        expect(x, q, nm[kind], 240);
        const bool grows = kind < 3 || kind > 5;
        const int lg = 10;                       // > log2(K + n)
        std::string what = std::string(nm[kind]) + ", repeated 240 times";
        within(("amortized cost: element operations of " + what).c_str(), wk, (contiguous ? 12L : 3L) * (K + n) + 20, n);
        within(("amortized cost: allocations of " + what).c_str(), al, (contiguous ? 0 : (grows || fam == SEGD ? 2 * K : 8) / N + 4) + 3 * lg, n);
        restore(sn);
    }

    // whole-container operations between the big container and others of several sizes (second object in slot 1)
    static void big2(int s, const std::vector<int>& q0, const Snap& sb, int limit)
    {
        static Snap s2; const int n = (int)q0.size(); C& x = c(s); C& z = c(1); const int base = big_other;
        const int sizes[] = {0, 1, 3, n / 2, n - 1, n, n + 1, n + 40};
        for (int m : sizes) for (int dif = 0; dif < 2; ++dif) {
            if (m > limit || m < 0 || (dif && m < n / 2)) continue;
            H.slot_on[1] = 1; memset(slot(1), POISON, sizeof(C));
            std::vector<int> p0(q0.begin(), q0.begin() + std::min(m, n)); while ((int)p0.size() < m) p0.push_back(400 + (int)p0.size());
            if (dif) p0[(std::size_t)(m / 2)] += 1;
            Outcome r = call([&] { if constexpr (has_alloc) ::new ((void*)slot(1)) C(x.get_allocator()); else ::new ((void*)slot(1)) C(); for (int v : p0) z.emplace_back(v); });
            if (r != OK) fail("building the second container threw %s", outcome_name(r));
            save(s2);
            auto both = [&](const char* w, const std::vector<int>& ex, const std::vector<int>* ez, Outcome rr) {
                if (rr != OK) fail("%s of containers of %d and %d elements threw %s", w, n, m, outcome_name(rr));
                big_other = base + (int)z.size(); expect(x, ex, w, m); big_other = base + (int)x.size();
                if (ez) expect(z, *ez, w, m); else { std::vector<int> t; contents(z, t); expect(z, t, w, m); }
                big_other = base; settle(); restore(s2); };
            if constexpr (can_copy) {
                r = call([&] { x = static_cast<const C&>(z); }); both("copy assignment", p0, &p0, r);
            }
            r = call([&] { x = std::move(z); }); both("move assignment", p0, nullptr, r);
            r = call([&] { x.swap(z); }); both("swap", p0, &q0, r);
            r = call([&] { z.swap(x); }); both("swap", p0, &q0, r);
            if (opt.mask & G_REL) {
                bool b[6]; const C& y = x; const C& w = z; r = call([&] { b[0] = y == w; b[1] = y != w; b[2] = y < w; b[3] = y > w; b[4] = y <= w; b[5] = y >= w; });
                const bool e[6] = {q0 == p0, q0 != p0, q0 < p0, q0 > p0, q0 <= p0, q0 >= p0};
                for (int i = 0; i < 6; ++i) if (b[i] != e[i]) fail("relational operator %d of containers of %d and %d elements is wrong", i, n, m);
                both("comparison", q0, &p0, r);
            }
            restore(sb);
        }
        H.slot_on[1] = 1; memset(slot(1), POISON, sizeof(C));
        save(s2);
        auto cons = [&](const char* w, Outcome rr, bool same) { if (rr != OK) fail("%s of %d elements threw %s", w, n, outcome_name(rr)); big_other = base + (int)x.size(); expect(z, q0, w, n); big_other = base + n; if (same) expect(x, q0, w, n); else { std::vector<int> t; contents(x, t); expect(x, t, w, n); } big_other = base; settle(); restore(s2); };
        if constexpr (can_copy) { Outcome r = call([&] { ::new ((void*)slot(1)) C(static_cast<const C&>(x)); }); cons("copy construction", r, true); }
        { Outcome r = call([&] { ::new ((void*)slot(1)) C(std::move(x)); }); cons("move construction", r, false); }
        restore(sb);
    }
    // the same operations on a container of more than 100 elements (variant: bit 0 spare capacity, bit 1 built from the front)
    static void big(int s, int variant)
    {
        static Snap sn, sb; save(sn); ++n_ladder; big_other = (int)total_live() - SM[s].n;
        C& x = c(s); const C& y = x; std::vector<int> q0, q, q1; contents(x, q0); const int n0 = (int)q0.size();
        int room = 1 << 20; if constexpr (fam == STATIC) room = N - n0;
        const int K = std::min(100, room - 30); if (K < 4) return;
        int e = 0; auto nx = [&] { return 1 + (e++ % 250); };
        bool fits = true;
        Outcome r = call([&] {
            if (variant & 1) { if constexpr (front) { x.reserve_back((std::size_t)(n0 + K + 90)); x.reserve_front((std::size_t)(n0 + 90)); } else if constexpr (has_reserve) x.reserve((std::size_t)(n0 + K + 90)); }
            for (int i = 0; i < K; ++i) { int v = nx();
                if constexpr (front) { if ((variant & 2) || (i & 1)) { x.emplace_front(v); q0.insert(q0.begin(), v); continue; } }
                else if (variant & 2) { x.emplace(x.cbegin() + (n0 + i) / 2, v); q0.insert(q0.begin() + (n0 + i) / 2, v); continue; }
                x.emplace_back(v); q0.push_back(v); }
        });
        if (r != OK) fail("building a container of %d elements threw %s", n0 + K, outcome_name(r));
        expect(x, q0, "growing to", n0 + K); save(sb); const int n = n0 + K; (void)fits; (void)y;
        static int iv[128]; for (int i = 0; i < 128; ++i) iv[i] = 251 + i;
        const int pos[] = {0, 1, 7, n / 4, n / 2 - 1, n / 2, n / 2 + 1, 3 * n / 4, n - 8, n - 1, n}; const int cnts[] = {0, 1, 5, 16, 33, 64, 100};
        long ret = -1; int what_p = 0;
        auto done = [&](const char* w, int p, int a, Outcome rr, long want) {
            if (rr != OK) fail("%s at %d (%d) of %d elements threw %s", w, p, a, n, outcome_name(rr));
            if (want >= 0 && ret != want) fail("%s at %d (%d) of %d elements returns an iterator to %ld, expected %ld", w, p, a, n, ret, want);
            expect(x, q, w, p * 1000 + a); settle(); restore(sb); q = q0; ret = -1; };
        auto P = [&](int i) { return x.cbegin() + i; }; auto ix = [&](typename C::iterator it) { ret = it - x.begin(); };
        q = q0; (void)what_p;
        for (int p : pos) {
            Outcome rr = call([&] { ix(x.emplace(P(p), 777)); }); q.insert(q.begin() + p, 777); done("emplace", p, 1, rr, p);
            { T t(778); rr = call([&] { ix(x.insert(P(p), std::move(t))); }); } q.insert(q.begin() + p, 778); done("insert(&&)", p, 1, rr, p);
            if constexpr (can_copy) {
                { T t(779); rr = call([&] { ix(x.insert(P(p), static_cast<const T&>(t))); }); } q.insert(q.begin() + p, 779); done("insert(const&)", p, 1, rr, p);
                { int a = (p * 7 + 3) % n; int v = q[(std::size_t)a]; rr = call([&] { ix(x.insert(P(p), y[(std::size_t)a])); }); q.insert(q.begin() + p, v); done("insert(own element)", p, a, rr, p); }
            }
            for (int k : cnts) {
                if (n + k <= room + n0) {
                    if constexpr (can_copy) {
                        { T t(780); rr = call([&] { ix(x.insert(P(p), (std::size_t)k, static_cast<const T&>(t))); }); } q.insert(q.begin() + p, (std::size_t)k, 780); done("insert(n,value)", p, k, rr, p);
                        if (k) { int a = (p * 5 + 1) % n; int v = q[(std::size_t)a]; rr = call([&] { ix(x.insert(P(p), (std::size_t)k, y[(std::size_t)a])); }); q.insert(q.begin() + p, (std::size_t)k, v); done("insert(n, own element)", p, k, rr, p); }
                    }
                    const int* f = iv; rr = call([&] { ix(x.insert(P(p), f, f + k)); }); q.insert(q.begin() + p, iv, iv + k); done("insert(first,last)", p, k, rr, p);
                    if (k <= 33) { InRange<int> ir{iv, (std::size_t)k, 0}; rr = call([&] { ix(x.insert(P(p), InIt<int>{&ir, false, 0}, InIt<int>{&ir, true, (std::size_t)k})); }); q.insert(q.begin() + p, iv, iv + k); done("insert(input range)", p, k, rr, p); }
                }
                if (p + k <= n) { rr = call([&] { ix(x.erase(P(p), P(p + k))); }); q.erase(q.begin() + p, q.begin() + p + k); done("erase(first,last)", p, k, rr, p); }
            }
            if (p < n) { rr = call([&] { ix(x.erase(P(p))); }); q.erase(q.begin() + p); done("erase(pos)", p, 1, rr, p); }
            const auto it = x.begin() + p; if (x.index_of(it) != (std::size_t)p || x.nth((std::size_t)p) != it) fail("nth/index_of disagree at %d of %d elements", p, n);
        }
        for (int k : {0, 1, n / 2, n - 1, n, n + 1, n + 20, n + 80}) {
            if (k <= room + n0) {
                Outcome rr = call([&] { if constexpr (front) x.resize_back((std::size_t)k); else x.resize((std::size_t)k); }); if (T::tracked || k <= n) { q.resize((std::size_t)k, 0); done("resize(n)", k, 0, rr, -1); } else { restore(sb); q = q0; }
                if constexpr (can_copy) {
                    { T t(781); rr = call([&] { if constexpr (front) x.resize_back((std::size_t)k, static_cast<const T&>(t)); else x.resize((std::size_t)k, static_cast<const T&>(t)); }); } q.resize((std::size_t)k, 781); done("resize(n,value)", k, 0, rr, -1);
                    { T t(782); rr = call([&] { x.assign((std::size_t)k, static_cast<const T&>(t)); }); } q.assign((std::size_t)k, 782); done("assign(n,value)", k, 0, rr, -1);
                    if constexpr (front) { T t(783); rr = call([&] { x.resize_front((std::size_t)k, static_cast<const T&>(t)); }); if (k < n) q.erase(q.begin(), q.begin() + (n - k)); else q.insert(q.begin(), (std::size_t)(k - n), 783); }
                    if constexpr (front) {
                        done("resize_front(n,value)", k, 0, rr, -1);
                        // resize() may add at both ends
                        T t(784); rr = call([&] { x.resize((std::size_t)k, static_cast<const T&>(t)); });
                        if (k <= n) q.resize((std::size_t)k); else { int f = 0; while (f < k - n && f < (int)x.size() && x[(std::size_t)f].val == 784) ++f; q.insert(q.begin(), (std::size_t)f, 784); q.resize((std::size_t)k, 784); }
                    }
                    if constexpr (front) done("resize(n,value)", k, 0, rr, -1);
                }
            }
            if (k <= 128 && k <= room + n0) {
                Outcome rr = call([&] { x.assign(iv + 0, iv + k); }); q.assign(iv, iv + k); done("assign(first,last)", k, 0, rr, -1);
                InRange<int> ir{iv, (std::size_t)k, 0}; rr = call([&] { x.assign(InIt<int>{&ir, false, 0}, InIt<int>{&ir, true, (std::size_t)k}); }); q.assign(iv, iv + k); done("assign(input range)", k, 0, rr, -1);
            }
            if constexpr (front) { Outcome rr = call([&] { x.reserve_front((std::size_t)(k)); x.reserve_back((std::size_t)k); }); done("reserve_front/back", k, 0, rr, -1); }
            else if constexpr (has_reserve) { Outcome rr = call([&] { x.reserve((std::size_t)k); }); if (x.capacity() < (std::size_t)k) fail("reserve(%d): capacity() is %zu", k, (std::size_t)x.capacity()); done("reserve", k, 0, rr, -1); }
        }
        if constexpr (fam != STATIC && fam != COMPACT) { Outcome rr = call([&] { x.shrink_to_fit(); }); done("shrink_to_fit", 0, 0, rr, -1); }
        { Outcome rr = call([&] { x.clear(); }); q.clear(); done("clear", 0, 0, rr, -1); }
        for (int m : {2, 3, 7}) { std::size_t cntr = 0; Outcome rr = call([&] { cntr = sfl::erase_if(x, [&](const T& t) { return t.val % m == 0; }); }); auto ne = std::remove_if(q.begin(), q.end(), [&](int v) { return v % m == 0; }); if (cntr != (std::size_t)(q.end() - ne)) fail("erase_if returns %zu in a container of %d elements", cntr, n); q.erase(ne, q.end()); done("erase_if", m, 0, rr, -1); }
        if (!H.slot_on[1]) big2(s, q0, sb, room + n0);
        restore(sn);
    }

    // every call that violates a documented precondition: the assertion must fire
    static void bad_calls(int s)
    {
        C& x = c(s); const C& y = x; const int n = SM[s].n; using CI = typename C::const_iterator; using SZ = std::size_t;
        for (int i = n; i <= n + 1; ++i) { must_abort("operator[](i)", i, n, [&] { (void)x[(SZ)i]; }); must_abort("operator[](i) const", i, n, [&] { (void)y[(SZ)i]; }); }
        must_abort("operator[](-1)", -1, n, [&] { (void)x[(SZ)-1]; }); must_abort("operator[](-1) const", -1, n, [&] { (void)y[(SZ)-1]; });
        for (SZ i : {(SZ)n + 1, (SZ)n + 2, (SZ)-1}) { must_abort("nth(i)", (int)i, n, [&] { (void)x.nth(i); }); must_abort("nth(i) const", (int)i, n, [&] { (void)y.nth(i); }); }
        if (n == 0) {
            must_abort("front() of an empty container", 0, 0, [&] { (void)x.front(); }); must_abort("front() const of an empty container", 0, 0, [&] { (void)y.front(); });
            must_abort("back() of an empty container", 0, 0, [&] { (void)x.back(); }); must_abort("back() const of an empty container", 0, 0, [&] { (void)y.back(); });
            must_abort("pop_back() of an empty container", 0, 0, [&] { x.pop_back(); });
            if constexpr (front) must_abort("pop_front() of an empty container", 0, 0, [&] { x.pop_front(); });
        }
        int lo = 0, hi = n;             // positions that can be formed without leaving the allocated table
        if constexpr (contiguous) { if (y.capacity() > 0) { lo = -1; hi = n + 1; } }
        else if constexpr (fam == SEGV) { if (y.available() >= 2) hi = n + 1; }
        else { if (y.available_back() >= 2) hi = n + 1; if (y.available_front() >= 1) lo = -1; }
        auto P = [&](int i) { CI q = y.cbegin(); q += i; return q; };
        must_abort("erase(end())", n, n, [&] { x.erase(P(n)); });
        for (int f = lo; f <= hi; ++f) for (int l = lo; l <= hi; ++l) if (f < 0 || l > n || f > l) must_abort("erase(first,last) with positions", f, l, [&] { x.erase(P(f), P(l)); });
        for (int q : {lo, hi}) if (q < 0 || q > n) {
            must_abort("index_of(pos)", q, n, [&] { (void)y.index_of(P(q)); });
            must_abort("erase(pos)", q, n, [&] { x.erase(P(q)); });
            if (fam == STATIC && n >= N) continue;
            must_abort("emplace(pos)", q, n, [&] { x.emplace(P(q), 5); });
            must_abort("insert(pos,&&)", q, n, [&] { x.insert(P(q), T(5)); });
            static const int iv[3] = {1, 2, 3};
            for (int k = 0; k <= 1; ++k) must_abort("insert(pos,first,last)", q, k, [&] { x.insert(P(q), iv + 0, iv + k); });
            if constexpr (can_copy) {
                T t(5);
                must_abort("insert(pos,const&)", q, n, [&] { x.insert(P(q), static_cast<const T&>(t)); });
                for (int k = 0; k <= 1; ++k) must_abort("insert(pos,n,value)", q, k, [&] { x.insert(P(q), (SZ)k, static_cast<const T&>(t)); });
                must_abort("insert(pos,input range)", q, n, [&] { InRange<T> r{&t, 1, 0}; x.insert(P(q), InIt<T>{&r, false, 0}, InIt<T>{&r, true, 1}); });
                must_abort("insert(pos,ilist)", q, n, [&] { x.insert(P(q), {t}); });
            }
        }
        if constexpr (fam == STATIC) {
            const int room = N - n; static const int iv[16] = {1, 2, 3, 4, 5, 6, 7, 8, 9}; const int* ip = iv;
            if (room == 0) {
                must_abort("push_back(&&) when full", n, N, [&] { x.push_back(T(5)); }); must_abort("emplace_back when full", n, N, [&] { x.emplace_back(5); });
                for (int p = 0; p <= n; ++p) { must_abort("emplace when full", p, N, [&] { x.emplace(P(p), 5); }); must_abort("insert(pos,&&) when full", p, N, [&] { x.insert(P(p), T(5)); }); }
                if constexpr (can_copy) { T t(5); must_abort("push_back(const&) when full", n, N, [&] { x.push_back(static_cast<const T&>(t)); }); for (int p = 0; p <= n; ++p) must_abort("insert(pos,const&) when full", p, N, [&] { x.insert(P(p), static_cast<const T&>(t)); }); }
            }
            for (int d = 1; d <= 2; ++d) {
                const SZ k = (SZ)(room + d), K = (SZ)(N + d);
                for (int p = 0; p <= n; ++p) {
                    must_abort("insert(pos,first,last) beyond the capacity", p, (int)k, [&] { x.insert(P(p), ip, ip + k); });
                    if constexpr (can_copy) { T t(5); must_abort("insert(pos,n,value) beyond the capacity", p, (int)k, [&] { x.insert(P(p), k, static_cast<const T&>(t)); }); }
                }
                if constexpr (std::is_default_constructible<T>::value) { must_abort("resize(n) beyond the capacity", (int)K, N, [&] { x.resize(K); }); must_abort("resize(n,default_init) beyond the capacity", (int)K, N, [&] { x.resize(K, sfl::default_init_t()); }); }
                must_abort("assign(first,last) beyond the capacity", (int)K, N, [&] { x.assign(ip, ip + K); });
                if constexpr (can_copy) { T t(5); must_abort("resize(n,value) beyond the capacity", (int)K, N, [&] { x.resize(K, t); }); must_abort("assign(n,value) beyond the capacity", (int)K, N, [&] { x.assign(K, t); }); }
                if (!H.slot_on[1 - s]) {
                    void* w = slot(1 - s);
                    auto ct = [&](const char* what, auto f) { must_abort(what, (int)K, N, [&] { H.slot_on[1 - s] = 1; f(); }); };
                    if constexpr (std::is_default_constructible<T>::value) { ct("construct(n) beyond the capacity", [&] { ::new (w) C(K); }); ct("construct(n,default_init) beyond the capacity", [&] { ::new (w) C(K, sfl::default_init_t()); }); }
                    if constexpr (can_copy) { T t(5); ct("construct(n,value) beyond the capacity", [&] { ::new (w) C(K, static_cast<const T&>(t)); }); }
                    ct("construct(first,last) beyond the capacity", [&] { ::new (w) C(ip, ip + K); });
                }
            }
            if constexpr (can_copy) {
                ExtBuf<T, 16> b; for (int i = 0; i < N + 1; ++i) b.add(i + 1);
                auto in = [&](int k, auto f) { InRange<T> r{b.data(), (SZ)k, 0}; f(InIt<T>{&r, false, 0}, InIt<T>{&r, true, (SZ)k}); };
                for (int p = 0; p <= n; ++p) must_abort("insert(pos,input range) beyond the capacity", p, room + 1, [&] { in(room + 1, [&](auto f, auto l) { x.insert(P(p), f, l); }); });
                must_abort("assign(input range) beyond the capacity", N + 1, N, [&] { in(N + 1, [&](auto f, auto l) { x.assign(f, l); }); });
                if (!H.slot_on[1 - s]) must_abort("construct(input range) beyond the capacity", N + 1, N, [&] { H.slot_on[1 - s] = 1; in(N + 1, [&](auto f, auto l) { ::new ((void*)slot(1 - s)) C(f, l); }); });
                if constexpr (N == 3 || N == 4) {
                    std::initializer_list<T> l5{T(1), T(2), T(3), T(4), T(5)};
                    must_abort("operator=(ilist) beyond the capacity", 5, N, [&] { x = l5; }); must_abort("assign(ilist) beyond the capacity", 5, N, [&] { x.assign(l5); }); must_abort("insert(pos,ilist) beyond the capacity", 5, N, [&] { x.insert(P(n), l5); });
                }
            }
        }
    }

    static void compare_all(C& x, C& y)
    {
        // every assignment of {1,2} to the elements of both containers
        int n = (int)x.size(), k = (int)y.size(); if (n > 4 || k > 4) return;
        const C& a = x; const C& b = y;
        for (int p = 0; p < (1 << n); ++p) for (int q = 0; q < (1 << k); ++q) {
            int va[4], vb[4];
            for (int i = 0; i < n; ++i) set_val(x[(std::size_t)i], va[i] = 1 + (p >> i & 1));
            for (int i = 0; i < k; ++i) set_val(y[(std::size_t)i], vb[i] = 1 + (q >> i & 1));
            bool eq = n == k && std::equal(va, va + n, vb), lt = std::lexicographical_compare(va, va + n, vb, vb + k), gt = std::lexicographical_compare(vb, vb + k, va, va + n);
            ReadOnly ro(p == 0 && q == 0);
            if (n != k) { bool t = false; call([&] { t = a == b; }); if (cnt[K_CMP]) fail("complexity: operator== compares elements of containers of different size"); }
            if ((a == b) != eq || (a != b) == eq || (a < b) != lt || (a > b) != gt || (a <= b) == gt || (a >= b) == lt) fail("relational operator gives a wrong result");
            if (!(a == a) || (a != a) || (a < a) || (a > a) || !(a <= a) || !(a >= a)) fail("relational operator wrong on identical containers");
        }
        for (int i = 0; i < n; ++i) { set_val(x[(std::size_t)i], i + 1); SM[0].v[i] = i + 1; }
        for (int i = 0; i < k; ++i) { set_val(y[(std::size_t)i], 1001 + i); SM[1].v[i] = 1001 + i; }
    }
};

} // namespace mc
