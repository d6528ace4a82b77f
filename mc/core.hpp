// Core of the explicit-state explorer: arena, allocation table, tracked elements,
// fault points, snapshots, canonical memory graphs, failure reporting.
// One process = one driver configuration; everything is single threaded and deterministic.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <new>
#include <set>
#include <string>
#include <vector>
#include <array>
#include <unordered_map>
#include <unordered_set>
#include <stdexcept>
#include <initializer_list>
#include <iterator>
#include <functional>
#include <memory>
#include <type_traits>
#include <utility>
#include <limits>
#include <algorithm>
#include <csignal>
#include <csetjmp>
#include <unistd.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/mman.h>

#ifdef MC_NOEXC
  #define MC_TRY if (true)
  #define MC_CATCH(x) if (false)
#else
  #define MC_TRY try
  #define MC_CATCH(x) catch (x)
#endif

namespace mc {

using u8 = std::uint8_t; using u16 = std::uint16_t; using u32 = std::uint32_t; using u64 = std::uint64_t;
using i8 = std::int8_t; using i16 = std::int16_t; using i32 = std::int32_t; using i64 = std::int64_t;

constexpr std::size_t ARENA = 1u << 20;
constexpr int MAXA = 1024;
constexpr std::size_t RZ = 32;
constexpr int NSLOT = 3;
constexpr u32 LIVE = 0x11FE11FEu;
constexpr u8 POISON = 0xDD, REDZ = 0xFB;
constexpr i32 MOVED = -7777;

struct AllocRec { u32 off, bytes, n, esz; i16 aid; u8 st; };  // st: 1 live, 2 freed during this operation

// Everything a snapshot must carry, except the arena bytes themselves.
struct Hdr {
    u32 na, high;
    i32 live_arena, live_ext;
    u8 slot_on[NSLOT];
    i32 fresh;
    u32 maxsz;              // max_size() reported by small-max allocators
};

alignas(4096) inline char arena[ARENA];
inline volatile int ro_mode = 0;    // container memory is write-protected while operations that must not modify it run
inline AllocRec recs[MAXA];
inline Hdr H;
inline u32 slot_off[NSLOT], slot_sz[NSLOT], heap0;
inline char* model_mem = nullptr; inline std::size_t model_sz = 0;   // driver's model, part of the state

// ------------------------------------------------------------------ reporting
inline std::string prop = "?", driver_name = "?", out_path, cfg_name = "?";
inline int g_probe = 0;   // > 0: continuing beyond the explored bounds with a fixed series of operations
inline std::function<std::string()> describe_trail;   // human readable
inline std::function<std::string()> encode_trail;     // machine readable, for --replay
inline volatile bool in_fail = false;
inline u64 g_seq = 0;      // transition sequence number, for the watchdog

[[noreturn]] inline void fail_s(const std::string& msg)
{
    if (in_fail) _exit(12);
    in_fail = true;
    std::string d, e;
    if (describe_trail) d = describe_trail();
    if (g_probe) d += "  then the fixed series of operations that continues from this state, step " + std::to_string(g_probe) + "\n";
    if (encode_trail) e = encode_trail();
    std::string o = "property: " + prop + "\ndriver: " + driver_name + "\nconfig: " + cfg_name + "\nviolation: " + msg
        + "\ntrail:\n" + d + "\nreplay: " + e + "\n";
    if (!out_path.empty()) {
        FILE* f = fopen(out_path.c_str(), "w");
        if (f) { fwrite(o.data(), 1, o.size(), f); fclose(f); }
    }
    fprintf(stdout, "FAIL %s\n", o.c_str());
    fflush(stdout);
    _exit(10);
}

// a violation that is listed as an open finding (KNOWN_FINDINGS.jsonl) and was seen in this run
inline std::string known_list; inline std::set<std::string> known_hit;
inline bool known(const char* id) { if (("," + known_list + ",").find(std::string(",") + id + ",") == std::string::npos) return false; known_hit.insert(id); return true; }

[[noreturn]] __attribute__((format(printf,1,2))) inline void fail(const char* fmt, ...)
{
    char b[1024]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    fail_s(b);
}

// Abort interception (assertion checks, SFL_NO_EXCEPTIONS)
inline volatile bool expect_abort = false;
inline sigjmp_buf abort_jmp;

inline void on_signal(int sig)
{
    if (sig == SIGABRT && expect_abort) { expect_abort = false; siglongjmp(abort_jmp, 1); }
    if (sig == SIGVTALRM) {
        static u64 last = ~0ull; static int same = 0;
        if (last == g_seq) { if (++same >= 4) fail("operation does not terminate (no progress in 20s of CPU time)"); }
        else { same = 0; last = g_seq; }
        return;
    }
    if (ro_mode && (sig == SIGSEGV || sig == SIGBUS)) { ro_mode = 0; mprotect(arena, ARENA, PROT_READ | PROT_WRITE); fail("a const operation (or a read-only one: begin, end, find, operator[], comparison) wrote to the memory of the container"); }
    const char* n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT (assert / terminate / abort)" : sig == SIGFPE ? "SIGFPE" : sig == SIGBUS ? "SIGBUS" : "SIGILL";
    fail("crash: signal %s during the operation", n);
}

// Scope in which every write to container memory (objects and allocations) traps.
struct ReadOnly {
    bool on;
    explicit ReadOnly(bool on_ = true) : on(on_) { if (!on) return; mprotect(arena, ARENA, PROT_READ); ro_mode = 1; }
    ~ReadOnly() { if (!on) return; ro_mode = 0; mprotect(arena, ARENA, PROT_READ | PROT_WRITE); }
};

inline void install_signals()
{
    static char alt[1 << 16];
    stack_t ss; ss.ss_sp = alt; ss.ss_size = sizeof alt; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGVTALRM}) sigaction(s, &sa, nullptr);
    struct itimerval it; it.it_interval.tv_sec = 5; it.it_interval.tv_usec = 0; it.it_value = it.it_interval;
    setitimer(ITIMER_VIRTUAL, &it, nullptr);
}

// ------------------------------------------------------------------ fault points
enum Kind : u8 { K_ALLOC, K_CTOR, K_COPY, K_MOVE, K_CASG, K_MASG, K_CMP, K_PRED, K_ITER, K_CMPCP, K_N, K_DTOR = K_N };
struct Fault { int kind; u32 idx; };
inline const char* kind_name(int k) { static const char* n[] = {"alloc","ctor","copy-ctor","move-ctor","copy-assign","move-assign","compare","predicate","iterator","comparator-copy"}; return n[k]; }

inline bool in_call = false;            // inside a call into the container under test
inline u64 fp_count, fp_t1, fp_t2;      // events seen in this call; events at which to throw (0: never)
inline u64 cnt[K_N + 2];                // per-kind counters of the current call
inline u64 n_dealloc;
inline int fault_kind_hit;
inline u8 fp_kind_log[4096];
inline bool nofault_mode = false, nofault_next = false;   // nofault_next: calls made by read-only observation are not faulted

inline void event(int k, bool may_throw = true)
{
    if (!in_call) return;
    ++cnt[k];
    if (!may_throw) return;
    ++fp_count;
    if (nofault_mode) return;
    if (fp_count < 4096) fp_kind_log[fp_count] = (u8)k;
    if (fp_count > 3000000) fail("operation performs more than 3000000 element operations (divergence)");
#ifndef MC_NOEXC
    if (fp_count == fp_t1 || fp_count == fp_t2) { fault_kind_hit |= 1 << k; throw Fault{k, (u32)fp_count}; }
#endif
}

// ------------------------------------------------------------------ address classification
inline bool in_arena(const void* p) { return (const char*)p >= arena && (const char*)p < arena + ARENA; }
inline u32 aoff(const void* p) { return (u32)((const char*)p - arena); }
inline int slot_of(const void* p, std::size_t sz = 1)
{
    if (!in_arena(p)) return -1;
    u32 o = aoff(p);
    for (int i = 0; i < NSLOT; ++i) if (o >= slot_off[i] && o + sz <= slot_off[i] + slot_sz[i]) return i;
    return -1;
}
inline int find_rec(u32 off) // record whose block contains off (or one past)
{
    int lo = 0, hi = (int)H.na - 1;
    while (lo <= hi) { int m = (lo + hi) / 2; if (recs[m].off > off) hi = m - 1; else if (off > recs[m].off + recs[m].bytes) lo = m + 1; else return m; }
    return -1;
}

inline void check_place(const void* p, std::size_t sz, std::size_t al, const char* what)
{
    if ((std::uintptr_t)p % al) fail("%s at misaligned address (alignment %zu required)", what, al);
    if (!in_arena(p)) return;
    int s = slot_of(p, sz);
    if (s >= 0) { if (!H.slot_on[s]) fail("%s inside the storage of a container that is not alive", what); return; }
    u32 o = aoff(p); int r = find_rec(o);
    if (r < 0 || recs[r].st != 1 || o + sz > recs[r].off + recs[r].bytes)
        fail("%s outside of any live allocation", what);
}

// ------------------------------------------------------------------ tracked element core
struct ElCore { const void* self; i32 val; u32 magic; };
inline bool cons_required = false; inline int cons_depth = 0;   // elements in container storage are created and destroyed only through the allocator

__attribute__((noinline)) inline void el_born(ElCore* e, i32 v, std::size_t sz, std::size_t al)
{
    check_place(e, sz, al, "element constructed");
    if (in_arena(e)) {
        if (cons_required && !cons_depth) fail("element in container storage constructed without the construct() of the allocator");
        if (e->magic == LIVE && e->self == e) fail("element constructed on top of a live element (leak)");
        ++H.live_arena;
    } else ++H.live_ext;
    e->self = e; e->val = v; e->magic = LIVE;
    asm volatile("" ::: "memory");
}
__attribute__((noinline)) inline void el_check(const ElCore* e, const char* what)
{
    if (e->magic != LIVE || e->self != e) fail("%s an element that is not alive", what);
}
__attribute__((noinline)) inline void el_died(ElCore* e, std::size_t sz)
{
    el_check(e, "destruction of"); if (in_call) ++cnt[K_DTOR];
    if (cons_required && !cons_depth && in_arena(e)) fail("element in container storage destroyed without the destroy() of the allocator");
    if (in_arena(e)) { --H.live_arena; if (H.live_arena < 0) fail("more destructions than constructions"); } else --H.live_ext;
    memset((void*)e, POISON, sz);
    asm volatile("" ::: "memory");
}

// ------------------------------------------------------------------ arena allocator
inline u32 align_up(u32 x, u32 a) { return (x + a - 1) / a * a; }

inline void* arena_alloc(std::size_t n, std::size_t esz, std::size_t al, int aid)
{
    if (n > ARENA / esz) { fail("allocation request of %zu elements is absurd", n); }
    u32 bytes = (u32)(n * esz);
    if (H.na >= MAXA) fail("harness: allocation table full");
    u32 pos = heap0; int ins = 0;
    u32 a = al < 16 ? 16 : (u32)al;
    for (;; ++ins) {
        u32 d = align_up(pos + RZ, a);
        u32 lim = ins < (int)H.na ? recs[ins].off - RZ : (u32)ARENA;
        if (d + bytes + RZ <= lim) {
            memmove(recs + ins + 1, recs + ins, sizeof(AllocRec) * (H.na - ins));
            ++H.na;
            recs[ins] = AllocRec{d, bytes, (u32)n, (u32)esz, (i16)aid, 1};
            memset(arena + d - RZ, REDZ, RZ); memset(arena + d, POISON, bytes); memset(arena + d + bytes, REDZ, RZ);
            if (d + bytes + RZ > H.high) H.high = d + bytes + RZ;
            return arena + d;
        }
        if (ins >= (int)H.na) fail("harness: arena exhausted");
        pos = recs[ins].off + recs[ins].bytes + RZ;
    }
}

inline void arena_free(void* p, std::size_t n, std::size_t esz, int aid, bool (*eq)(int, int))
{
    if (!in_arena(p)) fail("deallocate() called with a pointer that was never allocated");
    int r = find_rec(aoff(p));
    if (r >= 0 && recs[r].off != aoff(p)) r = -1;
    if (r < 0) fail("deallocate() called with a pointer that is not the start of an allocation");
    AllocRec& R = recs[r];
    if (R.st != 1) fail("double deallocation");
    if (R.esz != esz) fail("deallocate() with a different element type than allocate()");
    if (R.n != n) fail("deallocate(p, %zu) of a block allocated with n == %u", n, R.n);
    if (!eq(R.aid, aid)) fail("deallocation through an allocator (id %d) not equal to the one that allocated (id %d)", aid, (int)R.aid);
    for (u32 o = R.off; o + 16 <= R.off + R.bytes; o += 8) {
        ElCore* e = (ElCore*)(arena + o);
        if (e->magic == LIVE && e->self == e) fail("storage deallocated while it still contains live elements");
    }
    memset(arena + R.off, POISON, R.bytes);
    R.st = 2;
}

static const struct RedzRef { u8 b[RZ]; RedzRef() { memset(b, REDZ, RZ); } const u8* p() const { return b; } } redz_obj;
#define redz_ref redz_obj.p()
// Between operations: red zones intact, freed memory untouched, forget freed blocks.
inline void settle()
{
    u32 k = 0;
    for (u32 i = 0; i < H.na; ++i) {
        AllocRec& R = recs[i];
        if (memcmp(arena + R.off - RZ, redz_ref, RZ)) fail("write before the start of an allocation");
        if (memcmp(arena + R.off + R.bytes, redz_ref, RZ)) fail("write past the end of an allocation");
        if (R.st == 2) {
            for (u32 j = 0; j < R.bytes; ++j) if ((u8)arena[R.off + j] != POISON) fail("write to deallocated memory");
        } else recs[k++] = R;
    }
    H.na = k;
    H.high = k ? recs[k-1].off + recs[k-1].bytes + (u32)RZ : heap0;
    for (int s = 0; s < NSLOT; ++s) {
        if (memcmp(arena + slot_off[s] - RZ, redz_ref, RZ) || memcmp(arena + slot_off[s] + slot_sz[s], redz_ref, RZ)) fail("write outside of the container object");
    }
}

inline void init_world(std::size_t objsz, std::size_t objal)
{
    u32 p = 64;
    for (int s = 0; s < NSLOT; ++s) {
        p = align_up(p + RZ, objal < 16 ? 16 : (u32)objal);
        // offset by objal when possible so that accidental over-alignment is not granted
        if (objal < 64) { if ((p / objal) % 2 == 0) p += (u32)objal; }
        memset(arena + p - RZ, REDZ, RZ);
        slot_off[s] = p; slot_sz[s] = (u32)objsz;
        memset(arena + p, POISON, objsz);
        memset(arena + p + objsz, REDZ, RZ);
        p += (u32)objsz + RZ;
    }
    heap0 = align_up(p + 64, 64);
    memset(&H, 0, sizeof H);
    H.high = heap0; H.fresh = 100; H.maxsz = 1u << 20;
}
inline char* slot(int s) { return arena + slot_off[s]; }

struct Snap { std::vector<char> b; };
inline void save(Snap& s)
{
    std::size_t n = sizeof(Hdr) + sizeof(AllocRec) * H.na + model_sz + H.high;
    s.b.resize(n); char* p = s.b.data();
    memcpy(p, &H, sizeof H); p += sizeof H;
    memcpy(p, recs, sizeof(AllocRec) * H.na); p += sizeof(AllocRec) * H.na;
    if (model_sz) memcpy(p, model_mem, model_sz);
    p += model_sz;
    memcpy(p, arena, H.high);
    asm volatile("" ::: "memory");
}
inline void restore(const Snap& s)
{
    const char* p = s.b.data();
    memcpy(&H, p, sizeof H); p += sizeof H;
    memcpy(recs, p, sizeof(AllocRec) * H.na); p += sizeof(AllocRec) * H.na;
    if (model_sz) memcpy(model_mem, p, model_sz);
    p += model_sz;
    memcpy(arena, p, H.high);
    asm volatile("" ::: "memory");
}

// ------------------------------------------------------------------ canonical memory graph
// Object bytes word by word: pointers become (allocation discovery index, offset) or
// (own object, offset); live tracked elements become their canonical value as given by
// elval(); everything else is kept verbatim.  Reachable allocations are walked the same way.
template <class F>
inline void canon_graph(char* base, std::size_t size, std::size_t elsz, std::string& out, F elval, u32* reached = nullptr)
{
    std::vector<int> q; int seen[MAXA]; int nseen = 0;
    for (u32 i = 0; i < H.na; ++i) seen[i] = -1;
    auto put = [&](u64 x) { out.append((const char*)&x, 8); };
    auto walk = [&](char* b, std::size_t n) {
        std::size_t i = 0;
        while (i + 8 <= n) {
            u64 w; memcpy(&w, b + i, 8);
            if (w == (u64)(std::uintptr_t)(b + i) && i + 16 <= n && ((ElCore*)(b + i))->magic == LIVE) {
                put(0xE1E1E1E100000000ull ^ (u64)(u32)elval((ElCore*)(b + i)));
                i += elsz; continue;
            }
            const char* p = (const char*)(std::uintptr_t)w;
            if (in_arena(p)) {
                if (p >= base && p <= base + size) put(0x5E1F000000000000ull | (u64)(p - base));
                else {
                    u32 o = aoff(p); int r = o >= heap0 ? find_rec(o) : -1;
                    if (r >= 0 && recs[r].st == 1) {
                        if (seen[r] < 0) { seen[r] = nseen++; q.push_back(r); }
                        put(0xA110000000000000ull | ((u64)seen[r] << 24) | (o - recs[r].off));
                    } else put(0xDDDDDDDDDDDDDDDDull); // stale pointer: same as uninitialised memory
                }
            } else put(w);
            i += 8;
        }
        for (; i < n; ++i) out.push_back(b[i]);
    };
    walk(base, size);
    for (std::size_t k = 0; k < q.size(); ++k) {
        put(0xFFFF000000000000ull | recs[q[k]].bytes);
        walk(arena + recs[q[k]].off, recs[q[k]].bytes);
    }
    if (reached) *reached = (u32)q.size();
}

inline u64 hash_str(const std::string& s, u64 h = 0xcbf29ce484222325ull)
{
    const unsigned char* p = (const unsigned char*)s.data(); std::size_t n = s.size();
    while (n >= 8) { u64 w; memcpy(&w, p, 8); h = (h ^ w) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; p += 8; n -= 8; }
    while (n--) { h = (h ^ *p++) * 0x100000001b3ull; }
    h ^= h >> 32; h *= 0xd6e8feb86659fd93ull; h ^= h >> 32;
    return h;
}

// ------------------------------------------------------------------ guarded call into the container
enum Outcome : u8 { OK, FAULTED, LEN, OOR, OTHER };
inline const char* outcome_name(int o) { static const char* n[] = {"ok","injected fault","length_error","out_of_range","other exception"}; return n[o]; }

struct CallScope {
    CallScope() { in_call = true; nofault_mode = nofault_next; fp_count = 0; memset(cnt, 0, sizeof cnt); n_dealloc = 0; fault_kind_hit = 0; }
    ~CallScope() { in_call = false; }
};

template <class F> inline bool aborts(F&& f);
inline bool g_aborted = false;      // the call ended in std::abort(): without exceptions, errors abort; the state is not looked at any more

template <class F>
inline Outcome call(F&& f)
{
    CallScope cs;
#ifdef MC_NOEXC
    if (aborts(f)) { g_aborted = true; return LEN; }
    return OK;
#else
    try { f(); return OK; }
    catch (const Fault&) { return FAULTED; }
    catch (const std::length_error&) { return LEN; }
    catch (const std::out_of_range&) { return OOR; }
    catch (...) { return OTHER; }
#endif
}

// Runs f expecting std::abort / assert; true if it aborted.
template <class F>
inline bool aborts(F&& f)
{
    if (sigsetjmp(abort_jmp, 1) == 0) { expect_abort = true; f(); expect_abort = false; return false; }
    in_call = false; cons_depth = 0;
    return true;
}

// A call that violates a documented precondition: an assertion must stop it.  The world is put back afterwards.
inline u64 n_must_abort;
template <class F>
inline void must_abort(const char* what, int a, int b, F&& f)
{
    static Snap sn; save(sn); ++n_must_abort;
    fp_t1 = fp_t2 = 0;
    MC_TRY { if (!aborts(f)) fail("%s (%d,%d) violates a documented precondition, but no assertion fires in debug mode", what, a, b); }
    MC_CATCH (...) { fail("%s (%d,%d) violates a documented precondition, but it throws instead of firing an assertion", what, a, b); }
    restore(sn);
}

} // namespace mc

// Failing assertions (SFL_ASSERT is assert) end here instead of in libc.
extern "C" [[noreturn]] __attribute__((used)) void __assert_fail(const char* expr, const char* file, unsigned line, const char*) noexcept
{
    if (mc::expect_abort) { mc::expect_abort = false; siglongjmp(mc::abort_jmp, 1); }
    const char* b = strrchr(file, '/');
    mc::fail("assertion failed: %s (%s:%u) although every precondition holds", expr, b ? b + 1 : file, line);
}
