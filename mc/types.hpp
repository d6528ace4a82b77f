// Element, allocator, comparator, predicate and iterator types used to drive the containers.
#pragma once
#include "core.hpp"

namespace mc {

// ------------------------------------------------------------------ tracked element kinds
#define MC_EL_BEGIN(NAME, AL)                                                              \
struct alignas(AL) NAME : ElCore {                                                         \
    static constexpr std::size_t SZ = AL > 16 ? AL : 16;                                    \
    static constexpr bool tracked = true;                                                  \
    NAME() { event(K_CTOR); el_born(this, 0, SZ, AL); }                                    \
    NAME(int v) { event(K_CTOR); el_born(this, v, SZ, AL); }                               \
    NAME(int a, int b) { event(K_CTOR); el_born(this, a + b, SZ, AL); }                    \
    ~NAME() { el_died(this, SZ); }
#define MC_EL_COPY(NAME, AL)                                                               \
    NAME(const NAME& o) { event(K_COPY); el_check(&o, "copy from"); i32 v = o.val; el_born(this, v, SZ, AL); } \
    NAME& operator=(const NAME& o) { event(K_CASG); el_check(&o, "copy-assignment from"); el_check(this, "assignment to"); val = o.val; return *this; }
#define MC_EL_NOCOPY(NAME) NAME(const NAME&) = delete; NAME& operator=(const NAME&) = delete;
#define MC_EL_MOVE(NAME, AL, NE, THR)                                                      \
    NAME(NAME&& o) noexcept(NE) { event(K_MOVE, THR); el_check(&o, "move from"); i32 v = o.val; o.val = MOVED; el_born(this, v, SZ, AL); } \
    NAME& operator=(NAME&& o) noexcept(NE) { event(K_MASG, THR); el_check(&o, "move-assignment from"); el_check(this, "assignment to"); \
        i32 v = o.val; if (&o == this) v = MOVED; o.val = MOVED; val = v; return *this; }
#define MC_EL_END(NAME)                                                                    \
    friend bool operator==(const NAME& a, const NAME& b) { event(K_CMP); el_check(&a, "comparison of"); el_check(&b, "comparison of"); return a.val == b.val; } \
    friend bool operator!=(const NAME& a, const NAME& b) { return !(a == b); }             \
    friend bool operator<(const NAME& a, const NAME& b) { event(K_CMP); el_check(&a, "comparison of"); el_check(&b, "comparison of"); return a.val < b.val; } \
    friend bool operator>(const NAME& a, const NAME& b) { return b < a; }                  \
    friend bool operator<=(const NAME& a, const NAME& b) { return !(b < a); }              \
    friend bool operator>=(const NAME& a, const NAME& b) { return !(a < b); }              \
};

// NC: noexcept move + throwing copy.  TC: throwing move + throwing copy.  MO: move-only, noexcept move.
// MT: move-only, throwing move.  CO: copy only (rvalues copied).  OA: over-aligned NC.
MC_EL_BEGIN(NC, 8)  MC_EL_COPY(NC, 8)  MC_EL_MOVE(NC, 8, true, false)  MC_EL_END(NC)
MC_EL_BEGIN(TC, 8)  MC_EL_COPY(TC, 8)  MC_EL_MOVE(TC, 8, false, true)  MC_EL_END(TC)
MC_EL_BEGIN(MO, 8)  MC_EL_NOCOPY(MO)   MC_EL_MOVE(MO, 8, true, false)  MC_EL_END(MO)
MC_EL_BEGIN(MT, 8)  MC_EL_NOCOPY(MT)   MC_EL_MOVE(MT, 8, false, true)  MC_EL_END(MT)
MC_EL_BEGIN(CO, 8)  MC_EL_COPY(CO, 8)  MC_EL_END(CO)
MC_EL_BEGIN(OA, 32) MC_EL_COPY(OA, 32) MC_EL_MOVE(OA, 32, true, false) MC_EL_END(OA)

// A second, distinct element type for mapped values
MC_EL_BEGIN(VNC, 8)  MC_EL_COPY(VNC, 8)  MC_EL_MOVE(VNC, 8, true, false)  MC_EL_END(VNC)
MC_EL_BEGIN(VTC, 8)  MC_EL_COPY(VTC, 8)  MC_EL_MOVE(VTC, 8, false, true)  MC_EL_END(VTC)
MC_EL_BEGIN(VMO, 8)  MC_EL_NOCOPY(VMO)   MC_EL_MOVE(VMO, 8, true, false)  MC_EL_END(VMO)

// TR: trivially copyable, trivially destructible, not tracked.
struct TR {
    static constexpr std::size_t SZ = 4;
    static constexpr bool tracked = false;
    i32 val;
    TR() = default;
    TR(int v) : val(v) { event(K_CTOR, false); }
    TR(int a, int b) : val(a + b) { event(K_CTOR, false); }
    friend bool operator==(const TR& a, const TR& b) { event(K_CMP); return a.val == b.val; }
    friend bool operator!=(const TR& a, const TR& b) { return !(a == b); }
    friend bool operator<(const TR& a, const TR& b) { event(K_CMP); return a.val < b.val; }
    friend bool operator>(const TR& a, const TR& b) { return b < a; }
    friend bool operator<=(const TR& a, const TR& b) { return !(b < a); }
    friend bool operator>=(const TR& a, const TR& b) { return !(a < b); }
};

template <class T> inline i32 val_of(const T& e) { if constexpr (T::tracked) el_check(&e, "container exposes"); return e.val; }
template <class T> inline void set_val(const T& e, i32 v) { const_cast<T&>(e).val = v; }

// ------------------------------------------------------------------ allocators
// Cfg bits
enum : int { A_STATE = 1, A_POCCA = 2, A_POCMA = 4, A_POCS = 8, A_FANCY = 16, A_MAX = 32, A_CONS = 64 };

template <class T> struct FP; // fancy pointer
template <> struct FP<void>;
template <> struct FP<const void>;

template <class T> struct FP {
    using element_type = T; using difference_type = std::ptrdiff_t; using value_type = typename std::remove_cv<T>::type;
    using pointer = FP; using reference = typename std::add_lvalue_reference<T>::type; using iterator_category = std::random_access_iterator_tag;
    template <class U> using rebind = FP<U>;
    T* p;
    FP() noexcept : p(nullptr) {}
    FP(std::nullptr_t) noexcept : p(nullptr) {}
    FP(T* x) noexcept : p(x) {}
    template <class U, typename std::enable_if<std::is_convertible<U*, T*>::value>::type* = nullptr> FP(const FP<U>& o) noexcept : p(o.p) {}
    explicit FP(const FP<void>& o) noexcept;
    reference operator*() const noexcept { return *p; }
    T* operator->() const noexcept { return p; }
    reference operator[](std::ptrdiff_t i) const noexcept { return p[i]; }
    explicit operator bool() const noexcept { return p != nullptr; }
    FP& operator++() noexcept { ++p; return *this; }  FP operator++(int) noexcept { FP t = *this; ++p; return t; }
    FP& operator--() noexcept { --p; return *this; }  FP operator--(int) noexcept { FP t = *this; --p; return t; }
    FP& operator+=(std::ptrdiff_t n) noexcept { p += n; return *this; }
    FP& operator-=(std::ptrdiff_t n) noexcept { p -= n; return *this; }
    FP operator+(std::ptrdiff_t n) const noexcept { return FP(p + n); }
    FP operator-(std::ptrdiff_t n) const noexcept { return FP(p - n); }
    friend FP operator+(std::ptrdiff_t n, const FP& x) noexcept { return FP(x.p + n); }
    friend std::ptrdiff_t operator-(const FP& a, const FP& b) noexcept { return a.p - b.p; }
    static FP pointer_to(T& r) noexcept { return FP(std::addressof(r)); }
    friend bool operator==(const FP& a, const FP& b) noexcept { return a.p == b.p; }
    friend bool operator!=(const FP& a, const FP& b) noexcept { return a.p != b.p; }
    friend bool operator<(const FP& a, const FP& b) noexcept { return a.p < b.p; }
    friend bool operator>(const FP& a, const FP& b) noexcept { return a.p > b.p; }
    friend bool operator<=(const FP& a, const FP& b) noexcept { return a.p <= b.p; }
    friend bool operator>=(const FP& a, const FP& b) noexcept { return a.p >= b.p; }
};
template <class V> struct FPVoid {
    V* p; FPVoid() noexcept : p(nullptr) {} FPVoid(std::nullptr_t) noexcept : p(nullptr) {} explicit FPVoid(V* x) noexcept : p(x) {}
    explicit operator bool() const noexcept { return p != nullptr; }
};
template <> struct FP<void> : FPVoid<void> {
    using element_type = void; using difference_type = std::ptrdiff_t; template <class U> using rebind = FP<U>;
    using FPVoid<void>::FPVoid; FP() = default; template <class U> FP(const FP<U>& o) noexcept : FPVoid<void>((void*)o.p) {}
};
template <> struct FP<const void> : FPVoid<const void> {
    using element_type = const void; using difference_type = std::ptrdiff_t; template <class U> using rebind = FP<U>;
    using FPVoid<const void>::FPVoid; FP() = default; template <class U> FP(const FP<U>& o) noexcept : FPVoid<const void>((const void*)o.p) {}
};
template <class T> inline FP<T>::FP(const FP<void>& o) noexcept : p(static_cast<T*>(o.p)) {}

struct ConsScope { ConsScope() { ++cons_depth; } ~ConsScope() { --cons_depth; } };

template <int Cfg> struct AlState { int id; AlState(int i = 1) noexcept : id(i) {} int get() const { return id; } void set(int i) { id = i; } };
struct AlEmpty { AlEmpty(int = 0) noexcept {} int get() const { return 0; } void set(int) {} };

template <class T, int Cfg>
struct Al : std::conditional<(Cfg & A_STATE) != 0, AlState<Cfg>, AlEmpty>::type
{
    using Base = typename std::conditional<(Cfg & A_STATE) != 0, AlState<Cfg>, AlEmpty>::type;
    using value_type = T;
    using pointer = typename std::conditional<(Cfg & A_FANCY) != 0, FP<T>, T*>::type;
    using size_type = std::size_t; using difference_type = std::ptrdiff_t;
    using propagate_on_container_copy_assignment = std::integral_constant<bool, (Cfg & A_POCCA) != 0>;
    using propagate_on_container_move_assignment = std::integral_constant<bool, (Cfg & A_POCMA) != 0>;
    using propagate_on_container_swap = std::integral_constant<bool, (Cfg & A_POCS) != 0>;
    using is_always_equal = std::integral_constant<bool, (Cfg & A_STATE) == 0>;
    template <class U> struct rebind { using other = Al<U, Cfg>; };

    Al() noexcept : Base(1) {}
    explicit Al(int id) noexcept : Base(id) {}
    Al(const Al& o) noexcept : Base(o) {}
    Al(Al&& o) noexcept : Base(o) {}
    template <class U> Al(const Al<U, Cfg>& o) noexcept : Base(o.get()) {}
    Al& operator=(const Al& o) noexcept { this->set(o.get()); return *this; }
    Al& operator=(Al&& o) noexcept { this->set(o.get()); return *this; }

    static bool eq(int a, int b) { return (Cfg & A_STATE) == 0 || a == b; }
    pointer allocate(std::size_t n)
    {
        event(K_ALLOC);
        if ((Cfg & A_MAX) && n > max_size()) fail("allocate(%zu) requests more than max_size()", n);
        T* p = (T*)arena_alloc(n, sizeof(T), alignof(T), this->get());
        return pointer(p);
    }
    void deallocate(pointer p, std::size_t n)
    {
        ++n_dealloc;
        arena_free((void*)raw(p), n, sizeof(T), this->get(), &eq);
    }
    static T* raw(T* p) { return p; }
    static T* raw(const FP<T>& p) { return p.p; }
    std::size_t max_size() const noexcept { return (Cfg & A_MAX) && sizeof(T) != 8 && sizeof(T) != sizeof(void*) ? H.maxsz : (1u << 20); }
    Al select_on_container_copy_construction() const { return (Cfg & A_STATE) && this->get() < 10 ? Al(this->get() + 10) : *this; }
    template <class U, class... Args> void construct(U* p, Args&&... args) { ConsScope sc; ::new ((void*)p) U(std::forward<Args>(args)...); }
    template <class U> void destroy(U* p) { ConsScope sc; p->~U(); }
    template <class U> friend bool operator==(const Al& a, const Al<U, Cfg>& b) noexcept { return eq(a.get(), b.get()); }
    template <class U> friend bool operator!=(const Al& a, const Al<U, Cfg>& b) noexcept { return !eq(a.get(), b.get()); }
};

// ------------------------------------------------------------------ source iterators
// Single-pass input iterator (whose references would let a library move from the source), checking the single-pass protocol.
template <class E> struct InRange { E* a; std::size_t n, cur; };
template <class E> struct InIt {
    using iterator_category = std::input_iterator_tag; using value_type = E; using difference_type = std::ptrdiff_t; using pointer = E*; using reference = E&;
    InRange<E>* r; bool end; std::size_t pos;
    void chk(const char* w) const { if (end || pos != r->cur) fail("input iterator %s after it was invalidated by ++", w); if (pos >= r->n) fail("input iterator %s at the end of the range", w); }
    reference operator*() const { chk("dereferenced"); event(K_ITER); return r->a[pos]; }
    pointer operator->() const { chk("dereferenced"); return r->a + pos; }
    InIt& operator++() { chk("incremented"); event(K_ITER); ++pos; r->cur = pos; return *this; }
    struct Proxy { E* e; E& operator*() const { return *e; } };
    Proxy operator++(int) { chk("incremented"); Proxy p{r->a + pos}; ++pos; r->cur = pos; return p; }
    bool done() const { return end || pos >= r->n; }
    friend bool operator==(const InIt& x, const InIt& y) { return x.done() == y.done(); }
    friend bool operator!=(const InIt& x, const InIt& y) { return !(x == y); }
};

// Multi-pass iterators of a given category, with bounds checks; E may be const.
template <class E, class Cat> struct RgIt {
    using iterator_category = Cat; using value_type = typename std::remove_const<E>::type; using difference_type = std::ptrdiff_t; using pointer = E*; using reference = E&;
    E* b; E* e; E* p;
    reference operator*() const { if (p < b || p >= e) fail("source iterator dereferenced out of its range"); event(K_ITER); return *p; }
    pointer operator->() const { return &**this; }
    RgIt& operator++() { if (p >= e) fail("source iterator incremented past the end"); event(K_ITER); ++p; return *this; }
    RgIt operator++(int) { RgIt t = *this; ++*this; return t; }
    friend bool operator==(const RgIt& x, const RgIt& y) { return x.p == y.p; }
    friend bool operator!=(const RgIt& x, const RgIt& y) { return x.p != y.p; }
    // bidirectional and random access (only used by code that checked the category)
    RgIt& operator--() { static_assert(std::is_convertible<Cat, std::bidirectional_iterator_tag>::value, "needs bidirectional"); if (p <= b) fail("source iterator decremented past the beginning"); --p; return *this; }
    RgIt operator--(int) { RgIt t = *this; --*this; return t; }
#define MC_RA static_assert(std::is_convertible<Cat, std::random_access_iterator_tag>::value, "needs random access")
    RgIt& operator+=(std::ptrdiff_t n) { MC_RA; p += n; if (p < b || p > e) fail("source iterator moved out of its range"); return *this; }
    RgIt& operator-=(std::ptrdiff_t n) { return *this += -n; }
    friend RgIt operator+(RgIt x, std::ptrdiff_t n) { MC_RA; x += n; return x; }
    friend RgIt operator+(std::ptrdiff_t n, RgIt x) { MC_RA; x += n; return x; }
    friend RgIt operator-(RgIt x, std::ptrdiff_t n) { MC_RA; x -= n; return x; }
    friend std::ptrdiff_t operator-(const RgIt& x, const RgIt& y) { MC_RA; return x.p - y.p; }
    reference operator[](std::ptrdiff_t n) const { MC_RA; return *(*this + n); }
    friend bool operator<(const RgIt& x, const RgIt& y) { return x.p < y.p; }
    friend bool operator>(const RgIt& x, const RgIt& y) { return x.p > y.p; }
    friend bool operator<=(const RgIt& x, const RgIt& y) { return x.p <= y.p; }
    friend bool operator>=(const RgIt& x, const RgIt& y) { return x.p >= y.p; }
};

// Random access iterator over a huge (virtual) range: every position refers to the same element.
template <class E> struct GIt {
    using iterator_category = std::random_access_iterator_tag; using value_type = E; using difference_type = std::ptrdiff_t; using pointer = const E*; using reference = const E&;
    const E* e; std::ptrdiff_t i;
    reference operator*() const { return *e; } pointer operator->() const { return e; } reference operator[](std::ptrdiff_t) const { return *e; }
    GIt& operator++() { ++i; return *this; } GIt operator++(int) { GIt t = *this; ++i; return t; }
    GIt& operator--() { --i; return *this; } GIt operator--(int) { GIt t = *this; --i; return t; }
    GIt& operator+=(std::ptrdiff_t n) { i += n; return *this; } GIt& operator-=(std::ptrdiff_t n) { i -= n; return *this; }
    friend GIt operator+(GIt x, std::ptrdiff_t n) { x.i += n; return x; } friend GIt operator+(std::ptrdiff_t n, GIt x) { x.i += n; return x; }
    friend GIt operator-(GIt x, std::ptrdiff_t n) { x.i -= n; return x; } friend std::ptrdiff_t operator-(const GIt& x, const GIt& y) { return x.i - y.i; }
    friend bool operator==(const GIt& x, const GIt& y) { return x.i == y.i; } friend bool operator!=(const GIt& x, const GIt& y) { return x.i != y.i; }
    friend bool operator<(const GIt& x, const GIt& y) { return x.i < y.i; } friend bool operator>(const GIt& x, const GIt& y) { return x.i > y.i; }
    friend bool operator<=(const GIt& x, const GIt& y) { return x.i <= y.i; } friend bool operator>=(const GIt& x, const GIt& y) { return x.i >= y.i; }
};
// Counts far beyond every max_size(), among them those that overflow when n, or the free space, is added to them.
inline std::size_t huge_count(int i, std::size_t n, std::size_t cap, std::size_t esz, std::size_t max)
{
    const std::size_t M = ~(std::size_t)0;
    switch (i) {
    case 0: return M; case 1: return M - 1; case 2: return M - n; case 3: return M - n + (n > 0); case 4: return n > 1 ? M - n + 2 : M - 2; case 5: return M - cap; case 6: return cap > n ? M - (cap - n) : M / 3;
    case 7: return M / 2; case 8: return M / 2 + 1; case 9: return M / esz + 1; case 10: return M / 2 / esz + 1; case 11: return (std::size_t)1 << 32; case 12: return ((std::size_t)1 << 32) + 1; case 13: return (std::size_t)1 << 31;
    case 14: return M / 3 * 2; case 15: return 2 * max + 64; default: return max + 1;
    }
}
constexpr int HUGE_COUNTS = 17;

// Storage for harness-owned elements outside the arena, without construction events.
template <class E, int CAP = 16> struct ExtBuf {
    alignas(E) char b[sizeof(E) * CAP]; int n = 0;
    E* data() { return (E*)b; }
    E& operator[](int i) { return data()[i]; }
    template <class... A> E& add(A&&... a) { if (n >= CAP) { fprintf(stderr, "harness: ExtBuf full\n"); abort(); } E* p = new ((void*)(data() + n)) E(std::forward<A>(a)...); ++n; return *p; }
    ~ExtBuf() { for (int i = 0; i < n; ++i) data()[i].~E(); }
    ExtBuf() = default; ExtBuf(const ExtBuf&) = delete;
};

} // namespace mc
