// Own runtime for -fsanitize=thread code generation (compiled with it, linked without libtsan):
// every plain write of instrumented code is looked at, and reported if it hits storage with static
// duration that belongs to the library while a container operation runs.  Together with the write
// protection of container memory during observing operations this decides data-race freedom of
// concurrent observers and of operations on distinct containers: operations without common written
// memory are independent, so every schedule is equivalent to the sequential one that was explored.
#pragma once
#include "core.hpp"
#include <elf.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <string>

#define MC_NOSAN __attribute__((no_sanitize("thread")))
namespace mc {
struct StaticRange { char* b; std::size_t n; std::string name; std::string shadow; };
inline std::vector<StaticRange>* lib_static;
inline char* ls_lo = (char*)-1; inline char* ls_hi = nullptr;
inline int guard_depth = 0;
inline u64 n_writes_seen, n_lib_static;

// library-owned objects with static storage duration, from the symbol table of this (non-PIE) executable
MC_NOSAN inline void find_lib_statics()
{
    lib_static = new std::vector<StaticRange>;
    int fd = open("/proc/self/exe", O_RDONLY); struct stat sb; if (fd < 0 || fstat(fd, &sb)) fail("harness: cannot read own symbols");
    char* f = (char*)mmap(nullptr, (std::size_t)sb.st_size, PROT_READ, MAP_PRIVATE, fd, 0); close(fd);
    auto* eh = (Elf64_Ehdr*)f; auto* sh = (Elf64_Shdr*)(f + eh->e_shoff); bool any = false;
    for (int i = 0; i < eh->e_shnum; ++i) if (sh[i].sh_type == SHT_SYMTAB) {
        auto* sy = (Elf64_Sym*)(f + sh[i].sh_offset); const char* st = f + sh[sh[i].sh_link].sh_offset; any = true;
        for (std::size_t k = 0; k < sh[i].sh_size / sizeof(Elf64_Sym); ++k) {
            if (ELF64_ST_TYPE(sy[k].st_info) != STT_OBJECT || sy[k].st_shndx == SHN_UNDEF || sy[k].st_shndx >= eh->e_shnum || !(sh[sy[k].st_shndx].sh_flags & SHF_WRITE)) continue;
            const char* n = st + sy[k].st_name;
            if (strncmp(n, "_ZZN3sfl", 8) && strncmp(n, "_ZZNK3sfl", 9) && strncmp(n, "_ZN3sfl", 7) && strncmp(n, "_ZL", 3)) continue;
            if (!strncmp(n, "_ZTV", 4)) continue;
            StaticRange r; r.b = (char*)sy[k].st_value; r.n = sy[k].st_size; r.name = n; r.shadow.assign(r.b, r.n);
            if (r.b < ls_lo) ls_lo = r.b;
            if (r.b + r.n > ls_hi) ls_hi = r.b + r.n;
            lib_static->push_back(r);
        }
    }
    if (!any) fail("harness: executable without symbol table");
    n_lib_static = lib_static->size();
    munmap(f, (std::size_t)sb.st_size);
}
MC_NOSAN inline void lib_static_hit(char* p, std::size_t n)
{
    for (auto& r : *lib_static) if (p < r.b + r.n && p + n > r.b) { guard_depth = 1; fail("an operation writes to the variable '%s' with static storage duration, shared by all containers (data race when containers are used in different threads)", r.name.c_str()); }
}
MC_NOSAN inline void on_write(void* p, std::size_t n)
{
    ++n_writes_seen;
    if ((char*)p < ls_hi && (char*)p + n > ls_lo && !guard_depth && !in_fail) lib_static_hit((char*)p, n);
}
// writes that the instrumentation does not see (memcpy and the like)
MC_NOSAN inline void check_lib_statics()
{
    for (auto& r : *lib_static) if (memcmp(r.b, r.shadow.data(), r.n)) { if (r.name.compare(0, 3, "_ZZ") == 0 && r.shadow.find_first_not_of('\0') == std::string::npos && guard_depth < 0) continue; fail("an operation changed the variable '%s' with static storage duration, shared by all containers", r.name.c_str()); }
}
} // namespace mc

extern "C" {
MC_NOSAN __attribute__((used)) void __tsan_init() {}
MC_NOSAN __attribute__((used)) void __tsan_func_entry(void*) {}
MC_NOSAN __attribute__((used)) void __tsan_func_exit() {}
MC_NOSAN __attribute__((used)) void __tsan_vptr_update(void** p, void*) { mc::on_write(p, 8); }
MC_NOSAN __attribute__((used)) void __tsan_vptr_read(void**) {}
#define MC_RW(N) \
MC_NOSAN __attribute__((used)) void __tsan_read##N(void*) {} \
MC_NOSAN __attribute__((used)) void __tsan_unaligned_read##N(void*) {} \
MC_NOSAN __attribute__((used)) void __tsan_write##N(void* p) { mc::on_write(p, N); } \
MC_NOSAN __attribute__((used)) void __tsan_unaligned_write##N(void* p) { mc::on_write(p, N); }
MC_RW(1) MC_RW(2) MC_RW(4) MC_RW(8) MC_RW(16)
MC_NOSAN __attribute__((used)) void __tsan_read_range(void*, unsigned long) {}
MC_NOSAN __attribute__((used)) void __tsan_write_range(void* p, unsigned long n) { mc::on_write(p, n); }
#define MC_AT(N, T) \
MC_NOSAN __attribute__((used)) T __tsan_atomic##N##_load(const volatile T* p, int) { return __atomic_load_n(p, 5); } \
MC_NOSAN __attribute__((used)) void __tsan_atomic##N##_store(volatile T* p, T v, int) { __atomic_store_n(p, v, 5); } \
MC_NOSAN __attribute__((used)) T __tsan_atomic##N##_exchange(volatile T* p, T v, int) { return __atomic_exchange_n(p, v, 5); } \
MC_NOSAN __attribute__((used)) T __tsan_atomic##N##_fetch_add(volatile T* p, T v, int) { return __atomic_fetch_add(p, v, 5); } \
MC_NOSAN __attribute__((used)) T __tsan_atomic##N##_fetch_sub(volatile T* p, T v, int) { return __atomic_fetch_sub(p, v, 5); } \
MC_NOSAN __attribute__((used)) T __tsan_atomic##N##_fetch_and(volatile T* p, T v, int) { return __atomic_fetch_and(p, v, 5); } \
MC_NOSAN __attribute__((used)) T __tsan_atomic##N##_fetch_or(volatile T* p, T v, int) { return __atomic_fetch_or(p, v, 5); } \
MC_NOSAN __attribute__((used)) T __tsan_atomic##N##_fetch_xor(volatile T* p, T v, int) { return __atomic_fetch_xor(p, v, 5); } \
MC_NOSAN __attribute__((used)) int __tsan_atomic##N##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); } \
MC_NOSAN __attribute__((used)) int __tsan_atomic##N##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) { return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); } \
MC_NOSAN __attribute__((used)) T __tsan_atomic##N##_compare_exchange_val(volatile T* p, T e, T v, int, int) { __atomic_compare_exchange_n(p, &e, v, 0, 5, 5); return e; }
MC_AT(8, unsigned char) MC_AT(16, unsigned short) MC_AT(32, unsigned int) MC_AT(64, unsigned long)
MC_NOSAN __attribute__((used)) void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(5); }
MC_NOSAN __attribute__((used)) void __tsan_atomic_signal_fence(int) {}
}
// The one-time initialisation of a function-local static is synchronised by the language.
extern "C" MC_NOSAN int __real___cxa_guard_acquire(void*); extern "C" MC_NOSAN void __real___cxa_guard_release(void*);
extern "C" MC_NOSAN __attribute__((used)) int __wrap___cxa_guard_acquire(void* g) { int r = __real___cxa_guard_acquire(g); if (r) ++mc::guard_depth; return r; }
extern "C" MC_NOSAN __attribute__((used)) void __wrap___cxa_guard_release(void* g)
{
    __real___cxa_guard_release(g);
    if (mc::guard_depth > 0 && --mc::guard_depth == 0 && mc::lib_static) for (auto& r : *mc::lib_static) r.shadow.assign(r.b, r.n);
}
