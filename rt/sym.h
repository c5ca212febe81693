// Harness API. Under the symbolic engine these are intrinsics; natively (rt/native.cpp) inputs are read from a
// recorded counterexample, so the same harness replays concretely against the real build.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>

extern "C" {
void sym_bytes(void* p, size_t n, const char* name);
uint64_t sym_u64(const char* name);
uint32_t sym_u32(const char* name);
uint8_t sym_u8(const char* name);
uint64_t sym_concretize(uint64_t v);
void sym_assume_(int c);
void sym_assert_(int c, const char* id);
void sym_reach(const char* tag);
void sym_observe_u64(const char* name, uint64_t v);
void sym_observe_bytes(const char* name, const void* p, size_t n);
int sym_is_symbolic_run();
uint64_t sym_live_heap();
void sym_debug(const char* name, uint64_t v);
void harness_main();
}

#define HARNESS(name) extern "C" void h_##name()
#ifdef THOROUGH
#define BOUND(quick, thorough) (thorough)
#else
#define BOUND(quick, thorough) (quick)
#endif
#define sym_assume(c) sym_assume_((c) ? 1 : 0)
#define sym_assert(c, id) sym_assert_((c) ? 1 : 0, id)

// an integer in [lo, hi], every value explored as its own path
inline uint64_t sym_range(const char* name, uint64_t lo, uint64_t hi)
{
    if (lo == hi) return lo;
    uint64_t v = sym_u8(name);
    sym_assume(v >= lo && v <= hi);
    return sym_concretize(v);
}
inline bool sym_bool(const char* name) { return sym_range(name, 0, 1) != 0; }
// a boolean left symbolic
inline bool sym_sbool(const char* name) { return (sym_u8(name) & 1) != 0; }
// exactly n arbitrary bytes
inline std::string sym_str_n(const char* name, size_t n)
{
    std::string s(n, '\0');
    if (n) sym_bytes(&s[0], n, name);
    return s;
}
// 0..max arbitrary bytes, each length its own path
inline std::string sym_str(const char* name, size_t min, size_t max)
{
    return sym_str_n(name, (size_t)sym_range("len", min, max));
}
// n bytes each from the given alphabet
inline std::string sym_str_from(const char* name, size_t min, size_t max, const char* alphabet)
{
    std::string s = sym_str(name, min, max);
    for (size_t i = 0; i < s.size(); ++i) {
        int ok = 0;
        for (const char* p = alphabet; *p; ++p) ok |= (s[i] == *p);
        sym_assume(ok);
    }
    return s;
}
inline void sym_observe(const char* name, const std::string& s) { sym_observe_bytes(name, s.data(), s.size()); }
inline void sym_observe(const char* name, uint64_t v) { sym_observe_u64(name, v); }
