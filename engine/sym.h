// Harness interface. In the symbolic run these are intrinsics of the engine; in a replay they are
// implemented by replay_rt.cpp, which reads the counterexample's values.
#ifndef SYM_H
#define SYM_H
#include <cstddef>
#include <cstdint>
extern "C" {
std::uint64_t sym_u64(const char *name);
std::uint32_t sym_u32(const char *name);
std::uint16_t sym_u16(const char *name);
std::uint8_t sym_u8(const char *name);
bool sym_bool(const char *name);
std::uint64_t sym_range(const char *name, std::uint64_t lo, std::uint64_t hi);
std::int64_t sym_srange(const char *name, std::int64_t lo, std::int64_t hi);
std::uint64_t sym_choose(const char *name, std::uint64_t n);
std::uint64_t sym_concretize(std::uint64_t v);
void sym_assume(bool c);
void sym_check(bool c, const char *msg);
[[noreturn]] void sym_fail(const char *msg);
void sym_witness(const char *name);
void sym_observe(const char *name, std::uint64_t v);
void sym_leak_begin();
void sym_leak_end();
std::uint64_t sym_live_blocks();
void sym_fail_new(std::uint64_t k);
std::uint64_t sym_bound(std::uint64_t def);
bool sym_is_symbolic();
void sym_print(const char *name, std::uint64_t v);
[[noreturn]] void sym_end();
void sym_bytes(void *p, std::uint64_t n, const char *name);
void sym_undef(void *p, std::uint64_t n);
void sym_yield();
}
#define CHECK(c) sym_check((c), #c)
#define CHECKM(c, m) sym_check((c), m)
#define ENTRY(n) extern "C" void n()
#endif
