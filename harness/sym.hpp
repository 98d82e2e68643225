// Harness interface. Under the symbolic executor these calls introduce symbolic values and proof obligations;
// natively (replay.cpp) they read one concrete assignment and check it on the real machine code.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
uint64_t sym_range(const char * name, uint64_t lo, uint64_t hi); // case split over every value lo..hi
void sym_bytes(void * p, size_t n, const char * name);           // n arbitrary bytes
uint64_t sym_u64(const char * name);
uint32_t sym_u32(const char * name);
uint8_t sym_u8(const char * name);
void sym_assume(bool c);
void sym_check(bool c, const char * label);
void sym_check_eq(const void * a, const void * b, size_t n, const char * label);
void sym_out(const void * p, size_t n, const char * label); // recorded, compared with the native run
void sym_reach(const char * label);                         // reachability witness
void sym_shard();                                           // work distribution over processes
int sym_same(const void * a, const void * b, size_t n, const char * name); // are they provably equal
int sym_is_concrete();
}
#define SYM_ENTRY(name) extern "C" __attribute__((noinline, used)) void name()
typedef unsigned char u8;
