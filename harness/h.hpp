// Harness API. Under the executor (engine/fse) these calls create symbolic
// values and proof obligations; in a native build (native.cpp) they read a
// counterexample and evaluate the same assertions on the compiled code.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
uint64_t h_sym(const char* name, uint64_t idx, uint64_t bits);
int64_t h_rng(const char* name, uint64_t idx, int64_t lo, int64_t hi);
uint16_t h_zq(const char* name, uint64_t idx);
double h_fsym(const char* name, uint64_t idx);
double h_funi(const char* name, uint64_t idx, double lo, double hi);
uint64_t h_isym(const char* name, uint64_t idx);
void h_bytes(const char* name, void* p, uint64_t n);
void h_assume(bool c);
void h_check(bool c, const char* msg, uint64_t idx);
void h_feq(double a, double b, const char* msg, uint64_t idx);
void h_ieq(uint64_t a, uint64_t b, const char* msg, uint64_t idx);
void h_zeq(uint16_t a, uint16_t b, const char* msg, uint64_t idx);
uint64_t h_choose(const char* name, uint64_t n);
uint64_t h_conc(uint64_t v);
uint64_t h_param(const char* name, uint64_t dflt);
void h_cover(const char* msg);
bool h_symbolic();
void h_stop();
void h_out(const char* name, uint64_t idx, uint64_t v);
void h_fout(const char* name, uint64_t idx, double v);
void h_iout(const char* name, uint64_t idx, uint64_t v);
double h_fopq(const char* name, uint64_t idx);
void h_log(const char* m, uint64_t v);
void* h_alloc(uint64_t n);
}
// allocations of the harness: in a two-phase run both phases get the same addresses
struct hk_t {};
static constexpr hk_t hk{};
inline void* operator new[](size_t n, hk_t) { return h_alloc(n); }
// pins the contents of an array: the compiler may not assume anything
#define H_ENTRY extern "C" void
// message length: the parameter, or any value (big=1: the buffer is not looked into)
static inline size_t h_mlen(uint64_t dflt) { return h_param("big", 0) ? (size_t)h_rng("mlen", 0, 0, 1ll << 40) : h_param("mlen", dflt); }
static inline size_t h_mbuf(size_t mlen) { return h_param("big", 0) ? 16 : mlen; }
