// Stand-in for the SHAKE256 submodule (not part of the repository's tree): an
// extendable-output function whose output bytes are free variables. Instance i
// (in order of construction) returns the bytes xof[i * 2^32 + position]; what was
// absorbed is logged, so that harnesses can compare it.
#pragma once
#include "h.hpp"
#include <cstddef>
#include <cstdint>
namespace shake256 {
constexpr size_t rate = 1088;
struct log_t
{
  const uint8_t* ptr[64];
  size_t len[64];
  uint64_t owner[64];
  uint64_t n;      // absorb calls
  uint64_t inst;   // instances
  uint64_t reads;  // bytes read
  uint64_t misuse; // absorb after finalize, read before finalize, ...
  uint8_t* (*copy)(const uint8_t*, size_t);
};
inline log_t lg;
// log pointers and lengths only, do not look at the bytes
inline bool alias = false;
// overrides the output stream (0: variables)
inline uint8_t (*stream)(uint64_t inst, uint64_t pos) = nullptr;
template<const bool incremental = false>
struct shake256
{
  uint64_t id;
  uint64_t pos = 0;
  int st = 0; // 0 absorbing, 1 squeezing
  shake256() { id = lg.inst++; }
  void put(const uint8_t* p, size_t n)
  {
    if (st) lg.misuse |= 1;
    if (lg.n < 64) {
      if (alias) {
        lg.ptr[lg.n] = p;
      } else {
        uint8_t* c = new uint8_t[n + 1];
        for (size_t i = 0; i < n; i++) c[i] = p[i];
        lg.ptr[lg.n] = c;
      }
      lg.len[lg.n] = n;
      lg.owner[lg.n] = id;
    }
    lg.n++;
  }
  void hash(const uint8_t* const p, const size_t n)
  {
    put(p, n);
    st = 1;
  }
  void absorb(const uint8_t* const p, const size_t n) { put(p, n); }
  void finalize()
  {
    if (st) lg.misuse |= 2;
    st = 1;
  }
  void read(uint8_t* const p, const size_t n)
  {
    if (!st) lg.misuse |= 4;
    for (size_t i = 0; i < n; i++) p[i] = stream ? stream(id, pos + i) : (uint8_t)h_sym("xof", (id << 32) + pos + i, 8);
    pos += n;
    lg.reads += n;
  }
};
}
