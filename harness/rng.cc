// Histories of seeded generators, through the classes and through the C API.
#include <memory>
#include "vh/dies.h"
#include "vh/fieldutil.h"
#include "tachyon/c/crypto/random/rng.h"
#include "tachyon/crypto/random/cha_cha20/cha_cha20_rng.h"
#include "tachyon/crypto/random/rng.h"
#include "tachyon/crypto/random/xor_shift/xor_shift_rng.h"
#include "tachyon/math/elliptic_curves/bls12/bls12_381/fr.h"
#include "tachyon/math/elliptic_curves/bn/bn254/fq.h"
#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/math/elliptic_curves/secp/secp256k1/fr.h"
#include "tachyon/zk/plonk/halo2/prime_field_conversion.h"
#include "tachyon/zk/plonk/halo2/random_field_generator.h"
using namespace vh;
namespace C = tachyon::crypto;
namespace B = tachyon::base;
namespace H = tachyon::zk::plonk::halo2;
using Bytev = std::vector<uint8_t>;
static std::string BJ(const Bytev& v) { return Bytes(v.data(), v.size()); }
static std::string WordJ(uint32_t w) { return "[" + std::to_string(w >> 16) + "," + std::to_string(w & 65535) + "]"; }
static const char* Kind(bool xo) { return xo ? "xor" : "chacha"; }
static Bytev Seed(size_t n) {
  Bytev v(n);
  int k = Rn(4);
  for (auto& b : v) b = k == 0 ? 0 : k == 1 ? 255 : R64();
  if (k == 0 && n) v[Rn(n)] = 1 << Rn(8);
  return v;
}
struct Gen { bool xo; C::RNG* r; tachyon_rng* c; };
static void Free(Gen& g) { if (g.c) tachyon_rng_destroy(g.c); else delete g.r; }
static Gen Make(bool xo) { return {xo, xo ? static_cast<C::RNG*>(new C::XORShiftRNG) : new C::ChaCha20RNG, nullptr}; }
static Gen FromC(bool xo, tachyon_rng* c) { return {xo, reinterpret_cast<C::RNG*>(c->extra), c}; }
static size_t StateSize(bool xo) { return xo ? C::XORShiftRNG::kStateSize : C::ChaCha20RNG::kStateSize; }

template <typename F>
static void Field(Gen& g, int at, bool words) {
  F f;
  if (words) { H::RandomFieldGenerator<F> x(g.r); f = x.Generate(); }
  else {
    uint8_t bytes[64];
    for (int i = 0; i < 16; ++i) { uint32_t w = g.r->NextUint32(); memcpy(bytes + 4 * i, &w, 4); }
    f = H::FromUint512<F>(bytes);
  }
  Ev("Field").i("at", at).raw("mod", L(F::Config::kModulus)).raw("v", FL(f));
}
template <typename F>
static void Conv(int n) {
  T().Doing("FromUint512");
  for (int i = 0; i < n; ++i) {
    uint8_t b[64];
    int k = Rn(6);
    for (auto& x : b) x = k == 0 ? 255 : k == 1 ? (Rn(2) ? 255 : 0) : R64();
    if (k == 2) { auto m = Corner(F::Config::kModulus); memcpy(b, m.limbs, 32); m = F::Config::kModulus; memcpy(b + 32, m.limbs, 32); }
    if (k == 3) memset(b + (Rn(2) ? 32 : 0), Rn(2) ? 255 : 0, 32);
    std::string s = Bytes(b, 64);
    F f = H::FromUint512<F>(b);
    Ev("Uint").raw("bytes", s).raw("mod", L(F::Config::kModulus)).raw("v", FL(f));
  }
}

static void History(bool xo, int steps) {
  std::vector<Gen> g;
  std::vector<std::pair<int, Bytev>> saved;  // snapshot id, state
  int snap = 100;
  auto fresh = [&] {
    int at = g.size() + 1;
    switch (Rn(3)) {
      case 0: { Bytev s = Seed(xo ? 16 : 32); g.push_back(FromC(xo, tachyon_rng_create_from_seed(xo ? TACHYON_RNG_XOR_SHIFT : TACHYON_RNG_CHA_CHA20, s.data(), s.size()))); Ev("FromSeed").i("at", at).s("kind", Kind(xo)).raw("seed", BJ(s)); break; }
      default: g.push_back(Make(xo)); Ev("Fresh").i("at", at).s("kind", Kind(xo));
    }
  };
  fresh();
  for (int i = 0; i < steps; ++i) {
    int at = Rn(g.size()) + 1;
    Gen& x = g[at - 1];
    switch (Rn(12)) {
      case 0: if (g.size() < 4) fresh(); break;
      case 1: {
        Bytev s = Seed(Rn(3) ? (xo ? 16 : 32) : Rn(3) ? Rn(40) : (xo ? 32 : 16));
        bool ok = x.r->SetSeed(s);
        Ev("Seed").i("at", at).raw("seed", BJ(s)).b("ok", ok);
        break;
      }
      case 2: case 3: {
        Bytev st;
        bool ok = true;
        size_t len = 0;
        if (x.c) { tachyon_rng_get_state(x.c, nullptr, &len); st.resize(len); size_t l2 = 0; tachyon_rng_get_state(x.c, st.data(), &l2); ok = len == l2; }
        else { st.resize(StateSize(xo)); B::Buffer b(st.data(), st.size()); ok = x.r->WriteToBuffer(b) && b.Done(); len = b.buffer_offset(); if (Rn(3) == 0) { Bytev tmp(StateSize(xo) - 1 - Rn(5)); B::Buffer c(tmp.data(), tmp.size()); ok = ok && !x.r->WriteToBuffer(c); } }
        Ev("Save").i("at", at).i("snap", ++snap).b("ok", ok).i("len", len).i("want", StateSize(xo));
        saved.push_back({snap, st});
        // the same state with the block counter at its end
        static const uint32_t kC[4] = {0x61707865, 0x3320646E, 0x79622D32, 0x6B206574};
        if (!xo && Rn(4) == 0 && st.size() == 136 && memcmp(&st[8], kC, 16) == 0) {
          uint64_t idx = 16;
          uint32_t lo = ~0u, hi = Rn(2) ? 0x1ffff : Rn(5);
          memcpy(&st[0], &idx, 8);
          memcpy(&st[8 + 48], &lo, 4);
          memcpy(&st[8 + 52], &hi, 4);
          Ev("Near").i("at", at).i("snap", ++snap).i("high", hi);
          saved.push_back({snap, st});
        }
        break;
      }
      case 4: case 5: {
        if (saved.empty()) break;
        auto& [from, st] = saved[Rn(saved.size())];
        bool good = Rn(4) != 0;
        Bytev s = st;
        if (!good) {
          static const uint32_t kC[4] = {0x61707865, 0x3320646E, 0x79622D32, 0x6B206574};
          if (!xo && s.size() == 136 && memcmp(&s[8], kC, 16) == 0 && Rn(2)) { uint64_t idx = Rn(2) ? 17 + Rn(4) : R64() | (uint64_t{1} << 40); memcpy(&s[0], &idx, 8); }
          else s.resize(Rn(s.size()));
        }
        bool ok = false;
        if (good && Rn(3) == 0) {
          Free(x);
          x = FromC(xo, tachyon_rng_create_from_state(xo ? TACHYON_RNG_XOR_SHIFT : TACHYON_RNG_CHA_CHA20, s.data(), s.size()));
          ok = true;
        } else {
          B::ReadOnlyBuffer b(s.data(), s.size());
          ok = x.r->ReadFromBuffer(b);
        }
        Ev("Load").i("at", at).i("from", from).b("good", good).b("ok", ok);
        break;
      }
      case 6: {
        int from = Rn(g.size()) + 1;
        if (from == at || x.c) break;
        if (xo) *static_cast<C::XORShiftRNG*>(x.r) = *static_cast<C::XORShiftRNG*>(g[from - 1].r);
        else *static_cast<C::ChaCha20RNG*>(x.r) = *static_cast<C::ChaCha20RNG*>(g[from - 1].r);
        Ev("Copy").i("at", at).i("from", from);
        break;
      }
      case 7:
        switch (Rn(4)) {
          case 0: Field<tachyon::math::bn254::Fr>(x, at, Rn(2)); break;
          case 1: Field<tachyon::math::bn254::Fq>(x, at, Rn(2)); break;
          case 2: Field<tachyon::math::bls12_381::Fr>(x, at, Rn(2)); break;
          default: Field<tachyon::math::secp256k1::Fr>(x, at, Rn(2)); break;
        }
        break;
      default: {
        int n = Rn(4) == 0 ? Rn(40) : 1 + Rn(6);
        std::vector<int> sizes;
        std::string ws = "[";
        for (int j = 0; j < n; ++j) {
          if (Rn(2)) {
            uint32_t w = x.c ? tachyon_rng_get_next_u32(x.c) : x.r->NextUint32();
            sizes.push_back(4);
            ws += (ws.size() > 1 ? "," : "") + WordJ(w);
          } else {
            uint64_t w = x.c ? tachyon_rng_get_next_u64(x.c) : x.r->NextUint64();
            sizes.push_back(8);
            ws += (ws.size() > 1 ? "," : "") + WordJ(static_cast<uint32_t>(w)) + "," + WordJ(static_cast<uint32_t>(w >> 32));
          }
        }
        Ev("Draw").i("at", at).ints("sizes", sizes).raw("words", ws + "]");
      }
    }
  }
  for (auto& x : g) Free(x);
}

int main(int argc, char** argv) {
  T().Init(argc, argv);
  tachyon::math::bn254::Fr::Init();
  tachyon::math::bn254::Fq::Init();
  tachyon::math::bls12_381::Fr::Init();
  tachyon::math::secp256k1::Fr::Init();
  bool th = T().thorough();
  for (int i = 0; i < (th ? 24 : 4); ++i) {
    std::string s = std::to_string(i);
    T().Shard("xor" + s); History(true, 250);
    T().Shard("chacha" + s); History(false, 150);
    T().Shard("mixed" + s); for (int j = 0; j < 10; ++j) { History(j % 2, 8); }
  }
  T().Shard("conv"); Conv<tachyon::math::bn254::Fr>(th ? 300 : 60); Conv<tachyon::math::bn254::Fq>(th ? 300 : 60); Conv<tachyon::math::bls12_381::Fr>(th ? 300 : 60); Conv<tachyon::math::secp256k1::Fr>(th ? 300 : 60);
}
