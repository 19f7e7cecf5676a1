// SHA-256 (FIPS 180-4) with boringssl's names and state layout.
#ifndef VERIF_COMPAT_SHA_H_
#define VERIF_COMPAT_SHA_H_
#include <cstddef>
#include <cstdint>
#include <cstring>
#define SHA256_DIGEST_LENGTH 32
#define SHA256_CBLOCK 64
struct sha256_state_st {
  uint32_t h[8];
  uint32_t Nl, Nh;
  uint8_t data[SHA256_CBLOCK];
  unsigned num, md_len;
};
typedef struct sha256_state_st SHA256_CTX;
inline int SHA256_Init(SHA256_CTX* c) {
  static const uint32_t iv[8] = {0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a,
                                 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19};
  std::memset(c, 0, sizeof(*c));
  std::memcpy(c->h, iv, 32);
  c->md_len = SHA256_DIGEST_LENGTH;
  return 1;
}
namespace verif_sha {
inline void Block(SHA256_CTX* c, const uint8_t* p) {
  static const uint32_t K[64] = {
      0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1,
      0x923f82a4, 0xab1c5ed5, 0xd807aa98, 0x12835b01, 0x243185be, 0x550c7dc3,
      0x72be5d74, 0x80deb1fe, 0x9bdc06a7, 0xc19bf174, 0xe49b69c1, 0xefbe4786,
      0x0fc19dc6, 0x240ca1cc, 0x2de92c6f, 0x4a7484aa, 0x5cb0a9dc, 0x76f988da,
      0x983e5152, 0xa831c66d, 0xb00327c8, 0xbf597fc7, 0xc6e00bf3, 0xd5a79147,
      0x06ca6351, 0x14292967, 0x27b70a85, 0x2e1b2138, 0x4d2c6dfc, 0x53380d13,
      0x650a7354, 0x766a0abb, 0x81c2c92e, 0x92722c85, 0xa2bfe8a1, 0xa81a664b,
      0xc24b8b70, 0xc76c51a3, 0xd192e819, 0xd6990624, 0xf40e3585, 0x106aa070,
      0x19a4c116, 0x1e376c08, 0x2748774c, 0x34b0bcb5, 0x391c0cb3, 0x4ed8aa4a,
      0x5b9cca4f, 0x682e6ff3, 0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208,
      0x90befffa, 0xa4506ceb, 0xbef9a3f7, 0xc67178f2};
  auto rr = [](uint32_t x, int n) { return (x >> n) | (x << (32 - n)); };
  uint32_t w[64];
  for (int i = 0; i < 16; ++i)
    w[i] = uint32_t(p[4 * i]) << 24 | uint32_t(p[4 * i + 1]) << 16 |
           uint32_t(p[4 * i + 2]) << 8 | p[4 * i + 3];
  for (int i = 16; i < 64; ++i) {
    uint32_t s0 = rr(w[i - 15], 7) ^ rr(w[i - 15], 18) ^ (w[i - 15] >> 3);
    uint32_t s1 = rr(w[i - 2], 17) ^ rr(w[i - 2], 19) ^ (w[i - 2] >> 10);
    w[i] = w[i - 16] + s0 + w[i - 7] + s1;
  }
  uint32_t v[8];
  std::memcpy(v, c->h, 32);
  for (int i = 0; i < 64; ++i) {
    uint32_t S1 = rr(v[4], 6) ^ rr(v[4], 11) ^ rr(v[4], 25);
    uint32_t ch = (v[4] & v[5]) ^ (~v[4] & v[6]);
    uint32_t t1 = v[7] + S1 + ch + K[i] + w[i];
    uint32_t S0 = rr(v[0], 2) ^ rr(v[0], 13) ^ rr(v[0], 22);
    uint32_t mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
    uint32_t t2 = S0 + mj;
    v[7] = v[6]; v[6] = v[5]; v[5] = v[4]; v[4] = v[3] + t1;
    v[3] = v[2]; v[2] = v[1]; v[1] = v[0]; v[0] = t1 + t2;
  }
  for (int i = 0; i < 8; ++i) c->h[i] += v[i];
}
}  // namespace verif_sha
inline int SHA256_Update(SHA256_CTX* c, const void* in, size_t len) {
  const uint8_t* d = static_cast<const uint8_t*>(in);
  uint64_t bits = (uint64_t(c->Nh) << 32 | c->Nl) + uint64_t(len) * 8;
  c->Nl = uint32_t(bits);
  c->Nh = uint32_t(bits >> 32);
  for (size_t i = 0; i < len; ++i) {
    c->data[c->num++] = d[i];
    if (c->num == 64) {
      verif_sha::Block(c, c->data);
      c->num = 0;
    }
  }
  return 1;
}
inline int SHA256_Final(uint8_t* out, SHA256_CTX* c) {
  uint64_t bits = uint64_t(c->Nh) << 32 | c->Nl;
  c->data[c->num++] = 0x80;
  if (c->num > 56) {
    while (c->num < 64) c->data[c->num++] = 0;
    verif_sha::Block(c, c->data);
    c->num = 0;
  }
  while (c->num < 56) c->data[c->num++] = 0;
  for (int i = 0; i < 8; ++i) c->data[56 + i] = uint8_t(bits >> (56 - 8 * i));
  verif_sha::Block(c, c->data);
  for (int i = 0; i < 8; ++i)
    for (int j = 0; j < 4; ++j) out[4 * i + j] = uint8_t(c->h[i] >> (24 - 8 * j));
  return 1;
}
#endif
