// chacha_core(): the ChaCha20 block function of RFC 8439 (with the final
// feed-forward addition), as exported by the project's patched boringssl.
#ifndef VERIF_COMPAT_CHACHA_H_
#define VERIF_COMPAT_CHACHA_H_
#include <cstdint>
#include <cstring>
inline void chacha_core(uint8_t output[64], const uint32_t input[16]) {
  uint32_t x[16];
  std::memcpy(x, input, 64);
  auto rotl = [](uint32_t v, int n) { return (v << n) | (v >> (32 - n)); };
  auto qr = [&](int a, int b, int c, int d) {
    x[a] += x[b]; x[d] = rotl(x[d] ^ x[a], 16);
    x[c] += x[d]; x[b] = rotl(x[b] ^ x[c], 12);
    x[a] += x[b]; x[d] = rotl(x[d] ^ x[a], 8);
    x[c] += x[d]; x[b] = rotl(x[b] ^ x[c], 7);
  };
  for (int i = 0; i < 10; ++i) {
    qr(0, 4, 8, 12); qr(1, 5, 9, 13); qr(2, 6, 10, 14); qr(3, 7, 11, 15);
    qr(0, 5, 10, 15); qr(1, 6, 11, 12); qr(2, 7, 8, 13); qr(3, 4, 9, 14);
  }
  for (int i = 0; i < 16; ++i) {
    uint32_t v = x[i] + input[i];
    std::memcpy(output + 4 * i, &v, 4);
  }
}
#endif
