/* C10: the Keccak permutation against FIPS 202, lane by lane, for every state. */
#include "v.h"
void SHA3_Keccak(uint8_t *state);
static uint64_t rl(uint64_t x, uint32_t n) { return n == 0 ? x : (x << n) | (x >> (64 - n)); }
void h_perm(void)
{
    static uint64_t s[25], A[25], B[25];
    static const uint8_t RHO[5][5] = {{0, 1, 62, 28, 27}, {36, 44, 6, 55, 20}, {3, 10, 43, 25, 39}, {41, 45, 15, 21, 8}, {18, 2, 61, 56, 14}}; /* [y][x] */
    for (uint32_t i = 0; i < 25; i++) {
        s[i] = nd64();
        A[i] = s[i];
    }
    SHA3_Keccak((uint8_t *)s);
    uint8_t lfsr = 1;
    for (uint32_t r = 0; r < 24; r++) {
        uint64_t c[5], d[5];
        for (uint32_t x = 0; x < 5; x++) {
            c[x] = A[x] ^ A[x + 5] ^ A[x + 10] ^ A[x + 15] ^ A[x + 20];
        }
        for (uint32_t x = 0; x < 5; x++) {
            d[x] = rl(c[(x + 1) % 5], 1) ^ c[(x + 4) % 5];
        }
        for (uint32_t y = 0; y < 5; y++) {
            for (uint32_t x = 0; x < 5; x++) {
                B[((2 * x + 3 * y) % 5) * 5 + y] = rl(A[y * 5 + x] ^ d[x], RHO[y][x]);
            }
        }
        for (uint32_t y = 0; y < 5; y++) {
            for (uint32_t x = 0; x < 5; x++) {
                A[y * 5 + x] = B[y * 5 + x] ^ (~B[y * 5 + (x + 1) % 5] & B[y * 5 + (x + 2) % 5]);
            }
        }
        uint64_t rc = 0;
        for (uint32_t j = 0; j < 7; j++) {
            if (lfsr & 1) { rc ^= 1ULL << ((1u << j) - 1); }
            lfsr = (uint8_t)((lfsr << 1) ^ ((lfsr >> 7) ? 0x71 : 0));
        }
        A[0] ^= rc;
    }
    for (uint32_t i = 0; i < 25; i++) {
        V_ASSERT(s[i] == A[i], "lane of the permuted state");
    }
    V_WITNESS("permuted");
}
