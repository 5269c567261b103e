/* C10: SHA3/SHAKE sponge with the permutation replaced by a linear model. */
#include "v.h"
#include "crypt_errno.h"
#include "crypt_sha3.h"
#ifndef PRE
#define PRE CRYPT_SHAKE128
#endif
#define CAT_(a, b) a##_##b
#define CAT(a, b) CAT_(a, b)
/* RATE, PADC, DIG from the harness list; DIG 0: extendable output */
#ifndef RATE
#define RATE 168
#define PADC 0x1f
#define DIG 0
#define CASES {{0, 0, 0}}
#endif
#ifndef OCASES
#define OCASES {{1, 0, 0}}
#endif
void ToyKeccak(uint8_t *state)
{
    uint64_t *s = (uint64_t *)(uintptr_t)state;
    uint64_t t = s[24];
    for (uint32_t i = 24; i > 0; i--) {
        s[i] = s[i - 1] ^ ((s[i] << 7) | (s[i] >> 57));
    }
    s[0] = t ^ ((s[0] << 9) | (s[0] >> 55)) ^ 0x8001;
}
static const uint32_t C[][3] = CASES;
static const uint32_t O[][3] = OCASES;
#define NMAX (2 * 168 + 8)
static void oracle(const uint8_t *m, uint32_t n, uint8_t *out, uint32_t on)
{
    uint64_t s[25];
    uint8_t pad[3 * 168];
    uint32_t tot = (n / RATE + 1) * RATE;
    memset(s, 0, sizeof(s));
    memset(pad, 0, sizeof(pad));
    memcpy(pad, m, n);
    pad[n] ^= PADC;
    pad[tot - 1] ^= 0x80;
    for (uint32_t b = 0; b < tot; b += RATE) {
        for (uint32_t i = 0; i < RATE; i++) {
            s[i / 8] ^= (uint64_t)pad[b + i] << (8 * (i % 8));
        }
        ToyKeccak((uint8_t *)s);
    }
    for (uint32_t i = 0; i < on; i++) {
        if (i > 0 && i % RATE == 0) {
            ToyKeccak((uint8_t *)s);
        }
        out[i] = (uint8_t)(s[i % RATE / 8] >> (8 * (i % RATE % 8)));
    }
}
#define MX 350
static void run(uint32_t a, uint32_t b, uint32_t n, uint32_t oa, uint32_t ob, uint32_t on)
{
    uint8_t m[NMAX], out[MX + 1], want[MX];
    static CRYPT_SHA3_Ctx ctx;
    nd_bytes(m, n);
    nd_bytes(&ctx, 64);
    V_ASSERT(CAT(PRE, Init)(&ctx) == CRYPT_SUCCESS, "init");
    V_ASSERT(CAT(PRE, Update)(&ctx, m, a) == CRYPT_SUCCESS, "update 1");
    V_ASSERT(CAT(PRE, Update)(&ctx, m + a, b - a) == CRYPT_SUCCESS, "update 2");
    V_ASSERT(CAT(PRE, Update)(&ctx, m + b, n - b) == CRYPT_SUCCESS, "update 3");
    out[on] = 0x5a;
#ifdef SQUEEZE
    V_ASSERT(CAT(PRE, Squeeze)(&ctx, out, oa) == CRYPT_SUCCESS, "squeeze 1");
    V_ASSERT(CAT(PRE, Squeeze)(&ctx, out + oa, ob - oa) == CRYPT_SUCCESS, "squeeze 2");
    V_ASSERT(CAT(PRE, Squeeze)(&ctx, out + ob, on - ob) == CRYPT_SUCCESS, "squeeze 3");
#else
    uint32_t len = on;
    (void)oa; (void)ob;
    V_ASSERT(CAT(PRE, Final)(&ctx, out, &len) == CRYPT_SUCCESS, "final");
    V_ASSERT(len == on, "digest length");
#endif
    oracle(m, n, want, on);
    V_ASSERT(v_eq(out, want, on), "output for the message");
    V_ASSERT(out[on] == 0x5a, "no more than the output is written");
    V_WITNESS("output");
    V_CASE_END();
}
void h_sponge(void)
{
    uint8_t k = nd8();
    for (uint32_t i = 0; i < sizeof(C) / sizeof(C[0]); i++) {
        if (k == i) {
            const uint32_t *o = O[i % (sizeof(O) / sizeof(O[0]))];
            run(C[i][0], C[i][1], C[i][2], o[0], o[1], DIG ? DIG : o[2]);
        }
    }
}
/* one-shot functions */
#ifdef ONESHOT
void h_oneshot(void)
{
    uint8_t k = nd8();
    for (uint32_t i = 0; i < sizeof(C) / sizeof(C[0]); i++) {
        if (k == i) {
            uint8_t m[NMAX], out[MX + 1], want[MX];
            uint32_t n = C[i][2], on = DIG ? DIG : C[i][1];
            nd_bytes(m, n);
            out[on] = 0x5a;
#if DIG
            PRE(out, m, n);
#else
            PRE(out, on, m, n);
#endif
            oracle(m, n, want, on);
            V_ASSERT(v_eq(out, want, on), "output for the message");
            V_ASSERT(out[on] == 0x5a, "no more than the output is written");
            V_WITNESS("output");
            V_CASE_END();
        }
    }
}
#endif
void h_room(void)
{
#if DIG
    static CRYPT_SHA3_Ctx ctx;
    uint8_t out[DIG];
    uint32_t len = nd32();
    V_ASSUME(len < DIG);
    V_ASSERT(CAT(PRE, Init)(&ctx) == CRYPT_SUCCESS, "init");
    V_ASSERT(CAT(PRE, Final)(&ctx, out + DIG - len, &len) != CRYPT_SUCCESS, "short buffer refused");
    V_WITNESS("refused");
#endif
}
