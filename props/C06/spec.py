S = ["bsl/asn1/src/bsl_asn1.c"]
T = S + ["bsl/sal/src/sal_time.c"]
ASSUMPTIONS = ["BSL_ASN1 template tables other than the five used here are decoded by the same interpreter"]
OUTSIDE = "inputs longer than the stated lengths; list decoding; templates other than the representative ones"
def h(name, d, b, **k):
    return dict(dict(name=name, c="asn1.c", defs=d, srcs=S, unwind=12, bounds=b), **k)
HARNESSES = [
    h("length", ["H_LEN", "N=7"], "every byte string of 2..7 bytes"),
    h("primitive", ["H_PRIM"], "every value of 1..6 bytes"),
    h("time", ["H_TIME"], "every UTCTime/GeneralizedTime string of 12..15 bytes", srcs=T, unwind=16),
    *[h("template%d_%d" % (t, lo), ["H_TEMPL", "TPL=%d" % t, "NLO=%d" % lo, "NHI=%d" % lo], "every input of %d bytes" % lo, solver="cadical", uw={"DecodeTemplate": (6, 6, 7)[t], "SkipChild": 5}, tier="quick" if lo == 10 else "thorough", timeout=200, thorough={"timeout": 600})
      for t in (0, 1, 2) for lo in (10, 12, 14)],
    *[h("round%d_%d" % (ld, il), ["H_ROUND", "OLEN=3", "ILEN=%d" % il, "LD=%d" % ld, "KLO=%d" % k, "KHI=%d" % (k + 1)], "integer of %d bytes (leading octet class %d), octet string of 0/3, bit string of 1..2 bytes, any content" % (il, ld), unwind=12)
      for ld, il, k in ((0, 4, 6), (1, 2, 2), (2, 3, 6), (3, 3, 0), (4, 1, 4), (5, 1, 6))],
    h("round_long", ["H_ROUND", "OLEN=130", "ILEN=2", "LD=0", "KLO=7", "KHI=7"], "long-form length (130-byte octet string)", unwind=140),
    h("small_int", ["H_LIMB"], "every 64-bit integer, every 32-bit length"),
    *[h("utf8_%d_%d" % (sel, n), ["H_UTF8", "SEL=%d" % sel, "NB=%d" % n], "every %d-byte string in %s-byte characters" % (n, "241"[sel]), unwind=33, vlib_defs=["V_FIXED_ALLOC=20", "V_FIXED_CALLOC=20"]) for sel, n in ((0, 2), (0, 4), (0, 3), (1, 4), (1, 6), (2, 3))],
]
