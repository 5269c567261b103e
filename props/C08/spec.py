import itertools
M = ["crypto/modes/src/modes.c"]
BL = M + ["crypto/modes/src/modes_cbc.c", "crypto/modes/src/modes_ecb.c", "crypto/modes/src/asm_aes_cbc.c", "crypto/modes/src/asm_aes_ecb.c"]
ST = M + ["crypto/modes/src/modes_ctr.c", "crypto/modes/src/modes_ofb.c", "crypto/modes/src/modes_cfb.c", "crypto/modes/src/asm_aes_ctr.c", "crypto/modes/src/asm_aes_cfb.c"]
ASSUMPTIONS = ["the block cipher is a small invertible model with a symbolic key; assembly kernels (bulk AES calls) are modelled by their definition"]
OUTSIDE = "the ciphers themselves; SM4 bulk kernels; messages longer than stated"
PADS = ["NONE", "ZEROS", "ISO7816", "X923", "PKCS7"]
def blk(name, cbc, enc, pad, extra=(), **k):
    return dict(dict(name=name, c="modes.c", defs=["H_BLOCK", "ENC=%d" % enc, "PADT=CRYPT_PADDING_" + pad] + (["CBC"] if cbc else []) + list(extra), srcs=BL, autolink=False), **k)
def cuts(l): return "CUTS={" + ",".join("{" + ",".join(map(str, x)) + "}" for x in l) + "}"
C16 = cuts([(0, 0), (1, 1), (15, 15), (16, 16), (17, 17), (15, 16)])
HARNESSES = []
for cbc in (1, 0):
    for enc in (1, 0):
        for pad in PADS:
            nm = ("cbc" if cbc else "ecb") + ("_enc_" if enc else "_dec_") + pad.lower()
            q = cbc or pad in ("PKCS7", "NONE")
            HARNESSES.append(blk(nm, cbc, enc, pad, ["TOYB=4", "NLO=0", "NHI=9", "NMAX=9"], unwind=60, tier="quick" if q else "thorough",
                bounds="block of 4 bytes, messages of 0..9 bytes, every split into two update calls, any content, key and IV"))
        for pad in ("PKCS7", "NONE"):
            HARNESSES.append(blk(("cbc" if cbc else "ecb") + ("_enc" if enc else "_dec") + "_aes_" + pad.lower(), cbc, enc, pad,
                ["TOY_LINEAR", "ALG=CRYPT_CIPHER_AES128_" + ("CBC" if cbc else "ECB"), "NLO=31", "NHI=33", "NMAX=33", C16], unwind=60, tier="quick" if cbc else "thorough",
                bounds="AES code path, messages of 31..33 bytes, eight splits around the block boundary, any content, key and IV"))
SC = [(a, b, n) for n in (33, 34) for a, b in ((0, 0), (1, 16), (5, 5), (15, 17), (16, 32), (17, 31), (3, 20))]
SMALL = [(a, b, n) for n in (1, 2, 3) for a in range(n + 1) for b in range(a, n + 1)]
for kind, nm in enumerate(["ctr", "ofb", "cfb128", "cfb64", "cfb8", "cfb1"]):
    for enc in (1, 0):
        if kind < 2 and not enc: continue
        for inp in (0, 1):
            cs = SMALL if kind in (4, 5) else SC
            if kind == 5: cs = [(0, 0, 1), (0, 1, 2)]
            HARNESSES.append(dict(name=nm + ("_enc" if enc else "_dec") + ("_inplace" if inp else ""), c="modes.c", srcs=ST, autolink=False, unwind=40,
                defs=["H_STREAM", "TOY_LINEAR", "KIND=%d" % kind, "ENC=%d" % enc, "NMAX=34", cuts(cs)] + (["INPLACE"] if inp else []), tier="thorough" if inp and kind != 2 else "quick",
                bounds="messages of %d..%d bytes, %d splits into three calls, any content, key and IV%s" % (min(c[2] for c in cs), max(c[2] for c in cs), len(cs), ", output over input" if inp else "")))
for enc in (1, 0):
    HARNESSES.append(dict(name="cfb128_aes" + ("_enc" if enc else "_dec"), c="modes.c", srcs=ST, autolink=False, unwind=40, defs=["H_STREAM", "TOY_LINEAR", "KIND=2", "ENC=%d" % enc, "NMAX=34", "ALG=CRYPT_CIPHER_AES128_CFB", cuts(SC)], bounds="AES code path, 14 splits of 33..34 bytes"))
for lo in ("0xffffffffu", "0xfffffffeu", "0xfffffffdu", "0x00fffffeu", "0u"):
    HARNESSES.append(dict(name="ctr_aes_" + lo[:-1], c="modes.c", srcs=ST, autolink=False, unwind=60, defs=["H_STREAM", "TOY_LINEAR", "KIND=0", "ENC=1", "NMAX=52", "ALG=CRYPT_CIPHER_AES128_CTR", "IVLO=" + lo, cuts([(0, 0, 52), (1, 50, 52), (17, 33, 51), (16, 48, 48), (5, 5, 50)])],
        bounds="AES code path, five splits of 48..52 bytes, counter blocks ending in " + lo[:-1]))

for cbc in (1, 0):
    for enc in (1, 0):
        for alg in (0, 1):
            HARNESSES.append(blk(("cbc" if cbc else "ecb") + ("_enc" if enc else "_dec") + ("_aes" if alg else "") + "_inplace", cbc, enc, "NONE",
                (["TOY_LINEAR", "ALG=CRYPT_CIPHER_AES128_" + ("CBC" if cbc else "ECB")] if alg else ["TOYB=4"]) + ["INPLACE", "NLO=8", "NHI=%d" % (48 if alg else 12), "NMAX=48", cuts([(0, 8), (4, 8), (8, 8)] if not alg else [(16, 32), (16, 48)])] , unwind=60, tier="quick" if cbc and not alg else "thorough", bounds="block-aligned calls writing over their input"))
