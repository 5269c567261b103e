M = ["crypto/modes/src/modes.c"]
SRC = dict(ccm=M + ["crypto/modes/src/modes_ccm.c", "crypto/modes/src/asm_aes_ccm.c"], gcm=M + ["crypto/modes/src/modes_gcm.c", "crypto/modes/src/asm_aes_gcm.c"],
    chacha=M + ["crypto/modes/src/modes_chacha20_poly1305.c", "crypto/chacha20/src/chacha20.c"])
ASSUMPTIONS = ["block ciphers, GHASH, the Poly1305 field arithmetic and the ChaCha20 block function are small linear models with symbolic keys; assembly kernels are modelled by their definition on whole blocks"]
OUTSIDE = "the arithmetic of the primitives; SM4 bulk kernels; lengths other than those stated"
def cs(l): return "CASES={" + ",".join("{" + ",".join(map(str, x)) + "}" for x in l) + "}"
# aad, split1, split2, message, nonce, tag
BASE = [(0, 0, 0, 0), (1, 0, 0, 1), (13, 3, 9, 15), (14, 0, 0, 16), (15, 1, 16, 17), (16, 16, 16, 33), (17, 5, 20, 32), (30, 15, 17, 33), (31, 20, 20, 36), (0, 17, 31, 33), (0, 2, 34, 35)]
def cases(mode, base=BASE):
    r = []
    for i, b in enumerate(base):
        iv = dict(ccm=7 + i % 7, gcm=[12, 12, 1, 16, 17, 12, 8, 15, 12, 20, 12][i % 11], chacha=[12, 8][i % 2])[mode]
        tag = dict(ccm=4 + 2 * (i % 7), gcm=[16, 12, 4, 15, 8, 13, 14, 16, 16, 12, 16][i % 11], chacha=16)[mode]
        r.append(b + (iv, tag))
    return r
HARNESSES = []
def h(name, mode, enc, cl, extra=(), **k):
    d = dict(name=name, c="aead.c", srcs=SRC[mode], autolink=False, unwind=70, solver="cadical", entry="h_aead", defs=["M_" + mode.upper(), "TOY_LINEAR", "ENC=%d" % enc, cs(cl)] + list(extra))
    if mode == "chacha": d["replace"] = {"CHACHA20_Block": "ToyChachaBlock"}
    d.update(k); HARNESSES.append(d)
ALG = dict(ccm="CRYPT_CIPHER_AES128_CCM", gcm="CRYPT_CIPHER_AES128_GCM")
for mode in ("ccm", "gcm", "chacha"):
    for enc in (1, 0):
        s = mode + ("_enc" if enc else "_dec")
        C = cases(mode)
        B = "11 combinations of header 0..31, message 0..36 bytes, two split points, nonce and tag length; any content, key and nonce"
        Q = [C[i] for i in (0, 2, 4, 5, 7, 9)]
        h(s, mode, enc, Q, bounds=B.replace("11 comb", "6 comb"), thorough=dict(defs=["M_" + mode.upper(), "TOY_LINEAR", "ENC=%d" % enc, cs(C)], bounds=B, timeout=600))
        h(s + "_second", mode, enc, C[3:5], ["SECOND"], bounds="2 combinations, after an unfinished earlier message")
        FS = ["--max-field-sensitivity-array-size", "300"]
        if mode in ALG:
            h(s + "_aes", mode, enc, [C[4], C[5]] + cases(mode, [(16, 5, 5, 70)]), ["ALG=" + ALG[mode], "NMAX=72"], flags=FS, bounds="AES path, 3 combinations, messages to 70 bytes")
            h(s + "_aes_long", mode, enc, cases(mode, [(3, 0, 0, 64), (3, 5, 5, 90), (0, 70, 70, 70), (16, 16, 80, 100)]), ["ALG=" + ALG[mode], "NMAX=112"], flags=FS, tier="thorough", timeout=600, bounds="AES path, 4 combinations, messages to 100 bytes")
        else:
            h(s + "_long", mode, enc, cases(mode, [(3, 5, 5, 70), (5, 63, 65, 66)]), ["NMAX=72", "AMAX=20"], flags=FS, bounds="messages to 70 bytes around the 64-byte block")
            h(s + "_longer", mode, enc, cases(mode, [(3, 0, 0, 64), (0, 63, 65, 129), (16, 1, 66, 130), (5, 64, 120, 130)]), ["NMAX=132", "AMAX=20"], flags=FS, tier="thorough", timeout=600, bounds="messages to 130 bytes, four splits")
        if not enc:
            h(s + "_notag", mode, 0, C[1:5], ["NOTAG"], bounds="four combinations without a tag")
            h(s + "_shorttag", mode, 0, C[3:6], ["SHORTTAG=1"], bounds="tag one byte short")

HARNESSES.append(dict(name="ccm_lengths", c="limits.c", entry="h_ccm", srcs=SRC["ccm"], autolink=False, unwind=20, defs=["H_CCM"], bounds="every nonce length, tag length, 64-bit message length and 32-bit header length"))
for alg, a in (("0x7fff", ""), ("CRYPT_CIPHER_AES128_GCM", "_aes")):
    for enc in (1, 0):
        HARNESSES.append(dict(name="gcm_limits" + a + ("_enc" if enc else "_dec"), c="limits.c", entry="h_gcm", srcs=SRC["gcm"], autolink=False, unwind=20, defs=["H_GCM", "ALG=" + alg, "ENC=%d" % enc], tier="quick" if enc else "thorough", bounds="any nonce and header length that is a multiple of 16, any message length so far, any use count"))
for i, l in enumerate([(1, 63, 64), (64, 64, 1), (63, 2, 130), (200, 56, 1)]):
    HARNESSES.append(dict(name="chacha_count_%d" % i, c="limits.c", entry="h_chacha", srcs=["crypto/chacha20/src/chacha20.c"], replace={"CHACHA20_Block": "ToyChachaBlock"}, autolink=False, unwind=70, defs=["H_CHACHA", "LENS={%d,%d,%d}" % l], bounds="calls of %d, %d, %d bytes from any initial counter" % l))
HARNESSES.append(dict(name="chacha_count_bulk", c="limits.c", entry="h_chacha_big", srcs=["crypto/chacha20/src/chacha20.c"], replace={"CHACHA20_Block": "ToyChachaBlock"}, autolink=False, unwind=70, defs=["H_CHACHA"], bounds="any multiple of 64 bytes in one call, from any initial counter"))
WR = M + ["crypto/modes/src/modes_aes_wrap.c"]
for pad in (0, 1):
    for fn, lo, hi in (("wrap", 5, 18) if pad else ("wrap", 8, 24), ("unwrap", 8, 32)):
        for own in (0, 1):
            HARNESSES.append(dict(name=fn + ("_pad" if pad else "") + ("_iv" if own else ""), c="wrap.c", entry="h_" + fn, srcs=WR, autolink=False, unwind=60, solver="cadical", tier="thorough" if own else "quick",
                defs=["TOY_LINEAR", "PAD=%d" % pad, "NLO=%d" % lo, "NHI=%d" % hi, "MAXN=32"] + (["OWNIV"] if own else []), bounds="%s of %d..%d bytes, any content and key" % (fn, lo, hi)))
        HARNESSES.append(dict(name=fn + ("_pad" if pad else "") + "_room", c="wrap.c", entry="h_" + fn, srcs=WR, autolink=False, unwind=60, solver="cadical",
            defs=["TOY_LINEAR", "PAD=%d" % pad, "NLO=16", "NHI=24", "MAXN=32", "SHORT=1"], bounds="output one byte short"))
