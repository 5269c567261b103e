MD = dict(SHA256=("crypto/sha2/src/sha2_256.c", 64), SHA224=("crypto/sha2/src/sha2_256.c", 64), SHA512=("crypto/sha2/src/sha2_512.c", 128), SHA384=("crypto/sha2/src/sha2_512.c", 128),
    SHA1=("crypto/sha1/src/sha1.c", 64), MD5=("crypto/md5/src/md5.c", 64), SM3=("crypto/sm3/src/sm3_public.c", 64))
ASSUMPTIONS = ["the assembly compression functions (and the Keccak permutation, except where it is the subject) are replaced by linear models that depend on every input byte and on the order of blocks"]
OUTSIDE = "the assembly compression functions themselves; multi-buffer SHA-256 (aarch64 only); messages longer than 2 blocks except for the length counter"
FS = ["--max-field-sensitivity-array-size", "300"]
def cs(n, l): return n + "={" + ",".join("{" + ",".join(map(str, x)) + "}" for x in l) + "}"
HARNESSES = []
def h(name, c, entry, **k):
    d = dict(name=name, c=c, entry=entry, autolink=False, unwind=400, solver="cadical", flags=FS); d.update(k); HARNESSES.append(d)
def mdcases(B, L):
    b = B - L
    q = [(0, 0, 0), (0, 3, b - 1), (1, 1, b), (b - 1, b, B - 1), (0, 0, B), (5, B, B + 1), (5, B + 5, B + b), (B - 1, 2 * B, 2 * B + 2)]
    t = [(0, B, B), (B, B, 2 * B), (b, B + 1, B + b - 1), (2, 2 * B - 2, 2 * B), (7, 9, 11), (1, 1 + B, 2 * B + 7), (B + 3, B + 3, 2 * B - 1), (0, B - 1, 2 * B - 1)]
    return q, q + t
for m, (src, B) in MD.items():
    L = 16 if B == 128 else 8
    q, t = mdcases(B, L)
    D = ["D_" + m]
    h(m.lower() + "_stream", "md.c", "h_stream", srcs=[src], defs=D + [cs("CASES", q)], bounds="8 messages of 0..%d bytes around every padding boundary in three updates; any content" % (2 * B + 2),
        thorough=dict(defs=D + [cs("CASES", t)], bounds="16 messages to %d bytes" % (2 * B + 7), timeout=600))
    h(m.lower() + "_copy", "md.c", "h_stream", srcs=[src], defs=D + ["COPY", cs("CASES", [(3, 5, 9), (B - 1, B, B + 2), (B, B, 2 * B)])], bounds="copy of a context in mid message, both finished with different data")
    h(m.lower() + "_room", "md.c", "h_room", srcs=[src], defs=D, bounds="every output length below the digest's")
    h(m.lower() + "_final", "md.c", "h_final", srcs=[src], defs=D + ["REC"], bounds="every buffered length and every value of the bit counter")
    h(m.lower() + "_count", "md.c", "h_count", srcs=[src], defs=D + ["REC", "COUNT"], bounds="every counter value, every 32-bit update length that is a multiple of the block")
S3 = ["crypto/sha3/src/sha3.c", "crypto/sha3/src/noasm_sha3.c"]
RP = {"SHA3_Keccak": "ToyKeccak"}
for pre, R, pad, dig in (("SHA3_224", 144, 6, 28), ("SHA3_256", 136, 6, 32), ("SHA3_384", 104, 6, 48), ("SHA3_512", 72, 6, 64), ("SHAKE128", 168, 0x1f, 0), ("SHAKE256", 136, 0x1f, 0)):
    D = ["PRE=CRYPT_" + pre, "RATE=%d" % R, "PADC=%d" % pad, "DIG=%d" % dig]
    q = [(0, 0, 0), (1, 3, R - 1), (0, 0, R), (5, R, R + 1), (R - 1, R + 4, 2 * R)]
    t = q + [(R - 2, R - 1, R - 1), (1, 1, 2 * R - 1), (R, 2 * R, 2 * R + 3), (3, R + 3, R + 3)]
    o = [(0, 0, 1), (0, 0, 32), (0, 0, R), (0, 0, R + 1), (0, 0, 2 * R)]
    k = dict(srcs=S3, replace=RP)
    h(pre.lower(), "keccak.c", "h_sponge", defs=D + [cs("CASES", q), cs("OCASES", o)], bounds="5 messages of 0..%d bytes in three updates; any content" % (2 * R), thorough=dict(defs=D + [cs("CASES", t), cs("OCASES", o)], bounds="9 messages to %d bytes" % (2 * R + 3), timeout=600), **k)
    if dig:
        h(pre.lower() + "_room", "keccak.c", "h_room", defs=D + [cs("CASES", q)], bounds="every output length below the digest's", **k)
    else:
        oq = [(0, 1, 5), (1, R, R + 1), (R - 1, R, R + 3), (R, R, 2 * R), (3, R + 3, 2 * R + 1), (5, 9, R)]
        h(pre.lower() + "_squeeze", "keccak.c", "h_sponge", defs=D + ["SQUEEZE", cs("CASES", [(0, 1, 2)] * 6), cs("OCASES", oq)], bounds="output of up to %d bytes taken in three calls, 6 splits" % (2 * R + 1), **k)
    if pre in ("SHA3_256", "SHA3_512", "SHAKE128", "SHAKE256"):
        h(pre.lower() + "_oneshot", "keccak.c", "h_oneshot", defs=D + ["ONESHOT", cs("CASES", [(0, 5, 0), (0, R, 3), (0, R + 1, R - 1), (0, 2 * R, R), (0, 33, R + 9)])], bounds="5 message and output lengths", **k)
h("keccak_perm", "perm.c", "h_perm", srcs=["crypto/sha3/src/public_sha3.c"], solver="kissat", timeout=600, bounds="every 1600-bit state, all 24 rounds, against FIPS 202 written out")
B2 = dict(srcs=["crypto/blake2/src/blake2s.c", "crypto/blake2/src/noasm_blake2s.c"])
BC = [(0, 0, 0), (0, 1, 63), (0, 0, 64), (5, 64, 65), (64, 64, 128), (63, 65, 129), (1, 100, 130), (0, 64, 64)]
h("blake2s_stream", "blake.c", "h_stream", replace={"BLAKE2S_Compress": "ToyBlake"}, defs=["H_STREAM", cs("CASES", BC)], bounds="8 messages of 0..130 bytes in three updates", **B2)
h("blake2s_room", "blake.c", "h_room", replace={"BLAKE2S_Compress": "ToyBlake"}, defs=["H_STREAM", cs("CASES", BC)], bounds="every output length below the digest's", **B2)
