ASSUMPTIONS = ["the hash under HMAC, the block cipher under CMAC/CBC-MAC and the MAC under the KDFs are small linear models with symbolic keys that also assert they are used in a legal order"]
OUTSIDE = "scrypt; GMAC beyond its GCM authentication (C09); parameters fetched from a provider other than the built-in one"
FS = ["--max-field-sensitivity-array-size", "300"]
def cs(l): return "CASES={" + ",".join("{" + ",".join(map(str, x)) + "}" for x in l) + "}"
HARNESSES = []
def h(name, c, entry, **k):
    d = dict(name=name, c=c, entry=entry, autolink=False, unwind=70, solver="cadical", flags=FS); d.update(k); HARNESSES.append(d)
HM = dict(srcs=["crypto/hmac/src/hmac.c"])
HC = [(0, 0, 0), (3, 1, 5), (8, 0, 9), (9, 3, 3), (17, 8, 17)]
HT = HC + [(7, 0, 8), (24, 5, 20), (1, 20, 24)]
for tb, td in ((8, 4), (6, 6)):
    D = ["TB=%d" % tb, "TD=%d" % td]
    h("hmac_%d" % tb, "hmac.c", "h_hmac", defs=D + [cs(HC)], bounds="keys of 0..17 bytes (block %d, digest %d), messages to 17 bytes in two calls, reinit and rekey" % (tb, td), thorough=dict(defs=D + [cs(HT)], bounds="8 key and message lengths to 24 bytes", timeout=600), **HM)
h("hmac_dup", "hmac.c", "h_hmac", defs=["DUP", cs([(3, 1, 5), (9, 4, 9)])], bounds="copied in mid-message, both finished with different data", **HM)
h("hmac_room", "hmac.c", "h_hmac_room", bounds="every output length below the tag's", **HM)
CM = "crypto/cmac/src/cipher_mac_common.c"
for nm, src, D in (("cmac", "crypto/cmac/src/cmac.c", []), ("cbcmac", "crypto/cmac/src/cbc_mac.c", ["CBC"])):
    for B in (8, 16):
        q = [(0, 0, 1) if nm == "cbcmac" else (0, 0, 0), (1, 3, B - 1), (0, 0, B), (B, B, B + 1), (3, B, 2 * B), (1, B + 2, 2 * B + 3)]
        t = q + [(B - 1, B, B), (0, 2 * B, 3 * B), (B, 2 * B, 3 * B + 2), (2, 2, 2 * B)]
        h("%s_%d" % (nm, B), "cmac.c", "h_cmac", srcs=[src, CM], defs=D + ["TOY_LINEAR", "TOYB=%d" % B, cs(q)], bounds="6 messages of 0..%d bytes in three calls, reinit; any key" % (2 * B + 3), thorough=dict(defs=D + ["TOY_LINEAR", "TOYB=%d" % B, cs(t)], timeout=600, bounds="10 messages to %d bytes" % (3 * B + 2)))
    h("%s_dup" % nm, "cmac.c", "h_cmac", srcs=[src, CM], defs=D + ["TOY_LINEAR", "TOYB=8", "DUP", cs([(3, 5, 9), (8, 8, 16)])], bounds="copied in mid-message")
    h("%s_room" % nm, "cmac.c", "h_cmac_room", srcs=[src, CM], defs=D + ["TOY_LINEAR", "TOYB=8"], bounds="every output length below the tag's")
SP = dict(srcs=["crypto/siphash/src/siphash.c"])
SC = [(0, 0, 0), (0, 3, 7), (3, 8, 8), (1, 5, 9)]
for hs in (8, 16):
    for cr, fr, tier in ((1, 1, "quick"), (2, 4, "thorough")):
        h("siphash_%d_%d%d" % (hs, cr, fr), "sip.c", "h_sip", solver="kissat", tier=tier, timeout=300, defs=["HS=%d" % hs, "CR=%d" % cr, "FR=%d" % fr, cs(SC if cr == 1 else SC[:2])], bounds="messages of 0..17 bytes in three calls, SipHash-%d-%d" % (cr, fr), **SP)
h("siphash_reinit", "sip.c", "h_sip", solver="kissat", timeout=300, defs=["HS=16", "CR=1", "FR=1", "REINIT", cs([(0, 1, 2), (4, 8, 9)])], bounds="reinit after an abandoned message", **SP)
KD = dict(srcs=["crypto/hkdf/src/hkdf.c", "crypto/kdf/src/kdf_tls12.c", "crypto/pbkdf2/src/pbkdf2.c", "crypto/util/crypt_util_ctrl.c", "bsl/params/src/bsl_params.c"])
FULL, EXT, EXP = "CRYPT_KDF_HKDF_MODE_FULL", "CRYPT_KDF_HKDF_MODE_EXTRACT", "CRYPT_KDF_HKDF_MODE_EXPAND"
h("hkdf", "kdf.c", "h_kdf", defs=["KDF=hkdf", cs([(3, 2, 1, 1, FULL), (5, 5, 4, 4, FULL), (8, 1, 3, 9, FULL), (4, 2, 8, 5, EXP), (2, 3, 1, 12, EXP), (5, 4, 2, 4, EXT), (1, 8, 2, 6, EXT)])], bounds="7 combinations of key, salt, info and output lengths (to 12 bytes of 4-byte blocks)", **KD)
h("tls12_prf", "kdf.c", "h_kdf", defs=["KDF=tls12", cs([(3, 2, 1, 1, 0), (5, 5, 4, 4, 0), (8, 1, 3, 9, 0), (4, 2, 8, 12, 0), (1, 8, 2, 13, 0)])], bounds="5 combinations of secret, label, seed and output lengths (to 13 bytes)", **KD)
h("pbkdf2", "kdf.c", "h_kdf", defs=["KDF=pbkdf2", cs([(3, 2, 1, 1, 0), (5, 5, 2, 4, 0), (8, 1, 3, 9, 0), (4, 2, 1, 8, 0), (1, 8, 4, 5, 0)])], bounds="5 combinations of password, salt, iteration count (1..4) and output length (to 9 bytes)", **KD)
h("hkdf_limit", "kdf.c", "h_hkdf_limit", defs=["KDF=hkdf"], bounds="every output length and digest size", **KD)

h("pbkdf2_counter", "kdf.c", "h_counter", defs=["REC", "KDF=pbkdf2"], bounds="every block number", **KD)
h("hkdf_counter", "kdf.c", "h_counter", unwind=300, defs=["KDF=hkdf", "REC", "REC_HKDF"], bounds="one output of 255 blocks: the counter each block is given", **KD)
h("pbkdf2_iter", "kdf.c", "h_kdf", solver="kissat", tier="thorough", timeout=400, unwind=600, defs=["KDF=pbkdf2", cs([(1, 1, 300, 5, 0)])], bounds="300 iterations, two blocks", **KD)
