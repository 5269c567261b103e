ASSUMPTIONS = ["the hash and the mask generation are replaced by functions with any output that record their input; they have their own checks (C10, mgf here)", "memory can be allocated (failure is not considered)"]
OUTSIDE = "the RSA operation itself (big numbers), key sizes above 512 bits except PKCS#1 v1.5 signatures (1024), ISO 9796-2, salt length detection, timing"
FS = ["--max-field-sensitivity-array-size", "300"]
HARNESSES = []
def h(name, entry, defs, **k):
    d = dict(name=name, c="pad.c", entry=entry, defs=defs, autolink=False, unwind=170, solver="cadical", flags=FS,
             srcs=["crypto/rsa/src/rsa_padding.c", "crypto/util/crypt_utils.c"]); d.update(k); HARNESSES.append(d)
for kb in (512, 513, 514, 519):
    hl = 53 if kb < 514 else 54
    b = "keys of %d bits, digest of %d bytes, every salt length that fits and one more, every encoded message" % (kb, hl)
    h("pss_set_%d" % kb, "h_pss_set", ["H_PSS", "KB=%d" % kb, "HL=%d" % hl], bounds=b, tier="thorough" if kb == 519 else "quick")
    h("pss_verify_%d" % kb, "h_pss_verify", ["H_PSS", "KB=%d" % kb, "HL=%d" % hl], bounds=b, tier="thorough" if kb == 519 else "quick")
for i, n in enumerate(("verify", "recover", "set")):
    h("type1_" + n, "h_type1", ["H_T1", "MODE=%d" % i], bounds="every 128-byte block and digest, all supported hash functions and one unsupported")
h("type2_dec", "h_type2", ["H_T2"], bounds="every block of 10..20 bytes, output room 0..8")
h("type2_tls", "h_type2", ["H_T2", "TLSPAD", "TN=15"], bounds="every block of 10..15 bytes, output room 1..8")
h("type2_set", "h_type2", ["H_T2", "SET", "TN=14"], uw={"SetPkcsV15Type2.1$": 4}, bounds="messages of 0..6 bytes in 14, at most two zero bytes drawn again")
for hl, ml in ((4, 6),):
    h("oaep_dec", "h_oaep", ["H_OAEP", "HL=%d" % hl, "ML=%d" % ml], bounds="every block of 16 bytes, digest of 4, room 0..8")
    h("oaep_set", "h_oaep", ["H_OAEP", "SET", "HL=%d" % hl, "ML=%d" % ml], bounds="messages of 0..8 bytes")
