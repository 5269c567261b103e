R = ["tls/record/src/rec_conn.c", "tls/record/src/rec_buf.c", "tls/record/src/rec_crypto.c", "tls/record/src/rec_crypto_cbc.c", "tls/record/src/rec_crypto_aead.c",
     "tls/record/src/rec_unprocessed_msg.c", "bsl/list/src/bsl_list_ex.c", "bsl/list/src/bsl_list_internal.c", "bsl/list/src/bsl_list.c", "tls/record/src/rec_alert.c"]
ASSUMPTIONS = ["the block cipher is the identity and the hash a 32-bit rolling digest (HMAC built from it per RFC 2104)", "the AEAD is an oracle that accepts or rejects"]
OUTSIDE = "timing; record lengths other than those listed"
FS = ["--max-field-sensitivity-array-size", "320"]
def cbc(name, d, n, **k):
    return dict(name=name, c="protect.c", defs=d, srcs=R, unwind=300, flags=FS, bounds=n, **k)
HARNESSES = [
    *[cbc("mte_decrypt_pad%d" % p, ["H_MTE_DEC", "N=32", "MACLEN=20", "BLEN=64", "PADS={%d}" % p] + (["REJ"] if p > 11 else []), "32 plaintext bytes (all values), padding length byte %d, HMAC-SHA1 sized MAC" % p, cost=5, solver="cadical") for p in (0, 3, 11, 12, 255)],
    cbc("mte_decrypt_384", ["H_MTE_DEC", "N=64", "MACLEN=48", "BLEN=128", "PADS={0,1,14,15,16,17,63,64,255}"], "64 plaintext bytes, HMAC-SHA384 sized MAC", tier="thorough", timeout=900),
    cbc("etm_decrypt", ["H_ETM_DEC", "N=32", "MACLEN=20", "BLEN=64", "PADS={0,15,31,32,255}"], "32 plaintext bytes, padding length byte in {0,15,31,32,255}", cost=5, solver="cadical"),
    cbc("etm_decrypt_long", ["H_ETM_DEC", "N=272", "MACLEN=20", "BLEN=64", "PADS={255}"], "272 plaintext bytes, padding length byte 255", solver="cadical", cost=9),
    cbc("mte_decrypt_long", ["H_MTE_DEC", "N=288", "MACLEN=20", "BLEN=64", "PADS={255}", "SYM=34"], "288 plaintext bytes, padding length byte 255, content, MAC and first two padding bytes symbolic", solver="cadical", cost=9),
    *[cbc("cbc_lengths%d" % k, ["H_CBC_LEN", "N=80", "MACLEN=20", "BLEN=64", "LENS={%s}" % l], "record lengths %s, either MAC order" % l, cost=4) for k, l in enumerate(["1,16,20,36,47", "32,49,51", "53,65"])],
    cbc("mte_encrypt", ["H_CBC_ENC", "ETM=0", "N=28", "N0=0", "N1=11", "N2=28", "MACLEN=20", "BLEN=64"], "content lengths 0, 11, 28"),
    cbc("etm_encrypt", ["H_CBC_ENC", "ETM=1", "N=16", "N0=0", "N1=15", "N2=16", "MACLEN=20", "BLEN=64"], "content lengths 0, 15, 16"),
    cbc("aead_tls12_gcm", ["H_AEAD", "AEAD", "VER=HITLS_VERSION_TLS12", "XIV=1", "MACLEN=20", "BLEN=64", "N=1"], "5-byte content, any IV/sequence number/type"),
    cbc("aead_tls12_chacha", ["H_AEAD", "AEAD", "VER=HITLS_VERSION_TLS12", "XIV=0", "MACLEN=20", "BLEN=64", "N=1"], "5-byte content"),
    cbc("aead_dtls12_gcm", ["H_AEAD", "AEAD", "VER=HITLS_VERSION_DTLS12", "XIV=1", "MACLEN=20", "BLEN=64", "N=1"], "5-byte content"),
    cbc("aead_tls13", ["H_AEAD", "AEAD", "VER=HITLS_VERSION_TLS13", "XIV=0", "MACLEN=20", "BLEN=64", "N=1"], "5-byte content"),
    cbc("inner_plaintext", ["H_INNER", "N=8", "MACLEN=20", "BLEN=64"], "inner plaintexts of 0..8 bytes"),
]
