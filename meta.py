NOT_APPLICABLE = {}
PROPS = []
def P(**k): PROPS.append(k)
P(id="C01", title="Base64 codec inverts itself and rejects malformed input",
  statement="Encoding any byte string to Base64 in one call or in any sequence of update calls gives the standard RFC 4648 text (with line breaks in update mode), never writing past the announced length. Decoding that text in one call or any chunking returns the original bytes, and text that is not valid Base64 (bad characters, misplaced or excess padding, data after padding) is refused.",
  over=["inputs", "histories"], quant="every byte string and every text up to the stated length, every split into update calls",
  why="Tests encode and decode fixed samples; they cannot cover every content, padding position and chunk boundary.",
  files=["bsl/base64/src/bsl_base64.c"], mech=[("context buffering of partial quanta", "bsl/base64/src/bsl_base64.c")],
  observe=["BSL_BASE64_Encode", "BSL_BASE64_Decode", "BSL_BASE64_EncodeUpdate/Final", "BSL_BASE64_DecodeUpdate/Final"],
  design="The real encoder and decoder run on symbolic bytes; the oracle is an independent RFC 4648 encoder in the harness. Update-mode harnesses use symbolic chunk boundaries.",
  note="All contents for lengths stated per harness (evidence); longer inputs only repeat the same 3-byte/4-character quanta.")
P(id="C02", title="DTLS delivers no record twice",
  statement="Over a datagram transport, a record whose sequence number was already delivered, or is older than the replay window, is never delivered, and one that is new and authentic is delivered. A record that fails authentication or is a replay leaves the window unchanged, and the windows of different epochs do not influence each other.",
  over=["histories", "inputs"], quant="every history of record numbers (induction over one step from any window state), every verdict of record protection, every epoch",
  why="Replay tests send a few duplicates; the window must be right for every reachable window state and every 48-bit number.",
  files=["tls/record/src/rec_anti_replay.c", "tls/record/src/rec_read.c"], mech=[("sliding window", "tls/record/src/rec_anti_replay.c"), ("window update only after authentication", "tls/record/src/rec_read.c")],
  observe=["the DTLS record read function"],
  design="Window functions: one inductive step from an arbitrary window consistent with an arbitrary delivered/undelivered history, plus a short history from reset. Read path: the real DTLS 1.2 and 1.3 record read functions process symbolic datagrams with record protection as a nondeterministic oracle; delivery must equal (authentic and not replayed).",
  note="Record protection is an oracle, the DTLS 1.3 number mask is the identity; records cached across an epoch change and SCTP are outside.")
P(id="C03", title="Each protected record leaves once, under a fresh sequence number",
  statement="Whatever the transport does (partial writes, would-block, errors), the bytes that leave on a stream connection are whole records in order without loss or duplication, and a retried write resumes the pending record instead of protecting it again. Every protected record uses its own sequence number, increasing by one per record, and when the number space is exhausted no further record is protected.",
  over=["fault_sequences", "histories"], quant="every schedule of transport results over the stated number of writes, every starting number",
  why="Tests drive a cooperative transport; partial writes and counter exhaustion at arbitrary points are not reached.",
  files=["tls/record/src/rec_write.c", "tls/record/src/rec_conn.c"], mech=[("pending record buffer", "tls/record/src/rec_write.c"), ("sequence number increment and wrap flag", "tls/record/src/rec_write.c")],
  observe=["record write functions", "transport write"],
  design="The real TLS and DTLS record write functions run against a transport stub returning any partial count, would-block or error, and a protection oracle that records the sequence number it is given; asserted on the wire bytes and on the numbers.",
  note="3 writes (5 thorough), any schedule of up to 3 transport results each; payload of one byte; datagram transports send all or nothing.")
P(id="C04", title="Record parsing stays inside received data and loses nothing",
  statement="For any received datagram the record layer reads only received bytes, passes on exactly the body and header fields the record announces, only accepts records of the current epoch and version, and reconstructs truncated DTLS 1.3 epoch and sequence numbers to the nearest expected value. For any chunking of a TLS byte stream the records delivered are exactly the stream's records in order, each with the next sequence number, and headers with unknown type, wrong version or excessive length are refused.",
  over=["inputs", "schedules"], quant="every datagram content of the stated lengths, every chunking of the stream, every header, every partial number",
  why="Malformed headers are tested one by one; over-reads and chunk boundaries need all contents and all splits.",
  files=["tls/record/src/rec_read.c", "tls/record/src/rec_buf.c"], mech=[("header length checks", "tls/record/src/rec_read.c"), ("stream reassembly buffer", "tls/record/src/rec_read.c")],
  observe=["record read functions"],
  design="The datagram harness gives the real read function a receive buffer of exactly the datagram's size, so any over-read is an out-of-bounds access; fields passed to decryption are compared with the wire bytes. The stream harness is one inductive step: any buffered prefix, any further chunks; what is delivered plus what remains must be the stream.",
  note="Datagrams of the lengths listed in evidence, stream records of 1..2 body bytes in an 8-byte buffer, no connection ID; delivery queues stubbed.")
P(id="C05", title="Record protection accepts exactly valid records, without leaks into lengths",
  statement="A CBC record is accepted exactly when its padding and MAC (MAC-then-encrypt or encrypt-then-MAC) are both valid over the sequence number, type, version and length, and then yields exactly the protected content; padding and MAC failures give the same error. AEAD records use the nonce and additional data prescribed for the version, any authentication failure is fatal and yields no plaintext, and the TLS 1.3 inner plaintext is unwrapped to the last non-zero byte as type.",
  over=["inputs"], quant="every record content for the stated record lengths, padding lengths and MAC sizes",
  why="Tests protect and unprotect a few records; forged padding and MAC combinations need the whole input space.",
  files=["tls/record/src/rec_crypto_cbc.c", "tls/record/src/rec_crypto_aead.c", "tls/record/src/rec_crypto.c"], mech=[("constant-time MAC extraction", "tls/record/src/rec_crypto_cbc.c"), ("nonce and AAD construction", "tls/record/src/rec_crypto_aead.c")],
  observe=["record encrypt/decrypt functions"],
  design="The block cipher is the identity and the hash a small rolling digest from which HMAC is built independently in the oracle, so the real padding, MAC extraction and comparison code is decided against the definition. AEAD calls are captured and compared with the RFC nonce/AAD layout.",
  note="Record lengths and paddings listed in evidence; timing is outside; cipher and hash are models.")
P(id="C06", title="ASN.1 DER elements are decoded exactly and encoding round-trips",
  statement="An element is accepted exactly when its definite length fits the remaining input; the returned tag, length, value and cursor are those encoded, a refused element leaves the cursor in place, and decoding against a template never reads outside the input or writes more results than the caller has room for. Integers, booleans, bit strings, and UTC/generalized times are decoded to exactly their value or refused when out of range, values encoded through a template decode back to the same values, and string conversion to UTF-8 accepts exactly valid code points and produces their standard encoding.",
  over=["inputs"], quant="every byte string of the stated lengths, every value of the encoded fields",
  why="Hostile encodings combine lengths, tags and nesting in more ways than a test list can enumerate.",
  files=["bsl/asn1/src/bsl_asn1.c"], mech=[("length and layer bounds", "bsl/asn1/src/bsl_asn1.c"), ("template interpreter", "bsl/asn1/src/bsl_asn1.c")],
  observe=["BSL_ASN1_DecodeLen/DecodeTagLen/DecodeItem/DecodeTemplate/DecodePrimitiveItem", "BSL_ASN1_EncodeTemplate", "BSL_ASN1_ToUtf8String"],
  design="Symbolic byte strings in exactly sized buffers against an independent length parser and calendar/UTF-8 oracles; four representative templates (optional, default, choice, any, header-only) are decoded from any bytes and round-tripped.",
  note="Input lengths per harness in evidence; leading octets of round-tripped integers are fixed per case; list decoding is outside.")
P(id="C07", title="Calendar arithmetic agrees with the Gregorian calendar",
  statement="A date-time is accepted exactly when it exists in the calendar from 1970 on, converts to the number of seconds since 1970-01-01, and dates compare in chronological order down to the microsecond. Adding microseconds, or days and seconds, gives exactly the later or earlier moment whenever it is representable, and otherwise an error.",
  over=["inputs"], quant="every field value, every date in the stated years, every offset",
  why="Leap years, month ends and integer limits are only sampled by tests.",
  files=["bsl/sal/src/sal_time.c"], mech=[("seconds since epoch", "bsl/sal/src/sal_time.c"), ("overflow checks", "bsl/sal/src/sal_time.c")],
  observe=["BSL_DateTimeCheck", "BSL_SAL_DateToUtcTimeConvert", "BSL_SAL_DateTimeCompare(ByUs)", "BSL_DateTimeAddUs", "BSL_DateTimeAddDaySecond"],
  design="Symbolic dates against a calendar written from its definition; conversion is decided per year with symbolic month and day, the time of day separately, and additions relative to the conversion with gmtime_r as its specification.",
  note="Years 1966-1981, 1998-2006, 2099-2101 (1970-2199 thorough) for conversion; microsecond counts in three ranges around 0, 2^31 and 2^32.")
P(id="C08", title="Block-cipher modes equal their definition however the message is split",
  statement="In ECB, CBC, CTR, OFB and CFB (128/64/8/1) mode the concatenated output equals the mode's definition applied to the whole message, for every way of splitting it into update calls, in place or not, including counter carries. Padding (zeros, ISO 7816, X9.23, PKCS#7) is added as defined, removed exactly when correct and otherwise refused, a message that is not a whole number of blocks is refused without padding, and no call reads or writes beyond the data it was given.",
  over=["inputs", "histories"], quant="every content, key and IV for the stated lengths and splits",
  why="Known-answer tests use few lengths and splits; buffering across calls, counter wraps and forged paddings need all of them.",
  files=["crypto/modes/src/modes.c", "crypto/modes/src/modes_cbc.c", "crypto/modes/src/modes_ctr.c", "crypto/modes/src/modes_cfb.c", "crypto/modes/src/asm_aes_ctr.c"], mech=[("partial-block cache", "crypto/modes/src/modes.c"), ("padding", "crypto/modes/src/modes.c"), ("32-bit counter kernel carry", "crypto/modes/src/asm_aes_ctr.c")],
  observe=["MODES_*_UpdateEx/FinalEx", "CRYPT_EAL_CipherUpdate/Final"],
  design="The real mode code runs over a small invertible block cipher with symbolic key, IV and message; the oracle applies the definition to the whole message. Two update calls from an arbitrary IV reach every buffering state. AES glue code runs with its assembly kernels modelled by definition.",
  note="4-byte blocks and 0..9 bytes for padding/caching, 16-byte blocks and up to 52 bytes on the AES paths; finishing a padded decryption that was given no data is not specified.")

P(id="C09", title="AEAD modes and key wrap equal their definition and reject everything altered",
  statement="CCM, GCM and ChaCha20-Poly1305 produce the ciphertext and tag of their standards (nonce formatting, length fields, header and message padding) for every header, message, nonce and tag length and every way of splitting the message into calls, including after an earlier unfinished message. Decryption succeeds exactly when the whole expected tag was supplied and matches; tag and nonce lengths outside the standard, messages beyond the announced or allowed length and reuse of a key stream block are refused. AES key wrap (with and without padding) equals its standard, unwraps exactly what wrapping produces, and leaves no key bytes behind when it fails.",
  over=["inputs", "histories"], quant="every content, key, nonce, header and tag for the stated lengths and splits; every value of the length fields and use counters",
  why="Known-answer tests fix a few lengths; length encodings, tag comparison and padding checks matter for inputs an attacker picks.",
  files=["crypto/modes/src/modes_ccm.c", "crypto/modes/src/modes_gcm.c", "crypto/modes/src/modes_chacha20_poly1305.c", "crypto/modes/src/modes_aes_wrap.c", "crypto/chacha20/src/chacha20.c", "crypto/modes/src/asm_aes_gcm.c", "crypto/modes/src/asm_aes_ccm.c"],
  mech=[("tag comparison", "crypto/modes/src/modes.c"), ("GHASH padding and lengths", "crypto/modes/src/modes_gcm.c"), ("key-stream accounting", "crypto/chacha20/src/chacha20.c"), ("wrap integrity check", "crypto/modes/src/modes_aes_wrap.c")],
  observe=["MODES_*_UpdateEx/Final/Ctrl", "MODES_WRAP_Update"],
  design="The real mode code runs over linear models of the block cipher, GHASH, Poly1305 and the ChaCha20 block with symbolic keys; the oracle applies the standard to the whole message. A second family records what the primitives are given so that length fields and limits are decided for every 32/64-bit length. Key wrap is compared both ways with an oracle for arbitrary wrapped strings.",
  note="Headers to 31 and messages to 130 bytes with data, all lengths in the recording harnesses; the primitives' arithmetic and the SM4 bulk kernels are outside.")
P(id="C10", title="Digests depend only on the message, not on how it is fed or what ran before",
  statement="SHA-1, SHA-2, MD5, SM3, SHA-3, SHAKE and BLAKE2s digests are those of the standard's padding and block chaining applied to the whole message, however it is split into update calls, whatever the context was used for before, and after copying a context in mid-message; SHAKE output does not depend on how it is split into squeeze calls. The length field holds the number of message bits for every length, and a SHA-1, SHA-2, MD5 or SM3 message that would overflow its length counter is refused. An output buffer shorter than the digest is refused and nothing past the digest is written; the Keccak permutation is that of FIPS 202.",
  over=["inputs", "histories"], quant="every content, and every previous context content, for the stated lengths and splits; every counter value for the length field; every state for Keccak",
  why="Known-answer tests feed a few lengths in one or two calls; boundary lengths, splits and counters near overflow are not reached.",
  files=["crypto/sha1/src/sha1.c", "crypto/sha2/src/sha2_256.c", "crypto/sha2/src/sha2_512.c", "crypto/md5/src/md5.c", "crypto/sm3/src/sm3_public.c", "crypto/sha3/src/sha3.c", "crypto/sha3/src/noasm_sha3.c", "crypto/sha3/src/public_sha3.c", "crypto/blake2/src/blake2s.c"],
  mech=[("block buffer", "crypto/sha2/src/sha2_256.c"), ("length counter", "crypto/sha2/src/sha2_512.c"), ("sponge buffer", "crypto/sha3/src/sha3.c"), ("permutation", "crypto/sha3/src/public_sha3.c")],
  observe=["CRYPT_*_Init/Update/Final/Squeeze", "CRYPT_EAL_MdUpdate"],
  design="The real streaming code runs over a linear model of the (assembly) compression function; the oracle pads the whole message and chains it. Recording models decide the length field for every counter value. The 24-round Keccak permutation is compared lane by lane with FIPS 202 for all 2^1600 states (kissat, congruence closure).",
  note="Messages to about two blocks around every padding boundary, three update calls; the assembly compression functions are outside.")
P(id="C11", title="MACs and key derivation equal their definition for every length and split",
  statement="HMAC, CMAC, CBC-MAC and SipHash tags equal their definition for every key (of every length the MAC accepts) and message, however the message is split into update calls, after reinitialisation or re-keying, and after copying a context in mid-message; an output buffer shorter than the tag is refused and nothing past the tag is written. HKDF (full, extract, expand), the TLS 1.2 PRF and PBKDF2 produce exactly the requested number of bytes of their definition, and HKDF output beyond 255 blocks is refused.",
  over=["inputs", "histories"], quant="every key, salt, label and message content for the stated lengths and splits; every output length for the limits",
  why="Known-answer vectors cover a few lengths; keys at the block size, messages ending on a block boundary and partial last blocks are the places where they are wrong.",
  files=["crypto/hmac/src/hmac.c", "crypto/cmac/src/cmac.c", "crypto/cmac/src/cbc_mac.c", "crypto/cmac/src/cipher_mac_common.c", "crypto/siphash/src/siphash.c", "crypto/hkdf/src/hkdf.c", "crypto/kdf/src/kdf_tls12.c", "crypto/pbkdf2/src/pbkdf2.c"],
  mech=[("key preparation", "crypto/hmac/src/hmac.c"), ("last block handling", "crypto/cmac/src/cmac.c"), ("output block loop", "crypto/hkdf/src/hkdf.c")],
  observe=["CRYPT_HMAC/CMAC/CBC_MAC/SIPHASH_*", "CRYPT_HKDF/KDFTLS12/PBKDF2_*"],
  design="The real MAC code runs over small models of the hash and block cipher with symbolic keys and messages, the KDFs over a model MAC that also asserts it is used in a legal order; the oracles apply the definitions to the whole message. SipHash is compared with its definition directly.",
  note="Keys to 24, messages to about three blocks; SipHash with reduced round counts in the quick tier (2-4 rounds thorough, short messages); scrypt is outside.")
P(id="C12", title="DTLS handshake messages are reassembled exactly and processed in order",
  statement="Fragments of a DTLS handshake message arriving in any order, repeated or overlapping, are reassembled to exactly the original message, which is delivered once it is complete and only then; a fragment that contradicts the first one's type or length is refused, messages too far ahead of the expected one are not buffered. A handshake message is processed once, whole, and only with the expected sequence number; its header is refused when the fragment lies outside the message or the message is larger than allowed, and the transcript takes in the message as if it had not been fragmented.",
  over=["inputs", "schedules"], quant="every offset, length and order of up to 2-4 fragments and every content for the stated message lengths; every header; every sequence number",
  why="Tests send a few fragmentations; overlaps, byte boundaries of the received-bytes map and reordered messages have far more combinations.",
  files=["tls/handshake/reass/src/hs_reass.c", "tls/handshake/recv/src/hs_state_recv.c", "tls/handshake/parse/src/parse.c"],
  mech=[("received-bytes map", "tls/handshake/reass/src/hs_reass.c"), ("sequence number comparison", "tls/handshake/recv/src/hs_state_recv.c"), ("header checks", "tls/handshake/parse/src/parse.c")],
  observe=["HS_ReassAppend", "HS_GetReassMsg", "HS_RecvMsg path"],
  design="The real reassembly code is fed symbolic fragments of a symbolic message; a set of received bytes kept by the oracle decides when the message must come out, and its bytes must be the original's. The receive step runs for any header with the message processing recorded.",
  note="Messages of 1 to 33 bytes and 2-4 fragments (lengths around the map's byte boundaries); retransmission timers and ACKs are outside.")
P(id="C13", title="The handshake advances only by allowed messages that check out",
  statement="In every state, role and set of negotiated parameters, a TLS 1.2/1.3, DTLS 1.2/1.3 or TLCP endpoint processes only the handshake messages the protocol allows at that point; any other message is refused with a fatal alert and changes nothing, and a message that fails to parse or whose checks fail does not advance the handshake. A certificate is accepted only when it fits the negotiated parameters and its chain was verified (unless verification is switched off) and is followed by proof of possession of its key; a Finished message is accepted only when its whole content equals the expected verify data and, before TLS 1.3, after ChangeCipherSpec, and the state that follows each accepted message is the one the protocol prescribes.",
  over=["inputs", "histories"], quant="every receive state, role, message type, key exchange, negotiated flag and outcome of the operations involved; every verify data",
  why="Each handshake test walks one path; skipped, repeated or injected messages in other states are a classic source of authentication bypass.",
  files=["tls/handshake/recv/src/hs_state_recv.c", "tls/handshake/recv/src/recv_finished.c", "tls/handshake/recv/src/recv_certificate.c", "tls/handshake/recv/src/recv_cert_verify.c", "tls/handshake/recv/src/recv_cert_request.c", "tls/handshake/recv/src/recv_server_key_exchange.c", "tls/handshake/recv/src/recv_client_key_exchange.c", "tls/handshake/parse/src/parse.c"],
  mech=[("message type per state", "tls/handshake/parse/src/parse.c"), ("next state", "tls/handshake/recv/src/hs_state_recv.c"), ("verify data comparison", "tls/handshake/recv/src/recv_finished.c")],
  observe=["HS_RecvMsgProcess"],
  design="One receive step of the real state machine and message handlers from an arbitrary state, role and set of flags, with message bodies and cryptographic operations as oracles that may succeed or fail; compared with a transition table written from the protocols. Being inductive over the state it covers message histories of any length.",
  note="Hello messages choose the path and are decided elsewhere; renegotiation, QUIC and the sending side are outside; verify data of up to 16 bytes.")
P(id="C14", title="Only valid certification paths to a trusted certificate are accepted",
  statement="A certificate is accepted only through a path to a trusted certificate in which every link matches by name, key identifier, algorithm and signature, every certificate is within its validity period, every issuer is a CA allowed to sign certificates and within its path length constraint, no unsupported critical extension occurs and the depth and strength limits are met; a line of certificates that meets all of this is accepted. When CRL checking is requested, every certificate to check must be covered by a current, correctly signed CRL of an issuer allowed to sign CRLs, and be listed on none. When a purpose is set, the key usage and extended key usage of the end-entity certificate must allow it.",
  over=["inputs"], quant="every combination of certificate, CRL and parameter attributes and of oracle answers, for the stated numbers of certificates and CRLs",
  why="Certificate tests use a few dozen fixed chains; the rules interact (versions, self-issued certificates, partial chains, time and strength flags) in thousands of ways.",
  files=["pki/x509_verify/src/hitls_x509_verify.c", "pki/x509_verify/src/hitls_x509_store.c", "pki/x509_cert/src/hitls_x509_cert.c"],
  mech=[("path building", "pki/x509_verify/src/hitls_x509_verify.c"), ("basic constraints and path length", "pki/x509_verify/src/hitls_x509_verify.c"), ("signature and time checks", "pki/x509_verify/src/hitls_x509_verify.c"), ("CRL checks", "pki/x509_verify/src/hitls_x509_verify.c")],
  observe=["HITLS_X509_CertVerify", "verification callback"],
  design="The real verification runs over certificates whose attributes and mutual relations (who names, identifies and signed whom) are symbolic or enumerated; a path oracle written from RFC 5280 decides acceptance both ways for lines of certificates, and soundness for every relation between two. CRL and purpose checks run on an otherwise valid chain.",
  note="Up to 3 certificates (4 thorough) and 2 CRLs with 2 entries; parsing, name comparison and signatures themselves are oracles; host names and the full CRL mode (compiled out) are outside.")
P(id="C15", title="A certificate speaks only for the host names and addresses it lists",
  statement="Identity verification accepts a DNS host name exactly when a DNS alternative name of the certificate matches it, or, when there is none, its common name does: case-insensitively, with a wildcard only in the leftmost label (the whole label, or part of it when partial wildcards are enabled) and never across labels, and never through a name with an embedded NUL. It accepts an IP address exactly when the text is a well-formed IPv4 or IPv6 address and its bytes are one of the certificate's IP alternative names.",
  over=["inputs"], quant="every pattern, host name and address text up to the stated lengths, every alternative name list of two entries",
  why="Tests list some patterns and addresses; label boundaries, misplaced wildcards, empty labels and address grammar corners lie between them.",
  files=["pki/x509_common/src/hitls_x509_util.c", "bsl/sal/src/sal_ip_util.c"],
  mech=[("label matching", "pki/x509_common/src/hitls_x509_util.c"), ("fallback to the common name", "pki/x509_common/src/hitls_x509_util.c"), ("address grammar", "bsl/sal/src/sal_ip_util.c")],
  observe=["HITLS_X509_MatchPattern", "HITLS_X509_VerifyIdentity", "SAL_ParseIp"],
  design="The real matchers and parser run on symbolic strings; matching oracles written from RFC 9525/6125 and the address grammar decide acceptance in both directions. The identity check runs over a symbolic list of alternative names and common name.",
  note="Patterns to 5-6 and hosts to 6-7 characters, addresses to 9 (11 thorough) characters; a partial wildcard may stand for nothing; URI and SRV identities and certificate parsing are outside.")
P(id="C16", title="RSA encodings are produced and accepted exactly as the standards say",
  statement="PKCS#1 v1.5 and PSS signature encodings are accepted exactly when they are the encoding of the given digest (for the given hash, salt length and key size), with no other byte pattern of the block accepted; the encoders produce exactly that form; PKCS#1 v1.5 and OAEP decryption return the message exactly when the block is well formed (leading zero, type, at least eight non-zero padding bytes; label hash) and it fits the caller's room, and otherwise fail with nothing of the message written to the caller's buffer.",
  over=["inputs"], quant="every encoded block, digest, seed, message and output room of the stated sizes",
  why="Tests use published vectors; forged signatures and padding oracles come from the blocks just outside the format, of which tests have a handful.",
  files=["crypto/rsa/src/rsa_padding.c"],
  mech=[("PSS encode and verify", "crypto/rsa/src/rsa_padding.c"), ("PKCS#1 v1.5 signature block", "crypto/rsa/src/rsa_padding.c"), ("PKCS#1 v1.5 encryption block", "crypto/rsa/src/rsa_padding.c"), ("OAEP encode and decode", "crypto/rsa/src/rsa_padding.c")],
  observe=["CRYPT_RSA_SetPss", "CRYPT_RSA_VerifyPss", "CRYPT_RSA_VerifyPkcsV15Type1", "CRYPT_RSA_VerifyPkcsV15Type2", "CRYPT_RSA_VerifyPkcs1Oaep"],
  design="The real encoders and decoders run on symbolic blocks and messages with the hash as a recording oracle; oracles written from RFC 8017 decide the result, the produced bytes and untouched buffers.",
  note="PSS at 512 to 519 bit keys with explicit salt lengths; encryption blocks of 10-20 bytes; the modular exponentiation, automatic salt length detection and timing are outside; a salt asked for as 'as long as possible' with a key of 8n+1 bits is refused, which is not claimed.")
