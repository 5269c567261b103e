S = ["bsl/base64/src/bsl_base64.c"]
ASSUMPTIONS = ["allocation succeeds (allocator model)", "error stack and log are no-ops"]
OUTSIDE = "inputs longer than the stated lengths; chunk cuts other than those listed"
F = ["--max-field-sensitivity-array-size", "300"]
HARNESSES = [
    dict(name="encode", c="base64.c", defs=["H_ENC", "N=7"], srcs=S, unwind=40, bounds="input 0..7 bytes, any capacity",
         thorough=dict(defs=["H_ENC", "N=16"], bounds="input 0..16 bytes, any capacity", timeout=1200)),
    dict(name="decode", c="base64.c", defs=["H_DEC", "N=8"], srcs=S, unwind=40, bounds="text 0..8 chars, any capacity",
         thorough=dict(defs=["H_DEC", "N=12"], bounds="text 0..12 chars", timeout=1800)),
]
for k, (c, n) in enumerate([("0,23", 2), ("1,47", 2)]):
    HARNESSES.append(dict(name="stream_encode%d" % k, c="base64.c", defs=["H_SENC", "C1SET={%s}" % c], srcs=S, unwind=400, cost=5, flags=F,
         bounds="two chunks; first in {%s} bytes, second at each side of the 48-byte line boundaries; all contents" % c,
         thorough=dict(defs=["H_SENC", "C1SET={%s}" % ("0,1,2,3,4,5,6,7,8,16,17,18,23" if k else "24,31,32,33,40,41,42,43,44,45,46,47")], bounds="as quick, more first-chunk lengths", timeout=1800)))
HARNESSES += [
    dict(name="stream_encode_room", c="base64.c", defs=["H_SENC", "ROOM", "C1SET={1,47}"], srcs=S, unwind=400, flags=F, bounds="two chunks as above, one call with any smaller capacity", no_witness=False),
    dict(name="stream_decode_short", c="base64.c", defs=["H_SDEC", "N=5", "CSTEP=2"], srcs=S, unwind=100, uw={"DecodeBuffer": 4}, flags=F,
         bounds="text 1..5 chars, two chunks, even cuts",
         thorough=dict(defs=["H_SDEC", "N=12", "CSTEP=1"], bounds="text 1..12 chars, two chunks, any cut", timeout=1800)),
    *[dict(name="stream_decode_block%d" % a, c="base64.c", defs=["H_SDEC", "N=66", "PREFIX=61", "ONLY=%d" % a], srcs=S, unwind=100, uw={"DecodeBuffer": 18}, cost=5, flags=F,
         bounds="text of %d chars (first 61 a fixed data pattern, rest symbolic), two chunks cut at %d" % (n, c)) for a, n, c in ((0, 64, 63), (1, 66, 64), (2, 66, 62))],
    dict(name="stream_decode_room", c="base64.c", defs=["H_SDEC", "ROOM", "N=66", "PREFIX=66"], srcs=S, unwind=100, uw={"DecodeBuffer": 18}, cost=5, flags=F,
         bounds="64 or 66 valid characters, cuts as above, one call with any smaller capacity"),
]
