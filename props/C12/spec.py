ASSUMPTIONS = ["fragments have passed the header check (decided separately): offset plus length within the message"]
OUTSIDE = "retransmission timers; more than three fragments of one message at once"
HARNESSES = []
def h(name, c, entry, **k):
    d = dict(name=name, c=c, entry=entry, autolink=False, unwind=40, solver="cadical"); d.update(k); HARNESSES.append(d)
R = ["tls/handshake/reass/src/hs_reass.c"]
for L, NF, tier in ((0, 1, "quick"), (1, 2, "quick"), (8, 2, "quick"), (9, 3, "quick"), (16, 2, "quick"), (18, 2, "quick"), (17, 3, "thorough"), (26, 2, "thorough"), (9, 4, "thorough"), (25, 3, "thorough"), (33, 3, "thorough")):
    h("reass_%d_%d" % (L, NF), "reass.c", "h_reass", srcs=R, defs=["L=%d" % L, "NF=%d" % NF], timeout=120 if tier == "quick" else 900, tier=tier, bounds="message of %d bytes in %d fragments of any position and length" % (L, NF))
h("mismatch", "reass.c", "h_mismatch", srcs=R, defs=["L=9", "NF=2"], bounds="any type, length, offset of a second fragment")
h("window", "reass.c", "h_window", srcs=R, defs=["L=2", "NF=2"], bounds="any expected and received sequence numbers")

O = ["tls/handshake/recv/src/hs_state_recv.c", "tls/handshake/parse/src/parse.c"]
h("order", "order.c", "h_order", srcs=O, defs=["H_ORDER"], replace={"HS_ParseMsg": "stub_ParseMsg", "CheckHsMsgType": "stub_CheckType"}, bounds="any expected sequence number, any next fragment (bodies up to 8 bytes), queue empty or not")
h("header", "order.c", "h_header", srcs=O, defs=["H_HDR"], bounds="any 12-byte header, any number of bytes of it")
