W = ["tls/record/src/rec_anti_replay.c"]
R = W + ["tls/record/src/rec_read.c", "tls/record/src/rec_conn.c", "tls/record/src/rec_buf.c", "tls/record/src/rec_unprocessed_msg.c", "bsl/list/src/bsl_list_ex.c", "bsl/list/src/bsl_list_internal.c", "tls/record/src/rec_alert.c", "bsl/list/src/bsl_list.c"]
ASSUMPTIONS = ["record protection (AEAD/CBC) is a nondeterministic oracle that authenticates or rejects each record",
               "sequence-number mask of DTLS 1.3 is the identity", "sequence numbers are 48 bits (DTLS 1.2) / below 2^47 (DTLS 1.3)"]
OUTSIDE = "records cached across an epoch change; SCTP transport"
HARNESSES = [
    dict(name="window_step", c="window.c", defs=["H_STEP"], srcs=W, bounds="one step from any window state consistent with any history (induction), any 48-bit number"),
    dict(name="window_history", c="window.c", defs=["H_HIST", "N=3"], srcs=W, solver="cadical", bounds="3 record numbers from reset",
         thorough=dict(defs=["H_HIST", "N=5"], bounds="5 record numbers from reset")),
    dict(name="read_dtls12", c="read.c", defs=["H_READ12"], srcs=R, unwind=8, bounds="two datagrams, any window state, any epoch/sequence number/verdict"),
    dict(name="read_dtls13", c="read.c", defs=["H_READ13", "DGRAM=7"], srcs=R, unwind=8, uw={"memcmp": 9}, bounds="one datagram with unified header from any window state (induction), current or previous epoch",
         thorough=dict(defs=["H_READ13", "DGRAM=7", "TWO"], bounds="two datagrams with unified header, current or previous epoch", timeout=900)),
]
