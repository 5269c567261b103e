R = ["tls/record/src/rec_write.c", "tls/record/src/rec_conn.c", "tls/record/src/rec_buf.c", "tls/record/src/rec_unprocessed_msg.c",
     "bsl/list/src/bsl_list_ex.c", "bsl/list/src/bsl_list_internal.c", "bsl/list/src/bsl_list.c", "tls/record/src/rec_alert.c"]
ASSUMPTIONS = ["record protection is an oracle that may fail and otherwise records the sequence number it is given",
               "datagram transports send a datagram whole or not at all", "one-byte payloads"]
OUTSIDE = "payload fragmentation above the record layer; automatic key update; connection IDs"
HARNESSES = [
    dict(name="tls_write", c="write.c", defs=["H_TLS", "CALLS=3", "RECLEN=7"], srcs=R, unwind=10, uw={"StreamWrite": 4}, bounds="3 writes, every partial-write/error schedule of up to 3 transport calls each, any start number",
         thorough=dict(defs=["H_TLS", "CALLS=5", "RECLEN=7"], bounds="5 writes", timeout=900)),
    dict(name="tls_wrap", c="write.c", defs=["H_WRAP", "CALLS=3", "RECLEN=7"], srcs=R, unwind=10, uw={"StreamWrite": 4}, bounds="3 writes from 2^64-2"),
    dict(name="dtls12_write", c="write.c", defs=["H_DTLS", "V13=0", "CALLS=2", "RECLEN=15"], srcs=R, unwind=16, bounds="2 writes, any epoch and start number"),
    dict(name="dtls13_write", c="write.c", defs=["H_DTLS", "V13=1", "CALLS=2", "RECLEN=7"], srcs=R, unwind=16, bounds="2 writes, any epoch and start number"),
]
