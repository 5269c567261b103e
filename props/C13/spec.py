ASSUMPTIONS = []
OUTSIDE = ""
HARNESSES = []
def h(name, c, entry, **k):
    d = dict(name=name, c=c, entry=entry, autolink=False, unwind=20, uw={"GetAlertfromX509Err": 60}, solver="cadical"); d.update(k); HARNESSES.append(d)
T = "tls/handshake/"
S = [T + "recv/src/" + f for f in ("hs_state_recv.c", "recv_finished.c", "recv_certificate.c", "recv_cert_verify.c", "recv_cert_request.c", "recv_server_hello_done.c", "recv_server_key_exchange.c", "recv_client_key_exchange.c", "recv_encrypted_extensions.c", "recv_new_session_ticket.c", "recv_hello_verify_request.c")] + [T + "parse/src/" + f for f in ("parse.c", "parse_common.c")] + [T + "common/src/hs_common.c"]
for v in ("TLS12", "TLS13", "TLCP_DTLCP11", "DTLS12", "DTLS13"):
    h("step_" + v.lower()[:6], "step.c", "h_step", srcs=S, stubs=["env.c"], defs=["VER=HITLS_VERSION_" + v])
