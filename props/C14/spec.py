HARNESSES = []
def h(name, c, entry, **k):
    d = dict(name=name, c=c, entry=entry, autolink=False, unwind=12, solver="cadical"); d.update(k); HARNESSES.append(d)
S = ["pki/x509_verify/src/hitls_x509_verify.c", "pki/x509_verify/src/hitls_x509_store.c", "pki/x509_cert/src/hitls_x509_cert.c"]
R = {"HITLS_X509_CertFree": "v_CertFree", "HITLS_X509_CertCtrl": "v_CertCtrl"}
D = ['OPENHITLSDIR="/usr/local/"']
for n in (1, 2, 3, 4):
    for m in range(4):
        h("line_%d_%d" % (n, m), "chain.c", "h_line", srcs=S, replace=R, src_defs=D, defs=["NC=%d" % n, "MODE=%d" % m], uw={"h_line.0": 66},
          bounds="%d certificates in a line, all attributes symbolic, flag set %d of 4" % (n, m), cost=4 * n, **(dict(tier="thorough", timeout=900) if n == 4 else {}))
for n in (4, 5):
    h("long_%d" % n, "chain.c", "h_line", srcs=S, replace=R, src_defs=D, defs=["NC=%d" % n, "MODE=0", "LONG"], uw={"h_line.0": 4 * 2 ** n + 2}, cost=40, timeout=300,
      bounds="%d certificates in a line under a self-signed one, all attributes symbolic" % n, **(dict(tier="thorough") if n == 5 else {}))
for w in (0, 1, 2):
    for t in (1, 2, 3, 5, 6, 7):
        for m in (0, 3):
            q = w == 0 and m == 0 and t in (2, 5, 6)
            h("graph_%d%d%d" % (w, t, m), "chain.c", "h_graph", srcs=S, replace=R, src_defs=D, defs=["NC=2", "WHY=%d" % w, "TP=%d" % t, "MODE=%d" % m], uw={"h_graph.0": 66}, timeout=900,
              bounds="2 certificates in every relation, trust/partial set %d" % t, cost=20, **({} if q else dict(tier="thorough")))
for m in range(4):
    h("crl_%d" % m, "crl.c", "h_crl", srcs=S, replace=R, src_defs=D, defs=["NC=3", "NCRL=2", "MODE=%d" % m], uw={"h_crl.0": 18}, cost=15,
      bounds="3 certificates, 2 CRLs issued by any of them with 2 entries each, flag set %d of 4" % m)
h("purpose", "crl.c", "h_purpose", srcs=S, replace=R, src_defs=D, defs=["NC=2"], bounds="every purpose value, key usage and up to two extended key usages")
ASSUMPTIONS = ["name comparison, AKI/SKI comparison, signature and time conversion are oracles with arbitrary fixed answers per pair of certificates",
               "lists are models; the default verification callback policy (errors are not overridden)"]
OUTSIDE = "the full CRL mode with delta CRLs and distribution points (compiled out), host names, directories of trusted certificates, SM2 user ids, PQC key usage"
