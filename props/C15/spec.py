ASSUMPTIONS = ["parsed certificate names are what the extension parser returns (a list of typed byte strings)"]
OUTSIDE = "internationalised names; parsing of the extension; the common-name lookup"
HARNESSES = []
def h(name, entry, defs, **k):
    d = dict(name=name, c="id.c", entry=entry, defs=defs, autolink=False, solver="cadical",
             srcs=["pki/x509_common/src/hitls_x509_util.c", "bsl/sal/src/sal_string.c", "bsl/sal/src/sal_ip_util.c"], no_vlib=True,
             replace={"HITLS_X509_CertCtrl": "v_CertCtrl"}); d.update(k); HARNESSES.append(d)
for p in (0, 1):
    h("match_%d" % p, "h_match", ["NSAN=0", "PARTIAL=%d" % p, "PN=%d" % (6 - p), "HN=%d" % (7 - p), "VSTR=9", "L0=5", "L1=3"], unwind=11,
      bounds="every pattern of up to %d and host of up to %d characters" % (6 - p, 7 - p))
    n = 5
    h("dns_%d" % p, "h_dns", ["PARTIAL=%d" % p, "PN=%d" % n, "HN=%d" % n, "VSTR=%d" % (n + 2), "L0=%d" % n, "L1=2", "NSAN=%d" % (2 - p)] + (["FIXED"] if p else []), unwind=n + 4,
      bounds="two alternative names of 5 and 2 characters of any type, common name and host up to 5 characters" if p == 0 else "the flag selects the partial rules (one certificate)")
for lo, hi in ((1, 4), (5, 7), (8, 9)):
    h("ip_%d" % hi, "h_ip", ["H_IP", "NSAN=2", "PARTIAL=0", "PN=16", "HN=%d" % hi, "LO=%d" % lo, "VSTR=%d" % (hi + 2), "L0=4", "L1=16"], unwind=20, bounds="every text of %d to %d characters" % (lo, hi), timeout=200)
h("ip_member", "h_ip", ["H_IP", "NSAN=2", "MEMBER", "PARTIAL=0", "PN=16", "HN=4", "LO=4", "VSTR=17", "L0=4", "L1=16"], unwind=20,
  replace={"HITLS_X509_CertCtrl": "v_CertCtrl", "SAL_ParseIp": "v_ParseIp"})

h("match_1_deep", "h_match", ["NSAN=0", "PARTIAL=1", "PN=6", "HN=7", "VSTR=9", "L0=5", "L1=3"], unwind=11, tier="thorough", timeout=800, bounds="every pattern of up to 6 and host of up to 7 characters")
h("ip_deep", "h_ip", ["H_IP", "NSAN=2", "PARTIAL=0", "PN=16", "HN=11", "LO=10", "VSTR=13", "L0=4", "L1=16"], unwind=20, tier="thorough", timeout=800, bounds="every text of 10 to 11 characters")
