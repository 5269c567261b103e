S = ["bsl/sal/src/sal_time.c", "bsl/sal/src/posix/posix_time.c"]
ASSUMPTIONS = ["gmtime_r returns the calendar date of its argument"]
OUTSIDE = "years beyond the stated ones; registered time callbacks; results before 1970"
def h(name, d, b, **k):
    return dict(dict(name=name, c="time.c", defs=d, srcs=S, unwind=14, bounds=b, solver="cadical"), **k)
def conv(lo, hi, **k):
    n = hi - 1970
    return h("convert_%d" % lo, ["H_CONV", "YLO=%d" % lo, "YHI=%d" % hi], "every date of the years %d to %d" % (lo, hi), uw={"BslMkTime64Get": max(n + 1, 13), "Days": n + 9, "harness": hi - lo + 2}, **k)
HARNESSES = [
    h("check", ["H_CHECK"], "every value of every field"),
    conv(1966, 1981), conv(1998, 2006), conv(2099, 2101),
    *[conv(y, y + 9, tier="thorough", timeout=900) for y in range(1970, 2200, 10)],
    h("time_of_day", ["H_TOD"], "every time of day", uw={"BslMkTime64Get": 14}),
    h("compare", ["H_CMP", "YHI=1975"], "every pair of dates up to 1975", uw={"BslMkTime64Get": 14}),
    *[h("add_us_%d" % i, ["H_ADDUS", "YHI=1974", "USLO=%uu" % lo, "USHI=%uu" % hi], "every date up to 1974, microsecond counts %u..%u" % (lo, hi), uw={"BslMkTime64Get": 14, "Days": 14})
      for i, (lo, hi) in enumerate(((0, 0x3fff), (0x7fffe000, 0x80002000), (0xffffc000, 0xffffffff)))],
    h("add_day", ["H_ADDDAY", "YHI=1974"], "every date up to 1974, every offset with a result from 1970 on", uw={"BslMkTime64Get": 14, "Days": 14}),
]
