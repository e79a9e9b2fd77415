from specs import *
SK = ['VP_SHIM_EXTRA="sink_shim.h"']
qs = []
OUT = ["h:h_out.c", D + "output_rnds.c", D + "globals.c", "lib:sink.c", "lib:gslrng.c"] + BASE
for fmt in (0, 1, 2):
    for ns in (0, 1, 2, 5):
        for sd in (0, 1):
            for tf, dash in ((0, 0), (0, 1), (1, 0)):
                if (ns in (1,) and sd) or (dash and ns != 2): continue
                d = ["H_OUTRNDS", "FMT=%d" % fmt, "NS=%d" % ns, "SEEDED=%d" % sd, "TOFILE=%d" % tf, "DASH=%d" % dash]
                qs.append(Q("f%d_n%d_s%d_%s" % (fmt, ns, sd, "file" if tf else "dash" if dash else "std"), "h_export", OUT, 200,
                            "format %d, %d numbers%s, %s, output to %s; arbitrary numbers" % (fmt, ns, " (endless: first 5)" if fmt == 0 and ns == 0 else "", "arbitrary nonzero seed" if sd else "no seed given", "a file" if tf else "stdout"),
                            defs=d, ldefs=["VP_OWN_PRINTF", "SINK_FWRITE_HOOK", "VP_EXIT_IS_BUG"], rdefs=SK, fieldsens=128,
                            tiers=QT if (ns in (2, 0) and (tf or dash or ns == 0)) or (ns == 5 and sd and not tf) else TH))
prop("C07", qs)

REP = ["h:h_out.c", D + "output.c", D + "set_globals.c", L + "version.c", D + "globals.c", "lib:sink.c", "lib:gslrng.c"] + BASE
ALLF = 0x1fffc
import itertools
qs = []
LD = ["VP_OWN_PRINTF", "SINK_MAX=160"]
def rq(name, masks, strat, nk, ff, sepc, tiers=QT):
    qs.append(Q(name, "h_report", REP, 200, "%d flag sets, %d statistic(s), strategy %d%s, separator %s; arbitrary p-values, thresholds in [0,1], counts and seed" % (len(masks), nk, strat, ", file input" if ff else "", sepc),
                defs=["H_REPORT", "SINK_MAX=160", "MASKLIST=" + ",".join("0x%x" % m for m in masks), "STRAT=%d" % strat, "NKPS=%d" % nk, "FROMFILE=%d" % ff, "SEPC=%d" % ord(sepc)],
                ldefs=LD, rdefs=SK, fieldsens=200, tiers=tiers))
singles = [8, 16, 32, 64, 128, 256, 512, 1024, 4096, 16384, 65536]
NH = 0x800
base = sum(singles)
for strat in (0, 1):
    for nk in (1, 3):
        for nw in (0, 0x8000):
            if nk == 3: ms = [base | nw, 0x1f8 | nw]
            else: ms = [base | nw | 4 | 2] + [s | nw for s in singles] + [(base & ~s) | nw for s in singles]
            rq("tab_s%d_k%d_%s" % (strat, nk, "nw" if nw else "w"), ms, strat, nk, 0, "|")
rq("head_rate", [base | 4 | 2 | 8192], 0, 1, 0, "|"); rq("head_nw", [base | 4 | 2 | 8192 | 0x8000], 0, 1, 0, ","); rq("head_file", [base | 4 | 2], 0, 1, 1, ";"); rq("head_file_nw", [base | 4 | 2 | 0x8000], 1, 1, 1, ";")
rq("head_only", [4 | 8, 4 | 8], 1, 2, 0, "|"); rq("head_none", [8, 4 | 8], 1, 1, 0, "|"); rq("rng_only", [2, 0], 0, 1, 0, " ")
qs.append(Q("histo", "h_histo", REP, 400, "3 arbitrary p-values in [0,1], 10 bins", defs=["H_REPORT", "SINK_MAX=160", "MASKLIST=1", "STRAT=0", "NKPS=1", "FROMFILE=0", "SEPC=32"], ldefs=LD, rdefs=SK, fieldsens=200))
qs.append(Q("defaults", "h_defaults", REP, 1100, "default settings", defs=["H_REPORT", "SINK_MAX=160", "MASKLIST=1", "STRAT=0", "NKPS=1", "FROMFILE=0", "SEPC=32"], ldefs=LD, rdefs=SK, fieldsens=200))
prop("C13", qs)
