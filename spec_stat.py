from specs import *
qs = []
F = ["VP_OWN_SQRT", "VP_EXIT_IS_BUG"]
def vt(name, y, cut, xb=4, tiers=QT):
    t = sum(v for v in y if v < cut)
    assert t == 0 or t & (t - 1) == 0
    qs.append(Q("vtest_" + name, "h_vtest", ["h:h_stat.c", L + "Vtest.c", D + "globals.c"] + BASE, max(len(y) + 3, 20), "expected counts %s, cutoff %s, all observed counts below %d, degrees of freedom given or not" % (y, cut, 1 << xb),
        defs=["H_VTEST", "YV=" + ",".join("%.1f" % v for v in y), "CUT=%.1f" % cut, "XB=%d" % xb, "YMAX=%.1f" % max(max(y), t)], ldefs=F, tiers=tiers))
vt("plain", [8, 8, 4], 4)
vt("tail", [2, 8, 1, 4, 1], 4)
vt("tail_counts_at_cutoff", [2, 8, 2], 4, 3)
vt("tail_too_small", [1, 8, 1, 8], 4)
vt("zero_expected", [0, 4, 16, 4], 4)
vt("wide", [16, 2, 4, 8, 2, 32], 8, 5, TH)
qs.append(Q("xtest", "h_xtest", ["h:h_stat.c", L + "Xtest.c", D + "globals.c"] + BASE, 20, "all observed and expected values and deviations", defs=["H_XTEST"], ldefs=F))
def cs(kind, name, pdf, ns, xb=4, tiers=QT):
    ed = [p * ns for p in pdf]
    qs.append(Q("chisq_" + name, "h_chisq", ["h:h_stat.c", L + "chisq.c", D + "globals.c"] + BASE, 20, "expected counts %s, all observed counts below %d, every distribution parameter" % (ed, 1 << xb),
        defs=["H_CHISQ", "KIND=%d" % kind, "PDF=" + ",".join("%r" % v for v in pdf), "NS=%d" % ns, "XB=%d" % xb, "YMAX=%.1f" % max(ed)], ldefs=F, tiers=tiers))
cs(0, "poisson", [.25, .5, .125], 32)
cs(1, "geometric", [.5, .25, .125], 32)
cs(2, "pearson", [.25, .25, .5, .125], 32)
cs(3, "binomial", [.25, .5, .25], 32, 5)
qs.sort(key=lambda q: q["name"] not in ("vtest_tail", "chisq_binomial", "chisq_pearson"))
prop("C17", qs)
ks = []
def k(n, fn="h_ks", kmax=None, unsorted=0, grid=64, tiers=QT):
    src = L + "kstest.c" + ("|4999=>%d" % kmax if kmax else "")
    ks.append(Q("%s_%d%s%s%s" % (fn[2:], n, "_asym%d" % kmax if kmax else "", "_any_order" if unsorted else "", "_g%d" % grid if grid else ""), fn, ["h:h_stat.c", src, D + "globals.c"] + BASE, 20,
        "%d p-values, all %s%s%s" % (n, "multiples of 1/%d in [0,1]" % grid if grid else "values in [0,1]", " in any order" if unsorted else " in ascending order", ", switch-over size reduced to %d" % kmax if kmax else ""),
        defs=["H_KS", "NP=%d" % n, "KMAX=%d" % (kmax or 4999)] + (["UNSORTED"] if unsorted else []) + (["GRID=%d" % grid] if grid else []), ldefs=F, weak=[src], tiers=tiers))
k(0, grid=0); k(1, unsorted=1, grid=0); k(3, unsorted=1); k(7, grid=16)
k(3, kmax=2, grid=16); k(3, kmax=3, grid=16)
k(1, "h_kuiper", grid=0); k(4, "h_kuiper", unsorted=1, grid=16)
k(2, unsorted=1, grid=0, tiers=TH); k(3, unsorted=1, grid=0, tiers=TH); k(4, unsorted=1, grid=0, tiers=TH); k(4, kmax=3, grid=0, tiers=TH)
ks.sort(key=lambda q: q["name"] not in ("kuiper_4_any_order_g16", "ks_7_g16"))
prop("C16", ks)
