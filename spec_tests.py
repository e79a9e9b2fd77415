from specs import *
F = ["VP_OWN_SQRT", "VP_OWN_POW", "VP_EXIT_IS_BUG"]
qs = []
def kq(name, func, src, unwind, text, defs, more=(), **kw):
    kw.setdefault("fieldsens", 64)
    qs.append(Q(name, func, ["h:h_kern.c"] + ([L + src] if isinstance(src, str) else src) + [D + "globals.c", "lib:gslrng.c"] + list(more) + BASE, unwind, text, defs=defs, ldefs=F, weak=["lib:gslrng.c"], **kw))
for w, ts in ((32, 2), (31, 2), (8, 3)):
    kq("monobit_w%d" % w, "h_monobit", "sts_monobit.c", 40, "%d numbers of %d bits" % (ts, w), ["H_MONOBIT", "TS=%d" % ts, "WIDTH=%d" % w, "GMASK=0x%xu" % ((1 << w) - 1)])
kq("sts_runs", "h_runs", "sts_runs.c", 70, "1 number, 7 of its bits arbitrary, the others 0", ["H_RUNS", "TS=1", "GMASK=0xc0018003u"], [L + "bits.c"])
for lag in (0, 1, 3):
    kq("lagged_%d" % lag, "h_lag", "rgb_lagged_sums.c", 40, "3 sums of 8-bit fractions, lag %d" % lag, ["H_LAG", "TS=3", "LAG=%d" % lag, "GMASK=0xff000000u"])
for nt, k in ((2, 2), (3, 3)):
    kq("perm_%d" % nt, "h_perm", "rgb_permutations.c", 30, "2 samples, permutations of %d" % k, ["H_PERM", "TS=2", "NT=%d" % nt, "KK=%d" % k])
kq("craps_short", "h_craps", "diehard_craps.c", 30, "2 games, up to 8 dice throws in all", ["H_CRAPS", "NKPS=2", "TS=2", "MAXR=16"])
kq("craps_long", "h_craps", "diehard_craps.c", 70, "a game of 20..23 throws", ["H_CRAPS", "NKPS=2", "TS=1", "MAXR=48", "LONG_=20"])
kq("gcd", "h_gcd", "marsaglia_tsang_gcd.c|100000=>20", 50, "2 pairs of numbers below 8", ["H_GCD", "NKPS=2", "K_NOLIMIT", "TS=2", "GMASK=7", "NGRAB=6"])
kq("bitdist_2", "h_bitdist", "rgb_bitdist.c|64=>4", 40, "2 samples of 4 two-bit patterns (64 reduced to 4)", ["H_BITDIST", "TS=2", "NB=2", "BS=4"])
for n, later, t in ((1, "(1.0/2147483648.0)", QT), (1, "0.9999", QT), (2, "(1.0/2147483648.0)", TH)):
    kq("squeeze_%d_%s" % (n, "long" if later[0] == "0" else "short"), "h_squeeze", "diehard_squeeze.c" + ("|48=>9" if later[0] == "(" and t == QT else ""), 66, "first %d uniforms any multiple of 1/16, then %s%s" % (n, later, ", at most 9 steps instead of 48" if later[0] == "(" and t == QT else ""), ["H_SQUEEZE", "FREE=%d" % n, "LATER=" + later] + (["LIM=9"] if later[0] == "(" and t == QT else []), tiers=t)
kq("c1s_stream", "h_c1s", "diehard_count_1s_stream.c|3125=>25;625=>5", 40, "5 samples, words reduced from 4 and 5 letters to 1 and 2", ["H_C1S", "TS=5", "TESTFN=diehard_count_1s_stream"], [L + "bits.c"])
kq("c1s_byte", "h_c1s", "diehard_count_1s_byte.c|3125=>25;625=>5", 40, "2 samples, words reduced from 4 and 5 letters to 1 and 2", ["H_C1S", "TS=2", "BYTE_", "TESTFN=diehard_count_1s_byte"], [L + "bits.c"])
qs.sort(key=lambda q: q["name"] not in ("c1s_stream", "gcd", "squeeze_1_long", "c1s_byte", "craps_short", "perm_3"))
prop("C22", qs)
