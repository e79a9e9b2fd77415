from specs import *
RUN = ["h:h_run.c", D + "run_test.c", D + "globals.c", "lib:gslrng.c"] + BASE
qs = []
for st in (0, 1):
    for sd in (0, 1):
        for xt in (0, 1, 2, 3):
            for nk in (1, 2, 3):
                if nk != 2 and (st, sd) not in ((1, 1), (1, 0)): continue
                if xt == 3 and nk != 1: continue
                qs.append(Q("exec_s%d%d_x%d_k%d" % (st, sd, xt, nk), "h_exec", RUN, 40, "strategy %d, %s, mode %d, %d statistic(s), up to 3 rounds; arbitrary p-values, thresholds, counts" % (st, "fixed seed" if sd else "no seed", xt, nk),
                            defs=["H_EXEC", "STRAT=%d" % st, "SEEDED=%d" % sd, "XTRAT=%d" % xt, "NKPS=%d" % nk, "ROUNDS=3"], ldefs=["VP_OWN_EXIT"], fieldsens=16, tiers=QT if nk == 2 or xt == 2 or xt == 3 else TH))
prop("C14", qs)
STD = ["h:h_run.c", L + "std_test.c", D + "globals.c", "lib:gslrng.c"] + BASE
qs = []
i = 0
for nk in (1, 2):
    for (al, ps, pstd, mult) in ((0, 3, 7, 1), (0, 0, 3, 1), (1, 5, 2, 1.5), (1, 2, 4, 0.1), (0, 0, 1, 3), (0, 1, 9, 2)):
        for (xt, xoff, step) in ((0, 20, 2), (1, 6, 2), (2, 4, 3), (2, 2, 1)):
            i += 1
            qs.append(Q("std_%d" % i, "h_std", STD, 130, "%d statistic(s), -p %d, standard %d x %g, all=%d, mode %d, limit %d, step %d, 3 rounds; arbitrary p-values" % (nk, ps, pstd, mult, al, xt, xoff, step),
                        defs=["H_STD", "NKPS=%d" % nk, "ALL=%d" % al, "PSAMP=%d" % ps, "PSTD=%d" % pstd, "MULT=%s" % mult, "XTRAT=%d" % xt, "XOFF=%d" % xoff, "XSTEP=%d" % step, "ROUNDS=%d" % (3 if xt else 1), "MAXP=16", "KRV=" + ("0.25,1e-300,1.0,0.5", "1e-9,0,0,0.999", "0,1e-20,0.5,1e-7")[i % 3] if nk > 1 else "KRV=0.25,1e-300,1.0,0.5"],
                        ldefs=["VP_EXIT_IS_BUG"], fieldsens=100, tiers=QT if nk == 2 or i % 3 == 0 else TH))
for ps, xoff in ((3, 2), (7, 5)):
    qs.append(Q("std_xoff_mode0_%d_%d" % (ps, xoff), "h_std", STD, 130, "1 statistic, -p %d with limit %d, no multi-round mode (known finding)" % (ps, xoff),
                defs=["H_STD", "NKPS=1", "ALL=0", "PSAMP=%d" % ps, "PSTD=4", "MULT=1", "XTRAT=0", "XOFF=%d" % xoff, "XSTEP=2", "ROUNDS=1", "MAXP=16", "KRV=0.25,1e-300,1.0,0.5"], ldefs=["VP_EXIT_IS_BUG"], fieldsens=100))
prop("C15", qs)
