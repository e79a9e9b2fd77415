from specs import *
from math import prod
RANK = ["h:h_rank.c", L + "rank.c", D + "globals.c"] + BASE
qs = []
def rankprob(r, m, n):
    return 2.0 ** (r * (n + m - r) - m * n) * prod((1 - 2.0 ** (i - m)) * (1 - 2.0 ** (i - n)) / (1 - 2.0 ** (i - r)) for i in range(r))
def rk(rows, cols, k, rp, cp, ident, garbage=0, tiers=QT, **kw):
    qs.append(Q("rank_%dx%d_k%d_i%d_%d_%d" % (rows, cols, k, ident, rp[-1], cp[-1]), "h_rank", RANK, max(rows, cols) + 3, "%dx%d matrices, arbitrary %dx%d block at rows %s, columns %s, %s" % (rows, cols, k, k, rp, cp, ("rest 0", "ones diagonal elsewhere", "ones diagonal elsewhere with arbitrary entries")[ident]),
                defs=["H_RANK", "ROWS=%d" % rows, "COLS=%d" % cols, "KB=%d" % k, "IDENT=%d" % ident, "GARBAGE=%d" % garbage, "ROWPOS=" + ",".join(map(str, rp)), "COLPOS=" + ",".join(map(str, cp))], ldefs=["VP_EXIT_IS_BUG"], fieldsens=128, tiers=tiers, **kw))
rk(3, 3, 3, range(3), range(3), 0)
rk(4, 4, 4, range(4), range(4), 0)
rk(3, 8, 3, range(3), (0, 6, 7), 0, 1)
rk(2, 32, 2, range(2), (0, 31), 0, checks=["--bounds-check"])
for rows, cols in ((4, 35), (3, 66), (3, 33), (4, 34), (3, 36)):
    qs.append(Q("rank_wide_%dx%d" % (rows, cols), "h_rank_wide", RANK, cols + 3, "%dx%d matrices, concrete leading words, arbitrary bits in the last %d columns" % (rows, cols, cols % 32),
                defs=["H_RANK", "WIDE", "ROWS=%d" % rows, "COLS=%d" % cols, "KB=4", "IDENT=0", "GARBAGE=0", "ROWPOS=0,1,2,3", "COLPOS=0,1,2,3"], ldefs=["VP_EXIT_IS_BUG"], fieldsens=128, checks=["--bounds-check"]))
rk(5, 3, 3, (0, 2, 4), range(3), 0)
rk(5, 5, 3, (0, 2, 4), (1, 2, 4), 1)
rk(4, 5, 4, range(4), (0, 1, 3, 4), 0, 1)
rk(4, 6, 3, (0, 2, 3), (1, 2, 5), 2, 1)
RT = [L + "static_get_bits.c"]
for name, mr, mc, low, ts in (("diehard_rank_6x8", 6, 8, 2, 2), ("diehard_rank_32x32", 32, 32, 29, 2), ("diehard_rank_6x8", 6, 8, 2, 4)):
    pr = [sum(rankprob(r, mr, mc) for r in range(low + 1))] + [rankprob(r, mr, mc) for r in range(low + 1, mr + 1)]
    qs.append(Q("%s_t%d" % (name, ts), "h_ranktest", ["h:h_rank.c", L + name + ".c", L + "bits.c", D + "globals.c", "lib:gslrng.c"] + BASE, 80, "%s: %d matrices, arbitrary numbers, arbitrary ranks" % (name, ts),
                defs=["H_RANKTEST", "TESTFN=" + name, "MROWS=%d" % mr, "MCOLS=%d" % mc, "LOW=%d" % low, "TS=%d" % ts, "PROBS=" + ",".join("%.10g" % x for x in pr)], ldefs=["VP_EXIT_IS_BUG"], fieldsens=64, tiers=QT if ts == 2 else TH))
prop("C12", qs)
