from specs import *
P = ["h:h_parse.c", L + "parse.c", D + "globals.c"] + BASE
qs = []
def sp(n, pk, pb, tiers=QT, **kw):
    d = ["VP_SMALL_SPLIT", "VP_PK=%d" % pk, "VP_PB=%d" % pb]
    qs.append(Q("split_%d_%dx%d" % (n, pk, pb), "h_split", P, max(n, pb, pk, 7) + 3, "every line of up to %d characters, table of %d fields of %d bytes" % (n, pk, pb),
        defs=["H_SPLIT", "LEN=%d" % n] + d, rdefs=d, tiers=tiers, ldefs=["VP_EXIT_IS_BUG"], **kw))
sp(4, 4, 8); sp(5, 3, 4)
sp(7, 5, 5, TH); sp(6, 4, 3, TH)
def pa(n, mf, fl, tiers=QT):
    d = ["VP_SMALL_SPLIT", "VP_PK=2", "VP_PB=2"]
    qs.append(Q("parse_%d_%dx%d" % (n, mf, fl), "h_parse", P, max(n, mf, fl, 7) + 3, "every line of up to %d characters, %d fields of %d bytes" % (n, mf, fl),
        defs=["H_PARSE", "LEN=%d" % n, "MAXFIELDS=%d" % mf, "FIELDLEN=%d" % fl] + d, rdefs=d, tiers=tiers, ldefs=["VP_EXIT_IS_BUG"]))
pa(4, 4, 5); pa(5, 3, 3)
pa(7, 5, 4, TH)
for n in (1, 2, 9):
    d = ["VP_SMALL_SPLIT", "VP_PK=2", "VP_PB=2"]
    qs.append(Q("chop_%d" % n, "h_chop", P, n + 4, "every string of up to %d characters" % (n - 1), defs=["H_CHOP", "LEN=%d" % n] + d, rdefs=d, ldefs=["VP_EXIT_IS_BUG"]))
prop("C21", qs)
