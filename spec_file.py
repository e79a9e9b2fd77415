from specs import *
EX = ["VP_OWN_EXIT", "VP_SMALL_SPLIT"]
SH = ['VP_SHIM_EXTRA="vfs_shim.h"', 'VP_SMALL_SPLIT']
def fsrc(*s):
    return ["h:h_file.c"] + [L + x for x in s] + [D + "globals.c", "lib:vfs.c", "lib:gslrng.c"] + BASE
RAW = fsrc("rng_file_input_raw.c", "rng_file_input.c", "parse.c", "bits.c")
kw = dict(ldefs=EX, rdefs=SH, fieldsens=512)
qs = []
for nw in list(range(16, 25)) + [31, 32, 33, 64]:
    for tr in range(4):
        if nw > 24 and tr > 1: continue
        qs.append(Q("raw_%d_%d" % (nw, tr), "h_raw_cycle", RAW, 4 * nw + 20, "regular file of %d words plus %d bytes, arbitrary contents, arbitrary nonzero seed: first %d numbers and %d after a reseed" % (nw, tr, 2 * nw + 3, nw // 2),
                    defs=["VP_SMALL_SPLIT", "H_RAW", "NW=%d" % nw, "TR=%d" % tr], tiers=QT if (nw, tr) in ((16, 0), (16, 3), (17, 1), (19, 2), (32, 0)) else TH, **kw))
qs.append(Q("raw_double", "h_raw_double", RAW, 100, "regular file of 17 words, arbitrary contents, 19 uniforms", defs=["VP_SMALL_SPLIT", "H_RAW", "NW=17", "TR=1"], **kw))
qs.append(Q("raw_step", "h_raw_step", RAW, 100, "one draw from an arbitrary position of an arbitrary file of 16..2^60 words", defs=["VP_SMALL_SPLIT", "H_RAW", "NW=17", "TR=1"], **kw))
qs.append(Q("raw_small", "h_raw_small", RAW, 100, "all sizes below 64 bytes", defs=["VP_SMALL_SPLIT", "H_RAW", "NW=17", "TR=1", "EXITW"], **kw))
qs.append(Q("raw_dir", "h_raw_dir", RAW, 100, "directory instead of a file", defs=["VP_SMALL_SPLIT", "H_RAW", "NW=17", "TR=1", "EXITW"], **kw))
for nw, tr in ((16, 0), (18, 3), (17, 1)):
    qs.append(Q("raw_stream_%d_%d" % (nw, tr), "h_raw_stream", RAW, 120, "pipe/device of %d words and %d bytes, arbitrary contents" % (nw, tr), defs=["VP_SMALL_SPLIT", "H_RAW", "NW=%d" % nw, "TR=%d" % tr, "EXITW"], **kw))
prop("C04", qs)

HDRS = [["type: %s", "count: %d", "numbit: %d"], ["count: %d", "# c", "numbit: %d", "type: %s"], ["# generator x seed = 1", "#", "numbit: %d", "type: %s", "# type: z", "count: %d"],
        ["type:\\t%s", "count:   %d", "numbit: %d"],
        ["#==================================================================", "# generator mt19937  seed = 12345", "#==================================================================", "type: %s", "count: %d", "numbit: %d"]]
def txt(h, ty, n, nb, lines):
    out = []
    for x in HDRS[h]:
        if x.startswith("type"): x = x % ty
        elif x.startswith("count"): x = x % n
        elif x.startswith("numbit"): x = x % nb
        out.append(x)
    head = "\\n".join(out) + "\\n"
    return head, len(head.replace("\\n", "n").replace("\\t", "t")), "\\n".join(lines) + "\\n"
TXTS = fsrc("rng_file_input_raw.c", "rng_file_input.c", "parse.c", "bits.c")
qs = []
def tq(name, func, h, ty, base, nb, lines, bounds, n=None, tiers=QT, extra=(), w="", **k2):
    n = n or len(lines)
    head, body, rest = txt(h, ty, n, nb, lines)
    k = dict(ldefs=EX, rdefs=SH, fieldsens=1100); k.update(k2)
    qs.append(Q(name, func, TXTS, 1100, bounds + " (header layout %d)" % h, defs=["H_TXT", "VP_SMALL_SPLIT", 'TXT="%s"' % (head + rest), "BODY=%d" % body, "NV=%d" % n, "TYPE='%s'" % ty, "NBIT=%d" % nb, "BASE=%d" % base] + list(extra), tiers=tiers, **k))
for i, ty in enumerate("diu"):
    tq("dec_" + ty, "h_txt", i, ty, 10, 32, ["9" * 10, "9", "9999"], "type %s, 3 lines of 10/1/4 arbitrary digits, 7 draws" % ty)
tq("dec_hdr3", "h_txt", 3, "d", 10, 31, ["9" * 9, "999"], "type d, 2 lines of 9/3 arbitrary digits")
tq("exported", "h_txt", 4, "d", 10, 32, ["9" * 10, "         9", "   9999999"], "a file as written by -o in format 1, arbitrary digits")
tq("exportedf", "h_txt", 4, "f", 0, 32, ["0.99"], "a file as written by -o in format 2")
tq("oct", "h_txt", 1, "o", 8, 32, ["7" * 10, "7", "777"], "type o, 3 lines of arbitrary octal digits")
tq("hex", "h_txt", 0, "x", 16, 32, ["@" * 8, "@", "@@@@"], "type x, 3 lines of arbitrary hex digits")
tq("HEX", "h_txt", 2, "X", 16, 32, ["@" * 8, "@", "@@@@"], "type X, 3 lines of arbitrary hex digits")
for nb in (8, 24, 32):
    tq("bin%d" % nb, "h_txt", nb // 8 - 1, "b", 2, nb, ["1" * nb] * 3, "type b, %d bit lines" % nb)
for i, ty in enumerate("fge"):
    tq("frac_" + ty, "h_txt", i, ty, 0, 32, ["0.99", "0.9"], "type %s, fractions of 1-2 arbitrary digits" % ty)
tq("short", "h_txt_short", 0, "d", 10, 32, ["99", "9"], "count larger than the number of lines", n=4, extra=["HAVE=2", "EXITW"])
tq("blank", "h_txt_short", 0, "d", 10, 32, ["99", "", "9"], "blank data line", extra=["HAVE=1", "EXITW"])
tq("blankx", "h_txt_short", 0, "x", 16, 32, ["@@", " ", "@"], "blank data line, hex", extra=["HAVE=1", "EXITW"])
tq("words", "h_txt_short", 1, "u", 10, 32, ["99", "abc", "9"], "unconvertible data line", extra=["HAVE=1", "EXITW"])
def badhdr(name, head):
    qs.append(Q(name, "h_txt_badheader", TXTS, 1100, "incomplete header: %s" % head, defs=["H_TXT", "VP_SMALL_SPLIT", 'TXT="%s"' % head, "BODY=%d" % len(head.replace("\\n", "n")), "NV=1", "TYPE='d'", "NBIT=32", "BASE=10", "EXITW"], ldefs=EX, rdefs=SH, fieldsens=1100))
badhdr("badhdr1", "type: d\\ncount: 3\\n")
badhdr("badhdr2", "type: d\\ncount: 3 4\\nnumbit: 32\\n")
badhdr("badhdr3", "# nothing\\n")
prop("C05", qs)

qs = []
for name, src, sym, path, st in (("stdin", "rng_stdin_input_raw.c", "gsl_rng_stdin_input_raw", "", 1), ("random", "rng_dev_random.c", "gsl_rng_dev_random", "/dev/random", 0),
                                 ("urandom", "rng_dev_urandom.c", "gsl_rng_dev_urandom", "/dev/urandom", 0), ("arandom", "rng_dev_arandom.c", "gsl_rng_dev_arandom", "/dev/arandom", 0)):
    for ln in (0, 3, 4, 11, 24, 26):
        qs.append(Q("%s_%d" % (name, ln), "h_dev", fsrc(src), 60, "%s delivering %d arbitrary bytes then ending" % (name, ln),
                    defs=["VP_SMALL_SPLIT", "H_DEV", "DEVT=" + sym, 'PATH="%s"' % path, "IS_STDIN=%d" % st, "LEN=%d" % ln, "DBL=0"], **kw))
    qs.append(Q("%s_uniform" % name, "h_dev", fsrc(src), 60, "%s: uniforms, 7 arbitrary bytes then end" % name,
                defs=["VP_SMALL_SPLIT", "H_DEV", "DEVT=" + sym, 'PATH="%s"' % path, "IS_STDIN=%d" % st, "LEN=7", "DBL=1"], cost=5, **kw))
    if not st:
        qs.append(Q(name + "_missing", "h_dev_missing", fsrc(src), 60, "%s cannot be opened" % path, defs=["VP_SMALL_SPLIT", "H_DEV", "DEVT=" + sym, 'PATH="%s"' % path, "IS_STDIN=0", "LEN=0", "DBL=0"], **kw))
prop("C06", qs)
