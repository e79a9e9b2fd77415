from specs import *
CLI = ["h:h_cli.c", D + "parsecl.c", D + "set_globals.c", D + "globals.c", "lib:env.c"]
qs = []
def cli(name, args, expect="", stop=0, limit=None, tiers=QT, unwind=135, extra=(), text=None):
    qs.append(Q("cli_" + name, "h_cli", CLI, unwind, "command line: %s%s" % (text or " ".join(args), " (# any whole number)" if any("#" in a for a in args) else ""),
        defs=["ARGS=" + ",".join('"%s"' % a for a in ["dh"] + args), "EXPECT=" + (expect or "(void)0")] + (["STOP_"] if stop else []) + (["LIMIT=%d" % limit] if limit else []) + list(extra),
        rdefs=["VP_SHIM_EXTRA=\"cli_shim.h\""], ldefs=["VP_OWN_EXIT"], tiers=tiers, fieldsens=600))
I31, U32 = 2147483647, 4294967295
def nums(name, opts, limit=None):
    a, e = [], []
    for o, f in opts:
        e.append("e.%s=num(%d)" % (f, len(a) + 2)); a += ["-" + o, "#"]
    cli(name, a, "; ".join(e), limit=limit)
nums("num1", (("k", "ks_test"), ("n", "ntuple"), ("p", "psamples"), ("P", "Xoff"), ("i", "iterations")))
nums("num2", (("L", "overlap"), ("Y", "Xtrategy"), ("v", "verbose"), ("s", "strategy"), ("t", "tsamples")))
nums("num3", (("t", "tsamples"), ("P", "Xoff"), ("Y", "Xtrategy"), ("p", "psamples"), ("n", "ntuple")))
nums("S", (("S", "Seed"),), limit=U32)
nums("O", (("O", "output_format"),), limit=2)
def decs(name, opts):
    cli(name, sum([["-" + o, "ABC"[i] + ".5"] for i, (o, f) in enumerate(opts)], []), "; ".join("e.%s=DV[%d]" % (f, i) for i, (o, f) in enumerate(opts)))
decs("dec1", (("m", "multiply_p"), ("W", "Xweak"), ("X", "Xfail")))
decs("dec2", (("x", "x_user"), ("y", "y_user"), ("z", "z_user")))
cli("flags_aBo", ["-a", "-B", "-o"], "e.all=1; e.output_format=0; e.output_file=1")
cli("sep", ["-c", ","], "e.sep=','")
cli("t_neg", ["-t", "-#"], "e.tsamples=0", extra=["NEG"])
cli("typical", ["-a", "-g", "#", "-S", "#", "-s", "#", "-p", "#", "-t", "#"], "e.all=1; e.gvcount=1; e_gnum[0]=num(3); e_gn[0]=1; e.Seed=num(5); e.strategy=num(7); e.psamples=num(9); e.tsamples=num(11)")
cli("typical2", ["-p", "#", "-d", "#", "-n", "#", "-Y", "#", "-P", "#"], "e.psamples=num(2); e.dtest_num=num(4); e.ntuple=num(6); e.Xtrategy=num(8); e.Xoff=num(10)")
cli("last_wins", ["-p", "#", "-p", "#", "-S", "#", "-S", "#"], "e.psamples=num(4); e.Seed=num(8)")
cli("attached", ["-p#", "-ao", "-S#"], "e.psamples=vp_strtol(BUF_(1)+2,0,10); e.all=1; e.output_file=1; e.Seed=vp_strtol(BUF_(3)+2,0,10)")
cli("d_num", ["-d", "#"], "e.dtest_num=num(2)")
cli("d_name", ["-d", "diehard_birthdays"], 'e_dname="diehard_birthdays"')
cli("g_num", ["-g", "#"], "e.gvcount=1; e_gnum[0]=num(2); e_gn[0]=1")
cli("g_name", ["-g", "mt19937"], 'e.gvcount=1; e_gname[0]="mt19937"')
cli("g_many", ["-g", "207", "-g", "#", "-g", "kiss", "-g", "#"], 'e.gvcount=4; e_gnum[0]=207; e_gn[0]=1; e_gnum[1]=num(4); e_gn[1]=1; e_gname[2]="kiss"; e_gnum[3]=num(8); e_gn[3]=1')
cli("f_name", ["-f", "dir/data.txt", "-g", "202"], 'e.fromfile=1; e_fname="dir/data.txt"; e.gvcount=1; e_gnum[0]=202; e_gn[0]=1', unwind=1030)
LONG = "/" + "/".join("d%02dxxxxxxx" % i for i in range(22))
cli("f_long", ["-f", LONG], 'e.fromfile=1; e_fname="%s"' % LONG, unwind=1030, extra=["ARGW=260"], text="-f with a name of %d characters" % len(LONG))
NAMES = "header show_rng line_header test_name ntuple tsamples psamples pvalues assessment prefix description histogram seed rate show_num no_whitespace psample_values file_rng_stat".split()
for i in range(0, 18, 6):
    qs.append(Q("cli_D_names_%d" % i, "h_dnames", CLI, 60, "-D with each of the flag names %s" % " ".join(NAMES[i:i + 6]), defs=['ARGS="dh"', "EXPECT=(void)0", "DN=%d" % i], rdefs=["VP_SHIM_EXTRA=\"cli_shim.h\""], ldefs=["VP_OWN_EXIT"], fieldsens=600))
cli("D_default", ["-D", "default"], "e.tflag=tflag_default")
cli("D_default_plus", ["-D", "default", "-D", "prefix"], "e.tflag=tflag_default|TPREFIX")
cli("D_num", ["-D", "#"], "e.tflag=num(2)?num(2):tflag_default", limit=262143)
cli("D_num_name", ["-D", "8", "-D", "pvalues", "-D", "0"], "e.tflag=tflag_default")
cli("D_bad", ["-D", "nosuch"], stop=1)
cli("D_bad_prefix", ["-D", "pvalue"], stop=1)
cli("unknown_option", ["-a", "-q"], stop=1)
cli("missing_arg", ["-p"], stop=1)
cli("leftover", ["-a", "mt19937"], stop=1)
cli("no_args", [], stop=1)
cli("version", ["-V"], stop=1)
cli("list", ["-l"], stop=1)
cli("g_minus1", ["-h"], stop=1)
cli("too_many_g", ["-g", "1"] * 101, stop=1, unwind=260, extra=["ARGW=3"], text="-g 1, 101 times")
prop("C18", qs)

SEL = ["h:h_sel.c", D + "choose_rng.c", D + "globals.c", "lib:env.c"]
qs = []
def sel(name, text, defs, **kw):
    qs.append(Q("sel_" + name, "h_sel", SEL, 1010, text + "; any seeds, output flags, maxima, file flag", defs=["H_SEL"] + defs, ldefs=[], fieldsens=64, **kw))
sel("number", "generator number any 32-bit value", [])
sel("number_old", "any number, another generator in use", ["HAVE_OLD"])
for i, n in enumerate(("mt19937_1999", "file_input", "mt1993", "borosh13", "mt19937", "nosuch", "file_input_raw", "/dev/urandom")):
    sel("name%d" % i, "generator name %s" % n, ['NAME="%s"' % n], tiers=QT if i < 3 else TH)
for n in (13, 300, 201):
    sel("choose_%d" % n, "choose_rng(), number %d" % n, ["CHOOSE", "NUM=%d" % n] + (["NOEND"] if n == 300 else []))
sel("choose_name", "choose_rng(), name mt19937", ["CHOOSE", 'NAME="mt19937"'])
sel("xor_1", "XOR without components", ["XORSEL=1", 'XNAME2="mt19937"'])
sel("xor_2", "XOR with one component of any number", ["XORSEL=2", 'XNAME2="mt19937"'])
sel("xor_3", "XOR with components of any number and named mt19937", ["XORSEL=3", 'XNAME2="mt19937"'])
sel("xor_3bad", "XOR with components of any number and of an unknown name", ["XORSEL=3", 'XNAME2="nosuch"'])
sel("xor_xor", "XOR as its own component", ["XORSEL=3", 'XNAME2="XOR (supergenerator)"'])
qs.append(Q("registry", "h_reg", ["h:h_sel.c", L + "dieharder_rng_types.c", D + "globals.c", "lib:env.c"], 1010, "any set of entropy devices present", defs=["H_REG"], rdefs=["VP_SHIM_EXTRA=\"reg_shim.h\""], fieldsens=64))
prop("C19", qs)

qs = []
qs.append(Q("registry", "h_treg", ["h:h_all.c", L + "dieharder_test_types.c", D + "globals.c", "lib:env.c"], 1010, "the whole table", defs=["H_TREG"], ldefs=["VP_OWN_EXIT"], fieldsens=64, checks=["--bounds-check"]))
for n, d in [("all_any_ntuple", []), ("all_default", ["NTUPLE=0"])] + [("all_ntuple_%d" % k, ["NTUPLE=%d" % k]) for k in (1, 4, 6, 40)]:
    qs.append(Q(n, "h_all", ["h:h_all.c", D + "run_all_tests.c", D + "globals.c", "lib:env.c"], 45, "run all tests, " + (d[0] if d else "any given n-tuple size"), defs=["H_ALL"] + d, ldefs=["VP_OWN_EXIT"], fieldsens=64, tiers=QT if d else TH))
ONE = ["h:h_all.c", D + "run_test.c", D + "globals.c", "lib:env.c"]
for n, d in ((0, []), (17, []), (101, []), (203, []), (211, []), (18, 1), (103, 1), (212, 1), (1000, 1), (2147483647, 1)):
    qs.append(Q("one_%d" % n, "h_one", ONE, 1010, "one test by number %d" % n, defs=["H_ONE", "BYNUM=%d" % n] + (["W_NOEND", "W_REFUSE"] if d else []), ldefs=["VP_OWN_EXIT"], fieldsens=64, tiers=QT if n in (203, 17, 18, 1000) else TH))
for n, d in (("diehard_count_1s_stream", []), ("rgb_lagged_sum", []), ("dab_opso2", []), ("diehard_rank", ["W_NOEND", "W_REFUSE"]), ("nosuch", ["W_NOEND", "W_REFUSE"])):
    qs.append(Q("one_" + n, "h_one", ONE, 1010, "one test by name %s" % n, defs=["H_ONE", 'BYNAME="%s"' % n] + d, ldefs=["VP_OWN_EXIT"], fieldsens=64, tiers=TH if n == "dab_opso2" else QT))
prop("C20", qs)
