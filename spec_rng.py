from specs import *
RB = ["lib:gslrng.c", D + "globals.c"] + BASE
qs = []
for n in range(1, 7):
    qs.append(Q("xor_%d" % n, "h_xor", ["h:h_rng.c", L + "rng_XOR.c"] + RB, 20, "%d components, arbitrary outputs, seeds and seeder; 3 outputs, reseeding, one more" % n, defs=["H_XOR", "NC=%d" % n, "NF=%d" % n], ldefs=["VP_EXIT_IS_BUG"]))
for n in (2, 4):
    qs.append(Q("xor_same_%d" % n, "h_xordup", ["h:h_rng.c", L + "rng_XOR.c"] + RB, 20, "the same generator selected %d times, arbitrary outputs, seed and seeder; 2 outputs" % n, defs=["H_XORDUP", "NC=%d" % n, "NF=%d" % n], ldefs=["VP_EXIT_IS_BUG"]))
prop("C09", qs)
qs = []
def sd(name, ty, srcs, nd=3, past="dirty", nf=16, pre=2, extra=(), unwind=40, text="", **kw):
    d = {"dirty": ["DIRTY"], "other": ["OTHER", "PRE=%d" % pre], "both": ["DIRTY", "OTHER", "PRE=%d" % pre]}[past]
    qs.append(Q(name, "h_seed", ["h:h_rng.c"] + srcs + RB, unwind, "%s: %d outputs and a uniform after seeding; %s %s" % (ty, nd, {"dirty": "state memory arbitrary before", "other": "seeded with an arbitrary other seed and used for %d outputs before" % pre, "both": "arbitrary state memory, another seed, %d outputs before" % pre}[past], text),
                defs=["H_SEED", "TYPE=gsl_rng_" + ty, "ND=%d" % nd, "NF=%d" % nf] + d + list(extra), ldefs=["VP_EXIT_IS_BUG"], **kw))
KISS = [L + "rng_kiss.c"]
sd("seed_kiss_dirty", "kiss", KISS, extra=["NZ"], nf=4)
sd("seed_kiss_other", "kiss", KISS, past="other", extra=["NZ"], nf=4)
UV = [L + "rng_uvag.c", L + "bits.c"]
sd("seed_uvag_bits", "uvag", UV, nd=2, nf=70, unwind=300, fieldsens=300, extra=["BITPAST=3", "PASTMASK=0xffffffffu", "NOALLOCSET"], text="and bits of another generator buffered", cost=9)
sd("seed_uvag_bits24", "uvag", UV, nd=6, nf=70, unwind=300, fieldsens=300, extra=["BITPAST=2", "PASTMASK=0xffffffu"], text="and bits of a 24-bit generator buffered", tiers=TH)
sd("seed_uvag_other", "uvag", UV, nd=6, nf=70, past="other", pre=5, unwind=300, fieldsens=300, tiers=TH)
for s in (1, 0xdeadbeef):
    t = QT if s == 1 else TH
    sd("seed_aes_%x" % s, "aes", [L + "rng_aes.c", L + "rijndael-alg-fst.c"], nd=6, nf=1, extra=["SCONST=%uu" % s], unwind=300, fieldsens=300, tiers=t, text="(seed %u)" % s)
    sd("seed_threefish_%x" % s, "threefish", [L + "rng_threefish.c", L + "skein_block64.c"], nd=18, nf=1, extra=["SCONST=%uu" % s], unwind=300, fieldsens=300, tiers=t, text="(seed %u)" % s)
    for g in ("wichmann_hill", "marsaglia_mc", "super_duper"):
        sd("seed_R_%s_%x" % (g, s), "r_" + g, [L + "rngs_gnu_r.c"], nd=4, nf=1, past="both", extra=["SCONST=%uu" % s, "OCONST=77u"], unwind=1100, tiers=t, text="(seed %u, other seed 77)" % s)
    sd("seed_R_mersenne_twister_%x" % s, "r_mersenne_twister", [L + "rngs_gnu_r.c"], nd=4, nf=1, past="both", extra=["SCONST=%uu" % s, "OCONST=77u"], unwind=1100, fieldsens=700, tiers=t, text="(seed %u, other seed 77)" % s)
for past in ("dirty", "other"):
    sd("seed_superkiss_" + past, "superkiss", [L + "rng_superkiss.c|41790=>3"], nd=5, nf=3, past=past, text="(table reduced to 3 entries)")
    sd("seed_ca_" + past, "ca", [L + "rng_ca.c|2056=>8"], nd=3, nf=1, past=past, unwind=60, fieldsens=600, extra=["SCONST=305419896u", "OCONST=77u"], text="(width reduced to 8 cells, seed 305419896)")
prop("C03", qs)
qs = []
for sym, w in enumerate(("x", "y", "z", "c")):
    for zs in (0, 2):
        qs.append(Q("kiss_%s_%d" % (w, zs), "h_kiss", ["h:h_rng.c"] + KISS + RB, 20, "kiss: 3 outputs, arbitrary %s component, the others fixed; %d zero seed words skipped" % (w, zs), defs=["H_KISS", "NF=%d" % (4 + zs), "ZS=%d" % zs, "ND=%d" % (2 if w == "c" else 3), "SYM=%d" % sym], solver=["cadical", "z3"]))
for nd in (1, 2, 3):
    qs.append(Q("uvag_%d" % nd, "h_uvag", ["h:h_rng.c"] + UV + RB, 300, "uvag: %d outputs from any state" % nd, defs=["H_UVAG", "ND=%d" % nd], solver=["cadical", "z3"], fieldsens=0, tiers=QT if nd < 2 else TH))
for sym in range(3):
    qs.append(Q("superkiss_%d" % sym, "h_skiss", ["h:h_rng.c", L + "rng_superkiss.c|41790=>3"] + RB, 20, "superkiss with its table reduced to 3 entries: 8 outputs (3 refills), seed word %d arbitrary" % sym, defs=["H_SKISS", "QM=3", "NF=3", "ND=8", "SYM=%d" % sym], solver=["cadical", "z3"]))
qs.append(Q("ca_rule", "h_ca_rule", ["h:h_rng.c", L + "rng_ca.c"] + RB, 20, "ca: every entry of the rule table", defs=["H_CA", "CW=8", "SBASE=0", "SMASK=0", "ND=1"], fieldsens=0))
for n, (sb, sm) in enumerate((("0x12345678u", "0x8u"), ("0xffffffffu", "1u"), ("0", "0x40000000u"))):
    qs.append(Q("ca_%d" % n, "h_ca", ["h:h_rng.c", L + "rng_ca.c|2056=>8"] + RB, 60, "ca with its width reduced to 8 cells: 16 warm-up steps and 4 outputs, seeds %s xor arbitrary bits %s" % (sb, sm), defs=["H_CA", "CW=8", "SBASE=" + sb, "SMASK=" + sm, "ND=4"], fieldsens=600, solver=["cadical", "z3"]))
prop("C11", qs)
qs = []
AES = [L + "rijndael-alg-fst.c"]
C = ["h:h_cipher.c"]
qs.append(Q("aes_gen", "h_aesgen", C + [L + "rng_aes.c"] + RB, 300, "any seed, any cipher blocks: 14 numbers over 4 blocks", defs=["H_AESGEN"], ldefs=["VP_EXIT_IS_BUG"], fieldsens=300))
qs.append(Q("threefish_gen", "h_tfgen", C + [L + "rng_threefish.c"] + RB, 300, "any seed, any cipher blocks, any previous state memory: 36 numbers over 3 blocks", defs=["H_TFGEN"], ldefs=["VP_EXIT_IS_BUG"], fieldsens=300))
qs.append(Q("aes_key", "h_aeskey", C + AES + BASE, 60, "AES-128 key expansion, every key", defs=["H_AES", "RNDS=2", "SYMB=0"], fieldsens=64))
for r, sb, t in ((4, 0x0001, QT), (4, 0x0020, QT), (4, 0x400, QT), (4, 0x8000, QT), (10, 0x1, QT)):
    qs.append(Q("aes_enc_r%d_%x" % (r, sb), "h_aesenc", C + AES + BASE, 60, "AES with %d rounds, fixed round keys, plaintext bytes in mask %x arbitrary" % (r, sb), defs=["H_AES", "RNDS=%d" % r, "SYMB=0x%x" % sb], fieldsens=64, solver=["cadical", "z3"], tiers=t, timeout=150))
prop("C10", qs)
