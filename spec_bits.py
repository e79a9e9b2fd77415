import collections
from specs import *
BITS = ["h:h_bits.c", L + "bits.c", D + "globals.c"] + BASE

def static_seq(w):
    """walk over all (bits left in the buffer, request size) pairs for width w"""
    left, seq = 0, []
    todo = {(l, n) for l in range(0, w) for n in range(1, 33) if n != w}
    def nxt(l, n):
        if l >= n:
            return l - n
        need = n - l
        return -(-need // w) * w - need
    while todo and len(seq) < 4000:
        q = collections.deque([(left, ())]); vis = {left}; path = None
        while q:
            l, pa = q.popleft()
            c = [n for n in range(1, 33) if (l, n) in todo]
            if c:
                path = pa + (c[-1],); break
            for n in range(1, 33):
                if n != w:
                    m = nxt(l, n)
                    if m not in vis:
                        vis.add(m); q.append((m, pa + (n,)))
        if path is None:
            break
        for n in path:
            todo.discard((left, n)); left = nxt(left, n); seq.append(n)
    return seq

qs = []
for w in range(1, 33):
    qs.append(Q("uint_rand_w%d" % w, "h_uint_rand", BITS, 200, "width %d, first %d words after a reset, arbitrary generator output" % (w, 4),
                defs=["W=%d" % w, "NWORDS=4", "MAXG=%d" % (4 * 32 // w + 6)], ldefs=["VP_EXIT_IS_BUG"],
                tiers=QT if w in (1, 2, 3, 5, 8, 11, 15, 16, 17, 24, 25, 30, 31, 32) else TH))
for lo in range(1, 129, 16):
    seq = sum([[m] * (3 if m > 64 else 4) + [0] for m in range(lo, lo + 16)], [])
    qs.append(Q("rand_bits_rep_%d" % lo, "h_rand_bits", BITS, 1100, "width 32, sizes %d..%d, each repeated 3-4 times from a reset" % (lo, lo + 15),
                defs=["H_RANDBITS", "HW=32", S(seq), "MAXG=64"], ldefs=["VP_EXIT_IS_BUG"], cost=5))
for w in (7, 24, 31):
    seq = sum([[m, 128 - m, m, 0] for m in range(1, 128, 9)], [])
    qs.append(Q("rand_bits_mix_w%d" % w, "h_rand_bits", BITS, 1100, "width %d, mixed sizes n,128-n,n" % w,
                defs=["H_RANDBITS", "HW=%d" % w, S(seq), "MAXG=%d" % (600 // w + 40)], ldefs=["VP_EXIT_IS_BUG"], cost=5))
for i in range(4):
    seq = sum([[p, n, 0] if p else [n, 0] for p in range(i, 128, 8) for n in (24, 33, 128)], [])
    qs.append(Q("rand_bits_off_%d" % i, "h_rand_bits", BITS, 1100, "width 32, first request p = %d mod 8 (p<128), then 24, 33 or 128 bits" % i,
                defs=["H_RANDBITS", "HW=32", S(seq), "MAXG=64"], ldefs=["VP_EXIT_IS_BUG"], cost=6))
for p in range(0, 128, 4):
    seq = sum([[pp, n, 0] if pp else [n, 0] for pp in range(p, p + 4) for n in range(1, 129, 2 if p % 8 else 3)], [])
    qs.append(Q("rand_bits_pairs_%d" % p, "h_rand_bits", BITS, 1100, "width 32, first request %d..%d bits, then every 2nd/3rd size up to 128" % (p, p + 3),
                defs=["H_RANDBITS", "HW=32", S(seq), "MAXG=64"], ldefs=["VP_EXIT_IS_BUG"], tiers=TH, cost=9))
qs.append(Q("refuse", "h_rand_bits_refuse", BITS, 300, "sizes 0 and 33..2^32-1 (19 values) against results of 1..8 words",
            defs=["H_RANDBITS", "HW=32", S([1]), "MAXG=64"], ldefs=["VP_EXIT_IS_BUG"]))
for w in (24, 31, 32):
    qs.append(Q("reset_w%d" % w, "h_reset_forgets", BITS, 300, "width %d, one request of 16 sizes (1..128) before the reset" % w,
                defs=["H_RANDBITS", "HW=%d" % w, S(range(1, 129, 8)), "MAXG=64"], ldefs=["VP_EXIT_IS_BUG"]))
for w in range(1, 33):
    t = QT if w in (1, 2, 5, 8, 15, 16, 24, 31, 32) else TH
    qs.append(Q("static_bits_w%d" % w, "h_static_bits", BITS, 1400, "width %d: every (bits left in buffer, request size 1..32) pair, arbitrary generator output" % w,
                defs=["H_STATIC", "HW=%d" % w, S(static_seq(w)), "MAXG=80"], ldefs=["VP_EXIT_IS_BUG"], tiers=t, cost=4))
    qs.append(Q("static_whole_w%d" % w, "h_static_whole", BITS, 40, "width %d, three requests of exactly the width" % w,
                defs=["H_STATIC", "HW=%d" % w, S([1]), "MAXG=80"], ldefs=["VP_EXIT_IS_BUG"], tiers=QT if w in (1, 24, 31, 32) else TH))
prop("C01", qs)

H = ["H_HELPERS", "ILEN=3", "JLEN=3", "BSLEN=3", "NLO=1", "NHI=1", "OFF0=0", "OFFSTEP=32"]
qs = [Q("window", "h_window", BITS, 40, "all 32-bit inputs, all windows 0<=s<=e<=31 and offsets that fit, all rotations", defs=H),
      Q("ntuple_w", "h_ntuple_w", BITS, 45, "strings of 3 words, widths 1..32, tuple lengths 1..40, every offset", defs=H, cost=20),
      Q("single", "h_single", BITS, 40, "all words, widths 1..32, strings of up to 32 digits", defs=H),
      Q("fill", "h_fill", BITS, 40, "widths 16..32, 3 words", defs=H),
      Q("static_ntuple", "h_static_ntuple", BITS, 40, "all values, widths 1..32, sizes <= width, offsets 0..31",
        defs=["H_STATIC", "HW=1", S([1]), "MAXG=80"], ldefs=["VP_EXIT_IS_BUG"], cost=8)]
for il, jl in ((1, 1), (2, 2), (3, 4), (6, 6)):
    nmax = 32 * max(1, il - 2)
    for lo in range(1, nmax + 1, 16):
        qs.append(Q("cyclic_%d_%d_%d" % (il, jl, lo), "h_cyclic", BITS, 400, "input %d words, output %d words, lengths %d..%d, every 11th offset, arbitrary contents" % (il, jl, lo, lo + 15),
                    defs=["H_HELPERS", "ILEN=%d" % il, "JLEN=%d" % jl, "BSLEN=3", "NLO=%d" % lo, "NHI=%d" % (lo + 15), "OFF0=%d" % (lo % 11), "OFFSTEP=11"],
                    ldefs=["VP_EXIT_IS_BUG"], cost=6))
        for o in range(0, 8):
            qs.append(Q("cyclic_%d_%d_%d_o%d" % (il, jl, lo, o), "h_cyclic", BITS, 400, "input %d words, output %d words, lengths %d..%d, offsets = %d mod 8, arbitrary contents" % (il, jl, lo, lo + 15, o),
                        defs=["H_HELPERS", "ILEN=%d" % il, "JLEN=%d" % jl, "BSLEN=3", "NLO=%d" % lo, "NHI=%d" % (lo + 15), "OFF0=%d" % o, "OFFSTEP=8"],
                        ldefs=["VP_EXIT_IS_BUG"], tiers=TH, cost=6))
prop("C02", qs)
