from specs import *
F = ["VP_OWN_SQRT", "VP_OWN_POW", "VP_EXIT_IS_BUG"]
qs = []
def kq(name, func, src, unwind, text, defs, more=(), lib=(), **kw):
    kw.setdefault("fieldsens", 64)
    qs.append(Q(name, func, ["h:h_kern2.c", L + src] + [D + "globals.c", "lib:gslrng.c"] + list(more) + BASE, unwind, text, defs=defs, ldefs=F + list(lib), weak=["lib:gslrng.c"], **kw))
for ts in (2, 3):
    kq("opso_%d" % ts, "h_opso", "diehard_opso.c|1024/0x400/1 << 10/1u << 10/1U << 10=>4;?0x03ff/0x3ff/0x3FF/1023=>3", 20, "%d words of two letters (letters reduced from 10 to 2 bits)" % ts, ["H_OPSO", "TS=%d" % ts])
for ts in (3, 7):
    kq("oqso_%d" % ts, "h_oqso", "diehard_oqso.c|32/0x20=>2;?0x01f/0x1f/0x1F/31=>1", 20, "%d words of four letters (letters reduced from 5 bits to 1)" % ts, ["H_OQSO", "TS=%d" % ts])
for rb in (32, 24, 23):
    kq("opso2_w%d" % rb, "h_opso2", "dab_opso2.c|26=>2;524288/0x80000=>1;0x0fff/0xfff/0xFFF/0x0FFF/4095=>3;12=>2", 40, "4 numbers of a %d-bit generator, 4 bits arbitrary (letters reduced from 12 to 2 bits)" % rb, ["H_OPSO2", "NKPS=2", "RB=%d" % rb, "GMASK=0xfu"])
kq("bitstream", "h_bstream", "diehard_bitstream.c|M/1048576=>16;12=>28;262146=>3", 70, "40 overlapping words (reduced from 20 to 4 bits), 8 stream bits arbitrary", ["H_BSTREAM", "TS=40", "GMASK=0x00818101u"], [L + "bits.c"])
kq("bitstream_rep", "h_bstream", "diehard_bitstream.c|M/1048576=>16;12=>28;262146=>12", 330, "256 overlapping words (reduced from 20 to 4 bits) of a generator stuck at 0", ["H_BSTREAM", "TS=256", "GMASK=0x0u"], [L + "bits.c"])
kq("dna", "h_dna", "diehard_dna.c|4=>1;?0x3/0x03/3=>0", 270, "256 words of 10 letters (alphabet reduced from 4 letters to 1), arbitrary numbers", ["H_DNA", "TS=256", "MAXG=128"], [L + "bits.c"], fieldsens=300)
for ts, nm in ((1, 4), (2, 3), (1, 5)):
    kq("dab_birthdays_%d_%d" % (ts, nm), "h_bday", "dab_birthdays1.c|4096=>8", nm + 3, "%d sample(s) of %d birthdays of 6 bits" % (ts, nm), ["H_BDAY", "DAB", "TS=%d" % ts, "NM=%d" % nm, "RB=6", "KM=3", "GMASK=0x3fu"], tiers=QT if nm < 5 else TH)
B = ["TS=1", "NM=4", "RB=8", "KM=3", "GMASK=0xffu"]
kq("birthdays_w8", "h_bday", "diehard_birthdays.c|512=>4", 9, "1 sample of 4 birthdays (reduced from 512) of an 8-bit generator, at most one repeated spacing", ["H_BDAY", "ATMOST1"] + B, [L + "bits.c"])
kq("birthdays_adjacent", "h_bday", "diehard_birthdays.c|512=>4", 9, "1 sample of 4 birthdays (reduced from 512) of an 8-bit generator (known finding)", ["H_BDAY"] + B, [L + "bits.c"])
kq("serial_1", "h_serial", "sts_serial.c|nb = 16=>nb = 3", 70, "1 number, 6 of its bits arbitrary; patterns of up to 3 bits (reduced from 16)", ["H_SERIAL", "NKPS=4", "TS=1", "GMASK=0xc0018003u"], [L + "bits.c"])
kq("serial_2", "h_serial", "sts_serial.c|nb = 16=>nb = 3", 140, "2 numbers, 2 bits of each arbitrary; patterns of up to 3 bits (reduced from 16)", ["H_SERIAL", "NKPS=4", "TS=2", "GMASK=0x80000001u"], [L + "bits.c"])
kq("monobit2_1", "h_mono2", "dab_monobit2.c", 40, "5 numbers of 3 bits, blocks of 2", ["H_MONO2", "TS=5", "RB=3", "NT=1", "GMASK=7"])
kq("monobit2_w32", "h_mono2", "dab_monobit2.c", 140, "2 numbers of 32 bits, the first arbitrary, one block", ["H_MONO2", "TS=3", "RB=32", "NT=1", "K_MASK(n)=((n)==0?0xffffffffu:0u)"])
kq("monobit2_2", "h_mono2", "dab_monobit2.c", 40, "9 numbers of 2 bits, blocks of 2 and 4", ["H_MONO2", "TS=9", "RB=2", "NT=2", "GMASK=3"])
for rb in (32, 31, 24, 8):
    kq("bytes_w%d" % rb, "h_byted", "dab_bytedistrib.c|256=>4;?255=>3;?0x0ff/0xff/0xFF/0x0FF=>3", 50, "2 samples of a %d-bit generator (bytes reduced to their 2 low bits)" % rb, ["H_BYTED", "TS=2", "RB=%d" % rb] + (["GMASK=0x%xu" % ((1 << rb) - 1)] if rb < 32 else []))
for ks in (0, 1, 3):
    kq("kstest_%d" % ks, "h_kst", "rgb_kstest_test.c", 20, "3 uniforms (multiples of 1/256), -k %d" % ks, ["H_KST", "TS=3", "KSM=%d" % ks, "GMASK=0xff000000u", "K_ASSUME(v,n)=VP_ASSUME(((v)>>24)!=0)"])
kq("parking", "h_park", "diehard_parking_lot.c|12000=>3", 20, "3 cars (reduced from 12000), coordinates 50 plus any multiple of 100/256 below 6.25", ["H_PARK", "NC=3", "GMASK=0xfu", "K_UNIFORM(v)=(0.5+(v)/256.0)"])
G3 = ["SQTAB", "GMASK=3", "K_UNIFORM(v)=((v)*0.25)", "K_ASSUME(v,n)=VP_ASSUME(((v)&3)!=0)"]
G2 = ["SQTAB", "GMASK=1", "K_UNIFORM(v)=((v)*0.25+0.25)"]
def dq(name, src, d, n, kind, q, fn, more=(), g=G3, tiers=QT):
    kq(name, "h_dist", src, 20, "%d points on a grid of %d^%d" % (n, 3 if g is G3 else 2, d), ["H_DIST", "DIM=%d" % d, "NPT=%d" % n, "KIND=%d" % kind, "QS=%s" % q, "TESTFN=" + fn] + g, more, lib=["VP_OWN_EXP"], tiers=tiers)
S3, MD = "diehard_3dsphere.c|4000=>3", [L + "rgb_minimum_distance.c"]
dq("sphere3d", S3, 3, 3, 3, "250.0", "diehard_3dsphere", g=G2)
dq("sphere3d_3", S3, 3, 3, 3, "250.0", "diehard_3dsphere", tiers=TH)
dq("sphere2d", "diehard_2dsphere.c", 2, 3, 2, "2500.0", "diehard_2dsphere", MD)
dq("sphere2d_4", "diehard_2dsphere.c", 2, 4, 2, "2500.0", "diehard_2dsphere", MD, tiers=TH)
dq("mindist_2", "rgb_minimum_distance.c", 2, 3, 1, "0.25", "rgb_minimum_distance")
dq("mindist_3", "rgb_minimum_distance.c", 3, 3, 1, "0.25", "rgb_minimum_distance", g=G2)
dq("mindist_2_4", "rgb_minimum_distance.c", 2, 4, 1, "0.25", "rgb_minimum_distance", tiers=TH)
kq("serial_2m", "h_serial", "sts_serial.c|nb = 16=>nb = 3", 140, "2 numbers, 4 bits of each arbitrary; patterns of up to 3 bits (reduced from 16)", ["H_SERIAL", "NKPS=4", "TS=2", "GMASK=0x80018001u"], [L + "bits.c"], tiers=TH)
SLOW = "sphere2d mindist_2 mindist_3 sphere3d parking serial_1 serial_2 dna".split()
qs.sort(key=lambda q: SLOW.index(q["name"]) if q["name"] in SLOW else 99)
prop("C25", qs)
