#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand after editing)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
P, NA = [], []
def p(id, title, statement, over, text, why, files, mech, observe, technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None), _t=technique, _n=note, _na=na))
TESTS = "The stable tests run one generator with one seed on single statistical tests and compare printed p-values; "
L, D = "libdieharder/", "dieharder/"

p("C01", "Bits delivered are the generator's bit stream, none lost, added or reordered",
  "Every request for random bits (32-bit words, strings of 1..128 bits, 1..32-bit integers) returns exactly the next not yet delivered significant bits of the generator's output, in a fixed documented order, and draws no more generator outputs than these bits need. This holds for every generator width from 1 to 32 bits and every sequence of request sizes. After the buffers are reset only bits of newly drawn outputs are delivered, and a request that does not fit its result is refused without consuming bits.",
  ["inputs", "histories", "configurations"], "all generator outputs, all widths 1..32, all sequences of request sizes",
  TESTS + "they use one 32-bit generator; narrow generators and odd request sequences are never run.",
  [L + "bits.c", L + "static_get_bits.c"], [("get_uint_rand", L + "bits.c"), ("get_rand_bits", L + "bits.c"), ("get_bits_rand", L + "static_get_bits.c")], ["return value and result buffer of the bit request", "number of generator draws"])
p("C02", "Bit-window helpers return exactly the requested cyclic window of bits",
  "For every bit string, start offset and length, the bit-window helpers (n-tuple extraction with wrap-around, masks, windows, rotations, single bits, conversion from binary digits) return exactly the addressed bits, right-justified, zero elsewhere. They never write outside the result buffer and never terminate the program for an in-range request.",
  ["inputs"], "all contents, offsets and lengths in range",
  TESTS + "each test uses a handful of fixed window sizes.",
  [L + "bits.c"], [("get_ntuple_cyclic", L + "bits.c"), ("get_bit_ntuple", L + "bits.c"), ("b_window, b_umask, b_rotate_*", L + "bits.c")], ["result words"])
p("C04", "A raw file is replayed word for word, in order, with honest wrap-around counts",
  "The i-th number obtained from a raw binary file is the i-th 32-bit word of the file modulo the number of whole words in it; the numbers handed out, the position and the wrap-arounds are counted exactly, for files of any size, and reseeding starts over at the first word. Files of fewer than 16 words and directories are refused. From a pipe or device every word is delivered once in order, and at its end the program stops rather than inventing numbers.",
  ["inputs", "histories"], "all file contents, all sizes within the bounds, any position",
  "No stable test reads a file.",
  [L + "rng_file_input_raw.c"], [("file_input_raw_set/get", L + "rng_file_input_raw.c")], ["returned numbers", "position/rewind counters", "program exit"])
p("C05", "A text number file is replayed value for value as its header says",
  "The i-th number obtained from a text file is the value on its i-th data line (modulo the declared count), read in the declared type (decimal, octal, hexadecimal, binary, or fraction scaled to 32 bits), whatever the order and number of header and comment lines. Counters of numbers read and wrap-arounds are exact. A missing header field, missing line, blank line or unreadable line stops the program instead of yielding an invented number.",
  ["inputs", "configurations"], "all digit values for each declared type and header layout in the bounds",
  "No stable test reads a file.",
  [L + "rng_file_input.c", L + "parse.c"], [("file_input_set/get", L + "rng_file_input.c"), ("split", L + "parse.c")], ["returned numbers", "declared count/type/width", "program exit"])
p("C06", "Standard input and entropy devices deliver every 32-bit word once, or stop",
  "Numbers taken from standard input or from an entropy device are the successive 32-bit words of that stream, each delivered exactly once and in order, within the declared 32-bit range; uniforms are the same words scaled. When the stream ends, fails or cannot be opened the program reports it and stops; no number is made up.",
  ["inputs", "fault_sequences"], "all byte contents and all end-of-stream positions in the bounds",
  "No stable test reads standard input or a device.",
  [L + "rng_stdin_input_raw.c", L + "rng_dev_random.c", L + "rng_dev_urandom.c", L + "rng_dev_arandom.c"], [("*_get", L + "rng_*.c")], ["returned numbers", "program exit"])
p("C07", "Exported streams contain exactly the requested numbers of the seeded generator",
  "Exporting N numbers writes the documented header (generator, seed, type, count, bits) and then exactly the first N numbers of the generator seeded with the reported seed, in order, in the requested format (binary, unsigned decimal, uniform), to the requested destination. A count of 0 exports an endless stream in binary format.",
  ["inputs", "configurations"], "all generator outputs, seeds, the three formats, counts and destinations in the bounds",
  "No stable test exports numbers.",
  [D + "output_rnds.c"], [("output_rnds", D + "output_rnds.c")], ["bytes/records written", "seeding of the generator"])
p("C13", "Verdicts follow the thresholds and every requested column reports its own value",
  "Each statistic is reported on one line holding exactly the requested columns in the documented order, each with its own value, and the verdict is FAILED when the p-value is within the failure threshold of 0 or 1, otherwise WEAK when within the weak threshold, otherwise PASSED. The defaults are 1e-6 and 0.005, and a histogram shows every p-value exactly once in the bin it falls into.",
  ["inputs", "configurations"], "all p-values and thresholds, sample counts, seeds; the output flag sets in the bounds",
  TESTS + "they parse two columns of one layout and never see FAILED or other thresholds.",
  [D + "output.c", D + "set_globals.c"], [("output, output_table_line, output_histogram", D + "output.c")], ["printed records"])
p("C14", "Run control: reseeding, one run or repeated rounds until the stop rule is met",
  "A selected test is created with the requested sample sizes, run, reported after every round and released. Without a multi-round mode it runs once; in resolve-ambiguity mode sampling continues exactly while no p-value fails, some p-value is weak and the limit is not reached; in test-to-destruction mode exactly while none fails and the limit is not reached. With the reseeding strategy the generator is reseeded once before the test (with the given seed, else a fresh one, which is the seed reported) and no buffered bits of the old stream are used; otherwise the stream simply continues.",
  ["inputs", "histories", "configurations"], "all p-values, thresholds, seeds, limits; up to 3 rounds",
  TESTS + "no stable test uses a multi-round mode.",
  [D + "run_test.c"], [("execute_test", D + "run_test.c")], ["sequence of create/run/report/release calls", "generator seeding"])
p("C15", "The final p-value is computed from all p-values of a test, each exactly once",
  "Every repetition of a test runs exactly once, its p-value is stored unchanged, and the final p-value of each statistic is computed from all p-values accumulated so far, also when rounds are added. The number of repetitions and samples is the requested one, or the standard one (scaled by the multiplier, at least 1) when none is given or all tests are run; the limit only applies in the multi-round modes.",
  ["inputs", "histories", "configurations"], "all p-values; the count/mode/limit combinations in the bounds",
  TESTS + "always with default counts and one round.",
  [L + "std_test.c"], [("create_test, std_test, add_2_test", L + "std_test.c")], ["arguments of the final test", "reported counts"])
exec(open(os.path.join(HERE, "meta_more.py")).read()) if os.path.exists(os.path.join(HERE, "meta_more.py")) else None

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps({k: v for k, v in x.items() if k[0] != "_"}) + "\n")
        assert len(x["title"]) <= 80, x["id"]
checks, na = [], []
for x in P:
    if x["_na"]:
        na.append(dict(property=x["id"], reason=x["_na"])); continue
    checks.append(dict(property=x["id"], quick_cmd="python3 run.py --prop %s --tier quick" % x["id"], thorough_cmd="python3 run.py --prop %s --tier thorough" % x["id"],
        technique=x["_t"] or "bounded symbolic execution of the C sources (goto-cc/CBMC) decided by a SAT solver; native replay of counterexamples", level="other",
        level_note=x["_n"] or "Holds for every value within the per-query bounds listed in the evidence file (unwinding assertions on); nothing is claimed outside. Trusts CBMC, the environment models in lib/ and the oracle in harness/."))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na, notes="No hooks are needed: the harnesses compile /repo's unmodified sources with force-included headers."), open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
