"""Property -> solver queries.  Every query names the harness entry, the /repo
sources encoded, the unwinding bound and the claim's bound in words."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
COMMON_ASSUMPTIONS = [
    "CBMC 6.11 C semantics, x86-64 data model, little endian; malloc never fails; shifts by >= width are 0 (x86 differs; not used by the properties)",
    "stdio/exit/GSL calls are replaced by the models in /verif/lib (same models in solver run and native replay); diagnostics printed to stderr/stdout are ignored unless the property is about output",
    "nothing is claimed outside the bounds listed per query",
]

def known_findings(p):
    try:
        for l in open(os.path.join(HERE, "known_findings.jsonl")):
            l = l.strip()
            if l:
                e = json.loads(l)
                if e.get("kind") == "known" and e["property"] == p:
                    yield e
    except FileNotFoundError:
        pass

L = "libdieharder/"
D = "dieharder/"
BASE = ["lib:env.c"]
QT = ("quick", "thorough")
TH = ("thorough",)

def Q(name, func, sources, unwind, bounds, **kw):
    return dict(name=name, func=func, sources=sources, unwind=unwind, bounds=bounds, **kw)

PROPS = {}
def prop(pid, queries, **kw):
    PROPS[pid] = dict(queries=queries, **kw)

def S(seq):
    return "SEQ=" + ",".join(map(str, seq))


