"""P18 and others: parts of the library driven directly."""
from scen import *
from checks_tree import TRUST

CHECKS, INFO = {}, {}
INFO["P18"] = dict(technique="TLA+ model OxyCursor: TLC checks it exhaustively and generates operation sequences; the recorded results of the real cursor are validated step by step against OxyCursorTrace",
                   note="All pairs of operations on every buffer of the model, and long random sequences; values are compared as bytes." + TRUST)


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


def m_pos(evs):
    for e in evs:
        if e["ev"] == "CurStep" and e["st"] == "ok" and e["k"] == "u16":
            e["pos"] += 1
            return evs


def m_swapbytes(evs):
    for e in evs:
        if e["ev"] == "CurStep" and e["st"] == "ok" and e["k"] in ("u16", "i32", "f64") and e["v"] != e["v"][::-1]:
            e["v"] = e["v"][::-1]
            return evs


def m_fail(evs):
    for e in evs:
        if e["ev"] == "CurStep" and e["st"] == "fail":
            e.update(st="ok", v=[0], pos=0, len=0, empty=False)
            return evs


# ----------------------------------------------------------------------------- P18
@check("P18")
def p18(c):
    c.build()
    c.model("MCOxyCursor", "MCOxyCursor_q" if c.quick else "MCOxyCursor", note="every sequence of 2 (3) operations on short buffers")
    cases = c.enum("MCOxyCursor", "OxyCursorGen2q" if c.quick else "OxyCursorGen2", workers=8, timeout=800)
    long = c.gen("MCOxyCursor", "OxyCursorGenL", 500 if c.quick else 20000, 15)
    c.extra["pairs"], c.extra["long"] = len(cases), len(long)
    scs = []
    allc = cases + long
    for g in range(0, len(allc), 100):
        s = S(f"cur{g}")
        for x in allc[g:g + 100]:
            s.op("cursor", hex=bytes(x["buf"]).hex(), offset=x["off"], steps=x["ops"])
        scs.append(s.d())
    r = c.run(scs)
    c.validate("OxyCursorTrace", r, scens=scs, mutants=[("position", m_pos), ("byte order", m_swapbytes), ("past the end", m_fail)])
