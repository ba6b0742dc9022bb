"""P01 P02 P05 P06 P07 P08 P11: executions of the real library against OxyTree."""
import itertools
from scen import *

ENV = {}
CHECKS = {}


TRUST = (" Trusted: the driver (harness/), which only calls the public API and names values by a digest of their bits; TLC; "
         "that values not generated behave like the generated ones of their length class.")
INFO = {
    "P01": dict(technique="TLA+ model OxyTree (TLC, exhaustive small instance) + validation of recorded real executions, spec-generated programs",
                note="Every recorded write-then-read execution is checked step by step against the TLA+ machine: each value given by a provider must come back at its place. Exhaustive over types and encoding boundaries listed in DESIGN.md, sampled beyond." + TRUST),
    "P02": dict(technique="TLA+ model OxyTree + trace validation with entry counts as obligations",
                note="Counts reported for trees and columns are compared with the machine's own counts in every recorded execution; all length combinations up to 3x3(x3) and boundary counts." + TRUST),
    "P05": dict(technique="TLA+ model OxyTree + trace validation over programs with many trees, names and files",
                note="Key lists and newest-generation lookups of every recorded execution are those of the machine." + TRUST),
    "P06": dict(technique="TLA+ model OxyTree (refusal actions leave the state unchanged) + trace validation",
                note="Refused calls are actions of the machine that change nothing; executions mix them with successful ones and everything read afterwards must be explained by the machine." + TRUST),
    "P07": dict(technique="TLA+ model ColTypes (names of type terms, all pairs, written by the library and by others) + OxyTree trace validation",
                note="All ordered pairs of (written, requested) types enumerated by TLC are run on the real library; acceptance iff equal." + TRUST),
    "P08": dict(technique="TLA+ model OxyTree + trace validation of random iterator schedules",
                note="Schedules of iterator steps over several handles; each step must be the machine's." + TRUST),
    "P11": dict(technique="TLA+ model OxyTree (round protocol, Lockstep invariant) + exact-order trace validation",
                note="Every callback and provider poll of the real library is one action of the machine, in exact order." + TRUST),
}


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


def design(c):
    if c.quick:
        c.model("MCOxyTree", "MCOxyTree_q", note="every behaviour of the small instance, values <= 1")
    else:
        c.model("MCOxyTree", "MCOxyTree", timeout=900, note="every behaviour of the small instance, values <= 2", mem="8g")


def behaviours(c, num, seeds=None):
    """programs generated from the specification, with random seeds for the column contents"""
    out = []
    for i, h in enumerate(c.gen("OxyTreeGen", "OxyTreeGen", num, 400, seed=seeds)):
        ops = []
        for o in h:
            o = dict(o)
            if o["op"] == "branch":
                o.update(seed=c.rnd.randrange(1 << 30), vals=c.rnd.choice(["edge", "any"]))
            if o["op"] == "next" and c.rnd.random() < .3:
                o["n"] = 3
            ops.append(o)
        out.append(dict(id=f"gen-{i}", ops=ops))
    return out


def m_value(evs):
    """one value read differs"""
    for e in evs:
        if e["ev"] == "Next":
            e["tok"] += "?"
            return evs


def m_lost(evs):
    """the last value of a column is not given"""
    for i, e in enumerate(evs):
        if e["ev"] == "NextEnd" and evs[i - 1]["ev"] == "Next":
            del evs[i - 1]
            return evs


def m_twice(evs):
    for i, e in enumerate(evs):
        if e["ev"] == "Next":
            evs.insert(i, e)
            return evs


def m_keys(evs):
    for e in evs:
        if e["ev"] == "Keys" and e.get("names"):
            e["names"] = e["names"][1:]
            return evs


def m_count(evs):
    for e in evs:
        if e["ev"] == "Get" and e["res"] == "ok":
            e["entries"] += 1
            return evs


def m_bcount(evs):
    for e in evs:
        if e["ev"] == "Get" and e["res"] == "ok" and e["branches"]:
            e["branches"][-1]["entries"] += 1
            return evs


def m_poll(evs):
    """two steps of the library swapped"""
    for i in range(len(evs) - 1):
        if {evs[i]["ev"], evs[i + 1]["ev"]} == {"Poll", "CbBranch"} and evs[i]["ev"] == "CbBranch":
            evs[i], evs[i + 1] = evs[i + 1], evs[i]
            return evs


def m_cb(evs):
    for i, e in enumerate(evs):
        if e["ev"] == "CbBefore":
            del evs[i]
            return evs


def m_allowed(evs):
    """a refusal turned into a success"""
    for e in evs:
        if e["ev"] == "Iter" and e["res"] == "err":
            e["res"] = "ok"
            return evs


def m_refused(evs):
    for e in evs:
        if e["ev"] == "WriteEnd" and e["res"] == "err":
            e["res"] = "ok"
            return evs


M_COMMON = [("value", m_value), ("lost", m_lost), ("twice", m_twice), ("keys", m_keys)]
MUT = dict(common=M_COMMON + [("allowed", m_allowed), ("refused", m_refused)],
           counts=[("count", m_count), ("branchcount", m_bcount)],
           protocol=[("swap", m_poll), ("callback", m_cb)])


def judge(c, scens, focus="common", **kw):
    tr = c.run(scens, env=dict(OXH_EVERY="1") if focus == "protocol" else None)
    return c.validate("OxyTreeTrace", tr, env=dict(FOCUS=focus), scens=scens, mutants=MUT[focus], **kw)


def sd(c):
    return c.rnd.randrange(1 << 30)


def boundary_counts(w):
    """entry counts around which a column of w-byte entries starts a new basket"""
    k = 32768 // w
    return sorted({n for n in (k - 2, k - 1, k, k + 1, 2 * k - 1, 2 * k, 3 * k + 1) if n >= 0})


LENS_STR = [[0], [1], [0, 1, 2, 3], [253, 254, 255, 256, 257], [254], [255], [256], [0, 300], [1000, 0, 5],
            [32760, 3, 1], [32767], [32768, 1], [40000, 0], [70000, 2], [5000]]
LENS_VEC = [[0], [1], [0, 1, 2, 3], [31, 32, 33], [255, 256], [300, 0], [1000, 0, 2], [4095, 4096, 4097], [9000, 1], [70000, 1]]


# ----------------------------------------------------------------------------- P01
@check("P01")
def p01(c):
    c.build()
    design(c)
    sc = []
    big = list(RAW)
    # every writable type, few entries
    for i, ty in enumerate(WTYPES + big):
        n = [1, 2, 3, 7, 40][i % 5] if ty not in RAW else 3 + i % 3
        for v in ("edge", "any"):
            sc.append(write_read(f"type-{ty}-{v}", [dict(name="x", ty=ty, n=n, seed=sd(c), vals=v),
                                                    dict(name="y", ty="i32", n=n, seed=sd(c)),
                                                    dict(name="z", ty=ty, n=0, seed=sd(c))]))
    # counts around the points where a new basket starts, for every width
    for ty in SCALARS + ["[f32;10]", "[i16;17]", "[u64;3]", "[u8;3]", "[f64;10]", "[bool;3]"]:
        w = width(ty)
        ns = boundary_counts(w)
        if c.quick:
            ns = c.rnd.sample(ns, 2 if w > 1 else 1)
        for n in ns:
            sc.append(write_read(f"basket-{ty}-{n}", [dict(name="x", ty=ty, n=n, seed=sd(c), blk=997),
                                                      dict(name="y", ty="u16", n=max(0, n - 5), seed=sd(c), blk=997)]))
    # lengths of strings and vectors around every boundary of their encodings
    for k, lens in enumerate(LENS_STR):
        n = 40 if max(lens) > 1000 else 400
        sc.append(write_read(f"strlen-{k}", [dict(name="s", ty="String", n=n, seed=sd(c), lens=lens, vals="edge"),
                                             dict(name="i", ty="i64", n=n, seed=sd(c))]))
    for k, lens in enumerate(LENS_VEC):
        n = 25 if max(lens) > 1000 else 200
        for ty in (["Vec<i16>", "Vec<f64>"] if c.quick else [f"Vec<{t}>" for t in NUM]):
            sc.append(write_read(f"veclen-{k}-{ty}", [dict(name="v", ty=ty, n=n, seed=sd(c), lens=lens)]))
    # many small variable-length entries in one basket, and long runs over many baskets
    for ty in ("String", "Vec<u8>", "Vec<i32>"):
        for n in ((999, 1001, 2100) if c.quick else (998, 999, 1000, 1001, 1999, 2000, 2001, 4001, 9000)):
            sc.append(write_read(f"many-{ty}-{n}", [dict(name="v", ty=ty, n=n, seed=sd(c), lens=[0, 1, 2, 0], blk=50)]))
        sc.append(write_read(f"manylong-{ty}", [dict(name="v", ty=ty, n=1500, seed=sd(c), lens=[1200] + [0] * 1400, blk=50)]))
        sc.append(write_read(f"spread-{ty}", [dict(name="v", ty=ty, n=3000 if c.quick else 20000, seed=sd(c),
                                                   lens=[10, 200, 0, 77], blk=100)]))
    sc.append(write_read("baskets-100", [dict(name="v", ty="[f64;10]", n=410 * (105 if c.quick else 300), seed=sd(c), blk=4001)]))
    sc.append(write_read("baskets-1100", [dict(name="v", ty="String", n=1100 if c.quick else 4100, seed=sd(c), lens=[33000], blk=50), dict(name="i", ty="i32", n=9, seed=sd(c))]))
    sc.append(write_read("arrays-over-baskets", [dict(name="a", ty="[f64;5000]", n=13, seed=sd(c)),
                                                 dict(name="b", ty="[u8;4000]", n=30, seed=sd(c)),
                                                 dict(name="c", ty="[u32;257]", n=80, seed=sd(c)),
                                                 dict(name="d", ty="String", n=30, seed=sd(c), lens=[40000, 3])]))
    # more baskets than 15 bits count, and files beyond 2 (and 4) GiB, zeros being holes on disk
    s = S("baskets-32800").op("sys", prefix="$D", on=True, sparse=True).create().tree(name="t")
    s.branch("t", "v", "String", 32800, lens=[16400], vals="nul", blk=400).branch("t", "x", "i32", 5, seed=sd(c))
    sc.append(s.write().close().open().get("t").read(0, "String", 400).read(1, "i32").d())
    for k in (22,) if c.quick else (20, 21, 22, 44):
        s = S(f"huge-{k}").op("sys", prefix="$D", on=True, sparse=True).create().tree(name="t")
        s.branch("t", "big", "String", k, lens=[10 ** 8], vals="nul").branch("t", "x", "i32", k, seed=sd(c)).branch("t", "s", "String", 3, seed=sd(c))
        s.write().tree("u", "u").branch("u", "y", "f64", 9, seed=sd(c)).branch("u", "v", "Vec<i16>", 7, seed=sd(c)).write("u").close()
        s.open().op("keys", f="r").get("u", rt="ru").read(0, "f64", rt="ru", it="a").read(1, "Vec<i16>", rt="ru", it="b")
        sc.append(s.get("t").read(2, "String").read(1, "i32").read(0, "String", n=3 if k % 2 else 10 ** 9).d())
    # no column, no entry, many columns, unequal lengths
    sc.append(write_read("no-column", []))
    sc.append(write_read("no-entry", [dict(name=f"c{i}", ty=t, n=0) for i, t in enumerate(["i32", "String", "Vec<f64>", "[u8;3]"])]))
    for k in ((30, 130, 300) if c.quick else (11, 30, 130, 300, 700)):
        sc.append(write_read(f"columns-{k}", [dict(name=f"col_{i}", ty=c.rnd.choice(WTYPES), n=1 + i % 4, seed=sd(c), vals="edge")
                                              for i in range(k)]))
    # names
    for k, nm in enumerate(["x", "a.b.c", "with space", " lead", "trail ", "\tt\n", "\u00a0", "é漢", "n" * 200, "n" * 254, "n" * 255, "n" * 256, "n" * 300, "a_b-c+d",
                            "x[3]", "y[]", "z[", "w]", "[2]", "a[2][n]", "x[3]b"]):
        sc.append(write_read(f"name-{k}", [dict(name=nm, ty="f32", n=5, seed=sd(c)), dict(name=nm + "2", ty="String", n=5, seed=sd(c)),
                                           dict(name=nm + "[2]", ty="[u16;3]", n=3, seed=sd(c)), dict(name="v." + nm, ty="Vec<i64>", n=3, seed=sd(c))],
                             name=nm, path="$D/" + nm.replace("/", "_")[:60] + ".root"))
    # random trees
    for k in range(40 if c.quick else 600):
        cols = []
        for i in range(c.rnd.randint(1, 6)):
            ty = c.rnd.choice(WTYPES)
            n = c.rnd.choice([0, 1, 2, 3, 10, 50, 300]) if not c.rnd.random() < .1 else c.rnd.randint(300, 6000)
            kw = dict(lens=[c.rnd.choice([0, 1, 2, 5, 30, 254, 255, 256, 1000]) for _ in range(c.rnd.randint(1, 5))]) \
                if ty[0] in "SV" and c.rnd.random() < .8 else {}
            if n > 300 and kw:
                kw["lens"] = [min(x, 30) for x in kw["lens"]]
            cols.append(dict(name=f"c{i}", ty=ty, n=n, seed=sd(c), vals=c.rnd.choice(["edge", "any"]), blk=61 if n > 60 else 1, **kw))
        sc.append(write_read(f"rand-{k}", cols))
    sc += behaviours(c, 80 if c.quick else 1500)
    judge(c, sc)
    c.extra["column_types"] = len(WTYPES) + len(big)


# ----------------------------------------------------------------------------- P02
@check("P02")
def p02(c):
    c.build()
    design(c)
    sc = []
    # every combination of small column lengths, three columns
    L = (0, 1, 2, 3)
    combos = list(itertools.product(L, L)) + (list(itertools.product(L, L, L)) if not c.quick else c.rnd.sample(list(itertools.product(L, L, L)), 20))
    for lens in combos + [()] + [(x,) for x in (0, 1, 2, 9, 10, 11)]:
        sc.append(write_read("len-" + "-".join(map(str, lens)), [dict(name=f"c{i}", ty=c.rnd.choice(WTYPES), n=n, seed=sd(c)) for i, n in enumerate(lens)]))
    # columns that fill different numbers of baskets, and end exactly at a basket boundary
    for ty in ("i32", "f64", "u8", "[i16;17]", "[u64;10]"):
        w = width(ty)
        for n in (boundary_counts(w) if not c.quick else c.rnd.sample(boundary_counts(w), 3)):
            sc.append(write_read(f"basket-{ty}-{n}", [dict(name="x", ty=ty, n=n, seed=sd(c), blk=1000), dict(name="s", ty="String", n=n % 977, seed=sd(c), blk=100),
                                                      dict(name="y", ty="u64", n=n // 3, seed=sd(c), blk=1000)]))
    for ty in ("String", "Vec<f32>"):
        for n in (500, 1000, 1001, 3000):
            sc.append(write_read(f"var-{ty}-{n}", [dict(name="v", ty=ty, n=n, seed=sd(c), lens=[0, 40, 3], blk=100), dict(name="i", ty="i16", n=n + 1, seed=sd(c), blk=100)]))
        sc.append(write_read(f"varmany-{ty}", [dict(name="v", ty=ty, n=300, seed=sd(c), lens=[9000], blk=50), dict(name="i", ty="i16", n=3, seed=sd(c))]))
        sc.append(write_read(f"varbig-{ty}", [dict(name="v", ty=ty, n=9, seed=sd(c), lens=[20000, 9000, 40000]), dict(name="i", ty="i16", n=3, seed=sd(c))]))
    for k in range(40 if c.quick else 500):
        cols = [dict(name=f"c{i}", ty=c.rnd.choice(WTYPES), n=c.rnd.choice([0, 1, 2, 5, 33, 200, 900]), seed=sd(c), blk=100) for i in range(c.rnd.randint(1, 8))]
        sc.append(write_read(f"rand-{k}", cols, cbs=0))
    # the columns of one tree can not leak into the counts of the next
    for k in range(10 if c.quick else 100):
        s = S(f"two-{k}").create()
        for t in range(3):
            s.tree(f"t{t}", f"n{t}")
            for i in range(c.rnd.randint(0, 4)):
                s.branch(f"t{t}", f"c{i}", c.rnd.choice(WTYPES), c.rnd.choice([0, 1, 2, 7, 20]), seed=sd(c))
            s.write(f"t{t}")
        s.close().open().op("keys", f="r")
        for t in (2, 0, 1):
            s.get(f"n{t}", rt=f"x{t}")
        sc.append(s.d())
    sc += behaviours(c, 80 if c.quick else 1500)
    judge(c, sc, "counts")


# ----------------------------------------------------------------------------- P05
@check("P05")
def p05(c):
    c.build()
    design(c)
    sc = []

    made = {}

    def many(sid, names, order=None, big=None):
        s = S(sid).create()
        content = {}
        made.clear()
        for k, nm in enumerate(names):
            s.tree(f"t{k}", nm)
            cols = [(f"c{i}", c.rnd.choice(WTYPES), c.rnd.choice([0, 1, 2, 3, 8])) for i in range(c.rnd.randint(1, 3))]
            if big and k % big == 0:
                cols.append(("big", "f64", 9000))
            for n_, ty, n in cols:
                s.branch(f"t{k}", n_, ty, n, seed=sd(c), blk=500 if n > 100 else 1)
            content[nm] = cols
            made.setdefault(nm, []).append(cols)
            if order is None:
                s.write(f"t{k}")
        for k in order or []:
            s.write(f"t{k}")
            content.pop(names[k])
            content[names[k]] = None
        s.close().open().op("keys", f="r")
        for j, nm in enumerate(dict.fromkeys(names)):
            s.get(nm, rt=f"x{j}")
        s.get("no such tree", rt="x999")
        gens(s, names, content)
        return s, content

    def gens(s, names, content):
        """Ask for generations: some of those there are (their columns are read) and some there are not"""
        count = {nm: names.count(nm) for nm in names}
        some = list(count)
        if len(some) > 6:
            some = c.rnd.sample(some, 6)
        for j, nm in enumerate(some):
            for cyc in sorted({1, count[nm], c.rnd.randint(1, count[nm]), (count[nm] + 1) // 2}):
                if f"{nm};{cyc}" in count:
                    continue        # the name of a tree
                s.get(f"{nm};{cyc}", rt=f"y{j}_{cyc}")
                for i, (_, ty, n) in enumerate(made[nm][cyc - 1]):
                    s.read(i, ty, 500 if n > 100 else 1, rt=f"y{j}_{cyc}", it=f"yi{j}_{cyc}_{i}")
            for wrong in ("0", str(count[nm] + 1), "x", "", "-1"):
                if f"{nm};{wrong}" not in count:
                    s.get(f"{nm};{wrong}", rt=f"z{j}")
        s.get("no such tree;1", rt="z999").get(";1", rt="z998") if "" not in count else s

    def finish(s, names, cols_of):
        for j, nm in enumerate(dict.fromkeys(names)):
            for i, (_, ty, n) in enumerate(cols_of[nm]):
                s.read(i, ty, 500 if n > 100 else 1, rt=f"x{j}", it=f"i{j}_{i}")
        return s.d()

    for k, names in enumerate([["a"], ["a", "b"], ["a", "a"], ["a", "b", "a"], ["a", "a", "a", "b", "b"], ["a", "A", "aa", "a"],
                               ["x" * 255, "x" * 256, "x"], ["t", "t1", "t;"[:1], "t2", "t"], ["é", "e", "é"], [f"n{i % 3}" for i in range(12)],
                               [f"tree{i}" for i in range(40)], ["same"] * 20,
                               ["a;1", "a"], ["a", "a;1", "a"], ["a;b"], ["a;", "a"], [";", ";;"], ["a;1", "a;1"], ["a;2", "a", "a", "a;2"],
                               ["a;1;2", "a;1", "a;1"], ["a ", "a", "a ", " a", "a\t"], ["a\n", "a", "a\r\n"], ["\u00e9", "e\u0301", "\u00e9"],
                               [" ", "  ", " "], ["a.b", "a", "a.b", "b"], ["a\u00a0", "a", "\u200ba"], ["a;01", "a", "a"], ["a; 1", "a"],
                               ["a;+1", "a", "a"]]):
        s, cols = many(f"names-{k}", names, big=3 if k % 2 else None)
        sc.append(finish(s, names, cols))
    for k in range(20 if c.quick else 300):
        names = [c.rnd.choice(["a", "b", "c", "d"]) for _ in range(c.rnd.randint(2, 7))]
        s, cols = many(f"rand-{k}", names, big=c.rnd.choice([None, None, 2]))
        sc.append(finish(s, names, cols))
    for k in (150,) if c.quick else (150, 400):
        names = [f"tree{i % (k // 2)}" for i in range(k)]
        s, cols = many(f"many-{k}", names)
        sc.append(finish(s, names, cols))
    for k in (150, 300) if c.quick else (150, 300, 1100):
        # more generations of one name than a byte can count, the list of keys is long
        names = ["same"] * k + ["other"]
        s, cols = many(f"generations-{k}", names)
        sc.append(finish(s, names, cols))
    # trees prepared in one order, written in another, between two files
    for k in range(12 if c.quick else 150):
        s = S(f"cross-{k}").create("w1", "$D/a.root").create("w2", "$D/b.root")
        T = []
        for t in range(c.rnd.randint(2, 6)):
            nm = c.rnd.choice(["p", "q", "r"])
            s.tree(f"t{t}", nm)
            cols = [(f"c{i}", c.rnd.choice(WTYPES), c.rnd.choice([0, 1, 4, 9])) for i in range(c.rnd.randint(1, 3))]
            for n_, ty, n in cols:
                s.branch(f"t{t}", n_, ty, n, seed=sd(c))
            T.append((t, nm, cols))
        c.rnd.shuffle(T)
        where = {}
        for t, nm, cols in T:
            w = c.rnd.choice(["w1", "w2"])
            s.write(f"t{t}", w)
            where[(w, nm)] = cols
        s.close("w2").close("w1")
        for w, r, p in (("w1", "r1", "$D/a.root"), ("w2", "r2", "$D/b.root")):
            s.open(r, p).op("keys", f=r)
            for nm in ("p", "q", "r"):
                s.get(nm, r, f"{r}{nm}")
                for i, (_, ty, n) in enumerate(where.get((w, nm), [])):
                    s.read(i, ty, rt=f"{r}{nm}", it=f"{r}{nm}{i}")
        sc.append(s.d())
    sc += behaviours(c, 80 if c.quick else 1500, seeds=c.seed + 50)
    judge(c, sc)


# ----------------------------------------------------------------------------- P06
@check("P06")
def p06(c):
    c.build()
    design(c)
    sc = []

    def cols(k):
        return [(f"c{i}", c.rnd.choice(WTYPES), c.rnd.choice([0, 1, 3, 9])) for i in range(k)]

    def put(s, t, name, cs, f="w", bad=False):
        s.tree(t, name, tag=dict(bad=bad))
        for n_, ty, n in cs:
            s.branch(t, n_, ty, n, seed=sd(c), blk=500 if n > 100 else 1)
        s.write(t, f)

    def back(s, names, f="r", p="$D/a.root"):
        s.open(f, p).op("keys", f=f)
        for nm, cs in names:
            s.get(nm, f, f + nm)
            for i, (_, ty, n) in enumerate(cs):
                s.read(i, ty, 500 if n > 100 else 1, rt=f + nm, it=f"{f}{nm}{i}")

    bads = ["/", "a/b", "/x", "x/", "dir/sub/t"]
    for k in range(24 if c.quick else 300):
        # refused trees before, between and after good ones; the bad tree may already fill baskets
        s = S(f"slash-{k}").create()
        good = []
        for j in range(c.rnd.randint(1, 4)):
            if c.rnd.random() < .6:
                put(s, f"b{j}", c.rnd.choice(bads), cols(2) + ([("big", "f64", 9000)] if c.rnd.random() < .5 else []), bad=True)
            if c.rnd.random() < .8:
                cs = cols(c.rnd.randint(1, 3))
                nm = f"g{j}"
                put(s, f"t{j}", nm, cs)
                good.append((nm, cs))
        s.close()
        back(s, good)
        s.get("a/b", "r", "none").get("nothing", "r", "none2")
        sc.append(s.d())
    for k in range(12 if c.quick else 150):
        # operations on a file opened for reading, on missing files, on missing trees and columns, at wrong types
        s = S(f"misuse-{k}").create()
        cs = cols(2)
        put(s, "t", "t", cs)
        s.close().op("hash", path="$D/a.root")
        s.open().get("t", "r", "x")
        put(s, "t2", "other", cols(1), f="r")
        s.op("close", f="r").op("hash", path="$D/a.root")
        s.get("other", "r", "none").get("", "r", "none").get("T", "r", "none").get("t ", "r", "none")
        for q in ("t;2", "t;0", "t;x", "t;", ";1", "nothing;1", "t;1;1", "t;65536", "t;70000", "t; 1"):
            s.get(q, "r", "none")
        s.op("open", f="q", path="$D/missing.root").op("open", f="q", path="$D/no/such/dir/x.root")
        s.op("create", f="q2", path="$D/no/such/dir/y.root", tag=dict(cannot=True))
        for i, (n_, ty, n) in enumerate(cs):
            for _ in range(3):
                o = c.rnd.choice(WTYPES)
                s.op("iter", rt="x", bi=i, ty=o, it=f"w{i}") if o != ty else None
        s.op("iter", rt="x", b="nope", ty="i32", it="m").op("iter", rt="x", b="", ty="i32", it="m").op("iter", rt="x", b="C0", ty="i32", it="m")
        for i, (_, ty, n) in enumerate(cs):
            s.read(i, ty, rt="x", it=f"i{i}")
        # the file is still what it was, through the old handle and a new one
        s.get("t", "r", "x2")
        for i, (_, ty, n) in enumerate(cs):
            s.read(i, ty, rt="x2", it=f"j{i}")
        back(s, [("t", cs)], "r3")
        s.op("drop", f="r").op("drop", f="r3").op("hash", path="$D/a.root")
        sc.append(s.d())
    for k in range(6 if c.quick else 60):
        # reading from a file that is being written is refused, and does not disturb it
        s = S(f"writeonly-{k}").create()
        cs = cols(2)
        put(s, "t", "t", cs)
        s.get("t", "w", "x").get("zz", "w", "x")
        cs2 = cols(2)
        put(s, "t2", "u", cs2)
        s.get("t", "w", "x")
        s.close()
        back(s, [("t", cs), ("u", cs2)])
        sc.append(s.d())
    sc += behaviours(c, 80 if c.quick else 1500, seeds=c.seed + 60)
    judge(c, sc)
    import checks_read
    checks_read.others(c, 40 if c.quick else 400)
    # what refused trees leave in the file: none of their class descriptions
    import checks_file
    fs = []
    for k in range(60 if c.quick else 500):
        s = S(f"left-{k}").create()
        vs = c.rnd.sample(sorted(checks_file.VEC), 6)
        for j in range(c.rnd.randint(1, 4)):
            bad = c.rnd.random() < .6
            s.tree(f"t{j}", c.rnd.choice(bads) if bad else f"g{j}", tag=dict(bad=bad))
            # some of the classes of refused trees are those of good ones too
            for i in range(c.rnd.randint(1, 3)):
                s.branch(f"t{j}", f"c{i}", c.rnd.choice(vs[:3] + ["i32"] if bad else vs[2:] + ["String"]), c.rnd.choice([0, 1, 3, 1200]), seed=sd(c), quiet=True)
            s.write(f"t{j}")
        fs.append(s.close().d())
    checks_file.files(c, fs, "refusal", mutants=[
        ("description left", checks_file.mut("TList", lambda e: e["infos"].append(dict(name="vector<bool>", ver=4, parts=[], refs=[], bases=[]))))])


# ----------------------------------------------------------------------------- P07
@check("P07")
def p07(c):
    c.build()
    design(c)
    c.model("ColTypes", "ColTypes", note="laws of the type names: distinct types never share a column type")
    cases = {(x["w"], x["r"]) for x in c.enum("ColTypes", "ColTypesGen")}
    sc = []
    # every ordered pair (written type, read type) of the specification
    bypair = {}
    for w, r in sorted(cases):
        bypair.setdefault(w, []).append(r)
    for w, rs in bypair.items():
        s = S(f"pairs-{w}").create().tree()
        n = c.rnd.choice([1, 2, 5])
        s.branch("t", "x", w, n, seed=sd(c)).branch("t", "y", "i32", n).write().close().open().get()
        for j, r in enumerate(rs):
            s.op("iter", rt="rt", b="x", ty=r, it=f"i{j}")
            s.op("next", it=f"i{j}", n=10 ** 9)
        sc.append(s.d())
    # empty columns and long ones are checked the same way
    for k in range(30 if c.quick else 300):
        s = S(f"mix-{k}").create().tree()
        tys = [c.rnd.choice(sorted(bypair)) for _ in range(4)]
        for i, w in enumerate(tys):
            s.branch("t", f"c{i}", w, c.rnd.choice([0, 0, 1, 300]), seed=sd(c), lens=[0, 1, 3], blk=50)
        s.write().close().open().get()
        for i, w in enumerate(tys):
            for j in range(6):
                r = c.rnd.choice(bypair[tys[c.rnd.randrange(4)]])
                s.op("iter", rt="rt", b=f"c{i}", ty=r, it=f"i{i}_{j}")
                s.op("next", it=f"i{i}_{j}", n=10 ** 9, blk=50)
        sc.append(s.d())
    judge(c, sc)
    c.extra["type_pairs"] = len(cases)
    # files of other programs: columns of collections in every spelling, asked for every type
    import layout as L
    from checks_read import Maker, MUT
    c.model_fails("ColTypes", "ColTypes_one", "OneSpelling", "a reader that knows one spelling of strings inside collections")
    asked = {}
    for x in c.enum("ColTypes", "ColTypesGenR"):
        asked.setdefault(x["w"], []).append(x["r"])
    ks = [L.k_stl(t) for t in L.STL] + [L.k_slice(t) for t in L.SCALAR] + [L.k_array(t, n) for t in L.NUM for n in (1, 3, 10)] + [L.k_scalar(t) for t in L.SCALAR]
    ks += [L.k_grid("i16", 1, 3), L.k_grid("f64", 5, 2), L.k_rows("i32", 2), L.k_rows("f64", 2, 3)]
    m = Maker(c)
    for j in range(1 if c.quick else 6):
        for i, k in enumerate(ks):
            n = c.rnd.choice([1, 2, 3])
            sid = f"stl-{j}-{i:03}"
            br, col = L.column(k, "x", c.rnd, dict(cuts=[n], emb=-1), n)
            m.add(sid, dict(refs=c.rnd.random() < .5), [("t", n, [(br, col)], {})])
            m.asked[(sid, "t", "x")] = asked.pop(k.ty) if j == 0 and k.ty in asked else c.rnd.sample(sorted({r for rs in asked.values() for r in rs} | set(bypair)), 12)
    m.read(mutants=MUT)
    c.extra["stored_type_pairs"] = sum(len(v) for v in m.asked.values())


# ----------------------------------------------------------------------------- P08
@check("P08")
def p08(c):
    c.build()
    design(c)
    sc = []
    for k in range(60 if c.quick else 900):
        s = S(f"inter-{k}").create("w1", "$D/a.root").create("w2", "$D/b.root")
        cols = {}
        for w, nm in (("w1", "t"), ("w1", "u"), ("w2", "t")):
            s.tree(w + nm, nm)
            cs = []
            # every other time both files are laid out alike and differ in the values only
            twin = cols.get(("w1", "t")) if w == "w2" and k % 2 else None
            for i in range(len(twin) if twin else c.rnd.randint(1, 4)):
                if twin:
                    cs.append(twin[i])
                    s.branch(w + nm, twin[i][0], twin[i][1], twin[i][2], seed=sd(c), vals="any", **twin[i][3])
                    continue
                ty = c.rnd.choice(WTYPES)
                big = c.rnd.random() < .25
                n = c.rnd.choice([0, 1, 2, 5, 12]) if not big else {"[f64;10]": 900}.get(ty, 40)
                kw = dict(lens=[3000, 10]) if big and ty[0] in "SV" else {}
                cs.append((f"c{i}", ty, n, kw))
                s.branch(w + nm, f"c{i}", ty, n, seed=sd(c), vals="edge", **kw)
            s.write(w + nm, w)
            cols[(w, nm)] = cs
        s.close("w1").close("w2")
        # every third time by relative paths; the working directory and the paths then lead elsewhere
        moves = k % 3 == 0
        s.op("mkdir", path="$D/sub").op("chdir", path="$D/sub") if moves else None
        for f, p in (("r1", "a.root"), ("r2", "b.root"), ("r3", "a.root")):
            s.op("open", f=f, path=f"$D/{p}", **({"as": f"../{p}"} if moves else {}))
        there = ["a.root", "b.root"]
        trees = []
        for f, w, nm, rt in (("r1", "w1", "t", "x1"), ("r1", "w1", "u", "x2"), ("r2", "w2", "t", "x3"), ("r3", "w1", "t", "x4"), ("r1", "w1", "t", "x5")):
            s.get(nm, f, rt)
            trees.append((rt, cols[(w, nm)]))
        # random schedule of iterator steps; iterators are opened, advanced, dropped and opened again at any time;
        # the file handles may go away while iterators live
        live, nid, dropped = [], 0, set()
        for _ in range(60 if c.quick else 120):
            a = c.rnd.random()
            if moves and len(trees) == 5 and c.rnd.random() < .08:
                b = c.rnd.random()
                if b < .3 or not there:
                    s.op("chdir", path=c.rnd.choice(["$D", "$D/sub"]))
                elif b < .8:
                    p, q = c.rnd.choice(there), c.rnd.choice(["a.root", "b.root", "c.root", "sub/a.root"])
                    if p != q:
                        there = [x for x in there if x not in (p, q)] + [q]
                        s.op("rename", **{"from": f"$D/{p}", "to": f"$D/{q}"})
                else:
                    p = c.rnd.choice(there)
                    there.remove(p)
                    s.op("unlink", path=f"$D/{p}")
            a = c.rnd.random()
            if (a < .25 and len(live) < 8) or not live:
                rt, cs = c.rnd.choice(trees)
                i = c.rnd.randrange(len(cs))
                nid += 1
                s.op("iter", rt=rt, bi=i, ty=cs[i][1], it=f"i{nid}")
                live.append(f"i{nid}")
            elif a < .32:
                x = c.rnd.choice(live)
                live.remove(x)
                s.op("dropit", it=x)
            elif a < .35 and len(dropped) < 3:
                f = c.rnd.choice([x for x in ("r1", "r2", "r3") if x not in dropped])
                dropped.add(f)
                s.op("drop", f=f)
            else:
                s.op("next", it=c.rnd.choice(live), n=c.rnd.choice([1, 1, 1, 2, 3, 7, 100]))
        for x in live:
            s.op("next", it=x, n=3000)
        s.op("chdir", path="$D") if moves else None
        sc.append(s.d())
    # far more columns, trees and iterators than the process may have open files
    for k in range(3 if c.quick else 40):
        s = S(f"limit-{k}").op("limit", files=40).create("w", "$D/a.root").tree("t", "t")
        cols = [(f"c{i}", c.rnd.choice(WTYPES), c.rnd.choice([0, 1, 2, 5])) for i in range(c.rnd.choice([60, 90]))]
        for n_, ty, n in cols:
            s.branch("t", n_, ty, n, seed=sd(c))
        s.write("t", "w").close("w").open("r1", "$D/a.root").open("r2", "$D/a.root")
        live = []
        for j in range(4):
            s.get("t", ("r1", "r2")[j % 2], f"x{j}")
        for j in range(120):
            i = c.rnd.randrange(len(cols))
            s.op("iter", rt=f"x{c.rnd.randrange(4)}", bi=i, ty=cols[i][1], it=f"i{j}")
            live.append(f"i{j}")
            if c.rnd.random() < .3:
                s.op("next", it=c.rnd.choice(live), n=c.rnd.choice([1, 2]))
        c.rnd.shuffle(live)
        for x in live[:60]:
            s.op("next", it=x, n=10)
        sc.append(s.d())
    sc += behaviours(c, 60 if c.quick else 1200, seeds=c.seed + 80)
    judge(c, sc)


# ----------------------------------------------------------------------------- P11
@check("P11")
def p11(c):
    c.build()
    design(c)
    sc = []
    L = (0, 1, 2, 3)
    combos = [()] + [(a,) for a in L] + list(itertools.product(L, L)) + list(itertools.product((0, 1, 2), repeat=3))
    for lens in combos:
        for cbs in (0, 1, 2, 3):
            if c.quick and len(lens) == 3 and cbs in (0, 3) and c.rnd.random() < .7:
                continue
            s = S("order-" + "-".join(map(str, lens)) + f"-{cbs}").create().tree()
            for i, n in enumerate(lens):
                s.branch("t", f"c{i}", c.rnd.choice(WTYPES), n, seed=sd(c))
            for k in range(cbs):
                s.op("cb", t="t", id=k + 1)
            sc.append(s.write().close().d())
    # columns and callbacks registered in any order, same names, long entries that flush baskets in the middle of a round
    for k in range(40 if c.quick else 500):
        s = S(f"mixed-{k}").create().tree()
        nc = 0
        for j in range(c.rnd.randint(1, 9)):
            if c.rnd.random() < .35:
                nc += 1
                s.op("cb", t="t", id=nc)
            else:
                ty = c.rnd.choice(WTYPES + ["String", "Vec<f64>"])
                kw = dict(lens=[c.rnd.choice([0, 5, 20000, 40000])]) if ty in ("String", "Vec<f64>") else {}
                s.branch("t", c.rnd.choice(["same", f"c{j}", "é", " lead", "trail ", "\tt\n", "UP", "a.b", ""]), ty, c.rnd.choice([0, 1, 2, 4, 9]), seed=sd(c), **kw)
        sc.append(s.write().close().d())
    s = S("long").create().tree().branch("t", "a", "f64", 700, seed=1).branch("t", "b", "i32", 411, seed=2).op("cb", t="t", id=1)
    sc.append(s.write().close().d())
    # the protocol also holds for a tree that is refused in the end, and for two trees one after the other
    for k in range(8):
        s = S(f"refused-{k}").create().tree("t", "a/b", tag=dict(bad=True)).op("cb", t="t", id=1)
        s.branch("t", "x", "i32", k, seed=1).branch("t", "y", "String", 3, seed=2).write()
        s.tree("t2", "u").branch("t2", "x", "i32", 2, seed=1).op("cb", t="t2", id=1).op("cb", t="t2", id=2).write("t2").close()
        sc.append(s.d())
    sc += behaviours(c, 80 if c.quick else 1500, seeds=c.seed + 110)
    judge(c, sc, "protocol")
