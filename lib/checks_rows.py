"""P12 P13: rows of structs, read and written through the derive macros."""
import json
import os
import sys
from scen import *
import forge
import layout as L
from checks_tree import TRUST

CHECKS, INFO = {}, {}
SHAPES = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "shapes.json")))
INFO["P12"] = dict(technique="TLA+ model OxyRows (callbacks and channels of nested structs), whose struct shapes TLC enumerates; one derived Rust struct per shape is run and its recorded rows are validated against OxyRowsTrace",
                   note="Every nesting of up to 4 fields, 3 levels; field types in turn; reading also from trees with columns missing, of another type or of unequal length, and of vectors of structs." + TRUST)
INFO["P13"] = dict(technique="TLA+ model OxyNames (the naming rule), whose annotated structs TLC enumerates; one derived Rust struct per shape reads trees holding every candidate name, and trees lacking one, validated against OxyRowsTrace",
                   note="Every combination of replacement, global and local prefix and absolute name on one and two levels, some on three, alone and beside other fields." + TRUST)


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


def columns(S, parent=""):
    """only to choose what to try; what is right is decided by the specification"""
    out = []
    for f in S["fields"]:
        n = (f["pre"] + f["abs"]) if f["abs"] else (parent + "." if parent else "") + (f["pre"] or S["pre"]) + (f["ren"] or f["id"])
        out += columns(f["sub"][0], n) if f["sub"] else [(n, f["ty"])]
    return out


def nesting(S):
    return [nesting(f["sub"][0]) if f["sub"] else [] for f in S["fields"]]


def m_row(evs):
    """two rows in the wrong order"""
    for e in evs:
        if e["ev"] == "RowsRead" and len(e.get("rows", ())) > 1 and e["rows"][0] != e["rows"][1]:
            e["rows"][:2] = e["rows"][1::-1]
            return evs


def m_field(evs):
    """two fields exchanged"""
    for e in evs:
        if e["ev"] == "RowsRead" and e.get("rows") and len(e["rows"][0]) > 1 and e["rows"][0][0] != e["rows"][0][1]:
            e["rows"][0][:2] = e["rows"][0][1::-1]
            return evs


def m_lessrows(evs):
    for e in evs:
        if e["ev"] == "RowsRead" and e.get("rows"):
            e["rows"].pop()
            return evs


def m_accept(evs):
    """a struct whose column is missing is read"""
    for e in evs:
        if e["ev"] == "RowsRead" and e["res"] == "err":
            e.update(res="ok", rows=[])
            return evs


def m_refuse(evs):
    for e in evs:
        if e["ev"] == "RowsRead" and e["res"] == "ok":
            e["res"] = "err"
            return evs


MUT = [("rows swapped", m_row), ("fields swapped", m_field), ("row lost", m_lessrows), ("accepted", m_accept), ("refused", m_refuse)]


def rows_write(s, shape, n, t="t", **kw):
    return s.op("rows_write", t=t, shape=shape, n=n, cols=len(columns(SHAPES[shape]["d"])), tag=dict(d=SHAPES[shape]["d"]), **kw)


def rows_read(s, shape, rt="rt", **kw):
    return s.op("rows_read", rt=rt, shape=shape, tag=dict(d=SHAPES[shape]["d"], **kw), **kw)


TYPES = sorted({t for x in SHAPES.values() if x["w"] for _, t in columns(x["d"])})


# ----------------------------------------------------------------------------- P12
@check("P12")
def p12(c):
    c.build(rows=True)
    c.model("OxyRows", "OxyRows", note="every nesting of 4 fields and 3 levels, up to 2 rows")
    c.model_fails("OxyRows", "OxyRows_inner", "RowsExact", "parts told before what encloses them")
    cases = c.enum("OxyRows", "OxyRowsGen")
    have = {json.dumps(nesting(SHAPES[n]["d"])) for n in SHAPES if n.startswith("W")}
    if have != {json.dumps(x["shape"]) for x in cases}:
        raise AssertionError("shapes.json does not hold the shapes of the model")
    wn = [n for n in SHAPES if SHAPES[n]["w"]]
    scs = []
    # 1. rows written and read again, also column by column
    for i, n in enumerate(wn):
        for q in range(1 if c.quick else 4):
            rows = [2, 3, 0, 1, 5, 2, 17][(i + q) % 7] if q < 4 else 40 if q == 4 else 1100
            if n.startswith("X"):
                rows = [3, 25, 0, 1100, 1, 2][q]
            s = S(f"{n}-{q}").create().tree()
            rows_write(s, n, rows, seed=c.rnd.getrandbits(40), vals=c.rnd.choice(["edge", "any"]), **(dict(lens=[0, 1, 300, 20000]) if n == "X1" else {}))
            s.write().close().open().op("keys", f="r").get()
            rows_read(s, n)
            for nm, ty in columns(SHAPES[n]["d"]):
                s.op("iter", rt="rt", b=nm, ty=ty, it="i" + nm).op("next", it="i" + nm, n=10 ** 6)
            if rows > 1:
                rows_read(s, n, max=c.rnd.randint(0, rows))
                rows_read(s, n)
            scs.append(s.d())
    # 2. columns made one by one: of unequal length, one missing, one of another type
    for i, n in enumerate(wn):
        cols = columns(SHAPES[n]["d"])
        for q in range(1 if c.quick else 3):
            s = S(f"{n}-c{q}").create()
            s.tree("t", "unequal").tree("u", "lacking").tree("v", "other")
            miss, other = c.rnd.randrange(len(cols)), c.rnd.randrange(len(cols))
            order = list(range(len(cols)))
            c.rnd.shuffle(order)
            for j in order:
                nm, ty = cols[j]
                s.branch("t", nm, ty, c.rnd.choice([0, 1, 2, 3, 7, 12]) if q % 2 or i % 3 == 0 else c.rnd.choice([3, 4, 5]), seed=c.rnd.getrandbits(40))
                if j != miss:
                    s.branch("u", nm, ty, 2, seed=c.rnd.getrandbits(40))
                s.branch("v", nm, c.rnd.choice([t for t in TYPES if t != ty]) if j == other else ty, 2, seed=c.rnd.getrandbits(40))
            # the missing one under names like it
            nm, ty = cols[miss]
            have, bits = {x for x, _ in cols}, nm.split(".")
            like = {bits[-1], bits[0], "_".join(bits), "".join(bits), nm.upper(), nm + "_", nm + "[2]", "z." + nm, "." + nm, nm + ".", nm[:-1], "/".join(bits)}
            like |= {b + "." + bits[-1] for b in bits[:-1]} | {".".join(bits[k:]) for k in range(1, len(bits))} | {".".join(bits[::-1])}
            s.tree("w", "decoys")
            for x in sorted(x for x in like | have if x and x != nm):
                s.branch("w", x, dict(cols).get(x, ty), 2, seed=c.rnd.getrandbits(40))
            for t in "tuvw":
                s.write(t)
            s.close().open().op("keys", f="r")
            for nm in ("unequal", "lacking", "other", "decoys"):
                s.get(nm, rt=nm)
                rows_read(s, n, rt=nm)
            scs.append(s.d())
    # 3. several structs and plain columns in one tree; several trees; other views of the same columns
    for q in range(40 if c.quick else 250):
        s = S(f"mix{q}").create()
        ns = [c.rnd.choice(wn) for _ in range(c.rnd.choice([2, 3]))]
        for k in range(2):
            s.tree(f"t{k}", f"t{k}")
            for n in ns if k == 0 else ns[::-1]:
                rows_write(s, n, c.rnd.choice([0, 1, 2, 6]), t=f"t{k}", seed=c.rnd.getrandbits(40))
                if c.rnd.random() < .5:
                    s.branch(f"t{k}", c.rnd.choice(["zz", "a", "b.a"]), c.rnd.choice(TYPES), c.rnd.choice([1, 2, 4]), seed=c.rnd.getrandbits(40))
        s.write("t0").write("t1").close().open().op("keys", f="r")
        for k in range(2):
            s.get(f"t{k}", rt=f"r{k}")
            for n in ns + c.rnd.sample(list(SHAPES), 4):
                rows_read(s, n, rt=f"r{k}")
        scs.append(s.d())
    r = c.run(scs)
    c.validate("OxyRowsTrace", r, env=dict(FOCUS="rows"), scens=scs, mutants=MUT)
    # 4. vectors of structs, from files made by another program
    vectors(c)


def vectors(c):
    d = c.scratch()
    scs, heads = [], {}
    for n in [x for x in SHAPES if x.startswith("S")]:
        for q in range(6 if c.quick else 20):
            cnt = c.rnd.choice([0, 1, 2, 5, 30, 200]) if q else 5
            cols, done = [], {}
            lens = {}
            for nm, ty in columns(SHAPES[n]["d"]):
                if nm in done:
                    continue
                done[nm] = 1
                part = nm.rsplit(".", 1)[0]
                if ty.startswith("Slice"):
                    k = L.k_slice(ty[6:-1])
                    # the members of one vector have one length; an absolute name lies outside and still belongs to it
                    key = "all" if n == "S4" else part
                    ls = lens.setdefault(key, [c.rnd.choice([0, 1, 2, 3, 9]) if q % 3 else 1 for _ in range(cnt)])
                    items = [k.gen(c.rnd, x) for x in ls]
                else:
                    k = L.k_scalar(ty)
                    items = [k.gen(c.rnd) for _ in range(cnt)]
                marks = sorted(c.rnd.randint(0, cnt) for _ in range(c.rnd.choice([0, 1, 2])))
                cuts = [b - a for a, b in zip([0] + marks, marks + [cnt])]
                emb = cuts.pop() if c.rnd.random() < .4 else -1
                cols.append(L.column(k, nm, c.rnd, dict(cuts=cuts, emb=emb), cnt, items=items))
            c.rnd.shuffle(cols)
            f = forge.Forge()
            trees = [("t", cols), ("less", [x for x in cols if x is not cols[c.rnd.randrange(len(cols))]])]
            keys = []
            for nm, cs in trees:
                f.tree(dict(name=nm, entries=cnt, branches=[b for b, _ in cs]))
                keys.append(dict(name=nm, cycle=1, entries=cnt, cols=[x for _, x in cs]))
            p = f"{d}/{n}-{q}.root"
            with open(p, "wb") as o:
                o.write(f.finish())
            s = S(f"{n}-{q}").open("r", p).op("keys", f="r")
            for nm, _ in trees:
                s.get(nm, rt=nm)
                rows_read(s, n, rt=nm)
                for m in c.rnd.sample([x for x in SHAPES if x[0] in "SN"], 5):
                    rows_read(s, m, rt=nm)
            scs.append(s.d())
            heads[s.id] = [dict(ev="File", path=p, keys=keys)]
    r = c.run(scs)
    tr = {s["id"]: r[s["id"]][:1] + heads[s["id"]] + r[s["id"]][1:] for s in scs if s["id"] in r}
    c.validate("OxyRowsTrace", tr, env=dict(FOCUS="rows"), scens=scs, mutants=MUT)


# ----------------------------------------------------------------------------- P13
@check("P13")
def p13(c):
    c.build(rows=True)
    cases = c.enum("OxyNames", "OxyNames")
    mine = {n: x["d"] for n, x in SHAPES.items() if n[0] in "NV"}
    if {json.dumps(d, sort_keys=True) for d in mine.values()} != {json.dumps(x["shape"], sort_keys=True) for x in cases}:
        raise AssertionError("shapes.json does not hold the shapes of the model")
    lists = {n: d for n, d in mine.items() if n[0] == "V"}
    mine = {n: d for n, d in mine.items() if n[0] == "N"}
    need = {n: [nm for nm, _ in columns(d)] for n, d in mine.items()}
    names = sorted({x for v in need.values() for x in v})
    # what other rules would give
    wrong = {a + b + x for a in ("", "s.", "r.", "x.", "g_s.", "l_s.", "l_x.", "g_r.", "s.t.", "g_", "l_") for b in ("", "g_", "l_", "g_l_", "l_g_") for x in ("a", "r", "x", "z")}
    every = names + sorted(wrong - set(names))
    c.extra["structs"], c.extra["needed_names"], c.extra["candidate_names"] = len(mine), len(names), len(every)
    scs = []
    for lack in [None] + names:
        for kind in ["lacking"] if c.quick or lack is None else ["lacking", "other", "rows"]:
            s = S(f"{kind}-{lack}").create().tree()
            order = every[:]
            c.rnd.shuffle(order)
            for nm in order:
                if nm != lack or kind != "lacking":
                    s.branch("t", nm, "f64" if nm == lack and kind == "other" else "i32", 1 if nm == lack else 2, seed=c.rnd.getrandbits(40))
            s.write().close().open().op("keys", f="r").get()
            use = list(mine) if lack is None or not c.quick else [n for n in mine if lack in need[n]]
            if lack is not None:
                use = use[:40] + c.rnd.sample(list(mine), 12) if c.quick else use
            for n in use:
                rows_read(s, n)
            scs.append(s.d())
    # written: the fields' own names
    wn = [n for n in SHAPES if SHAPES[n]["w"]]
    for n in wn if not c.quick else sorted(set(c.rnd.sample(wn, 60) + ["X2", "X3", "X4"])):
        s = S(f"w-{n}").create().tree()
        rows_write(s, n, 2, seed=c.rnd.getrandbits(40))
        s.write().close().open().op("keys", f="r").get()
        for nm, ty in columns(SHAPES[n]["d"]):
            s.op("iter", rt="rt", b=nm, ty=ty, it="i" + nm).op("next", it="i" + nm, n=10 ** 6)
        scs.append(s.d())
    r = c.run(scs)
    c.validate("OxyRowsTrace", r, env=dict(FOCUS="rows"), scens=scs, mutants=MUT)
    name_lists(c, lists)
    # the builder of names itself, driven directly
    builder(c)


def name_lists(c, mine):
    """structs with a list of parts, read from trees that hold a column of lists under every candidate name, or lack one"""
    need = {n: [nm for nm, _ in columns(d)] for n, d in mine.items()}
    names = sorted({x for v in need.values() for x in v})
    wrong = {a + b + x for a in ("", "v.", "r.", "x.", "g_v.", "l_v.", "l_x.", "g_r.") for b in ("", "g_", "l_", "g_l_", "l_g_") for x in ("a", "r", "x", "z")}
    every = names + sorted(wrong - set(names))
    d = c.scratch()
    scs, heads = [], {}
    k, o = L.k_slice("i32"), L.k_scalar("i32")
    for q, lack in enumerate([None] + names):
        lens = [2, 1, 3]
        def col(nm, k, n):
            items = [k.gen(c.rnd, x) if k is not o else k.gen(c.rnd) for x in lens[:n]]
            return L.column(k, nm, c.rnd, dict(cuts=[n], emb=-1), n, items=items)
        cols = []
        for nm in every:
            if nm != lack:
                cols.append(col(nm, k, 3))
            elif q % 3 == 1:        # there, but of another type
                cols.append(col(nm, o, 3))
        c.rnd.shuffle(cols)
        f = forge.Forge()
        f.tree(dict(name="t", entries=3, branches=[b for b, _ in cols]))
        p = f"{d}/lists{q}.root"
        with open(p, "wb") as out:
            out.write(f.finish())
        s = S(f"lists{q}").open("r", p).op("keys", f="r").get("t", rt="t")
        use = list(mine) if lack is None else [n for n in mine if lack in need[n]]
        if c.quick and lack is not None:
            use = c.rnd.sample(use, min(30, len(use))) + c.rnd.sample(list(mine), 8)
        for n in use:
            rows_read(s, n, rt="t")
        scs.append(s.d())
        heads[s.id] = [dict(ev="File", path=p, keys=[dict(name="t", cycle=1, entries=3, cols=[x for _, x in cols])])]
    c.extra["list_structs"], c.extra["list_names"] = len(mine), len(names)
    r = c.run(scs)
    tr = {s["id"]: r[s["id"]][:1] + heads[s["id"]] + r[s["id"]][1:] for s in scs if s["id"] in r}
    c.validate("OxyRowsTrace", tr, env=dict(FOCUS="rows"), scens=scs, mutants=MUT)


def builder(c):
    """every sequence of calls of the name builder"""
    scs = []
    seqs = [x["steps"] for x in c.enum("OxyBuilder", "OxyBuilder" if c.quick else "OxyBuilder_t")]
    for g in range(0, len(seqs), 400):
        s = S(f"names{g}")
        for x in seqs[g:g + 400]:
            s.op("bname", steps=x)
        scs.append(s.d())
    r = c.run(scs)
    c.validate("OxyNameTrace", r, scens=scs, mutants=[("name", m_name)])


def m_name(evs):
    for e in evs:
        if e["ev"] == "BName" and "." in e["out"]:
            e["out"] = e["out"].replace(".", "", 1)
            return evs
