"""P03 P04 P14 P26: the bytes of files the real library closed, against OxyFile."""
import concurrent.futures as cf
import os
from scen import *
from checks_tree import behaviours, boundary_counts, sd, TRUST
import filefacts

CHECKS, INFO = {}, {}
INFO["P03"] = dict(technique="TLA+ model OxyFile (exhaustive small instance) + validation of real files record by record",
                   note="Every file written by the real library is told record by record by an independent parser and must be a behaviour of the writer machine (tiling, pointers, key list, free list, end)." + TRUST)
INFO["P04"] = dict(technique="TLA+ model OxyFile (basket index obligations) + validation of real files",
                   note="Basket index, first entries, totals, entry offsets and cuts of every column of every file." + TRUST)
INFO["P14"] = dict(technique="TLA+ model OxyFile (closure of class descriptions) + validation of real files",
                   note="The list of class descriptions of every file: complete for tree, columns' collection classes and the parts of descriptions, unique, versions consistent." + TRUST)


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


def design(c):
    c.model("MCOxyFile", "MCOxyFile_q" if c.quick else "MCOxyFile", note="all small files: trees x baskets x refusals")


def wants(scen):
    """what a scenario's program puts into each of its files, in order of writing"""
    tr, out, mode = {}, {}, {}
    for o in scen["ops"]:
        k = o["op"]
        if k == "create":
            out[o["path"]] = dict(path=o["path"], trees=[], refused=[], extra=[], closed=False)
            mode[o["f"]] = o["path"]
        elif k == "open":
            mode[o["f"]] = None
        elif k == "tree":
            tr[o["t"]] = dict(name=o["name"], cols=[])
        elif k == "branch":
            tr[o["t"]]["cols"].append(dict(name=o["name"], ty=o["ty"], n=o["n"]))
        elif k == "write" and mode.get(o["f"]):
            w = out[mode[o["f"]]]
            t = tr[o["t"]]
            if "/" in t["name"]:
                w["refused"].append(t["name"])
                w["extra"] += [VEC[c["ty"]] for c in t["cols"] if c["ty"] in VEC]
            else:
                w["trees"].append(t)
        elif k == "close" and mode.get(o["f"]):
            out[mode[o["f"]]]["closed"] = True
    return [w for w in out.values() if w["closed"]]


CPP = dict(i8="char", u8="unsigned char", i16="short", u16="unsigned short", i32="int", u32="unsigned int", i64="long",
           u64="unsigned long", f32="float", f64="double")
VEC = {f"Vec<{t}>": f"vector<{n}>" for t, n in CPP.items()}


LIMIT = 2 * 10 ** 9          # where ROOT's format goes over to 64-bit positions
ENTRY = 10 ** 8              # bytes of the entries that make a file huge (all zero: holes on disk)


def huge(c, focus):
    """files in which each kind of record in turn lies across, right before or right behind the
    limit for 32-bit positions, and files beyond 2 and 4 GiB"""
    keep = c.scratch()

    def prog(sid, lens):
        p = os.path.join(keep, sid + ".root")
        s = S(sid).op("sys", prefix=keep, on=True, sparse=True).create(path=p)
        s.tree("t", "t").branch("t", "big", "String", len(lens), lens=lens, vals="nul", quiet=True)
        s.branch("t", "x", "i32", 5, seed=3, quiet=True).branch("t", "s", "String", 3, seed=4, quiet=True).write("t")
        s.tree("u", "u").branch("u", "y", "f64", 9, seed=3, quiet=True).branch("u", "v", "Vec<i16>", 7, seed=4, quiet=True).write("u")
        return s.close().d(), p
    def told(progs, shrink=()):
        ran = c.run([s for s, _ in progs], env=dict(OXH_QUIET="1"), parallel=4)
        out, parse = {}, {}
        for s, p in progs:
            bad = [e for e in ran.get(s["id"], []) if e["ev"] in ("Panic", "Aborted") or e.get("res") not in (None, "ok")]
            if bad or not os.path.exists(p):
                out[s["id"]] = [dict(ev="Bad", why=f"not written: {bad[:1]}")]
            else:
                parse[s["id"]] = (p, wants(s)[0], s["id"] in shrink)
        with cf.ProcessPoolExecutor(4) as ex:
            for sid, evs in zip(parse, ex.map(filefacts.tell, *zip(*parse.values()))) if parse else ():
                out[sid] = evs
        return {sid: [dict(ev="Scenario", id=sid)] + out[sid] for sid in out}
    # where the records of the same program lie when its strings are short
    n, probe = 20, 20000
    base = told([prog("0probe0000000000000", [probe] * n)])
    recs = [e for e in base["0probe0000000000000"] if e["ev"] == "Rec"]
    names = ["long", "empty", "x", "s", "tree-t", "y", "v", "tree-u", "keys", "infos", "free"]
    later = [n] + list(range(n + 1, len(recs)))           # recs[0] is the file's own record
    todo, shrink = [], set()
    if len(later) == len(names):           # (if not, the probe's trace is not one of the specification's)
        want = []
        for name, k in zip(names, later):
            r = recs[k]
            for what, d in (("from", 0), ("one-past", -1), ("across", r["nb"] // 2), ("up-to", r["nb"])):
                want.append((name, what, r["at"] + d))
        must = [w for w in want if w[1] == "across" and (not c.quick or w[0] in ("keys", "free", "infos"))]
        want = must + c.rnd.sample([w for w in want if w not in must], 3 if c.quick else 12)
        for i, (name, what, at) in enumerate(want):
            # the giant before which the position counts: at = probe position
            more = LIMIT - at                              # so many bytes longer, all in all
            m = n - 1 if name == "long" else n
            lens = [probe + more // m] * m + [probe] * (n - m)
            lens[0] += more % m
            todo.append(prog(f"{i:02d}-{name}-{what}".ljust(19, "_")[:19], lens))
    for sid, k in (("2GiB", 22),) if c.quick else (("2GiB", 22), ("4GiB", 44)):
        todo.append(prog(sid.ljust(19, "_"), [ENTRY] * k))
        shrink.add(sid.ljust(19, "_"))
    traces = dict(base)
    step = 8
    for i in range(0, len(todo), step):
        traces.update(told(todo[i:i + step], shrink))
        for _, p in todo[i:i + step]:
            if os.path.exists(p):
                os.unlink(p)
        c.lap(f"{i + len(todo[i:i + step])} huge files")
    c.validate("OxyFileTrace", traces, env=dict(FOCUS=focus), scens=[s for s, _ in todo], per=600)


def files(c, scens, focus, mutants=()):
    """runs the writing programs, keeping their files; each file becomes one trace"""
    keep = c.scratch()
    todo, meta = [], {}
    for s in scens:
        ws = wants(s)
        for i, w in enumerate(ws):
            p = os.path.join(keep, f"{s['id']}.{i}.root".replace("/", "_").replace("<", "_").replace(">", "_"))
            s["ops"].append(dict(op="copy", **{"from": w["path"], "to": p}))
            meta[f"{s['id']}#{i}"] = (p, w, s)
        todo.append(s)
    ran = c.run(todo, env=dict(OXH_QUIET="1"))
    traces = {}
    for tid, (p, w, s) in meta.items():
        evs = ran.get(s["id"], [])
        bad = [e for e in evs if e["ev"] in ("Panic", "Aborted") or e.get("res") == "panic"]
        d = dict(w)
        if not os.path.exists(p):
            traces[tid] = [dict(ev="Scenario", id=tid), dict(ev="Bad", why=f"no file: {bad[:1]}")]
            continue
        create = [e for e in evs if e["ev"] == "Create"]
        # the first record carries the path the program used (scratch directory included)
        import rootio
        real = open(p, "rb").read()
        try:
            k = rootio.Key(real, 100)
            if w["path"].startswith("$D") and k.name.endswith(w["path"][2:]):
                d["path"] = k.name
        except Exception:
            pass
        traces[tid] = [dict(ev="Scenario", id=tid)] + filefacts.tell(p, d)
        os.unlink(p)
    c.lap(f"parsed {len(traces)} files")
    byid = [dict(id=t, program=m[2]) for t, m in meta.items()]
    return c.validate("OxyFileTrace", traces, env=dict(FOCUS=focus), scens=byid, mutants=mutants, per=600)


def programs(c, rich=False):
    """writing programs: shapes of files, columns around basket boundaries, refused trees, many names"""
    sc = []

    def cols(k, tys=WTYPES, big=.2):
        out = []
        for i in range(k):
            ty = c.rnd.choice(tys)
            n = c.rnd.choice([0, 1, 2, 3, 10, 100])
            if c.rnd.random() < big:
                w = width(ty) if ty[0] not in "VS" else 0
                n = c.rnd.choice(boundary_counts(w)) if w > 3 else c.rnd.choice([500, 1100])
            kw = dict(lens=[c.rnd.choice([0, 1, 3, 80, 254, 255, 600]) for _ in range(3)]) if ty[0] in "VS" else {}
            if n > 300 and kw:
                kw["lens"] = [min(x, 60) for x in kw["lens"]]
            out.append(dict(name=f"c{i}" if c.rnd.random() < .9 else "c0", ty=ty, n=n, seed=sd(c), **kw))
        return out

    def put(s, t, name, cs, f="w"):
        s.tree(t, name, tag=dict(bad="/" in name))
        for x in cs:
            x = dict(x)
            s.branch(t, x.pop("name"), x.pop("ty"), x.pop("n"), quiet=True, **x)
        s.write(t, f)

    def one(sid, cs, name="t", path="$D/a.root"):
        s = S(sid).create(path=path)
        put(s, "t", name, cs)
        sc.append(s.close().d())

    sc.append(S("nothing").create().close().d())
    one("no-column", [])
    for ty in WTYPES + list(RAW):
        one(f"type-{ty}", [dict(name="x", ty=ty, n=3, seed=1), dict(name="z", ty=ty, n=0)])
        w = width(ty)
        if w and w > 1:
            for n in (c.rnd.sample(boundary_counts(w), 2) if c.quick else boundary_counts(w)):
                one(f"basket-{ty}-{n}", [dict(name="x", ty=ty, n=n, seed=1), dict(name="y", ty="i64", n=n // 2, seed=1)])
        elif not w:
            for k, lens in enumerate([[0], [255, 254, 256], [1, 0, 70], [9000, 3], [40000]] if c.quick else
                                     [[0], [1], [253], [254], [255], [256], [255, 0], [1, 0, 70], [9000, 3], [32767], [32768], [40000, 0]]):
                one(f"var-{ty}-{k}", [dict(name="x", ty=ty, n=20, seed=1, lens=lens), dict(name="y", ty="u8", n=5, seed=1)])
            for n in (999, 1000, 1001, 1500) if not c.quick else (1000, 1203):
                one(f"many-{ty}-{n}", [dict(name="x", ty=ty, n=n, seed=1, lens=[0, 1])])
            one(f"long-then-many-{ty}", [dict(name="x", ty=ty, n=1300, seed=1, lens=[1100] + [0] * 1200)])
    for k in (8, 9, 10, 11, 12, 25) if c.quick else list(range(1, 24)) + [50, 120]:
        one(f"baskets-{k}", [dict(name="x", ty="f64", n=4095 * k - c.rnd.choice([0, 1, 7]), seed=1), dict(name="y", ty="String", n=k, seed=2, lens=[20000])])
    for k, nm in enumerate(["x", "a b", "é漢", "n" * 100, "n" * 254, "n" * 255, "n" * 256, "n" * 400]):
        one(f"name-{k}", [dict(name=nm, ty="i32", n=3, seed=1), dict(name=nm + "s", ty="String", n=2, seed=1)], name=nm)
    for k, ln in enumerate([1, 3, 50, 150, 200]):
        one(f"path-{k}", cols(2), path="$D/" + "p" * ln)
    for k in range(30 if c.quick else 400):
        s = S(f"prog-{k}").create("w1", "$D/a.root").create("w2", "$D/b.root")
        for j in range(c.rnd.randint(0, 6)):
            put(s, f"t{j}", c.rnd.choice(["a", "b", "c", "x/y", "/", "a/a"]) if c.rnd.random() < .8 else f"n{j}", cols(c.rnd.randint(0, 5)),
                c.rnd.choice(["w1", "w1", "w2"]))
        sc.append(s.close("w1").close("w2").d())
    for k in (40,) if c.quick else (40, 150, 400):
        s = S(f"trees-{k}").create()
        for j in range(k):
            put(s, f"t{j}", f"n{j % (k // 2)}", cols(1, big=0))
        sc.append(s.close().d())
    one("columns-150", cols(150, big=0))
    one("columns-300", cols(300, tys=["i32", "u8", "String"], big=0))
    one("baskets-300", [dict(name="v", ty="String", n=300, seed=2, lens=[33000])])
    s = S("generations-300").create()
    for j in range(300):
        put(s, f"t{j}", "same", cols(1, big=0))
    sc.append(s.close().d())
    # programs generated from the specification of the interface
    for b in behaviours(c, 60 if c.quick else 800, seeds=c.seed + 30):
        ops = [o for o in b["ops"] if o["op"] in ("create", "tree", "branch", "cb", "write", "close", "drop", "open")]
        closed = False
        for o in ops:
            if o["op"] == "branch":
                o["quiet"] = True
        sc.append(dict(id=b["id"], ops=ops))
    return sc


def first(evs, cls):
    return next((e for e in evs if e["ev"] == "Rec" and e["cls"] == cls), None)


def mut(cls, f):
    def g(evs):
        for e in evs:
            if e["ev"] == "Rec" and e["cls"] == cls and f(e) is not False:
                return evs
    return g


def m_final(field):
    def g(evs):
        for e in evs:
            if e["ev"] == "Final":
                e[field] += 1
                return evs
    return g


def setk(e, k, v):
    e[k] = v


@check("P03")
def p03(c):
    c.build(); design(c)
    huge(c, "layout")
    files(c, programs(c), "layout", mutants=[
        ("gap", mut("TBasket", lambda e: setk(e, "at", e["at"] + 1))),
        ("seekkey", mut("TTree", lambda e: setk(e, "sk", e["sk"] + 1))),
        ("directory", mut("TBasket", lambda e: setk(e, "pd", 0))),
        ("keylist", mut("TDirectory", lambda e: e["keys"].pop() and None if e["keys"] else False)),
        ("end", m_final("end")), ("seekinfo", m_final("seekinfo")), ("nbytesfree", m_final("nbytesfree"))])


@check("P04")
def p04(c):
    c.build(); design(c)

    def at(k, j, d):
        def f(e):
            for col in e["cols"]:
                if col["nbk"] > j:
                    col[k][j] += d
                    return None
            return False
        return f
    huge(c, "index")
    files(c, programs(c), "index", mutants=[
        ("seek", mut("TTree", at("seek", 0, 1))), ("bytes", mut("TTree", at("bytes", 0, 1))), ("first", mut("TTree", at("first", 1, 1))),
        ("total", mut("TTree", lambda e: False if not e["cols"] else setk(e["cols"][0], "total", e["cols"][0]["total"] + 1))),
        ("offset", mut("TBasket", lambda e: False if not e.get("offs") or e["nev"] < 2 else e["offs"].__setitem__(1, 0))),
        ("last", mut("TBasket", lambda e: setk(e, "last", e["last"] - 1)))])


@check("P14")
def p14(c):
    c.build(); design(c)
    files(c, programs(c), "infos", mutants=[
        ("missing", mut("TList", lambda e: e["infos"].pop(1) and None if len(e["infos"]) > 1 else False)),
        ("twice", mut("TList", lambda e: e["infos"].append(e["infos"][0]) if e["infos"] else False)),
        ("version", mut("TList", lambda e: setk(e["infos"][0], "ver", 3) if e["infos"] else False))])


INFO["P26"] = dict(technique="TLA+ model OxyLeaf (description and a reader that knows nothing else) + validation of real files by OxyFile's trace specification",
                   note="Every column of every file: the recorded leaf class, value size, sign, dimensions, collection name, entry offsets and basket entry sizes are understood as the column's type, and the bytes in the baskets are the bytes that follow from them." + TRUST)


@check("P26")
def p26(c):
    c.build()
    c.model("MCOxyLeaf", "MCOxyLeaf", note="every writable type, described and understood again")
    c.model_fails("MCOxyLeaf", "MCOxyLeaf_no_sign", "Understood", "sign not recorded")
    c.model_fails("MCOxyLeaf", "MCOxyLeaf_no_dims", "Understood", "length of arrays not in the leaf's title")

    def col(f):
        def g(e):
            for x in e["cols"]:
                if f(x) is not False:
                    return None
            return False
        return mut("TTree", g)
    d = lambda k, v: col(lambda x: False if x["d"][k] == v else setk(x["d"], k, v))
    files(c, programs(c), "leaf", mutants=[
        ("sign", d("uns", True)), ("size", d("size", 7)), ("length", col(lambda x: False if x["d"]["offs"] else setk(x["d"], "len", 2))),
        ("dims", d("dims", [5])), ("offsets", col(lambda x: setk(x["d"], "offs", not x["d"]["offs"]))),
        ("characters", col(lambda x: False if x["d"]["lcls"] != "TLeafC" else setk(x["d"], "len", x["longest"]))),
        ("basket", mut("TBasket", lambda e: False if not e["nev"] or e["hasoff"] else setk(e, "nsz", e["nsz"] + 1))),
        ("collection", col(lambda x: False if not x["d"]["coll"] else setk(x["d"], "coll", "vector<bool>")))])
