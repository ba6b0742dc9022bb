"""P15: the bytes of a file are a function of its path and of the program that wrote it."""
from scen import *
from checks_tree import TRUST

CHECKS, INFO = {}, {}
INFO["P15"] = dict(technique="TLA+ model OxyTwin (writing programs and a reader in one process, in any interleaving, writes inside writes) whose schedules TLC enumerates; each is replayed on the real library and the digests of the files are validated against OxyTwinTrace",
                   note="Every interleaving of two programs with one tree each, random ones of three programs with two trees each and readers; repeated in other processes, over existing files, on threads and at other times of day." + TRUST)


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


# a tree: (name, [(column, type, n, extra)])
def programs(rnd, k):
    """k programs of two trees; they share types, names of trees and columns"""
    fixed = [
        [("t", [("a", "i32", 3, {}), ("s", "String", 3, {})]), ("t", [("a", "Vec<f64>", 2, {}), ("b", "bool", 2, {})])],
        [("t", [("a", "i32", 3, {}), ("s", "String", 3, {})]), ("u", [("a", "Vec<i32>", 4, {})])],
        [("x", [("a", "[f32;3]", 4, {})]), ("y", [("a", "Vec<f64>", 0, {}), ("s", "String", 5, {})])],
        [("t", [("big", "f64", 9000, dict(blk=500)), ("v", "Vec<u8>", 300, dict(blk=50, lens=[0, 40, 700]))]), ("t2", [("s", "String", 2, {})])],
        [("no/good", [("a", "i32", 2, {})]), ("t", [("a", "Vec<f64>", 2, {})])],
        [("t", [("a", "u64", 4, {}), ("b", "i8", 5, dict(boom=3))]), ("t", [("a", "String", 2, {})])],
        [("many", [(f"v{i}", t, 2, {}) for i, t in enumerate(["Vec<i32>", "Vec<f64>", "Vec<u8>", "Vec<i16>", "Vec<f32>", "Vec<u64>"])]),
         ("t", [(f"v{i}", t, 1, {}) for i, t in enumerate(["Vec<i8>", "Vec<u64>", "Vec<u16>", "Vec<i32>"])])],
        [("empty", []), ("t", [("a", "i16", 0, {})])],
    ]
    tys = SCALARS + ["String", "Vec<i32>", "Vec<f64>", "Vec<u8>", "Vec<i64>", "Vec<u32>", "[i16;17]", "[f64;3]"]
    while len(fixed) < k:
        fixed.append([(rnd.choice(["t", "u", "long name of a tree"]), [(f"c{i}", rnd.choice(tys), rnd.choice([0, 1, 2, 5]), dict(seed=rnd.randint(1, 3)))
                                                                    for i in range(rnd.choice([1, 2, 4]))]) for _ in range(2)])
    return fixed[:k]


def steps(p, i, path=None):
    """the operations of each step of program p, number i"""
    f, path = f"w{i}", path or f"p{i}.root"
    out = {("create", 0): [dict(op="create", f=f, path=path)],
           ("close", 0): [dict(op="close", f=f), dict(op="drop", f=f), dict(op="hash", path=path)]}
    for t, (name, cols) in enumerate(p, 1):
        h = f"w{i}t{t}"
        b = [dict(op="tree", t=h, name=name, **(dict(tag=dict(bad=True)) if "/" in name else {}))]
        for c, ty, n, kw in cols:
            b.append(dict(op="branch", t=h, name=c, ty=ty, n=n, **dict(dict(seed=7 * t + 1), **kw)))
        out["build", t] = b
        out["write", t] = [dict(op="write", t=h, f=f)]
    return out


def alone(p, i, path=None):
    s = steps(p, i, path)
    return s["create", 0] + s["build", 1] + s["build", 2] + s["write", 1] + s["write", 2] + s["close", 0]


def old(k):
    """a file that is there to be read"""
    s = S("x").create("o", f"old{k}.root").tree("o", "t").branch("o", "a", ["i32", "String", "Vec<f64>"][k % 3], 4).write("o", "o").close("o")
    return s.ops


def read(k, q):
    ty = ["i32", "String", "Vec<f64>"][k % 3]
    return S("x").open(f"r{q}", f"old{k}.root").get("t", f"r{q}", f"rt{q}").read(0, ty, rt=f"rt{q}", it=f"it{q}").op("drop", f=f"r{q}").ops


def replay(sched, ps, rnd, nt):
    """operations of a schedule: what happens inside a write is run by a callback of its tree"""
    sts = {w: steps(ps[i], i) for w, i in enumerate(ps, 1)}
    # programs with fewer trees: the last ones are left out
    at = [0]
    ids = iter(range(100000))

    def block(end):
        ops = []
        while at[0] < len(sched):
            x = sched[at[0]]
            at[0] += 1
            if x["op"] == "read":
                ops += read(x["t"], next(ids))
            elif x["op"] == "begin":
                inner = block((x["w"], x["t"]))
                k = list(ps)[x["w"] - 1]
                cols = ps[k][x["t"] - 1][1]
                n = min([c[3]["boom"] for c in cols if "boom" in c[3]] or [max([c[2] for c in cols] or [0])])
                if inner:
                    ops.append(dict(op="cb", t=f"w{k}t{x['t']}", id=1, quiet=True, at=rnd.randint(0, n) if n < 100 else rnd.choice([0, 1, n // 2, n]), ops=inner))
                ops += sts[x["w"]]["write", x["t"]]
            elif x["op"] == "end":
                assert (x["w"], x["t"]) == end
                return ops
            else:
                ops += sts[x["w"]][x["op"], x["t"]]
        return ops
    return block(None)


def m_hash(evs):
    """the second digest of the same program is another"""
    hs = [e for e in evs if e["ev"] == "Hash"]
    for e in hs[1:]:
        if any(x["tok"] == e["tok"] for x in hs if x is not e):
            e["tok"] = "0" * 16
            return evs


def m_len(evs):
    hs = [e for e in evs if e["ev"] == "Hash"]
    for e in hs[:1]:
        if any(x["tok"] == e["tok"] for x in hs if x is not e):
            e["len"] += 1
            return evs


@check("P15")
def p15(c):
    c.build()
    c.model("OxyTwin", "OxyTwin", note="3 programs of 2 trees, 2 readers", must=("Step", "Read"))
    for v, what in (("counter", "numbers counted for the whole process"), ("registry", "descriptions kept for the whole process"), ("buffer", "one buffer for all trees")):
        c.model_fails("OxyTwin", f"OxyTwin_{v}", "SameAsAlone", what)
    rnd = c.rnd
    scheds = c.enum("OxyTwin", "OxyTwinGen" if c.quick else "OxyTwinGen_t")
    more = c.gen("OxyTwin", "OxyTwinGenR", 60 if c.quick else 2500, 60)
    c.extra["schedules"] = len(scheds) + len(more)
    ps = programs(rnd, 11 if c.quick else 25)
    cut = [[t for t in p[:1]] for p in ps]      # programs of one tree
    K, M = len(ps), 1000
    prog = {i: p for i, p in enumerate(ps)}
    for i, p in enumerate(cut):
        prog[M + i] = p
    ref = [dict(id=f"alone{i}", ops=alone(p, i) if len(p) == 2 else one(p, i)) for i, p in prog.items()]
    refs = c.run(ref, parallel=min(24, len(ref)))
    scs, uses = [], {}

    def add(sid, ops, used):
        scs.append(dict(id=sid, ops=[x for k in range(3) for x in old(k)] + ops))
        uses[sid] = used
    for q, sch in enumerate(scheds):
        a, b = [(q % K), (q // 3 + 1 + q % K) % K]
        if a == b:
            b = (b + 1) % K
        # the enumerated schedules have programs of one tree
        add(f"pair{q}", replay(sch, {M + a: prog[M + a], M + b: prog[M + b]}, rnd, 1), [M + a, M + b])
    for q, sch in enumerate(more):
        u = rnd.sample(range(K), 3)
        add(f"mix{q}", replay(sch, {i: prog[i] for i in u}, rnd, 2), u)
    for q in range(16 if c.quick else 200):
        i, j = rnd.sample(range(K), 2)
        # over what is there, at another time of day, after another program on the same path
        ops = alone(ps[i], i) + [dict(op="clock", shift=rnd.choice([1, 3600, 86400 * 400, -86400]))] + alone(ps[i], i) + alone(ps[j], j, f"p{i}.root") + \
            read(q % 3, 7) + alone(ps[i], i) + [dict(op="clock", shift=0)]
        add(f"again{q}", ops, [i])
    for q in range(16 if c.quick else 150):
        u = rnd.sample(range(K), 4)
        add(f"threads{q}", [dict(op="parallel", progs=[alone(ps[i], i) for i in u] + [read(q % 3, 900) * 3])], u)
    r = c.run(scs)
    traces = {s["id"]: [e for i in uses[s["id"]] for e in refs[f"alone{i}"]] + r[s["id"]] for s in scs if s["id"] in r}
    c.extra["digests_compared"] = sum(e["ev"] == "Hash" for t in traces.values() for e in t)
    c.validate("OxyTwinTrace", traces, env=dict(FOCUS="common"), scens=scs, mutants=[("digest", m_hash), ("length", m_len)])


def one(p, i):
    s = steps(p, i)
    return s["create", 0] + s["build", 1] + s["write", 1] + s["close", 0]
