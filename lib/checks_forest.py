"""P19: listing the columns of a tree and finding them by name."""
import forge
import layout as L
from scen import *
from checks_tree import TRUST, m_value
from checks_read import OPTIONS, rcut

CHECKS, INFO = {}, {}
INFO["P19"] = dict(technique="TLA+ model OxyForest (stack walk and search; TLC: pre-order is the only listing with the stated properties) whose forests TLC enumerates; each is forged as a tree and every listing and look-up of the real library is validated against OxyForestTrace",
                   note="Every forest of up to 4 (thorough: 5) columns with every assignment of three names, every look-up from every column; larger random forests; trees the library writes itself." + TRUST)
NAMES = ["a", "b", "a.b", "absent"]


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


class Forest:
    """columns in listing order: par (1-based numbers of the column above, 0: none), nm"""

    def __init__(self, c, par, nm, elements):
        self.par, self.nm, self.n = par, nm, len(par)
        self.kids = {k: [j + 1 for j in range(self.n) if par[j] == k] for k in range(self.n + 1)}
        self.c, self.elements = c, elements
        self.nodes = [None] * self.n
        self.tops = [self.node(k) for k in self.kids[0]]

    def node(self, k):
        c, name = self.c, self.nm[k - 1]
        cnt = 3 + k                       # tells the columns apart
        kind = L.k_member("i32") if k in self.elements else L.k_scalar("i32")
        if self.kids[k]:
            subs = [self.node(j) for j in self.kids[k]]
            b = kind.branch(name, [], sub=subs, entries=cnt)
            if k in self.elements:
                b.update(stype=-1, eclass="Thing")
            self.nodes[k - 1] = dict(name=name, up=self.par[k - 1], entries=cnt, data=[], ty="?")
            return b
        b, col = L.column(kind, name, c.rnd, rcut(c, cnt), cnt)
        self.nodes[k - 1] = dict(name=name, up=self.par[k - 1], entries=cnt, data=col["data"], ty="i32")
        return b

    def path(self, k):
        out = []
        while k:
            p = self.par[k - 1]
            out.insert(0, self.kids[p].index(k))
            k = p
        return out


def program(s, rt, f, c, asks):
    s.op("all_branches", rt=rt)
    seen = set()
    for x in asks:
        s.op("lookup", rt=rt, name=x)
        if f.nm.count(x) == 0:
            s.op("iter", rt=rt, b=x, ty="i32", it="no")
        first = [k for k in range(f.n) if f.nm[k] == x][:1]
        if first and f.nodes[first[0]]["ty"] != "?" and x not in seen:
            seen.add(x)
            s.op("iter", rt=rt, b=x, ty="i32", it="i").op("next", it="i", n=10 ** 9).op("dropit", it="i")
    for k in range(1, f.n + 1):
        for x in asks if f.n <= 5 else c.rnd.sample(asks, min(3, len(asks))):
            s.op("lookup", rt=rt, name=x, **{"from": f.path(k)})


def m_order(evs):
    """two neighbours of a listing in the wrong order"""
    for e in evs:
        if e["ev"] == "AllBranches" and len(e["branches"]) > 1:
            b = e["branches"]
            b[0], b[1] = b[1], b[0]
            return evs


def m_later(evs):
    """a later column of the same name is found"""
    for e in evs:
        if e["ev"] == "Lookup" and e.get("hit"):
            e["found"]["m"]["entries"] += 1
            return evs


def m_miss(evs):
    for e in evs:
        if e["ev"] == "Lookup" and e.get("hit"):
            e["hit"] = False
            del e["found"]
            return evs


def m_twice(evs):
    for e in evs:
        if e["ev"] == "AllBranches" and e["branches"]:
            e["branches"].append(e["branches"][-1])
            return evs


@check("P19")
def p19(c):
    c.build()
    c.model("OxyForest", "OxyForest", note="forests of up to 4 columns, every listing and look-up", must=("Add", "Visit", "Ask", "Look", "Miss"))
    c.model_fails("OxyForest", "OxyForest_breadth", "Together", "columns listed level by level")
    cases = c.enum("OxyForest", "OxyForestGen" if c.quick else "OxyForestGen_t")
    c.extra["forests"] = len(cases)
    cases = [(x["par"], x["nm"], NAMES) for x in cases]
    c.rnd.shuffle(cases)
    # larger ones: deep, wide, many equal names, names that look like paths or prefixes
    for q in range(40 if c.quick else 600):
        n = c.rnd.choice([6, 9, 15, 40])
        par, way = [], c.rnd.choice(["deep", "wide", "any"])
        for k in range(1, n + 1):
            up, j = [0], k - 1
            while j:
                up.append(j)
                j = par[j - 1]
            par.append(up[1] if way == "deep" and len(up) > 1 and c.rnd.random() < .9 and up[1] == k - 1 else up[0] if way == "wide" and c.rnd.random() < .7 else c.rnd.choice(up))
        pool = c.rnd.choice([["a", "b", "a.b", "a.", ".b", "a.b.c"], ["x"], [f"n{i}" for i in range(n)], ["ab", "abc", "a", "b", "bc", "A", "a ", "é"], ["a", "a_", "a.b", "a/b", "b"]])
        nm = [c.rnd.choice(pool) for _ in range(n)]
        cases.append((par, nm, sorted(set(pool[:12]) | {"", "absent"})))
    keep = c.scratch()
    scs, heads = [], {}
    per = 40
    for g in range(0, len(cases), per):
        sid = f"forest{g}"
        fg = forge.Forge(**OPTIONS[(g // per) % len(OPTIONS)])
        keys = []
        path = f"{keep}/{sid}.root"
        s = S(sid).open("r", path)
        for q, (par, nm, asks) in enumerate(cases[g:g + per]):
            el = {k for k in range(1, len(par) + 1) if c.rnd.random() < .4}
            f = Forest(c, par, nm, el)
            nm_ = f"t{q}"
            fg.tree(dict(name=nm_, entries=max([0] + [x["entries"] for x in f.nodes]), branches=f.tops))
            keys.append(dict(name=nm_, cycle=1, entries=max([0] + [x["entries"] for x in f.nodes]), forest=f.nodes,
                             cols=[dict(name=f.nodes[k - 1]["name"], ty="?", data=[]) for k in f.kids[0]]))
            s.get(nm_, rt=nm_, light=True)
            program(s, nm_, f, c, asks)
        with open(path, "wb") as o:
            o.write(fg.finish())
        scs.append(s.d())
        heads[sid] = [dict(ev="File", path=path, keys=keys, unsound=[])]
    # trees of the library's own making: flat, names may repeat
    for q in range(12 if c.quick else 100):
        n = c.rnd.choice([0, 1, 3, 12])
        nm = [c.rnd.choice(["a", "b", "a.b", "n"]) for _ in range(n)]
        sid = f"own{q}"
        s = S(sid).create().tree()
        f = Forest(c, [0] * n, nm, set())
        for k in range(n):
            s.branch("t", nm[k], "i32", n=4 + k, seed=k + q)
        s.write().close().open().get("t", light=True)
        program(s, "rt", f, c, NAMES)
        scs.append(s.d())
        heads[sid] = []
    r = c.run(scs)
    traces = {s["id"]: r[s["id"]][:1] + heads[s["id"]] + r[s["id"]][1:] for s in scs if s["id"] in r}
    c.validate("OxyForestTrace", traces, env=dict(FOCUS="common"), scens=scs,
               mutants=[("order", m_order), ("later", m_later), ("missed", m_miss), ("twice", m_twice), ("value", m_value)])
