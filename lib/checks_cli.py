"""P22: what the listing and the dumping tool print."""
import concurrent.futures as cf
import os
import re
import struct
import subprocess
from scen import *
import core
import forge
import layout as L
from checks_tree import TRUST
from checks_read import OPTIONS, FORGED, rcut, kinds

CHECKS, INFO = {}, {}
INFO["P22"] = dict(technique="TLA+ model OxyCli (printing loop of the tools against what has to be printed) checked by TLC; the real tools run on files whose content is known, their lines are validated against OxyCliTrace together with what the library says",
                   note="Every key with class, name, title and columns; every line of a dump by entry, column and value, for all types the tool prints; files of the library and files made without it, with objects that are not trees." + FORGED + TRUST)


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


# ------------------------------------------------------------------ the printed values
class Text:
    """a value printed by Rust's Debug, read by its type and given as the driver's token"""

    def __init__(self, s):
        self.s, self.i = s, 0

    def eat(self, x):
        if not self.s.startswith(x, self.i):
            raise ValueError(self.s[self.i:])
        self.i += len(x)

    def word(self):
        m = re.compile(r"[^,\]}: ]+").match(self.s, self.i)
        if not m:
            raise ValueError(self.s[self.i:])
        self.i = m.end()
        return m.group()

    def many(self, a, b, one):
        self.eat(a)
        out = []
        while not self.s.startswith(b, self.i):
            if out:
                self.eat(", ")
            out.append(one())
        self.eat(b)
        return out

    def value(self, ty):
        m = re.fullmatch(r"\[(\w+);(\d+)\]|(\w+)<(.*)>", ty)
        if not m:
            return self.scalar(ty)
        if m.group(1):
            v = self.many("[", "]", lambda: self.scalar(m.group(1)))
            return L.seq(v)
        k, arg = m.group(3), m.group(4)
        if k in ("Vec", "Slice"):
            return L.seq(self.many("[", "]", lambda: self.value(arg)))
        if k == "HashSet":
            return "{" + ",".join(sorted(self.many("{", "}", lambda: self.value(arg)), key=lambda s: s.encode())) + "}"
        a, b = arg.split(",", 1)

        def pair():
            x = self.value(a)
            self.eat(": ")
            return x + ":" + self.value(b)
        return "{" + ",".join(sorted(self.many("{", "}", pair), key=lambda s: s.encode())) + "}"

    def scalar(self, ty):
        if ty in ("String", "TString"):
            m = re.compile(r'"(?:[^"\\]|\\.)*"').match(self.s, self.i)
            if not m:
                raise ValueError(self.s[self.i:])
            self.i = m.end()
            return m.group()
        w = self.word()
        if ty == "bool":
            return dict(true="T", false="F")[w]
        if ty == "f32":
            v = float(w)
            return "f" + (struct.pack(">f", v).hex() if abs(v) < 3.4028236e38 or v in (float("inf"), -float("inf")) else "?" + w)
        if ty == "f64":
            return "d" + struct.pack(">d", float(w)).hex()
        return str(int(w))


def token(ty, s):
    if s == "None":
        return s
    try:
        t = Text(s)
        v = t.value(ty)
        return v if t.i == len(s) else "?" + s
    except (ValueError, KeyError):
        return "?" + s


def table(lines, i):
    """the table of a tree's columns, from line i"""
    cols = []
    if i + 1 < len(lines) and re.fullmatch(r"name +\| typename +\| interpretation *", lines[i]) and re.fullmatch(r"[-+]+", lines[i + 1]):
        i += 2
        while i < len(lines) and " | " in lines[i] and not re.match(r"\[\d+\]\[|> |>>> ", lines[i]):
            x = lines[i].split(" | ")
            cols.append(dict(name=x[0].rstrip(), ty=x[1].rstrip(), interp=" | ".join(x[2:]).rstrip()))
            i += 1
    return cols, i


def parse_ls(out):
    lines, keys, i = out.split("\n"), [], 1
    while i < len(lines):
        m = re.fullmatch(r"> (\S+) name='(.*)' \(title='(.*)'\)", lines[i])
        if not m:
            if lines[i]:
                keys.append(dict(cls="?", name=lines[i], title="", shown="", cols=[]))
            i += 1
            continue
        k = dict(cls=m.group(1), name=m.group(2), title=m.group(3), shown="", cols=[])
        i += 1
        m = re.fullmatch(r"> Data in (.*):", lines[i]) if i < len(lines) else None
        if m:
            k["shown"] = m.group(1)
            k["cols"], i = table(lines, i + 1)
        keys.append(k)
    return keys


def parse_dump(out, blk):
    """blk[tree]: values of a column are given by so many"""
    lines, trees, i = out.split("\n"), [], 1
    while i < len(lines):
        m = re.fullmatch(r'>>> tree: "(.*)"', lines[i])
        if not m:
            if lines[i]:
                trees.append(dict(name="?" + lines[i], cols=[], rows=[]))
            i += 1
            continue
        t = dict(name=m.group(1))
        t["cols"], i = table(lines, i + 1)
        ty = {x["name"]: x["interp"] for x in t["cols"]}
        rows = []
        while i < len(lines):
            m = re.fullmatch(r"\[(\d+)\]\[(.*?)\]: (.*)", lines[i])
            if not m:
                break
            rows.append((int(m.group(1)), m.group(2), token(ty.get(m.group(2), "?"), m.group(3))))
            i += 1
        b = blk.get(t["name"], 1)
        if b == 1:
            t["rows"] = [dict(i=a, name=n, tok=L.short(v)) for a, n, v in rows]
        else:
            names, shape, at = [], [], 0
            data = {}
            while at < len(rows):
                j = rows[at][0]
                end = at
                while end < len(rows) and rows[end][0] == j:
                    end += 1
                ns = [r[1] for r in rows[at:end]]
                if shape and shape[-1]["names"] == ns and sum(s["n"] for s in shape) == j:
                    shape[-1]["n"] += 1
                else:
                    shape.append(dict(names=ns, n=1))
                    if sum(s["n"] for s in shape) != j + 1:
                        shape.append(dict(names=["?"], n=j))
                at = end
            for _, n, v in rows:
                data.setdefault(n, []).append(v)
            for n, d in data.items():
                while d and d[-1] == "None":
                    d.pop()
            t["bycol"] = [dict(name=n, data=L.cells(d, b)) for n, d in data.items()]
            t["shape"] = shape
        trees.append(t)
    return trees


# ------------------------------------------------------------------ files
def nan(t):
    return any(int(x, 16) & 0x7fffffff > 0x7f800000 for x in re.findall(r"f([0-9a-f]{8})", t)) or \
        any(int(x, 16) & (1 << 63) - 1 > 0x7ff << 52 for x in re.findall(r"d([0-9a-f]{16})", t))


def plain(k):
    """without values that are not numbers: their bits are not printed"""
    def gen(*a):
        while True:
            x = k.gen(*a)
            if not nan(x[0]):
                return x
    return L.Kind(k.name, k.ty, gen, k.br, k.var, k.esize)


NAMES = ["x", "a_b", "jets.pt", "n", "with space", "Émile", "a-long-name-that-does-not-fit-its-place", "v2", "q", "None", "0", "c,d", "x/y", "name"]


def m_line(evs):
    for e in evs:
        if e["ev"] == "Dump":
            for t in e["trees"]:
                if len(t.get("rows", ())) > 1:
                    t["rows"].pop()
                    return evs


def m_cell(evs):
    for e in evs:
        if e["ev"] == "Dump":
            for t in e["trees"]:
                for r in t.get("rows", ()):
                    if r["tok"] != "None":
                        r["tok"] = "None"
                        return evs


def m_key(evs):
    for e in evs:
        if e["ev"] == "Ls" and e["keys"]:
            e["keys"].pop()
            return evs


def m_col(evs):
    for e in evs:
        if e["ev"] == "Ls":
            for k in e["keys"]:
                if k["cols"]:
                    k["cols"][0]["interp"] += "x"
                    return evs


def m_rc(evs):
    for e in evs:
        if e["ev"] == "Dump":
            e["rc"] = 101
            return evs


def m_long(evs):
    for e in evs:
        if e["ev"] == "Dump":
            for t in e["trees"]:
                if t.get("shape"):
                    t["shape"][0]["n"] += 1
                    return evs


def tool(name, path):
    env = {k: v for k, v in os.environ.items() if not k.startswith(("RUST_", "CLICOLOR"))}
    p = subprocess.run([os.path.join(core.VERIF, "target", "debug", name), "--file", path], capture_output=True, timeout=300, env=env, cwd="/")
    return p.returncode, p.stdout.decode(errors="replace")


@check("P22")
def p22(c):
    c.build(cli=True)
    c.model("OxyCli", "OxyCli", note="2 keys, 2 columns, 2 values", must=("Skip", "Show", "Line", "Row", "TreeDone"))
    c.model_fails("OxyCli", "OxyCli_shortest", "AllPrinted", "stopping with the shortest column")
    c.model_fails("OxyCli", "OxyCli_first", "AllPrinted", "as many entries as the first column has")
    keep = c.scratch()
    jobs = []       # (scenario, head events, path, blk per tree)
    rnd = c.rnd

    def finish(s, keys):
        for i, k in enumerate(dict.fromkeys(x["name"] for x in keys if "cls" not in x)):
            s.get(k, rt=f"x{i}").op("all_branches", rt=f"x{i}", types=True)

    # 1. trees of the library
    own = L.SCALAR + ["String"] + [f"Vec<{t}>" for t in L.NUM] + [f"[{t};{n}]" for t in L.NUM for n in (1, 3, 10)] + ["[bool;3]", "[i16;17]"]
    for q in range(24 if c.quick else 250):
        path = f"{keep}/own{q}.root"
        s = S(f"own{q}").create(path=path)
        keys, blk = [], {}
        for t in range(rnd.choice([0, 1, 1, 2, 3])):
            nm = rnd.choice(["t", "tree two", "T", "évts", "x;1"[:1]]) if rnd.random() < .4 else f"t{t}"
            big = q % 6 == 5
            n = rnd.choice([700, 2300]) if big else rnd.choice([0, 1, 2, 5, 12])
            blk[nm] = max(blk.get(nm, 1), 50 if big else 1)
            if any(k["name"] == nm for k in keys):
                n, blk[nm] = 3, blk[nm]
            s.tree(t=f"t{t}", name=nm)
            tys = own if q == 0 and t == 0 else [rnd.choice(own) for _ in range(rnd.choice([1, 2, 3, 6]) if not big else 2)]
            for i, ty in enumerate(tys):
                same = rnd.random() < .6
                s.branch(f"t{t}", (NAMES[(i + q) % len(NAMES)] if i < 5 else f"c{i}"), ty, n if same else rnd.randint(0, n) if rnd.random() < .8 else n + 2, seed=rnd.getrandbits(30), blk=blk[nm])
            s.write(t=f"t{t}")
            keys.append(dict(name=nm))
        s.close().open(path=path)
        finish(s, keys)
        jobs.append((s, [], path, blk))
    # 2. files made without the library
    ks = kinds(c) + [L.k_stl(t) for t in L.STL] + [L.k_slice(t) for t in L.NUM] + [L.k_array(t, n) for t in L.NUM for n in (1, 10)]
    ks = [plain(k) for k in ks]
    at = 0
    for q in range(30 if c.quick else 300):
        path = f"{keep}/made{q}.root"
        fg = forge.Forge(**OPTIONS[q % len(OPTIONS)])
        keys, blk = [], {}
        s = S(f"made{q}").open(path=path)
        for t in range(rnd.choice([0, 1, 2, 3, 4])):
            nm, title = rnd.choice(["k%d", "k%d", "k %d ", "é%d", " %d's", "k%d;1"]) % t, rnd.choice(["", "a title", "it's (title='x')", "é", " a title  ", "  ", "A TITLE;1", "x" * 300])
            if rnd.random() < .25:
                cls = rnd.choice(forge.OTHERS)
                forge.other(fg, cls, nm, title, rnd=rnd)
                keys.append(dict(name=nm, cycle=1, cls=cls, title=title))
                continue
            long = rnd.random() < .12
            n = rnd.choice([300, 1100]) if long else rnd.choice([0, 1, 3, 8])
            blk[nm] = 30 if long else 1
            brs, cols, flat = [], [], []
            if rnd.random() < .25 and not long:
                _, _, [(b, col)], _ = composite(rnd.choice([["f64", "i32"], ["String", "u8"], ["bool", "i16", "f32"]]), n, rnd, c)
                brs.append(b)
                cols.append(dict(name="c", ty="?", data=[]))
                flat += [dict(name="c", data=[])] + col
            for i in range(rnd.choice([1, 2, 3, 5])):
                k = ks[at % len(ks)]
                at += 1
                m = n if rnd.random() < .7 else rnd.randint(0, n)
                b, col = L.column(k, NAMES[(i + q) % len(NAMES)], rnd, rcut(c, m), m, blk=blk[nm])
                brs.append(b)
                cols.append(col)
                flat.append(col)
            for cyc in rnd.choice([(1,), (1,), (1, 2)]):
                fg.tree(dict(name=nm, title=title, entries=n, branches=brs if cyc == 1 else brs[:1], cycle=cyc))
                m = len(brs) if cyc == 1 else 1
                keys.append(dict(name=nm, title=title, cycle=cyc, entries=n, cols=cols[:m], flat=flat if cyc == 1 else flat[:1 + len(brs[0].get("sub", []))]))
        with open(path, "wb") as o:
            o.write(fg.finish())
        finish(s, keys)
        jobs.append((s, [dict(ev="File", path=path, keys=keys, unsound=[])], path, blk))
    # 3. every collection the dumping tool knows
    for q, part in enumerate(collections(rnd)):
        path = f"{keep}/all{q}.root"
        fg = forge.Forge(**OPTIONS[q % len(OPTIONS)])
        n, brs, cols = 4, [], []
        for i, t in enumerate(part):
            b, col = L.column(plain(L.k_stl(t)), f"c{i}", rnd, rcut(c, n), n)
            brs.append(b)
            cols.append(col)
        fg.tree(dict(name="k", title="", entries=n, branches=brs))
        with open(path, "wb") as o:
            o.write(fg.finish())
        keys = [dict(name="k", title="", cycle=1, entries=n, cols=cols)]
        s = S(f"all{q}").open(path=path)
        finish(s, keys)
        jobs.append((s, [dict(ev="File", path=path, keys=keys, unsound=[])], path, {}))
    scs = [j[0].d() for j in jobs]
    r = c.run(scs)

    def outputs(j):
        _, _, path, blk = j
        (a, ls), (b, du) = tool("oxyroot-ls", path), tool("oxyroot-dump", path)
        return [dict(ev="Ls", path=path, rc=a, keys=parse_ls(ls)), dict(ev="Dump", path=path, rc=b, trees=parse_dump(du, blk))]
    with cf.ThreadPoolExecutor(core.CORES) as ex:
        outs = list(ex.map(outputs, jobs))
    c.lap("tools run")
    traces = {}
    for (s, head, _, _), o in zip(jobs, outs):
        if s.id in r:
            evs = r[s.id]
            # the tools speak of the names the library gives, cut to the place they have
            evs = [dict(e, branches=[dict(b, ty=b["ty"][:30].rstrip()) for b in e["branches"]]) if e["ev"] == "AllBranches" and "branches" in e else e for e in evs]
            end = [e for e in evs if e["ev"] == "End"]
            traces[s.id] = evs[:1] + head + [e for e in evs[1:] if e["ev"] != "End"] + o + end
    c.extra["lines_of_dumps"] = sum(len(t.get("rows", ())) for o in outs for t in o[1]["trees"])
    c.extra["keys_listed"] = sum(len(o[0]["keys"]) for o in outs)
    c.validate("OxyCliTrace", traces, env=dict(FOCUS="common"), scens=scs,
               mutants=[("line", m_line), ("cell", m_cell), ("key", m_key), ("column", m_col), ("code", m_rc), ("long", m_long)])


def collections(rnd, per=24):
    num = [("num", t) for t in L.NUM + ["bool"]]
    text = [("str",), ("tstr",)]
    small = [t for t in num if t[1] not in ("i64", "u64")] + text                 # kept in vectors and maps
    key = [t for t in small if t[1:] not in (("f32",), ("f64",))]
    every = [("vec", t) for t in small] + [("vec", ("vec", t)) for t in small] + [("set", t) for t in key] + [("vec", ("set", t)) for t in key]
    for k in key:
        every += [("map", k, v) for t in small for v in (t, ("vec", t), ("vec", ("vec", t)))]
        every += [("map", k, v) for t in key for v in (("set", t), ("vec", ("set", t)))]
    rnd.shuffle(every)
    return [every[i:i + per] for i in range(0, len(every), per)]


def composite(tys, n, rnd, c):
    """a column of parts: it is listed, its parts are printed"""
    subs, cols = [], []
    for i, ty in enumerate(tys):
        b, col = L.column(plain(L.k_scalar(ty)), f"p{i}", rnd, rcut(c, n), n)
        subs.append(b)
        cols.append(col)
    b = dict(name="c", cls="TBranchElement", title="c", eclass="Thing", stype=-1, btype=0, leaves=[dict(cls="TLeafElement", name="c", title="c", etype=0)],
             parts=[], sub=subs, entries=n)
    return None, n, [(b, cols)], None
