"""P16 P17 P20 P25: files other programs make (any cut into baskets, compression, collections), read by the library."""
import concurrent.futures as cf
import itertools
import os
import struct
import zlib
from scen import *
import forge
import layout as L
from checks_tree import TRUST, m_value, m_lost

CHECKS, INFO = {}, {}
FORGED = " The files are made by an independent writer in the check (lib/forge.py, lib/layout.py), whose output was compared with files ROOT wrote."
INFO["P25"] = dict(technique="TLA+ model OxyLayout (filling, putting and reading baskets) whose layouts TLC enumerates; each is forged as a file and the recorded reading is validated against OxyReadTrace",
                   note="Every layout of the model is read for every kind of column, with 32- and 64-bit pointers, gaps, old branch versions and both ways of keeping the last basket." + FORGED + TRUST)
INFO["P20"] = dict(technique="TLA+ models OxyBasket (entry lengths and offsets) and OxyLayout with two parts, enumerated by TLC, forged as files and validated against OxyReadTrace",
                   note="Every sequence of entry lengths of the model in every cut, and every pair of cuts of a composite column." + FORGED + TRUST)
INFO["P16"] = dict(technique="TLA+ model OxyPack (blocks of a compressed record, one of them damaged) enumerated by TLC, forged and validated against OxyReadTrace",
                   note="zlib, xz and lz4 blocks in all mixtures, for baskets and tree records; every damage of the model at every block." + FORGED + TRUST)
INFO["P17"] = dict(technique="TLA+ model OxyStl (grammar of stored collections and its reader): TLC proves reading undoes storing on every type and value of its bounds and prints the bytes, which the real library must read as those values",
                   note="The enumerated bytes are put into real files unchanged; larger random values use an encoder that must agree with every enumerated case." + FORGED + TRUST)


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


# ------------------------------------------------------------------ making files and reading them
class Maker:
    """files with their content, and the program that reads everything"""

    def __init__(self, c):
        self.c = c
        self.keep = c.scratch()
        self.jobs = []
        self.asked = {}     # (file, tree, column) -> other types it is asked for

    def add(self, sid, opts, trees, blk=1, order=None, cuts=None):
        """trees: list of (name, n, [(branch, column)], {tree options}); one file"""
        self.jobs.append((sid, opts, trees, blk))

    def build(self, j):
        sid, opts, trees, blk = j
        f = forge.Forge(**opts)
        keys = []
        for nm, n, cols, kw in trees:
            kw = dict(kw)
            f.tree_compress = kw.pop("compress", None)
            f.tree(dict(name=nm, entries=n, branches=[b for b, _ in cols], **kw))
            keys.append(dict(name=nm, cycle=kw.get("cycle", 1), entries=n, cols=[x for _, x in cols], cpp=[b.get("eclass", "") for b, _ in cols]))
        with open(f"{self.keep}/{sid}.root", "wb") as o:
            o.write(f.finish())
        return keys

    def read(self, unsound=None, mutants=(), passes=1):
        scs, heads = [], {}
        for j in self.jobs:
            sid, opts, trees, blk = j
            keys = self.build(j)
            p = f"{self.keep}/{sid}.root"
            s = S(sid).open("r", p).op("keys", f="r")
            for i, k in enumerate(keys):
                s.get(k["name"], rt=f"x{i}")
                if (unsound or {}).get((sid, k["name"])):
                    continue
                for b, col in enumerate(k["cols"]):
                    if col["ty"] == "?":
                        continue
                    for q in range(passes):
                        s.op("iter", rt=f"x{i}", bi=b, ty=col["ty"], it=f"x{i}b{b}q{q}")
                        s.op("next", it=f"x{i}b{b}q{q}", n=10 ** 12, blk=blk)
                    for q, ty in enumerate(self.asked.get((sid, k["name"], col["name"]), [])):
                        s.op("iter", rt=f"x{i}", bi=b, ty=ty, it=f"x{i}b{b}a{q}")
                        s.op("next", it=f"x{i}b{b}a{q}", n=10 ** 12, blk=blk)
            scs.append(s.d())
            heads[sid] = [dict(ev="File", path=p, keys=keys, unsound=[n for (f, n), v in (unsound or {}).items() if f == sid and v])]
        self.c.lap(f"forged {len(scs)} files")
        r = self.c.run(scs)
        traces = {s["id"]: r[s["id"]][:1] + heads[s["id"]] + r[s["id"]][1:] for s in scs if s["id"] in r}
        self.c.extra["files_read"] = len(traces)
        return self.c.validate("OxyReadTrace", traces, env=dict(FOCUS="common"), scens=scs, mutants=mutants)


def others(c, k):
    """files with objects that are not trees among their trees: asked for as trees they are refused, the trees are read"""
    keep = c.scratch()
    scs, heads = [], {}
    for j in range(k):
        sid = f"others-{j}"
        f = forge.Forge(**OPTIONS[j % len(OPTIONS)])
        keys, s = [], S(sid).open("r", f"{keep}/{sid}.root").op("keys", f="r")
        for i in range(c.rnd.randint(2, 6)):
            if c.rnd.random() < .6:
                cls = c.rnd.choice(forge.OTHERS)
                forge.other(f, cls, f"k{i}", rnd=c.rnd)
                keys.append(dict(name=f"k{i}", cycle=1, cls=cls))
            else:
                n = c.rnd.choice([0, 2, 5])
                br, col = L.column(c.rnd.choice([L.k_scalar("i32"), L.k_scalar("String"), L.k_slice("f64")]), "x", c.rnd, rcut(c, n), n)
                f.tree(dict(name=f"k{i}", entries=n, branches=[br]))
                keys.append(dict(name=f"k{i}", cycle=1, entries=n, cols=[col]))
        order = list(range(len(keys)))
        c.rnd.shuffle(order)
        for i in order:
            s.get(keys[i]["name"], "r", f"x{i}")
            if "cols" in keys[i]:
                s.read(0, keys[i]["cols"][0]["ty"], rt=f"x{i}", it=f"i{i}")
        s.get("none", "r", "none")
        with open(f"{keep}/{sid}.root", "wb") as o:
            o.write(f.finish())
        scs.append(s.d())
        heads[sid] = [dict(ev="File", path=f"{keep}/{sid}.root", keys=keys, unsound=[])]
    r = c.run(scs)
    traces = {s["id"]: r[s["id"]][:1] + heads[s["id"]] + r[s["id"]][1:] for s in scs if s["id"] in r}
    c.validate("OxyReadTrace", traces, env=dict(FOCUS="common"), scens=scs, mutants=[("granted", m_granted)])


def m_granted(evs):
    """an object that is not a tree given out as one"""
    for e in evs:
        if e["ev"] == "Get" and e["res"] == "err" and e["name"] != "none":
            e.update(res="ok", entries=0, branches=[])
            return evs


def m_swap(evs):
    """two neighbouring values in the wrong order"""
    for i, e in enumerate(evs):
        if e["ev"] == "Next" and evs[i - 1]["ev"] == "Next" and e["tok"] != evs[i - 1]["tok"]:
            evs[i - 1], evs[i] = evs[i], evs[i - 1]
            return evs


def m_unknown(evs):
    """a value the file does not hold"""
    for i, e in enumerate(evs):
        if e["ev"] == "NextEnd":
            evs.insert(i, dict(ev="Next", it=e["it"], n=1, tok="!DAMAGED"))
            return evs


def m_short(evs):
    """the reading of a damaged column ends as if it were over"""
    for i, e in enumerate(evs):
        if e["ev"] == "NextPanic":
            evs[i] = dict(ev="NextEnd", it=e["it"])
            return evs


MUT = [("value", m_value), ("lost", m_lost), ("swapped", m_swap), ("unknown", m_unknown)]

OPTIONS = [dict(big=b, gap=g, refs=r, bversion=v, **o) for b in (False, True) for g in (0, 40) for r in (True, False)
           for v, o in ((13, {}), (12, dict(tversion=19, eversion=9)), (11, dict(tversion=18, eversion=10)), (10, dict(tversion=18)), (9, dict(tversion=17, eversion=8, far=True)), (8, dict(tversion=16)), (7, dict(tversion=5, far=True)), (6, dict(tversion=5, eversion=8)))]


def kinds(c):
    return [L.k_scalar(t) for t in L.SCALAR + ["String"]] + [L.k_array(t, 3) for t in ("i32", "f64", "u8", "bool")] + \
        [L.k_array("i16", 17), L.k_array("f32", 1), L.k_grid("i16", 2, 5), L.k_grid("f64", 1, 1), L.k_grid("u8", 2, 1, 5), L.k_rows("i32", 2), L.k_rows("f64", 2, 3)] + [L.k_slice(t) for t in ("i32", "u8", "f64", "i16", "bool")] + \
        [L.k_member(t) for t in ("i32", "f64", "u8", "i16", "bool")] + [L.k_pointer(t) for t in ("i32", "f64", "u8", "bool")] + \
        [L.k_member(t, lt) for t, lt in L.LTYPE2.items()] + [L.k_pointer("i64", lt=16), L.k_marray("i32", 3), L.k_marray("i64", 2, 5, lt=16), L.k_marray("bool", 3)] + \
        [L.k_stl(t) for t in (("vec", L.num("i32")), ("vec", L.STR), ("set", L.num("i16")), L.STR, ("map", L.num("i32"), ("vec", L.num("i16"))),
                              ("vec", ("vec", L.num("f64"))))]


# ----------------------------------------------------------------------------- P25
@check("P25")
def p25(c):
    c.build()
    c.model("OxyLayout", "OxyLayout", note="1 part, 4 entries, 3 baskets", must=("Add", "Put1", "Go", "Read", "Store1"))
    lays = c.enum("OxyLayout", "OxyLayoutGen1" if c.quick else "OxyLayoutGen1t")
    c.extra["layouts"] = len(lays)
    ks = kinds(c)
    if not c.quick:
        ks += [L.k_slice(t) for t in L.NUM] + [L.k_stl(t) for t in L.STL] + [L.k_member(t) for t in L.NUM] + [L.k_pointer(t) for t in L.NUM] + [L.k_array(t, 10) for t in L.NUM]
    m = Maker(c)
    for li, lay in enumerate(lays):
        opts = [OPTIONS[(li + 7 * k) % len(OPTIONS)] for k in range(1 if c.quick else 2)]
        for oi, o in enumerate(opts):
            part = lay["parts"][0]
            cols = [L.column(k, f"c{i}", c.rnd, part, lay["n"], embed_style="padded" if (li + i + oi) % 2 else True) for i, k in enumerate(ks)]
            m.add(f"l{li}-{oi}", o, [("t", lay["n"], cols, {})])
    # the same entries under two cuts give one sequence; many baskets, many entries
    for q in range(12 if c.quick else 150):
        n = c.rnd.choice([40, 150, 700, 1200]) if q % 4 else c.rnd.choice([11, 12, 25])
        o = c.rnd.choice(OPTIONS)
        trees = []
        ks2 = c.rnd.sample(ks, 6)
        items = [[k.gen(c.rnd) for _ in range(n)] for k in ks2]
        for v in range(3):
            cols = []
            for i, k in enumerate(ks2):
                marks = sorted(c.rnd.randint(0, n) for _ in range(c.rnd.choice([0, 1, 3, 9, 10, 11, 30]) if v else 0))
                cuts = [b - a for a, b in zip([0] + marks, marks + [n])]
                emb = cuts.pop() if c.rnd.random() < .4 else -1
                cols.append(L.column(k, f"c{i}", c.rnd, dict(cuts=cuts, emb=emb), n, blk=20, items=items[i], embed_style=c.rnd.choice([True, "padded"])))
            trees.append((f"t{v}", n, cols, {}))
        m.add(f"many{q}", o, trees, blk=20)
    # more baskets than 16 bits can count
    for q, (k, n) in enumerate([(L.k_scalar("i32"), 66000)] if c.quick else [(L.k_scalar("i32"), 66000), (L.k_stl(("vec", ("num", "u8"))), 66000), (L.k_scalar("i16"), 140000)]):
        cuts = [1] * n
        for _ in range(40):
            cuts[c.rnd.randrange(n)] = c.rnd.choice([0, 2])
        m.add(f"countless{q}", OPTIONS[q + 1], [("t", sum(cuts), [L.column(k, "c0", c.rnd, dict(cuts=cuts, emb=-1), sum(cuts), blk=5000)], {})], blk=5000)
    m.read(mutants=MUT)


# ----------------------------------------------------------------------------- P20
@check("P20")
def p20(c):
    c.build()
    c.model("OxyBasket", "OxyBasket", note="4 entries of up to 2 elements, 3 baskets", must=("Give", "PutB", "Keep", "ReadB"))
    c.model_fails("OxyBasket", "OxyBasket_count", "RowsExact", "cutting by counting")
    c.model("OxyLayout", "OxyLayout2", note="2 parts, 3 entries, 2 baskets each")
    rows = c.enum("OxyBasket", "OxyBasketGen" if c.quick else "OxyBasketGen_t")
    pairs = c.enum("OxyLayout", "OxyLayoutGen2")
    c.extra["row_layouts"], c.extra["composite_layouts"] = len(rows), len(pairs)
    m = Maker(c)
    sl = [L.k_slice(t) for t in L.SCALAR] + [L.k_pointer(t) for t in L.NUM] + [L.k_rows("i16", 2), L.k_rows("f32", 3), L.k_rows("u8", 2, 2), L.k_rows("f64", 1)]
    # 1. entry lengths
    per = 12
    for g in range(0, len(rows), per):
        trees = []
        for q, row in enumerate(rows[g:g + per]):
            cuts, emb = list(row["cuts"]), -1
            if row["emb"]:
                emb = cuts.pop()
            cols = []
            for i, k in enumerate(c.rnd.sample(sl, 3 if c.quick else 6)):
                items = [k.gen(c.rnd, n) for n in row["lens"]]
                cols.append(L.column(k, f"c{i}", c.rnd, dict(cuts=cuts, emb=emb), len(items), items=items, embed_style=c.rnd.choice([True, "padded"])))
            trees.append((f"t{q}", len(row["lens"]), cols, {}))
        m.add(f"rows{g}", OPTIONS[(g // per) % len(OPTIONS)], trees)
    # with the column of lengths next to it, longer
    for q in range(20 if c.quick else 200):
        n = c.rnd.choice([1, 5, 60, 300, 1100])
        lens = [c.rnd.choice([0, 1, 2, 3, 7, 40]) if q % 3 else c.rnd.choice([0, 1]) if q % 2 else 1 for _ in range(n)]
        k = c.rnd.choice(sl)
        items = [k.gen(c.rnd, x) for x in lens]
        cnt = L.k_scalar("i32")
        cols = [L.column(cnt, "n", c.rnd, rcut(c, n), n, blk=25, items=[(str(x), struct.pack(">i", x)) for x in lens]),
                L.column(k, "v", c.rnd, rcut(c, n), n, blk=25, items=items)]
        cols[1][0]["leaves"][0]["count"] = cols[0][0]["leaves"][0]
        m.add(f"long{q}", c.rnd.choice(OPTIONS), [("t", n, cols, {})], blk=25)
    # entries of more elements than 16 bits can count
    for q, k in enumerate(c.rnd.sample(sl, 3) if c.quick else sl):
        lens = [0, 65536, 1, 70001, 255, 65535, 2]
        items = [k.gen(c.rnd, x) for x in lens]
        m.add(f"vast{q}", c.rnd.choice(OPTIONS), [("t", len(lens), [L.column(k, "v", c.rnd, rcut(c, len(lens)), len(lens), items=items)], {})])
    # 2. composite columns: parts cut on their own
    sets = [[L.k_scalar("f64"), L.k_scalar("i32")], [L.k_scalar("u8"), L.k_array("i16", 3)], [L.k_scalar("String"), L.k_scalar("i16")], [L.k_member("i32"), L.k_member("f64")],
            [L.k_scalar("bool"), L.k_scalar("String")]]
    per = 40
    for g in range(0, len(pairs), per):
        trees = []
        for q, lay in enumerate(pairs[g:g + per]):
            trees.append(composite(c, f"t{q}", sets[(g + q) % len(sets)], lay["n"], lay["parts"]))
        m.add(f"pair{g}", OPTIONS[(g // per) % len(OPTIONS)], trees)
    for q in range(15 if c.quick else 150):
        n = c.rnd.choice([3, 20, 150, 600])
        ks = [c.rnd.choice([L.k_scalar(t) for t in L.SCALAR + ["String"]] + [L.k_array("i32", 10), L.k_member("i16")]) for _ in range(c.rnd.choice([1, 2, 3, 6]))]
        m.add(f"wide{q}", c.rnd.choice(OPTIONS), [composite(c, "t", ks, n, [rcut(c, n) for _ in ks], 20)], blk=20)
    # long parts
    for q in range(4 if c.quick else 40):
        n = c.rnd.choice([3, 20])
        ks = [L.k_text(0, 254, 255, 256, 5000, 70000), L.k_scalar("i32"), L.k_array("f64", 10), L.k_text(3, 100000)][:c.rnd.choice([2, 3, 4])]
        c.rnd.shuffle(ks)
        m.add(f"far{q}", c.rnd.choice(OPTIONS), [composite(c, "t", ks, n, [rcut(c, n) for _ in ks])])
    # a part with parts of its own
    for q in range(12 if c.quick else 120):
        n = c.rnd.choice([0, 1, 5, 40, 300])
        ks = [c.rnd.choice([L.k_scalar(t) for t in L.SCALAR + ["String"]] + [L.k_array("i32", 10), L.k_member("i16")]) for _ in range(c.rnd.choice([2, 3, 5]))]
        m.add(f"inner{q}", c.rnd.choice(OPTIONS), [composite(c, "t", ks, n, [rcut(c, n) for _ in ks], 20, inner=sorted(c.rnd.sample(range(len(ks) + 1), 2)))], blk=20)
    # parts that end before the others, or hold nothing at all: only complete rows
    for q in range(15 if c.quick else 150):
        ks = [c.rnd.choice([L.k_scalar(t) for t in L.SCALAR + ["String"]] + [L.k_array("i32", 10)]) for _ in range(c.rnd.choice([2, 3, 4]))]
        ns = [c.rnd.choice([0, 1, 4, 9, 30]) for _ in ks]
        if q % 3 == 0:
            ns[q % len(ns)] = 0
        m.add(f"uneven{q}", c.rnd.choice(OPTIONS), [composite(c, "t", ks, min(ns), [rcut(c, n) for n in ns], 20, ns)], blk=20)
    m.read(mutants=MUT)


def rcut(c, n):
    marks = sorted(c.rnd.randint(0, n) for _ in range(c.rnd.choice([0, 1, 2, 5, 12])))
    cuts = [b - a for a, b in zip([0] + marks, marks + [n])]
    return dict(cuts=cuts, emb=cuts.pop() if c.rnd.random() < .35 else -1)


def composite(c, name, ks, n, lays, blk=1, ns=None, inner=None):
    """a column of parts, and the parts listed as well; with ns, parts of these numbers of entries;
    the parts of the given range are those of a part that is composite itself"""
    subs, toks = [], []
    for i, (k, lay) in enumerate(zip(ks, lays)):
        items = [k.gen(c.rnd) for _ in range(ns[i] if ns else n)]
        toks.append([x[0] for x in items])
        subs.append(L.column(k, f"p{i}", c.rnd, lay, len(items), items=items)[0])
    def part(k):
        if k.ty.startswith("["):
            e, m = k.ty[1:-1].split(";")
            return f"{e}*{m}"
        return k.ty
    ty = "struct:" + ",".join(part(k) for k in ks)
    rows = ["(" + ";".join(t) + ")" for t in zip(*toks)] if len(ks) > 1 else toks[0]
    def parent(name, subs):
        return dict(name=name, cls="TBranchElement", title=name, eclass="Thing", stype=-1, btype=0, leaves=[dict(cls="TLeafElement", name=name, title=name, etype=0)],
                    parts=[], sub=subs, entries=n)
    if inner:
        lo, hi = inner
        for lvl in range(c.rnd.choice([1, 1, 2, 3])):
            subs[lo:hi] = [parent(f"q{lvl}", subs[lo:hi])]
            hi = lo + 1
    b = parent("c", subs)
    return name, n, [(b, dict(name="c", ty=ty, data=L.cells(rows, blk)))], {}


# ----------------------------------------------------------------------------- P16
def same(z, d):
    """the bit changes nothing, also for a reader whose window starts as zeros (references before the start)"""
    try:
        return zlib.decompressobj(-15, zdict=bytes(32768)).decompress(bytes(z[2:])) == d
    except zlib.error:
        return False


def damaged(algo, how, d):
    """a block of the given kind with the given damage, holding d"""
    b = bytearray(forge.block(algo, d))
    z = len(b) - 9
    if how == "tag":
        b[0:2] = b"ZS" if algo == "ZL" else b"CS" if algo == "XZ" else b"Q4"
    elif how == "flip":                    # one bit of the packed data
        for j in range(z * 8):
            k, bit = 9 + (z * 2 // 3 + j) % z, 1 << (2 + j // z) % 8
            b[k] ^= bit
            if algo != "ZL" or not same(b[9:], d):
                break
            b[k] ^= bit                    # a bit that is not used
    elif how == "short":                   # gives fewer bytes than it says
        b = bytearray(forge.block(algo, d[:-1]))
        b[6:9] = len(d).to_bytes(3, "little")
    elif how == "more":                    # gives more bytes than it says
        b = bytearray(forge.block(algo, d + b"\x07"))
        b[6:9] = len(d).to_bytes(3, "little")
    elif how == "cut":                     # part of the packed data is missing
        b = b[:-(z // 3 + 1)]
        b[3:6] = (len(b) - 9).to_bytes(3, "little")
    elif how == "size":                    # says it takes more than there is
        b[3:6] = (z + 200000).to_bytes(3, "little")
    return bytes(b)


def pack(blocks, d, level=6):
    """d stored as these blocks (kind, damage)"""
    k, n, out = len(blocks), len(d), d
    first = 0
    while len(out) == n:      # a record stored in as many bytes as it has counts as plain: one more block then
        out = forge.block(blocks[0]["kind"], d[:first], level) if first else b""
        for i, b in enumerate(blocks):
            x = d[first + (n - first) * i // k:first + (n - first) * (i + 1) // k]
            out += forge.block(b["kind"], x, level) if b["dmg"] == "none" else damaged(b["kind"], b["dmg"], x)
        first += 1
    return out


@check("P16")
def p16(c):
    c.build()
    c.model("OxyPack", "OxyPack", note="3 blocks, one damage", must=("Pack", "Store2", "Block"))
    c.model_fails("OxyPack", "OxyPack_first", "AsPlain", "only the first block is unpacked")
    cases = c.enum("OxyPack", "OxyPackGen" if c.quick else "OxyPackGen_t")
    if c.quick:   # longer mixtures without damage
        cases += [dict(blocks=[dict(kind=k, dmg="none") for k in ks]) for ks in itertools.product(("ZL", "XZ", "L4"), repeat=3)]
    m = Maker(c)
    unsound = {}
    ks = [L.k_scalar("i32"), L.k_scalar("f64"), L.k_scalar("String"), L.k_array("u8", 10), L.k_slice("i16"), L.k_stl(("vec", L.num("f32"))), L.k_stl(("map", L.STR, ("vec", L.num("i16"))))]
    # 1. a basket of every column
    for g, case in enumerate(cases):
        broken = any(b["dmg"] != "none" for b in case["blocks"])
        cols = []
        for i, k in enumerate(ks if c.quick else ks + kinds(c)[:20]):
            cuts = c.rnd.choice([[40], [10, 30], [30, 10], [10, 20, 10]])
            hit = c.rnd.randrange(len(cuts))
            b, col = L.column(k, f"c{i}", c.rnd, dict(cuts=cuts, emb=-1), 40)
            # other baskets: plain or packed differently
            rest = c.rnd.choice([None, ["ZL"], ["L4"], ["XZ", "ZL"]])
            b["compress"] = lambda j, hit=hit, rest=rest, case=case: (lambda d: pack(case["blocks"], d)) if j == hit else rest
            if broken:
                col = dict(col, data=col["data"][:sum(cuts[:hit])] + [dict(n=1, tok=MARK)])
            cols.append((b, col))
        m.add(f"basket{g}", OPTIONS[g % len(OPTIONS)], [("t", 40, cols, {})])
    # 2. the record of the tree itself
    for g, case in enumerate(cases):
        broken = any(b["dmg"] != "none" for b in case["blocks"])
        cols = [L.column(k, f"c{i}", c.rnd, dict(cuts=[3, 2], emb=2), 7) for i, k in enumerate(ks[:4])]
        fine = [L.column(k, f"c{i}", c.rnd, dict(cuts=[3], emb=-1), 3) for i, k in enumerate(ks[:2])]
        m.add(f"tree{g}", OPTIONS[(g + 5) % len(OPTIONS)], [("u", 3, fine, {}), ("t", 7, cols, dict(compress=lambda d, case=case: pack(case["blocks"], d)))])
        unsound[(f"tree{g}", "t")] = broken
    # 3. big records: real sizes of several megabytes in blocks as large as they get
    for q in range(2 if c.quick else 12):
        n = c.rnd.choice([3000, 70000]) if c.quick else c.rnd.choice([3000, 70000, 900000, 2300000])
        k = c.rnd.choice([L.k_scalar("f64"), L.k_scalar("i32"), L.k_scalar("u64")])
        items = [k.gen(c.rnd) for _ in range(2000)]
        items = [items[(i * 7 + i // 2000) % 2000] for i in range(n)]
        b, col = L.column(k, "v", c.rnd, dict(cuts=[n], emb=-1), n, blk=1000, items=items)
        size = sum(len(x[1]) for x in items)
        nb = max(1, -(-size // 0xffffff))
        b["compress"] = lambda j, nb=nb: [c.rnd.choice(["ZL", "L4"]) for _ in range(nb + q % 2)]
        m.add(f"big{q}", {}, [("t", n, [(b, col)], {})], blk=1000)
    # the sizes of a block are stored in three bytes: content and packed data around the steps of each
    sizes = [255, 256, 65535, 65536, 65537, 140000] + ([] if c.quick else [1 << 20, 0xfffffe, 0xffffff])
    blk = 1000 if c.quick else 40000
    for kind in ("ZL", "XZ", "L4"):
        cols = []
        for n in sizes:
            for flat in (True, False):
                if n > 1 << 22 and (not flat or kind == "L4"):
                    continue        # packed it would not fit
                k = L.k_scalar("u8")
                items = [k.gen(c.rnd) for _ in range(64 if flat else 4096)]
                items = [items[i % 64] if flat else items[c.rnd.randrange(4096)] for i in range(n)]
                b, col = L.column(k, f"n{n}{flat}", c.rnd, dict(cuts=[n], emb=-1), n, blk=blk, items=items)
                b["compress"] = lambda j, kind=kind: (lambda d: pack([dict(kind=kind, dmg="none")], d, 1))
                cols.append((b, col))
        m.add(f"sizes{kind}", {}, [("t", max(sizes), cols, {})], blk=blk)
    # 4. every length of packed data around the steps of the lz4 checksum, every level of zlib
    lens = list(range(1, 80)) if c.quick else list(range(1, 300))
    cols = []
    for n in lens:
        k = L.k_scalar("u8")
        b, col = L.column(k, f"n{n}", c.rnd, dict(cuts=[n], emb=-1), n, blk=1000)
        b["compress"] = lambda j, n=n: (lambda d: pack([dict(kind="L4" if n % 2 else "ZL", dmg="none")], d, n % 10))
        cols.append((b, col))
    m.add("lens", {}, [("t", max(lens), cols, {})], blk=1000)
    m.read(unsound=unsound, mutants=MUT + [("ended", m_short)])


# ----------------------------------------------------------------------------- P17
def stl_type(t):
    k = t["k"]
    if k == "num":
        return L.num({1: "u8", 2: "i16", 4: "i32", 8: "u64"}[t["w"]])
    return dict(str=lambda: L.STR, tstr=lambda: L.TSTR, vec=lambda: ("vec", stl_type(t["e"])), set=lambda: ("set", stl_type(t["e"])),
                map=lambda: ("map", stl_type(t["a"]), stl_type(t["b"])))[k]()


def stl_val(t, v):
    if t[0] == "num":
        return int.from_bytes(bytes(v), "big", signed=t[1].startswith("i"))
    if t[0] in ("str", "tstr"):
        return bytes(v).decode()
    if t[0] in ("vec", "set"):
        return [stl_val(t[1], x) for x in v]
    return [(stl_val(t[1], a), stl_val(t[2], b)) for a, b in v]


MARK = "!DAMAGED"


def with_text(r, t):
    """a value of the type with the text aQZb in it"""
    if t[0] in ("str", "tstr"):
        return "aQZb"
    if t[0] == "map":
        return [(with_text(r, t[1]), L.srand(r, t[2]))] if "str" in str(t[1]) else [(L.srand(r, t[1]), with_text(r, t[2]))]
    return [with_text(r, t[1])]


@check("P17")
def p17(c):
    c.build()
    cases = c.enum("OxyStl", "OxyStl" if c.quick else "OxyStl_deep", workers=8, timeout=800)
    c.model_fails("OxyStl", "OxyStl_naive", None, "any mark is taken for a header")
    c.extra["collections_enumerated"] = len(cases)
    by = {}
    for x in cases:
        t = stl_type(x["ty"])
        v = stl_val(t, x["val"])
        b = bytes(x["bytes"])
        if L.entry(t, v) != b:
            raise AssertionError(f"encoder disagrees with the model on {t} {v}")
        by.setdefault(t, []).append((L.stok(t, v), b))
    m = Maker(c)
    g = 0
    for t, items in by.items():
        c.rnd.shuffle(items)
        for q in range(0, len(items), 60):
            chunk = items[q:q + 60]
            k = L.k_stl(t)
            cols = [L.column(k, f"c{i}", c.rnd, rcut(c, len(chunk)), len(chunk), items=chunk, embed_style=c.rnd.choice([True, "padded"])) for i in range(2)]
            m.add(f"enum{g}", OPTIONS[g % len(OPTIONS)], [("t", len(chunk), cols, {})])
            g += 1
    # larger values of every type, also those the model does not have
    types = L.STL + [t for t in by if t not in L.STL]
    for q in range(2 if c.quick else 14):
        for i, t in enumerate(types):
            n = c.rnd.choice([1, 7, 25]) if c.quick else c.rnd.choice([1, 7, 25, 120])
            k = L.k_stl(t, size=c.rnd.choice([3, 20, 60]) if t[0] in ("str", "tstr") or t[0] != "map" and t[1][0] in ("num", "str", "tstr") else c.rnd.choice([2, 5]))
            m.add(f"rand{q}-{i}", c.rnd.choice(OPTIONS), [("t", n, [L.column(k, "c", c.rnd, rcut(c, n), n)], {})])
    # an entry whose length needs all bytes of the header
    for q, t in enumerate((("vec", L.num("u8")), ("vec", L.num("f64")), ("set", L.num("i32")), ("vec", L.STR), ("map", L.num("i32"), L.num("i16")), ("set", L.num("u64")),
                           ("map", L.STR, L.num("i16")))):
        n = dict(u8=(1 << 24) + 5, f64=1 << 21, i32=300).get(t[1][1] if t[1][0] == "num" else "", 70000)
        if q == 0:
            raw = bytes((i * 37) & 255 for i in range(256)) * (n // 256) + bytes(n % 256)
            b = L.hdr(struct.pack(">i", n) + raw)
            items = [(L.seq(map(str, raw)), b), (L.seq(["7"]), L.entry(t, [7]))]
        else:
            if q in (2, 5):       # more elements than 16 bits can count
                v = [x * 3 - 30000 * (q == 2) for x in range(70001 if q == 2 else 66000)]
            elif t[0] == "map":
                v = [(x if q == 4 else f"k{x}", (x * 7) % 30011) for x in range(70001 if q == 4 else 66000)]
            else:
                base = [L.srand(c.rnd, t[1]) for _ in range(50)]
                v = [base[(i * 13) % 50] for i in range(n)]
            items = [(L.stok(t, v), L.entry(t, v)), (L.stok(t, v[:1]), L.entry(t, v[:1]))]
        m.add(f"huge{q}", {}, [("t", 2, [L.column(L.k_stl(t), "c", c.rnd, dict(cuts=[1, 1] if q % 2 else [2], emb=-1), 2, items=items)], {})])
    # text in another encoding has no value here: reading stops at it
    for q, t in enumerate([None] + [t for t in L.STL if "str" in str(t)]):
        for enc in (b"\xe9Z", b"\xc3(", b"Z\xc3", b"\xff\xfe")[q % 2::2 if c.quick else 1]:
            k = L.k_scalar("String") if t is None else L.k_stl(t)
            n = c.rnd.choice([1, 2, 5])
            at = c.rnd.randrange(n)
            items = [k.gen(c.rnd) for _ in range(n)]
            items[at] = (MARK, (L.enc("String", "aQZb") if t is None else L.entry(t, with_text(c.rnd, t))).replace(b"QZ", enc))
            b, col = L.column(k, "c", c.rnd, rcut(c, n), n, items=items)
            good = [k.gen(c.rnd) for _ in range(n)]
            m.add(f"text{q}-{enc.hex()}", c.rnd.choice(OPTIONS), [("t", n, [(b, dict(col, data=col["data"][:at + 1])), L.column(k, "d", c.rnd, rcut(c, n), n, items=good)], {})])
    m.read(mutants=MUT)
