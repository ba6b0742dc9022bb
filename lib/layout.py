"""Columns of files made without the library: values, their tokens (as the driver prints them)
and their bytes."""
import struct
import forge

MASK = (1 << 64) - 1


def fnv(b, h=0xcbf29ce484222325):
    for x in b:
        h = ((h ^ x) * 0x100000001b3) & MASK
    return h


def short(tok):
    b = tok.encode()
    return tok if len(b) <= 28 else f"#{len(b)}:{fnv(b):016x}"


def cells(toks, blk=1):
    """tokens grouped the way the driver groups them"""
    out = []
    for i in range(0, len(toks), blk):
        g = toks[i:i + blk]
        if len(g) == 1:
            out.append(dict(n=1, tok=short(g[0])))
        else:
            h = 0xcbf29ce484222325
            for t in g:
                h = fnv(t.encode() + b"|", h)
            out.append(dict(n=len(g), tok=f"#{len(g)}:{h:016x}"))
    return out


# ------------------------------------------------------------ types, values, tokens
INT = {"i8": ("b", 8, 1), "u8": ("B", 8, 0), "i16": ("h", 16, 1), "u16": ("H", 16, 0), "i32": ("i", 32, 1), "u32": ("I", 32, 0),
       "i64": ("q", 64, 1), "u64": ("Q", 64, 0)}
CPP = dict(i8="int8_t", u8="uint8_t", i16="short", u16="unsigned short", i32="int", u32="unsigned int", i64="long", u64="unsigned long",
           f32="float", f64="double", bool="bool")
NUM = list(INT) + ["f32", "f64"]
SCALAR = NUM + ["bool"]


def rand(rnd, ty):
    """a value of a scalar type; floats are held as their bits"""
    if ty == "bool":
        return rnd.random() < .5
    if ty in INT:
        _, w, s = INT[ty]
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
        return rnd.choice([lo, hi, 0, 1, 64, hi - 1, 0x40 << (w - 8) if not s else (0x40 << (w - 8)), rnd.randint(lo, hi), rnd.randint(lo, hi)]) if w > 8 or not s \
            else rnd.choice([lo, hi, 0, 1, 64, rnd.randint(lo, hi)])
    if ty == "f32":
        return rnd.choice([0, 0x80000000, 0x7f800000, 0x7fc00000, 1, 0x3f800000, rnd.getrandbits(31)])
    if ty == "f64":
        return rnd.choice([0, 1 << 63, 0x7ff0000000000000, 0x7ff8000000000000, 1, 0x3ff0000000000001, rnd.getrandbits(62)])
    if ty == "String":
        n = rnd.choice([0, 1, 3, 7, 63, 64, 65, 127, 128, 200, 254, 255, 256, 300]) if rnd.random() < .3 else rnd.randint(0, 9)
        s = "".join(rnd.choice("abcdefghijKLMNOP0123456789 _-/@é漢") for _ in range(n))
        while len(s.encode()) > n and s:
            s = s[:-1]
        return s
    raise ValueError(ty)


def tok(ty, v):
    if ty == "bool":
        return "T" if v else "F"
    if ty in INT:
        return str(v)
    if ty == "f32":
        return f"f{v:08x}"
    if ty == "f64":
        return f"d{v:016x}"
    if ty == "String":
        return '"' + v.replace("\\", "\\\\").replace('"', '\\"') + '"'
    raise ValueError(ty)


def enc(ty, v):
    if ty == "bool":
        return bytes([v])
    if ty in INT:
        return struct.pack(">" + INT[ty][0], v)
    if ty == "f32":
        return struct.pack(">I", v)
    if ty == "f64":
        return struct.pack(">Q", v)
    if ty == "String":
        b = v.encode()
        return (bytes([len(b)]) if len(b) < 255 else b"\xff" + struct.pack(">I", len(b))) + b
    raise ValueError(ty)


def seq(toks):
    return "[" + ",".join(toks) + "]"


# ------------------------------------------------------------ columns: how the entries of a kind are made
class Kind:
    """ty: what the driver asks for; gen(rnd) -> (token, bytes); br: branch description without the data"""

    def __init__(self, name, ty, gen, br, var, esize=1):
        self.name, self.ty, self.gen, self.br, self.var, self.esize = name, ty, gen, br, var, esize

    def branch(self, name, parts, **kw):
        b = {k: (v.replace("@", name) if isinstance(v, str) else v) for k, v in self.br.items()}
        b["leaves"] = [{k: (v.replace("@", name) if isinstance(v, str) else v) for k, v in l.items()} for l in self.br["leaves"]]
        b.update(name=name, parts=parts, var=self.var, esize=self.esize, **kw)
        return b


def leaf_of(ty):
    cls, es, un, _ = forge.ETYPE[ty]
    return dict(cls=cls, etype=es, unsigned=bool(un))


def k_scalar(ty):
    def gen(r):
        v = rand(r, ty)
        return tok(ty, v), enc(ty, v)
    return Kind(ty, ty, gen, dict(cls="TBranch", title="@/" + ty, leaves=[dict(leaf_of(ty), name="@", title="@")]),
                ty == "String", forge.ETYPE[ty][1])


def k_text(*lens):
    """text of these lengths"""
    def gen(r):
        v = "".join(r.choice("abc xyz;0") for _ in range(r.choice(lens)))
        return tok("String", v), enc("String", v)
    k = k_scalar("String")
    return Kind(k.name, k.ty, gen, k.br, k.var, k.esize)


def k_array(ty, n):
    def gen(r):
        v = [rand(r, ty) for _ in range(n)]
        return seq(tok(ty, x) for x in v), b"".join(enc(ty, x) for x in v)
    return Kind(f"{ty}x{n}", f"[{ty};{n}]", gen, dict(cls="TBranch", title=f"@[{n}]/{ty}", leaves=[dict(leaf_of(ty), name="@", title=f"@[{n}]", len=n)]),
                False, forge.ETYPE[ty][1] * n)


def k_slice(ty, lens=(0, 1, 2, 3, 1)):
    def gen(r, n=None):
        v = [rand(r, ty) for _ in range(r.choice(lens) if n is None else n)]
        return seq(tok(ty, x) for x in v), b"".join(enc(ty, x) for x in v)
    return Kind(f"{ty}[]", f"Slice<{ty}>", gen, dict(cls="TBranch", title=f"@[n]/{ty}", leaves=[dict(leaf_of(ty), name="@", title="@[n]")]), True)


def k_grid(ty, *dims):
    """array of several dimensions: its elements one after the other"""
    n = 1
    for d in dims:
        n *= d
    t = "@" + "".join(f"[{d}]" for d in dims)
    k = k_array(ty, n)
    return Kind(f"{ty}x{dims}", k.ty, k.gen, dict(cls="TBranch", title=f"{t}/{ty}", leaves=[dict(leaf_of(ty), name="@", title=t, len=n)]), False, forge.ETYPE[ty][1] * n)


def k_rows(ty, *dims, lens=(0, 1, 2, 3)):
    """as many rows as another column says, each of a fixed size"""
    m = 1
    for d in dims:
        m *= d
    g = k_slice(ty).gen
    t = "@[n]" + "".join(f"[{d}]" for d in dims)
    return Kind(f"{ty}[]x{dims}", f"Slice<{ty}>", lambda r, n=None: g(r, m * (r.choice(lens) if n is None else n)),
                dict(cls="TBranch", title=f"{t}/{ty}", leaves=[dict(leaf_of(ty), name="@", title=t, len=m)]), True)


LTYPE = dict(i8=1, i16=2, i32=3, i64=4, f32=5, f64=8, u8=11, u16=12, u32=13, u64=14, bool=18)
LTYPE2 = dict(i64=16, u64=17, u32=15)     # Long64_t, ULong64_t, flag bits


def k_member(ty, lt=None):
    """member of a class, each in its own branch: fixed size"""
    g, lt = k_scalar(ty).gen, lt or LTYPE[ty]
    return Kind(f"m{ty}t{lt}", ty, g, dict(cls="TBranchElement", title="@", eclass="Thing", stype=lt, btype=0, leaves=[
        dict(cls="TLeafElement", name="@", title="@", etype=0, ltype=lt)]), False, forge.ETYPE[ty][1])


def k_marray(ty, *dims, lt=None):
    """member that is an array of fixed size"""
    k, lt = k_grid(ty, *dims), 20 + (lt or LTYPE[ty])
    t = "@" + "".join(f"[{d}]" for d in dims)
    return Kind(f"m{ty}t{lt}x{dims}", k.ty, k.gen, dict(cls="TBranchElement", title=t, eclass="Thing", stype=lt, btype=0, leaves=[
        dict(cls="TLeafElement", name="@", title=t, etype=0, ltype=lt, len=k.esize // forge.ETYPE[ty][1])]), False, k.esize)


def k_pointer(ty, lens=(0, 1, 2, 5), lt=None):
    """member array of variable length: a byte in front of the elements"""
    def gen(r, n=None):
        v = [rand(r, ty) for _ in range(r.choice(lens) if n is None else n)]
        return seq(tok(ty, x) for x in v), b"\x01" + b"".join(enc(ty, x) for x in v)
    lt = 40 + (lt or LTYPE[ty])
    return Kind(f"p{ty}t{lt}", f"Slice<{ty}>", gen, dict(cls="TBranchElement", title="@[N]", eclass="Thing", stype=lt, btype=0, leaves=[
        dict(cls="TLeafElement", name="@", title="@[N]", etype=0, ltype=lt)]), True)


# -- collections: type terms as in OxyStl: ("num", ty) ("str") ("tstr") ("vec", e) ("set", e) ("map", a, b)
def rust(t):
    return {"num": lambda: t[1], "str": lambda: "String", "tstr": lambda: "String", "vec": lambda: f"Vec<{rust(t[1])}>",
            "set": lambda: f"HashSet<{rust(t[1])}>", "map": lambda: f"HashMap<{rust(t[1])},{rust(t[2])}>"}[t[0]]()


def cpp(t):
    def arg(x):
        s = cpp(x)
        return s + " " if s.endswith(">") else s
    return {"num": lambda: CPP[t[1]], "str": lambda: "string", "tstr": lambda: "TString", "vec": lambda: f"vector<{arg(t[1])}>",
            "set": lambda: f"set<{arg(t[1])}>", "map": lambda: f"map<{cpp(t[1])},{arg(t[2])}>"}[t[0]]()


def stok(t, v):
    k = t[0]
    if k == "num":
        return tok(t[1], v)
    if k in ("str", "tstr"):
        return tok("String", v)
    if k == "vec":
        return seq(stok(t[1], x) for x in v)
    if k == "set":
        return "{" + ",".join(sorted((stok(t[1], x) for x in v), key=lambda s: s.encode())) + "}"
    return "{" + ",".join(sorted((stok(t[1], a) + ":" + stok(t[2], b) for a, b in v), key=lambda s: s.encode())) + "}"


def raw(t, v):
    if t[0] == "num":
        return enc(t[1], v)
    if t[0] in ("str", "tstr"):
        return enc("String", v)
    return struct.pack(">i", len(v)) + b"".join(raw(t[1], x) for x in v)


def hdr(b):
    return struct.pack(">IH", (len(b) + 2) | 0x40000000, 9) + b


def half(t, vs):
    b = b"".join(raw(t, v) for v in vs)
    return b if t[0] in ("num", "tstr") else hdr(b)


def entry(t, v):
    if t[0] in ("str", "tstr"):
        return enc("String", v)
    if t[0] in ("vec", "set"):
        return hdr(raw(t, v))
    b = bytes([0, 0, 170, 187, 204, 221]) + struct.pack(">i", len(v)) + half(t[1], [a for a, _ in v]) + half(t[2], [b for _, b in v])
    return struct.pack(">IH", (len(b) + 2) | 0x40000000, 0x4009) + b


def srand(r, t, size=4):
    if t[0] == "num":
        return rand(r, t[1])
    if t[0] in ("str", "tstr"):
        return rand(r, "String")
    n = r.choice([0, 1, 2, size, r.randint(0, size)])
    if t[0] == "vec":
        return [srand(r, t[1], size) for _ in range(n)]
    seen, out = set(), []
    for _ in range(n):
        k = srand(r, t[1], size)
        if stok(t[1], k) not in seen:
            seen.add(stok(t[1], k))
            out.append(k if t[0] == "set" else (k, srand(r, t[2], size)))
    return out


def k_stl(t, size=4):
    def gen(r):
        v = srand(r, t, size)
        return stok(t, v), entry(t, v)
    return Kind(cpp(t), rust(t), gen, dict(cls="TBranchElement", title="@", eclass=cpp(t), stype=-1, btype=-1, leaves=[
        dict(cls="TLeafElement", name="@", title="@", etype=0)]), True)


def num(x):
    return ("num", x)


STR, TSTR = ("str",), ("tstr",)
STL = [("vec", num(x)) for x in SCALAR] + [("set", num(x)) for x in ("i16", "i32", "u64", "i8", "bool")] + \
    [("vec", STR), ("set", STR), ("vec", TSTR), STR, ("vec", ("vec", num("i32"))), ("vec", ("vec", num("i16"))), ("vec", ("vec", num("f64"))),
     ("vec", ("vec", num("u8"))), ("vec", ("vec", num("bool"))), ("vec", ("vec", STR)), ("vec", ("set", num("i32"))), ("vec", ("set", num("i16"))),
     ("vec", ("set", STR)), ("vec", ("vec", ("vec", num("i16"))))] + \
    [("map", a, b) for a in (num("i32"), STR, TSTR) for b in (num("i16"), STR, TSTR, ("vec", num("i16")), ("vec", STR), ("set", num("i16")),
                                                              ("set", STR), ("vec", ("vec", num("i16"))), ("vec", ("set", num("i16"))))] + \
    [("map", num("u8"), num("u8")), ("map", num("u64"), num("f64")), ("map", num("u64"), ("vec", num("f64")))]


# ------------------------------------------------------------ a column cut into baskets
def cut(items, cuts):
    parts, i = [], 0
    for c in cuts:
        parts.append(items[i:i + c])
        i += c
    assert i == len(items)
    return parts


def column(kind, name, rnd, lay, n, blk=1, embed_style=True, items=None, **kw):
    """lay: {cuts, emb} -> (branch description, column of the File event)"""
    items = items if items is not None else [kind.gen(rnd) for _ in range(n)]
    cuts = list(lay["cuts"]) + ([lay["emb"]] if lay["emb"] >= 0 else [])
    b = kind.branch(name, cut([x[1] for x in items], cuts), embed=embed_style if lay["emb"] >= 0 else False, **kw)
    return b, dict(name=name, ty=kind.ty, data=cells([x[0] for x in items], blk))
