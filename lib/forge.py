"""Builds ROOT files from a description, without using oxyroot: the reading half of the library
is exercised on layouts its own writer never produces (any basket partition, embedded baskets,
compressed and multi-block records, 64-bit keys, nested branches, STL columns, user info)."""
import struct, zlib, lzma

ETYPE = {"i8": ("TLeafB", 1, 0, "b"), "u8": ("TLeafB", 1, 1, "B"), "i16": ("TLeafS", 2, 0, "h"), "u16": ("TLeafS", 2, 1, "H"),
         "i32": ("TLeafI", 4, 0, "i"), "u32": ("TLeafI", 4, 1, "I"), "i64": ("TLeafL", 8, 0, "q"), "u64": ("TLeafL", 8, 1, "Q"),
         "f32": ("TLeafF", 4, 0, "f"), "f64": ("TLeafD", 8, 0, "d"), "bool": ("TLeafO", 1, 0, "?"), "String": ("TLeafC", 1, 0, None)}


# ------------------------------------------------------------------ compression
def lz4_literals(d):
    """an LZ4 block holding d; runs are encoded as overlapping matches so that matches occur too"""
    out = bytearray()
    i = 0
    lit = bytearray()

    def emit(lits, mlen, off):
        n = len(lits)
        out.append((min(n, 15) << 4) | (min(mlen - 4, 15) if mlen else 0))
        if n >= 15:
            x = n - 15
            while x >= 255:
                out.append(255); x -= 255
            out.append(x)
        out.extend(lits)
        if mlen:
            out.extend((off & 255, off >> 8))
            if mlen - 4 >= 15:
                x = mlen - 4 - 15
                while x >= 255:
                    out.append(255); x -= 255
                out.append(x)
    n = len(d)
    while i < n:
        # match of the previous byte repeated (offset 1), not within the last 12 bytes
        if i > 0 and i + 12 < n and d[i] == d[i - 1]:
            j = i
            while j < n - 12 and d[j] == d[i - 1]:
                j += 1
            if j - i >= 8:
                emit(lit, j - i, 1)
                lit = bytearray()
                i = j
                continue
        lit.append(d[i])
        i += 1
    emit(lit, 0, 0)
    return bytes(out)


M64 = (1 << 64) - 1
P1, P2, P3, P4, P5 = (11400714785074694791, 14029467366897019727, 1609587929392839161, 9650029242287828579, 2870177450012600261)


def xxh64(d):
    """the checksum in front of an LZ4 block, big-endian"""
    rot = lambda x, r: ((x << r) | (x >> (64 - r))) & M64
    rnd = lambda a, l: rot((a + l * P2) & M64, 31) * P1 & M64
    i, n = 0, len(d)
    if n >= 32:
        v = [(P1 + P2) & M64, P2, 0, -P1 & M64]
        while i + 32 <= n:
            w = struct.unpack_from("<4Q", d, i)
            v = [rnd(v[k], w[k]) for k in range(4)]
            i += 32
        h = (rot(v[0], 1) + rot(v[1], 7) + rot(v[2], 12) + rot(v[3], 18)) & M64
        for x in v:
            h = ((h ^ rnd(0, x)) * P1 + P4) & M64
    else:
        h = P5
    h = (h + n) & M64
    while i + 8 <= n:
        h = (rot(h ^ rnd(0, struct.unpack_from("<Q", d, i)[0]), 27) * P1 + P4) & M64
        i += 8
    if i + 4 <= n:
        h = (rot(h ^ (struct.unpack_from("<I", d, i)[0] * P1 & M64), 23) * P2 + P3) & M64
        i += 4
    while i < n:
        h = rot(h ^ (d[i] * P5 & M64), 11) * P1 & M64
        i += 1
    h = (h ^ (h >> 33)) * P2 & M64
    h = (h ^ (h >> 29)) * P3 & M64
    return h ^ (h >> 32)


def block(algo, d, level=6):
    if algo == "ZL": c = zlib.compress(d, level); m = 8
    elif algo == "XZ": c = lzma.compress(d, format=lzma.FORMAT_XZ, preset=1); m = 0
    elif algo == "L4": z = lz4_literals(d); c = struct.pack(">Q", xxh64(z)) + z; m = 1
    else: raise ValueError(algo)
    return algo.encode() + bytes([m]) + len(c).to_bytes(3, "little") + len(d).to_bytes(3, "little") + c


def compress(spec, d):
    """spec: None | list of (algo, share) – the payload is cut into len(spec) blocks"""
    if not spec:
        return d
    if callable(spec):
        return spec(d)
    n = len(d)
    out = b""
    k = len(spec)
    for i, algo in enumerate(spec):
        a, b = n * i // k, n * (i + 1) // k
        if a < b:
            out += block(algo, d[a:b])
    # a record whose stored size equals its uncompressed size counts as uncompressed
    if len(out) == n:
        return None
    return out


# ------------------------------------------------------------------ primitive writer
class W:
    def __init__(self, org=0, refs=True):
        self.b = bytearray()
        self.org = org
        self.cls = {}
        self.refs = refs
        self.obj = {}
        self.choices = None

    def p(self, fmt, *a):
        self.b += struct.pack(">" + fmt, *a)
        return self

    def s(self, x):
        d = x.encode() if isinstance(x, str) else x
        if len(d) < 255: self.b.append(len(d))
        else:
            self.b.append(255); self.p("I", len(d))
        self.b += d
        return self

    def begin(self, vers):
        at = len(self.b)
        self.p("IH", 0, vers)
        return at

    def end(self, at):
        struct.pack_into(">I", self.b, at, (len(self.b) - at - 4) | 0x40000000)

    def tobject(self, bits=0x03000000, uid=0):
        self.p("HII", 1, uid, bits)
        if bits & 0x10: self.p("H", 0)

    def named(self, name, title, bits=0x03000000):
        a = self.begin(1); self.tobject(bits); self.s(name); self.s(title); self.end(a)

    def pointer(self, cls, body, ident=None):
        """object pointer with class tag; ident: written as a back reference the second time"""
        if ident is not None and ident in self.obj:
            self.p("I", self.obj[ident])
            return
        at = len(self.b)
        self.p("I", 0)
        if ident is not None: self.obj[ident] = at + self.org + 2
        byref = next(self.choices) if self.choices is not None else self.refs
        if cls in self.cls and byref:
            self.p("I", self.cls[cls] | 0x80000000)
        else:
            self.cls[cls] = len(self.b) + self.org + 2
            self.p("I", 0xFFFFFFFF)
            self.b += cls.encode() + b"\0"
        body(self)
        self.end(at)

    def nil(self):
        self.p("I", 0)

    def objarray(self, items, name=""):
        a = self.begin(3); self.tobject(); self.s(name); self.p("ii", len(items), 0)
        for it in items:
            if it is None: self.nil()
            else: self.pointer(*it)
        self.end(a)

    def tlist(self, items, name="", version=5, choices=None):
        # choices: for every object in turn, whether its class is given by reference
        outer = self.choices
        if choices != "go on":
            self.choices = iter(choices) if choices is not None else None
        a = self.begin(version); self.tobject(); self.s(name); self.p("i", len(items))
        for it in items:
            self.pointer(*it); self.b.append(0)
        self.end(a)
        self.choices = outer


def key_bytes(cls, name, title, nbytes, objlen, cycle, seek, pdir, big, keylen=None, extra=0):
    w = W()
    base = 26 + (8 if big else 0)
    sl = lambda x: len(x.encode()) + (1 if len(x.encode()) < 255 else 5)
    kl = base + sl(cls) + sl(name) + sl(title) + extra
    w.p("ihiIhh", nbytes if nbytes is not None else 0, 1004 if big else 4, objlen, 0x6D6D6D6D, kl, (cycle + 32768) % 65536 - 32768)    # as a short, like ROOT does
    if big: w.p("qq", seek, pdir)
    else: w.p("ii", seek, pdir)
    w.s(cls).s(name).s(title)
    return w.b, kl


# ------------------------------------------------------------------ columns
def leaf(w, l):
    """l: dict(cls, name, title, len, etype, unsigned, [ltype], [count])"""
    cls = l["cls"]
    a = w.begin({"TLeafElement": 1}.get(cls, 1))
    a2 = w.begin(2)
    w.named(l["name"], l.get("title", l["name"]))
    w.p("iii??", l.get("len", 1), l["etype"], 0, l.get("hasrange", False), bool(l.get("unsigned")))
    if l.get("count"):
        c = l["count"]
        w.pointer(c["cls"], lambda w: leaf(w, c), ident=id(c))
    else:
        w.nil()
    w.end(a2)
    if cls == "TLeafElement":
        w.p("ii", l.get("id", -1), l.get("ltype", -1))
    else:
        f = {"TLeafB": "b", "TLeafS": "h", "TLeafI": "i", "TLeafL": "q", "TLeafF": "f", "TLeafD": "d", "TLeafO": "?", "TLeafC": "i"}[cls]
        w.p(f + f, 0, 0)
    w.end(a)


class Forge:
    """Layout options: big (64-bit keys everywhere), refs (class tags by reference), gaps
    (free gaps between records), compress (for the tree record itself), branch_version."""
    def __init__(self, fname="forged.root", big=False, refs=True, gap=0, tree_compress=None, bversion=13, btail=0, tversion=20, eversion=10, far=False):
        self.out = bytearray(100)
        self.fname, self.big, self.refs, self.gap = fname, big, refs, gap
        self.tree_compress = tree_compress
        self.bversion, self.btail, self.tversion, self.eversion, self.far = bversion, btail, tversion, eversion, far
        self.keys = []
        # directory record
        w = W(); w.s(fname).s("")
        sl = len(w.b)
        kb, kl = key_bytes("TFile", fname, "", None, 0, 1, 100, 0, False)
        self.nbytesname = kl + sl
        dirlen = 2 + 8 + 8 + 12 + 18 + 12
        kb, kl = key_bytes("TFile", fname, "", kl + sl + dirlen, sl + dirlen, 1, 100, 0, False)
        self.out += kb + w.b + bytes(dirlen)
        self.dirlen = dirlen

    def space(self):
        if self.gap:
            g = self.gap
            self.out += struct.pack(">i", -g) + bytes([0x5A]) * (g - 4)

    def record(self, cls, name, title, payload, cycle=1, spec=None, extra=b"", big=None):
        """append a record; extra: bytes that belong to the key (basket header)"""
        self.space()
        big = self.big if big is None else big
        at = len(self.out)
        z = compress(spec, payload)
        if z is None: z = payload
        _, kl = key_bytes(cls, name, title, 0, 0, cycle, at, 100, big, extra=len(extra))
        kb, kl = key_bytes(cls, name, title, kl + len(z), len(payload), cycle, at, 100, big, extra=len(extra))
        self.out += kb + extra + z
        return dict(at=at, nbytes=kl + len(z), keylen=kl, objlen=len(payload), cycle=cycle, cls=cls, name=name, title=title)

    def basket_payload(self, entries, var, kl):
        data = b"".join(entries)
        if not var:
            return data, len(data)
        w = W()
        off = []
        p = kl
        for e in entries:
            off.append(p); p += len(e)
        w.p("i", len(entries) + 1)
        for o in off: w.p("i", o)
        w.p("i", 0)
        return data + bytes(w.b), len(data)

    def basket(self, b, tree, entries, var, esize, cycle, spec):
        big = self.big
        _, kl = key_bytes("TBasket", b["name"], tree, 0, 0, cycle, 0, 100, big, extra=19)
        payload, border = self.basket_payload(entries, var, kl)
        hdr = struct.pack(">hiiiiB", 3, 32000, esize if not var else max(1000, len(entries) + 1), len(entries), kl + border, 0)
        return self.record("TBasket", b["name"], tree, payload, cycle, spec, hdr)

    def branch_body(self, b, tree):
        """b: dict(name, [title], cls, leaves=[...], parts=[[bytes..]..], var, [embed=True], [compress], [sub], [eclass,...])"""
        parts = b.get("parts", [])
        embed = bool(b.get("embed")) and len(parts) > 0
        onfile = parts[:-1] if embed else parts
        var = b.get("var", False)
        esize = b.get("esize", 1)
        recs = []
        for i, p in enumerate(onfile):
            sp = b.get("compress")
            if callable(sp): sp = sp(i)
            recs.append(self.basket(b, tree, p, var, esize, i + 1, sp))
        subs = [self.branch_body(s, tree) for s in b.get("sub", [])]
        entries = b.get("entries", sum(len(p) for p in parts))
        starts = [0]
        for p in parts: starts.append(starts[-1] + len(p))
        nmax = max(len(parts) + 1, b.get("maxbaskets", 10))
        el = b["cls"] == "TBranchElement"

        def tbranch(w):
            v = self.bversion
            a = w.begin(v)
            w.named(b["name"], b.get("title", b["name"]))
            if v > 7:
                x = w.begin(2); w.p("hh", 0, 1001); w.end(x)
            w.p("iii", b.get("compression", 1), 32000, 1000 if var else 0)
            if v < 10:
                w.p("iiii", len(onfile), entries, 0, nmax)
                if v > 6: w.p("i", b.get("split", 0))
                w.p("ddd", entries, sum(len(e) for p in parts for e in p), 0)
                return rest(w, a, "i")
            w.p("iq", len(onfile), entries)
            if v >= 13:
                x = w.begin(0)  # TIOFeatures: byte-counted, class version 0 + checksum
                w.p("I", 0x1AA12F10); w.b.append(0); w.end(x)
            w.p("iii", 0, nmax, b.get("split", 0))
            w.p("q", entries)
            if v >= 11: w.p("q", 0)
            w.p("qq", sum(len(e) for p in parts for e in p), 0)
            rest(w, a, "q")

        def rest(w, a, f):
            w.objarray([(s[0], s[1]) for s in subs])
            w.objarray([(l["cls"], (lambda w, l=l: leaf(w, l)), id(l)) for l in b.get("leaves", [])])
            if embed:
                items = [None] * len(onfile) if b.get("embed") == "padded" else []
                w.objarray(items + [("TBasket", lambda w: self.embedded(w, b, tree, parts[-1], var, esize, len(parts)))])
            else:
                w.objarray([None] * b.get("nilbaskets", 0))
            pad = lambda l, n, f: (w.b.append(1), [w.p(f, (l[i] if i < len(l) else 0)) for i in range(n)])
            pad([r["nbytes"] for r in recs], nmax, "i")
            pad(starts, nmax, f)
            if f == "i" and self.far:
                # 64-bit places in a layout with 32-bit numbers
                w.b.append(2); [w.p("q", recs[i]["at"] if i < len(recs) else 0) for i in range(nmax)]
            else:
                pad([r["at"] for r in recs], nmax, f)
            w.s("")
            w.end(a)

        def body(w):
            if not el:
                return tbranch(w)
            ev = self.eversion
            a = w.begin(ev)
            tbranch(w)
            w.s(b.get("eclass", "")).s(b.get("parent", "")).s(b.get("clones", ""))
            w.p("IH" if ev >= 10 else "II", b.get("chksum", 0), b.get("clsver", 0))
            w.p("iiii", b.get("id", -1), b.get("btype", 0), b.get("stype", -1), 0)
            w.nil(); w.nil()
            w.end(a)
        return (b["cls"], body)

    def embedded(self, w, b, tree, entries, var, esize, cycle):
        kb0, kl = key_bytes("TBasket", b["name"], tree, 0, 0, cycle, 0, 100, self.big, extra=19)
        data = b"".join(entries)
        kb, _ = key_bytes("TBasket", b["name"], tree, kl, len(data), cycle, 0, 100, self.big, extra=19)
        w.b += kb
        # flag: 12 = buffer, no offsets; 11 = offsets and buffer
        w.p("hiiiiB", 3, 32000, esize if not var else 1000, len(entries), kl + len(data), 11 if var else 12)
        if var and entries:
            n = len(entries)
            w.p("i", n)
            p = kl
            for e in entries:
                w.p("i", p); p += len(e)
        w.b += bytes(kl) + data

    def tree(self, t):
        """t: dict(name, [title], entries, branches=[..], [userinfo], [cycle])"""
        bodies = [self.branch_body(b, t["name"]) for b in t["branches"]]
        big = self.big
        _, kl = key_bytes("TTree", t["name"], t.get("title", ""), 0, 0, 1, 0, 100, big)
        w = W(org=kl, refs=self.refs)
        v = self.tversion if t.get("userinfo") is None or self.tversion > 5 else 16  # the oldest layout has no place for it
        a = w.begin(v)
        w.named(t["name"], t.get("title", ""))
        for n, f in (("h" * 3, (1, 1, 1)), ("hh", (0, 1001)), ("hhf", (1, 1, 1.0))):
            x = w.begin(2); w.p(n, *f); w.end(x)
        if v > 5: w.p("qqqq", t["entries"], 0, 0, 0)
        else: w.p("dddd", t["entries"], 0, 0, 0)
        if v >= 18: w.p("q", 0)
        if v >= 16: w.p("d", 1.0)
        w.p("iii", 0, 25, 0)
        if v >= 17: w.p("i", 1000)
        ncl = t.get("clusters", 0)
        if v >= 19: w.p("i", ncl)
        if v > 5: w.p("qqqq", 1000000000000, 1000000000000, 0, -300000000)
        else: w.p("iii", 1000000000, 0, 10000000)
        if v >= 18: w.p("q", -30000000)
        if v > 5: w.p("q", 1000000)
        else: w.p("i", 1000000)
        if v >= 19:
            w.b.append(1 if ncl else 0); [w.p("q", 5) for _ in range(ncl)]
            w.b.append(1 if ncl else 0); [w.p("q", 1) for _ in range(ncl)]
        if v >= 20:
            x = w.begin(0); w.p("I", 0x1AA12F10); w.b.append(0); w.end(x)
        w.objarray([x for x in bodies])
        leaves = []

        def walk(bs):
            for b in bs:
                leaves.extend(b.get("leaves", []))
                walk(b.get("sub", []))
        walk(t["branches"])
        w.objarray([(l["cls"], (lambda w, l=l: leaf(w, l)), id(l)) for l in leaves])
        if v > 5: w.nil()    # aliases
        w.p("i", 0)          # fIndexValues
        w.p("i", 0)          # fIndex
        if v <= 5:
            assert t.get("userinfo") is None
            w.end(a)
            r = self.record("TTree", t["name"], t.get("title", ""), bytes(w.b), t.get("cycle", 1), self.tree_compress)
            self.keys.append(r)
            return r
        w.nil(); w.nil()     # tree index, friends
        ui = t.get("userinfo")
        if ui is None: w.nil()
        else:
            w.pointer("TList", lambda w: w.tlist([info(i) for i in ui], t.get("infoname", ""), choices=t.get("inforefs")))
        w.nil()
        w.end(a)
        r = self.record("TTree", t["name"], t.get("title", ""), bytes(w.b), t.get("cycle", 1), self.tree_compress)
        self.keys.append(r)
        return r

    def object(self, cls, name, title, payload, cycle=1):
        r = self.record(cls, name, title, payload, cycle)
        self.keys.append(r)
        return r

    def finish(self, key_order=None, empty_sinfo=False, free=True):
        big = self.big
        keys = self.keys if key_order is None else [self.keys[i] for i in key_order]
        w = W()
        w.p("i", len(keys))
        for k in keys:
            kb, _ = key_bytes(k["cls"], k["name"], k["title"], k["nbytes"], k["objlen"], k["cycle"], k["at"], 100, big)
            w.b += kb
        kl = self.record("TFile", self.fname, "", bytes(w.b), big=False)
        # streamer info: an empty list is enough for the columns used here
        _, skl = key_bytes("TList", "StreamerInfo", "Doubly linked list", 0, 0, 1, 0, 100, False)
        sw = W(org=skl); sw.tlist([])
        si = self.record("TList", "StreamerInfo", "Doubly linked list", bytes(sw.b), big=False)
        self.space()
        at = len(self.out)
        fb, fkl = key_bytes("TFile", self.fname, "", 0, 0, 1, at, 100, False)
        n = fkl + 10
        end = at + n
        fb, _ = key_bytes("TFile", self.fname, "", n, 10, 1, at, 100, False)
        self.out += fb + struct.pack(">hii", 1, end, 2000000000)
        hbig = self.big
        h = W()
        h.b += b"root"
        if hbig:
            h.p("iiqqiiiBiqi", 1062202, 100, end, at, n, 1, self.nbytesname, 8, 1, si["at"], si["nbytes"])
        else:
            h.p("iiiiiiiBiii", 62202, 100, end, at, n, 1, self.nbytesname, 4, 1, si["at"], si["nbytes"])
        h.p("H", 1); h.b += bytes(16)
        self.out[0:len(h.b)] = h.b
        d = W()
        if hbig: d.p("hIIiiqqqH", 1005, 1, 1, kl["nbytes"], self.nbytesname, 100, 0, kl["at"], 1)
        else: d.p("hIIiiiiiH", 5, 1, 1, kl["nbytes"], self.nbytesname, 100, 0, kl["at"], 1)
        d.b += bytes(16)
        p = 100 + self.nbytesname
        self.out[p:p + len(d.b)] = d.b
        return bytes(self.out)


def info(i):
    """user info element: dict(k="str", s) | dict(k="map", pairs=[dict(key, val)]) | dict(k="list", items); again=object: the same object once more"""
    def objstring(x):
        def f(w):
            a = w.begin(1); w.tobject(); w.s(x); w.end(a)
        return ("TObjString", f)
    if i["k"] == "str":
        return (*objstring(i["s"]), i.get("ident"))
    if i["k"] == "list":
        return ("TList", lambda w: w.tlist([info(x) for x in i["items"]], i.get("name", ""), choices="go on"), i.get("ident"))

    def m(w):
        a = w.begin(3); w.tobject(); w.s(i.get("name", "")); w.p("i", len(i["pairs"]))
        for p in i["pairs"]:
            w.pointer(*objstring(p["key"])); w.pointer(*info(p["val"]))
        w.end(a)
    return ("TMap", m, i.get("ident"))


OTHERS = ["TObjString", "TList", "TMap", "TH1D", "TDirectory", "TNtupleX"]


def other(f, cls, name, title="", cycle=1, rnd=None):
    """an object that is not a tree, of a class the reader knows or of one it does not"""
    w = W()
    items = [dict(k="str", s="one"), dict(k="str", s="two")]
    if cls in ("TObjString", "TList", "TMap"):
        _, kl = key_bytes(cls, name, title, 0, 0, cycle, 0, 100, f.big)
        w.org = kl
        info({"TObjString": items[0], "TList": dict(k="list", items=items), "TMap": dict(k="map", pairs=[dict(key="k", val=items[1])])}[cls])[1](w)
    else:
        w.b += bytes((rnd.randrange(256) for _ in range(rnd.randrange(200)))) if rnd else b"\0" * 40
    return f.object(cls, name, title, bytes(w.b), cycle)


# ------------------------------------------------------------------ helpers for columns
def pack(ty, v):
    if ty == "String":
        w = W(); w.s(v); return bytes(w.b)
    return struct.pack(">" + ETYPE[ty][3], v)


def scalar(name, ty, values, cuts, **kw):
    """simple TBranch column; cuts: sizes of the baskets"""
    cls, es, un, _ = ETYPE[ty]
    parts, i = [], 0
    for c in cuts:
        parts.append([pack(ty, v) for v in values[i:i + c]]); i += c
    assert i == len(values)
    return dict(name=name, cls="TBranch", title=f"{name}/{ty}", leaves=[dict(cls=cls, name=name, title=name, etype=es, unsigned=un)],
                parts=parts, var=(ty == "String"), esize=es, **kw)
