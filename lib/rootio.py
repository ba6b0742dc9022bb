"""An independent reader of the ROOT container format (nothing here uses oxyroot).

It turns a file into plain facts for the specification: header, the chain of records, the key
list, the free list, streamer infos, and for each tree its branches, leaves, basket index and
decoded baskets.  Anything that cannot be decoded raises Bad."""
import mmap, os, struct, zlib, lzma


class Bad(Exception):
    pass


class B:
    """big-endian cursor over a buffer; `org` = distance the stored object references are
    measured from (key length of the record the buffer came from)"""
    def __init__(self, data, pos=0, org=0, end=None):
        self.d, self.p, self.org = data, pos, org
        self.end = len(data) if end is None else end

    def take(self, n):
        if n < 0 or self.p + n > self.end:
            raise Bad(f"read of {n} bytes at {self.p} beyond {self.end}")
        r = self.d[self.p:self.p + n]
        self.p += n
        return r

    def f(self, fmt):
        return struct.unpack(">" + fmt, self.take(struct.calcsize(">" + fmt)))[0]

    def u8(self): return self.f("B")
    def i8(self): return self.f("b")
    def u16(self): return self.f("H")
    def i16(self): return self.f("h")
    def u32(self): return self.f("I")
    def i32(self): return self.f("i")
    def u64(self): return self.f("Q")
    def i64(self): return self.f("q")
    def f64(self): return self.f("d")

    def string(self):
        n = self.u8()
        if n == 255:
            n = self.u32()
        return self.take(n).decode("utf-8", "surrogateescape")

    def cstring(self):
        e = self.d.index(b"\0", self.p)
        s = self.d[self.p:e]
        self.p = e + 1
        return s.decode("latin-1")

    def version(self):
        """-> (version, end position or None)"""
        p = self.p
        c = self.u32()
        if c & 0x40000000:
            n = c & ~0x40000000
            v = self.u16()
            if p + 4 + n > self.end:
                raise Bad(f"object byte count {n} at {p} beyond buffer")
            return v, p + 4 + n
        self.p = p
        return self.u16(), None

    def done(self, end, what):
        if end is not None and self.p != end:
            raise Bad(f"{what}: object ends at {self.p}, byte count says {end}")


# ----------------------------------------------------------------------------- compression
def lz4_block(src, usize):
    out = bytearray()
    i = 0
    while i < len(src):
        t = src[i]; i += 1
        n = t >> 4
        if n == 15:
            while True:
                x = src[i]; i += 1
                n += x
                if x != 255: break
        out += src[i:i + n]; i += n
        if i >= len(src): break
        off = src[i] | src[i + 1] << 8; i += 2
        m = (t & 15)
        if m == 15:
            while True:
                x = src[i]; i += 1
                m += x
                if x != 255: break
        m += 4
        if off == 0 or off > len(out): raise Bad("lz4: bad offset")
        for _ in range(m): out.append(out[-off])
    if len(out) != usize: raise Bad("lz4: wrong size")
    return bytes(out)


def decompress(data, objlen):
    out = b""
    p = 0
    while len(out) < objlen:
        if p + 9 > len(data): raise Bad("compressed data ends early")
        magic = data[p:p + 2]
        cs = int.from_bytes(data[p + 3:p + 6], "little")
        us = int.from_bytes(data[p + 6:p + 9], "little")
        blk = data[p + 9:p + 9 + cs]
        p += 9 + cs
        if magic == b"ZL": r = zlib.decompress(blk)
        elif magic == b"XZ": r = lzma.decompress(blk)
        elif magic == b"L4": r = lz4_block(blk[8:], us)
        else: raise Bad(f"unknown compression {magic!r}")
        if len(r) != us: raise Bad("block size mismatch")
        out += r
    if len(out) != objlen: raise Bad("compressed length mismatch")
    return out


# ----------------------------------------------------------------------------- records
class Key:
    def __init__(self, data, at):
        c = B(data, at)
        self.at = at
        self.nbytes = c.i32()
        if self.nbytes < 0:
            self.gap = True
            return
        self.gap = False
        self.version = c.i16()
        self.objlen = c.i32()
        self.datime = c.u32()
        self.keylen = c.i16()
        self.cycle = c.i16()
        big = self.version > 1000
        self.seekkey = c.i64() if big else c.i32()
        self.seekpdir = c.i64() if big else c.i32()
        self.cls = c.string()
        self.name = c.string()
        self.title = c.string()
        self.hdrlen = c.p - at

    def fact(self):
        return dict(at=self.at, nbytes=self.nbytes, objlen=self.objlen, keylen=self.keylen, cycle=self.cycle,
                    seekkey=self.seekkey, seekpdir=self.seekpdir, cls=self.cls, name=self.name, title=self.title,
                    hdrlen=self.hdrlen)


class File:
    def __init__(self, path=None, data=None):
        if data is None:
            with open(path, "rb") as h:
                data = mmap.mmap(h.fileno(), 0, prot=mmap.PROT_READ) if os.path.getsize(path) > 1 << 28 else h.read()
        self.data = data
        d = self.data
        if d[:4] != b"root": raise Bad("magic")
        c = B(d, 4)
        self.version = c.i32()
        self.begin = c.i32()
        big = self.version >= 1000000
        self.end = c.i64() if big else c.i32()
        self.seekfree = c.i64() if big else c.i32()
        self.nbytesfree = c.i32()
        self.nfree = c.i32()
        self.nbytesname = c.i32()
        self.units = c.u8()
        self.compress = c.i32()
        self.seekinfo = c.i64() if big else c.i32()
        self.nbytesinfo = c.i32()
        self.uuid = c.take(18)
        self.size = len(d)

    # -- chain of records from begin to end
    def records(self):
        out = []
        p = self.begin
        while p < self.end:
            if p + 4 > len(self.data):
                raise Bad(f"record chain leaves the file at {p}")
            k = Key(self.data, p)
            if k.nbytes == 0:
                raise Bad(f"empty record at {p}")
            out.append(k)
            p += abs(k.nbytes)
        if p != self.end:
            raise Bad(f"record chain ends at {p}, END is {self.end}")
        return out

    def payload(self, k):
        raw = self.data[k.at + k.keylen:k.at + k.nbytes]
        if len(raw) != k.nbytes - k.keylen: raise Bad("record beyond end of file")
        if k.objlen != k.nbytes - k.keylen:
            return decompress(raw, k.objlen)
        return raw

    def directory(self):
        c = B(self.data, self.begin + self.nbytesname)
        r = {}
        v = c.i16()
        r["version"] = v
        r["datimec"] = c.u32(); r["datimem"] = c.u32()
        r["nbyteskeys"] = c.i32(); r["nbytesname"] = c.i32()
        g = c.i64 if v > 1000 else c.i32
        r["seekdir"] = g(); r["seekparent"] = g(); r["seekkeys"] = g()
        return r

    def keys(self):
        d = self.directory()
        if d["seekkeys"] <= 0: raise Bad("no key list")
        hk = Key(self.data, d["seekkeys"])
        c = B(self.data, hk.at + hk.keylen, end=hk.at + hk.nbytes)
        n = c.i32()
        out = []
        for _ in range(n):
            k = Key(self.data, c.p)
            c.p += k.hdrlen
            if c.p > c.end: raise Bad("key list overflows its record")
            k.at = k.seekkey
            out.append(k)
        return hk, out, c.end - c.p

    def free(self):
        hk = Key(self.data, self.seekfree)
        c = B(self.data, hk.at + hk.keylen, end=hk.at + hk.nbytes)
        out = []
        while c.p < c.end:
            v = c.i16()
            g = c.i64 if v > 1000 else c.i32
            out.append((g(), g()))
        return hk, out

    def streamers(self):
        hk = Key(self.data, self.seekinfo)
        if self.nbytesinfo <= 0: raise Bad("no streamer info")
        o = Objects(self.payload(hk), hk.keylen)
        l = o.tlist(o.c)
        return hk, [x for x in l if x and x["class"] == "TStreamerInfo"]

    def tree(self, k):
        o = Objects(self.payload(k), k.keylen)
        t = o.ttree()
        if o.c.p != o.c.end: raise Bad(f"tree record: {o.c.end - o.c.p} bytes left over")
        return t

    def basket(self, at):
        k = Key(self.data, at)
        return basket_of(self.data[at:at + k.nbytes], self.payload(k), k)


def basket_of(rec, payload, k):
    """rec: record bytes; the basket's own header sits in the last 19 bytes of the key"""
    c = B(rec, k.hdrlen)
    b = dict(key=k)
    b["version"] = c.i16(); b["bufsize"] = c.i32(); b["nevsize"] = c.i32()
    b["nevbuf"] = c.i32(); b["last"] = c.i32(); b["flag"] = c.u8()
    if c.p != k.keylen: raise Bad(f"basket header ends at {c.p}, key length {k.keylen}")
    border = b["last"] - k.keylen
    if border < 0 or border > len(payload): raise Bad("basket fLast outside the payload")
    b["data"] = payload[:border]
    b["offsets"] = None
    if border < len(payload):
        c = B(payload, border)
        n = c.i32()
        off = [c.i32() for _ in range(n)]
        b["offsets"] = off
        b["trailing"] = c.end - c.p
    return b


# ----------------------------------------------------------------------------- objects
class Objects:
    def __init__(self, data, keylen):
        self.c = B(data, 0, keylen)
        self.org = keylen
        self.classes = {}
        self.objs = {}

    def tobject(self, c):
        v = c.u16()
        if v & 0x4000: raise Bad("tobject bytecount")
        uid, bits = c.u32(), c.u32()
        if bits & 0x10: c.u16()
        return bits

    def tnamed(self, c):
        v, e = c.version()
        self.tobject(c)
        r = (c.string(), c.string())
        c.done(e, "TNamed")
        return r

    def skip(self, c, what):
        v, e = c.version()
        if e is None: raise Bad(what + " without byte count")
        c.p = e

    def obj(self, c):
        """object pointer -> None | dict"""
        p = c.p
        n = c.u32()
        if n == 0: return None
        if not n & 0x40000000:
            # reference to an object seen before
            if n not in self.objs: raise Bad(f"reference to unknown object {n} at {p}")
            return self.objs[n]
        end = p + 4 + (n & ~0x40000000)
        if end > c.end: raise Bad("object pointer byte count beyond buffer")
        p = c.p
        tag = c.u32()
        if tag == 0xFFFFFFFF:
            cls = c.cstring()
            self.classes[p + self.org + 2] = cls
        else:
            t = tag & 0x7FFFFFFF
            if not tag & 0x80000000:
                # reference to an object, with a byte count
                if tag not in self.objs: raise Bad(f"reference to unknown object {tag} at {p}")
                if c.p != end: raise Bad("object reference with a body")
                return self.objs[tag]
            if t not in self.classes: raise Bad(f"class reference {t} unknown")
            cls = self.classes[t]
        r = {"class": cls}
        self.objs[p - 4 + self.org + 2] = r
        m = getattr(self, "r_" + cls, None)
        if m is None:
            if cls.startswith("TLeaf"): self.leaf(c, r, cls)
            elif cls.startswith("TStreamer"): self.streamer(c, r, cls, end)
            else: c.p = end
        else:
            m(c, r)
        if c.p != end: raise Bad(f"{cls}: object ends at {c.p}, byte count says {end}")
        return r

    def objarray(self, c):
        v, e = c.version()
        self.tobject(c)
        c.string()
        n = c.i32(); c.i32()
        r = [self.obj(c) for _ in range(n)]
        c.done(e, "TObjArray")
        return r

    def r_TObjArray(self, c, r):
        r["items"] = self.objarray(c)

    def tlist(self, c):
        v, e = c.version()
        self.tobject(c)
        c.string()
        n = c.i32()
        out = []
        for _ in range(n):
            out.append(self.obj(c))
            c.take(c.u8())
        c.done(e, "TList")
        return out

    def r_TList(self, c, r):
        r["items"] = self.tlist(c)

    def r_TStreamerInfo(self, c, r):
        v, e = c.version()
        r["name"], _ = self.tnamed(c)
        r["checksum"] = c.u32()
        r["version"] = c.i32()
        a = self.obj(c)
        r["elements"] = a["items"]
        c.done(e, "TStreamerInfo")

    def streamer(self, c, r, cls, end):
        v, e = c.version()
        # TStreamerElement is the base of every kind (itself has one header less)
        if cls != "TStreamerElement":
            v2, e2 = c.version()
        else:
            v2, e2 = v, e
        if cls == "TStreamerSTLstring": v2, e2 = c.version()
        r["name"], r["title"] = self.tnamed(c)
        r["type"] = c.i32(); r["size"] = c.i32(); r["len"] = c.i32(); r["dim"] = c.i32()
        for _ in range(5): c.i32()
        r["tname"] = c.string()
        c.done(e2, "TStreamerElement")
        if cls == "TStreamerBase": r["vbase"] = c.i32()
        if cls == "TStreamerSTL": r["stl"], r["ctype"] = c.i32(), c.i32()
        if cls == "TStreamerBasicPointer": r["cvers"] = c.i32(); r["cname"] = c.string(); r["ccls"] = c.string()
        c.p = e

    def ttree(self):
        c = self.c
        v, e = c.version()
        t = {"version": v}
        t["name"], t["title"] = self.tnamed(c)
        for w in ("TAttLine", "TAttFill", "TAttMarker"): self.skip(c, w)
        for k in ("entries", "tot", "zip"): t[k] = c.i64()
        if v >= 16: t["saved"] = c.i64()
        if v >= 18: t["flushed"] = c.i64()
        c.f64()
        c.i32(); c.i32(); c.i32()
        if v >= 17: c.i32()
        ncl = c.i32() if v >= 19 else 0
        c.i64(); c.i64(); c.i64(); c.i64()
        if v >= 18: c.i64()
        c.i64()
        if v >= 19:
            c.i8(); c.take(8 * ncl); c.i8(); c.take(8 * ncl)
        if v >= 20: self.skip(c, "ROOT::TIOFeatures")
        t["branches"] = self.objarray(c)
        t["leaves"] = self.objarray(c)
        t["tail"] = c.p
        rest = c.end if e is None else e
        t["ptrs"] = []
        if v >= 18:
            # fAliases, fIndexValues, fIndex, fTreeIndex, fFriends, fUserInfo, fBranchRef
            t["aliases"] = self.obj(c)
            c.take(8 * c.i32()); c.take(4 * c.i32())
            t["index"] = self.obj(c); t["friends"] = self.obj(c); t["userinfo"] = self.obj(c); t["ref"] = self.obj(c)
        c.done(e, "TTree")
        return t

    def r_TBranch(self, c, r):
        v, e = c.version()
        r["version"] = v
        r["name"], r["title"] = self.tnamed(c)
        if v >= 7: self.skip(c, "TAttFill")
        r["compress"] = c.i32(); r["basketsize"] = c.i32(); r["entryoffsetlen"] = c.i32()
        r["writebasket"] = c.i32()
        r["entrynumber"] = c.i64() if v >= 10 else c.i32()
        if v >= 13: self.skip(c, "ROOT::TIOFeatures")
        r["offset"] = c.i32(); r["maxbaskets"] = c.i32(); r["splitlevel"] = c.i32()
        if v >= 10:
            r["entries"] = c.i64(); r["firstentry"] = c.i64() if v >= 11 else 0
            r["totbytes"] = c.i64(); r["zipbytes"] = c.i64()
        else:
            r["entries"] = int(c.f64()); r["totbytes"] = int(c.f64()); r["zipbytes"] = int(c.f64()); r["firstentry"] = 0
        r["branches"] = self.objarray(c)
        r["leaves"] = self.objarray(c)
        r["baskets"] = self.objarray(c)
        m = r["maxbaskets"]
        r["a1"] = c.u8(); r["basketbytes"] = [c.i32() for _ in range(m)]
        r["a2"] = c.u8(); r["basketentry"] = [(c.i64() if v >= 10 else c.i32()) for _ in range(m)]
        a3 = c.u8()
        wide = v >= 10 or a3 == 2
        r["basketseek"] = [(c.i64() if wide else c.i32()) for _ in range(m)]
        r["fname"] = c.string()
        c.done(e, "TBranch")

    def r_TBranchElement(self, c, r):
        v, e = c.version()
        self.r_TBranch(c, r)
        r["elver"] = v
        r["eclass"] = c.string(); r["parent"] = c.string(); r["clones"] = c.string()
        r["chksum"] = c.u32()
        r["clsver"] = c.u16() if v >= 10 else c.i32()
        r["id"] = c.i32(); r["btype"] = c.i32(); r["stype"] = c.i32(); r["max"] = c.i32()
        self.obj(c); self.obj(c)
        c.done(e, "TBranchElement")

    def r_TBasket(self, c, r):
        p0 = c.p
        k = Key(c.d, c.p)
        c.p += k.hdrlen
        b = dict(key=k)
        b["version"] = c.i16(); b["bufsize"] = c.i32(); b["nevsize"] = c.i32()
        b["nevbuf"] = c.i32(); b["last"] = c.i32(); f = c.u8()
        b["flag"] = f
        b["offsets"] = None
        if f and f % 10 != 2:
            n = c.i32(); b["offsets"] = [c.i32() for _ in range(n)]
            if 20 < f < 40:
                n = c.i32(); [c.i32() for _ in range(n)]
        if f in (1,) or f > 10:
            b["data"] = c.take(b["last"])[k.keylen:]
        r["basket"] = b

    def leaf(self, c, r, cls):
        v, e = c.version()
        v2, e2 = (c.version() if cls != "TLeaf" else (v, e))
        r["name"], r["title"] = self.tnamed(c)
        r["len"] = c.i32(); r["etype"] = c.i32(); r["offset"] = c.i32()
        r["hasrange"] = c.u8(); r["unsigned"] = c.u8()
        r["count"] = self.obj(c)
        c.done(e2, "TLeaf")
        if cls == "TLeafElement": r["id"], r["ltype"] = c.i32(), c.i32()
        elif cls != "TLeaf":
            r["limits"] = c.take(e - c.p)


def all_branches(bs):
    for b in bs:
        yield b
        yield from all_branches(b["branches"])
