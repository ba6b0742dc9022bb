"""A file as found on disk, told record by record (the trace OxyFileTrace reads)."""
import re
import struct
import rootio
from scen import WIDTH, width

BIG = 2000000000
GIANT = 90000000


def cuts(ty, data, nev):
    """lengths of the entries of a variable-size column, found by decoding them"""
    out, p = [], 0
    for _ in range(nev):
        q = p
        if ty == "String":
            n = data[q]
            q += 1
            if n == 255:
                n = struct.unpack_from(">I", data, q)[0]
                q += 4
            q += n
        else:
            bc, = struct.unpack_from(">I", data, q)
            n, = struct.unpack_from(">i", data, q + 6)
            q += 10 + n * WIDTH[ty[4:-1]]
            if not bc & 0x40000000 or (bc & 0x3fffffff) != q - p - 4:
                raise rootio.Bad(f"entry byte count {bc:#x}, entry has {q - p} bytes")
        if q > len(data):
            raise rootio.Bad("entry beyond the data of its basket")
        out.append(q - p)
        p = q
    if p != len(data):
        raise rootio.Bad(f"{len(data) - p} bytes behind the last entry")
    return out


def term(ty):
    """the type a program gave a column, as a term of OxyLeaf"""
    if ty == "String":
        return dict(k="str", e="", n=0)
    if ty.startswith("Vec<"):
        return dict(k="vec", e=ty[4:-1], n=0)
    if ty.startswith("["):
        e, n = ty[1:-1].split(";")
        return dict(k="array", e=e, n=int(n))
    return dict(k="num", e=ty, n=0)


def longest(b, f, ty):
    """the characters of the longest text in a column of strings"""
    if ty != "String":
        return 0
    out = 0
    for p in b["basketseek"][:max(0, b["writebasket"])]:
        k = f.basket(p)
        for n in cuts(ty, k["data"], k["nevbuf"]):
            out = max(out, n - (1 if n < 256 else 5))
    return out


def describes(b, c):
    """what a column's description says, and what is in its baskets"""
    l = b["leaves"][0]
    el = b["class"] == "TBranchElement"
    dims = []
    if l["title"] != l["name"]:
        m = re.fullmatch(r"((\[\d+\])+)", l["title"][len(l["name"]):]) if l["title"].startswith(l["name"]) else None
        if not m:
            raise rootio.Bad(f"column {b['name']}: title {l['title']!r} of a leaf called {l['name']!r}")
        dims = [int(x) for x in re.findall(r"\d+", m[1])]
    code = "" if el or l["class"] in ("TLeafC", "TLeafO") else b["title"].rsplit("/", 1)[-1]
    c["d"] = dict(bcls=b["class"], lcls=l["class"], uns=bool(l["unsigned"]), size=l["etype"] if l["class"] != "TLeafC" else 1, len=l["len"],
                  dims=dims, coll=b["eclass"] if el else "", code=code, offs=b["entryoffsetlen"] > 0)
    c.update(lname=l["name"], named=b["title"] == b["name"] or b["title"].startswith(b["name"] + "/"), room=b["entryoffsetlen"], maxbk=b["maxbaskets"], plain=b["compress"] == 0 and b["splitlevel"] == 0,
             whole=l["offset"] == 0 and l["hasrange"] == 0 and l["count"] is None and b["offset"] == 0 and b["fname"] == ""
             and (not el or (b["stype"], b["btype"], b["id"], b["parent"], b["clones"], l["id"], l["ltype"]) == (-1, 0, -1, "", "", -1, -1)))


def info(x):
    parts, refs, bases = [], [], []
    for e in x["elements"]:
        if e["class"] == "TStreamerBase":
            parts.append(e["name"])
            bases.append([e["name"], e["vbase"]])
        elif e["class"] in ("TStreamerObject", "TStreamerObjectAny", "TStreamerString"):
            parts.append(e["tname"])
        elif e["class"] in ("TStreamerObjectPointer", "TStreamerObjectAnyPointer"):
            refs.append(e["tname"].rstrip("*"))
    return dict(name=x["name"], ver=x["version"], parts=parts, refs=refs + parts, bases=bases)


def tell(path, want, shrink=False):
    """want: dict(path, trees=[dict(name, cols=[dict(name, ty, n)])], refused=[names], extra=[classes])"""
    trees = [dict(name=t["name"], cols=[dict(c, t=term(c["ty"])) for c in t["cols"]]) for t in want["trees"]]
    ev = [dict(ev="Want", path=want["path"], trees=trees, refused=want["refused"], extra=want.get("extra", []))]
    try:
        told(path, want, ev, shrink)
    except Exception as x:
        ev.append(dict(ev="Bad", why=f"{type(x).__name__}: {x}"))
    if shrink:
        shrunk(ev)
    ev.append(dict(ev="End"))
    return ev


def shrunk(ev):
    """the checker's integers have 32 bits: the same file with every giant basket (one entry each)
    GIANT bytes shorter, in its record, in all that counts its bytes, and in every position behind it"""
    giants = [e["at"] for e in ev if e["ev"] == "Rec" and e["cls"] == "TBasket" and e["nb"] > GIANT + 1000 and e["nev"] == 1]
    sh = lambda p: p - GIANT * sum(1 for g in giants if g < p)
    own = set(giants)
    for e in ev:
        if e["ev"] == "Rec":
            if e["at"] in own:
                for k in ("nb", "ol", "last", "dl"):
                    e[k] -= GIANT
                e["cuts"] = [x - GIANT for x in e["cuts"]]
            for k in e.get("keys", []):
                k["at"] = sh(k["at"])
            for c in e.get("cols", []):
                n = sum(1 for p in c["seek"][:c["nbk"]] if p in own)
                c["bytes"] = [b - GIANT * (p in own) for p, b in zip(c["seek"], c["bytes"])]
                c["total"] -= GIANT * n
                c["zip"] -= GIANT * n
                c["data"] -= GIANT * n
                e["tot"] -= GIANT * n
                e["datasum"] -= GIANT * n
                c["seek"] = [sh(p) for p in c["seek"]]
            e["segs"] = [[sh(a), sh(b)] for a, b in e.get("segs", [])]
            e["at"], e["sk"] = sh(e["at"]), sh(e["sk"])
        elif e["ev"] == "Final":
            for k in ("end", "size", "seekkeys", "seekinfo", "seekfree"):
                e[k] = sh(e[k])


def told(path, want, ev, shrink):
    f = rootio.File(path)
    recs = f.records()
    d = f.directory()
    # which column of which stored tree a basket belongs to (type and width for decoding)
    owner, trees, of = {}, {}, {}
    seen = 0
    for k in recs:
        if k.gap:
            raise rootio.Bad(f"deleted record at {k.at}")
        if k.cls == "TTree":
            t = f.tree(k)
            trees[k.at] = t
            of[k.at] = want["trees"][seen]["cols"] if seen < len(want["trees"]) else []
            seen += 1
            for i, b in enumerate(t["branches"]):
                for p in b["basketseek"][:max(0, b["writebasket"])]:
                    owner[p] = of[k.at][i]["ty"] if i < len(of[k.at]) else ""
    pending = set()
    nth = 0
    for k in recs:
        for n in sorted(pending):
            if not (k.cls == "TBasket" and k.title == n) and n in want["refused"]:
                ev.append(dict(ev="Refuse", name=n))
                pending.discard(n)
        e = dict(ev="Rec", at=k.at, nb=k.nbytes, kl=k.keylen, ol=k.objlen, sk=k.seekkey, pd=k.seekpdir, cyc=k.cycle,
                 cls=k.cls, name=k.name, title=k.title, hl=k.hdrlen)
        nth += 1
        if k.cls == "TBasket":
            pending.add(k.title)
            b = f.basket(k.at)
            ty = owner.get(k.at, "")
            off = b["offsets"]
            w = width(ty) if ty and ty[0] != "V" and ty != "String" else 0
            e.update(nsz=b["nevsize"], nev=b["nevbuf"], last=b["last"], dl=len(b["data"]), hasoff=off is not None, w=w or 0)
            if off is not None:
                if b["trailing"]:
                    raise rootio.Bad(f"{b['trailing']} bytes behind the entry offsets")
                e["offs"] = off
                e["cuts"] = cuts(ty, b["data"], b["nevbuf"]) if ty else []
                if not ty:
                    e["offs"], e["cuts"], e["hasoff"], e["ol"] = [], [], False, e["ol"]
                    e["dl"], e["last"] = e["ol"], e["kl"] + e["ol"]
        elif k.cls == "TTree":
            t = trees[k.at]
            e["tname"], e["tot"] = t["name"], t["tot"]
            cols, ids, ds = [], {}, 0
            tys = [x["ty"] for x in of[k.at]]
            uses = [["TTree", t["version"]]]
            for i, b in enumerate(t["branches"]):
                c = dict(name=b["name"], nbk=b["writebasket"], entries=b["entries"], seek=b["basketseek"],
                         bytes=b["basketbytes"], first=b["basketentry"], total=b["totbytes"], zip=b["zipbytes"], leaf=i + 1)
                if b["entrynumber"] != b["entries"] or b["firstentry"] != 0 or len(b["leaves"]) != 1 or b["branches"] or b["baskets"]:
                    raise rootio.Bad(f"column {b['name']}: not a plain column")
                cols.append(c)
                ids[id(b["leaves"][0])] = i + 1
                own = [f.basket(p)["data"] for p in b["basketseek"][:max(0, b["writebasket"])]]
                c.update(data=sum(len(x) for x in own), longest=longest(b, f, tys[i] if i < len(tys) else ""))
                ds += c["data"]
                describes(b, c)
                uses.append(["TBranch", b["version"]])
                if b.get("eclass"):
                    uses.append([b["eclass"], -1])
            e.update(cols=cols, leaves=[ids.get(id(x), 0) for x in t["leaves"]], datasum=ds, entries=t["entries"], uses=uses)
        elif k.cls == "TDirectory":
            hk, keys, left = f.keys()
            if hk.at != k.at:
                raise rootio.Bad("directory does not point to the key list")
            e["keys"] = [dict(name=x.name, cycle=x.cycle, at=x.seekkey, nb=x.nbytes, kl=x.keylen, ol=x.objlen, cls=x.cls,
                              pd=x.seekpdir) for x in keys]
            # a big file's key list keeps room for eight more bytes, as ROOT's does
            e["left"] = left if not (left == 8 and k.at > BIG) else 0
        elif k.cls == "TList":
            hk, st = f.streamers()
            if hk.at != k.at:
                raise rootio.Bad("header does not point to the class descriptions")
            e["infos"] = [info(x) for x in st]
        elif nth > 1:
            hk, segs = f.free()
            if hk.at != k.at:
                raise rootio.Bad("header does not point to the free list")
            e["segs"] = [[a, b if shrink else min(b, (1 << 31) - 1)] for a, b in segs]
        ev.append(e)
    c = rootio.B(f.data, f.begin + recs[0].keylen)
    nm, ti = c.string(), c.string()
    names = c.p - f.begin if (nm, ti) == (recs[0].name, recs[0].title) else -1
    ev.append(dict(ev="Final", begin=f.begin, end=f.end, size=f.size, seekkeys=d["seekkeys"], nbyteskeys=d["nbyteskeys"],
                   seekinfo=f.seekinfo, nbytesinfo=f.nbytesinfo, seekfree=f.seekfree, nbytesfree=f.nbytesfree, nfree=f.nfree,
                   seekdir=d["seekdir"], seekparent=d["seekparent"], nbytesname=d["nbytesname"], hnbytesname=f.nbytesname,
                   namesend=names, headpad=all(x == 0 for x in f.data[75 if f.version >= 1000000 else 63:100])))
