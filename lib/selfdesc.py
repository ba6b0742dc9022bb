"""A tree's record read with nothing but the class descriptions of its own file (the trace OxySelfTrace reads)."""
import struct
import rootio
from filefacts import term
from rootio import B, Bad, Key, Objects

FMT = {1: "b", 11: "B", 18: "B", 2: "h", 12: "H", 3: "i", 6: "i", 13: "I", 15: "I", 5: "f", 4: "q", 16: "q", 14: "Q", 17: "Q", 8: "d"}
WHAT = {"TStreamerBase": "base", "TStreamerBasicType": "basic", "TStreamerBasicPointer": "ptr", "TStreamerString": "string",
        "TStreamerObject": "any", "TStreamerObjectAny": "any", "TStreamerObjectPointer": "objptr",
        "TStreamerObjectAnyPointer": "objptr", "TStreamerSTL": "stl"}
SMALL = 1 << 30


def descs(f):
    _, st = f.streamers()
    out = []
    for x in st:
        els = []
        for e in x["elements"]:
            k = WHAT.get(e["class"])
            if not k:
                raise Bad(f"element of class {e['class']} in the description of {x['name']}")
            els.append(dict(k=k, n=e["name"], code=e["ctype"] if k == "stl" else e["type"] - 40 if k == "ptr" else e["type"],
                            cls=e["name"] if k == "base" else e["tname"].rstrip("*"), ver=e.get("vbase", 0), cnt=e.get("cname", "")))
        out.append(dict(name=x["name"], ver=x["version"], sum=f"{x['checksum']:08x}", els=els))
    return out


def small(x):
    return x if isinstance(x, int) and -SMALL < x < SMALL else 0


def number(x):
    """whole numbers, as far as the model has them; of the others only that they are not whole"""
    return max(-SMALL, min(SMALL, int(x))) if x == x and abs(x) != float("inf") and x == int(x) else SMALL + 1


class Walk:
    def __init__(self, data, keylen, ds, ev):
        self.c, self.org, self.ds, self.ev = B(data, 0, keylen), keylen, {d["name"]: d for d in ds}, ev
        self.sums = {d["sum"]: d for d in ds}
        self.classes = {}

    def say(self, ev, at, **kw):
        self.ev.append(dict(ev=ev, at=at, to=self.c.p, **kw))

    def out(self):
        self.ev.append(dict(ev="Out", at=self.c.p))

    def object(self, cls, part):
        c, at = self.c, self.c.p
        v, end = c.version()
        if end is None:
            raise Bad(f"{cls} without a byte count")
        s = f"{c.u32():08x}" if v == 0 and not part and cls in self.ds else ""
        self.say("In", at, end=end, cls=cls, ver=v, sum=s, part=part)
        if cls == "TBranchElement":
            self.object("TBranch", True)
            p = c.p
            c.take(end - p)
            self.say("Leaf", p, cls=cls, leaf=False)
        elif cls in self.ds:
            mem = {}
            for e in self.ds[cls]["els"]:
                self.member(e, mem, end)
        else:
            raise Bad(f"no description of {cls}")
        if c.p != end:
            raise Bad(f"{cls} as described ends at {c.p}, by its header at {end}")
        self.out()

    def member(self, e, mem, end):
        c, at = self.c, self.c.p
        k, n = e["k"], e["n"]
        if k == "base" and e["cls"] == "TObject":
            c.take(10)
            self.say("TObject", at)
        elif k == "base":
            self.object(e["cls"], True)
        elif k == "basic":
            mem[n] = c.f(FMT[e["code"]])
            self.say("Basic", at, n=n, v=number(mem[n]))
        elif k == "ptr":
            c.u8()
            m = mem.get(e["cnt"], -1)
            if not 0 <= m < 1 << 24:
                raise Bad(f"{n}: counted by {e['cnt']}, which is {m}")
            vs = [c.f(FMT[e["code"]]) for _ in range(m)]
            self.say("Ptr", at, n=n, vs=[small(x) for x in vs])
        elif k == "string":
            s = c.string()
            self.say("Text", at, n=n, v=s, len=len(s.encode("utf-8", "surrogateescape")))
        elif k == "any" and e["cls"] in ("TArrayD", "TArrayI"):
            m = c.i32()
            c.take(m * (8 if e["cls"] == "TArrayD" else 4))
            self.say("Numbers", at, n=n, len=m)
        elif k == "any" and e["cls"] == "TObjArray":
            v, stop = c.version()
            c.take(10)
            if c.string():
                raise Bad("array of objects with a name")
            m, low = c.i32(), c.i32()
            self.say("Items", at, n=n, len=m, low=low, end=stop if stop is not None else -1)
            for _ in range(m):
                self.pointer()
            self.out()
        elif k == "any":
            self.object(e["cls"], False)
        elif k == "objptr":
            self.pointer()
        else:
            raise Bad(f"member {n} of kind {k}")

    def pointer(self):
        c, at = self.c, self.c.p
        n = c.u32()
        if n == 0:
            return self.say("Null", at)
        if not n & 0x40000000:
            return self.say("Again", at, of=n - self.org - 2)
        end = at + 4 + (n & ~0x40000000)
        p = c.p
        tag = c.u32()
        if tag == 0xFFFFFFFF:
            cls = c.cstring()
            self.classes[p + self.org + 2] = cls
        elif not tag & 0x80000000:
            return self.say("Again", at, of=tag - self.org - 2)
        else:
            cls = self.classes.get(tag & 0x7FFFFFFF)
            if cls is None:
                raise Bad(f"class reference {tag:#x} leads nowhere")
        self.say("Whole", at, end=end, cls=cls)
        if cls.startswith("TLeaf"):
            p = c.p
            c.take(end - p)
            self.say("Leaf", p, cls=cls, leaf=True)
        else:
            self.object(cls, False)
        self.out()


def tell(path, want, maxcols=40):
    ev = []
    try:
        told(path, want, ev, maxcols)
    except Exception as x:
        ev.append(dict(ev="Bad", why=f"{type(x).__name__}: {x}"))
    ev.append(dict(ev="End"))
    return ev


def told(path, want, ev, maxcols):
    f = rootio.File(path)
    ds = descs(f)
    ev.append(dict(ev="Descs", list=ds))
    recs = f.records()
    nth = 0
    for k in recs:
        if k.cls != "TTree":
            continue
        w = want["trees"][nth]
        nth += 1
        if len(w["cols"]) > maxcols:
            continue
        places, seen = [], set()
        for x in recs:
            if x.cls == "TBasket" and x.at < k.at and x.title == w["name"]:
                places.append(dict(at=x.at, name=x.name, nb=x.nbytes, nev=f.basket(x.at)["nevbuf"]))
        ev.append(dict(ev="Tree", org=k.keylen, want=dict(name=w["name"], cols=[dict(name=c["name"], n=c["n"], t=term(c["ty"])) for c in w["cols"]]), places=places))
        data = f.payload(k)
        wk = Walk(data, k.keylen, ds, ev)
        wk.object("TTree", False)
        ev.append(dict(ev="TreeEnd", len=len(data), at=wk.c.p))
        # entries of collection columns
        t = f.tree(k)
        for i, (b, c) in enumerate(zip(t["branches"], w["cols"])):
            if b["class"] != "TBranchElement":
                continue
            d = next((x for x in ds if x["name"] == b["eclass"]), None)
            if d is None or len(d["els"]) != 1 or d["els"][0]["k"] != "stl":
                raise Bad(f"no description of the collection {b['eclass']}")
            fm = FMT[d["els"][0]["code"]]
            got = []
            for at in b["basketseek"][:max(0, b["writebasket"])]:
                q = B(f.basket(at)["data"], 0)
                while q.p < q.end and len(got) < 40:
                    p = q.p
                    v, stop = q.version()
                    m = q.i32()
                    for _ in range(m):
                        q.f(fm)
                    got.append([p, q.p, stop, m])
            ev.append(dict(ev="Coll", col=i + 1, cls=b["eclass"], got=got))
    ev.append(dict(ev="Done", n=nth, want=len(want["trees"])))
