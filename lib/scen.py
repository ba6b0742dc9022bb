"""Small builders for scenario programs."""

NUM = ["i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "f32", "f64"]
SCALARS = NUM + ["bool"]
WTYPES = SCALARS + ["String"] + [f"Vec<{t}>" for t in NUM] + \
    [f"[{t};{n}]" for t in NUM for n in (1, 3, 10)] + ["[bool;3]", "[i16;17]"]
RAW = {"[u8;4000]": "struct:u8*4000", "[f64;5000]": "struct:f64*5000", "[u32;257]": "struct:u32*257"}
WIDTH = dict(i8=1, u8=1, bool=1, i16=2, u16=2, i32=4, u32=4, i64=8, u64=8, f32=4, f64=8)


def width(ty):
    if ty.startswith("["):
        t, n = ty[1:-1].split(";")
        return WIDTH[t] * int(n)
    return WIDTH.get(ty)


class S:
    def __init__(self, sid):
        self.id = sid
        self.ops = []

    def op(self, op, **kw):
        self.ops.append(dict(op=op, **kw))
        return self

    def d(self):
        return dict(id=self.id, ops=self.ops)

    # writing
    def create(self, f="w", path="$D/a.root", **kw):
        return self.op("create", f=f, path=path, **kw)

    def tree(self, t="t", name="t", **kw):
        return self.op("tree", t=t, name=name, **kw)

    def branch(self, t, name, ty, n=None, **kw):
        kw = {k: v for k, v in kw.items() if v is not None}
        return self.op("branch", t=t, name=name, ty=ty, **({} if n is None else dict(n=n)), **kw)

    def write(self, t="t", f="w"):
        return self.op("write", t=t, f=f)

    def close(self, f="w", drop=True):
        self.op("close", f=f)
        return self.op("drop", f=f) if drop else self

    # reading
    def open(self, f="r", path="$D/a.root"):
        return self.op("open", f=f, path=path)

    def get(self, name="t", f="r", rt="rt", **kw):
        return self.op("get", f=f, name=name, rt=rt, **kw)

    def read(self, bi, ty, blk=1, rt="rt", it=None, n=10 ** 12):
        it = it or f"i{bi}"
        if ty in RAW:
            self.op("iter", rt=rt, bi=bi, ty=RAW[ty], it=it, tag=dict(raw=True))
        else:
            self.op("iter", rt=rt, bi=bi, ty=ty, it=it)
        return self.op("next", it=it, n=n, blk=blk)


def write_read(sid, cols, name="t", path="$D/a.root", keep_open=False, cbs=0):
    """cols: list of dict(name, ty, n, seed.., blk): write one tree, close, read everything back"""
    s = S(sid).create(path=path).tree(name=name)
    for c in cols:
        c = dict(c)
        s.branch("t", c.pop("name"), c.pop("ty"), **c)
    for k in range(cbs):
        s.op("cb", t="t", id=k + 1)
    s.write().close(drop=not keep_open).open(path=path).op("keys", f="r").get(name)
    for i, c in enumerate(cols):
        s.read(i, c["ty"], c.get("blk", 1))
    return s.d()
