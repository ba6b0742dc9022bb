"""P21: objects attached to a tree."""
import layout as L
import forge
from scen import *
from checks_tree import TRUST, m_value
from checks_read import OPTIONS, rcut

CHECKS, INFO = {}, {}
INFO["P21"] = dict(technique="TLA+ model OxyInfo (object stream with classes by name or by place, TLC: reading gives what was put) whose lists TLC enumerates; each is forged into a tree and what the real library returns is validated against OxyInfoTrace",
                   note="Every list of up to 2 (thorough: 3) strings and maps of the model with every way of giving classes; longer and nested lists at random." + TRUST)


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


def string(s):
    return dict(k="str", s=s)


def item(x):
    return string(x["s"]) if x["k"] == "str" else dict(k="map", pairs=[dict(key=a, val=string(b)) for a, b in x["pairs"]])


def probes(items):
    """every item, every key and keys that are not there"""
    out = []

    def walk(x, path):
        out.append(path)
        if x["k"] == "list":
            for i, y in enumerate(x["items"]):
                walk(y, path + [{"i": i, "as": y["k"]}])
        if x["k"] == "map":
            for p in x["pairs"]:
                walk(p["val"], path + [{"key": p["key"], "as": p["val"]["k"]}])
            out.append(path + [{"key": "absent", "as": "str"}])
            out.append(path + [{"key": "absent", "as": "map"}])
    walk(dict(k="list", items=items), [])
    return out[1:]


def rand_item(r, depth):
    k = r.choice(["str", "str", "map", "map", "list"]) if depth else "str"
    if k == "str":
        return string(L.rand(r, "String") if r.random() < .9 else "x" * r.choice([254, 255, 256, 5000]))
    n = r.choice([0, 1, 2, 3, 8])
    if k == "list":
        return dict(k="list", items=[rand_item(r, depth - 1) for _ in range(n)], name=r.choice(["", "inner"]))
    keys = []
    while len(keys) < n:
        x = L.rand(r, "String") if r.random() < .5 else r.choice("abc") + str(r.randint(0, 30))
        if x not in keys and x != "absent":
            keys.append(x)
    return dict(k="map", name=r.choice(["", "m"]), pairs=[dict(key=x, val=rand_item(r, depth - 1)) for x in keys])


def shared(r, items):
    """some objects listed again: strings and maps complete before, anywhere in the list"""
    pool, n = [], [0]

    def walk(x, depth):
        if depth and pool and r.random() < .3:
            return r.choice(pool)
        if x["k"] == "list":
            x = dict(x, items=[walk(y, depth + 1) for y in x["items"]])
        elif x["k"] == "map":
            x = dict(x, pairs=[dict(key=p["key"], val=walk(p["val"], depth + 1)) for p in x["pairs"]])
        n[0] += 1
        x = dict(x, ident=f"o{n[0]}")
        pool.append(x)
        return x
    return walk(dict(k="list", items=items), 0)["items"]


def m_none(evs):
    for e in evs:
        if e["ev"] == "UserInfo" and e["hit"]:
            e["hit"] = False
            del e["info"]
            return evs


def m_len(evs):
    for e in evs:
        if e["ev"] == "UserInfo" and e["hit"]:
            e["info"]["len"] += 1
            return evs


def m_text(evs):
    for e in evs:
        if e["ev"] == "UserInfo" and e["hit"]:
            for i, v in enumerate(e["info"]["vals"]):
                if v.startswith("="):
                    e["info"]["vals"][i] = v + "x"
                    return evs


def m_key(evs):
    for e in evs:
        if e["ev"] == "UserInfo" and e["hit"]:
            for i, v in enumerate(e["info"]["vals"]):
                if v == "-":
                    e["info"]["vals"][i] = "="
                    return evs


@check("P21")
def p21(c):
    c.build()
    c.model("OxyInfo", "OxyInfo", note="2 items, classes by place", must=("PutStr", "PutMap", "PutPart", "ReadTag", "ReadText", "ReadCount"))
    c.model("OxyInfo", "OxyInfo_choose", note="2 items, classes by name or by place")
    c.model_fails("OxyInfo", "OxyInfo_origin", "TagsKnown", "places counted from the start of the stream")
    cases = [([item(x) for x in y["items"]], y["refs"]) for y in c.enum("OxyInfo", "OxyInfoGenC") + c.enum("OxyInfo", "OxyInfoGen" if c.quick else "OxyInfoGen_t")]
    c.extra["lists"] = len(cases)
    for q in range(100 if c.quick else 1500):
        cases.append(([rand_item(c.rnd, c.rnd.choice([1, 1, 2, 3])) for _ in range(c.rnd.choice([0, 1, 2, 5, 20]))], None))
    for q in range(60 if c.quick else 600):
        cases.append((shared(c.rnd, [rand_item(c.rnd, c.rnd.choice([0, 1, 2])) for _ in range(c.rnd.choice([2, 3, 6]))]), None))
    cases += [(None, None)] * 12
    c.rnd.shuffle(cases)
    keep = c.scratch()
    scs, heads = [], {}
    per = 30
    for g in range(0, len(cases), per):
        sid = f"info{g}"
        fg = forge.Forge(**OPTIONS[(g // per) % len(OPTIONS)])
        path = f"{keep}/{sid}.root"
        keys = []
        s = S(sid).open("r", path)
        for q, (items, refs) in enumerate(cases[g:g + per]):
            n = c.rnd.choice([0, 3, 7])
            cols = [L.column(k, f"c{i}", c.rnd, rcut(c, n), n) for i, k in enumerate(c.rnd.sample([L.k_scalar("i32"), L.k_scalar("String"), L.k_slice("i16"), L.k_member("f64")], c.rnd.choice([0, 1, 3])))]
            t = dict(name=f"t{q}", entries=n, branches=[b for b, _ in cols])
            key = dict(name=f"t{q}", cycle=1, entries=n, cols=[x for _, x in cols])
            if items is not None:
                t.update(userinfo=items, inforefs=refs, infoname=c.rnd.choice(["", "UserInfo"]))
                key.update(info=items)
            fg.tree_compress = c.rnd.choice([None, None, ["ZL"], ["L4"], ["XZ"]])
            fg.tree(t)
            keys.append(key)
            s.get(f"t{q}", rt=f"x{q}").op("userinfo", rt=f"x{q}", probe=probes(items or []))
            for b, (_, col) in enumerate(cols):
                s.read(b, col["ty"], rt=f"x{q}", it=f"i{q}-{b}")
        with open(path, "wb") as o:
            o.write(fg.finish())
        scs.append(s.d())
        heads[sid] = [dict(ev="File", path=path, keys=keys, unsound=[])]
    # the same object twice
    for sid, items in (("again-top", [dict(k="str", s="one", ident="o"), dict(k="str", s="one", ident="o")]),
                       ("again-value", [dict(k="str", s="one", ident="o"), dict(k="map", pairs=[dict(key="k", val=dict(k="str", s="one", ident="o"))])])):
        fg = forge.Forge()
        fg.tree(dict(name="t", entries=0, branches=[], userinfo=items))
        path = f"{keep}/{sid}.root"
        with open(path, "wb") as o:
            o.write(fg.finish())
        scs.append(S(sid).open("r", path).get("t").op("userinfo", rt="rt", probe=probes(items)).d())
        heads[sid] = [dict(ev="File", path=path, keys=[dict(name="t", cycle=1, entries=0, cols=[], info=items)], unsound=[])]
    # trees of the library's own have none
    for q in range(3):
        scs.append(write_read(f"own{q}", [dict(name="a", ty="i32", n=q)]))
        scs[-1]["ops"].append(dict(op="userinfo", rt="rt", probe=[]))
        heads[f"own{q}"] = []
    r = c.run(scs)
    traces = {s["id"]: r[s["id"]][:1] + heads[s["id"]] + r[s["id"]][1:] for s in scs if s["id"] in r}
    c.validate("OxyInfoTrace", traces, env=dict(FOCUS="common"), scens=scs,
               mutants=[("none", m_none), ("length", m_len), ("text", m_text), ("key", m_key), ("value", m_value)])
