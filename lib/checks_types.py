"""P23: names of types."""
import layout as L
import forge
from scen import *
from checks_tree import TRUST, m_value, m_lost
from checks_read import OPTIONS

CHECKS, INFO = {}, {}
INFO["P23"] = dict(technique="TLA+ models OxyTypes (grammar of type names and the reader that normalises them) and OxyDims (dimensions of arrays): TLC checks the reader finds the type, and prints the names; each is forged as a column and what the real library calls it is validated against OxyTypesTrace",
                   note="Every spelling of every basic type alone and in one collection, every nesting of two collections over a few spellings, deeper ones at random; every leaf kind with up to 3 dimensions." + TRUST)


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


def leaf_kind(x, i):
    """a column of a leaf kind and dimensions, without entries"""
    k, dims = x["kind"], x["dims"]
    n = 1
    for d in dims:
        n *= d or 1
    cnt = iter(("n", "count", "m_"))
    name = f"x{i}" + "".join(f"[{d or 'k'}]" for d in x["own"])
    title = name + "".join(f"[{d or next(cnt)}]" for d in dims)
    lf = dict(cls=k["leaf"], name=name, title=title, len=n, unsigned=bool(k["u"]))
    if k["leaf"] == "TLeafElement":
        lt = k["lt"] + (0 if not dims else 40 if 0 in dims and len(dims) == 1 else 20)
        lf.update(etype=0, ltype=lt)
        return dict(name=name, cls="TBranchElement", title=title, leaves=[lf], parts=[], var=0 in dims, eclass="Thing", stype=lt, btype=0)
    lf.update(etype=dict(B=1, S=2, I=4, L=8, F=4, D=8, O=1)[k["leaf"][5]])
    return dict(name=name, cls="TBranch", title=title, leaves=[lf], parts=[], var=0 in dims)


def m_type(evs):
    for e in evs:
        if e["ev"] == "Get" and e.get("branches"):
            e["branches"][-1]["ty"] += "_"
            return evs


def m_interp(evs):
    for e in evs:
        if e["ev"] == "AllBranches" and e.get("branches"):
            e["branches"][0]["interp"] = "i1"
            return evs


@check("P23")
def p23(c):
    c.build()
    c.model("OxyTypes", "OxyTypes", note="every spelling, one level of collections", must=("Basic", "Open", "PutSign", "Collect", "Word", "Done"))
    c.model("OxyTypes", "OxyTypes_deep", note="two levels of collections")
    c.model_fails("OxyTypes", "OxyTypes_single", "FindsType", "words of one type named one by one")
    c.model_fails("OxyTypes", "OxyTypes_inside", "FindsType", "names replaced inside the names of classes")
    c.model("OxyDims", "OxyDims", note="up to 3 dimensions", must=("TakeFixed", "TakeCounted", "Entry"))
    c.model_fails("OxyDims", "OxyDims_first", "NumberIsEntry", "only the first dimension counts")
    c.model_fails("OxyDims", "OxyDims_last", "NumberIsEntry", "only the last dimension counts")
    c.model_fails("OxyDims", "OxyDims_named", "NumberIsEntry", "brackets in the name taken for dimensions")
    names = c.enum("OxyTypes", "OxyTypesGen1") + c.enum("OxyTypes", "OxyTypesGen2")
    if not c.quick:
        names += c.enum("OxyTypes", "OxyTypesGen_t")
    names += c.gen("OxyTypes", "OxyTypesGenR", 600 if c.quick else 20000, 60)
    dims = c.enum("OxyDims", "OxyDimsGen" if c.quick else "OxyDimsGen_t")
    c.extra["type_names"], c.extra["array_titles"] = len(names), len(dims)
    c.rnd.shuffle(names)
    c.rnd.shuffle(dims)
    # what the driver can read a column as
    by = {}
    for t in L.STL + [L.STR]:
        by.setdefault(L.rust(t), []).append(t)
    keep = c.scratch()
    jobs = []
    for x in names:
        readable = by.get(x["rust"].replace("TString", "String"))
        # a string of either kind is read the same; inside a map or vector they are laid out differently
        readable = [t for t in readable or [] if (t[0] == "str" and x["rust"] == "String") or ("TString" in x["rust"]) == ("tstr" in str(t))]
        if readable and t_ok(x, readable[0]):
            jobs.append(("read", x, readable[0]))
        else:
            jobs.append(("name", x, None))
    for x in dims:
        jobs.append(("leaf", x, None))
    scs, heads, per = [], {}, 40
    jobs.sort(key=lambda j: j[0] == "read")
    c.extra["read_back"] = sum(j[0] == "read" for j in jobs)
    g = 0
    while jobs:
        grp, kind = [], jobs[0][0] == "read"
        while jobs and len(grp) < per and (jobs[0][0] == "read") == kind:
            grp.append(jobs.pop(0))
        sid = f"types{g}"
        fg = forge.Forge(**OPTIONS[g % len(OPTIONS)])
        path = f"{keep}/{sid}.root"
        n = c.rnd.choice([1, 2, 4]) if kind else 0
        brs, cols = [], []
        s = S(sid).open("r", path).get("t").op("all_branches", rt="rt", types=True)
        for i, (how, x, t) in enumerate(grp):
            if how == "leaf":
                br = leaf_kind(x, i)
                cols.append(dict(name=br["name"], ty=x["rust"], data=[], canon=x["canon"], rust=x["rust"]))
            else:
                k = L.k_stl(t or L.STR)
                br, col = L.column(k, f"c{i}", c.rnd, dict(cuts=[n] if n else [], emb=-1), n)
                br["eclass"] = x["text"]
                col.update(canon=x["canon"], rust=x["rust"])
                cols.append(col)
                if how == "read":
                    s.read(i, col["ty"], rt="rt", it=f"i{i}")
            brs.append(br)
        fg.tree(dict(name="t", entries=n, branches=brs))
        with open(path, "wb") as o:
            o.write(fg.finish())
        scs.append(s.d())
        heads[sid] = [dict(ev="File", path=path, keys=[dict(name="t", cycle=1, entries=n, cols=cols)], unsound=[])]
        g += 1
    # trees of the library's own
    own = L.SCALAR + ["String"] + [f"Vec<{t}>" for t in L.NUM] + [f"[{t};{n}]" for t in L.NUM for n in (1, 3, 10)] + ["[bool;3]", "[i16;17]"]
    for n in (0, 3):
        s = S(f"own{n}").create().tree()
        for i, ty in enumerate(own):
            s.branch("t", f"c{i}", ty, n)
        s.write().close()
        s.open().get("t").op("all_branches", rt="rt", types=True)
        scs.append(s.d())
        heads[f"own{n}"] = []
    r = c.run(scs)
    traces = {s["id"]: r[s["id"]][:1] + heads[s["id"]] + r[s["id"]][1:] for s in scs if s["id"] in r}
    c.validate("OxyTypesTrace", traces, env=dict(FOCUS="common"), scens=scs, mutants=[("type", m_type), ("interp", m_interp), ("value", m_value), ("lost", m_lost)])


def t_ok(x, t):
    """the layout of the entries is that of the first spelling of the term; strings inside keep theirs"""
    return ("TString" in x["rust"]) == ("tstr" in str(t)) and not ("TString" in x["rust"] and "String" in x["rust"].replace("TString", ""))
