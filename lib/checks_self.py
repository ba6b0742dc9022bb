"""P27: the trees of files the real library closed, read with the class descriptions in the same file."""
import concurrent.futures as cf
import os
from scen import *
from checks_file import programs, wants, setk
from checks_tree import TRUST
import selfdesc

CHECKS, INFO = {}, {}
INFO["P27"] = dict(technique="TLA+ model OxySelf (a reader driven by class descriptions) + validation of real files decoded by the descriptions they carry",
                   note="Every tree of every file is decoded member by member as the file's own class descriptions say; every step, every end of an object and what is found are judged by the trace specification." + TRUST)


def first(kind, f, having="fEntries"):
    """applies f to the first such event, in a trace in which it matters"""
    def g(evs):
        if not any(e["ev"] in ("Basic", "Ptr") and e["n"] == having for e in evs):
            return None
        for e in evs:
            if e["ev"] == kind and f(e) is not False:
                return evs
    return g


def el(cls, n, k, v):
    def f(e):
        for d in e["list"]:
            if d["name"] == cls:
                for x in d["els"]:
                    if x["n"] == n:
                        x[k] = v
                        return None
        return False
    return first("Descs", f, having=n)


def swap(e):
    for d in e["list"]:
        if d["name"] == "TTree":
            i = next(i for i, x in enumerate(d["els"]) if x["n"] == "fEntries")
            d["els"][i], d["els"][i + 1] = d["els"][i + 1], d["els"][i]
            return None
    return False


def again(evs):
    """the tree lists its leaves in another order"""
    at = [i for i, e in enumerate(evs) if e["ev"] == "Again"]
    for i, j in zip(at, at[1:]):
        if j == i + 1 and evs[i]["of"] != evs[j]["of"]:
            evs[i]["of"], evs[j]["of"] = evs[j]["of"], evs[i]["of"]
            return evs
    return None


def p27(c):
    c.build()
    c.model("MCOxySelf", "MCOxySelf", note="all small classes, read by their true description")
    for w, inv in (("swapped", "Right"), ("missing", "Right"), ("wider", "Right"), ("version", "NeverStuck")):
        c.model_fails("MCOxySelf", "MCOxySelf_" + w, inv, f"description {w}")
    keep = c.scratch()
    todo, meta = [], {}
    for s in programs(c):
        for i, w in enumerate(wants(s)):
            p = os.path.join(keep, f"{len(todo)}.{i}.root")
            s["ops"].append(dict(op="copy", **{"from": w["path"], "to": p}))
            meta[f"{s['id']}#{i}"] = (p, w, s)
        todo.append(s)
    c.run(todo, env=dict(OXH_QUIET="1"))
    traces = {}
    parse = {t: m for t, m in meta.items() if os.path.exists(m[0])}
    with cf.ProcessPoolExecutor(8) as ex:
        for t, evs in zip(parse, ex.map(selfdesc.tell, [m[0] for m in parse.values()], [m[1] for m in parse.values()], chunksize=8)):
            traces[t] = [dict(ev="Scenario", id=t)] + evs
    for t in meta:
        if t not in traces:
            traces[t] = [dict(ev="Scenario", id=t), dict(ev="Bad", why="no file")]
    for m in parse.values():
        os.unlink(m[0])
    c.lap(f"decoded {len(traces)} files")
    byid = [dict(id=t, program=m[2]) for t, m in meta.items()]
    c.validate("OxySelfTrace", traces, scens=byid, per=1500, mutants=[
        ("order", first("Descs", swap)), ("kind", el("TTree", "fWeight", "code", 3)), ("version", first("Descs", lambda e: setk(e["list"][0], "ver", 19) if e["list"] else False)),
        ("counter", el("TBranch", "fBasketSeek", "cnt", "fWriteBasket")), ("item", first("Coll", lambda e: False if not e["got"] else e["got"][0].__setitem__(3, 77))),
        ("end", first("In", lambda e: setk(e, "end", e["end"] + 1))), ("entries", first("Basic", lambda e: setk(e, "v", e["v"] + 1) if e["n"] == "fEntries" else False)),
        ("leaf of another", again), ("setting", first("Basic", lambda e: setk(e, "v", 24) if e["n"] == "fScanField" else False)),
        ("place", first("Tree", lambda e: setk(e["places"][0], "nev", 77) if e["places"] else False))])


CHECKS["P27"] = p27
