"""P09 P10 P24: files whose writer is interrupted, refused or that lose their end, against OxyDurable."""
import os
from scen import *
from checks_tree import sd, TRUST, m_value, m_lost, boundary_counts

CHECKS, INFO = {}, {}
INFO["P09"] = dict(technique="TLA+ model OxyDurable (buffer, faults, flush) + trace validation of real executions with injected write faults",
                   note="Every tracked write of each program is refused, interrupted or shortened in turn in the real process; if no call reports it, everything must be readable at once, in the same process, by another one, and after the process is killed." + TRUST + " The injection replaces write/pwrite/writev of the driver's own process for paths in its scratch directory.")
INFO["P10"] = dict(technique="TLA+ model OxyDurable (crash at every write, whole or torn) + trace validation of real left-over files",
                   note="The real writer is ended at every write it makes, having done none, part or nearly all of it; what opening the left-over shows must be allowed by the machine." + TRUST + " Process end only: reordering of writes by a power failure is not modelled.")
INFO["P24"] = dict(technique="TLA+ model OxyDurable (Cut) + trace validation of every shortening of real files",
                   note="Closed files are cut at every length (small files) or at every record boundary and sampled lengths (larger and foreign ones), and opened and read." + TRUST)


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


def design(c):
    if c.quick:
        c.model("OxyDurable", "OxyDurable_q", note="2 trees, 1 basket each, 1 fault", must=("Partly", "Refuse", "Die", "Cut", "Flushed"))
    else:
        c.model("OxyDurable", "OxyDurable", note="3 trees, 2 baskets each, 2 faults, 3 writes buffered", must=("Partly", "Refuse", "Die", "Cut", "Flushed"))
    c.model_fails("OxyDurable", "OxyDurable_noflush", "CloseMeansComplete", "close without flush")
    c.model_fails("OxyDurable", "OxyDurable_dirfirst", "CrashSafe", "directory pointed to the key list before it is there")


def programs(c, more):
    """(name, trees): trees = list of (name, bad, cols)"""
    def cols(k, big=False):
        out = []
        for i in range(k):
            ty = c.rnd.choice(WTYPES)
            out.append(dict(name=f"c{i}", ty=ty, n=c.rnd.choice([0, 1, 2, 5]), seed=sd(c), blk=1))
        if big:
            out.append(dict(name="big", ty="f64", n=4096 + c.rnd.randint(0, 9000), seed=sd(c), blk=5000))
        return out
    P = [("empty", []),
         ("one", [("t", False, cols(2))]),
         ("two", [("t", False, cols(1, True)), ("u", False, cols(2))]),
         ("again", [("t", False, cols(1)), ("t", False, cols(1))]),
         ("refused", [("t", False, cols(1)), ("a/b", True, cols(1, True)), ("u", False, cols(1))]),
         ("hollow", [("t", False, []), ("u", False, [dict(name="z", ty="i32", n=0, seed=1, blk=1)])]),
         ("text", [("t", False, [dict(name="s", ty="String", n=6, seed=sd(c), lens=[9000, 300, 0], blk=1),
                                 dict(name="v", ty="Vec<f64>", n=5, seed=sd(c), lens=[0, 2000], blk=1)])])]
    if more:
        for k in range(14):
            P.append((f"rand{k}", [(c.rnd.choice(["a", "b", "c"]), False, cols(c.rnd.randint(0, 5), c.rnd.random() < .3)) for _ in range(c.rnd.randint(1, 5))]))
        P.append(("many", [(f"n{i}", False, cols(1)) for i in range(12)]))
    return P


def prog(s, trees, path, drop=True, close=True):
    s.create("w", path)
    for i, (nm, bad, cols) in enumerate(trees):
        s.tree(f"t{i}", nm, tag=dict(bad=bad))
        for x in cols:
            x = dict(x)
            s.branch(f"t{i}", x.pop("name"), x.pop("ty"), x.pop("n"), **x)
        s.write(f"t{i}")
    if close:
        s.close(drop=drop)
    return s


def back(s, trees, path, f="r", pre="", iff=True):
    """reading everything, newest generation of each name"""
    kw = dict(iff=f) if iff else {}
    s.open(f, path).op("keys", f=f, **kw)
    last = {nm: cols for nm, bad, cols in trees if not bad}
    for k, (nm, cols) in enumerate(last.items()):
        rt = f"{pre}{f}x{k}"
        s.op("get", f=f, name=nm, rt=rt, **kw)
        # an interrupted file may show an older generation: its columns decide what can be read
        alts = [cc for n2, bad, cc in trees if n2 == nm and not bad]
        if len(alts) == 1:
            for i, x in enumerate(cols):
                s.op("iter", rt=rt, bi=i, ty=x["ty"], it=f"{rt}i{i}", **kw)
                s.op("next", it=f"{rt}i{i}", n=10 ** 12, blk=x["blk"], **kw)
        else:
            for i, x in enumerate(cols):
                s.op("iter", rt=rt, bi=i, ty=x["ty"], it=f"{rt}i{i}", **kw)
                s.op("next", it=f"{rt}i{i}", n=10 ** 12, blk=x["blk"], **kw)
    return s.op("drop", f=f)


def count_writes(c, progs):
    keep = c.scratch()
    sc = []
    for nm, trees in progs:
        s = S(f"count-{nm}").op("sys", prefix=keep, on=True)
        prog(s, trees, f"{keep}/{nm}.root").op("syslog")
        sc.append(s.d())
    r = c.run(sc)
    out = {}
    for nm, _ in progs:
        logs = [e for e in r[f"count-{nm}"] if e["ev"] == "SysLog"]
        if not logs:       # the program itself already fails: nothing to interrupt, the trace tells
            out[nm] = []
            continue
        out[nm] = logs[0]["writes"]
    return out


def judge(c, traces, scens, mutants):
    return c.validate("OxyDurableTrace", traces, env=dict(FOCUS="common"), scens=scens, mutants=mutants, per=3000)


def m_noopen(evs):
    """an undamaged file is refused"""
    if any(e["ev"] in ("Aborted", "Truncate", "Arm") for e in evs):
        return None
    for e in evs:
        if e["ev"] == "Open" and e["res"] == "ok":
            e["res"] = "err"
            return evs


def m_less(evs):
    """a damaged file that opens gives fewer values"""
    for i, e in enumerate(evs):
        if e["ev"] == "NextEnd" and evs[i - 1]["ev"] == "Next":
            del evs[i - 1]
            return evs


def m_extra(evs):
    """a damaged file shows a tree that had not been written"""
    dead = False
    for e in evs:
        dead = dead or e["ev"] in ("Aborted", "Truncate")
        if dead and e["ev"] == "Keys" and e.get("res") == "ok":
            e["names"] = e["names"] + ["phantom"]
            return evs


def m_silent(evs):
    """a refused write is not reported, and the file does not open"""
    if not any(e["ev"] == "Arm" for e in evs):
        return None
    for i, e in enumerate(evs):
        if e["ev"] == "Close" and e["res"] in ("err", "panic"):
            e["res"] = "ok"
            evs.insert(i + 1, dict(ev="Open", f="r", path=[x for x in evs if x["ev"] == "Create"][0]["path"], res="err", why=""))
            return evs


# ----------------------------------------------------------------------------- P09
@check("P09")
def p09(c):
    c.build()
    design(c)
    progs = programs(c, not c.quick)
    writes = count_writes(c, progs)
    keep = c.scratch()
    first, second = [], []

    def pair(sid, trees, sys, kill):
        p = f"{keep}/{sid}.root"
        s = S(sid)
        if sys:
            s.op("sys", prefix=keep, on=True, **sys)
        prog(s, trees, p, drop=False)
        if sys:
            s.op("syslog")
        if kill:
            s.op("exit")
        else:
            back(s, trees, p, "r0")
            s.op("sys", on=False)
            s.op("drop", f="w")
        first.append(s.d())
        second.append(back(S(sid), trees, p, "r1").d())

    for nm, trees in progs:
        pair(f"{nm}-plain", trees, None, False)
        pair(f"{nm}-kill", trees, None, True)
        n = len(writes[nm])
        for sh in (1, 7, 100, 4096):
            if sh > 1 or nm in ("empty", "one"):
                pair(f"{nm}-short{sh}", trees, dict(short=sh), sh == 7)
        at = range(n) if n <= 60 or not c.quick else sorted(c.rnd.sample(range(n), 60))
        for k in at:
            for err, more in ((28, 0), (28, 10 ** 9), (5, 0), (4, 0), (4, 2)) if not c.quick else ((28, 0), (28, 10 ** 9), (4, 1)):
                pair(f"{nm}-{k}-{err}-{more}", trees, dict(fail_at=k, fail_more=more, errno=err), c.rnd.random() < .3)
    r1, r2 = c.run(first), c.run(second)
    traces = {}
    rep = 0
    for s in first:
        sid = s["id"]
        if sid not in r1:
            continue
        a = r1[sid]
        # what a reported failure leaves behind is not this property's concern
        reported = any(e["ev"] in ("Create", "WriteEnd", "Close") and e.get("res") in ("err", "panic") for e in a) and any(e["ev"] == "Arm" for e in a)
        rep += reported
        end = [e for e in a if e["ev"] == "End"]
        traces[sid] = [e for e in a if e["ev"] != "End"] + ([] if reported else [e for e in r2.get(sid, []) if e["ev"] != "Scenario"])
    c.extra["fault_positions"] = sum(len(w) for w in writes.values())
    c.extra["reported_by_the_program"] = rep
    judge(c, traces, first, [("value", m_value), ("lost", m_lost), ("noopen", m_noopen), ("silent", m_silent)])


# ----------------------------------------------------------------------------- P10
@check("P10")
def p10(c):
    c.build()
    design(c)
    progs = programs(c, not c.quick)
    writes = count_writes(c, progs)
    keep = c.scratch()
    first, second = [], []
    for nm, trees in progs:
        for k in range(len(writes[nm])):
            ln = writes[nm][k][1]
            parts = {0, 500, 999} if c.quick else {0, 1, 20, 100, 250, 400, 500, 600, 750, 900, 999}
            # pointers and header: byte by byte
            if ln <= 100 and (not c.quick or k < 4 or k > len(writes[nm]) - 8):
                parts |= {min(999, (1000 * b + ln - 1) // ln) for b in (range(ln) if not c.quick else range(0, ln, 3))}
            if ln < 3:
                parts = {0}
            for part in sorted(parts):
                sid = f"{nm}-{k}-{part}"
                p = f"{keep}/{sid}.root"
                s = S(sid).op("sys", prefix=keep, on=True, crash_at=k, crash_part=part)
                first.append(prog(s, trees, p).d())
                second.append(back(S(sid), trees, p, "r1").d())
        # stopped between calls: the file handle is never closed
        for k in range(len(trees) + 1):
            for how in ("exit", "drop", "keep"):
                sid = f"{nm}-between{k}-{how}"
                p = f"{keep}/{sid}.root"
                s = prog(S(sid), trees[:k], p, close=False)
                s.op("exit") if how == "exit" else s.op("drop", f="w") if how == "drop" else None
                first.append(s.d())
                second.append(back(S(sid), trees, p, "r1").d())
    r1, r2 = c.run(first), c.run(second)
    traces, opened = {}, 0
    for s in first:
        sid = s["id"]
        if sid not in r1:
            continue
        a = [e for e in r1[sid] if e["ev"] != "End"]
        if a[-1]["ev"] != "Aborted":       # handle dropped or forgotten: the process ends after the scenario
            a.append(dict(ev="Aborted", code=137, why="end of the program"))
        b = [e for e in r2.get(sid, []) if e["ev"] != "Scenario"]
        opened += any(e["ev"] == "Open" and e["res"] == "ok" for e in b)
        traces[sid] = a + b
    c.extra["crash_points"] = len(traces)
    c.extra["left_over_files_that_open"] = opened
    judge(c, traces, first, [("value", m_value), ("less", m_less), ("extra", m_extra)])


# ----------------------------------------------------------------------------- P24
SAMPLES = ["oxyroot/examples/from_uproot/data/simple.root", "oxyroot/examples/from_uproot/data/tree_with_jagged_array.root",
           "oxyroot/tests/7_userinfo/tree_with_user_info_with_map.root",
           "oxyroot/tests_data/from_uproot/sample-6.10.05-uncompressed.root", "oxyroot/tests_data/from_uproot/sample-6.10.05-zlib.root"]


def foreign(c):
    """sample files of other writers with what a whole reading of them gives: [(path, keys event, ops)]"""
    import rootio
    out, scs = [], []
    for rel in SAMPLES:
        p = os.path.join("/repo", rel)
        if not os.path.exists(p):
            continue
        try:
            f = rootio.File(p)
            names = [k.name for k in f.keys()[1] if k.cls in ("TTree", "TNtuple")]
        except Exception:
            continue
        s = S(rel).open("r", p).op("keys", f="r")
        for i, nm in enumerate(dict.fromkeys(names)):
            s.get(nm, rt=f"x{i}")
        scs.append(s.d())
        out.append((rel, p, list(dict.fromkeys(names))))
    r = c.run(scs)
    scs2, cols = [], {}
    RT = {"int32_t": "i32", "uint32_t": "u32", "float": "f32", "double": "f64", "int64_t": "i64", "uint64_t": "u64", "int16_t": "i16",
          "uint16_t": "u16", "int8_t": "i8", "uint8_t": "u8", "bool": "bool", "char*": "String", "string": "String"}
    for rel, p, names in out:
        gets = [e for e in r[rel] if e["ev"] == "Get" and e["res"] == "ok"]
        s = S(rel).open("r", p)
        cols[rel] = []
        for i, nm in enumerate(names):
            s.get(nm, rt=f"x{i}")
            g = [e for e in gets if e["name"] == nm]
            for j, b in enumerate(g[0]["branches"] if g else []):
                ty = RT.get(b["ty"])
                if ty:
                    s.read(j, ty, 25, rt=f"x{i}", it=f"x{i}i{j}")
                    cols[rel].append((i, j, ty))
        scs2.append(s.d())
    r2 = c.run(scs2)
    res = []
    for rel, p, names in out:
        evs = r2[rel]
        keys = []
        kk = [e for e in r[rel] if e["ev"] == "Keys"]
        if not kk or kk[0]["res"] != "ok" or any("Panic" in e["ev"] for e in evs) or [k for k in kk[0]["names"]] != names:
            continue
        gets = [e for e in evs if e["ev"] == "Get"]
        for i, nm in enumerate(names):
            cs = []
            for j, b in enumerate(gets[i]["branches"]):
                ty = next((t for a, bb, t in cols[rel] if (a, bb) == (i, j)), "?")
                data = [dict(n=e["n"], tok=e["tok"]) for e in evs if e["ev"] == "Next" and e["it"] == f"x{i}i{j}"]
                cs.append(dict(name=b["name"], ty=ty, data=data))
            keys.append(dict(name=nm, cycle=1, entries=gets[i]["entries"], cols=cs))
        res.append((rel, p, keys))
    return res


@check("P24")
def p24(c):
    c.build()
    design(c)
    import rootio
    keep = c.scratch()
    progs = programs(c, not c.quick)
    # 1. what the library writes
    mk = [prog(S(nm), trees, f"{keep}/{nm}.root").d() for nm, trees in progs]
    r1 = c.run(mk)
    traces, scs = {}, []
    jobs = []
    for nm, trees in progs:
        p = f"{keep}/{nm}.root"
        if not os.path.exists(p) or any(e["ev"] == "Panic" for e in r1[nm]):
            traces[nm] = r1[nm]
            continue
        jobs.append((nm, p, [e for e in r1[nm] if e["ev"] not in ("Scenario", "End")], lambda s, q, f, pre, trees=trees: back(s, trees, q, f, pre)))
    for rel, p, keys in foreign(c):
        def rd(s, q, f, pre, keys=keys):
            s.open(f, q).op("keys", f=f, iff=f)
            for i, k in enumerate(keys):
                s.op("get", f=f, name=k["name"], rt=f"{pre}x{i}", iff=f)
                for j, col in enumerate(k["cols"]):
                    if col["ty"] != "?":
                        s.op("iter", rt=f"{pre}x{i}", bi=j, ty=col["ty"], it=f"{pre}x{i}i{j}", iff=f)
                        s.op("next", it=f"{pre}x{i}i{j}", n=10 ** 12, blk=25, iff=f)
            return s.op("drop", f=f)
        jobs.append((rel.replace("/", "_"), p, [dict(ev="File", path=p, keys=keys)], rd))
    cuts = 0
    heads = {}
    for nm, p, head, rd in jobs:
        size = os.path.getsize(p)
        limit = 100000 if not c.quick else 20000 if nm in ("one", SAMPLES[0].replace("/", "_")) else 0
        lens = set(range(max(0, size - 40), size)) | set(range(min(size, 110)))
        try:
            for rec in rootio.File(p).records():
                for d in (-1, 0, 1, 4, rec.keylen, rec.keylen + 1):
                    lens.add(rec.at + d)
        except Exception:
            pass
        if size <= limit:
            lens |= set(range(size))
        else:
            lens |= set(c.rnd.sample(range(size), 150 if c.quick else 3000))
        lens = sorted((x for x in lens if 0 <= x < size), reverse=True)
        cuts += len(lens)
        # several processes, each with its own copy
        for part in range(0, len(lens), 400):
            sid = f"{nm}-cut{part}"
            q = f"{keep}/{sid}.copy"
            s = S(sid).op("copy", **{"from": p, "to": q})
            if part == 0:
                rd(s, q, "r", "w")
            for L in lens[part:part + 400]:
                s.op("truncate", path=q, len=L)
                rd(s, q, "r", f"c{L}")
            scs.append(s.d())
            heads[sid] = head
        # cut while it is being read: what was opened before goes on, exactly or with an error
        late = [x for x in lens if x > 200]
        for k, L in enumerate(c.rnd.sample(late, min(len(late), 12 if c.quick else 120))):
            sid = f"{nm}-late{k}"
            q = f"{keep}/{sid}.copy"
            s = S(sid).op("copy", **{"from": p, "to": q})
            n0 = len(s.ops)
            rd(s, q, "r", "a")
            ops, s.ops[n0:] = s.ops[n0:], []
            s.ops += [o for o in ops if o["op"] in ("open", "keys", "get")]
            its = [o for o in ops if o["op"] == "iter"]
            blk = {o["it"]: o.get("blk", 1) for o in ops if o["op"] == "next"}
            for o in its:
                if c.rnd.random() < .5:
                    s.ops += [o] + ([dict(op="next", it=o["it"], n=blk[o["it"]] * c.rnd.choice([1, 2, 30]), blk=blk[o["it"]], iff=o["iff"])] if c.rnd.random() < .7 else [])
            s.op("truncate", path=q, len=L)
            begun = {o["it"] for o in s.ops if o["op"] == "iter"}
            for o in ops:
                if o["op"] == "iter" and o["it"] not in begun or o["op"] in ("next", "drop"):
                    s.ops.append(o)
            rd(s, q, "r", "b")
            for o in s.ops:
                if o["op"] == "next":
                    o["whole"] = True
            scs.append(s.d())
            heads[sid] = head
            cuts += 1
    r2 = c.run(scs)
    for s in scs:
        ev = r2.get(s["id"])
        if ev:
            traces[s["id"]] = ev[:1] + heads[s["id"]] + ev[1:]
    c.extra["cuts"] = cuts
    c.extra["cut_files_that_open"] = sum(1 for t in traces.values() for i, e in enumerate(t) if e["ev"] == "Open" and e["res"] == "ok" and i and t[i - 1]["ev"] == "Truncate")
    judge(c, traces, scs, [("value", m_value), ("less", m_less), ("extra", m_extra)])
