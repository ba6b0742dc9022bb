#!/usr/bin/env python3
"""Writes harness/src/shapes.rs and lib/shapes.json: a Rust struct for every struct shape the models
OxyRows (rows written and read) and OxyNames (rows read, with attributes) enumerate, and a few more.
The checks compare shapes.json with what TLC enumerates, so the two cannot drift apart."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.path.insert(0, V + "/lib"); sys.dont_write_bytecode = True
import core

TYPES = ["i32", "String", "f64", "u8", "[i16;3]", "Vec<i32>", "bool", "i64", "u16", "Vec<f64>", "f32", "i8", "[f32;10]", "u64", "Vec<u8>", "i16", "u32"]


def fld(id, ty="", sub=None, ren="", pre="", abs="", slic=False):
    return dict(id=id, ren=ren, pre=pre, abs=abs, ty=ty, sub=[sub] if sub else [], **(dict(slic=True) if slic else {}))


def st(fields, pre=""):
    return dict(pre=pre, fields=fields)


def rows_shapes(cases):
    """descriptor of every nesting: fields named by position, types in turn"""
    out = {}
    for i, c in enumerate(sorted(cases, key=json.dumps)):
        n = [i * 3]
        share = {}

        def build(S):
            if i % 2 and json.dumps(S) in share:        # the same struct again
                return share[json.dumps(S)]
            fs = []
            for j, s in enumerate(S):
                if s == []:
                    fs.append(fld("abc"[j], TYPES[n[0] % len(TYPES)]))
                    n[0] += 7
                else:
                    fs.append(fld("abc"[j], sub=build(s)))
            r = st(fs)
            share[json.dumps(S)] = r
            return r
        out[f"W{i}"] = build(c)
    return out


def more_rows():
    flat = st([fld("abcdefghijklmnopq"[j], t) for j, t in enumerate(TYPES)])
    deep = st([fld("v", "u8")])
    for k in range(6):
        deep = st([fld("d", sub=deep), fld("v", "i32")] if k % 2 else [fld("v", "String"), fld("d", sub=deep)])
    wide = st([fld(x, sub=st([fld("a", t), fld("b", "String"), fld("c", u)])) for x, t, u in (("p", "i32", "Vec<i32>"), ("q", "f64", "[i16;3]"), ("r", "u8", "bool"), ("s", "i64", "Vec<u8>"))])
    under = st([fld("a", "i32"), fld("a_b", "i32"), fld("a_", sub=st([fld("b", "i32"), fld("_b", "i32")])), fld("ab", sub=st([fld("a", "i32"), fld("a_b", sub=st([fld("a", "i32")]))]))])
    return dict(X0=flat, X1=st([fld("l", "String"), fld("m", "Vec<u8>")]), X2=deep, X3=wide, X4=under)


def slices():
    pt = st([fld("x", "Slice<i32>"), fld("y", "Slice<f64>")])
    p3 = st([fld("x", "Slice<u8>"), fld("y", "Slice<bool>", ren="yy"), fld("z", "Slice<i64>")], pre="p_")
    pa = st([fld("x", "Slice<i16>", abs="ax"), fld("y", "Slice<i16>", pre="l_")])
    def v(id, s, **k): return fld(id, sub=s, slic=True, **k)
    return dict(S0=st([v("pts", pt)]), S1=st([fld("n", "i32"), v("pts", p3), fld("z", "String")]), S2=st([v("a", pt), v("b", pt), fld("z", "i32")]),
                S3=st([fld("part", sub=st([v("pts", pt), fld("k", "i32")], pre="g_")), fld("z", "f64")]),
                S4=st([v("pts", pa, ren="q"), fld("x", "Slice<i32>")]), S5=st([v("pts", p3, abs="abs", pre="u_")]), S6=st([v("pts", pt, pre="u_")], pre="g_"),
                S7=st([v("p", st([fld("x", "Slice<f32>")]))]))


def rust(shapes):
    out = ["//! GENERATED by tools/gen_shapes.py", "use crate::rows::*;", "use crate::val::{Gen, GenV};",
           "use oxyroot::{ReadFromTree, ReaderTree, Slice, WriteToTree, WriterTree};", "use serde_json::Value;", ""]
    known = {}

    def emit(name, d, writes, sliced=False):
        key = json.dumps([d, writes, sliced])
        if name is None:
            if key in known:
                return known[key]
            name = f"P{len(known)}"
            known[key] = name
        tys = []
        for f in d["fields"]:
            if f["sub"]:
                t = emit(None, f["sub"][0], writes, f.get("slic", False))
                tys.append(f"Vec<{t}>" if f.get("slic") else t)
            elif sliced:
                tys.append(f["ty"][6:-1])
            else:
                tys.append(f["ty"])
        a = []
        if d["pre"]: a.append(f'branch_prefix = "{d["pre"]}"')
        if sliced: a.append("slicable")
        out.append(f"#[derive({'Clone, Copy, ' if sliced else ''}ReadFromTree{', WriteToTree' if writes else ''})]")
        if a: out.append(f"#[oxyroot({', '.join(a)})]")
        out.append(f"pub struct {name} {{")
        for f, t in zip(d["fields"], tys):
            for k, n in (("ren", "rename"), ("pre", "branch_prefix"), ("abs", "absolute_name")):
                if f[k]: out.append(f'    #[oxyroot({n} = "{f[k]}")]')
            if f.get("slic"): out.append(f'    #[oxyroot(slicable = "{t[4:-1]}")]')
            out.append(f"    pub {f['id']}: {t},")
        out.append("}")
        ids = [f["id"] for f in d["fields"]]
        if sliced:
            out.append(f"impl RowSlice for {name} {{ fn toks(v: &[Self], out: &mut Vec<String>) {{ {' '.join(f'col(v.iter().map(|p| p.{i}), out);' for i in ids)} }} }}")
        else:
            out.append(f"impl Row for {name} {{ fn toks(&self, out: &mut Vec<String>) {{ {' '.join(f'self.{i}.toks(out);' if not f.get('slic') else f'RowSlice::toks(&self.{i}, out);' for i, f in zip(ids, d['fields']))} }} }}")
        if writes:
            out.append(f"impl GenV for {name} {{ fn gen(g: &Gen, i: u64) -> Self {{ {name} {{ {', '.join(f'{x}: GenV::gen(&sub(g, {k}), i)' for k, x in enumerate(ids))} }} }} }}")
        return name
    for n, d in shapes.items():
        emit(n, d["d"], d["w"])
    out.append("pub fn write(t: &mut WriterTree, shape: &str, g: &Gen, n: u64) -> Result<Vec<Value>, String> {\n    match shape {")
    out += [f'        "{n}" => w::<{n}>(t, g, n),' for n, d in shapes.items() if d["w"]]
    out.append('        o => panic!("harness: unknown shape {o}"),\n    }\n}')
    out.append("pub fn read(t: &'static ReaderTree, shape: &str, max: u64) -> Result<Vec<Value>, String> {\n    match shape {")
    out += [f'        "{n}" => r::<{n}>(t, max),' for n in shapes]
    out.append('        o => panic!("harness: unknown shape {o}"),\n    }\n}')
    return "\n".join(out) + "\n"


def main():
    c = core.Check("shapes", "quick")
    try:
        rows = [x["shape"] for x in c.enum("OxyRows", "OxyRowsGen")]
        names = c.enum("OxyNames", "OxyNames")
    finally:
        c.cleanup()
    shapes = {n: dict(w=True, d=d) for n, d in {**rows_shapes(rows), **more_rows()}.items()}
    for pre, lists in (("N", False), ("V", True)):      # V: with a list of parts
        some = [x["shape"] for x in names if any("slic" in f for f in x["shape"]["fields"]) == lists]
        shapes.update({f"{pre}{i}": dict(w=False, d=d) for i, d in enumerate(sorted(some, key=lambda d: json.dumps(d, sort_keys=True)))})
    shapes.update({n: dict(w=False, d=d) for n, d in slices().items()})
    with open(V + "/harness/src/shapes.rs", "w") as f:
        f.write(rust(shapes))
    with open(V + "/lib/shapes.json", "w") as f:
        f.write("{\n" + ",\n".join(f"{json.dumps(n)}: {json.dumps(d, sort_keys=True)}" for n, d in shapes.items()) + "\n}\n")
    print(len(shapes), "shapes")


main()
