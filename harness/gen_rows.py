#!/usr/bin/env python3
"""Generate src/rows.rs (struct definitions using the derive macros) and shapes.json (the same
shapes as data, read by the specification side).  Run once by hand when a shape is added."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
# name, kind (rw / r), struct attrs, fields (name, type, attrs)
RW, R = "rw", "r"
S = [
 ("One", RW, {}, [("a","i32",{})]),
 ("Flat", RW, {}, [("a","i8",{}),("b","u8",{}),("c","i16",{}),("d","u16",{}),("e","i32",{}),("f","u32",{}),("g","i64",{}),("h","u64",{}),
                   ("i","f32",{}),("j","f64",{}),("k","bool",{}),("l","String",{}),("m","Vec<i32>",{}),("n","Vec<f64>",{}),("o","[i16;3]",{}),("p","[f32;10]",{})]),
 ("Named", RW, {}, [("branch_a","i32",{}),("branch_b","String",{}),("zweig_c","f64",{}),("plain","u64",{})]),
 ("In", RW, {}, [("a","i32",{}),("s","String",{})]),
 ("Nest", RW, {}, [("i","i32",{}),("s","In",{})]),
 ("NestFirst", RW, {}, [("s","In",{}),("i","u16",{})]),
 ("Only", RW, {}, [("s","In",{})]),
 ("Mid", RW, {}, [("a","i64",{}),("inner","In",{})]),
 ("Deep", RW, {}, [("x","Mid",{}),("y","u8",{})]),
 ("Twice", RW, {}, [("p","In",{}),("q","In",{}),("z","i32",{})]),
 ("Big", RW, {}, [("l","String",{}),("m","Vec<u8>",{})]),
 ("ROne", R, {}, [("zz","i32",{"rename":"a"})]),
 ("RGlobal", R, {"branch_prefix":"branch_"}, [("a","i32",{}),("b","String",{}),("c","f64",{"absolute_name":"zweig_c"}),("d","u64",{"absolute_name":"plain"})]),
 ("RLocal", R, {}, [("plain","u64",{}),("c","f64",{"branch_prefix":"zweig_"}),("a","i32",{"branch_prefix":"branch_"})]),
 ("RBoth", R, {"branch_prefix":"branch_"}, [("c","f64",{"branch_prefix":"zweig_"}),("text","String",{"rename":"b"}),("cc","f64",{"rename":"c","branch_prefix":"zweig_"})]),
 ("RAbsPre", R, {}, [("q","i32",{"absolute_name":"a","branch_prefix":"branch_"}),("r","u64",{"rename":"nope","absolute_name":"plain"})]),
 ("ROrder", R, {}, [("o","[i16;3]",{}),("l","String",{}),("a","i8",{}),("n","Vec<f64>",{}),("e","i32",{})]),
 ("InRen", R, {}, [("text","String",{"rename":"s"}),("num","i32",{"rename":"a"})]),
 ("RNestRen", R, {}, [("sub","InRen",{"rename":"s"}),("i","i32",{})]),
 ("InAbs", R, {}, [("a","i32",{}),("up","i32",{"absolute_name":"i"})]),
 ("RNestAbs", R, {}, [("s","InAbs",{})]),
 ("InPre", R, {"branch_prefix":"pre_"}, [("a","i32",{})]),
 ("RNestPre", R, {"branch_prefix":"g"}, [("s","InPre",{}),("v","i32",{})]),
 ("RMissing", R, {}, [("a","i32",{}),("nope","i32",{})]),
 ("InMissing", R, {}, [("a","i32",{}),("nope","i32",{})]),
 ("RMissingIn", R, {}, [("s","InMissing",{})]),
 ("RType", R, {}, [("a","f64",{})]),
 ("RTypeLast", R, {}, [("a","i32",{}),("b","i32",{}),("c","u8",{})]),
 ("RAbc", R, {}, [("a","i32",{}),("b","i32",{}),("c","i32",{})]),
 ("RA", R, {}, [("a","i32",{})]),
 ("RBa", R, {}, [("b","i32",{}),("a","i32",{})]),
]
names = [s[0] for s in S]
o = ["//! GENERATED by gen_rows.py: struct rows written and read through the derive macros.",
"use crate::val::{short, token, Gen, GenV};",
"use oxyroot::{ReadFromTree, ReaderTree, WriteToTree, WriterTree};",
"use serde_json::{json, Value};","",
"pub trait Row {\n    fn toks(&self, out: &mut Vec<String>);\n}",
"macro_rules! leafrow { ($($t:ty),*) => {$( impl Row for $t { fn toks(&self, out: &mut Vec<String>) { out.push(short(&token(self))); } } )*}; }",
"leafrow!(i8, u8, i16, u16, i32, u32, i64, u64, f32, f64, bool, String, Vec<i32>, Vec<f64>, Vec<u8>, [i16; 3], [f32; 10]);",""]
def attrs(a):
    return "".join(f'    #[oxyroot({k} = "{v}")]\n' for k,v in a.items())
for n,k,sa,fs in S:
    o.append("#[derive(Debug, Clone, ReadFromTree%s)]" % (", WriteToTree" if k==RW else ""))
    for a,v in sa.items(): o.append(f'#[oxyroot({a} = "{v}")]')
    o.append(f"pub struct {n} {{")
    for f,t,a in fs: o.append(attrs(a)+f"    pub {f}: {t},")
    o.append("}")
    o.append(f"impl Row for {n} {{\n    fn toks(&self, out: &mut Vec<String>) {{")
    for f,t,a in fs: o.append(f"        self.{f}.toks(out);")
    o.append("    }\n}")
    if k==RW:
        o.append(f"impl GenV for {n} {{\n    fn gen(g: &Gen, i: u64) -> Self {{")
        o.append(f"        let sub = |k: u64| {{ let mut h = g.clone(); h.seed = crate::val::mix(g.seed, 1000 + k); h }};")
        o.append(f"        {n} {{ " + ", ".join(f"{f}: GenV::gen(&sub({i}), i)" for i,(f,t,a) in enumerate(fs)) + " }\n    }\n}")
o.append("""
fn row<R: Row>(r: &R) -> Value {
    let mut v = Vec::new();
    r.toks(&mut v);
    json!(v)
}
fn w<R: Row + GenV + WriteToTree + 'static>(t: &mut WriterTree, g: &Gen, n: u64) -> Result<Vec<Value>, String> {
    let log = (0..n).map(|i| row(&R::gen(g, i))).collect();
    let g = g.clone();
    R::to_tree((0..n).map(move |i| R::gen(&g, i)), t).map_err(|e| format!("{e:?}"))?;
    Ok(log)
}
fn r<R: Row + ReadFromTree<'static>>(t: &'static ReaderTree, max: u64) -> Result<Vec<Value>, String> {
    let it = R::from_tree(t).map_err(|e| format!("{e:?}"))?;
    Ok(it.take(max as usize).map(|x| row(&x)).collect())
}
""")
o.append("pub fn write(t: &mut WriterTree, shape: &str, g: &Gen, n: u64) -> Result<Vec<Value>, String> {\n    match shape {")
for n,k,_,_ in S:
    if k==RW: o.append(f'        "{n}" => w::<{n}>(t, g, n),')
o.append('        o => panic!("harness: unknown shape {o}"),\n    }\n}')
o.append("pub fn read(t: &'static ReaderTree, shape: &str, max: u64) -> Result<Vec<Value>, String> {\n    match shape {")
for n,k,_,_ in S: o.append(f'        "{n}" => r::<{n}>(t, max),')
o.append('        o => panic!("harness: unknown shape {o}"),\n    }\n}')
open(os.path.join(here,"src/rows.rs"),"w").write("\n".join(o)+"\n")
json.dump([{"name":n,"kind":k,"prefix":sa.get("branch_prefix"),"fields":[{"name":f,"ty":t,"nested":t in names,**a} for f,t,a in fs]} for n,k,sa,fs in S],
          open(os.path.join(here,"shapes.json"),"w"), indent=0)
