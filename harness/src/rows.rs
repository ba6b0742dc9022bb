//! Struct rows written and read through the derive macros; the structs are in shapes.rs.
use crate::shapes;
use crate::val::{mix, short, token, Gen, GenV, Tok};
use oxyroot::{ReadFromTree, ReaderTree, Slice, WriteToTree, WriterTree};
use serde_json::{json, Value};

pub trait Row {
    fn toks(&self, out: &mut Vec<String>);
}
/// a vector of structs, told column by column
pub trait RowSlice: Sized {
    fn toks(v: &[Self], out: &mut Vec<String>);
}
pub fn col<T: Tok>(v: impl Iterator<Item = T>, out: &mut Vec<String>) {
    out.push(short(&token(&v.collect::<Vec<T>>())));
}
macro_rules! leafrow { ($($t:ty),*) => {$( impl Row for $t { fn toks(&self, out: &mut Vec<String>) { out.push(short(&token(self))); } } )*}; }
leafrow!(i8, u8, i16, u16, i32, u32, i64, u64, f32, f64, bool, String, Vec<i32>, Vec<f64>, Vec<u8>, [i16; 3], [f32; 10], Slice<i32>);

pub fn sub(g: &Gen, k: u64) -> Gen {
    let mut h = g.clone();
    h.seed = mix(g.seed, 1000 + k);
    h
}
fn row<R: Row>(r: &R) -> Value {
    let mut v = Vec::new();
    r.toks(&mut v);
    json!(v)
}
pub fn w<R: Row + GenV + WriteToTree + 'static>(t: &mut WriterTree, g: &Gen, n: u64) -> Result<Vec<Value>, String> {
    let log = (0..n).map(|i| row(&R::gen(g, i))).collect();
    let g = g.clone();
    R::to_tree((0..n).map(move |i| R::gen(&g, i)), t).map_err(|e| format!("{e:?}"))?;
    Ok(log)
}
pub fn r<R: Row + ReadFromTree<'static>>(t: &'static ReaderTree, max: u64) -> Result<Vec<Value>, String> {
    let it = R::from_tree(t).map_err(|e| format!("{e:?}"))?;
    Ok(it.take(max as usize).map(|x| row(&x)).collect())
}
pub fn write(t: &mut WriterTree, shape: &str, g: &Gen, n: u64) -> Result<Vec<Value>, String> {
    shapes::write(t, shape, g, n)
}
pub fn read(t: &'static ReaderTree, shape: &str, max: u64) -> Result<Vec<Value>, String> {
    shapes::read(t, shape, max)
}
