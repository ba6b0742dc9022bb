//! GENERATED by tools/gen_shapes.py
use crate::rows::*;
use crate::val::{Gen, GenV};
use oxyroot::{ReadFromTree, ReaderTree, Slice, WriteToTree, WriterTree};
use serde_json::Value;

#[derive(ReadFromTree, WriteToTree)]
pub struct P1 {
    pub a: i32,
    pub b: i64,
    pub c: Vec<u8>,
}
impl Row for P1 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for P1 { fn gen(g: &Gen, i: u64) -> Self { P1 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P0 {
    pub a: P1,
}
impl Row for P0 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
impl GenV for P0 { fn gen(g: &Gen, i: u64) -> Self { P0 { a: GenV::gen(&sub(g, 0), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P3 {
    pub a: [i16;3],
}
impl Row for P3 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
impl GenV for P3 { fn gen(g: &Gen, i: u64) -> Self { P3 { a: GenV::gen(&sub(g, 0), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P2 {
    pub a: P3,
}
impl Row for P2 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
impl GenV for P2 { fn gen(g: &Gen, i: u64) -> Self { P2 { a: GenV::gen(&sub(g, 0), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W0 {
    pub a: P0,
    pub b: P2,
}
impl Row for W0 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W0 { fn gen(g: &Gen, i: u64) -> Self { W0 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P5 {
    pub a: u8,
    pub b: f32,
    pub c: i32,
}
impl Row for P5 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for P5 { fn gen(g: &Gen, i: u64) -> Self { P5 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P4 {
    pub a: P5,
}
impl Row for P4 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
impl GenV for P4 { fn gen(g: &Gen, i: u64) -> Self { P4 { a: GenV::gen(&sub(g, 0), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P6 {
    pub a: i64,
}
impl Row for P6 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
impl GenV for P6 { fn gen(g: &Gen, i: u64) -> Self { P6 { a: GenV::gen(&sub(g, 0), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W1 {
    pub a: P4,
    pub b: P6,
}
impl Row for W1 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W1 { fn gen(g: &Gen, i: u64) -> Self { W1 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P8 {
    pub a: bool,
    pub b: u64,
    pub c: u8,
}
impl Row for P8 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for P8 { fn gen(g: &Gen, i: u64) -> Self { P8 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P7 {
    pub a: P8,
}
impl Row for P7 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
impl GenV for P7 { fn gen(g: &Gen, i: u64) -> Self { P7 { a: GenV::gen(&sub(g, 0), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W2 {
    pub a: P7,
    pub b: f32,
}
impl Row for W2 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W2 { fn gen(g: &Gen, i: u64) -> Self { W2 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P10 {
    pub a: Vec<f64>,
    pub b: u32,
    pub c: bool,
}
impl Row for P10 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for P10 { fn gen(g: &Gen, i: u64) -> Self { P10 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P9 {
    pub a: P10,
}
impl Row for P9 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
impl GenV for P9 { fn gen(g: &Gen, i: u64) -> Self { P9 { a: GenV::gen(&sub(g, 0), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W3 {
    pub a: P9,
}
impl Row for W3 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
impl GenV for W3 { fn gen(g: &Gen, i: u64) -> Self { W3 { a: GenV::gen(&sub(g, 0), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P12 {
    pub a: [f32;10],
    pub b: f64,
}
impl Row for P12 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P12 { fn gen(g: &Gen, i: u64) -> Self { P12 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P13 {
    pub a: Vec<f64>,
}
impl Row for P13 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
impl GenV for P13 { fn gen(g: &Gen, i: u64) -> Self { P13 { a: GenV::gen(&sub(g, 0), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P11 {
    pub a: P12,
    pub b: P13,
}
impl Row for P11 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P11 { fn gen(g: &Gen, i: u64) -> Self { P11 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P15 {
    pub a: u32,
}
impl Row for P15 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
impl GenV for P15 { fn gen(g: &Gen, i: u64) -> Self { P15 { a: GenV::gen(&sub(g, 0), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P14 {
    pub a: P15,
}
impl Row for P14 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
impl GenV for P14 { fn gen(g: &Gen, i: u64) -> Self { P14 { a: GenV::gen(&sub(g, 0), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W4 {
    pub a: P11,
    pub b: P14,
}
impl Row for W4 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W4 { fn gen(g: &Gen, i: u64) -> Self { W4 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P17 {
    pub a: i16,
    pub b: Vec<i32>,
}
impl Row for P17 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P17 { fn gen(g: &Gen, i: u64) -> Self { P17 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P18 {
    pub a: [f32;10],
}
impl Row for P18 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
impl GenV for P18 { fn gen(g: &Gen, i: u64) -> Self { P18 { a: GenV::gen(&sub(g, 0), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P16 {
    pub a: P17,
    pub b: P18,
}
impl Row for P16 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P16 { fn gen(g: &Gen, i: u64) -> Self { P16 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W5 {
    pub a: P16,
    pub b: P18,
}
impl Row for W5 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W5 { fn gen(g: &Gen, i: u64) -> Self { W5 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P20 {
    pub a: String,
    pub b: u16,
}
impl Row for P20 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P20 { fn gen(g: &Gen, i: u64) -> Self { P20 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P21 {
    pub a: i16,
}
impl Row for P21 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
impl GenV for P21 { fn gen(g: &Gen, i: u64) -> Self { P21 { a: GenV::gen(&sub(g, 0), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P19 {
    pub a: P20,
    pub b: P21,
}
impl Row for P19 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P19 { fn gen(g: &Gen, i: u64) -> Self { P19 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W6 {
    pub a: P19,
    pub b: Vec<i32>,
}
impl Row for W6 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W6 { fn gen(g: &Gen, i: u64) -> Self { W6 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P23 {
    pub a: [i16;3],
    pub b: i8,
}
impl Row for P23 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P23 { fn gen(g: &Gen, i: u64) -> Self { P23 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P24 {
    pub a: String,
}
impl Row for P24 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
impl GenV for P24 { fn gen(g: &Gen, i: u64) -> Self { P24 { a: GenV::gen(&sub(g, 0), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P22 {
    pub a: P23,
    pub b: P24,
}
impl Row for P22 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P22 { fn gen(g: &Gen, i: u64) -> Self { P22 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W7 {
    pub a: P22,
}
impl Row for W7 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
impl GenV for W7 { fn gen(g: &Gen, i: u64) -> Self { W7 { a: GenV::gen(&sub(g, 0), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P26 {
    pub a: i64,
    pub b: Vec<u8>,
}
impl Row for P26 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P26 { fn gen(g: &Gen, i: u64) -> Self { P26 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P25 {
    pub a: P26,
    pub b: [i16;3],
}
impl Row for P25 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P25 { fn gen(g: &Gen, i: u64) -> Self { P25 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P28 {
    pub a: i8,
}
impl Row for P28 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
impl GenV for P28 { fn gen(g: &Gen, i: u64) -> Self { P28 { a: GenV::gen(&sub(g, 0), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P27 {
    pub a: P28,
}
impl Row for P27 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
impl GenV for P27 { fn gen(g: &Gen, i: u64) -> Self { P27 { a: GenV::gen(&sub(g, 0), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W8 {
    pub a: P25,
    pub b: P27,
}
impl Row for W8 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W8 { fn gen(g: &Gen, i: u64) -> Self { W8 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P30 {
    pub a: f32,
    pub b: i32,
}
impl Row for P30 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P30 { fn gen(g: &Gen, i: u64) -> Self { P30 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P29 {
    pub a: P30,
    pub b: i64,
}
impl Row for P29 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P29 { fn gen(g: &Gen, i: u64) -> Self { P29 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P31 {
    pub a: Vec<u8>,
}
impl Row for P31 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
impl GenV for P31 { fn gen(g: &Gen, i: u64) -> Self { P31 { a: GenV::gen(&sub(g, 0), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W9 {
    pub a: P29,
    pub b: P31,
}
impl Row for W9 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W9 { fn gen(g: &Gen, i: u64) -> Self { W9 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P33 {
    pub a: u64,
    pub b: u8,
}
impl Row for P33 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P33 { fn gen(g: &Gen, i: u64) -> Self { P33 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P32 {
    pub a: P33,
    pub b: f32,
}
impl Row for P32 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P32 { fn gen(g: &Gen, i: u64) -> Self { P32 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W10 {
    pub a: P32,
    pub b: i32,
}
impl Row for W10 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W10 { fn gen(g: &Gen, i: u64) -> Self { W10 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P35 {
    pub a: u32,
    pub b: bool,
}
impl Row for P35 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P35 { fn gen(g: &Gen, i: u64) -> Self { P35 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P34 {
    pub a: P35,
    pub b: u64,
}
impl Row for P34 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P34 { fn gen(g: &Gen, i: u64) -> Self { P34 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W11 {
    pub a: P34,
}
impl Row for W11 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
impl GenV for W11 { fn gen(g: &Gen, i: u64) -> Self { W11 { a: GenV::gen(&sub(g, 0), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P37 {
    pub a: f64,
    pub b: Vec<f64>,
}
impl Row for P37 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P37 { fn gen(g: &Gen, i: u64) -> Self { P37 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P36 {
    pub a: P37,
}
impl Row for P36 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
impl GenV for P36 { fn gen(g: &Gen, i: u64) -> Self { P36 { a: GenV::gen(&sub(g, 0), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P38 {
    pub a: P35,
}
impl Row for P38 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
impl GenV for P38 { fn gen(g: &Gen, i: u64) -> Self { P38 { a: GenV::gen(&sub(g, 0), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W12 {
    pub a: P36,
    pub b: P38,
}
impl Row for W12 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W12 { fn gen(g: &Gen, i: u64) -> Self { W12 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P40 {
    pub a: Vec<i32>,
    pub b: [f32;10],
}
impl Row for P40 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P40 { fn gen(g: &Gen, i: u64) -> Self { P40 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P39 {
    pub a: P40,
}
impl Row for P39 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
impl GenV for P39 { fn gen(g: &Gen, i: u64) -> Self { P39 { a: GenV::gen(&sub(g, 0), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P42 {
    pub a: f64,
}
impl Row for P42 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
impl GenV for P42 { fn gen(g: &Gen, i: u64) -> Self { P42 { a: GenV::gen(&sub(g, 0), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P41 {
    pub a: P42,
    pub b: P42,
}
impl Row for P41 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P41 { fn gen(g: &Gen, i: u64) -> Self { P41 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W13 {
    pub a: P39,
    pub b: P41,
}
impl Row for W13 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W13 { fn gen(g: &Gen, i: u64) -> Self { W13 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P44 {
    pub a: u16,
    pub b: i16,
}
impl Row for P44 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P44 { fn gen(g: &Gen, i: u64) -> Self { P44 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P43 {
    pub a: P44,
}
impl Row for P43 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
impl GenV for P43 { fn gen(g: &Gen, i: u64) -> Self { P43 { a: GenV::gen(&sub(g, 0), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P46 {
    pub a: Vec<i32>,
}
impl Row for P46 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
impl GenV for P46 { fn gen(g: &Gen, i: u64) -> Self { P46 { a: GenV::gen(&sub(g, 0), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P45 {
    pub a: P46,
    pub b: [f32;10],
}
impl Row for P45 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P45 { fn gen(g: &Gen, i: u64) -> Self { P45 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W14 {
    pub a: P43,
    pub b: P45,
}
impl Row for W14 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W14 { fn gen(g: &Gen, i: u64) -> Self { W14 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P48 {
    pub a: i8,
    pub b: String,
}
impl Row for P48 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P48 { fn gen(g: &Gen, i: u64) -> Self { P48 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P47 {
    pub a: P48,
}
impl Row for P47 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
impl GenV for P47 { fn gen(g: &Gen, i: u64) -> Self { P47 { a: GenV::gen(&sub(g, 0), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P50 {
    pub a: u16,
}
impl Row for P50 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
impl GenV for P50 { fn gen(g: &Gen, i: u64) -> Self { P50 { a: GenV::gen(&sub(g, 0), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P49 {
    pub a: P50,
}
impl Row for P49 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
impl GenV for P49 { fn gen(g: &Gen, i: u64) -> Self { P49 { a: GenV::gen(&sub(g, 0), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W15 {
    pub a: P47,
    pub b: P49,
    pub c: P49,
}
impl Row for W15 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W15 { fn gen(g: &Gen, i: u64) -> Self { W15 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P52 {
    pub a: Vec<u8>,
    pub b: [i16;3],
}
impl Row for P52 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P52 { fn gen(g: &Gen, i: u64) -> Self { P52 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P51 {
    pub a: P52,
}
impl Row for P51 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
impl GenV for P51 { fn gen(g: &Gen, i: u64) -> Self { P51 { a: GenV::gen(&sub(g, 0), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W16 {
    pub a: P51,
    pub b: P27,
    pub c: P24,
}
impl Row for W16 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W16 { fn gen(g: &Gen, i: u64) -> Self { W16 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P54 {
    pub a: i32,
    pub b: i64,
}
impl Row for P54 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P54 { fn gen(g: &Gen, i: u64) -> Self { P54 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P53 {
    pub a: P54,
}
impl Row for P53 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
impl GenV for P53 { fn gen(g: &Gen, i: u64) -> Self { P53 { a: GenV::gen(&sub(g, 0), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P55 {
    pub a: P31,
}
impl Row for P55 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
impl GenV for P55 { fn gen(g: &Gen, i: u64) -> Self { P55 { a: GenV::gen(&sub(g, 0), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W17 {
    pub a: P53,
    pub b: P55,
    pub c: [i16;3],
}
impl Row for W17 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W17 { fn gen(g: &Gen, i: u64) -> Self { W17 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P57 {
    pub a: u8,
    pub b: f32,
}
impl Row for P57 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P57 { fn gen(g: &Gen, i: u64) -> Self { P57 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P56 {
    pub a: P57,
}
impl Row for P56 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
impl GenV for P56 { fn gen(g: &Gen, i: u64) -> Self { P56 { a: GenV::gen(&sub(g, 0), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P59 {
    pub a: i32,
}
impl Row for P59 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
impl GenV for P59 { fn gen(g: &Gen, i: u64) -> Self { P59 { a: GenV::gen(&sub(g, 0), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P58 {
    pub a: P59,
}
impl Row for P58 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
impl GenV for P58 { fn gen(g: &Gen, i: u64) -> Self { P58 { a: GenV::gen(&sub(g, 0), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W18 {
    pub a: P56,
    pub b: P58,
}
impl Row for W18 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W18 { fn gen(g: &Gen, i: u64) -> Self { W18 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P61 {
    pub a: bool,
    pub b: u64,
}
impl Row for P61 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P61 { fn gen(g: &Gen, i: u64) -> Self { P61 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P60 {
    pub a: P61,
}
impl Row for P60 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
impl GenV for P60 { fn gen(g: &Gen, i: u64) -> Self { P60 { a: GenV::gen(&sub(g, 0), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P63 {
    pub a: f32,
}
impl Row for P63 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
impl GenV for P63 { fn gen(g: &Gen, i: u64) -> Self { P63 { a: GenV::gen(&sub(g, 0), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P62 {
    pub a: u8,
    pub b: P63,
}
impl Row for P62 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P62 { fn gen(g: &Gen, i: u64) -> Self { P62 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W19 {
    pub a: P60,
    pub b: P62,
}
impl Row for W19 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W19 { fn gen(g: &Gen, i: u64) -> Self { W19 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P65 {
    pub a: Vec<f64>,
    pub b: u32,
}
impl Row for P65 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P65 { fn gen(g: &Gen, i: u64) -> Self { P65 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P64 {
    pub a: P65,
}
impl Row for P64 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
impl GenV for P64 { fn gen(g: &Gen, i: u64) -> Self { P64 { a: GenV::gen(&sub(g, 0), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W20 {
    pub a: P64,
    pub b: P61,
}
impl Row for W20 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W20 { fn gen(g: &Gen, i: u64) -> Self { W20 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P66 {
    pub a: P12,
}
impl Row for P66 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
impl GenV for P66 { fn gen(g: &Gen, i: u64) -> Self { P66 { a: GenV::gen(&sub(g, 0), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P67 {
    pub a: P13,
}
impl Row for P67 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
impl GenV for P67 { fn gen(g: &Gen, i: u64) -> Self { P67 { a: GenV::gen(&sub(g, 0), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W21 {
    pub a: P66,
    pub b: P13,
    pub c: P67,
}
impl Row for W21 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W21 { fn gen(g: &Gen, i: u64) -> Self { W21 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P68 {
    pub a: P17,
}
impl Row for P68 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
impl GenV for P68 { fn gen(g: &Gen, i: u64) -> Self { P68 { a: GenV::gen(&sub(g, 0), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W22 {
    pub a: P68,
    pub b: P18,
    pub c: P42,
}
impl Row for W22 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W22 { fn gen(g: &Gen, i: u64) -> Self { W22 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P69 {
    pub a: P20,
}
impl Row for P69 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
impl GenV for P69 { fn gen(g: &Gen, i: u64) -> Self { P69 { a: GenV::gen(&sub(g, 0), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W23 {
    pub a: P69,
    pub b: P21,
    pub c: Vec<i32>,
}
impl Row for W23 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W23 { fn gen(g: &Gen, i: u64) -> Self { W23 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P70 {
    pub a: P23,
}
impl Row for P70 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
impl GenV for P70 { fn gen(g: &Gen, i: u64) -> Self { P70 { a: GenV::gen(&sub(g, 0), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W24 {
    pub a: P70,
    pub b: P24,
}
impl Row for W24 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W24 { fn gen(g: &Gen, i: u64) -> Self { W24 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P71 {
    pub a: P26,
}
impl Row for P71 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
impl GenV for P71 { fn gen(g: &Gen, i: u64) -> Self { P71 { a: GenV::gen(&sub(g, 0), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W25 {
    pub a: P71,
    pub b: [i16;3],
    pub c: P27,
}
impl Row for W25 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W25 { fn gen(g: &Gen, i: u64) -> Self { W25 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P72 {
    pub a: P30,
}
impl Row for P72 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
impl GenV for P72 { fn gen(g: &Gen, i: u64) -> Self { P72 { a: GenV::gen(&sub(g, 0), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W26 {
    pub a: P72,
    pub b: i64,
    pub c: P31,
}
impl Row for W26 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W26 { fn gen(g: &Gen, i: u64) -> Self { W26 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P73 {
    pub a: P33,
}
impl Row for P73 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
impl GenV for P73 { fn gen(g: &Gen, i: u64) -> Self { P73 { a: GenV::gen(&sub(g, 0), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W27 {
    pub a: P73,
    pub b: f32,
    pub c: i32,
}
impl Row for W27 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W27 { fn gen(g: &Gen, i: u64) -> Self { W27 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W28 {
    pub a: P38,
    pub b: u64,
}
impl Row for W28 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W28 { fn gen(g: &Gen, i: u64) -> Self { W28 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W29 {
    pub a: P36,
}
impl Row for W29 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
impl GenV for W29 { fn gen(g: &Gen, i: u64) -> Self { W29 { a: GenV::gen(&sub(g, 0), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P74 {
    pub a: P46,
    pub b: P12,
}
impl Row for P74 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P74 { fn gen(g: &Gen, i: u64) -> Self { P74 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W30 {
    pub a: P74,
    pub b: P67,
}
impl Row for W30 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W30 { fn gen(g: &Gen, i: u64) -> Self { W30 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P75 {
    pub a: P50,
    pub b: P17,
}
impl Row for P75 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P75 { fn gen(g: &Gen, i: u64) -> Self { P75 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W31 {
    pub a: P75,
    pub b: P50,
}
impl Row for W31 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W31 { fn gen(g: &Gen, i: u64) -> Self { W31 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P76 {
    pub a: P28,
    pub b: P20,
}
impl Row for P76 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P76 { fn gen(g: &Gen, i: u64) -> Self { P76 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W32 {
    pub a: P76,
    pub b: i16,
}
impl Row for W32 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W32 { fn gen(g: &Gen, i: u64) -> Self { W32 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P77 {
    pub a: P31,
    pub b: P23,
}
impl Row for P77 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P77 { fn gen(g: &Gen, i: u64) -> Self { P77 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W33 {
    pub a: P77,
}
impl Row for W33 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
impl GenV for W33 { fn gen(g: &Gen, i: u64) -> Self { W33 { a: GenV::gen(&sub(g, 0), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P78 {
    pub a: P59,
    pub b: P6,
    pub c: P31,
}
impl Row for P78 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for P78 { fn gen(g: &Gen, i: u64) -> Self { P78 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W34 {
    pub a: P78,
    pub b: P2,
}
impl Row for W34 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W34 { fn gen(g: &Gen, i: u64) -> Self { W34 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P80 {
    pub a: u8,
}
impl Row for P80 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
impl GenV for P80 { fn gen(g: &Gen, i: u64) -> Self { P80 { a: GenV::gen(&sub(g, 0), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P79 {
    pub a: P80,
    pub b: P80,
    pub c: P80,
}
impl Row for P79 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for P79 { fn gen(g: &Gen, i: u64) -> Self { P79 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W35 {
    pub a: P79,
    pub b: P80,
}
impl Row for W35 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W35 { fn gen(g: &Gen, i: u64) -> Self { W35 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P82 {
    pub a: bool,
}
impl Row for P82 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
impl GenV for P82 { fn gen(g: &Gen, i: u64) -> Self { P82 { a: GenV::gen(&sub(g, 0), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P83 {
    pub a: u64,
}
impl Row for P83 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
impl GenV for P83 { fn gen(g: &Gen, i: u64) -> Self { P83 { a: GenV::gen(&sub(g, 0), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P81 {
    pub a: P82,
    pub b: P83,
    pub c: P80,
}
impl Row for P81 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for P81 { fn gen(g: &Gen, i: u64) -> Self { P81 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W36 {
    pub a: P81,
    pub b: f32,
}
impl Row for W36 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W36 { fn gen(g: &Gen, i: u64) -> Self { W36 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P84 {
    pub a: P13,
    pub b: P13,
    pub c: P13,
}
impl Row for P84 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for P84 { fn gen(g: &Gen, i: u64) -> Self { P84 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W37 {
    pub a: P84,
}
impl Row for W37 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
impl GenV for W37 { fn gen(g: &Gen, i: u64) -> Self { W37 { a: GenV::gen(&sub(g, 0), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P85 {
    pub a: P18,
    pub b: P42,
    pub c: Vec<f64>,
}
impl Row for P85 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for P85 { fn gen(g: &Gen, i: u64) -> Self { P85 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W38 {
    pub a: P85,
    pub b: P14,
}
impl Row for W38 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W38 { fn gen(g: &Gen, i: u64) -> Self { W38 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P86 {
    pub a: P21,
    pub b: P21,
    pub c: Vec<i32>,
}
impl Row for P86 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for P86 { fn gen(g: &Gen, i: u64) -> Self { P86 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W39 {
    pub a: P86,
    pub b: P21,
}
impl Row for W39 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W39 { fn gen(g: &Gen, i: u64) -> Self { W39 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P87 {
    pub a: P24,
    pub b: P50,
    pub c: i16,
}
impl Row for P87 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for P87 { fn gen(g: &Gen, i: u64) -> Self { P87 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W40 {
    pub a: P87,
    pub b: Vec<i32>,
}
impl Row for W40 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W40 { fn gen(g: &Gen, i: u64) -> Self { W40 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P88 {
    pub a: P3,
    pub b: P3,
    pub c: i8,
}
impl Row for P88 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for P88 { fn gen(g: &Gen, i: u64) -> Self { P88 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W41 {
    pub a: P88,
}
impl Row for W41 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
impl GenV for W41 { fn gen(g: &Gen, i: u64) -> Self { W41 { a: GenV::gen(&sub(g, 0), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P89 {
    pub a: P6,
    pub b: P31,
}
impl Row for P89 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P89 { fn gen(g: &Gen, i: u64) -> Self { P89 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W42 {
    pub a: P89,
    pub b: P70,
}
impl Row for W42 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W42 { fn gen(g: &Gen, i: u64) -> Self { W42 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P90 {
    pub a: P63,
    pub b: P63,
}
impl Row for P90 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P90 { fn gen(g: &Gen, i: u64) -> Self { P90 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W43 {
    pub a: P90,
    pub b: P90,
}
impl Row for W43 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W43 { fn gen(g: &Gen, i: u64) -> Self { W43 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P91 {
    pub a: P83,
    pub b: P80,
}
impl Row for P91 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P91 { fn gen(g: &Gen, i: u64) -> Self { P91 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P92 {
    pub a: P63,
    pub b: i32,
}
impl Row for P92 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P92 { fn gen(g: &Gen, i: u64) -> Self { P92 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W44 {
    pub a: P91,
    pub b: P92,
}
impl Row for W44 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W44 { fn gen(g: &Gen, i: u64) -> Self { W44 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P93 {
    pub a: P15,
    pub b: P15,
}
impl Row for P93 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P93 { fn gen(g: &Gen, i: u64) -> Self { P93 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W45 {
    pub a: P93,
    pub b: P14,
    pub c: P14,
}
impl Row for W45 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W45 { fn gen(g: &Gen, i: u64) -> Self { W45 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P94 {
    pub a: P42,
    pub b: P13,
}
impl Row for P94 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P94 { fn gen(g: &Gen, i: u64) -> Self { P94 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W46 {
    pub a: P94,
    pub b: P14,
    pub c: P82,
}
impl Row for W46 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W46 { fn gen(g: &Gen, i: u64) -> Self { W46 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P95 {
    pub a: P46,
    pub b: P46,
}
impl Row for P95 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P95 { fn gen(g: &Gen, i: u64) -> Self { P95 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P96 {
    pub a: P46,
}
impl Row for P96 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
impl GenV for P96 { fn gen(g: &Gen, i: u64) -> Self { P96 { a: GenV::gen(&sub(g, 0), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W47 {
    pub a: P95,
    pub b: P96,
    pub c: [f32;10],
}
impl Row for W47 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W47 { fn gen(g: &Gen, i: u64) -> Self { W47 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P97 {
    pub a: P50,
    pub b: P21,
}
impl Row for P97 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P97 { fn gen(g: &Gen, i: u64) -> Self { P97 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W48 {
    pub a: P97,
    pub b: P96,
}
impl Row for W48 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W48 { fn gen(g: &Gen, i: u64) -> Self { W48 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P98 {
    pub a: P28,
    pub b: P28,
}
impl Row for P98 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P98 { fn gen(g: &Gen, i: u64) -> Self { P98 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P99 {
    pub a: String,
    pub b: P28,
}
impl Row for P99 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P99 { fn gen(g: &Gen, i: u64) -> Self { P99 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W49 {
    pub a: P98,
    pub b: P99,
}
impl Row for W49 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W49 { fn gen(g: &Gen, i: u64) -> Self { W49 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P100 {
    pub a: P31,
    pub b: P3,
}
impl Row for P100 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P100 { fn gen(g: &Gen, i: u64) -> Self { P100 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W50 {
    pub a: P100,
    pub b: P48,
}
impl Row for W50 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W50 { fn gen(g: &Gen, i: u64) -> Self { W50 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P101 {
    pub a: P59,
    pub b: P59,
}
impl Row for P101 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P101 { fn gen(g: &Gen, i: u64) -> Self { P101 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W51 {
    pub a: P101,
    pub b: P59,
    pub c: P58,
}
impl Row for W51 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W51 { fn gen(g: &Gen, i: u64) -> Self { W51 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P102 {
    pub a: P80,
    pub b: P63,
}
impl Row for P102 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P102 { fn gen(g: &Gen, i: u64) -> Self { P102 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W52 {
    pub a: P102,
    pub b: P59,
    pub c: P6,
}
impl Row for W52 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W52 { fn gen(g: &Gen, i: u64) -> Self { W52 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P103 {
    pub a: P82,
    pub b: P82,
}
impl Row for P103 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P103 { fn gen(g: &Gen, i: u64) -> Self { P103 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W53 {
    pub a: P103,
    pub b: P82,
    pub c: u64,
}
impl Row for W53 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W53 { fn gen(g: &Gen, i: u64) -> Self { W53 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P104 {
    pub a: P13,
    pub b: P15,
}
impl Row for P104 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P104 { fn gen(g: &Gen, i: u64) -> Self { P104 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W54 {
    pub a: P104,
    pub b: P82,
}
impl Row for W54 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W54 { fn gen(g: &Gen, i: u64) -> Self { W54 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P105 {
    pub a: P18,
    pub b: P18,
}
impl Row for P105 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P105 { fn gen(g: &Gen, i: u64) -> Self { P105 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P106 {
    pub a: P18,
}
impl Row for P106 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
impl GenV for P106 { fn gen(g: &Gen, i: u64) -> Self { P106 { a: GenV::gen(&sub(g, 0), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W55 {
    pub a: P105,
    pub b: f64,
    pub c: P106,
}
impl Row for W55 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W55 { fn gen(g: &Gen, i: u64) -> Self { W55 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P107 {
    pub a: P21,
    pub b: P46,
}
impl Row for P107 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P107 { fn gen(g: &Gen, i: u64) -> Self { P107 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W56 {
    pub a: P107,
    pub b: [f32;10],
    pub c: P42,
}
impl Row for W56 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W56 { fn gen(g: &Gen, i: u64) -> Self { W56 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P108 {
    pub a: P24,
    pub b: P24,
}
impl Row for P108 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P108 { fn gen(g: &Gen, i: u64) -> Self { P108 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W57 {
    pub a: P108,
    pub b: u16,
    pub c: i16,
}
impl Row for W57 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W57 { fn gen(g: &Gen, i: u64) -> Self { W57 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P109 {
    pub a: P3,
    pub b: P28,
}
impl Row for P109 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P109 { fn gen(g: &Gen, i: u64) -> Self { P109 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W58 {
    pub a: P109,
    pub b: String,
}
impl Row for W58 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W58 { fn gen(g: &Gen, i: u64) -> Self { W58 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P110 {
    pub a: P6,
    pub b: P6,
}
impl Row for P110 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P110 { fn gen(g: &Gen, i: u64) -> Self { P110 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W59 {
    pub a: P110,
}
impl Row for W59 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
impl GenV for W59 { fn gen(g: &Gen, i: u64) -> Self { W59 { a: GenV::gen(&sub(g, 0), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P111 {
    pub a: P63,
    pub b: i32,
    pub c: P6,
}
impl Row for P111 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for P111 { fn gen(g: &Gen, i: u64) -> Self { P111 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W60 {
    pub a: P111,
    pub b: P55,
}
impl Row for W60 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W60 { fn gen(g: &Gen, i: u64) -> Self { W60 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P112 {
    pub a: P83,
    pub b: u8,
    pub c: P83,
}
impl Row for P112 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for P112 { fn gen(g: &Gen, i: u64) -> Self { P112 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W61 {
    pub a: P112,
    pub b: P83,
}
impl Row for W61 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W61 { fn gen(g: &Gen, i: u64) -> Self { W61 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P113 {
    pub a: P15,
    pub b: bool,
    pub c: P83,
}
impl Row for P113 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for P113 { fn gen(g: &Gen, i: u64) -> Self { P113 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W62 {
    pub a: P113,
    pub b: u8,
}
impl Row for W62 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W62 { fn gen(g: &Gen, i: u64) -> Self { W62 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P114 {
    pub a: P42,
    pub b: Vec<f64>,
    pub c: P42,
}
impl Row for P114 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for P114 { fn gen(g: &Gen, i: u64) -> Self { P114 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W63 {
    pub a: P114,
}
impl Row for W63 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
impl GenV for W63 { fn gen(g: &Gen, i: u64) -> Self { W63 { a: GenV::gen(&sub(g, 0), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P115 {
    pub a: P46,
    pub b: [f32;10],
    pub c: f64,
}
impl Row for P115 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for P115 { fn gen(g: &Gen, i: u64) -> Self { P115 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W64 {
    pub a: P115,
    pub b: P67,
}
impl Row for W64 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W64 { fn gen(g: &Gen, i: u64) -> Self { W64 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P116 {
    pub a: P50,
    pub b: i16,
    pub c: Vec<i32>,
}
impl Row for P116 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for P116 { fn gen(g: &Gen, i: u64) -> Self { P116 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W65 {
    pub a: P116,
    pub b: P50,
}
impl Row for W65 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W65 { fn gen(g: &Gen, i: u64) -> Self { W65 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P117 {
    pub a: P28,
    pub b: String,
    pub c: u16,
}
impl Row for P117 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for P117 { fn gen(g: &Gen, i: u64) -> Self { P117 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W66 {
    pub a: P117,
    pub b: i16,
}
impl Row for W66 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W66 { fn gen(g: &Gen, i: u64) -> Self { W66 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P118 {
    pub a: P31,
    pub b: [i16;3],
    pub c: i8,
}
impl Row for P118 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for P118 { fn gen(g: &Gen, i: u64) -> Self { P118 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W67 {
    pub a: P118,
}
impl Row for W67 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
impl GenV for W67 { fn gen(g: &Gen, i: u64) -> Self { W67 { a: GenV::gen(&sub(g, 0), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P119 {
    pub a: P59,
    pub b: i64,
}
impl Row for P119 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P119 { fn gen(g: &Gen, i: u64) -> Self { P119 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W68 {
    pub a: P119,
    pub b: P51,
}
impl Row for W68 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W68 { fn gen(g: &Gen, i: u64) -> Self { W68 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P120 {
    pub a: P80,
    pub b: f32,
}
impl Row for P120 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P120 { fn gen(g: &Gen, i: u64) -> Self { P120 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P121 {
    pub a: P80,
    pub b: P80,
}
impl Row for P121 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P121 { fn gen(g: &Gen, i: u64) -> Self { P121 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W69 {
    pub a: P120,
    pub b: P121,
}
impl Row for W69 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W69 { fn gen(g: &Gen, i: u64) -> Self { W69 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P122 {
    pub a: P82,
    pub b: u64,
}
impl Row for P122 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P122 { fn gen(g: &Gen, i: u64) -> Self { P122 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W70 {
    pub a: P122,
    pub b: P120,
}
impl Row for W70 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W70 { fn gen(g: &Gen, i: u64) -> Self { W70 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P123 {
    pub a: P13,
    pub b: u32,
}
impl Row for P123 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P123 { fn gen(g: &Gen, i: u64) -> Self { P123 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W71 {
    pub a: P123,
    pub b: P67,
    pub c: P67,
}
impl Row for W71 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W71 { fn gen(g: &Gen, i: u64) -> Self { W71 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P124 {
    pub a: P18,
    pub b: f64,
}
impl Row for P124 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P124 { fn gen(g: &Gen, i: u64) -> Self { P124 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W72 {
    pub a: P124,
    pub b: P67,
    pub c: P15,
}
impl Row for W72 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W72 { fn gen(g: &Gen, i: u64) -> Self { W72 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P125 {
    pub a: P21,
    pub b: Vec<i32>,
}
impl Row for P125 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P125 { fn gen(g: &Gen, i: u64) -> Self { P125 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P126 {
    pub a: P21,
}
impl Row for P126 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
impl GenV for P126 { fn gen(g: &Gen, i: u64) -> Self { P126 { a: GenV::gen(&sub(g, 0), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W73 {
    pub a: P125,
    pub b: P126,
    pub c: [f32;10],
}
impl Row for W73 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W73 { fn gen(g: &Gen, i: u64) -> Self { W73 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P127 {
    pub a: P24,
    pub b: u16,
}
impl Row for P127 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P127 { fn gen(g: &Gen, i: u64) -> Self { P127 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W74 {
    pub a: P127,
    pub b: P126,
}
impl Row for W74 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W74 { fn gen(g: &Gen, i: u64) -> Self { W74 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P128 {
    pub a: P3,
    pub b: i8,
}
impl Row for P128 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P128 { fn gen(g: &Gen, i: u64) -> Self { P128 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P129 {
    pub a: String,
    pub b: P3,
}
impl Row for P129 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P129 { fn gen(g: &Gen, i: u64) -> Self { P129 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W75 {
    pub a: P128,
    pub b: P129,
}
impl Row for W75 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W75 { fn gen(g: &Gen, i: u64) -> Self { W75 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P130 {
    pub a: P6,
    pub b: Vec<u8>,
}
impl Row for P130 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P130 { fn gen(g: &Gen, i: u64) -> Self { P130 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W76 {
    pub a: P130,
    pub b: P23,
}
impl Row for W76 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W76 { fn gen(g: &Gen, i: u64) -> Self { W76 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P131 {
    pub a: P63,
}
impl Row for P131 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
impl GenV for P131 { fn gen(g: &Gen, i: u64) -> Self { P131 { a: GenV::gen(&sub(g, 0), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W77 {
    pub a: P92,
    pub b: P63,
    pub c: P131,
}
impl Row for W77 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W77 { fn gen(g: &Gen, i: u64) -> Self { W77 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P132 {
    pub a: P83,
    pub b: u8,
}
impl Row for P132 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P132 { fn gen(g: &Gen, i: u64) -> Self { P132 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W78 {
    pub a: P132,
    pub b: P63,
    pub c: P59,
}
impl Row for W78 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W78 { fn gen(g: &Gen, i: u64) -> Self { W78 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P133 {
    pub a: P15,
    pub b: bool,
}
impl Row for P133 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P133 { fn gen(g: &Gen, i: u64) -> Self { P133 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W79 {
    pub a: P133,
    pub b: P15,
    pub c: u64,
}
impl Row for W79 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W79 { fn gen(g: &Gen, i: u64) -> Self { W79 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P134 {
    pub a: P42,
    pub b: Vec<f64>,
}
impl Row for P134 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P134 { fn gen(g: &Gen, i: u64) -> Self { P134 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W80 {
    pub a: P134,
    pub b: P15,
}
impl Row for W80 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W80 { fn gen(g: &Gen, i: u64) -> Self { W80 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W81 {
    pub a: P45,
    pub b: f64,
    pub c: P96,
}
impl Row for W81 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W81 { fn gen(g: &Gen, i: u64) -> Self { W81 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P135 {
    pub a: P50,
    pub b: i16,
}
impl Row for P135 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P135 { fn gen(g: &Gen, i: u64) -> Self { P135 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W82 {
    pub a: P135,
    pub b: Vec<i32>,
    pub c: P18,
}
impl Row for W82 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W82 { fn gen(g: &Gen, i: u64) -> Self { W82 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P136 {
    pub a: P28,
    pub b: String,
}
impl Row for P136 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P136 { fn gen(g: &Gen, i: u64) -> Self { P136 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W83 {
    pub a: P136,
    pub b: u16,
    pub c: i16,
}
impl Row for W83 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W83 { fn gen(g: &Gen, i: u64) -> Self { W83 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P137 {
    pub a: P31,
    pub b: [i16;3],
}
impl Row for P137 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P137 { fn gen(g: &Gen, i: u64) -> Self { P137 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W84 {
    pub a: P137,
    pub b: i8,
}
impl Row for W84 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W84 { fn gen(g: &Gen, i: u64) -> Self { W84 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W85 {
    pub a: P119,
}
impl Row for W85 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
impl GenV for W85 { fn gen(g: &Gen, i: u64) -> Self { W85 { a: GenV::gen(&sub(g, 0), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P138 {
    pub a: P80,
}
impl Row for P138 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
impl GenV for P138 { fn gen(g: &Gen, i: u64) -> Self { P138 { a: GenV::gen(&sub(g, 0), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P140 {
    pub a: f32,
    pub b: i32,
    pub c: i64,
}
impl Row for P140 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for P140 { fn gen(g: &Gen, i: u64) -> Self { P140 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P139 {
    pub a: P140,
}
impl Row for P139 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
impl GenV for P139 { fn gen(g: &Gen, i: u64) -> Self { P139 { a: GenV::gen(&sub(g, 0), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W86 {
    pub a: P138,
    pub b: P139,
}
impl Row for W86 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W86 { fn gen(g: &Gen, i: u64) -> Self { W86 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P141 {
    pub a: P82,
}
impl Row for P141 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
impl GenV for P141 { fn gen(g: &Gen, i: u64) -> Self { P141 { a: GenV::gen(&sub(g, 0), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P142 {
    pub a: P33,
    pub b: P82,
}
impl Row for P142 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P142 { fn gen(g: &Gen, i: u64) -> Self { P142 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W87 {
    pub a: P141,
    pub b: P142,
}
impl Row for W87 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W87 { fn gen(g: &Gen, i: u64) -> Self { W87 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W88 {
    pub a: P67,
    pub b: P34,
}
impl Row for W88 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W88 { fn gen(g: &Gen, i: u64) -> Self { W88 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W89 {
    pub a: P106,
    pub b: P36,
    pub c: P106,
}
impl Row for W89 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W89 { fn gen(g: &Gen, i: u64) -> Self { W89 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W90 {
    pub a: P126,
    pub b: P39,
    pub c: P42,
}
impl Row for W90 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W90 { fn gen(g: &Gen, i: u64) -> Self { W90 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P143 {
    pub a: P24,
}
impl Row for P143 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
impl GenV for P143 { fn gen(g: &Gen, i: u64) -> Self { P143 { a: GenV::gen(&sub(g, 0), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W91 {
    pub a: P143,
    pub b: P43,
    pub c: Vec<i32>,
}
impl Row for W91 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W91 { fn gen(g: &Gen, i: u64) -> Self { W91 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W92 {
    pub a: P2,
    pub b: P47,
}
impl Row for W92 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W92 { fn gen(g: &Gen, i: u64) -> Self { W92 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P144 {
    pub a: P6,
}
impl Row for P144 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
impl GenV for P144 { fn gen(g: &Gen, i: u64) -> Self { P144 { a: GenV::gen(&sub(g, 0), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P145 {
    pub a: P6,
    pub b: P52,
}
impl Row for P145 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P145 { fn gen(g: &Gen, i: u64) -> Self { P145 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W93 {
    pub a: P144,
    pub b: P145,
}
impl Row for W93 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W93 { fn gen(g: &Gen, i: u64) -> Self { W93 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W94 {
    pub a: P131,
    pub b: P78,
}
impl Row for W94 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W94 { fn gen(g: &Gen, i: u64) -> Self { W94 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P146 {
    pub a: P83,
}
impl Row for P146 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
impl GenV for P146 { fn gen(g: &Gen, i: u64) -> Self { P146 { a: GenV::gen(&sub(g, 0), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P147 {
    pub a: P83,
    pub b: P83,
    pub c: u8,
}
impl Row for P147 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for P147 { fn gen(g: &Gen, i: u64) -> Self { P147 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W95 {
    pub a: P146,
    pub b: P147,
}
impl Row for W95 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W95 { fn gen(g: &Gen, i: u64) -> Self { W95 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P148 {
    pub a: P82,
    pub b: P83,
}
impl Row for P148 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P148 { fn gen(g: &Gen, i: u64) -> Self { P148 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W96 {
    pub a: P14,
    pub b: P148,
    pub c: P138,
}
impl Row for W96 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W96 { fn gen(g: &Gen, i: u64) -> Self { W96 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P149 {
    pub a: P42,
}
impl Row for P149 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
impl GenV for P149 { fn gen(g: &Gen, i: u64) -> Self { P149 { a: GenV::gen(&sub(g, 0), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W97 {
    pub a: P149,
    pub b: P41,
    pub c: P42,
}
impl Row for W97 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W97 { fn gen(g: &Gen, i: u64) -> Self { W97 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P150 {
    pub a: P18,
    pub b: P42,
}
impl Row for P150 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P150 { fn gen(g: &Gen, i: u64) -> Self { P150 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W98 {
    pub a: P96,
    pub b: P150,
    pub c: Vec<f64>,
}
impl Row for W98 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W98 { fn gen(g: &Gen, i: u64) -> Self { W98 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P151 {
    pub a: P50,
    pub b: P50,
}
impl Row for P151 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P151 { fn gen(g: &Gen, i: u64) -> Self { P151 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W99 {
    pub a: P49,
    pub b: P151,
}
impl Row for W99 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W99 { fn gen(g: &Gen, i: u64) -> Self { W99 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P152 {
    pub a: P24,
    pub b: u16,
    pub c: P21,
}
impl Row for P152 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for P152 { fn gen(g: &Gen, i: u64) -> Self { P152 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W100 {
    pub a: P27,
    pub b: P152,
}
impl Row for W100 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W100 { fn gen(g: &Gen, i: u64) -> Self { W100 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W101 {
    pub a: P55,
    pub b: P118,
}
impl Row for W101 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W101 { fn gen(g: &Gen, i: u64) -> Self { W101 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W102 {
    pub a: P58,
    pub b: P130,
    pub c: P2,
}
impl Row for W102 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W102 { fn gen(g: &Gen, i: u64) -> Self { W102 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W103 {
    pub a: P138,
    pub b: P120,
    pub c: P80,
}
impl Row for W103 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W103 { fn gen(g: &Gen, i: u64) -> Self { W103 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W104 {
    pub a: P141,
    pub b: P132,
    pub c: f32,
}
impl Row for W104 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W104 { fn gen(g: &Gen, i: u64) -> Self { W104 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W105 {
    pub a: P67,
    pub b: P123,
}
impl Row for W105 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W105 { fn gen(g: &Gen, i: u64) -> Self { W105 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W106 {
    pub a: P106,
    pub b: P149,
    pub c: P64,
}
impl Row for W106 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W106 { fn gen(g: &Gen, i: u64) -> Self { W106 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P153 {
    pub a: P21,
    pub b: P21,
}
impl Row for P153 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P153 { fn gen(g: &Gen, i: u64) -> Self { P153 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W107 {
    pub a: P126,
    pub b: P126,
    pub c: P153,
}
impl Row for W107 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W107 { fn gen(g: &Gen, i: u64) -> Self { W107 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W108 {
    pub a: P143,
    pub b: P49,
    pub c: P125,
}
impl Row for W108 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W108 { fn gen(g: &Gen, i: u64) -> Self { W108 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W109 {
    pub a: P2,
    pub b: P2,
    pub c: P2,
}
impl Row for W109 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W109 { fn gen(g: &Gen, i: u64) -> Self { W109 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P154 {
    pub a: [i16;3],
    pub b: P28,
}
impl Row for P154 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P154 { fn gen(g: &Gen, i: u64) -> Self { P154 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W110 {
    pub a: P144,
    pub b: P55,
    pub c: P154,
}
impl Row for W110 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W110 { fn gen(g: &Gen, i: u64) -> Self { W110 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W111 {
    pub a: P131,
    pub b: P131,
    pub c: P54,
}
impl Row for W111 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W111 { fn gen(g: &Gen, i: u64) -> Self { W111 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W112 {
    pub a: P146,
    pub b: P138,
    pub c: P63,
}
impl Row for W112 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W112 { fn gen(g: &Gen, i: u64) -> Self { W112 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W113 {
    pub a: P14,
    pub b: P14,
    pub c: bool,
}
impl Row for W113 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W113 { fn gen(g: &Gen, i: u64) -> Self { W113 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W114 {
    pub a: P149,
    pub b: P67,
}
impl Row for W114 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W114 { fn gen(g: &Gen, i: u64) -> Self { W114 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P155 {
    pub a: [f32;10],
    pub b: P37,
}
impl Row for P155 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P155 { fn gen(g: &Gen, i: u64) -> Self { P155 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W115 {
    pub a: P96,
    pub b: P155,
}
impl Row for W115 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W115 { fn gen(g: &Gen, i: u64) -> Self { W115 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P156 {
    pub a: i16,
    pub b: P46,
    pub c: P18,
}
impl Row for P156 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for P156 { fn gen(g: &Gen, i: u64) -> Self { P156 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W116 {
    pub a: P49,
    pub b: P156,
}
impl Row for W116 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W116 { fn gen(g: &Gen, i: u64) -> Self { W116 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P157 {
    pub a: String,
    pub b: P28,
    pub c: u16,
}
impl Row for P157 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for P157 { fn gen(g: &Gen, i: u64) -> Self { P157 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W117 {
    pub a: P27,
    pub b: P157,
}
impl Row for W117 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W117 { fn gen(g: &Gen, i: u64) -> Self { W117 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W118 {
    pub a: P55,
    pub b: P154,
    pub c: P143,
}
impl Row for W118 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W118 { fn gen(g: &Gen, i: u64) -> Self { W118 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P158 {
    pub a: i64,
    pub b: P59,
}
impl Row for P158 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P158 { fn gen(g: &Gen, i: u64) -> Self { P158 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W119 {
    pub a: P58,
    pub b: P158,
    pub c: P59,
}
impl Row for W119 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W119 { fn gen(g: &Gen, i: u64) -> Self { W119 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P159 {
    pub a: f32,
    pub b: P59,
}
impl Row for P159 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P159 { fn gen(g: &Gen, i: u64) -> Self { P159 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W120 {
    pub a: P138,
    pub b: P159,
    pub c: i64,
}
impl Row for W120 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W120 { fn gen(g: &Gen, i: u64) -> Self { W120 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P160 {
    pub a: u64,
    pub b: P82,
}
impl Row for P160 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P160 { fn gen(g: &Gen, i: u64) -> Self { P160 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W121 {
    pub a: P141,
    pub b: P160,
}
impl Row for W121 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W121 { fn gen(g: &Gen, i: u64) -> Self { W121 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P161 {
    pub a: u32,
    pub b: bool,
    pub c: P83,
}
impl Row for P161 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for P161 { fn gen(g: &Gen, i: u64) -> Self { P161 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W122 {
    pub a: P67,
    pub b: P161,
}
impl Row for W122 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W122 { fn gen(g: &Gen, i: u64) -> Self { W122 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P162 {
    pub a: f64,
    pub b: Vec<f64>,
    pub c: u32,
}
impl Row for P162 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for P162 { fn gen(g: &Gen, i: u64) -> Self { P162 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W123 {
    pub a: P106,
    pub b: P162,
}
impl Row for W123 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W123 { fn gen(g: &Gen, i: u64) -> Self { W123 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W124 {
    pub a: P126,
    pub b: P40,
    pub c: P149,
}
impl Row for W124 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W124 { fn gen(g: &Gen, i: u64) -> Self { W124 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W125 {
    pub a: P143,
    pub b: P44,
    pub c: P24,
}
impl Row for W125 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W125 { fn gen(g: &Gen, i: u64) -> Self { W125 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W126 {
    pub a: P2,
    pub b: P48,
    pub c: u16,
}
impl Row for W126 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W126 { fn gen(g: &Gen, i: u64) -> Self { W126 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W127 {
    pub a: P144,
    pub b: P52,
}
impl Row for W127 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W127 { fn gen(g: &Gen, i: u64) -> Self { W127 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W128 {
    pub a: P131,
    pub b: P59,
    pub c: P71,
}
impl Row for W128 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W128 { fn gen(g: &Gen, i: u64) -> Self { W128 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P163 {
    pub a: P83,
    pub b: P83,
}
impl Row for P163 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P163 { fn gen(g: &Gen, i: u64) -> Self { P163 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W129 {
    pub a: P146,
    pub b: P83,
    pub c: P163,
}
impl Row for W129 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W129 { fn gen(g: &Gen, i: u64) -> Self { W129 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W130 {
    pub a: P14,
    pub b: P82,
    pub c: P132,
}
impl Row for W130 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W130 { fn gen(g: &Gen, i: u64) -> Self { W130 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W131 {
    pub a: P149,
    pub b: P42,
    pub c: P149,
}
impl Row for W131 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W131 { fn gen(g: &Gen, i: u64) -> Self { W131 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P164 {
    pub a: f64,
    pub b: P13,
}
impl Row for P164 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P164 { fn gen(g: &Gen, i: u64) -> Self { P164 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W132 {
    pub a: P96,
    pub b: P18,
    pub c: P164,
}
impl Row for W132 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W132 { fn gen(g: &Gen, i: u64) -> Self { W132 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W133 {
    pub a: P49,
    pub b: P50,
    pub c: P17,
}
impl Row for W133 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W133 { fn gen(g: &Gen, i: u64) -> Self { W133 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W134 {
    pub a: P27,
    pub b: P24,
    pub c: P50,
}
impl Row for W134 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W134 { fn gen(g: &Gen, i: u64) -> Self { W134 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W135 {
    pub a: P55,
    pub b: P31,
    pub c: [i16;3],
}
impl Row for W135 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W135 { fn gen(g: &Gen, i: u64) -> Self { W135 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W136 {
    pub a: P58,
    pub b: P6,
}
impl Row for W136 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W136 { fn gen(g: &Gen, i: u64) -> Self { W136 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W137 {
    pub a: P138,
    pub b: f32,
    pub c: P53,
}
impl Row for W137 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W137 { fn gen(g: &Gen, i: u64) -> Self { W137 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W138 {
    pub a: P141,
    pub b: u64,
    pub c: P102,
}
impl Row for W138 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W138 { fn gen(g: &Gen, i: u64) -> Self { W138 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P165 {
    pub a: P13,
    pub b: bool,
}
impl Row for P165 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P165 { fn gen(g: &Gen, i: u64) -> Self { P165 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W139 {
    pub a: P67,
    pub b: u32,
    pub c: P165,
}
impl Row for W139 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W139 { fn gen(g: &Gen, i: u64) -> Self { W139 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W140 {
    pub a: P106,
    pub b: f64,
    pub c: P67,
}
impl Row for W140 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W140 { fn gen(g: &Gen, i: u64) -> Self { W140 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P166 {
    pub a: [f32;10],
    pub b: P21,
}
impl Row for P166 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P166 { fn gen(g: &Gen, i: u64) -> Self { P166 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W141 {
    pub a: P126,
    pub b: Vec<i32>,
    pub c: P166,
}
impl Row for W141 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W141 { fn gen(g: &Gen, i: u64) -> Self { W141 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W142 {
    pub a: P143,
    pub b: u16,
    pub c: P17,
}
impl Row for W142 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W142 { fn gen(g: &Gen, i: u64) -> Self { W142 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W143 {
    pub a: P2,
    pub b: i8,
    pub c: P3,
}
impl Row for W143 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W143 { fn gen(g: &Gen, i: u64) -> Self { W143 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W144 {
    pub a: P144,
    pub b: Vec<u8>,
    pub c: [i16;3],
}
impl Row for W144 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W144 { fn gen(g: &Gen, i: u64) -> Self { W144 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W145 {
    pub a: P131,
    pub b: i32,
}
impl Row for W145 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W145 { fn gen(g: &Gen, i: u64) -> Self { W145 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W146 {
    pub a: P146,
}
impl Row for W146 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
impl GenV for W146 { fn gen(g: &Gen, i: u64) -> Self { W146 { a: GenV::gen(&sub(g, 0), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P167 {
    pub a: u32,
    pub b: P61,
}
impl Row for P167 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P167 { fn gen(g: &Gen, i: u64) -> Self { P167 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W147 {
    pub a: P167,
    pub b: P138,
}
impl Row for W147 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W147 { fn gen(g: &Gen, i: u64) -> Self { W147 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P168 {
    pub a: f64,
    pub b: P65,
}
impl Row for P168 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P168 { fn gen(g: &Gen, i: u64) -> Self { P168 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W148 {
    pub a: P168,
    pub b: P82,
}
impl Row for W148 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W148 { fn gen(g: &Gen, i: u64) -> Self { W148 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P169 {
    pub a: Vec<i32>,
    pub b: P12,
}
impl Row for P169 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P169 { fn gen(g: &Gen, i: u64) -> Self { P169 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W149 {
    pub a: P169,
    pub b: Vec<f64>,
}
impl Row for W149 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W149 { fn gen(g: &Gen, i: u64) -> Self { W149 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P170 {
    pub a: u16,
    pub b: P17,
}
impl Row for P170 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P170 { fn gen(g: &Gen, i: u64) -> Self { P170 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W150 {
    pub a: P170,
}
impl Row for W150 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
impl GenV for W150 { fn gen(g: &Gen, i: u64) -> Self { W150 { a: GenV::gen(&sub(g, 0), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P171 {
    pub a: i8,
    pub b: P24,
    pub c: P24,
}
impl Row for P171 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for P171 { fn gen(g: &Gen, i: u64) -> Self { P171 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W151 {
    pub a: P171,
    pub b: P143,
}
impl Row for W151 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W151 { fn gen(g: &Gen, i: u64) -> Self { W151 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P172 {
    pub a: Vec<u8>,
    pub b: P3,
    pub c: P28,
}
impl Row for P172 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for P172 { fn gen(g: &Gen, i: u64) -> Self { P172 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W152 {
    pub a: P172,
    pub b: P24,
}
impl Row for W152 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W152 { fn gen(g: &Gen, i: u64) -> Self { W152 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P173 {
    pub a: i32,
    pub b: P6,
    pub c: P6,
}
impl Row for P173 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for P173 { fn gen(g: &Gen, i: u64) -> Self { P173 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W153 {
    pub a: P173,
    pub b: Vec<u8>,
}
impl Row for W153 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W153 { fn gen(g: &Gen, i: u64) -> Self { W153 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P174 {
    pub a: u8,
    pub b: P63,
    pub c: P59,
}
impl Row for P174 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for P174 { fn gen(g: &Gen, i: u64) -> Self { P174 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W154 {
    pub a: P174,
}
impl Row for W154 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
impl GenV for W154 { fn gen(g: &Gen, i: u64) -> Self { W154 { a: GenV::gen(&sub(g, 0), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P175 {
    pub a: bool,
    pub b: P83,
    pub c: u8,
}
impl Row for P175 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for P175 { fn gen(g: &Gen, i: u64) -> Self { P175 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W155 {
    pub a: P175,
    pub b: P146,
}
impl Row for W155 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W155 { fn gen(g: &Gen, i: u64) -> Self { W155 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P176 {
    pub a: Vec<f64>,
    pub b: P15,
    pub c: bool,
}
impl Row for P176 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for P176 { fn gen(g: &Gen, i: u64) -> Self { P176 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W156 {
    pub a: P176,
    pub b: P83,
}
impl Row for W156 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W156 { fn gen(g: &Gen, i: u64) -> Self { W156 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P177 {
    pub a: [f32;10],
    pub b: P42,
    pub c: Vec<f64>,
}
impl Row for P177 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for P177 { fn gen(g: &Gen, i: u64) -> Self { P177 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W157 {
    pub a: P177,
    pub b: u32,
}
impl Row for W157 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W157 { fn gen(g: &Gen, i: u64) -> Self { W157 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P178 {
    pub a: i16,
    pub b: P46,
    pub c: [f32;10],
}
impl Row for P178 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for P178 { fn gen(g: &Gen, i: u64) -> Self { P178 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W158 {
    pub a: P178,
}
impl Row for W158 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
impl GenV for W158 { fn gen(g: &Gen, i: u64) -> Self { W158 { a: GenV::gen(&sub(g, 0), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P179 {
    pub a: String,
    pub b: P50,
}
impl Row for P179 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P179 { fn gen(g: &Gen, i: u64) -> Self { P179 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W159 {
    pub a: P179,
    pub b: P68,
}
impl Row for W159 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W159 { fn gen(g: &Gen, i: u64) -> Self { W159 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P180 {
    pub a: P24,
    pub b: P50,
}
impl Row for P180 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P180 { fn gen(g: &Gen, i: u64) -> Self { P180 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W160 {
    pub a: P154,
    pub b: P180,
}
impl Row for W160 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W160 { fn gen(g: &Gen, i: u64) -> Self { W160 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P181 {
    pub a: i64,
    pub b: P31,
}
impl Row for P181 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P181 { fn gen(g: &Gen, i: u64) -> Self { P181 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W161 {
    pub a: P181,
    pub b: P137,
}
impl Row for W161 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W161 { fn gen(g: &Gen, i: u64) -> Self { W161 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W162 {
    pub a: P159,
    pub b: P144,
    pub c: P55,
}
impl Row for W162 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W162 { fn gen(g: &Gen, i: u64) -> Self { W162 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P182 {
    pub a: u64,
    pub b: P80,
}
impl Row for P182 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P182 { fn gen(g: &Gen, i: u64) -> Self { P182 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W163 {
    pub a: P182,
    pub b: P138,
    pub c: P80,
}
impl Row for W163 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W163 { fn gen(g: &Gen, i: u64) -> Self { W163 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P183 {
    pub a: u32,
    pub b: P82,
}
impl Row for P183 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P183 { fn gen(g: &Gen, i: u64) -> Self { P183 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W164 {
    pub a: P183,
    pub b: P146,
    pub c: u8,
}
impl Row for W164 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W164 { fn gen(g: &Gen, i: u64) -> Self { W164 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W165 {
    pub a: P164,
    pub b: P67,
}
impl Row for W165 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W165 { fn gen(g: &Gen, i: u64) -> Self { W165 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P184 {
    pub a: Vec<i32>,
    pub b: P18,
}
impl Row for P184 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P184 { fn gen(g: &Gen, i: u64) -> Self { P184 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W166 {
    pub a: P184,
    pub b: P164,
}
impl Row for W166 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W166 { fn gen(g: &Gen, i: u64) -> Self { W166 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P185 {
    pub a: u16,
    pub b: P21,
}
impl Row for P185 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P185 { fn gen(g: &Gen, i: u64) -> Self { P185 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W167 {
    pub a: P185,
    pub b: P40,
}
impl Row for W167 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W167 { fn gen(g: &Gen, i: u64) -> Self { W167 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P186 {
    pub a: i8,
    pub b: P24,
}
impl Row for P186 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P186 { fn gen(g: &Gen, i: u64) -> Self { P186 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W168 {
    pub a: P186,
    pub b: P50,
    pub c: P126,
}
impl Row for W168 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W168 { fn gen(g: &Gen, i: u64) -> Self { W168 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P187 {
    pub a: Vec<u8>,
    pub b: P3,
}
impl Row for P187 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P187 { fn gen(g: &Gen, i: u64) -> Self { P187 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W169 {
    pub a: P187,
    pub b: P3,
    pub c: P3,
}
impl Row for W169 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W169 { fn gen(g: &Gen, i: u64) -> Self { W169 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P188 {
    pub a: i32,
    pub b: P6,
}
impl Row for P188 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P188 { fn gen(g: &Gen, i: u64) -> Self { P188 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W170 {
    pub a: P188,
    pub b: P31,
    pub c: [i16;3],
}
impl Row for W170 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W170 { fn gen(g: &Gen, i: u64) -> Self { W170 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W171 {
    pub a: P62,
    pub b: P63,
}
impl Row for W171 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W171 { fn gen(g: &Gen, i: u64) -> Self { W171 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P189 {
    pub a: bool,
    pub b: P83,
}
impl Row for P189 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P189 { fn gen(g: &Gen, i: u64) -> Self { P189 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W172 {
    pub a: P189,
    pub b: u8,
    pub c: P131,
}
impl Row for W172 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W172 { fn gen(g: &Gen, i: u64) -> Self { W172 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P190 {
    pub a: Vec<f64>,
    pub b: P15,
}
impl Row for P190 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P190 { fn gen(g: &Gen, i: u64) -> Self { P190 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W173 {
    pub a: P190,
    pub b: bool,
    pub c: P15,
}
impl Row for W173 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W173 { fn gen(g: &Gen, i: u64) -> Self { W173 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P191 {
    pub a: [f32;10],
    pub b: P42,
}
impl Row for P191 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P191 { fn gen(g: &Gen, i: u64) -> Self { P191 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W174 {
    pub a: P191,
    pub b: Vec<f64>,
    pub c: u32,
}
impl Row for W174 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W174 { fn gen(g: &Gen, i: u64) -> Self { W174 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P192 {
    pub a: i16,
    pub b: P46,
}
impl Row for P192 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P192 { fn gen(g: &Gen, i: u64) -> Self { P192 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W175 {
    pub a: P192,
    pub b: [f32;10],
}
impl Row for W175 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W175 { fn gen(g: &Gen, i: u64) -> Self { W175 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W176 {
    pub a: P179,
}
impl Row for W176 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
impl GenV for W176 { fn gen(g: &Gen, i: u64) -> Self { W176 { a: GenV::gen(&sub(g, 0), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P193 {
    pub a: [i16;3],
    pub b: i8,
    pub c: P24,
}
impl Row for P193 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for P193 { fn gen(g: &Gen, i: u64) -> Self { P193 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W177 {
    pub a: P193,
    pub b: P143,
}
impl Row for W177 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W177 { fn gen(g: &Gen, i: u64) -> Self { W177 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P194 {
    pub a: i64,
    pub b: Vec<u8>,
    pub c: P3,
}
impl Row for P194 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for P194 { fn gen(g: &Gen, i: u64) -> Self { P194 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W178 {
    pub a: P194,
    pub b: P28,
}
impl Row for W178 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W178 { fn gen(g: &Gen, i: u64) -> Self { W178 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P195 {
    pub a: f32,
    pub b: i32,
    pub c: P6,
}
impl Row for P195 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for P195 { fn gen(g: &Gen, i: u64) -> Self { P195 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W179 {
    pub a: P195,
    pub b: Vec<u8>,
}
impl Row for W179 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W179 { fn gen(g: &Gen, i: u64) -> Self { W179 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P196 {
    pub a: u64,
    pub b: u8,
    pub c: P63,
}
impl Row for P196 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for P196 { fn gen(g: &Gen, i: u64) -> Self { P196 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W180 {
    pub a: P196,
}
impl Row for W180 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
impl GenV for W180 { fn gen(g: &Gen, i: u64) -> Self { W180 { a: GenV::gen(&sub(g, 0), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P197 {
    pub a: u32,
    pub b: bool,
    pub c: u64,
}
impl Row for P197 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for P197 { fn gen(g: &Gen, i: u64) -> Self { P197 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W181 {
    pub a: P197,
    pub b: P138,
}
impl Row for W181 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W181 { fn gen(g: &Gen, i: u64) -> Self { W181 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W182 {
    pub a: P162,
    pub b: P82,
}
impl Row for W182 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W182 { fn gen(g: &Gen, i: u64) -> Self { W182 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P198 {
    pub a: Vec<i32>,
    pub b: [f32;10],
    pub c: f64,
}
impl Row for P198 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for P198 { fn gen(g: &Gen, i: u64) -> Self { P198 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W183 {
    pub a: P198,
    pub b: Vec<f64>,
}
impl Row for W183 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W183 { fn gen(g: &Gen, i: u64) -> Self { W183 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P199 {
    pub a: u16,
    pub b: i16,
    pub c: Vec<i32>,
}
impl Row for P199 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for P199 { fn gen(g: &Gen, i: u64) -> Self { P199 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W184 {
    pub a: P199,
}
impl Row for W184 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
impl GenV for W184 { fn gen(g: &Gen, i: u64) -> Self { W184 { a: GenV::gen(&sub(g, 0), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W185 {
    pub a: P48,
    pub b: P47,
}
impl Row for W185 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W185 { fn gen(g: &Gen, i: u64) -> Self { W185 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P200 {
    pub a: P28,
    pub b: P24,
}
impl Row for P200 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P200 { fn gen(g: &Gen, i: u64) -> Self { P200 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W186 {
    pub a: P52,
    pub b: P200,
}
impl Row for W186 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W186 { fn gen(g: &Gen, i: u64) -> Self { W186 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W187 {
    pub a: P54,
    pub b: P137,
}
impl Row for W187 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W187 { fn gen(g: &Gen, i: u64) -> Self { W187 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W188 {
    pub a: P57,
    pub b: P58,
    pub c: P144,
}
impl Row for W188 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W188 { fn gen(g: &Gen, i: u64) -> Self { W188 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W189 {
    pub a: P61,
    pub b: P138,
    pub c: P80,
}
impl Row for W189 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W189 { fn gen(g: &Gen, i: u64) -> Self { W189 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W190 {
    pub a: P65,
    pub b: P141,
    pub c: u64,
}
impl Row for W190 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W190 { fn gen(g: &Gen, i: u64) -> Self { W190 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W191 {
    pub a: P12,
    pub b: P67,
}
impl Row for W191 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W191 { fn gen(g: &Gen, i: u64) -> Self { W191 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W192 {
    pub a: P17,
    pub b: P191,
}
impl Row for W192 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W192 { fn gen(g: &Gen, i: u64) -> Self { W192 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W193 {
    pub a: P20,
    pub b: P20,
}
impl Row for W193 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W193 { fn gen(g: &Gen, i: u64) -> Self { W193 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W194 {
    pub a: P23,
    pub b: P24,
    pub c: P49,
}
impl Row for W194 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W194 { fn gen(g: &Gen, i: u64) -> Self { W194 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W195 {
    pub a: P26,
    pub b: P3,
    pub c: P3,
}
impl Row for W195 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W195 { fn gen(g: &Gen, i: u64) -> Self { W195 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W196 {
    pub a: P30,
    pub b: P6,
    pub c: Vec<u8>,
}
impl Row for W196 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W196 { fn gen(g: &Gen, i: u64) -> Self { W196 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W197 {
    pub a: P33,
    pub b: P63,
}
impl Row for W197 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W197 { fn gen(g: &Gen, i: u64) -> Self { W197 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W198 {
    pub a: P35,
    pub b: u64,
    pub c: P138,
}
impl Row for W198 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W198 { fn gen(g: &Gen, i: u64) -> Self { W198 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W199 {
    pub a: P37,
    pub b: u32,
    pub c: P82,
}
impl Row for W199 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W199 { fn gen(g: &Gen, i: u64) -> Self { W199 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W200 {
    pub a: P40,
    pub b: f64,
    pub c: Vec<f64>,
}
impl Row for W200 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W200 { fn gen(g: &Gen, i: u64) -> Self { W200 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W201 {
    pub a: P44,
    pub b: Vec<i32>,
}
impl Row for W201 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W201 { fn gen(g: &Gen, i: u64) -> Self { W201 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W202 {
    pub a: P48,
}
impl Row for W202 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
impl GenV for W202 { fn gen(g: &Gen, i: u64) -> Self { W202 { a: GenV::gen(&sub(g, 0), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P202 {
    pub a: [i16;3],
    pub b: i8,
    pub c: String,
}
impl Row for P202 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for P202 { fn gen(g: &Gen, i: u64) -> Self { P202 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P201 {
    pub a: P202,
}
impl Row for P201 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
impl GenV for P201 { fn gen(g: &Gen, i: u64) -> Self { P201 { a: GenV::gen(&sub(g, 0), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W203 {
    pub a: P31,
    pub b: P201,
}
impl Row for W203 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W203 { fn gen(g: &Gen, i: u64) -> Self { W203 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P203 {
    pub a: P26,
    pub b: P3,
}
impl Row for P203 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P203 { fn gen(g: &Gen, i: u64) -> Self { P203 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W204 {
    pub a: P59,
    pub b: P203,
}
impl Row for W204 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W204 { fn gen(g: &Gen, i: u64) -> Self { W204 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W205 {
    pub a: P80,
    pub b: P29,
}
impl Row for W205 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W205 { fn gen(g: &Gen, i: u64) -> Self { W205 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W206 {
    pub a: P82,
    pub b: P73,
    pub c: P131,
}
impl Row for W206 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W206 { fn gen(g: &Gen, i: u64) -> Self { W206 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W207 {
    pub a: P13,
    pub b: P38,
    pub c: P13,
}
impl Row for W207 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W207 { fn gen(g: &Gen, i: u64) -> Self { W207 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W208 {
    pub a: P18,
    pub b: P36,
    pub c: u32,
}
impl Row for W208 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W208 { fn gen(g: &Gen, i: u64) -> Self { W208 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W209 {
    pub a: P21,
    pub b: P39,
}
impl Row for W209 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W209 { fn gen(g: &Gen, i: u64) -> Self { W209 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W210 {
    pub a: P24,
    pub b: P75,
}
impl Row for W210 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W210 { fn gen(g: &Gen, i: u64) -> Self { W210 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P204 {
    pub a: P3,
    pub b: P3,
    pub c: P3,
}
impl Row for P204 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for P204 { fn gen(g: &Gen, i: u64) -> Self { P204 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W211 {
    pub a: P3,
    pub b: P204,
}
impl Row for W211 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W211 { fn gen(g: &Gen, i: u64) -> Self { W211 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P205 {
    pub a: P31,
    pub b: P3,
    pub c: i8,
}
impl Row for P205 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for P205 { fn gen(g: &Gen, i: u64) -> Self { P205 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W212 {
    pub a: P6,
    pub b: P205,
}
impl Row for W212 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W212 { fn gen(g: &Gen, i: u64) -> Self { W212 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W213 {
    pub a: P63,
    pub b: P90,
    pub c: P131,
}
impl Row for W213 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W213 { fn gen(g: &Gen, i: u64) -> Self { W213 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W214 {
    pub a: P83,
    pub b: P102,
    pub c: P59,
}
impl Row for W214 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W214 { fn gen(g: &Gen, i: u64) -> Self { W214 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W215 {
    pub a: P15,
    pub b: P93,
    pub c: bool,
}
impl Row for W215 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W215 { fn gen(g: &Gen, i: u64) -> Self { W215 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W216 {
    pub a: P42,
    pub b: P104,
}
impl Row for W216 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W216 { fn gen(g: &Gen, i: u64) -> Self { W216 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P206 {
    pub a: P46,
    pub b: [f32;10],
    pub c: P46,
}
impl Row for P206 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for P206 { fn gen(g: &Gen, i: u64) -> Self { P206 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W217 {
    pub a: P46,
    pub b: P206,
}
impl Row for W217 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W217 { fn gen(g: &Gen, i: u64) -> Self { W217 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P207 {
    pub a: P21,
    pub b: Vec<i32>,
    pub c: [f32;10],
}
impl Row for P207 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for P207 { fn gen(g: &Gen, i: u64) -> Self { P207 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W218 {
    pub a: P50,
    pub b: P207,
}
impl Row for W218 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W218 { fn gen(g: &Gen, i: u64) -> Self { W218 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W219 {
    pub a: P28,
    pub b: P136,
    pub c: P27,
}
impl Row for W219 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W219 { fn gen(g: &Gen, i: u64) -> Self { W219 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W220 {
    pub a: P31,
    pub b: P128,
    pub c: P24,
}
impl Row for W220 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W220 { fn gen(g: &Gen, i: u64) -> Self { W220 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W221 {
    pub a: P59,
    pub b: P119,
    pub c: Vec<u8>,
}
impl Row for W221 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W221 { fn gen(g: &Gen, i: u64) -> Self { W221 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W222 {
    pub a: P80,
    pub b: P92,
}
impl Row for W222 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W222 { fn gen(g: &Gen, i: u64) -> Self { W222 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W223 {
    pub a: P82,
    pub b: P141,
    pub c: P73,
}
impl Row for W223 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W223 { fn gen(g: &Gen, i: u64) -> Self { W223 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W224 {
    pub a: P13,
    pub b: P14,
    pub c: P148,
}
impl Row for W224 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W224 { fn gen(g: &Gen, i: u64) -> Self { W224 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W225 {
    pub a: P18,
    pub b: P106,
    pub c: P124,
}
impl Row for W225 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W225 { fn gen(g: &Gen, i: u64) -> Self { W225 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W226 {
    pub a: P21,
    pub b: P96,
    pub c: P106,
}
impl Row for W226 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W226 { fn gen(g: &Gen, i: u64) -> Self { W226 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P208 {
    pub a: u16,
    pub b: P24,
}
impl Row for P208 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P208 { fn gen(g: &Gen, i: u64) -> Self { P208 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W227 {
    pub a: P24,
    pub b: P143,
    pub c: P208,
}
impl Row for W227 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W227 { fn gen(g: &Gen, i: u64) -> Self { W227 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W228 {
    pub a: P3,
    pub b: P27,
    pub c: P20,
}
impl Row for W228 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W228 { fn gen(g: &Gen, i: u64) -> Self { W228 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W229 {
    pub a: P6,
    pub b: P144,
    pub c: P6,
}
impl Row for W229 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W229 { fn gen(g: &Gen, i: u64) -> Self { W229 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W230 {
    pub a: P63,
    pub b: P58,
    pub c: i64,
}
impl Row for W230 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W230 { fn gen(g: &Gen, i: u64) -> Self { W230 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W231 {
    pub a: P83,
    pub b: P146,
}
impl Row for W231 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W231 { fn gen(g: &Gen, i: u64) -> Self { W231 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P209 {
    pub a: bool,
    pub b: P33,
}
impl Row for P209 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P209 { fn gen(g: &Gen, i: u64) -> Self { P209 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W232 {
    pub a: P15,
    pub b: P209,
}
impl Row for W232 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W232 { fn gen(g: &Gen, i: u64) -> Self { W232 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P210 {
    pub a: Vec<f64>,
    pub b: P42,
    pub c: P42,
}
impl Row for P210 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for P210 { fn gen(g: &Gen, i: u64) -> Self { P210 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W233 {
    pub a: P42,
    pub b: P210,
}
impl Row for W233 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W233 { fn gen(g: &Gen, i: u64) -> Self { W233 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W234 {
    pub a: P46,
    pub b: P177,
}
impl Row for W234 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W234 { fn gen(g: &Gen, i: u64) -> Self { W234 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P211 {
    pub a: i16,
    pub b: P50,
}
impl Row for P211 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P211 { fn gen(g: &Gen, i: u64) -> Self { P211 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W235 {
    pub a: P50,
    pub b: P211,
    pub c: P49,
}
impl Row for W235 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W235 { fn gen(g: &Gen, i: u64) -> Self { W235 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W236 {
    pub a: P28,
    pub b: P179,
    pub c: P21,
}
impl Row for W236 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W236 { fn gen(g: &Gen, i: u64) -> Self { W236 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P212 {
    pub a: [i16;3],
    pub b: P31,
}
impl Row for P212 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P212 { fn gen(g: &Gen, i: u64) -> Self { P212 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W237 {
    pub a: P31,
    pub b: P212,
    pub c: i8,
}
impl Row for W237 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W237 { fn gen(g: &Gen, i: u64) -> Self { W237 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W238 {
    pub a: P59,
    pub b: P181,
}
impl Row for W238 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W238 { fn gen(g: &Gen, i: u64) -> Self { W238 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P213 {
    pub a: f32,
    pub b: i32,
    pub c: P80,
}
impl Row for P213 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for P213 { fn gen(g: &Gen, i: u64) -> Self { P213 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W239 {
    pub a: P80,
    pub b: P213,
}
impl Row for W239 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W239 { fn gen(g: &Gen, i: u64) -> Self { W239 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P214 {
    pub a: u64,
    pub b: u8,
    pub c: f32,
}
impl Row for P214 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for P214 { fn gen(g: &Gen, i: u64) -> Self { P214 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W240 {
    pub a: P82,
    pub b: P214,
}
impl Row for W240 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W240 { fn gen(g: &Gen, i: u64) -> Self { W240 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W241 {
    pub a: P13,
    pub b: P35,
    pub c: P67,
}
impl Row for W241 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W241 { fn gen(g: &Gen, i: u64) -> Self { W241 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W242 {
    pub a: P18,
    pub b: P37,
    pub c: P15,
}
impl Row for W242 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W242 { fn gen(g: &Gen, i: u64) -> Self { W242 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W243 {
    pub a: P21,
    pub b: P40,
    pub c: f64,
}
impl Row for W243 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W243 { fn gen(g: &Gen, i: u64) -> Self { W243 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W244 {
    pub a: P24,
    pub b: P44,
}
impl Row for W244 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W244 { fn gen(g: &Gen, i: u64) -> Self { W244 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W245 {
    pub a: P3,
    pub b: P3,
    pub c: P47,
}
impl Row for W245 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W245 { fn gen(g: &Gen, i: u64) -> Self { W245 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W246 {
    pub a: P6,
    pub b: P31,
    pub c: P109,
}
impl Row for W246 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W246 { fn gen(g: &Gen, i: u64) -> Self { W246 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W247 {
    pub a: P63,
    pub b: P63,
    pub c: P92,
}
impl Row for W247 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W247 { fn gen(g: &Gen, i: u64) -> Self { W247 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W248 {
    pub a: P83,
    pub b: P80,
    pub c: P131,
}
impl Row for W248 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W248 { fn gen(g: &Gen, i: u64) -> Self { W248 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P215 {
    pub a: bool,
    pub b: P15,
}
impl Row for P215 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P215 { fn gen(g: &Gen, i: u64) -> Self { P215 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W249 {
    pub a: P15,
    pub b: P15,
    pub c: P215,
}
impl Row for W249 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W249 { fn gen(g: &Gen, i: u64) -> Self { W249 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W250 {
    pub a: P42,
    pub b: P13,
    pub c: P35,
}
impl Row for W250 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W250 { fn gen(g: &Gen, i: u64) -> Self { W250 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W251 {
    pub a: P46,
    pub b: P46,
    pub c: P46,
}
impl Row for W251 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W251 { fn gen(g: &Gen, i: u64) -> Self { W251 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W252 {
    pub a: P50,
    pub b: P21,
    pub c: Vec<i32>,
}
impl Row for W252 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W252 { fn gen(g: &Gen, i: u64) -> Self { W252 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W253 {
    pub a: P28,
    pub b: P28,
}
impl Row for W253 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W253 { fn gen(g: &Gen, i: u64) -> Self { W253 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W254 {
    pub a: P31,
    pub b: [i16;3],
    pub c: P47,
}
impl Row for W254 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W254 { fn gen(g: &Gen, i: u64) -> Self { W254 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W255 {
    pub a: P59,
    pub b: i64,
    pub c: P101,
}
impl Row for W255 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W255 { fn gen(g: &Gen, i: u64) -> Self { W255 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W256 {
    pub a: P80,
    pub b: f32,
    pub c: P119,
}
impl Row for W256 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W256 { fn gen(g: &Gen, i: u64) -> Self { W256 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W257 {
    pub a: P82,
    pub b: u64,
    pub c: P141,
}
impl Row for W257 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W257 { fn gen(g: &Gen, i: u64) -> Self { W257 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W258 {
    pub a: P13,
    pub b: u32,
    pub c: P189,
}
impl Row for W258 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W258 { fn gen(g: &Gen, i: u64) -> Self { W258 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W259 {
    pub a: P18,
    pub b: f64,
    pub c: P65,
}
impl Row for W259 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W259 { fn gen(g: &Gen, i: u64) -> Self { W259 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W260 {
    pub a: P21,
    pub b: Vec<i32>,
    pub c: P18,
}
impl Row for W260 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W260 { fn gen(g: &Gen, i: u64) -> Self { W260 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W261 {
    pub a: P24,
    pub b: u16,
    pub c: i16,
}
impl Row for W261 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W261 { fn gen(g: &Gen, i: u64) -> Self { W261 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W262 {
    pub a: P3,
    pub b: i8,
}
impl Row for W262 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W262 { fn gen(g: &Gen, i: u64) -> Self { W262 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W263 {
    pub a: P6,
}
impl Row for W263 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
impl GenV for W263 { fn gen(g: &Gen, i: u64) -> Self { W263 { a: GenV::gen(&sub(g, 0), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W264 {
    pub a: f32,
    pub b: P0,
}
impl Row for W264 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W264 { fn gen(g: &Gen, i: u64) -> Self { W264 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P216 {
    pub a: P57,
    pub b: P59,
}
impl Row for P216 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P216 { fn gen(g: &Gen, i: u64) -> Self { P216 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W265 {
    pub a: u64,
    pub b: P216,
}
impl Row for W265 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W265 { fn gen(g: &Gen, i: u64) -> Self { W265 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P217 {
    pub a: P61,
    pub b: u8,
}
impl Row for P217 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P217 { fn gen(g: &Gen, i: u64) -> Self { P217 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W266 {
    pub a: u32,
    pub b: P217,
}
impl Row for W266 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W266 { fn gen(g: &Gen, i: u64) -> Self { W266 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W267 {
    pub a: f64,
    pub b: P64,
    pub c: P141,
}
impl Row for W267 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W267 { fn gen(g: &Gen, i: u64) -> Self { W267 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W268 {
    pub a: Vec<i32>,
    pub b: P66,
    pub c: P13,
}
impl Row for W268 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W268 { fn gen(g: &Gen, i: u64) -> Self { W268 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W269 {
    pub a: u16,
    pub b: P68,
    pub c: [f32;10],
}
impl Row for W269 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W269 { fn gen(g: &Gen, i: u64) -> Self { W269 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W270 {
    pub a: i8,
    pub b: P69,
}
impl Row for W270 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W270 { fn gen(g: &Gen, i: u64) -> Self { W270 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P218 {
    pub a: P3,
    pub b: P48,
}
impl Row for P218 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P218 { fn gen(g: &Gen, i: u64) -> Self { P218 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W271 {
    pub a: Vec<u8>,
    pub b: P218,
}
impl Row for W271 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W271 { fn gen(g: &Gen, i: u64) -> Self { W271 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P219 {
    pub a: P6,
    pub b: P31,
    pub c: P3,
}
impl Row for P219 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for P219 { fn gen(g: &Gen, i: u64) -> Self { P219 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W272 {
    pub a: i32,
    pub b: P219,
}
impl Row for W272 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W272 { fn gen(g: &Gen, i: u64) -> Self { W272 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P220 {
    pub a: P63,
    pub b: P63,
    pub c: i32,
}
impl Row for P220 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for P220 { fn gen(g: &Gen, i: u64) -> Self { P220 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W273 {
    pub a: u8,
    pub b: P220,
}
impl Row for W273 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W273 { fn gen(g: &Gen, i: u64) -> Self { W273 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W274 {
    pub a: bool,
    pub b: P91,
    pub c: P131,
}
impl Row for W274 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W274 { fn gen(g: &Gen, i: u64) -> Self { W274 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W275 {
    pub a: Vec<f64>,
    pub b: P93,
    pub c: P15,
}
impl Row for W275 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W275 { fn gen(g: &Gen, i: u64) -> Self { W275 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W276 {
    pub a: [f32;10],
    pub b: P94,
    pub c: u32,
}
impl Row for W276 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W276 { fn gen(g: &Gen, i: u64) -> Self { W276 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W277 {
    pub a: i16,
    pub b: P95,
}
impl Row for W277 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W277 { fn gen(g: &Gen, i: u64) -> Self { W277 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P221 {
    pub a: P50,
    pub b: i16,
    pub c: P46,
}
impl Row for P221 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for P221 { fn gen(g: &Gen, i: u64) -> Self { P221 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W278 {
    pub a: String,
    pub b: P221,
}
impl Row for W278 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W278 { fn gen(g: &Gen, i: u64) -> Self { W278 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W279 {
    pub a: [i16;3],
    pub b: P117,
}
impl Row for W279 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W279 { fn gen(g: &Gen, i: u64) -> Self { W279 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W280 {
    pub a: i64,
    pub b: P137,
    pub c: P27,
}
impl Row for W280 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W280 { fn gen(g: &Gen, i: u64) -> Self { W280 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W281 {
    pub a: f32,
    pub b: P119,
    pub c: P59,
}
impl Row for W281 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W281 { fn gen(g: &Gen, i: u64) -> Self { W281 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W282 {
    pub a: u64,
    pub b: P120,
    pub c: i32,
}
impl Row for W282 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W282 { fn gen(g: &Gen, i: u64) -> Self { W282 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W283 {
    pub a: u32,
    pub b: P122,
}
impl Row for W283 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W283 { fn gen(g: &Gen, i: u64) -> Self { W283 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W284 {
    pub a: f64,
    pub b: P67,
    pub c: P38,
}
impl Row for W284 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W284 { fn gen(g: &Gen, i: u64) -> Self { W284 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W285 {
    pub a: Vec<i32>,
    pub b: P106,
    pub c: P105,
}
impl Row for W285 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W285 { fn gen(g: &Gen, i: u64) -> Self { W285 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W286 {
    pub a: u16,
    pub b: P126,
    pub c: P45,
}
impl Row for W286 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W286 { fn gen(g: &Gen, i: u64) -> Self { W286 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W287 {
    pub a: i8,
    pub b: P143,
    pub c: P143,
}
impl Row for W287 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W287 { fn gen(g: &Gen, i: u64) -> Self { W287 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W288 {
    pub a: Vec<u8>,
    pub b: P2,
    pub c: P186,
}
impl Row for W288 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W288 { fn gen(g: &Gen, i: u64) -> Self { W288 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W289 {
    pub a: i32,
    pub b: P144,
    pub c: P52,
}
impl Row for W289 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W289 { fn gen(g: &Gen, i: u64) -> Self { W289 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W290 {
    pub a: u8,
    pub b: P131,
    pub c: P59,
}
impl Row for W290 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W290 { fn gen(g: &Gen, i: u64) -> Self { W290 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W291 {
    pub a: bool,
    pub b: P146,
    pub c: u8,
}
impl Row for W291 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W291 { fn gen(g: &Gen, i: u64) -> Self { W291 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W292 {
    pub a: Vec<f64>,
    pub b: P14,
}
impl Row for W292 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W292 { fn gen(g: &Gen, i: u64) -> Self { W292 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W293 {
    pub a: [f32;10],
    pub b: P168,
}
impl Row for W293 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W293 { fn gen(g: &Gen, i: u64) -> Self { W293 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P222 {
    pub a: Vec<i32>,
    pub b: P18,
    pub c: P42,
}
impl Row for P222 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for P222 { fn gen(g: &Gen, i: u64) -> Self { P222 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W294 {
    pub a: i16,
    pub b: P222,
}
impl Row for W294 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W294 { fn gen(g: &Gen, i: u64) -> Self { W294 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P223 {
    pub a: u16,
    pub b: P21,
    pub c: Vec<i32>,
}
impl Row for P223 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for P223 { fn gen(g: &Gen, i: u64) -> Self { P223 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W295 {
    pub a: String,
    pub b: P223,
}
impl Row for W295 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W295 { fn gen(g: &Gen, i: u64) -> Self { W295 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W296 {
    pub a: [i16;3],
    pub b: P186,
    pub c: P49,
}
impl Row for W296 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W296 { fn gen(g: &Gen, i: u64) -> Self { W296 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W297 {
    pub a: i64,
    pub b: P187,
    pub c: P3,
}
impl Row for W297 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W297 { fn gen(g: &Gen, i: u64) -> Self { W297 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W298 {
    pub a: f32,
    pub b: P188,
    pub c: Vec<u8>,
}
impl Row for W298 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W298 { fn gen(g: &Gen, i: u64) -> Self { W298 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W299 {
    pub a: u64,
    pub b: P62,
}
impl Row for W299 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W299 { fn gen(g: &Gen, i: u64) -> Self { W299 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P224 {
    pub a: bool,
    pub b: u64,
    pub c: P80,
}
impl Row for P224 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for P224 { fn gen(g: &Gen, i: u64) -> Self { P224 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W300 {
    pub a: u32,
    pub b: P224,
}
impl Row for W300 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W300 { fn gen(g: &Gen, i: u64) -> Self { W300 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W301 {
    pub a: f64,
    pub b: P10,
}
impl Row for W301 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W301 { fn gen(g: &Gen, i: u64) -> Self { W301 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W302 {
    pub a: Vec<i32>,
    pub b: P12,
    pub c: P67,
}
impl Row for W302 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W302 { fn gen(g: &Gen, i: u64) -> Self { W302 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W303 {
    pub a: u16,
    pub b: P17,
    pub c: P18,
}
impl Row for W303 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W303 { fn gen(g: &Gen, i: u64) -> Self { W303 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W304 {
    pub a: i8,
    pub b: P20,
    pub c: i16,
}
impl Row for W304 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W304 { fn gen(g: &Gen, i: u64) -> Self { W304 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W305 {
    pub a: Vec<u8>,
    pub b: P23,
}
impl Row for W305 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W305 { fn gen(g: &Gen, i: u64) -> Self { W305 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W306 {
    pub a: i32,
    pub b: P6,
    pub c: P51,
}
impl Row for W306 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W306 { fn gen(g: &Gen, i: u64) -> Self { W306 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W307 {
    pub a: u8,
    pub b: P63,
    pub c: P90,
}
impl Row for W307 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W307 { fn gen(g: &Gen, i: u64) -> Self { W307 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W308 {
    pub a: bool,
    pub b: P83,
    pub c: P120,
}
impl Row for W308 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W308 { fn gen(g: &Gen, i: u64) -> Self { W308 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W309 {
    pub a: Vec<f64>,
    pub b: P15,
    pub c: P14,
}
impl Row for W309 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W309 { fn gen(g: &Gen, i: u64) -> Self { W309 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W310 {
    pub a: [f32;10],
    pub b: P42,
    pub c: P190,
}
impl Row for W310 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W310 { fn gen(g: &Gen, i: u64) -> Self { W310 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W311 {
    pub a: i16,
    pub b: P46,
    pub c: P12,
}
impl Row for W311 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W311 { fn gen(g: &Gen, i: u64) -> Self { W311 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W312 {
    pub a: String,
    pub b: P50,
    pub c: P21,
}
impl Row for W312 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W312 { fn gen(g: &Gen, i: u64) -> Self { W312 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W313 {
    pub a: [i16;3],
    pub b: P28,
    pub c: String,
}
impl Row for W313 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W313 { fn gen(g: &Gen, i: u64) -> Self { W313 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W314 {
    pub a: i64,
    pub b: P31,
}
impl Row for W314 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W314 { fn gen(g: &Gen, i: u64) -> Self { W314 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W315 {
    pub a: f32,
    pub b: i32,
    pub c: P71,
}
impl Row for W315 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W315 { fn gen(g: &Gen, i: u64) -> Self { W315 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P225 {
    pub a: P63,
    pub b: P59,
}
impl Row for P225 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for P225 { fn gen(g: &Gen, i: u64) -> Self { P225 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W316 {
    pub a: u64,
    pub b: u8,
    pub c: P225,
}
impl Row for W316 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W316 { fn gen(g: &Gen, i: u64) -> Self { W316 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W317 {
    pub a: u32,
    pub b: bool,
    pub c: P132,
}
impl Row for W317 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W317 { fn gen(g: &Gen, i: u64) -> Self { W317 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W318 {
    pub a: f64,
    pub b: Vec<f64>,
    pub c: P14,
}
impl Row for W318 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W318 { fn gen(g: &Gen, i: u64) -> Self { W318 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W319 {
    pub a: Vec<i32>,
    pub b: [f32;10],
    pub c: P164,
}
impl Row for W319 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W319 { fn gen(g: &Gen, i: u64) -> Self { W319 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W320 {
    pub a: u16,
    pub b: i16,
    pub c: P40,
}
impl Row for W320 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W320 { fn gen(g: &Gen, i: u64) -> Self { W320 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W321 {
    pub a: i8,
    pub b: String,
    pub c: P50,
}
impl Row for W321 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W321 { fn gen(g: &Gen, i: u64) -> Self { W321 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W322 {
    pub a: Vec<u8>,
    pub b: [i16;3],
    pub c: i8,
}
impl Row for W322 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for W322 { fn gen(g: &Gen, i: u64) -> Self { W322 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W323 {
    pub a: i32,
    pub b: i64,
}
impl Row for W323 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); } }
impl GenV for W323 { fn gen(g: &Gen, i: u64) -> Self { W323 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W324 {
    pub a: u8,
}
impl Row for W324 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
impl GenV for W324 { fn gen(g: &Gen, i: u64) -> Self { W324 { a: GenV::gen(&sub(g, 0), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct X0 {
    pub a: i32,
    pub b: String,
    pub c: f64,
    pub d: u8,
    pub e: [i16;3],
    pub f: Vec<i32>,
    pub g: bool,
    pub h: i64,
    pub i: u16,
    pub j: Vec<f64>,
    pub k: f32,
    pub l: i8,
    pub m: [f32;10],
    pub n: u64,
    pub o: Vec<u8>,
    pub p: i16,
    pub q: u32,
}
impl Row for X0 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); self.d.toks(out); self.e.toks(out); self.f.toks(out); self.g.toks(out); self.h.toks(out); self.i.toks(out); self.j.toks(out); self.k.toks(out); self.l.toks(out); self.m.toks(out); self.n.toks(out); self.o.toks(out); self.p.toks(out); self.q.toks(out); } }
impl GenV for X0 { fn gen(g: &Gen, i: u64) -> Self { X0 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i), d: GenV::gen(&sub(g, 3), i), e: GenV::gen(&sub(g, 4), i), f: GenV::gen(&sub(g, 5), i), g: GenV::gen(&sub(g, 6), i), h: GenV::gen(&sub(g, 7), i), i: GenV::gen(&sub(g, 8), i), j: GenV::gen(&sub(g, 9), i), k: GenV::gen(&sub(g, 10), i), l: GenV::gen(&sub(g, 11), i), m: GenV::gen(&sub(g, 12), i), n: GenV::gen(&sub(g, 13), i), o: GenV::gen(&sub(g, 14), i), p: GenV::gen(&sub(g, 15), i), q: GenV::gen(&sub(g, 16), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct X1 {
    pub l: String,
    pub m: Vec<u8>,
}
impl Row for X1 { fn toks(&self, out: &mut Vec<String>) { self.l.toks(out); self.m.toks(out); } }
impl GenV for X1 { fn gen(g: &Gen, i: u64) -> Self { X1 { l: GenV::gen(&sub(g, 0), i), m: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P231 {
    pub v: u8,
}
impl Row for P231 { fn toks(&self, out: &mut Vec<String>) { self.v.toks(out); } }
impl GenV for P231 { fn gen(g: &Gen, i: u64) -> Self { P231 { v: GenV::gen(&sub(g, 0), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P230 {
    pub v: String,
    pub d: P231,
}
impl Row for P230 { fn toks(&self, out: &mut Vec<String>) { self.v.toks(out); self.d.toks(out); } }
impl GenV for P230 { fn gen(g: &Gen, i: u64) -> Self { P230 { v: GenV::gen(&sub(g, 0), i), d: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P229 {
    pub d: P230,
    pub v: i32,
}
impl Row for P229 { fn toks(&self, out: &mut Vec<String>) { self.d.toks(out); self.v.toks(out); } }
impl GenV for P229 { fn gen(g: &Gen, i: u64) -> Self { P229 { d: GenV::gen(&sub(g, 0), i), v: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P228 {
    pub v: String,
    pub d: P229,
}
impl Row for P228 { fn toks(&self, out: &mut Vec<String>) { self.v.toks(out); self.d.toks(out); } }
impl GenV for P228 { fn gen(g: &Gen, i: u64) -> Self { P228 { v: GenV::gen(&sub(g, 0), i), d: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P227 {
    pub d: P228,
    pub v: i32,
}
impl Row for P227 { fn toks(&self, out: &mut Vec<String>) { self.d.toks(out); self.v.toks(out); } }
impl GenV for P227 { fn gen(g: &Gen, i: u64) -> Self { P227 { d: GenV::gen(&sub(g, 0), i), v: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P226 {
    pub v: String,
    pub d: P227,
}
impl Row for P226 { fn toks(&self, out: &mut Vec<String>) { self.v.toks(out); self.d.toks(out); } }
impl GenV for P226 { fn gen(g: &Gen, i: u64) -> Self { P226 { v: GenV::gen(&sub(g, 0), i), d: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct X2 {
    pub d: P226,
    pub v: i32,
}
impl Row for X2 { fn toks(&self, out: &mut Vec<String>) { self.d.toks(out); self.v.toks(out); } }
impl GenV for X2 { fn gen(g: &Gen, i: u64) -> Self { X2 { d: GenV::gen(&sub(g, 0), i), v: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P232 {
    pub a: i32,
    pub b: String,
    pub c: Vec<i32>,
}
impl Row for P232 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for P232 { fn gen(g: &Gen, i: u64) -> Self { P232 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P233 {
    pub a: f64,
    pub b: String,
    pub c: [i16;3],
}
impl Row for P233 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for P233 { fn gen(g: &Gen, i: u64) -> Self { P233 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P234 {
    pub a: u8,
    pub b: String,
    pub c: bool,
}
impl Row for P234 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for P234 { fn gen(g: &Gen, i: u64) -> Self { P234 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P235 {
    pub a: i64,
    pub b: String,
    pub c: Vec<u8>,
}
impl Row for P235 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.b.toks(out); self.c.toks(out); } }
impl GenV for P235 { fn gen(g: &Gen, i: u64) -> Self { P235 { a: GenV::gen(&sub(g, 0), i), b: GenV::gen(&sub(g, 1), i), c: GenV::gen(&sub(g, 2), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct X3 {
    pub p: P232,
    pub q: P233,
    pub r: P234,
    pub s: P235,
}
impl Row for X3 { fn toks(&self, out: &mut Vec<String>) { self.p.toks(out); self.q.toks(out); self.r.toks(out); self.s.toks(out); } }
impl GenV for X3 { fn gen(g: &Gen, i: u64) -> Self { X3 { p: GenV::gen(&sub(g, 0), i), q: GenV::gen(&sub(g, 1), i), r: GenV::gen(&sub(g, 2), i), s: GenV::gen(&sub(g, 3), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P236 {
    pub b: i32,
    pub _b: i32,
}
impl Row for P236 { fn toks(&self, out: &mut Vec<String>) { self.b.toks(out); self._b.toks(out); } }
impl GenV for P236 { fn gen(g: &Gen, i: u64) -> Self { P236 { b: GenV::gen(&sub(g, 0), i), _b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct P237 {
    pub a: i32,
    pub a_b: P59,
}
impl Row for P237 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.a_b.toks(out); } }
impl GenV for P237 { fn gen(g: &Gen, i: u64) -> Self { P237 { a: GenV::gen(&sub(g, 0), i), a_b: GenV::gen(&sub(g, 1), i) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct X4 {
    pub a: i32,
    pub a_b: i32,
    pub a_: P236,
    pub ab: P237,
}
impl Row for X4 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.a_b.toks(out); self.a_.toks(out); self.ab.toks(out); } }
impl GenV for X4 { fn gen(g: &Gen, i: u64) -> Self { X4 { a: GenV::gen(&sub(g, 0), i), a_b: GenV::gen(&sub(g, 1), i), a_: GenV::gen(&sub(g, 2), i), ab: GenV::gen(&sub(g, 3), i) } } }
#[derive(ReadFromTree)]
pub struct N0 {
    pub a: i32,
    pub z: i32,
}
impl Row for N0 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.z.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N1 {
    pub a: i32,
    pub z: i32,
}
impl Row for N1 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.z.toks(out); } }
#[derive(ReadFromTree)]
pub struct N2 {
    pub a: i32,
}
impl Row for N2 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N3 {
    pub a: i32,
}
impl Row for N3 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
#[derive(ReadFromTree)]
pub struct N4 {
    #[oxyroot(rename = "r")]
    pub a: i32,
    pub z: i32,
}
impl Row for N4 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.z.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N5 {
    #[oxyroot(rename = "r")]
    pub a: i32,
    pub z: i32,
}
impl Row for N5 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.z.toks(out); } }
#[derive(ReadFromTree)]
pub struct N6 {
    #[oxyroot(rename = "r")]
    pub a: i32,
}
impl Row for N6 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N7 {
    #[oxyroot(rename = "r")]
    pub a: i32,
}
impl Row for N7 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
#[derive(ReadFromTree)]
pub struct N8 {
    #[oxyroot(branch_prefix = "l_")]
    pub a: i32,
    pub z: i32,
}
impl Row for N8 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.z.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N9 {
    #[oxyroot(branch_prefix = "l_")]
    pub a: i32,
    pub z: i32,
}
impl Row for N9 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.z.toks(out); } }
#[derive(ReadFromTree)]
pub struct N10 {
    #[oxyroot(branch_prefix = "l_")]
    pub a: i32,
}
impl Row for N10 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N11 {
    #[oxyroot(branch_prefix = "l_")]
    pub a: i32,
}
impl Row for N11 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
#[derive(ReadFromTree)]
pub struct N12 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    pub a: i32,
    pub z: i32,
}
impl Row for N12 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.z.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N13 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    pub a: i32,
    pub z: i32,
}
impl Row for N13 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.z.toks(out); } }
#[derive(ReadFromTree)]
pub struct N14 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    pub a: i32,
}
impl Row for N14 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N15 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    pub a: i32,
}
impl Row for N15 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
#[derive(ReadFromTree)]
pub struct P238 {
    pub a: i32,
}
impl Row for P238 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
#[derive(ReadFromTree)]
pub struct N16 {
    pub s: P238,
}
impl Row for N16 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N17 {
    pub s: P238,
}
impl Row for N17 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct P239 {
    pub a: i32,
}
impl Row for P239 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
#[derive(ReadFromTree)]
pub struct N18 {
    pub s: P239,
}
impl Row for N18 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N19 {
    pub s: P239,
}
impl Row for N19 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct P240 {
    #[oxyroot(rename = "r")]
    pub a: i32,
}
impl Row for P240 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
#[derive(ReadFromTree)]
pub struct N20 {
    pub s: P240,
}
impl Row for N20 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N21 {
    pub s: P240,
}
impl Row for N21 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct P241 {
    #[oxyroot(rename = "r")]
    pub a: i32,
}
impl Row for P241 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
#[derive(ReadFromTree)]
pub struct N22 {
    pub s: P241,
}
impl Row for N22 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N23 {
    pub s: P241,
}
impl Row for N23 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct P242 {
    #[oxyroot(branch_prefix = "l_")]
    pub a: i32,
}
impl Row for P242 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
#[derive(ReadFromTree)]
pub struct N24 {
    pub s: P242,
}
impl Row for N24 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N25 {
    pub s: P242,
}
impl Row for N25 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct P243 {
    #[oxyroot(branch_prefix = "l_")]
    pub a: i32,
}
impl Row for P243 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
#[derive(ReadFromTree)]
pub struct N26 {
    pub s: P243,
}
impl Row for N26 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N27 {
    pub s: P243,
}
impl Row for N27 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct P244 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    pub a: i32,
}
impl Row for P244 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
#[derive(ReadFromTree)]
pub struct N28 {
    pub s: P244,
}
impl Row for N28 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N29 {
    pub s: P244,
}
impl Row for N29 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct P245 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    pub a: i32,
}
impl Row for P245 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
#[derive(ReadFromTree)]
pub struct N30 {
    pub s: P245,
}
impl Row for N30 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N31 {
    pub s: P245,
}
impl Row for N31 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct P246 {
    pub t: P238,
    pub z: i32,
}
impl Row for P246 { fn toks(&self, out: &mut Vec<String>) { self.t.toks(out); self.z.toks(out); } }
#[derive(ReadFromTree)]
pub struct N32 {
    pub s: P246,
}
impl Row for N32 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N33 {
    pub s: P246,
}
impl Row for N33 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct P247 {
    pub t: P238,
    pub z: i32,
}
impl Row for P247 { fn toks(&self, out: &mut Vec<String>) { self.t.toks(out); self.z.toks(out); } }
#[derive(ReadFromTree)]
pub struct N34 {
    pub s: P247,
}
impl Row for N34 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N35 {
    pub s: P247,
}
impl Row for N35 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct P249 {
    #[oxyroot(absolute_name = "x")]
    pub a: i32,
}
impl Row for P249 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
#[derive(ReadFromTree)]
pub struct P248 {
    pub t: P249,
    pub z: i32,
}
impl Row for P248 { fn toks(&self, out: &mut Vec<String>) { self.t.toks(out); self.z.toks(out); } }
#[derive(ReadFromTree)]
pub struct N36 {
    pub s: P248,
}
impl Row for N36 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N37 {
    pub s: P248,
}
impl Row for N37 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct P250 {
    pub t: P249,
    pub z: i32,
}
impl Row for P250 { fn toks(&self, out: &mut Vec<String>) { self.t.toks(out); self.z.toks(out); } }
#[derive(ReadFromTree)]
pub struct N38 {
    pub s: P250,
}
impl Row for N38 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N39 {
    pub s: P250,
}
impl Row for N39 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct P251 {
    #[oxyroot(branch_prefix = "l_")]
    pub t: P238,
    pub z: i32,
}
impl Row for P251 { fn toks(&self, out: &mut Vec<String>) { self.t.toks(out); self.z.toks(out); } }
#[derive(ReadFromTree)]
pub struct N40 {
    pub s: P251,
}
impl Row for N40 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N41 {
    pub s: P251,
}
impl Row for N41 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct P252 {
    #[oxyroot(branch_prefix = "l_")]
    pub t: P238,
    pub z: i32,
}
impl Row for P252 { fn toks(&self, out: &mut Vec<String>) { self.t.toks(out); self.z.toks(out); } }
#[derive(ReadFromTree)]
pub struct N42 {
    pub s: P252,
}
impl Row for N42 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N43 {
    pub s: P252,
}
impl Row for N43 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct P253 {
    #[oxyroot(branch_prefix = "l_")]
    pub t: P249,
    pub z: i32,
}
impl Row for P253 { fn toks(&self, out: &mut Vec<String>) { self.t.toks(out); self.z.toks(out); } }
#[derive(ReadFromTree)]
pub struct N44 {
    pub s: P253,
}
impl Row for N44 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N45 {
    pub s: P253,
}
impl Row for N45 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct P254 {
    #[oxyroot(branch_prefix = "l_")]
    pub t: P249,
    pub z: i32,
}
impl Row for P254 { fn toks(&self, out: &mut Vec<String>) { self.t.toks(out); self.z.toks(out); } }
#[derive(ReadFromTree)]
pub struct N46 {
    pub s: P254,
}
impl Row for N46 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N47 {
    pub s: P254,
}
impl Row for N47 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N48 {
    pub s: P249,
}
impl Row for N48 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N49 {
    pub s: P249,
}
impl Row for N49 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct P255 {
    #[oxyroot(absolute_name = "x")]
    pub a: i32,
}
impl Row for P255 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
#[derive(ReadFromTree)]
pub struct N50 {
    pub s: P255,
}
impl Row for N50 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N51 {
    pub s: P255,
}
impl Row for N51 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct P256 {
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    pub a: i32,
}
impl Row for P256 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
#[derive(ReadFromTree)]
pub struct N52 {
    pub s: P256,
}
impl Row for N52 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N53 {
    pub s: P256,
}
impl Row for N53 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct P257 {
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    pub a: i32,
}
impl Row for P257 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
#[derive(ReadFromTree)]
pub struct N54 {
    pub s: P257,
}
impl Row for N54 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N55 {
    pub s: P257,
}
impl Row for N55 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct P258 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub a: i32,
}
impl Row for P258 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
#[derive(ReadFromTree)]
pub struct N56 {
    pub s: P258,
}
impl Row for N56 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N57 {
    pub s: P258,
}
impl Row for N57 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct P259 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub a: i32,
}
impl Row for P259 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
#[derive(ReadFromTree)]
pub struct N58 {
    pub s: P259,
}
impl Row for N58 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N59 {
    pub s: P259,
}
impl Row for N59 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct P260 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub a: i32,
}
impl Row for P260 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
#[derive(ReadFromTree)]
pub struct N60 {
    pub s: P260,
}
impl Row for N60 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N61 {
    pub s: P260,
}
impl Row for N61 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct P261 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub a: i32,
}
impl Row for P261 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
#[derive(ReadFromTree)]
pub struct N62 {
    pub s: P261,
}
impl Row for N62 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N63 {
    pub s: P261,
}
impl Row for N63 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N64 {
    #[oxyroot(rename = "r")]
    pub s: P238,
}
impl Row for N64 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N65 {
    #[oxyroot(rename = "r")]
    pub s: P238,
}
impl Row for N65 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N66 {
    #[oxyroot(rename = "r")]
    pub s: P239,
}
impl Row for N66 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N67 {
    #[oxyroot(rename = "r")]
    pub s: P239,
}
impl Row for N67 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N68 {
    #[oxyroot(rename = "r")]
    pub s: P240,
}
impl Row for N68 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N69 {
    #[oxyroot(rename = "r")]
    pub s: P240,
}
impl Row for N69 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N70 {
    #[oxyroot(rename = "r")]
    pub s: P241,
}
impl Row for N70 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N71 {
    #[oxyroot(rename = "r")]
    pub s: P241,
}
impl Row for N71 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N72 {
    #[oxyroot(rename = "r")]
    pub s: P242,
}
impl Row for N72 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N73 {
    #[oxyroot(rename = "r")]
    pub s: P242,
}
impl Row for N73 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N74 {
    #[oxyroot(rename = "r")]
    pub s: P243,
}
impl Row for N74 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N75 {
    #[oxyroot(rename = "r")]
    pub s: P243,
}
impl Row for N75 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N76 {
    #[oxyroot(rename = "r")]
    pub s: P244,
}
impl Row for N76 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N77 {
    #[oxyroot(rename = "r")]
    pub s: P244,
}
impl Row for N77 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N78 {
    #[oxyroot(rename = "r")]
    pub s: P245,
}
impl Row for N78 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N79 {
    #[oxyroot(rename = "r")]
    pub s: P245,
}
impl Row for N79 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N80 {
    #[oxyroot(rename = "r")]
    pub s: P249,
}
impl Row for N80 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N81 {
    #[oxyroot(rename = "r")]
    pub s: P249,
}
impl Row for N81 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N82 {
    #[oxyroot(rename = "r")]
    pub s: P255,
}
impl Row for N82 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N83 {
    #[oxyroot(rename = "r")]
    pub s: P255,
}
impl Row for N83 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N84 {
    #[oxyroot(rename = "r")]
    pub s: P256,
}
impl Row for N84 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N85 {
    #[oxyroot(rename = "r")]
    pub s: P256,
}
impl Row for N85 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N86 {
    #[oxyroot(rename = "r")]
    pub s: P257,
}
impl Row for N86 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N87 {
    #[oxyroot(rename = "r")]
    pub s: P257,
}
impl Row for N87 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N88 {
    #[oxyroot(rename = "r")]
    pub s: P258,
}
impl Row for N88 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N89 {
    #[oxyroot(rename = "r")]
    pub s: P258,
}
impl Row for N89 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N90 {
    #[oxyroot(rename = "r")]
    pub s: P259,
}
impl Row for N90 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N91 {
    #[oxyroot(rename = "r")]
    pub s: P259,
}
impl Row for N91 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N92 {
    #[oxyroot(rename = "r")]
    pub s: P260,
}
impl Row for N92 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N93 {
    #[oxyroot(rename = "r")]
    pub s: P260,
}
impl Row for N93 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N94 {
    #[oxyroot(rename = "r")]
    pub s: P261,
}
impl Row for N94 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N95 {
    #[oxyroot(rename = "r")]
    pub s: P261,
}
impl Row for N95 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N96 {
    #[oxyroot(branch_prefix = "l_")]
    pub s: P238,
}
impl Row for N96 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N97 {
    #[oxyroot(branch_prefix = "l_")]
    pub s: P238,
}
impl Row for N97 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N98 {
    #[oxyroot(branch_prefix = "l_")]
    pub s: P239,
}
impl Row for N98 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N99 {
    #[oxyroot(branch_prefix = "l_")]
    pub s: P239,
}
impl Row for N99 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N100 {
    #[oxyroot(branch_prefix = "l_")]
    pub s: P240,
}
impl Row for N100 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N101 {
    #[oxyroot(branch_prefix = "l_")]
    pub s: P240,
}
impl Row for N101 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N102 {
    #[oxyroot(branch_prefix = "l_")]
    pub s: P241,
}
impl Row for N102 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N103 {
    #[oxyroot(branch_prefix = "l_")]
    pub s: P241,
}
impl Row for N103 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N104 {
    #[oxyroot(branch_prefix = "l_")]
    pub s: P242,
}
impl Row for N104 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N105 {
    #[oxyroot(branch_prefix = "l_")]
    pub s: P242,
}
impl Row for N105 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N106 {
    #[oxyroot(branch_prefix = "l_")]
    pub s: P243,
}
impl Row for N106 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N107 {
    #[oxyroot(branch_prefix = "l_")]
    pub s: P243,
}
impl Row for N107 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N108 {
    #[oxyroot(branch_prefix = "l_")]
    pub s: P244,
}
impl Row for N108 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N109 {
    #[oxyroot(branch_prefix = "l_")]
    pub s: P244,
}
impl Row for N109 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N110 {
    #[oxyroot(branch_prefix = "l_")]
    pub s: P245,
}
impl Row for N110 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N111 {
    #[oxyroot(branch_prefix = "l_")]
    pub s: P245,
}
impl Row for N111 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N112 {
    #[oxyroot(branch_prefix = "l_")]
    pub s: P249,
}
impl Row for N112 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N113 {
    #[oxyroot(branch_prefix = "l_")]
    pub s: P249,
}
impl Row for N113 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N114 {
    #[oxyroot(branch_prefix = "l_")]
    pub s: P255,
}
impl Row for N114 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N115 {
    #[oxyroot(branch_prefix = "l_")]
    pub s: P255,
}
impl Row for N115 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N116 {
    #[oxyroot(branch_prefix = "l_")]
    pub s: P256,
}
impl Row for N116 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N117 {
    #[oxyroot(branch_prefix = "l_")]
    pub s: P256,
}
impl Row for N117 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N118 {
    #[oxyroot(branch_prefix = "l_")]
    pub s: P257,
}
impl Row for N118 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N119 {
    #[oxyroot(branch_prefix = "l_")]
    pub s: P257,
}
impl Row for N119 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N120 {
    #[oxyroot(branch_prefix = "l_")]
    pub s: P258,
}
impl Row for N120 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N121 {
    #[oxyroot(branch_prefix = "l_")]
    pub s: P258,
}
impl Row for N121 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N122 {
    #[oxyroot(branch_prefix = "l_")]
    pub s: P259,
}
impl Row for N122 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N123 {
    #[oxyroot(branch_prefix = "l_")]
    pub s: P259,
}
impl Row for N123 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N124 {
    #[oxyroot(branch_prefix = "l_")]
    pub s: P260,
}
impl Row for N124 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N125 {
    #[oxyroot(branch_prefix = "l_")]
    pub s: P260,
}
impl Row for N125 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N126 {
    #[oxyroot(branch_prefix = "l_")]
    pub s: P261,
}
impl Row for N126 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N127 {
    #[oxyroot(branch_prefix = "l_")]
    pub s: P261,
}
impl Row for N127 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N128 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    pub s: P238,
}
impl Row for N128 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N129 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    pub s: P238,
}
impl Row for N129 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N130 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    pub s: P239,
}
impl Row for N130 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N131 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    pub s: P239,
}
impl Row for N131 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N132 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    pub s: P240,
}
impl Row for N132 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N133 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    pub s: P240,
}
impl Row for N133 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N134 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    pub s: P241,
}
impl Row for N134 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N135 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    pub s: P241,
}
impl Row for N135 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N136 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    pub s: P242,
}
impl Row for N136 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N137 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    pub s: P242,
}
impl Row for N137 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N138 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    pub s: P243,
}
impl Row for N138 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N139 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    pub s: P243,
}
impl Row for N139 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N140 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    pub s: P244,
}
impl Row for N140 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N141 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    pub s: P244,
}
impl Row for N141 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N142 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    pub s: P245,
}
impl Row for N142 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N143 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    pub s: P245,
}
impl Row for N143 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N144 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    pub s: P249,
}
impl Row for N144 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N145 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    pub s: P249,
}
impl Row for N145 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N146 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    pub s: P255,
}
impl Row for N146 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N147 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    pub s: P255,
}
impl Row for N147 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N148 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    pub s: P256,
}
impl Row for N148 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N149 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    pub s: P256,
}
impl Row for N149 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N150 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    pub s: P257,
}
impl Row for N150 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N151 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    pub s: P257,
}
impl Row for N151 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N152 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    pub s: P258,
}
impl Row for N152 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N153 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    pub s: P258,
}
impl Row for N153 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N154 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    pub s: P259,
}
impl Row for N154 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N155 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    pub s: P259,
}
impl Row for N155 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N156 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    pub s: P260,
}
impl Row for N156 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N157 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    pub s: P260,
}
impl Row for N157 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N158 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    pub s: P261,
}
impl Row for N158 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N159 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    pub s: P261,
}
impl Row for N159 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N160 {
    pub z: i32,
    pub a: i32,
}
impl Row for N160 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.a.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N161 {
    pub z: i32,
    pub a: i32,
}
impl Row for N161 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.a.toks(out); } }
#[derive(ReadFromTree)]
pub struct N162 {
    pub z: i32,
    #[oxyroot(rename = "r")]
    pub a: i32,
}
impl Row for N162 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.a.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N163 {
    pub z: i32,
    #[oxyroot(rename = "r")]
    pub a: i32,
}
impl Row for N163 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.a.toks(out); } }
#[derive(ReadFromTree)]
pub struct N164 {
    pub z: i32,
    #[oxyroot(branch_prefix = "l_")]
    pub a: i32,
}
impl Row for N164 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.a.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N165 {
    pub z: i32,
    #[oxyroot(branch_prefix = "l_")]
    pub a: i32,
}
impl Row for N165 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.a.toks(out); } }
#[derive(ReadFromTree)]
pub struct N166 {
    pub z: i32,
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    pub a: i32,
}
impl Row for N166 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.a.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N167 {
    pub z: i32,
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    pub a: i32,
}
impl Row for N167 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.a.toks(out); } }
#[derive(ReadFromTree)]
pub struct N168 {
    pub z: i32,
    pub s: P238,
}
impl Row for N168 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N169 {
    pub z: i32,
    pub s: P238,
}
impl Row for N169 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N170 {
    pub z: i32,
    pub s: P239,
}
impl Row for N170 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N171 {
    pub z: i32,
    pub s: P239,
}
impl Row for N171 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N172 {
    pub z: i32,
    pub s: P242,
}
impl Row for N172 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N173 {
    pub z: i32,
    pub s: P242,
}
impl Row for N173 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N174 {
    pub z: i32,
    pub s: P243,
}
impl Row for N174 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N175 {
    pub z: i32,
    pub s: P243,
}
impl Row for N175 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N176 {
    pub z: i32,
    pub s: P249,
}
impl Row for N176 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N177 {
    pub z: i32,
    pub s: P249,
}
impl Row for N177 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N178 {
    pub z: i32,
    pub s: P255,
}
impl Row for N178 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N179 {
    pub z: i32,
    pub s: P255,
}
impl Row for N179 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N180 {
    pub z: i32,
    pub s: P258,
}
impl Row for N180 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N181 {
    pub z: i32,
    pub s: P258,
}
impl Row for N181 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N182 {
    pub z: i32,
    pub s: P259,
}
impl Row for N182 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N183 {
    pub z: i32,
    pub s: P259,
}
impl Row for N183 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N184 {
    pub z: i32,
    #[oxyroot(rename = "r")]
    pub s: P238,
}
impl Row for N184 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N185 {
    pub z: i32,
    #[oxyroot(rename = "r")]
    pub s: P238,
}
impl Row for N185 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N186 {
    pub z: i32,
    #[oxyroot(rename = "r")]
    pub s: P239,
}
impl Row for N186 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N187 {
    pub z: i32,
    #[oxyroot(rename = "r")]
    pub s: P239,
}
impl Row for N187 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N188 {
    pub z: i32,
    #[oxyroot(rename = "r")]
    pub s: P242,
}
impl Row for N188 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N189 {
    pub z: i32,
    #[oxyroot(rename = "r")]
    pub s: P242,
}
impl Row for N189 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N190 {
    pub z: i32,
    #[oxyroot(rename = "r")]
    pub s: P243,
}
impl Row for N190 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N191 {
    pub z: i32,
    #[oxyroot(rename = "r")]
    pub s: P243,
}
impl Row for N191 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N192 {
    pub z: i32,
    #[oxyroot(rename = "r")]
    pub s: P249,
}
impl Row for N192 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N193 {
    pub z: i32,
    #[oxyroot(rename = "r")]
    pub s: P249,
}
impl Row for N193 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N194 {
    pub z: i32,
    #[oxyroot(rename = "r")]
    pub s: P255,
}
impl Row for N194 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N195 {
    pub z: i32,
    #[oxyroot(rename = "r")]
    pub s: P255,
}
impl Row for N195 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N196 {
    pub z: i32,
    #[oxyroot(rename = "r")]
    pub s: P258,
}
impl Row for N196 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N197 {
    pub z: i32,
    #[oxyroot(rename = "r")]
    pub s: P258,
}
impl Row for N197 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N198 {
    pub z: i32,
    #[oxyroot(rename = "r")]
    pub s: P259,
}
impl Row for N198 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N199 {
    pub z: i32,
    #[oxyroot(rename = "r")]
    pub s: P259,
}
impl Row for N199 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N200 {
    pub z: i32,
    #[oxyroot(branch_prefix = "l_")]
    pub s: P238,
}
impl Row for N200 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N201 {
    pub z: i32,
    #[oxyroot(branch_prefix = "l_")]
    pub s: P238,
}
impl Row for N201 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N202 {
    pub z: i32,
    #[oxyroot(branch_prefix = "l_")]
    pub s: P239,
}
impl Row for N202 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N203 {
    pub z: i32,
    #[oxyroot(branch_prefix = "l_")]
    pub s: P239,
}
impl Row for N203 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N204 {
    pub z: i32,
    #[oxyroot(branch_prefix = "l_")]
    pub s: P242,
}
impl Row for N204 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N205 {
    pub z: i32,
    #[oxyroot(branch_prefix = "l_")]
    pub s: P242,
}
impl Row for N205 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N206 {
    pub z: i32,
    #[oxyroot(branch_prefix = "l_")]
    pub s: P243,
}
impl Row for N206 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N207 {
    pub z: i32,
    #[oxyroot(branch_prefix = "l_")]
    pub s: P243,
}
impl Row for N207 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N208 {
    pub z: i32,
    #[oxyroot(branch_prefix = "l_")]
    pub s: P249,
}
impl Row for N208 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N209 {
    pub z: i32,
    #[oxyroot(branch_prefix = "l_")]
    pub s: P249,
}
impl Row for N209 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N210 {
    pub z: i32,
    #[oxyroot(branch_prefix = "l_")]
    pub s: P255,
}
impl Row for N210 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N211 {
    pub z: i32,
    #[oxyroot(branch_prefix = "l_")]
    pub s: P255,
}
impl Row for N211 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N212 {
    pub z: i32,
    #[oxyroot(branch_prefix = "l_")]
    pub s: P258,
}
impl Row for N212 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N213 {
    pub z: i32,
    #[oxyroot(branch_prefix = "l_")]
    pub s: P258,
}
impl Row for N213 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N214 {
    pub z: i32,
    #[oxyroot(branch_prefix = "l_")]
    pub s: P259,
}
impl Row for N214 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N215 {
    pub z: i32,
    #[oxyroot(branch_prefix = "l_")]
    pub s: P259,
}
impl Row for N215 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N216 {
    pub z: i32,
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    pub s: P238,
}
impl Row for N216 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N217 {
    pub z: i32,
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    pub s: P238,
}
impl Row for N217 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N218 {
    pub z: i32,
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    pub s: P239,
}
impl Row for N218 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N219 {
    pub z: i32,
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    pub s: P239,
}
impl Row for N219 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N220 {
    pub z: i32,
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    pub s: P242,
}
impl Row for N220 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N221 {
    pub z: i32,
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    pub s: P242,
}
impl Row for N221 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N222 {
    pub z: i32,
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    pub s: P243,
}
impl Row for N222 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N223 {
    pub z: i32,
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    pub s: P243,
}
impl Row for N223 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N224 {
    pub z: i32,
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    pub s: P249,
}
impl Row for N224 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N225 {
    pub z: i32,
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    pub s: P249,
}
impl Row for N225 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N226 {
    pub z: i32,
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    pub s: P255,
}
impl Row for N226 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N227 {
    pub z: i32,
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    pub s: P255,
}
impl Row for N227 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N228 {
    pub z: i32,
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    pub s: P258,
}
impl Row for N228 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N229 {
    pub z: i32,
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    pub s: P258,
}
impl Row for N229 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N230 {
    pub z: i32,
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    pub s: P259,
}
impl Row for N230 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N231 {
    pub z: i32,
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    pub s: P259,
}
impl Row for N231 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N232 {
    pub z: i32,
    #[oxyroot(absolute_name = "x")]
    pub a: i32,
}
impl Row for N232 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.a.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N233 {
    pub z: i32,
    #[oxyroot(absolute_name = "x")]
    pub a: i32,
}
impl Row for N233 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.a.toks(out); } }
#[derive(ReadFromTree)]
pub struct N234 {
    pub z: i32,
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    pub a: i32,
}
impl Row for N234 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.a.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N235 {
    pub z: i32,
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    pub a: i32,
}
impl Row for N235 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.a.toks(out); } }
#[derive(ReadFromTree)]
pub struct N236 {
    pub z: i32,
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub a: i32,
}
impl Row for N236 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.a.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N237 {
    pub z: i32,
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub a: i32,
}
impl Row for N237 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.a.toks(out); } }
#[derive(ReadFromTree)]
pub struct N238 {
    pub z: i32,
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub a: i32,
}
impl Row for N238 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.a.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N239 {
    pub z: i32,
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub a: i32,
}
impl Row for N239 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.a.toks(out); } }
#[derive(ReadFromTree)]
pub struct N240 {
    pub z: i32,
    #[oxyroot(absolute_name = "x")]
    pub s: P238,
}
impl Row for N240 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N241 {
    pub z: i32,
    #[oxyroot(absolute_name = "x")]
    pub s: P238,
}
impl Row for N241 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N242 {
    pub z: i32,
    #[oxyroot(absolute_name = "x")]
    pub s: P239,
}
impl Row for N242 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N243 {
    pub z: i32,
    #[oxyroot(absolute_name = "x")]
    pub s: P239,
}
impl Row for N243 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N244 {
    pub z: i32,
    #[oxyroot(absolute_name = "x")]
    pub s: P242,
}
impl Row for N244 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N245 {
    pub z: i32,
    #[oxyroot(absolute_name = "x")]
    pub s: P242,
}
impl Row for N245 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N246 {
    pub z: i32,
    #[oxyroot(absolute_name = "x")]
    pub s: P243,
}
impl Row for N246 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N247 {
    pub z: i32,
    #[oxyroot(absolute_name = "x")]
    pub s: P243,
}
impl Row for N247 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N248 {
    pub z: i32,
    #[oxyroot(absolute_name = "x")]
    pub s: P249,
}
impl Row for N248 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N249 {
    pub z: i32,
    #[oxyroot(absolute_name = "x")]
    pub s: P249,
}
impl Row for N249 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N250 {
    pub z: i32,
    #[oxyroot(absolute_name = "x")]
    pub s: P255,
}
impl Row for N250 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N251 {
    pub z: i32,
    #[oxyroot(absolute_name = "x")]
    pub s: P255,
}
impl Row for N251 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N252 {
    pub z: i32,
    #[oxyroot(absolute_name = "x")]
    pub s: P258,
}
impl Row for N252 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N253 {
    pub z: i32,
    #[oxyroot(absolute_name = "x")]
    pub s: P258,
}
impl Row for N253 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N254 {
    pub z: i32,
    #[oxyroot(absolute_name = "x")]
    pub s: P259,
}
impl Row for N254 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N255 {
    pub z: i32,
    #[oxyroot(absolute_name = "x")]
    pub s: P259,
}
impl Row for N255 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N256 {
    pub z: i32,
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    pub s: P238,
}
impl Row for N256 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N257 {
    pub z: i32,
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    pub s: P238,
}
impl Row for N257 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N258 {
    pub z: i32,
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    pub s: P239,
}
impl Row for N258 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N259 {
    pub z: i32,
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    pub s: P239,
}
impl Row for N259 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N260 {
    pub z: i32,
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    pub s: P242,
}
impl Row for N260 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N261 {
    pub z: i32,
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    pub s: P242,
}
impl Row for N261 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N262 {
    pub z: i32,
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    pub s: P243,
}
impl Row for N262 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N263 {
    pub z: i32,
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    pub s: P243,
}
impl Row for N263 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N264 {
    pub z: i32,
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    pub s: P249,
}
impl Row for N264 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N265 {
    pub z: i32,
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    pub s: P249,
}
impl Row for N265 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N266 {
    pub z: i32,
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    pub s: P255,
}
impl Row for N266 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N267 {
    pub z: i32,
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    pub s: P255,
}
impl Row for N267 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N268 {
    pub z: i32,
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    pub s: P258,
}
impl Row for N268 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N269 {
    pub z: i32,
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    pub s: P258,
}
impl Row for N269 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N270 {
    pub z: i32,
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    pub s: P259,
}
impl Row for N270 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N271 {
    pub z: i32,
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    pub s: P259,
}
impl Row for N271 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N272 {
    pub z: i32,
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P238,
}
impl Row for N272 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N273 {
    pub z: i32,
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P238,
}
impl Row for N273 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N274 {
    pub z: i32,
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P239,
}
impl Row for N274 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N275 {
    pub z: i32,
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P239,
}
impl Row for N275 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N276 {
    pub z: i32,
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P242,
}
impl Row for N276 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N277 {
    pub z: i32,
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P242,
}
impl Row for N277 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N278 {
    pub z: i32,
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P243,
}
impl Row for N278 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N279 {
    pub z: i32,
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P243,
}
impl Row for N279 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N280 {
    pub z: i32,
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P249,
}
impl Row for N280 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N281 {
    pub z: i32,
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P249,
}
impl Row for N281 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N282 {
    pub z: i32,
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P255,
}
impl Row for N282 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N283 {
    pub z: i32,
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P255,
}
impl Row for N283 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N284 {
    pub z: i32,
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P258,
}
impl Row for N284 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N285 {
    pub z: i32,
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P258,
}
impl Row for N285 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N286 {
    pub z: i32,
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P259,
}
impl Row for N286 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N287 {
    pub z: i32,
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P259,
}
impl Row for N287 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N288 {
    pub z: i32,
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P238,
}
impl Row for N288 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N289 {
    pub z: i32,
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P238,
}
impl Row for N289 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N290 {
    pub z: i32,
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P239,
}
impl Row for N290 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N291 {
    pub z: i32,
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P239,
}
impl Row for N291 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N292 {
    pub z: i32,
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P242,
}
impl Row for N292 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N293 {
    pub z: i32,
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P242,
}
impl Row for N293 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N294 {
    pub z: i32,
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P243,
}
impl Row for N294 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N295 {
    pub z: i32,
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P243,
}
impl Row for N295 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N296 {
    pub z: i32,
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P249,
}
impl Row for N296 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N297 {
    pub z: i32,
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P249,
}
impl Row for N297 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N298 {
    pub z: i32,
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P255,
}
impl Row for N298 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N299 {
    pub z: i32,
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P255,
}
impl Row for N299 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N300 {
    pub z: i32,
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P258,
}
impl Row for N300 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N301 {
    pub z: i32,
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P258,
}
impl Row for N301 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N302 {
    pub z: i32,
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P259,
}
impl Row for N302 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N303 {
    pub z: i32,
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P259,
}
impl Row for N303 { fn toks(&self, out: &mut Vec<String>) { self.z.toks(out); self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N304 {
    #[oxyroot(absolute_name = "x")]
    pub a: i32,
    pub z: i32,
}
impl Row for N304 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.z.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N305 {
    #[oxyroot(absolute_name = "x")]
    pub a: i32,
    pub z: i32,
}
impl Row for N305 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.z.toks(out); } }
#[derive(ReadFromTree)]
pub struct N306 {
    #[oxyroot(absolute_name = "x")]
    pub a: i32,
}
impl Row for N306 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N307 {
    #[oxyroot(absolute_name = "x")]
    pub a: i32,
}
impl Row for N307 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
#[derive(ReadFromTree)]
pub struct N308 {
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    pub a: i32,
    pub z: i32,
}
impl Row for N308 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.z.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N309 {
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    pub a: i32,
    pub z: i32,
}
impl Row for N309 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.z.toks(out); } }
#[derive(ReadFromTree)]
pub struct N310 {
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    pub a: i32,
}
impl Row for N310 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N311 {
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    pub a: i32,
}
impl Row for N311 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
#[derive(ReadFromTree)]
pub struct N312 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub a: i32,
    pub z: i32,
}
impl Row for N312 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.z.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N313 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub a: i32,
    pub z: i32,
}
impl Row for N313 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.z.toks(out); } }
#[derive(ReadFromTree)]
pub struct N314 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub a: i32,
}
impl Row for N314 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N315 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub a: i32,
}
impl Row for N315 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
#[derive(ReadFromTree)]
pub struct N316 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub a: i32,
    pub z: i32,
}
impl Row for N316 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.z.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N317 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub a: i32,
    pub z: i32,
}
impl Row for N317 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); self.z.toks(out); } }
#[derive(ReadFromTree)]
pub struct N318 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub a: i32,
}
impl Row for N318 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N319 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub a: i32,
}
impl Row for N319 { fn toks(&self, out: &mut Vec<String>) { self.a.toks(out); } }
#[derive(ReadFromTree)]
pub struct N320 {
    #[oxyroot(absolute_name = "x")]
    pub s: P238,
}
impl Row for N320 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N321 {
    #[oxyroot(absolute_name = "x")]
    pub s: P238,
}
impl Row for N321 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N322 {
    #[oxyroot(absolute_name = "x")]
    pub s: P239,
}
impl Row for N322 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N323 {
    #[oxyroot(absolute_name = "x")]
    pub s: P239,
}
impl Row for N323 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N324 {
    #[oxyroot(absolute_name = "x")]
    pub s: P240,
}
impl Row for N324 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N325 {
    #[oxyroot(absolute_name = "x")]
    pub s: P240,
}
impl Row for N325 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N326 {
    #[oxyroot(absolute_name = "x")]
    pub s: P241,
}
impl Row for N326 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N327 {
    #[oxyroot(absolute_name = "x")]
    pub s: P241,
}
impl Row for N327 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N328 {
    #[oxyroot(absolute_name = "x")]
    pub s: P242,
}
impl Row for N328 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N329 {
    #[oxyroot(absolute_name = "x")]
    pub s: P242,
}
impl Row for N329 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N330 {
    #[oxyroot(absolute_name = "x")]
    pub s: P243,
}
impl Row for N330 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N331 {
    #[oxyroot(absolute_name = "x")]
    pub s: P243,
}
impl Row for N331 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N332 {
    #[oxyroot(absolute_name = "x")]
    pub s: P244,
}
impl Row for N332 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N333 {
    #[oxyroot(absolute_name = "x")]
    pub s: P244,
}
impl Row for N333 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N334 {
    #[oxyroot(absolute_name = "x")]
    pub s: P245,
}
impl Row for N334 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N335 {
    #[oxyroot(absolute_name = "x")]
    pub s: P245,
}
impl Row for N335 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N336 {
    #[oxyroot(absolute_name = "x")]
    pub s: P246,
}
impl Row for N336 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N337 {
    #[oxyroot(absolute_name = "x")]
    pub s: P246,
}
impl Row for N337 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N338 {
    #[oxyroot(absolute_name = "x")]
    pub s: P247,
}
impl Row for N338 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N339 {
    #[oxyroot(absolute_name = "x")]
    pub s: P247,
}
impl Row for N339 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N340 {
    #[oxyroot(absolute_name = "x")]
    pub s: P248,
}
impl Row for N340 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N341 {
    #[oxyroot(absolute_name = "x")]
    pub s: P248,
}
impl Row for N341 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N342 {
    #[oxyroot(absolute_name = "x")]
    pub s: P250,
}
impl Row for N342 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N343 {
    #[oxyroot(absolute_name = "x")]
    pub s: P250,
}
impl Row for N343 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N344 {
    #[oxyroot(absolute_name = "x")]
    pub s: P251,
}
impl Row for N344 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N345 {
    #[oxyroot(absolute_name = "x")]
    pub s: P251,
}
impl Row for N345 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N346 {
    #[oxyroot(absolute_name = "x")]
    pub s: P252,
}
impl Row for N346 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N347 {
    #[oxyroot(absolute_name = "x")]
    pub s: P252,
}
impl Row for N347 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N348 {
    #[oxyroot(absolute_name = "x")]
    pub s: P253,
}
impl Row for N348 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N349 {
    #[oxyroot(absolute_name = "x")]
    pub s: P253,
}
impl Row for N349 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N350 {
    #[oxyroot(absolute_name = "x")]
    pub s: P254,
}
impl Row for N350 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N351 {
    #[oxyroot(absolute_name = "x")]
    pub s: P254,
}
impl Row for N351 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N352 {
    #[oxyroot(absolute_name = "x")]
    pub s: P249,
}
impl Row for N352 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N353 {
    #[oxyroot(absolute_name = "x")]
    pub s: P249,
}
impl Row for N353 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N354 {
    #[oxyroot(absolute_name = "x")]
    pub s: P255,
}
impl Row for N354 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N355 {
    #[oxyroot(absolute_name = "x")]
    pub s: P255,
}
impl Row for N355 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N356 {
    #[oxyroot(absolute_name = "x")]
    pub s: P256,
}
impl Row for N356 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N357 {
    #[oxyroot(absolute_name = "x")]
    pub s: P256,
}
impl Row for N357 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N358 {
    #[oxyroot(absolute_name = "x")]
    pub s: P257,
}
impl Row for N358 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N359 {
    #[oxyroot(absolute_name = "x")]
    pub s: P257,
}
impl Row for N359 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N360 {
    #[oxyroot(absolute_name = "x")]
    pub s: P258,
}
impl Row for N360 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N361 {
    #[oxyroot(absolute_name = "x")]
    pub s: P258,
}
impl Row for N361 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N362 {
    #[oxyroot(absolute_name = "x")]
    pub s: P259,
}
impl Row for N362 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N363 {
    #[oxyroot(absolute_name = "x")]
    pub s: P259,
}
impl Row for N363 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N364 {
    #[oxyroot(absolute_name = "x")]
    pub s: P260,
}
impl Row for N364 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N365 {
    #[oxyroot(absolute_name = "x")]
    pub s: P260,
}
impl Row for N365 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N366 {
    #[oxyroot(absolute_name = "x")]
    pub s: P261,
}
impl Row for N366 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N367 {
    #[oxyroot(absolute_name = "x")]
    pub s: P261,
}
impl Row for N367 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N368 {
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    pub s: P238,
}
impl Row for N368 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N369 {
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    pub s: P238,
}
impl Row for N369 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N370 {
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    pub s: P239,
}
impl Row for N370 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N371 {
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    pub s: P239,
}
impl Row for N371 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N372 {
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    pub s: P240,
}
impl Row for N372 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N373 {
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    pub s: P240,
}
impl Row for N373 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N374 {
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    pub s: P241,
}
impl Row for N374 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N375 {
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    pub s: P241,
}
impl Row for N375 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N376 {
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    pub s: P242,
}
impl Row for N376 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N377 {
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    pub s: P242,
}
impl Row for N377 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N378 {
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    pub s: P243,
}
impl Row for N378 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N379 {
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    pub s: P243,
}
impl Row for N379 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N380 {
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    pub s: P244,
}
impl Row for N380 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N381 {
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    pub s: P244,
}
impl Row for N381 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N382 {
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    pub s: P245,
}
impl Row for N382 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N383 {
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    pub s: P245,
}
impl Row for N383 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N384 {
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    pub s: P249,
}
impl Row for N384 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N385 {
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    pub s: P249,
}
impl Row for N385 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N386 {
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    pub s: P255,
}
impl Row for N386 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N387 {
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    pub s: P255,
}
impl Row for N387 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N388 {
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    pub s: P256,
}
impl Row for N388 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N389 {
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    pub s: P256,
}
impl Row for N389 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N390 {
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    pub s: P257,
}
impl Row for N390 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N391 {
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    pub s: P257,
}
impl Row for N391 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N392 {
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    pub s: P258,
}
impl Row for N392 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N393 {
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    pub s: P258,
}
impl Row for N393 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N394 {
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    pub s: P259,
}
impl Row for N394 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N395 {
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    pub s: P259,
}
impl Row for N395 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N396 {
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    pub s: P260,
}
impl Row for N396 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N397 {
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    pub s: P260,
}
impl Row for N397 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N398 {
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    pub s: P261,
}
impl Row for N398 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N399 {
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    pub s: P261,
}
impl Row for N399 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N400 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P238,
}
impl Row for N400 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N401 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P238,
}
impl Row for N401 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N402 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P239,
}
impl Row for N402 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N403 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P239,
}
impl Row for N403 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N404 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P240,
}
impl Row for N404 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N405 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P240,
}
impl Row for N405 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N406 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P241,
}
impl Row for N406 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N407 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P241,
}
impl Row for N407 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N408 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P242,
}
impl Row for N408 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N409 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P242,
}
impl Row for N409 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N410 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P243,
}
impl Row for N410 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N411 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P243,
}
impl Row for N411 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N412 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P244,
}
impl Row for N412 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N413 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P244,
}
impl Row for N413 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N414 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P245,
}
impl Row for N414 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N415 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P245,
}
impl Row for N415 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N416 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P249,
}
impl Row for N416 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N417 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P249,
}
impl Row for N417 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N418 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P255,
}
impl Row for N418 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N419 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P255,
}
impl Row for N419 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N420 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P256,
}
impl Row for N420 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N421 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P256,
}
impl Row for N421 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N422 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P257,
}
impl Row for N422 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N423 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P257,
}
impl Row for N423 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N424 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P258,
}
impl Row for N424 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N425 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P258,
}
impl Row for N425 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N426 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P259,
}
impl Row for N426 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N427 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P259,
}
impl Row for N427 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N428 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P260,
}
impl Row for N428 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N429 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P260,
}
impl Row for N429 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N430 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P261,
}
impl Row for N430 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N431 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P261,
}
impl Row for N431 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N432 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P238,
}
impl Row for N432 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N433 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P238,
}
impl Row for N433 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N434 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P239,
}
impl Row for N434 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N435 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P239,
}
impl Row for N435 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N436 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P240,
}
impl Row for N436 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N437 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P240,
}
impl Row for N437 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N438 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P241,
}
impl Row for N438 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N439 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P241,
}
impl Row for N439 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N440 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P242,
}
impl Row for N440 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N441 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P242,
}
impl Row for N441 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N442 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P243,
}
impl Row for N442 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N443 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P243,
}
impl Row for N443 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N444 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P244,
}
impl Row for N444 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N445 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P244,
}
impl Row for N445 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N446 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P245,
}
impl Row for N446 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N447 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P245,
}
impl Row for N447 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N448 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P249,
}
impl Row for N448 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N449 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P249,
}
impl Row for N449 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N450 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P255,
}
impl Row for N450 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N451 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P255,
}
impl Row for N451 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N452 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P256,
}
impl Row for N452 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N453 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P256,
}
impl Row for N453 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N454 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P257,
}
impl Row for N454 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N455 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P257,
}
impl Row for N455 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N456 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P258,
}
impl Row for N456 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N457 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P258,
}
impl Row for N457 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N458 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P259,
}
impl Row for N458 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N459 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P259,
}
impl Row for N459 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N460 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P260,
}
impl Row for N460 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N461 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P260,
}
impl Row for N461 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
pub struct N462 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P261,
}
impl Row for N462 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct N463 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub s: P261,
}
impl Row for N463 { fn toks(&self, out: &mut Vec<String>) { self.s.toks(out); } }
#[derive(Clone, Copy, ReadFromTree)]
#[oxyroot(slicable)]
pub struct P262 {
    pub a: i32,
    pub z: i32,
}
impl RowSlice for P262 { fn toks(v: &[Self], out: &mut Vec<String>) { col(v.iter().map(|p| p.a), out); col(v.iter().map(|p| p.z), out); } }
#[derive(ReadFromTree)]
pub struct V0 {
    #[oxyroot(slicable = "P262")]
    pub v: Vec<P262>,
}
impl Row for V0 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V1 {
    #[oxyroot(slicable = "P262")]
    pub v: Vec<P262>,
}
impl Row for V1 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(Clone, Copy, ReadFromTree)]
#[oxyroot(slicable)]
pub struct P263 {
    #[oxyroot(rename = "r")]
    pub a: i32,
    pub z: i32,
}
impl RowSlice for P263 { fn toks(v: &[Self], out: &mut Vec<String>) { col(v.iter().map(|p| p.a), out); col(v.iter().map(|p| p.z), out); } }
#[derive(ReadFromTree)]
pub struct V2 {
    #[oxyroot(slicable = "P263")]
    pub v: Vec<P263>,
}
impl Row for V2 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V3 {
    #[oxyroot(slicable = "P263")]
    pub v: Vec<P263>,
}
impl Row for V3 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(Clone, Copy, ReadFromTree)]
#[oxyroot(slicable)]
pub struct P264 {
    #[oxyroot(branch_prefix = "l_")]
    pub a: i32,
    pub z: i32,
}
impl RowSlice for P264 { fn toks(v: &[Self], out: &mut Vec<String>) { col(v.iter().map(|p| p.a), out); col(v.iter().map(|p| p.z), out); } }
#[derive(ReadFromTree)]
pub struct V4 {
    #[oxyroot(slicable = "P264")]
    pub v: Vec<P264>,
}
impl Row for V4 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V5 {
    #[oxyroot(slicable = "P264")]
    pub v: Vec<P264>,
}
impl Row for V5 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(Clone, Copy, ReadFromTree)]
#[oxyroot(slicable)]
pub struct P265 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    pub a: i32,
    pub z: i32,
}
impl RowSlice for P265 { fn toks(v: &[Self], out: &mut Vec<String>) { col(v.iter().map(|p| p.a), out); col(v.iter().map(|p| p.z), out); } }
#[derive(ReadFromTree)]
pub struct V6 {
    #[oxyroot(slicable = "P265")]
    pub v: Vec<P265>,
}
impl Row for V6 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V7 {
    #[oxyroot(slicable = "P265")]
    pub v: Vec<P265>,
}
impl Row for V7 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(Clone, Copy, ReadFromTree)]
#[oxyroot(branch_prefix = "g_", slicable)]
pub struct P266 {
    pub z: i32,
    pub a: i32,
}
impl RowSlice for P266 { fn toks(v: &[Self], out: &mut Vec<String>) { col(v.iter().map(|p| p.z), out); col(v.iter().map(|p| p.a), out); } }
#[derive(ReadFromTree)]
pub struct V8 {
    #[oxyroot(slicable = "P266")]
    pub v: Vec<P266>,
}
impl Row for V8 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V9 {
    #[oxyroot(slicable = "P266")]
    pub v: Vec<P266>,
}
impl Row for V9 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(Clone, Copy, ReadFromTree)]
#[oxyroot(branch_prefix = "g_", slicable)]
pub struct P267 {
    pub z: i32,
    #[oxyroot(rename = "r")]
    pub a: i32,
}
impl RowSlice for P267 { fn toks(v: &[Self], out: &mut Vec<String>) { col(v.iter().map(|p| p.z), out); col(v.iter().map(|p| p.a), out); } }
#[derive(ReadFromTree)]
pub struct V10 {
    #[oxyroot(slicable = "P267")]
    pub v: Vec<P267>,
}
impl Row for V10 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V11 {
    #[oxyroot(slicable = "P267")]
    pub v: Vec<P267>,
}
impl Row for V11 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(Clone, Copy, ReadFromTree)]
#[oxyroot(branch_prefix = "g_", slicable)]
pub struct P268 {
    pub z: i32,
    #[oxyroot(branch_prefix = "l_")]
    pub a: i32,
}
impl RowSlice for P268 { fn toks(v: &[Self], out: &mut Vec<String>) { col(v.iter().map(|p| p.z), out); col(v.iter().map(|p| p.a), out); } }
#[derive(ReadFromTree)]
pub struct V12 {
    #[oxyroot(slicable = "P268")]
    pub v: Vec<P268>,
}
impl Row for V12 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V13 {
    #[oxyroot(slicable = "P268")]
    pub v: Vec<P268>,
}
impl Row for V13 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(Clone, Copy, ReadFromTree)]
#[oxyroot(branch_prefix = "g_", slicable)]
pub struct P269 {
    pub z: i32,
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    pub a: i32,
}
impl RowSlice for P269 { fn toks(v: &[Self], out: &mut Vec<String>) { col(v.iter().map(|p| p.z), out); col(v.iter().map(|p| p.a), out); } }
#[derive(ReadFromTree)]
pub struct V14 {
    #[oxyroot(slicable = "P269")]
    pub v: Vec<P269>,
}
impl Row for V14 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V15 {
    #[oxyroot(slicable = "P269")]
    pub v: Vec<P269>,
}
impl Row for V15 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(Clone, Copy, ReadFromTree)]
#[oxyroot(branch_prefix = "g_", slicable)]
pub struct P270 {
    pub z: i32,
    #[oxyroot(absolute_name = "x")]
    pub a: i32,
}
impl RowSlice for P270 { fn toks(v: &[Self], out: &mut Vec<String>) { col(v.iter().map(|p| p.z), out); col(v.iter().map(|p| p.a), out); } }
#[derive(ReadFromTree)]
pub struct V16 {
    #[oxyroot(slicable = "P270")]
    pub v: Vec<P270>,
}
impl Row for V16 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V17 {
    #[oxyroot(slicable = "P270")]
    pub v: Vec<P270>,
}
impl Row for V17 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(Clone, Copy, ReadFromTree)]
#[oxyroot(branch_prefix = "g_", slicable)]
pub struct P271 {
    pub z: i32,
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    pub a: i32,
}
impl RowSlice for P271 { fn toks(v: &[Self], out: &mut Vec<String>) { col(v.iter().map(|p| p.z), out); col(v.iter().map(|p| p.a), out); } }
#[derive(ReadFromTree)]
pub struct V18 {
    #[oxyroot(slicable = "P271")]
    pub v: Vec<P271>,
}
impl Row for V18 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V19 {
    #[oxyroot(slicable = "P271")]
    pub v: Vec<P271>,
}
impl Row for V19 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(Clone, Copy, ReadFromTree)]
#[oxyroot(branch_prefix = "g_", slicable)]
pub struct P272 {
    pub z: i32,
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub a: i32,
}
impl RowSlice for P272 { fn toks(v: &[Self], out: &mut Vec<String>) { col(v.iter().map(|p| p.z), out); col(v.iter().map(|p| p.a), out); } }
#[derive(ReadFromTree)]
pub struct V20 {
    #[oxyroot(slicable = "P272")]
    pub v: Vec<P272>,
}
impl Row for V20 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V21 {
    #[oxyroot(slicable = "P272")]
    pub v: Vec<P272>,
}
impl Row for V21 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(Clone, Copy, ReadFromTree)]
#[oxyroot(branch_prefix = "g_", slicable)]
pub struct P273 {
    pub z: i32,
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub a: i32,
}
impl RowSlice for P273 { fn toks(v: &[Self], out: &mut Vec<String>) { col(v.iter().map(|p| p.z), out); col(v.iter().map(|p| p.a), out); } }
#[derive(ReadFromTree)]
pub struct V22 {
    #[oxyroot(slicable = "P273")]
    pub v: Vec<P273>,
}
impl Row for V22 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V23 {
    #[oxyroot(slicable = "P273")]
    pub v: Vec<P273>,
}
impl Row for V23 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(Clone, Copy, ReadFromTree)]
#[oxyroot(slicable)]
pub struct P274 {
    #[oxyroot(absolute_name = "x")]
    pub a: i32,
    pub z: i32,
}
impl RowSlice for P274 { fn toks(v: &[Self], out: &mut Vec<String>) { col(v.iter().map(|p| p.a), out); col(v.iter().map(|p| p.z), out); } }
#[derive(ReadFromTree)]
pub struct V24 {
    #[oxyroot(slicable = "P274")]
    pub v: Vec<P274>,
}
impl Row for V24 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V25 {
    #[oxyroot(slicable = "P274")]
    pub v: Vec<P274>,
}
impl Row for V25 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(Clone, Copy, ReadFromTree)]
#[oxyroot(slicable)]
pub struct P275 {
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    pub a: i32,
    pub z: i32,
}
impl RowSlice for P275 { fn toks(v: &[Self], out: &mut Vec<String>) { col(v.iter().map(|p| p.a), out); col(v.iter().map(|p| p.z), out); } }
#[derive(ReadFromTree)]
pub struct V26 {
    #[oxyroot(slicable = "P275")]
    pub v: Vec<P275>,
}
impl Row for V26 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V27 {
    #[oxyroot(slicable = "P275")]
    pub v: Vec<P275>,
}
impl Row for V27 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(Clone, Copy, ReadFromTree)]
#[oxyroot(slicable)]
pub struct P276 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub a: i32,
    pub z: i32,
}
impl RowSlice for P276 { fn toks(v: &[Self], out: &mut Vec<String>) { col(v.iter().map(|p| p.a), out); col(v.iter().map(|p| p.z), out); } }
#[derive(ReadFromTree)]
pub struct V28 {
    #[oxyroot(slicable = "P276")]
    pub v: Vec<P276>,
}
impl Row for V28 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V29 {
    #[oxyroot(slicable = "P276")]
    pub v: Vec<P276>,
}
impl Row for V29 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(Clone, Copy, ReadFromTree)]
#[oxyroot(slicable)]
pub struct P277 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    pub a: i32,
    pub z: i32,
}
impl RowSlice for P277 { fn toks(v: &[Self], out: &mut Vec<String>) { col(v.iter().map(|p| p.a), out); col(v.iter().map(|p| p.z), out); } }
#[derive(ReadFromTree)]
pub struct V30 {
    #[oxyroot(slicable = "P277")]
    pub v: Vec<P277>,
}
impl Row for V30 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V31 {
    #[oxyroot(slicable = "P277")]
    pub v: Vec<P277>,
}
impl Row for V31 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V32 {
    #[oxyroot(rename = "r")]
    #[oxyroot(slicable = "P262")]
    pub v: Vec<P262>,
}
impl Row for V32 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V33 {
    #[oxyroot(rename = "r")]
    #[oxyroot(slicable = "P262")]
    pub v: Vec<P262>,
}
impl Row for V33 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V34 {
    #[oxyroot(rename = "r")]
    #[oxyroot(slicable = "P263")]
    pub v: Vec<P263>,
}
impl Row for V34 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V35 {
    #[oxyroot(rename = "r")]
    #[oxyroot(slicable = "P263")]
    pub v: Vec<P263>,
}
impl Row for V35 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V36 {
    #[oxyroot(rename = "r")]
    #[oxyroot(slicable = "P264")]
    pub v: Vec<P264>,
}
impl Row for V36 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V37 {
    #[oxyroot(rename = "r")]
    #[oxyroot(slicable = "P264")]
    pub v: Vec<P264>,
}
impl Row for V37 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V38 {
    #[oxyroot(rename = "r")]
    #[oxyroot(slicable = "P265")]
    pub v: Vec<P265>,
}
impl Row for V38 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V39 {
    #[oxyroot(rename = "r")]
    #[oxyroot(slicable = "P265")]
    pub v: Vec<P265>,
}
impl Row for V39 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V40 {
    #[oxyroot(rename = "r")]
    #[oxyroot(slicable = "P266")]
    pub v: Vec<P266>,
}
impl Row for V40 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V41 {
    #[oxyroot(rename = "r")]
    #[oxyroot(slicable = "P266")]
    pub v: Vec<P266>,
}
impl Row for V41 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V42 {
    #[oxyroot(rename = "r")]
    #[oxyroot(slicable = "P267")]
    pub v: Vec<P267>,
}
impl Row for V42 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V43 {
    #[oxyroot(rename = "r")]
    #[oxyroot(slicable = "P267")]
    pub v: Vec<P267>,
}
impl Row for V43 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V44 {
    #[oxyroot(rename = "r")]
    #[oxyroot(slicable = "P268")]
    pub v: Vec<P268>,
}
impl Row for V44 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V45 {
    #[oxyroot(rename = "r")]
    #[oxyroot(slicable = "P268")]
    pub v: Vec<P268>,
}
impl Row for V45 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V46 {
    #[oxyroot(rename = "r")]
    #[oxyroot(slicable = "P269")]
    pub v: Vec<P269>,
}
impl Row for V46 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V47 {
    #[oxyroot(rename = "r")]
    #[oxyroot(slicable = "P269")]
    pub v: Vec<P269>,
}
impl Row for V47 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V48 {
    #[oxyroot(rename = "r")]
    #[oxyroot(slicable = "P270")]
    pub v: Vec<P270>,
}
impl Row for V48 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V49 {
    #[oxyroot(rename = "r")]
    #[oxyroot(slicable = "P270")]
    pub v: Vec<P270>,
}
impl Row for V49 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V50 {
    #[oxyroot(rename = "r")]
    #[oxyroot(slicable = "P271")]
    pub v: Vec<P271>,
}
impl Row for V50 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V51 {
    #[oxyroot(rename = "r")]
    #[oxyroot(slicable = "P271")]
    pub v: Vec<P271>,
}
impl Row for V51 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V52 {
    #[oxyroot(rename = "r")]
    #[oxyroot(slicable = "P272")]
    pub v: Vec<P272>,
}
impl Row for V52 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V53 {
    #[oxyroot(rename = "r")]
    #[oxyroot(slicable = "P272")]
    pub v: Vec<P272>,
}
impl Row for V53 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V54 {
    #[oxyroot(rename = "r")]
    #[oxyroot(slicable = "P273")]
    pub v: Vec<P273>,
}
impl Row for V54 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V55 {
    #[oxyroot(rename = "r")]
    #[oxyroot(slicable = "P273")]
    pub v: Vec<P273>,
}
impl Row for V55 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V56 {
    #[oxyroot(rename = "r")]
    #[oxyroot(slicable = "P274")]
    pub v: Vec<P274>,
}
impl Row for V56 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V57 {
    #[oxyroot(rename = "r")]
    #[oxyroot(slicable = "P274")]
    pub v: Vec<P274>,
}
impl Row for V57 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V58 {
    #[oxyroot(rename = "r")]
    #[oxyroot(slicable = "P275")]
    pub v: Vec<P275>,
}
impl Row for V58 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V59 {
    #[oxyroot(rename = "r")]
    #[oxyroot(slicable = "P275")]
    pub v: Vec<P275>,
}
impl Row for V59 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V60 {
    #[oxyroot(rename = "r")]
    #[oxyroot(slicable = "P276")]
    pub v: Vec<P276>,
}
impl Row for V60 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V61 {
    #[oxyroot(rename = "r")]
    #[oxyroot(slicable = "P276")]
    pub v: Vec<P276>,
}
impl Row for V61 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V62 {
    #[oxyroot(rename = "r")]
    #[oxyroot(slicable = "P277")]
    pub v: Vec<P277>,
}
impl Row for V62 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V63 {
    #[oxyroot(rename = "r")]
    #[oxyroot(slicable = "P277")]
    pub v: Vec<P277>,
}
impl Row for V63 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V64 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(slicable = "P262")]
    pub v: Vec<P262>,
}
impl Row for V64 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V65 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(slicable = "P262")]
    pub v: Vec<P262>,
}
impl Row for V65 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V66 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(slicable = "P263")]
    pub v: Vec<P263>,
}
impl Row for V66 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V67 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(slicable = "P263")]
    pub v: Vec<P263>,
}
impl Row for V67 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V68 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(slicable = "P264")]
    pub v: Vec<P264>,
}
impl Row for V68 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V69 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(slicable = "P264")]
    pub v: Vec<P264>,
}
impl Row for V69 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V70 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(slicable = "P265")]
    pub v: Vec<P265>,
}
impl Row for V70 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V71 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(slicable = "P265")]
    pub v: Vec<P265>,
}
impl Row for V71 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V72 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(slicable = "P266")]
    pub v: Vec<P266>,
}
impl Row for V72 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V73 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(slicable = "P266")]
    pub v: Vec<P266>,
}
impl Row for V73 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V74 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(slicable = "P267")]
    pub v: Vec<P267>,
}
impl Row for V74 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V75 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(slicable = "P267")]
    pub v: Vec<P267>,
}
impl Row for V75 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V76 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(slicable = "P268")]
    pub v: Vec<P268>,
}
impl Row for V76 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V77 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(slicable = "P268")]
    pub v: Vec<P268>,
}
impl Row for V77 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V78 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(slicable = "P269")]
    pub v: Vec<P269>,
}
impl Row for V78 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V79 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(slicable = "P269")]
    pub v: Vec<P269>,
}
impl Row for V79 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V80 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(slicable = "P270")]
    pub v: Vec<P270>,
}
impl Row for V80 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V81 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(slicable = "P270")]
    pub v: Vec<P270>,
}
impl Row for V81 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V82 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(slicable = "P271")]
    pub v: Vec<P271>,
}
impl Row for V82 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V83 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(slicable = "P271")]
    pub v: Vec<P271>,
}
impl Row for V83 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V84 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(slicable = "P272")]
    pub v: Vec<P272>,
}
impl Row for V84 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V85 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(slicable = "P272")]
    pub v: Vec<P272>,
}
impl Row for V85 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V86 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(slicable = "P273")]
    pub v: Vec<P273>,
}
impl Row for V86 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V87 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(slicable = "P273")]
    pub v: Vec<P273>,
}
impl Row for V87 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V88 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(slicable = "P274")]
    pub v: Vec<P274>,
}
impl Row for V88 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V89 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(slicable = "P274")]
    pub v: Vec<P274>,
}
impl Row for V89 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V90 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(slicable = "P275")]
    pub v: Vec<P275>,
}
impl Row for V90 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V91 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(slicable = "P275")]
    pub v: Vec<P275>,
}
impl Row for V91 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V92 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(slicable = "P276")]
    pub v: Vec<P276>,
}
impl Row for V92 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V93 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(slicable = "P276")]
    pub v: Vec<P276>,
}
impl Row for V93 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V94 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(slicable = "P277")]
    pub v: Vec<P277>,
}
impl Row for V94 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V95 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(slicable = "P277")]
    pub v: Vec<P277>,
}
impl Row for V95 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V96 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(slicable = "P262")]
    pub v: Vec<P262>,
}
impl Row for V96 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V97 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(slicable = "P262")]
    pub v: Vec<P262>,
}
impl Row for V97 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V98 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(slicable = "P263")]
    pub v: Vec<P263>,
}
impl Row for V98 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V99 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(slicable = "P263")]
    pub v: Vec<P263>,
}
impl Row for V99 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V100 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(slicable = "P264")]
    pub v: Vec<P264>,
}
impl Row for V100 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V101 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(slicable = "P264")]
    pub v: Vec<P264>,
}
impl Row for V101 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V102 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(slicable = "P265")]
    pub v: Vec<P265>,
}
impl Row for V102 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V103 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(slicable = "P265")]
    pub v: Vec<P265>,
}
impl Row for V103 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V104 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(slicable = "P266")]
    pub v: Vec<P266>,
}
impl Row for V104 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V105 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(slicable = "P266")]
    pub v: Vec<P266>,
}
impl Row for V105 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V106 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(slicable = "P267")]
    pub v: Vec<P267>,
}
impl Row for V106 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V107 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(slicable = "P267")]
    pub v: Vec<P267>,
}
impl Row for V107 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V108 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(slicable = "P268")]
    pub v: Vec<P268>,
}
impl Row for V108 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V109 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(slicable = "P268")]
    pub v: Vec<P268>,
}
impl Row for V109 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V110 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(slicable = "P269")]
    pub v: Vec<P269>,
}
impl Row for V110 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V111 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(slicable = "P269")]
    pub v: Vec<P269>,
}
impl Row for V111 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V112 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(slicable = "P270")]
    pub v: Vec<P270>,
}
impl Row for V112 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V113 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(slicable = "P270")]
    pub v: Vec<P270>,
}
impl Row for V113 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V114 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(slicable = "P271")]
    pub v: Vec<P271>,
}
impl Row for V114 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V115 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(slicable = "P271")]
    pub v: Vec<P271>,
}
impl Row for V115 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V116 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(slicable = "P272")]
    pub v: Vec<P272>,
}
impl Row for V116 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V117 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(slicable = "P272")]
    pub v: Vec<P272>,
}
impl Row for V117 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V118 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(slicable = "P273")]
    pub v: Vec<P273>,
}
impl Row for V118 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V119 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(slicable = "P273")]
    pub v: Vec<P273>,
}
impl Row for V119 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V120 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(slicable = "P274")]
    pub v: Vec<P274>,
}
impl Row for V120 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V121 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(slicable = "P274")]
    pub v: Vec<P274>,
}
impl Row for V121 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V122 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(slicable = "P275")]
    pub v: Vec<P275>,
}
impl Row for V122 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V123 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(slicable = "P275")]
    pub v: Vec<P275>,
}
impl Row for V123 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V124 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(slicable = "P276")]
    pub v: Vec<P276>,
}
impl Row for V124 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V125 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(slicable = "P276")]
    pub v: Vec<P276>,
}
impl Row for V125 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V126 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(slicable = "P277")]
    pub v: Vec<P277>,
}
impl Row for V126 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V127 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(slicable = "P277")]
    pub v: Vec<P277>,
}
impl Row for V127 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V128 {
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P262")]
    pub v: Vec<P262>,
}
impl Row for V128 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V129 {
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P262")]
    pub v: Vec<P262>,
}
impl Row for V129 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V130 {
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P263")]
    pub v: Vec<P263>,
}
impl Row for V130 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V131 {
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P263")]
    pub v: Vec<P263>,
}
impl Row for V131 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V132 {
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P264")]
    pub v: Vec<P264>,
}
impl Row for V132 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V133 {
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P264")]
    pub v: Vec<P264>,
}
impl Row for V133 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V134 {
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P265")]
    pub v: Vec<P265>,
}
impl Row for V134 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V135 {
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P265")]
    pub v: Vec<P265>,
}
impl Row for V135 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V136 {
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P266")]
    pub v: Vec<P266>,
}
impl Row for V136 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V137 {
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P266")]
    pub v: Vec<P266>,
}
impl Row for V137 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V138 {
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P267")]
    pub v: Vec<P267>,
}
impl Row for V138 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V139 {
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P267")]
    pub v: Vec<P267>,
}
impl Row for V139 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V140 {
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P268")]
    pub v: Vec<P268>,
}
impl Row for V140 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V141 {
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P268")]
    pub v: Vec<P268>,
}
impl Row for V141 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V142 {
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P269")]
    pub v: Vec<P269>,
}
impl Row for V142 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V143 {
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P269")]
    pub v: Vec<P269>,
}
impl Row for V143 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V144 {
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P270")]
    pub v: Vec<P270>,
}
impl Row for V144 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V145 {
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P270")]
    pub v: Vec<P270>,
}
impl Row for V145 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V146 {
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P271")]
    pub v: Vec<P271>,
}
impl Row for V146 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V147 {
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P271")]
    pub v: Vec<P271>,
}
impl Row for V147 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V148 {
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P272")]
    pub v: Vec<P272>,
}
impl Row for V148 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V149 {
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P272")]
    pub v: Vec<P272>,
}
impl Row for V149 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V150 {
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P273")]
    pub v: Vec<P273>,
}
impl Row for V150 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V151 {
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P273")]
    pub v: Vec<P273>,
}
impl Row for V151 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V152 {
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P274")]
    pub v: Vec<P274>,
}
impl Row for V152 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V153 {
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P274")]
    pub v: Vec<P274>,
}
impl Row for V153 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V154 {
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P275")]
    pub v: Vec<P275>,
}
impl Row for V154 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V155 {
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P275")]
    pub v: Vec<P275>,
}
impl Row for V155 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V156 {
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P276")]
    pub v: Vec<P276>,
}
impl Row for V156 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V157 {
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P276")]
    pub v: Vec<P276>,
}
impl Row for V157 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V158 {
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P277")]
    pub v: Vec<P277>,
}
impl Row for V158 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V159 {
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P277")]
    pub v: Vec<P277>,
}
impl Row for V159 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V160 {
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P262")]
    pub v: Vec<P262>,
}
impl Row for V160 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V161 {
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P262")]
    pub v: Vec<P262>,
}
impl Row for V161 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V162 {
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P263")]
    pub v: Vec<P263>,
}
impl Row for V162 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V163 {
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P263")]
    pub v: Vec<P263>,
}
impl Row for V163 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V164 {
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P264")]
    pub v: Vec<P264>,
}
impl Row for V164 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V165 {
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P264")]
    pub v: Vec<P264>,
}
impl Row for V165 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V166 {
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P265")]
    pub v: Vec<P265>,
}
impl Row for V166 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V167 {
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P265")]
    pub v: Vec<P265>,
}
impl Row for V167 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V168 {
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P266")]
    pub v: Vec<P266>,
}
impl Row for V168 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V169 {
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P266")]
    pub v: Vec<P266>,
}
impl Row for V169 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V170 {
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P267")]
    pub v: Vec<P267>,
}
impl Row for V170 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V171 {
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P267")]
    pub v: Vec<P267>,
}
impl Row for V171 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V172 {
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P268")]
    pub v: Vec<P268>,
}
impl Row for V172 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V173 {
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P268")]
    pub v: Vec<P268>,
}
impl Row for V173 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V174 {
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P269")]
    pub v: Vec<P269>,
}
impl Row for V174 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V175 {
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P269")]
    pub v: Vec<P269>,
}
impl Row for V175 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V176 {
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P270")]
    pub v: Vec<P270>,
}
impl Row for V176 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V177 {
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P270")]
    pub v: Vec<P270>,
}
impl Row for V177 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V178 {
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P271")]
    pub v: Vec<P271>,
}
impl Row for V178 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V179 {
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P271")]
    pub v: Vec<P271>,
}
impl Row for V179 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V180 {
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P272")]
    pub v: Vec<P272>,
}
impl Row for V180 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V181 {
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P272")]
    pub v: Vec<P272>,
}
impl Row for V181 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V182 {
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P273")]
    pub v: Vec<P273>,
}
impl Row for V182 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V183 {
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P273")]
    pub v: Vec<P273>,
}
impl Row for V183 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V184 {
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P274")]
    pub v: Vec<P274>,
}
impl Row for V184 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V185 {
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P274")]
    pub v: Vec<P274>,
}
impl Row for V185 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V186 {
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P275")]
    pub v: Vec<P275>,
}
impl Row for V186 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V187 {
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P275")]
    pub v: Vec<P275>,
}
impl Row for V187 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V188 {
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P276")]
    pub v: Vec<P276>,
}
impl Row for V188 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V189 {
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P276")]
    pub v: Vec<P276>,
}
impl Row for V189 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V190 {
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P277")]
    pub v: Vec<P277>,
}
impl Row for V190 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V191 {
    #[oxyroot(rename = "r")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P277")]
    pub v: Vec<P277>,
}
impl Row for V191 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V192 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P262")]
    pub v: Vec<P262>,
}
impl Row for V192 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V193 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P262")]
    pub v: Vec<P262>,
}
impl Row for V193 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V194 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P263")]
    pub v: Vec<P263>,
}
impl Row for V194 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V195 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P263")]
    pub v: Vec<P263>,
}
impl Row for V195 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V196 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P264")]
    pub v: Vec<P264>,
}
impl Row for V196 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V197 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P264")]
    pub v: Vec<P264>,
}
impl Row for V197 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V198 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P265")]
    pub v: Vec<P265>,
}
impl Row for V198 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V199 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P265")]
    pub v: Vec<P265>,
}
impl Row for V199 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V200 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P266")]
    pub v: Vec<P266>,
}
impl Row for V200 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V201 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P266")]
    pub v: Vec<P266>,
}
impl Row for V201 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V202 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P267")]
    pub v: Vec<P267>,
}
impl Row for V202 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V203 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P267")]
    pub v: Vec<P267>,
}
impl Row for V203 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V204 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P268")]
    pub v: Vec<P268>,
}
impl Row for V204 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V205 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P268")]
    pub v: Vec<P268>,
}
impl Row for V205 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V206 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P269")]
    pub v: Vec<P269>,
}
impl Row for V206 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V207 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P269")]
    pub v: Vec<P269>,
}
impl Row for V207 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V208 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P270")]
    pub v: Vec<P270>,
}
impl Row for V208 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V209 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P270")]
    pub v: Vec<P270>,
}
impl Row for V209 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V210 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P271")]
    pub v: Vec<P271>,
}
impl Row for V210 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V211 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P271")]
    pub v: Vec<P271>,
}
impl Row for V211 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V212 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P272")]
    pub v: Vec<P272>,
}
impl Row for V212 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V213 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P272")]
    pub v: Vec<P272>,
}
impl Row for V213 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V214 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P273")]
    pub v: Vec<P273>,
}
impl Row for V214 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V215 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P273")]
    pub v: Vec<P273>,
}
impl Row for V215 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V216 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P274")]
    pub v: Vec<P274>,
}
impl Row for V216 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V217 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P274")]
    pub v: Vec<P274>,
}
impl Row for V217 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V218 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P275")]
    pub v: Vec<P275>,
}
impl Row for V218 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V219 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P275")]
    pub v: Vec<P275>,
}
impl Row for V219 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V220 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P276")]
    pub v: Vec<P276>,
}
impl Row for V220 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V221 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P276")]
    pub v: Vec<P276>,
}
impl Row for V221 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V222 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P277")]
    pub v: Vec<P277>,
}
impl Row for V222 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V223 {
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P277")]
    pub v: Vec<P277>,
}
impl Row for V223 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V224 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P262")]
    pub v: Vec<P262>,
}
impl Row for V224 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V225 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P262")]
    pub v: Vec<P262>,
}
impl Row for V225 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V226 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P263")]
    pub v: Vec<P263>,
}
impl Row for V226 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V227 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P263")]
    pub v: Vec<P263>,
}
impl Row for V227 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V228 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P264")]
    pub v: Vec<P264>,
}
impl Row for V228 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V229 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P264")]
    pub v: Vec<P264>,
}
impl Row for V229 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V230 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P265")]
    pub v: Vec<P265>,
}
impl Row for V230 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V231 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P265")]
    pub v: Vec<P265>,
}
impl Row for V231 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V232 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P266")]
    pub v: Vec<P266>,
}
impl Row for V232 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V233 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P266")]
    pub v: Vec<P266>,
}
impl Row for V233 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V234 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P267")]
    pub v: Vec<P267>,
}
impl Row for V234 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V235 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P267")]
    pub v: Vec<P267>,
}
impl Row for V235 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V236 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P268")]
    pub v: Vec<P268>,
}
impl Row for V236 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V237 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P268")]
    pub v: Vec<P268>,
}
impl Row for V237 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V238 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P269")]
    pub v: Vec<P269>,
}
impl Row for V238 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V239 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P269")]
    pub v: Vec<P269>,
}
impl Row for V239 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V240 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P270")]
    pub v: Vec<P270>,
}
impl Row for V240 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V241 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P270")]
    pub v: Vec<P270>,
}
impl Row for V241 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V242 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P271")]
    pub v: Vec<P271>,
}
impl Row for V242 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V243 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P271")]
    pub v: Vec<P271>,
}
impl Row for V243 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V244 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P272")]
    pub v: Vec<P272>,
}
impl Row for V244 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V245 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P272")]
    pub v: Vec<P272>,
}
impl Row for V245 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V246 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P273")]
    pub v: Vec<P273>,
}
impl Row for V246 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V247 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P273")]
    pub v: Vec<P273>,
}
impl Row for V247 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V248 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P274")]
    pub v: Vec<P274>,
}
impl Row for V248 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V249 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P274")]
    pub v: Vec<P274>,
}
impl Row for V249 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V250 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P275")]
    pub v: Vec<P275>,
}
impl Row for V250 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V251 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P275")]
    pub v: Vec<P275>,
}
impl Row for V251 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V252 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P276")]
    pub v: Vec<P276>,
}
impl Row for V252 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V253 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P276")]
    pub v: Vec<P276>,
}
impl Row for V253 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
pub struct V254 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P277")]
    pub v: Vec<P277>,
}
impl Row for V254 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct V255 {
    #[oxyroot(rename = "r")]
    #[oxyroot(branch_prefix = "l_")]
    #[oxyroot(absolute_name = "x")]
    #[oxyroot(slicable = "P277")]
    pub v: Vec<P277>,
}
impl Row for V255 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.v, out); } }
#[derive(Clone, Copy, ReadFromTree)]
#[oxyroot(slicable)]
pub struct P278 {
    pub x: i32,
    pub y: f64,
}
impl RowSlice for P278 { fn toks(v: &[Self], out: &mut Vec<String>) { col(v.iter().map(|p| p.x), out); col(v.iter().map(|p| p.y), out); } }
#[derive(ReadFromTree)]
pub struct S0 {
    #[oxyroot(slicable = "P278")]
    pub pts: Vec<P278>,
}
impl Row for S0 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.pts, out); } }
#[derive(Clone, Copy, ReadFromTree)]
#[oxyroot(branch_prefix = "p_", slicable)]
pub struct P279 {
    pub x: u8,
    #[oxyroot(rename = "yy")]
    pub y: bool,
    pub z: i64,
}
impl RowSlice for P279 { fn toks(v: &[Self], out: &mut Vec<String>) { col(v.iter().map(|p| p.x), out); col(v.iter().map(|p| p.y), out); col(v.iter().map(|p| p.z), out); } }
#[derive(ReadFromTree)]
pub struct S1 {
    pub n: i32,
    #[oxyroot(slicable = "P279")]
    pub pts: Vec<P279>,
    pub z: String,
}
impl Row for S1 { fn toks(&self, out: &mut Vec<String>) { self.n.toks(out); RowSlice::toks(&self.pts, out); self.z.toks(out); } }
#[derive(ReadFromTree)]
pub struct S2 {
    #[oxyroot(slicable = "P278")]
    pub a: Vec<P278>,
    #[oxyroot(slicable = "P278")]
    pub b: Vec<P278>,
    pub z: i32,
}
impl Row for S2 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.a, out); RowSlice::toks(&self.b, out); self.z.toks(out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct P280 {
    #[oxyroot(slicable = "P278")]
    pub pts: Vec<P278>,
    pub k: i32,
}
impl Row for P280 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.pts, out); self.k.toks(out); } }
#[derive(ReadFromTree)]
pub struct S3 {
    pub part: P280,
    pub z: f64,
}
impl Row for S3 { fn toks(&self, out: &mut Vec<String>) { self.part.toks(out); self.z.toks(out); } }
#[derive(Clone, Copy, ReadFromTree)]
#[oxyroot(slicable)]
pub struct P281 {
    #[oxyroot(absolute_name = "ax")]
    pub x: i16,
    #[oxyroot(branch_prefix = "l_")]
    pub y: i16,
}
impl RowSlice for P281 { fn toks(v: &[Self], out: &mut Vec<String>) { col(v.iter().map(|p| p.x), out); col(v.iter().map(|p| p.y), out); } }
#[derive(ReadFromTree)]
pub struct S4 {
    #[oxyroot(rename = "q")]
    #[oxyroot(slicable = "P281")]
    pub pts: Vec<P281>,
    pub x: Slice<i32>,
}
impl Row for S4 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.pts, out); self.x.toks(out); } }
#[derive(ReadFromTree)]
pub struct S5 {
    #[oxyroot(branch_prefix = "u_")]
    #[oxyroot(absolute_name = "abs")]
    #[oxyroot(slicable = "P279")]
    pub pts: Vec<P279>,
}
impl Row for S5 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.pts, out); } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "g_")]
pub struct S6 {
    #[oxyroot(branch_prefix = "u_")]
    #[oxyroot(slicable = "P278")]
    pub pts: Vec<P278>,
}
impl Row for S6 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.pts, out); } }
#[derive(Clone, Copy, ReadFromTree)]
#[oxyroot(slicable)]
pub struct P282 {
    pub x: f32,
}
impl RowSlice for P282 { fn toks(v: &[Self], out: &mut Vec<String>) { col(v.iter().map(|p| p.x), out); } }
#[derive(ReadFromTree)]
pub struct S7 {
    #[oxyroot(slicable = "P282")]
    pub p: Vec<P282>,
}
impl Row for S7 { fn toks(&self, out: &mut Vec<String>) { RowSlice::toks(&self.p, out); } }
pub fn write(t: &mut WriterTree, shape: &str, g: &Gen, n: u64) -> Result<Vec<Value>, String> {
    match shape {
        "W0" => w::<W0>(t, g, n),
        "W1" => w::<W1>(t, g, n),
        "W2" => w::<W2>(t, g, n),
        "W3" => w::<W3>(t, g, n),
        "W4" => w::<W4>(t, g, n),
        "W5" => w::<W5>(t, g, n),
        "W6" => w::<W6>(t, g, n),
        "W7" => w::<W7>(t, g, n),
        "W8" => w::<W8>(t, g, n),
        "W9" => w::<W9>(t, g, n),
        "W10" => w::<W10>(t, g, n),
        "W11" => w::<W11>(t, g, n),
        "W12" => w::<W12>(t, g, n),
        "W13" => w::<W13>(t, g, n),
        "W14" => w::<W14>(t, g, n),
        "W15" => w::<W15>(t, g, n),
        "W16" => w::<W16>(t, g, n),
        "W17" => w::<W17>(t, g, n),
        "W18" => w::<W18>(t, g, n),
        "W19" => w::<W19>(t, g, n),
        "W20" => w::<W20>(t, g, n),
        "W21" => w::<W21>(t, g, n),
        "W22" => w::<W22>(t, g, n),
        "W23" => w::<W23>(t, g, n),
        "W24" => w::<W24>(t, g, n),
        "W25" => w::<W25>(t, g, n),
        "W26" => w::<W26>(t, g, n),
        "W27" => w::<W27>(t, g, n),
        "W28" => w::<W28>(t, g, n),
        "W29" => w::<W29>(t, g, n),
        "W30" => w::<W30>(t, g, n),
        "W31" => w::<W31>(t, g, n),
        "W32" => w::<W32>(t, g, n),
        "W33" => w::<W33>(t, g, n),
        "W34" => w::<W34>(t, g, n),
        "W35" => w::<W35>(t, g, n),
        "W36" => w::<W36>(t, g, n),
        "W37" => w::<W37>(t, g, n),
        "W38" => w::<W38>(t, g, n),
        "W39" => w::<W39>(t, g, n),
        "W40" => w::<W40>(t, g, n),
        "W41" => w::<W41>(t, g, n),
        "W42" => w::<W42>(t, g, n),
        "W43" => w::<W43>(t, g, n),
        "W44" => w::<W44>(t, g, n),
        "W45" => w::<W45>(t, g, n),
        "W46" => w::<W46>(t, g, n),
        "W47" => w::<W47>(t, g, n),
        "W48" => w::<W48>(t, g, n),
        "W49" => w::<W49>(t, g, n),
        "W50" => w::<W50>(t, g, n),
        "W51" => w::<W51>(t, g, n),
        "W52" => w::<W52>(t, g, n),
        "W53" => w::<W53>(t, g, n),
        "W54" => w::<W54>(t, g, n),
        "W55" => w::<W55>(t, g, n),
        "W56" => w::<W56>(t, g, n),
        "W57" => w::<W57>(t, g, n),
        "W58" => w::<W58>(t, g, n),
        "W59" => w::<W59>(t, g, n),
        "W60" => w::<W60>(t, g, n),
        "W61" => w::<W61>(t, g, n),
        "W62" => w::<W62>(t, g, n),
        "W63" => w::<W63>(t, g, n),
        "W64" => w::<W64>(t, g, n),
        "W65" => w::<W65>(t, g, n),
        "W66" => w::<W66>(t, g, n),
        "W67" => w::<W67>(t, g, n),
        "W68" => w::<W68>(t, g, n),
        "W69" => w::<W69>(t, g, n),
        "W70" => w::<W70>(t, g, n),
        "W71" => w::<W71>(t, g, n),
        "W72" => w::<W72>(t, g, n),
        "W73" => w::<W73>(t, g, n),
        "W74" => w::<W74>(t, g, n),
        "W75" => w::<W75>(t, g, n),
        "W76" => w::<W76>(t, g, n),
        "W77" => w::<W77>(t, g, n),
        "W78" => w::<W78>(t, g, n),
        "W79" => w::<W79>(t, g, n),
        "W80" => w::<W80>(t, g, n),
        "W81" => w::<W81>(t, g, n),
        "W82" => w::<W82>(t, g, n),
        "W83" => w::<W83>(t, g, n),
        "W84" => w::<W84>(t, g, n),
        "W85" => w::<W85>(t, g, n),
        "W86" => w::<W86>(t, g, n),
        "W87" => w::<W87>(t, g, n),
        "W88" => w::<W88>(t, g, n),
        "W89" => w::<W89>(t, g, n),
        "W90" => w::<W90>(t, g, n),
        "W91" => w::<W91>(t, g, n),
        "W92" => w::<W92>(t, g, n),
        "W93" => w::<W93>(t, g, n),
        "W94" => w::<W94>(t, g, n),
        "W95" => w::<W95>(t, g, n),
        "W96" => w::<W96>(t, g, n),
        "W97" => w::<W97>(t, g, n),
        "W98" => w::<W98>(t, g, n),
        "W99" => w::<W99>(t, g, n),
        "W100" => w::<W100>(t, g, n),
        "W101" => w::<W101>(t, g, n),
        "W102" => w::<W102>(t, g, n),
        "W103" => w::<W103>(t, g, n),
        "W104" => w::<W104>(t, g, n),
        "W105" => w::<W105>(t, g, n),
        "W106" => w::<W106>(t, g, n),
        "W107" => w::<W107>(t, g, n),
        "W108" => w::<W108>(t, g, n),
        "W109" => w::<W109>(t, g, n),
        "W110" => w::<W110>(t, g, n),
        "W111" => w::<W111>(t, g, n),
        "W112" => w::<W112>(t, g, n),
        "W113" => w::<W113>(t, g, n),
        "W114" => w::<W114>(t, g, n),
        "W115" => w::<W115>(t, g, n),
        "W116" => w::<W116>(t, g, n),
        "W117" => w::<W117>(t, g, n),
        "W118" => w::<W118>(t, g, n),
        "W119" => w::<W119>(t, g, n),
        "W120" => w::<W120>(t, g, n),
        "W121" => w::<W121>(t, g, n),
        "W122" => w::<W122>(t, g, n),
        "W123" => w::<W123>(t, g, n),
        "W124" => w::<W124>(t, g, n),
        "W125" => w::<W125>(t, g, n),
        "W126" => w::<W126>(t, g, n),
        "W127" => w::<W127>(t, g, n),
        "W128" => w::<W128>(t, g, n),
        "W129" => w::<W129>(t, g, n),
        "W130" => w::<W130>(t, g, n),
        "W131" => w::<W131>(t, g, n),
        "W132" => w::<W132>(t, g, n),
        "W133" => w::<W133>(t, g, n),
        "W134" => w::<W134>(t, g, n),
        "W135" => w::<W135>(t, g, n),
        "W136" => w::<W136>(t, g, n),
        "W137" => w::<W137>(t, g, n),
        "W138" => w::<W138>(t, g, n),
        "W139" => w::<W139>(t, g, n),
        "W140" => w::<W140>(t, g, n),
        "W141" => w::<W141>(t, g, n),
        "W142" => w::<W142>(t, g, n),
        "W143" => w::<W143>(t, g, n),
        "W144" => w::<W144>(t, g, n),
        "W145" => w::<W145>(t, g, n),
        "W146" => w::<W146>(t, g, n),
        "W147" => w::<W147>(t, g, n),
        "W148" => w::<W148>(t, g, n),
        "W149" => w::<W149>(t, g, n),
        "W150" => w::<W150>(t, g, n),
        "W151" => w::<W151>(t, g, n),
        "W152" => w::<W152>(t, g, n),
        "W153" => w::<W153>(t, g, n),
        "W154" => w::<W154>(t, g, n),
        "W155" => w::<W155>(t, g, n),
        "W156" => w::<W156>(t, g, n),
        "W157" => w::<W157>(t, g, n),
        "W158" => w::<W158>(t, g, n),
        "W159" => w::<W159>(t, g, n),
        "W160" => w::<W160>(t, g, n),
        "W161" => w::<W161>(t, g, n),
        "W162" => w::<W162>(t, g, n),
        "W163" => w::<W163>(t, g, n),
        "W164" => w::<W164>(t, g, n),
        "W165" => w::<W165>(t, g, n),
        "W166" => w::<W166>(t, g, n),
        "W167" => w::<W167>(t, g, n),
        "W168" => w::<W168>(t, g, n),
        "W169" => w::<W169>(t, g, n),
        "W170" => w::<W170>(t, g, n),
        "W171" => w::<W171>(t, g, n),
        "W172" => w::<W172>(t, g, n),
        "W173" => w::<W173>(t, g, n),
        "W174" => w::<W174>(t, g, n),
        "W175" => w::<W175>(t, g, n),
        "W176" => w::<W176>(t, g, n),
        "W177" => w::<W177>(t, g, n),
        "W178" => w::<W178>(t, g, n),
        "W179" => w::<W179>(t, g, n),
        "W180" => w::<W180>(t, g, n),
        "W181" => w::<W181>(t, g, n),
        "W182" => w::<W182>(t, g, n),
        "W183" => w::<W183>(t, g, n),
        "W184" => w::<W184>(t, g, n),
        "W185" => w::<W185>(t, g, n),
        "W186" => w::<W186>(t, g, n),
        "W187" => w::<W187>(t, g, n),
        "W188" => w::<W188>(t, g, n),
        "W189" => w::<W189>(t, g, n),
        "W190" => w::<W190>(t, g, n),
        "W191" => w::<W191>(t, g, n),
        "W192" => w::<W192>(t, g, n),
        "W193" => w::<W193>(t, g, n),
        "W194" => w::<W194>(t, g, n),
        "W195" => w::<W195>(t, g, n),
        "W196" => w::<W196>(t, g, n),
        "W197" => w::<W197>(t, g, n),
        "W198" => w::<W198>(t, g, n),
        "W199" => w::<W199>(t, g, n),
        "W200" => w::<W200>(t, g, n),
        "W201" => w::<W201>(t, g, n),
        "W202" => w::<W202>(t, g, n),
        "W203" => w::<W203>(t, g, n),
        "W204" => w::<W204>(t, g, n),
        "W205" => w::<W205>(t, g, n),
        "W206" => w::<W206>(t, g, n),
        "W207" => w::<W207>(t, g, n),
        "W208" => w::<W208>(t, g, n),
        "W209" => w::<W209>(t, g, n),
        "W210" => w::<W210>(t, g, n),
        "W211" => w::<W211>(t, g, n),
        "W212" => w::<W212>(t, g, n),
        "W213" => w::<W213>(t, g, n),
        "W214" => w::<W214>(t, g, n),
        "W215" => w::<W215>(t, g, n),
        "W216" => w::<W216>(t, g, n),
        "W217" => w::<W217>(t, g, n),
        "W218" => w::<W218>(t, g, n),
        "W219" => w::<W219>(t, g, n),
        "W220" => w::<W220>(t, g, n),
        "W221" => w::<W221>(t, g, n),
        "W222" => w::<W222>(t, g, n),
        "W223" => w::<W223>(t, g, n),
        "W224" => w::<W224>(t, g, n),
        "W225" => w::<W225>(t, g, n),
        "W226" => w::<W226>(t, g, n),
        "W227" => w::<W227>(t, g, n),
        "W228" => w::<W228>(t, g, n),
        "W229" => w::<W229>(t, g, n),
        "W230" => w::<W230>(t, g, n),
        "W231" => w::<W231>(t, g, n),
        "W232" => w::<W232>(t, g, n),
        "W233" => w::<W233>(t, g, n),
        "W234" => w::<W234>(t, g, n),
        "W235" => w::<W235>(t, g, n),
        "W236" => w::<W236>(t, g, n),
        "W237" => w::<W237>(t, g, n),
        "W238" => w::<W238>(t, g, n),
        "W239" => w::<W239>(t, g, n),
        "W240" => w::<W240>(t, g, n),
        "W241" => w::<W241>(t, g, n),
        "W242" => w::<W242>(t, g, n),
        "W243" => w::<W243>(t, g, n),
        "W244" => w::<W244>(t, g, n),
        "W245" => w::<W245>(t, g, n),
        "W246" => w::<W246>(t, g, n),
        "W247" => w::<W247>(t, g, n),
        "W248" => w::<W248>(t, g, n),
        "W249" => w::<W249>(t, g, n),
        "W250" => w::<W250>(t, g, n),
        "W251" => w::<W251>(t, g, n),
        "W252" => w::<W252>(t, g, n),
        "W253" => w::<W253>(t, g, n),
        "W254" => w::<W254>(t, g, n),
        "W255" => w::<W255>(t, g, n),
        "W256" => w::<W256>(t, g, n),
        "W257" => w::<W257>(t, g, n),
        "W258" => w::<W258>(t, g, n),
        "W259" => w::<W259>(t, g, n),
        "W260" => w::<W260>(t, g, n),
        "W261" => w::<W261>(t, g, n),
        "W262" => w::<W262>(t, g, n),
        "W263" => w::<W263>(t, g, n),
        "W264" => w::<W264>(t, g, n),
        "W265" => w::<W265>(t, g, n),
        "W266" => w::<W266>(t, g, n),
        "W267" => w::<W267>(t, g, n),
        "W268" => w::<W268>(t, g, n),
        "W269" => w::<W269>(t, g, n),
        "W270" => w::<W270>(t, g, n),
        "W271" => w::<W271>(t, g, n),
        "W272" => w::<W272>(t, g, n),
        "W273" => w::<W273>(t, g, n),
        "W274" => w::<W274>(t, g, n),
        "W275" => w::<W275>(t, g, n),
        "W276" => w::<W276>(t, g, n),
        "W277" => w::<W277>(t, g, n),
        "W278" => w::<W278>(t, g, n),
        "W279" => w::<W279>(t, g, n),
        "W280" => w::<W280>(t, g, n),
        "W281" => w::<W281>(t, g, n),
        "W282" => w::<W282>(t, g, n),
        "W283" => w::<W283>(t, g, n),
        "W284" => w::<W284>(t, g, n),
        "W285" => w::<W285>(t, g, n),
        "W286" => w::<W286>(t, g, n),
        "W287" => w::<W287>(t, g, n),
        "W288" => w::<W288>(t, g, n),
        "W289" => w::<W289>(t, g, n),
        "W290" => w::<W290>(t, g, n),
        "W291" => w::<W291>(t, g, n),
        "W292" => w::<W292>(t, g, n),
        "W293" => w::<W293>(t, g, n),
        "W294" => w::<W294>(t, g, n),
        "W295" => w::<W295>(t, g, n),
        "W296" => w::<W296>(t, g, n),
        "W297" => w::<W297>(t, g, n),
        "W298" => w::<W298>(t, g, n),
        "W299" => w::<W299>(t, g, n),
        "W300" => w::<W300>(t, g, n),
        "W301" => w::<W301>(t, g, n),
        "W302" => w::<W302>(t, g, n),
        "W303" => w::<W303>(t, g, n),
        "W304" => w::<W304>(t, g, n),
        "W305" => w::<W305>(t, g, n),
        "W306" => w::<W306>(t, g, n),
        "W307" => w::<W307>(t, g, n),
        "W308" => w::<W308>(t, g, n),
        "W309" => w::<W309>(t, g, n),
        "W310" => w::<W310>(t, g, n),
        "W311" => w::<W311>(t, g, n),
        "W312" => w::<W312>(t, g, n),
        "W313" => w::<W313>(t, g, n),
        "W314" => w::<W314>(t, g, n),
        "W315" => w::<W315>(t, g, n),
        "W316" => w::<W316>(t, g, n),
        "W317" => w::<W317>(t, g, n),
        "W318" => w::<W318>(t, g, n),
        "W319" => w::<W319>(t, g, n),
        "W320" => w::<W320>(t, g, n),
        "W321" => w::<W321>(t, g, n),
        "W322" => w::<W322>(t, g, n),
        "W323" => w::<W323>(t, g, n),
        "W324" => w::<W324>(t, g, n),
        "X0" => w::<X0>(t, g, n),
        "X1" => w::<X1>(t, g, n),
        "X2" => w::<X2>(t, g, n),
        "X3" => w::<X3>(t, g, n),
        "X4" => w::<X4>(t, g, n),
        o => panic!("harness: unknown shape {o}"),
    }
}
pub fn read(t: &'static ReaderTree, shape: &str, max: u64) -> Result<Vec<Value>, String> {
    match shape {
        "W0" => r::<W0>(t, max),
        "W1" => r::<W1>(t, max),
        "W2" => r::<W2>(t, max),
        "W3" => r::<W3>(t, max),
        "W4" => r::<W4>(t, max),
        "W5" => r::<W5>(t, max),
        "W6" => r::<W6>(t, max),
        "W7" => r::<W7>(t, max),
        "W8" => r::<W8>(t, max),
        "W9" => r::<W9>(t, max),
        "W10" => r::<W10>(t, max),
        "W11" => r::<W11>(t, max),
        "W12" => r::<W12>(t, max),
        "W13" => r::<W13>(t, max),
        "W14" => r::<W14>(t, max),
        "W15" => r::<W15>(t, max),
        "W16" => r::<W16>(t, max),
        "W17" => r::<W17>(t, max),
        "W18" => r::<W18>(t, max),
        "W19" => r::<W19>(t, max),
        "W20" => r::<W20>(t, max),
        "W21" => r::<W21>(t, max),
        "W22" => r::<W22>(t, max),
        "W23" => r::<W23>(t, max),
        "W24" => r::<W24>(t, max),
        "W25" => r::<W25>(t, max),
        "W26" => r::<W26>(t, max),
        "W27" => r::<W27>(t, max),
        "W28" => r::<W28>(t, max),
        "W29" => r::<W29>(t, max),
        "W30" => r::<W30>(t, max),
        "W31" => r::<W31>(t, max),
        "W32" => r::<W32>(t, max),
        "W33" => r::<W33>(t, max),
        "W34" => r::<W34>(t, max),
        "W35" => r::<W35>(t, max),
        "W36" => r::<W36>(t, max),
        "W37" => r::<W37>(t, max),
        "W38" => r::<W38>(t, max),
        "W39" => r::<W39>(t, max),
        "W40" => r::<W40>(t, max),
        "W41" => r::<W41>(t, max),
        "W42" => r::<W42>(t, max),
        "W43" => r::<W43>(t, max),
        "W44" => r::<W44>(t, max),
        "W45" => r::<W45>(t, max),
        "W46" => r::<W46>(t, max),
        "W47" => r::<W47>(t, max),
        "W48" => r::<W48>(t, max),
        "W49" => r::<W49>(t, max),
        "W50" => r::<W50>(t, max),
        "W51" => r::<W51>(t, max),
        "W52" => r::<W52>(t, max),
        "W53" => r::<W53>(t, max),
        "W54" => r::<W54>(t, max),
        "W55" => r::<W55>(t, max),
        "W56" => r::<W56>(t, max),
        "W57" => r::<W57>(t, max),
        "W58" => r::<W58>(t, max),
        "W59" => r::<W59>(t, max),
        "W60" => r::<W60>(t, max),
        "W61" => r::<W61>(t, max),
        "W62" => r::<W62>(t, max),
        "W63" => r::<W63>(t, max),
        "W64" => r::<W64>(t, max),
        "W65" => r::<W65>(t, max),
        "W66" => r::<W66>(t, max),
        "W67" => r::<W67>(t, max),
        "W68" => r::<W68>(t, max),
        "W69" => r::<W69>(t, max),
        "W70" => r::<W70>(t, max),
        "W71" => r::<W71>(t, max),
        "W72" => r::<W72>(t, max),
        "W73" => r::<W73>(t, max),
        "W74" => r::<W74>(t, max),
        "W75" => r::<W75>(t, max),
        "W76" => r::<W76>(t, max),
        "W77" => r::<W77>(t, max),
        "W78" => r::<W78>(t, max),
        "W79" => r::<W79>(t, max),
        "W80" => r::<W80>(t, max),
        "W81" => r::<W81>(t, max),
        "W82" => r::<W82>(t, max),
        "W83" => r::<W83>(t, max),
        "W84" => r::<W84>(t, max),
        "W85" => r::<W85>(t, max),
        "W86" => r::<W86>(t, max),
        "W87" => r::<W87>(t, max),
        "W88" => r::<W88>(t, max),
        "W89" => r::<W89>(t, max),
        "W90" => r::<W90>(t, max),
        "W91" => r::<W91>(t, max),
        "W92" => r::<W92>(t, max),
        "W93" => r::<W93>(t, max),
        "W94" => r::<W94>(t, max),
        "W95" => r::<W95>(t, max),
        "W96" => r::<W96>(t, max),
        "W97" => r::<W97>(t, max),
        "W98" => r::<W98>(t, max),
        "W99" => r::<W99>(t, max),
        "W100" => r::<W100>(t, max),
        "W101" => r::<W101>(t, max),
        "W102" => r::<W102>(t, max),
        "W103" => r::<W103>(t, max),
        "W104" => r::<W104>(t, max),
        "W105" => r::<W105>(t, max),
        "W106" => r::<W106>(t, max),
        "W107" => r::<W107>(t, max),
        "W108" => r::<W108>(t, max),
        "W109" => r::<W109>(t, max),
        "W110" => r::<W110>(t, max),
        "W111" => r::<W111>(t, max),
        "W112" => r::<W112>(t, max),
        "W113" => r::<W113>(t, max),
        "W114" => r::<W114>(t, max),
        "W115" => r::<W115>(t, max),
        "W116" => r::<W116>(t, max),
        "W117" => r::<W117>(t, max),
        "W118" => r::<W118>(t, max),
        "W119" => r::<W119>(t, max),
        "W120" => r::<W120>(t, max),
        "W121" => r::<W121>(t, max),
        "W122" => r::<W122>(t, max),
        "W123" => r::<W123>(t, max),
        "W124" => r::<W124>(t, max),
        "W125" => r::<W125>(t, max),
        "W126" => r::<W126>(t, max),
        "W127" => r::<W127>(t, max),
        "W128" => r::<W128>(t, max),
        "W129" => r::<W129>(t, max),
        "W130" => r::<W130>(t, max),
        "W131" => r::<W131>(t, max),
        "W132" => r::<W132>(t, max),
        "W133" => r::<W133>(t, max),
        "W134" => r::<W134>(t, max),
        "W135" => r::<W135>(t, max),
        "W136" => r::<W136>(t, max),
        "W137" => r::<W137>(t, max),
        "W138" => r::<W138>(t, max),
        "W139" => r::<W139>(t, max),
        "W140" => r::<W140>(t, max),
        "W141" => r::<W141>(t, max),
        "W142" => r::<W142>(t, max),
        "W143" => r::<W143>(t, max),
        "W144" => r::<W144>(t, max),
        "W145" => r::<W145>(t, max),
        "W146" => r::<W146>(t, max),
        "W147" => r::<W147>(t, max),
        "W148" => r::<W148>(t, max),
        "W149" => r::<W149>(t, max),
        "W150" => r::<W150>(t, max),
        "W151" => r::<W151>(t, max),
        "W152" => r::<W152>(t, max),
        "W153" => r::<W153>(t, max),
        "W154" => r::<W154>(t, max),
        "W155" => r::<W155>(t, max),
        "W156" => r::<W156>(t, max),
        "W157" => r::<W157>(t, max),
        "W158" => r::<W158>(t, max),
        "W159" => r::<W159>(t, max),
        "W160" => r::<W160>(t, max),
        "W161" => r::<W161>(t, max),
        "W162" => r::<W162>(t, max),
        "W163" => r::<W163>(t, max),
        "W164" => r::<W164>(t, max),
        "W165" => r::<W165>(t, max),
        "W166" => r::<W166>(t, max),
        "W167" => r::<W167>(t, max),
        "W168" => r::<W168>(t, max),
        "W169" => r::<W169>(t, max),
        "W170" => r::<W170>(t, max),
        "W171" => r::<W171>(t, max),
        "W172" => r::<W172>(t, max),
        "W173" => r::<W173>(t, max),
        "W174" => r::<W174>(t, max),
        "W175" => r::<W175>(t, max),
        "W176" => r::<W176>(t, max),
        "W177" => r::<W177>(t, max),
        "W178" => r::<W178>(t, max),
        "W179" => r::<W179>(t, max),
        "W180" => r::<W180>(t, max),
        "W181" => r::<W181>(t, max),
        "W182" => r::<W182>(t, max),
        "W183" => r::<W183>(t, max),
        "W184" => r::<W184>(t, max),
        "W185" => r::<W185>(t, max),
        "W186" => r::<W186>(t, max),
        "W187" => r::<W187>(t, max),
        "W188" => r::<W188>(t, max),
        "W189" => r::<W189>(t, max),
        "W190" => r::<W190>(t, max),
        "W191" => r::<W191>(t, max),
        "W192" => r::<W192>(t, max),
        "W193" => r::<W193>(t, max),
        "W194" => r::<W194>(t, max),
        "W195" => r::<W195>(t, max),
        "W196" => r::<W196>(t, max),
        "W197" => r::<W197>(t, max),
        "W198" => r::<W198>(t, max),
        "W199" => r::<W199>(t, max),
        "W200" => r::<W200>(t, max),
        "W201" => r::<W201>(t, max),
        "W202" => r::<W202>(t, max),
        "W203" => r::<W203>(t, max),
        "W204" => r::<W204>(t, max),
        "W205" => r::<W205>(t, max),
        "W206" => r::<W206>(t, max),
        "W207" => r::<W207>(t, max),
        "W208" => r::<W208>(t, max),
        "W209" => r::<W209>(t, max),
        "W210" => r::<W210>(t, max),
        "W211" => r::<W211>(t, max),
        "W212" => r::<W212>(t, max),
        "W213" => r::<W213>(t, max),
        "W214" => r::<W214>(t, max),
        "W215" => r::<W215>(t, max),
        "W216" => r::<W216>(t, max),
        "W217" => r::<W217>(t, max),
        "W218" => r::<W218>(t, max),
        "W219" => r::<W219>(t, max),
        "W220" => r::<W220>(t, max),
        "W221" => r::<W221>(t, max),
        "W222" => r::<W222>(t, max),
        "W223" => r::<W223>(t, max),
        "W224" => r::<W224>(t, max),
        "W225" => r::<W225>(t, max),
        "W226" => r::<W226>(t, max),
        "W227" => r::<W227>(t, max),
        "W228" => r::<W228>(t, max),
        "W229" => r::<W229>(t, max),
        "W230" => r::<W230>(t, max),
        "W231" => r::<W231>(t, max),
        "W232" => r::<W232>(t, max),
        "W233" => r::<W233>(t, max),
        "W234" => r::<W234>(t, max),
        "W235" => r::<W235>(t, max),
        "W236" => r::<W236>(t, max),
        "W237" => r::<W237>(t, max),
        "W238" => r::<W238>(t, max),
        "W239" => r::<W239>(t, max),
        "W240" => r::<W240>(t, max),
        "W241" => r::<W241>(t, max),
        "W242" => r::<W242>(t, max),
        "W243" => r::<W243>(t, max),
        "W244" => r::<W244>(t, max),
        "W245" => r::<W245>(t, max),
        "W246" => r::<W246>(t, max),
        "W247" => r::<W247>(t, max),
        "W248" => r::<W248>(t, max),
        "W249" => r::<W249>(t, max),
        "W250" => r::<W250>(t, max),
        "W251" => r::<W251>(t, max),
        "W252" => r::<W252>(t, max),
        "W253" => r::<W253>(t, max),
        "W254" => r::<W254>(t, max),
        "W255" => r::<W255>(t, max),
        "W256" => r::<W256>(t, max),
        "W257" => r::<W257>(t, max),
        "W258" => r::<W258>(t, max),
        "W259" => r::<W259>(t, max),
        "W260" => r::<W260>(t, max),
        "W261" => r::<W261>(t, max),
        "W262" => r::<W262>(t, max),
        "W263" => r::<W263>(t, max),
        "W264" => r::<W264>(t, max),
        "W265" => r::<W265>(t, max),
        "W266" => r::<W266>(t, max),
        "W267" => r::<W267>(t, max),
        "W268" => r::<W268>(t, max),
        "W269" => r::<W269>(t, max),
        "W270" => r::<W270>(t, max),
        "W271" => r::<W271>(t, max),
        "W272" => r::<W272>(t, max),
        "W273" => r::<W273>(t, max),
        "W274" => r::<W274>(t, max),
        "W275" => r::<W275>(t, max),
        "W276" => r::<W276>(t, max),
        "W277" => r::<W277>(t, max),
        "W278" => r::<W278>(t, max),
        "W279" => r::<W279>(t, max),
        "W280" => r::<W280>(t, max),
        "W281" => r::<W281>(t, max),
        "W282" => r::<W282>(t, max),
        "W283" => r::<W283>(t, max),
        "W284" => r::<W284>(t, max),
        "W285" => r::<W285>(t, max),
        "W286" => r::<W286>(t, max),
        "W287" => r::<W287>(t, max),
        "W288" => r::<W288>(t, max),
        "W289" => r::<W289>(t, max),
        "W290" => r::<W290>(t, max),
        "W291" => r::<W291>(t, max),
        "W292" => r::<W292>(t, max),
        "W293" => r::<W293>(t, max),
        "W294" => r::<W294>(t, max),
        "W295" => r::<W295>(t, max),
        "W296" => r::<W296>(t, max),
        "W297" => r::<W297>(t, max),
        "W298" => r::<W298>(t, max),
        "W299" => r::<W299>(t, max),
        "W300" => r::<W300>(t, max),
        "W301" => r::<W301>(t, max),
        "W302" => r::<W302>(t, max),
        "W303" => r::<W303>(t, max),
        "W304" => r::<W304>(t, max),
        "W305" => r::<W305>(t, max),
        "W306" => r::<W306>(t, max),
        "W307" => r::<W307>(t, max),
        "W308" => r::<W308>(t, max),
        "W309" => r::<W309>(t, max),
        "W310" => r::<W310>(t, max),
        "W311" => r::<W311>(t, max),
        "W312" => r::<W312>(t, max),
        "W313" => r::<W313>(t, max),
        "W314" => r::<W314>(t, max),
        "W315" => r::<W315>(t, max),
        "W316" => r::<W316>(t, max),
        "W317" => r::<W317>(t, max),
        "W318" => r::<W318>(t, max),
        "W319" => r::<W319>(t, max),
        "W320" => r::<W320>(t, max),
        "W321" => r::<W321>(t, max),
        "W322" => r::<W322>(t, max),
        "W323" => r::<W323>(t, max),
        "W324" => r::<W324>(t, max),
        "X0" => r::<X0>(t, max),
        "X1" => r::<X1>(t, max),
        "X2" => r::<X2>(t, max),
        "X3" => r::<X3>(t, max),
        "X4" => r::<X4>(t, max),
        "N0" => r::<N0>(t, max),
        "N1" => r::<N1>(t, max),
        "N2" => r::<N2>(t, max),
        "N3" => r::<N3>(t, max),
        "N4" => r::<N4>(t, max),
        "N5" => r::<N5>(t, max),
        "N6" => r::<N6>(t, max),
        "N7" => r::<N7>(t, max),
        "N8" => r::<N8>(t, max),
        "N9" => r::<N9>(t, max),
        "N10" => r::<N10>(t, max),
        "N11" => r::<N11>(t, max),
        "N12" => r::<N12>(t, max),
        "N13" => r::<N13>(t, max),
        "N14" => r::<N14>(t, max),
        "N15" => r::<N15>(t, max),
        "N16" => r::<N16>(t, max),
        "N17" => r::<N17>(t, max),
        "N18" => r::<N18>(t, max),
        "N19" => r::<N19>(t, max),
        "N20" => r::<N20>(t, max),
        "N21" => r::<N21>(t, max),
        "N22" => r::<N22>(t, max),
        "N23" => r::<N23>(t, max),
        "N24" => r::<N24>(t, max),
        "N25" => r::<N25>(t, max),
        "N26" => r::<N26>(t, max),
        "N27" => r::<N27>(t, max),
        "N28" => r::<N28>(t, max),
        "N29" => r::<N29>(t, max),
        "N30" => r::<N30>(t, max),
        "N31" => r::<N31>(t, max),
        "N32" => r::<N32>(t, max),
        "N33" => r::<N33>(t, max),
        "N34" => r::<N34>(t, max),
        "N35" => r::<N35>(t, max),
        "N36" => r::<N36>(t, max),
        "N37" => r::<N37>(t, max),
        "N38" => r::<N38>(t, max),
        "N39" => r::<N39>(t, max),
        "N40" => r::<N40>(t, max),
        "N41" => r::<N41>(t, max),
        "N42" => r::<N42>(t, max),
        "N43" => r::<N43>(t, max),
        "N44" => r::<N44>(t, max),
        "N45" => r::<N45>(t, max),
        "N46" => r::<N46>(t, max),
        "N47" => r::<N47>(t, max),
        "N48" => r::<N48>(t, max),
        "N49" => r::<N49>(t, max),
        "N50" => r::<N50>(t, max),
        "N51" => r::<N51>(t, max),
        "N52" => r::<N52>(t, max),
        "N53" => r::<N53>(t, max),
        "N54" => r::<N54>(t, max),
        "N55" => r::<N55>(t, max),
        "N56" => r::<N56>(t, max),
        "N57" => r::<N57>(t, max),
        "N58" => r::<N58>(t, max),
        "N59" => r::<N59>(t, max),
        "N60" => r::<N60>(t, max),
        "N61" => r::<N61>(t, max),
        "N62" => r::<N62>(t, max),
        "N63" => r::<N63>(t, max),
        "N64" => r::<N64>(t, max),
        "N65" => r::<N65>(t, max),
        "N66" => r::<N66>(t, max),
        "N67" => r::<N67>(t, max),
        "N68" => r::<N68>(t, max),
        "N69" => r::<N69>(t, max),
        "N70" => r::<N70>(t, max),
        "N71" => r::<N71>(t, max),
        "N72" => r::<N72>(t, max),
        "N73" => r::<N73>(t, max),
        "N74" => r::<N74>(t, max),
        "N75" => r::<N75>(t, max),
        "N76" => r::<N76>(t, max),
        "N77" => r::<N77>(t, max),
        "N78" => r::<N78>(t, max),
        "N79" => r::<N79>(t, max),
        "N80" => r::<N80>(t, max),
        "N81" => r::<N81>(t, max),
        "N82" => r::<N82>(t, max),
        "N83" => r::<N83>(t, max),
        "N84" => r::<N84>(t, max),
        "N85" => r::<N85>(t, max),
        "N86" => r::<N86>(t, max),
        "N87" => r::<N87>(t, max),
        "N88" => r::<N88>(t, max),
        "N89" => r::<N89>(t, max),
        "N90" => r::<N90>(t, max),
        "N91" => r::<N91>(t, max),
        "N92" => r::<N92>(t, max),
        "N93" => r::<N93>(t, max),
        "N94" => r::<N94>(t, max),
        "N95" => r::<N95>(t, max),
        "N96" => r::<N96>(t, max),
        "N97" => r::<N97>(t, max),
        "N98" => r::<N98>(t, max),
        "N99" => r::<N99>(t, max),
        "N100" => r::<N100>(t, max),
        "N101" => r::<N101>(t, max),
        "N102" => r::<N102>(t, max),
        "N103" => r::<N103>(t, max),
        "N104" => r::<N104>(t, max),
        "N105" => r::<N105>(t, max),
        "N106" => r::<N106>(t, max),
        "N107" => r::<N107>(t, max),
        "N108" => r::<N108>(t, max),
        "N109" => r::<N109>(t, max),
        "N110" => r::<N110>(t, max),
        "N111" => r::<N111>(t, max),
        "N112" => r::<N112>(t, max),
        "N113" => r::<N113>(t, max),
        "N114" => r::<N114>(t, max),
        "N115" => r::<N115>(t, max),
        "N116" => r::<N116>(t, max),
        "N117" => r::<N117>(t, max),
        "N118" => r::<N118>(t, max),
        "N119" => r::<N119>(t, max),
        "N120" => r::<N120>(t, max),
        "N121" => r::<N121>(t, max),
        "N122" => r::<N122>(t, max),
        "N123" => r::<N123>(t, max),
        "N124" => r::<N124>(t, max),
        "N125" => r::<N125>(t, max),
        "N126" => r::<N126>(t, max),
        "N127" => r::<N127>(t, max),
        "N128" => r::<N128>(t, max),
        "N129" => r::<N129>(t, max),
        "N130" => r::<N130>(t, max),
        "N131" => r::<N131>(t, max),
        "N132" => r::<N132>(t, max),
        "N133" => r::<N133>(t, max),
        "N134" => r::<N134>(t, max),
        "N135" => r::<N135>(t, max),
        "N136" => r::<N136>(t, max),
        "N137" => r::<N137>(t, max),
        "N138" => r::<N138>(t, max),
        "N139" => r::<N139>(t, max),
        "N140" => r::<N140>(t, max),
        "N141" => r::<N141>(t, max),
        "N142" => r::<N142>(t, max),
        "N143" => r::<N143>(t, max),
        "N144" => r::<N144>(t, max),
        "N145" => r::<N145>(t, max),
        "N146" => r::<N146>(t, max),
        "N147" => r::<N147>(t, max),
        "N148" => r::<N148>(t, max),
        "N149" => r::<N149>(t, max),
        "N150" => r::<N150>(t, max),
        "N151" => r::<N151>(t, max),
        "N152" => r::<N152>(t, max),
        "N153" => r::<N153>(t, max),
        "N154" => r::<N154>(t, max),
        "N155" => r::<N155>(t, max),
        "N156" => r::<N156>(t, max),
        "N157" => r::<N157>(t, max),
        "N158" => r::<N158>(t, max),
        "N159" => r::<N159>(t, max),
        "N160" => r::<N160>(t, max),
        "N161" => r::<N161>(t, max),
        "N162" => r::<N162>(t, max),
        "N163" => r::<N163>(t, max),
        "N164" => r::<N164>(t, max),
        "N165" => r::<N165>(t, max),
        "N166" => r::<N166>(t, max),
        "N167" => r::<N167>(t, max),
        "N168" => r::<N168>(t, max),
        "N169" => r::<N169>(t, max),
        "N170" => r::<N170>(t, max),
        "N171" => r::<N171>(t, max),
        "N172" => r::<N172>(t, max),
        "N173" => r::<N173>(t, max),
        "N174" => r::<N174>(t, max),
        "N175" => r::<N175>(t, max),
        "N176" => r::<N176>(t, max),
        "N177" => r::<N177>(t, max),
        "N178" => r::<N178>(t, max),
        "N179" => r::<N179>(t, max),
        "N180" => r::<N180>(t, max),
        "N181" => r::<N181>(t, max),
        "N182" => r::<N182>(t, max),
        "N183" => r::<N183>(t, max),
        "N184" => r::<N184>(t, max),
        "N185" => r::<N185>(t, max),
        "N186" => r::<N186>(t, max),
        "N187" => r::<N187>(t, max),
        "N188" => r::<N188>(t, max),
        "N189" => r::<N189>(t, max),
        "N190" => r::<N190>(t, max),
        "N191" => r::<N191>(t, max),
        "N192" => r::<N192>(t, max),
        "N193" => r::<N193>(t, max),
        "N194" => r::<N194>(t, max),
        "N195" => r::<N195>(t, max),
        "N196" => r::<N196>(t, max),
        "N197" => r::<N197>(t, max),
        "N198" => r::<N198>(t, max),
        "N199" => r::<N199>(t, max),
        "N200" => r::<N200>(t, max),
        "N201" => r::<N201>(t, max),
        "N202" => r::<N202>(t, max),
        "N203" => r::<N203>(t, max),
        "N204" => r::<N204>(t, max),
        "N205" => r::<N205>(t, max),
        "N206" => r::<N206>(t, max),
        "N207" => r::<N207>(t, max),
        "N208" => r::<N208>(t, max),
        "N209" => r::<N209>(t, max),
        "N210" => r::<N210>(t, max),
        "N211" => r::<N211>(t, max),
        "N212" => r::<N212>(t, max),
        "N213" => r::<N213>(t, max),
        "N214" => r::<N214>(t, max),
        "N215" => r::<N215>(t, max),
        "N216" => r::<N216>(t, max),
        "N217" => r::<N217>(t, max),
        "N218" => r::<N218>(t, max),
        "N219" => r::<N219>(t, max),
        "N220" => r::<N220>(t, max),
        "N221" => r::<N221>(t, max),
        "N222" => r::<N222>(t, max),
        "N223" => r::<N223>(t, max),
        "N224" => r::<N224>(t, max),
        "N225" => r::<N225>(t, max),
        "N226" => r::<N226>(t, max),
        "N227" => r::<N227>(t, max),
        "N228" => r::<N228>(t, max),
        "N229" => r::<N229>(t, max),
        "N230" => r::<N230>(t, max),
        "N231" => r::<N231>(t, max),
        "N232" => r::<N232>(t, max),
        "N233" => r::<N233>(t, max),
        "N234" => r::<N234>(t, max),
        "N235" => r::<N235>(t, max),
        "N236" => r::<N236>(t, max),
        "N237" => r::<N237>(t, max),
        "N238" => r::<N238>(t, max),
        "N239" => r::<N239>(t, max),
        "N240" => r::<N240>(t, max),
        "N241" => r::<N241>(t, max),
        "N242" => r::<N242>(t, max),
        "N243" => r::<N243>(t, max),
        "N244" => r::<N244>(t, max),
        "N245" => r::<N245>(t, max),
        "N246" => r::<N246>(t, max),
        "N247" => r::<N247>(t, max),
        "N248" => r::<N248>(t, max),
        "N249" => r::<N249>(t, max),
        "N250" => r::<N250>(t, max),
        "N251" => r::<N251>(t, max),
        "N252" => r::<N252>(t, max),
        "N253" => r::<N253>(t, max),
        "N254" => r::<N254>(t, max),
        "N255" => r::<N255>(t, max),
        "N256" => r::<N256>(t, max),
        "N257" => r::<N257>(t, max),
        "N258" => r::<N258>(t, max),
        "N259" => r::<N259>(t, max),
        "N260" => r::<N260>(t, max),
        "N261" => r::<N261>(t, max),
        "N262" => r::<N262>(t, max),
        "N263" => r::<N263>(t, max),
        "N264" => r::<N264>(t, max),
        "N265" => r::<N265>(t, max),
        "N266" => r::<N266>(t, max),
        "N267" => r::<N267>(t, max),
        "N268" => r::<N268>(t, max),
        "N269" => r::<N269>(t, max),
        "N270" => r::<N270>(t, max),
        "N271" => r::<N271>(t, max),
        "N272" => r::<N272>(t, max),
        "N273" => r::<N273>(t, max),
        "N274" => r::<N274>(t, max),
        "N275" => r::<N275>(t, max),
        "N276" => r::<N276>(t, max),
        "N277" => r::<N277>(t, max),
        "N278" => r::<N278>(t, max),
        "N279" => r::<N279>(t, max),
        "N280" => r::<N280>(t, max),
        "N281" => r::<N281>(t, max),
        "N282" => r::<N282>(t, max),
        "N283" => r::<N283>(t, max),
        "N284" => r::<N284>(t, max),
        "N285" => r::<N285>(t, max),
        "N286" => r::<N286>(t, max),
        "N287" => r::<N287>(t, max),
        "N288" => r::<N288>(t, max),
        "N289" => r::<N289>(t, max),
        "N290" => r::<N290>(t, max),
        "N291" => r::<N291>(t, max),
        "N292" => r::<N292>(t, max),
        "N293" => r::<N293>(t, max),
        "N294" => r::<N294>(t, max),
        "N295" => r::<N295>(t, max),
        "N296" => r::<N296>(t, max),
        "N297" => r::<N297>(t, max),
        "N298" => r::<N298>(t, max),
        "N299" => r::<N299>(t, max),
        "N300" => r::<N300>(t, max),
        "N301" => r::<N301>(t, max),
        "N302" => r::<N302>(t, max),
        "N303" => r::<N303>(t, max),
        "N304" => r::<N304>(t, max),
        "N305" => r::<N305>(t, max),
        "N306" => r::<N306>(t, max),
        "N307" => r::<N307>(t, max),
        "N308" => r::<N308>(t, max),
        "N309" => r::<N309>(t, max),
        "N310" => r::<N310>(t, max),
        "N311" => r::<N311>(t, max),
        "N312" => r::<N312>(t, max),
        "N313" => r::<N313>(t, max),
        "N314" => r::<N314>(t, max),
        "N315" => r::<N315>(t, max),
        "N316" => r::<N316>(t, max),
        "N317" => r::<N317>(t, max),
        "N318" => r::<N318>(t, max),
        "N319" => r::<N319>(t, max),
        "N320" => r::<N320>(t, max),
        "N321" => r::<N321>(t, max),
        "N322" => r::<N322>(t, max),
        "N323" => r::<N323>(t, max),
        "N324" => r::<N324>(t, max),
        "N325" => r::<N325>(t, max),
        "N326" => r::<N326>(t, max),
        "N327" => r::<N327>(t, max),
        "N328" => r::<N328>(t, max),
        "N329" => r::<N329>(t, max),
        "N330" => r::<N330>(t, max),
        "N331" => r::<N331>(t, max),
        "N332" => r::<N332>(t, max),
        "N333" => r::<N333>(t, max),
        "N334" => r::<N334>(t, max),
        "N335" => r::<N335>(t, max),
        "N336" => r::<N336>(t, max),
        "N337" => r::<N337>(t, max),
        "N338" => r::<N338>(t, max),
        "N339" => r::<N339>(t, max),
        "N340" => r::<N340>(t, max),
        "N341" => r::<N341>(t, max),
        "N342" => r::<N342>(t, max),
        "N343" => r::<N343>(t, max),
        "N344" => r::<N344>(t, max),
        "N345" => r::<N345>(t, max),
        "N346" => r::<N346>(t, max),
        "N347" => r::<N347>(t, max),
        "N348" => r::<N348>(t, max),
        "N349" => r::<N349>(t, max),
        "N350" => r::<N350>(t, max),
        "N351" => r::<N351>(t, max),
        "N352" => r::<N352>(t, max),
        "N353" => r::<N353>(t, max),
        "N354" => r::<N354>(t, max),
        "N355" => r::<N355>(t, max),
        "N356" => r::<N356>(t, max),
        "N357" => r::<N357>(t, max),
        "N358" => r::<N358>(t, max),
        "N359" => r::<N359>(t, max),
        "N360" => r::<N360>(t, max),
        "N361" => r::<N361>(t, max),
        "N362" => r::<N362>(t, max),
        "N363" => r::<N363>(t, max),
        "N364" => r::<N364>(t, max),
        "N365" => r::<N365>(t, max),
        "N366" => r::<N366>(t, max),
        "N367" => r::<N367>(t, max),
        "N368" => r::<N368>(t, max),
        "N369" => r::<N369>(t, max),
        "N370" => r::<N370>(t, max),
        "N371" => r::<N371>(t, max),
        "N372" => r::<N372>(t, max),
        "N373" => r::<N373>(t, max),
        "N374" => r::<N374>(t, max),
        "N375" => r::<N375>(t, max),
        "N376" => r::<N376>(t, max),
        "N377" => r::<N377>(t, max),
        "N378" => r::<N378>(t, max),
        "N379" => r::<N379>(t, max),
        "N380" => r::<N380>(t, max),
        "N381" => r::<N381>(t, max),
        "N382" => r::<N382>(t, max),
        "N383" => r::<N383>(t, max),
        "N384" => r::<N384>(t, max),
        "N385" => r::<N385>(t, max),
        "N386" => r::<N386>(t, max),
        "N387" => r::<N387>(t, max),
        "N388" => r::<N388>(t, max),
        "N389" => r::<N389>(t, max),
        "N390" => r::<N390>(t, max),
        "N391" => r::<N391>(t, max),
        "N392" => r::<N392>(t, max),
        "N393" => r::<N393>(t, max),
        "N394" => r::<N394>(t, max),
        "N395" => r::<N395>(t, max),
        "N396" => r::<N396>(t, max),
        "N397" => r::<N397>(t, max),
        "N398" => r::<N398>(t, max),
        "N399" => r::<N399>(t, max),
        "N400" => r::<N400>(t, max),
        "N401" => r::<N401>(t, max),
        "N402" => r::<N402>(t, max),
        "N403" => r::<N403>(t, max),
        "N404" => r::<N404>(t, max),
        "N405" => r::<N405>(t, max),
        "N406" => r::<N406>(t, max),
        "N407" => r::<N407>(t, max),
        "N408" => r::<N408>(t, max),
        "N409" => r::<N409>(t, max),
        "N410" => r::<N410>(t, max),
        "N411" => r::<N411>(t, max),
        "N412" => r::<N412>(t, max),
        "N413" => r::<N413>(t, max),
        "N414" => r::<N414>(t, max),
        "N415" => r::<N415>(t, max),
        "N416" => r::<N416>(t, max),
        "N417" => r::<N417>(t, max),
        "N418" => r::<N418>(t, max),
        "N419" => r::<N419>(t, max),
        "N420" => r::<N420>(t, max),
        "N421" => r::<N421>(t, max),
        "N422" => r::<N422>(t, max),
        "N423" => r::<N423>(t, max),
        "N424" => r::<N424>(t, max),
        "N425" => r::<N425>(t, max),
        "N426" => r::<N426>(t, max),
        "N427" => r::<N427>(t, max),
        "N428" => r::<N428>(t, max),
        "N429" => r::<N429>(t, max),
        "N430" => r::<N430>(t, max),
        "N431" => r::<N431>(t, max),
        "N432" => r::<N432>(t, max),
        "N433" => r::<N433>(t, max),
        "N434" => r::<N434>(t, max),
        "N435" => r::<N435>(t, max),
        "N436" => r::<N436>(t, max),
        "N437" => r::<N437>(t, max),
        "N438" => r::<N438>(t, max),
        "N439" => r::<N439>(t, max),
        "N440" => r::<N440>(t, max),
        "N441" => r::<N441>(t, max),
        "N442" => r::<N442>(t, max),
        "N443" => r::<N443>(t, max),
        "N444" => r::<N444>(t, max),
        "N445" => r::<N445>(t, max),
        "N446" => r::<N446>(t, max),
        "N447" => r::<N447>(t, max),
        "N448" => r::<N448>(t, max),
        "N449" => r::<N449>(t, max),
        "N450" => r::<N450>(t, max),
        "N451" => r::<N451>(t, max),
        "N452" => r::<N452>(t, max),
        "N453" => r::<N453>(t, max),
        "N454" => r::<N454>(t, max),
        "N455" => r::<N455>(t, max),
        "N456" => r::<N456>(t, max),
        "N457" => r::<N457>(t, max),
        "N458" => r::<N458>(t, max),
        "N459" => r::<N459>(t, max),
        "N460" => r::<N460>(t, max),
        "N461" => r::<N461>(t, max),
        "N462" => r::<N462>(t, max),
        "N463" => r::<N463>(t, max),
        "V0" => r::<V0>(t, max),
        "V1" => r::<V1>(t, max),
        "V2" => r::<V2>(t, max),
        "V3" => r::<V3>(t, max),
        "V4" => r::<V4>(t, max),
        "V5" => r::<V5>(t, max),
        "V6" => r::<V6>(t, max),
        "V7" => r::<V7>(t, max),
        "V8" => r::<V8>(t, max),
        "V9" => r::<V9>(t, max),
        "V10" => r::<V10>(t, max),
        "V11" => r::<V11>(t, max),
        "V12" => r::<V12>(t, max),
        "V13" => r::<V13>(t, max),
        "V14" => r::<V14>(t, max),
        "V15" => r::<V15>(t, max),
        "V16" => r::<V16>(t, max),
        "V17" => r::<V17>(t, max),
        "V18" => r::<V18>(t, max),
        "V19" => r::<V19>(t, max),
        "V20" => r::<V20>(t, max),
        "V21" => r::<V21>(t, max),
        "V22" => r::<V22>(t, max),
        "V23" => r::<V23>(t, max),
        "V24" => r::<V24>(t, max),
        "V25" => r::<V25>(t, max),
        "V26" => r::<V26>(t, max),
        "V27" => r::<V27>(t, max),
        "V28" => r::<V28>(t, max),
        "V29" => r::<V29>(t, max),
        "V30" => r::<V30>(t, max),
        "V31" => r::<V31>(t, max),
        "V32" => r::<V32>(t, max),
        "V33" => r::<V33>(t, max),
        "V34" => r::<V34>(t, max),
        "V35" => r::<V35>(t, max),
        "V36" => r::<V36>(t, max),
        "V37" => r::<V37>(t, max),
        "V38" => r::<V38>(t, max),
        "V39" => r::<V39>(t, max),
        "V40" => r::<V40>(t, max),
        "V41" => r::<V41>(t, max),
        "V42" => r::<V42>(t, max),
        "V43" => r::<V43>(t, max),
        "V44" => r::<V44>(t, max),
        "V45" => r::<V45>(t, max),
        "V46" => r::<V46>(t, max),
        "V47" => r::<V47>(t, max),
        "V48" => r::<V48>(t, max),
        "V49" => r::<V49>(t, max),
        "V50" => r::<V50>(t, max),
        "V51" => r::<V51>(t, max),
        "V52" => r::<V52>(t, max),
        "V53" => r::<V53>(t, max),
        "V54" => r::<V54>(t, max),
        "V55" => r::<V55>(t, max),
        "V56" => r::<V56>(t, max),
        "V57" => r::<V57>(t, max),
        "V58" => r::<V58>(t, max),
        "V59" => r::<V59>(t, max),
        "V60" => r::<V60>(t, max),
        "V61" => r::<V61>(t, max),
        "V62" => r::<V62>(t, max),
        "V63" => r::<V63>(t, max),
        "V64" => r::<V64>(t, max),
        "V65" => r::<V65>(t, max),
        "V66" => r::<V66>(t, max),
        "V67" => r::<V67>(t, max),
        "V68" => r::<V68>(t, max),
        "V69" => r::<V69>(t, max),
        "V70" => r::<V70>(t, max),
        "V71" => r::<V71>(t, max),
        "V72" => r::<V72>(t, max),
        "V73" => r::<V73>(t, max),
        "V74" => r::<V74>(t, max),
        "V75" => r::<V75>(t, max),
        "V76" => r::<V76>(t, max),
        "V77" => r::<V77>(t, max),
        "V78" => r::<V78>(t, max),
        "V79" => r::<V79>(t, max),
        "V80" => r::<V80>(t, max),
        "V81" => r::<V81>(t, max),
        "V82" => r::<V82>(t, max),
        "V83" => r::<V83>(t, max),
        "V84" => r::<V84>(t, max),
        "V85" => r::<V85>(t, max),
        "V86" => r::<V86>(t, max),
        "V87" => r::<V87>(t, max),
        "V88" => r::<V88>(t, max),
        "V89" => r::<V89>(t, max),
        "V90" => r::<V90>(t, max),
        "V91" => r::<V91>(t, max),
        "V92" => r::<V92>(t, max),
        "V93" => r::<V93>(t, max),
        "V94" => r::<V94>(t, max),
        "V95" => r::<V95>(t, max),
        "V96" => r::<V96>(t, max),
        "V97" => r::<V97>(t, max),
        "V98" => r::<V98>(t, max),
        "V99" => r::<V99>(t, max),
        "V100" => r::<V100>(t, max),
        "V101" => r::<V101>(t, max),
        "V102" => r::<V102>(t, max),
        "V103" => r::<V103>(t, max),
        "V104" => r::<V104>(t, max),
        "V105" => r::<V105>(t, max),
        "V106" => r::<V106>(t, max),
        "V107" => r::<V107>(t, max),
        "V108" => r::<V108>(t, max),
        "V109" => r::<V109>(t, max),
        "V110" => r::<V110>(t, max),
        "V111" => r::<V111>(t, max),
        "V112" => r::<V112>(t, max),
        "V113" => r::<V113>(t, max),
        "V114" => r::<V114>(t, max),
        "V115" => r::<V115>(t, max),
        "V116" => r::<V116>(t, max),
        "V117" => r::<V117>(t, max),
        "V118" => r::<V118>(t, max),
        "V119" => r::<V119>(t, max),
        "V120" => r::<V120>(t, max),
        "V121" => r::<V121>(t, max),
        "V122" => r::<V122>(t, max),
        "V123" => r::<V123>(t, max),
        "V124" => r::<V124>(t, max),
        "V125" => r::<V125>(t, max),
        "V126" => r::<V126>(t, max),
        "V127" => r::<V127>(t, max),
        "V128" => r::<V128>(t, max),
        "V129" => r::<V129>(t, max),
        "V130" => r::<V130>(t, max),
        "V131" => r::<V131>(t, max),
        "V132" => r::<V132>(t, max),
        "V133" => r::<V133>(t, max),
        "V134" => r::<V134>(t, max),
        "V135" => r::<V135>(t, max),
        "V136" => r::<V136>(t, max),
        "V137" => r::<V137>(t, max),
        "V138" => r::<V138>(t, max),
        "V139" => r::<V139>(t, max),
        "V140" => r::<V140>(t, max),
        "V141" => r::<V141>(t, max),
        "V142" => r::<V142>(t, max),
        "V143" => r::<V143>(t, max),
        "V144" => r::<V144>(t, max),
        "V145" => r::<V145>(t, max),
        "V146" => r::<V146>(t, max),
        "V147" => r::<V147>(t, max),
        "V148" => r::<V148>(t, max),
        "V149" => r::<V149>(t, max),
        "V150" => r::<V150>(t, max),
        "V151" => r::<V151>(t, max),
        "V152" => r::<V152>(t, max),
        "V153" => r::<V153>(t, max),
        "V154" => r::<V154>(t, max),
        "V155" => r::<V155>(t, max),
        "V156" => r::<V156>(t, max),
        "V157" => r::<V157>(t, max),
        "V158" => r::<V158>(t, max),
        "V159" => r::<V159>(t, max),
        "V160" => r::<V160>(t, max),
        "V161" => r::<V161>(t, max),
        "V162" => r::<V162>(t, max),
        "V163" => r::<V163>(t, max),
        "V164" => r::<V164>(t, max),
        "V165" => r::<V165>(t, max),
        "V166" => r::<V166>(t, max),
        "V167" => r::<V167>(t, max),
        "V168" => r::<V168>(t, max),
        "V169" => r::<V169>(t, max),
        "V170" => r::<V170>(t, max),
        "V171" => r::<V171>(t, max),
        "V172" => r::<V172>(t, max),
        "V173" => r::<V173>(t, max),
        "V174" => r::<V174>(t, max),
        "V175" => r::<V175>(t, max),
        "V176" => r::<V176>(t, max),
        "V177" => r::<V177>(t, max),
        "V178" => r::<V178>(t, max),
        "V179" => r::<V179>(t, max),
        "V180" => r::<V180>(t, max),
        "V181" => r::<V181>(t, max),
        "V182" => r::<V182>(t, max),
        "V183" => r::<V183>(t, max),
        "V184" => r::<V184>(t, max),
        "V185" => r::<V185>(t, max),
        "V186" => r::<V186>(t, max),
        "V187" => r::<V187>(t, max),
        "V188" => r::<V188>(t, max),
        "V189" => r::<V189>(t, max),
        "V190" => r::<V190>(t, max),
        "V191" => r::<V191>(t, max),
        "V192" => r::<V192>(t, max),
        "V193" => r::<V193>(t, max),
        "V194" => r::<V194>(t, max),
        "V195" => r::<V195>(t, max),
        "V196" => r::<V196>(t, max),
        "V197" => r::<V197>(t, max),
        "V198" => r::<V198>(t, max),
        "V199" => r::<V199>(t, max),
        "V200" => r::<V200>(t, max),
        "V201" => r::<V201>(t, max),
        "V202" => r::<V202>(t, max),
        "V203" => r::<V203>(t, max),
        "V204" => r::<V204>(t, max),
        "V205" => r::<V205>(t, max),
        "V206" => r::<V206>(t, max),
        "V207" => r::<V207>(t, max),
        "V208" => r::<V208>(t, max),
        "V209" => r::<V209>(t, max),
        "V210" => r::<V210>(t, max),
        "V211" => r::<V211>(t, max),
        "V212" => r::<V212>(t, max),
        "V213" => r::<V213>(t, max),
        "V214" => r::<V214>(t, max),
        "V215" => r::<V215>(t, max),
        "V216" => r::<V216>(t, max),
        "V217" => r::<V217>(t, max),
        "V218" => r::<V218>(t, max),
        "V219" => r::<V219>(t, max),
        "V220" => r::<V220>(t, max),
        "V221" => r::<V221>(t, max),
        "V222" => r::<V222>(t, max),
        "V223" => r::<V223>(t, max),
        "V224" => r::<V224>(t, max),
        "V225" => r::<V225>(t, max),
        "V226" => r::<V226>(t, max),
        "V227" => r::<V227>(t, max),
        "V228" => r::<V228>(t, max),
        "V229" => r::<V229>(t, max),
        "V230" => r::<V230>(t, max),
        "V231" => r::<V231>(t, max),
        "V232" => r::<V232>(t, max),
        "V233" => r::<V233>(t, max),
        "V234" => r::<V234>(t, max),
        "V235" => r::<V235>(t, max),
        "V236" => r::<V236>(t, max),
        "V237" => r::<V237>(t, max),
        "V238" => r::<V238>(t, max),
        "V239" => r::<V239>(t, max),
        "V240" => r::<V240>(t, max),
        "V241" => r::<V241>(t, max),
        "V242" => r::<V242>(t, max),
        "V243" => r::<V243>(t, max),
        "V244" => r::<V244>(t, max),
        "V245" => r::<V245>(t, max),
        "V246" => r::<V246>(t, max),
        "V247" => r::<V247>(t, max),
        "V248" => r::<V248>(t, max),
        "V249" => r::<V249>(t, max),
        "V250" => r::<V250>(t, max),
        "V251" => r::<V251>(t, max),
        "V252" => r::<V252>(t, max),
        "V253" => r::<V253>(t, max),
        "V254" => r::<V254>(t, max),
        "V255" => r::<V255>(t, max),
        "S0" => r::<S0>(t, max),
        "S1" => r::<S1>(t, max),
        "S2" => r::<S2>(t, max),
        "S3" => r::<S3>(t, max),
        "S4" => r::<S4>(t, max),
        "S5" => r::<S5>(t, max),
        "S6" => r::<S6>(t, max),
        "S7" => r::<S7>(t, max),
        o => panic!("harness: unknown shape {o}"),
    }
}
