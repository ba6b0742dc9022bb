//! Byte-cursor and branch-name operations: interpreters for operation sequences.
use crate::{emit, s, u};
use oxyroot::{BranchName, RBuffer, SizedSlice, Slice};
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn unhex(h: &str) -> Vec<u8> {
    (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).expect("harness: hex")).collect()
}
fn by(b: &[u8]) -> Value {
    json!(b)
}
fn bys<const N: usize>(it: impl Iterator<Item = [u8; N]>) -> Value {
    Value::Array(it.map(|b| by(&b)).collect())
}

/// Every value is given as its big-endian bytes.
pub fn run(o: &Value) {
    let data = unhex(s(o, "hex"));
    let off = u(o, "offset", 0);
    emit(json!({"ev":"CurNew","buf":data,"off":off}));
    let mut r = RBuffer::new(&data, off as u32);
    macro_rules! num {
        ($f:ident) => {
            r.$f().ok().map(|x| by(&x.to_be_bytes()))
        };
    }
    macro_rules! objs {
        ($t:ty) => {
            r.read_object_into::<$t>().ok().map(|v| bys(v.iter().map(|x| x.to_be_bytes())))
        };
    }
    for st in o["steps"].as_array().expect("harness: steps") {
        let k = st[0].as_str().unwrap();
        let a = st[1].as_i64().unwrap_or(0);
        let n = a.max(0) as usize;
        let none = || Some(json!([]));
        let res = catch_unwind(AssertUnwindSafe(|| -> Option<Value> {
            match k {
                "u8" => num!(read_u8),
                "i8" => num!(read_i8),
                "u16" => num!(read_u16),
                "i16" => num!(read_i16),
                "u32" => num!(read_u32),
                "i32" => num!(read_i32),
                "u64" => num!(read_u64),
                "i64" => num!(read_i64),
                "f32" => num!(read_f32),
                "f64" => num!(read_f64),
                "bool" => r.read_bool().ok().map(|x| by(&[x as u8])),
                "str" => r.read_string().ok().map(|x| by(x.as_bytes())),
                "cstr" => r.read_cstring(n).ok().map(|x| by(x.as_bytes())),
                "bytes" => r.read_array_u8(n).ok().map(by),
                "bytes_into" => {
                    let mut v = vec![0; n];
                    r.read_array_u8_into(&mut v).ok().map(|_| by(&v))
                }
                "i16s" => {
                    let mut v = vec![0; n];
                    r.read_array_i16_into(&mut v).ok().map(|_| bys(v.iter().map(|x| x.to_be_bytes())))
                }
                "i32s" => {
                    let mut v = vec![0; n];
                    r.read_array_i32(&mut v).ok().map(|_| bys(v.iter().map(|x| x.to_be_bytes())))
                }
                "i64s" => {
                    let mut v = vec![0; n];
                    r.read_array_i64(&mut v).ok().map(|_| bys(v.iter().map(|x| x.to_be_bytes())))
                }
                "skip" => r.skip(a).ok().and_then(|_| none()),
                "rewind" => r.rewind(a).ok().and_then(|_| none()),
                "set" => {
                    r.set_pos(a);
                    none()
                }
                "hdr" => {
                    r.set_skip_header(if a < 0 { None } else { Some(a as i32) });
                    none()
                }
                "dohdr" => r.do_skip_header().ok().and_then(|_| none()),
                "vec_u8" => objs!(Vec<u8>),
                "vec_i16" => objs!(Vec<i16>),
                "vecvec_u8" => r
                    .read_object_into::<Vec<Vec<u8>>>()
                    .ok()
                    .map(|v| Value::Array(v.iter().map(|w| bys(w.iter().map(|x| [*x]))).collect())),
                "slice_u8" => r.read_object_into::<Slice<u8>>().ok().map(|v| bys(v.inner().iter().map(|x| x.to_be_bytes()))),
                "slice_i16" => r.read_object_into::<Slice<i16>>().ok().map(|v| bys(v.inner().iter().map(|x| x.to_be_bytes()))),
                "arr3_u8" => objs!([u8; 3]),
                "arr2_i16" => objs!([i16; 2]),
                "sized_i16" => {
                    use oxyroot::Unmarshaler;
                    let mut v = SizedSlice::<i16>::new(n);
                    v.unmarshal(&mut r).ok().map(|_| bys(v.inner().iter().map(|x| x.to_be_bytes())))
                }
                other => panic!("harness: unknown cursor step {other}"),
            }
        }));
        match res {
            Ok(Some(v)) => emit(json!({"ev":"CurStep","k":k,"a":a,"st":"ok","v":v,"pos":r.pos(),"len":r.len(),"empty":r.is_empty()})),
            Ok(None) => {
                emit(json!({"ev":"CurStep","k":k,"a":a,"st":"fail"}));
                break;
            }
            Err(e) => {
                let m = crate::msg(e);
                if m.starts_with("harness") {
                    panic!("{m}");
                }
                emit(json!({"ev":"CurStep","k":k,"a":a,"st":"fail"}));
                break;
            }
        }
    }
}

pub fn bname(o: &Value) {
    let mut b = BranchName::new();
    let mut out = Vec::new();
    for st in o["steps"].as_array().expect("harness: steps") {
        let a = st[1].as_str().unwrap_or("");
        b = match st[0].as_str().unwrap() {
            "prefix" => b.with_prefix(a),
            "name" => b.with_name(a),
            "child" => b.make_child(a),
            "abs" => b.make_absolute(a),
            "default" => BranchName::default(),
            other => panic!("harness: unknown name step {other}"),
        };
        out.push(b.final_name());
    }
    emit(json!({"ev":"BName","steps":o["steps"],"out":out}));
}
