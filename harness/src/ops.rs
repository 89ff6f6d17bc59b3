//! Edit histories: every public editing entry point, reached through every
//! accessor family (`via`): by id, by chained `get_mut`, by `get_into_mut`.

use bstr::ByteSlice;
use nondestructive::yaml::{
    Any, AnyMut, Block, Chomp, Document, Id, MappingMut, Null, Separator, SequenceMut, StringKind, Value, ValueMut,
};
use serde_json::{json, Value as J};

use crate::{dec, guard, observe, serdes, views};

fn text(j: &J) -> String {
    String::from_utf8(dec(j.as_str().expect("harness: text"))).expect("harness: utf-8 text")
}

fn path(op: &J) -> Vec<usize> {
    op["p"].as_array().map(|a| a.iter().map(|v| v.as_u64().unwrap() as usize).collect()).unwrap_or_default()
}

fn child(v: &Value<'_>, i: usize) -> Option<(Option<Vec<u8>>, Id)> {
    match v.as_any() {
        Any::Mapping(m) => {
            let mut it = m.iter();
            for _ in 0..i {
                it.next()?;
            }
            it.next().map(|(k, v)| (Some(k.to_vec()), v.id()))
        }
        Any::Sequence(s) => {
            let mut it = s.iter();
            for _ in 0..i {
                it.next()?;
            }
            it.next().map(|v| (None, v.id()))
        }
        _ => None,
    }
}

pub fn find(doc: &Document, path: &[usize]) -> Option<Id> {
    let mut id = doc.as_ref().id();
    for &i in path {
        id = child(&doc.value(id), i)?.1;
    }
    Some(id)
}

/// The keys leading to `path`, if it can be reached by first-match lookups.
fn keys(doc: &Document, path: &[usize]) -> Option<Vec<Option<String>>> {
    let mut id = doc.as_ref().id();
    let mut out = vec![];
    for &i in path {
        let v = doc.value(id);
        let (k, next) = child(&v, i)?;
        out.push(match k {
            Some(k) => {
                let m = v.as_mapping().unwrap();
                if m.iter().position(|(o, _)| o.as_bytes() == k.as_slice()) != Some(i) {
                    return None;
                }
                Some(String::from_utf8(k).ok()?)
            }
            None => None,
        });
        id = next;
    }
    Some(out)
}

fn walk(mut v: ValueMut<'_>, steps: &[(usize, Option<String>)], into: bool, f: &mut dyn FnMut(ValueMut<'_>) -> J) -> J {
    let Some(((i, key), rest)) = steps.split_first() else {
        return f(v);
    };
    match (key, into) {
        (Some(k), false) => {
            let mut m = v.as_mapping_mut().expect("as_mapping_mut");
            let c = m.get_mut(k).expect("get_mut");
            walk(c, rest, into, f)
        }
        (Some(k), true) => {
            let c = v.into_mapping_mut().expect("into_mapping_mut").get_into_mut(k).expect("get_into_mut");
            walk(c, rest, into, f)
        }
        (None, false) => {
            let mut m = v.as_sequence_mut().expect("as_sequence_mut");
            let c = m.get_mut(*i).expect("get_mut");
            walk(c, rest, into, f)
        }
        (None, true) => {
            let c = v.into_sequence_mut().expect("into_sequence_mut").get_into_mut(*i).expect("get_into_mut");
            walk(c, rest, into, f)
        }
    }
}

fn at(doc: &mut Document, path: &[usize], via: &str, f: &mut dyn FnMut(ValueMut<'_>) -> J) -> J {
    let Some(id) = find(doc, path) else {
        return json!({"res": "nopath"});
    };
    if via == "mut" || via == "into" {
        if let Some(keys) = keys(doc, path) {
            let steps: Vec<_> = path.iter().copied().zip(keys).collect();
            return walk(doc.as_mut(), &steps, via == "into", f);
        }
    }
    f(doc.value_mut(id))
}

fn block(op: &J) -> (Vec<String>, Block) {
    let lines = op["ls"].as_array().expect("harness: ls").iter().map(text).collect();
    let chomp = match op["ch"].as_str() {
        Some("-") => Chomp::Strip,
        Some("+") => Chomp::Keep,
        _ => Chomp::Clip,
    };
    let b = match op["v"].as_str() {
        Some(">") => Block::Folded(chomp),
        _ => Block::Literal(chomp),
    };
    (lines, b)
}

macro_rules! numbers {
    ($m:ident) => {
        $m!(u8, set_u8, insert_u8, push_u8);
        $m!(i8, set_i8, insert_i8, push_i8);
        $m!(u16, set_u16, insert_u16, push_u16);
        $m!(i16, set_i16, insert_i16, push_i16);
        $m!(u32, set_u32, insert_u32, push_u32);
        $m!(i32, set_i32, insert_i32, push_i32);
        $m!(u64, set_u64, insert_u64, push_u64);
        $m!(i64, set_i64, insert_i64, push_i64);
        $m!(u128, set_u128, insert_u128, push_u128);
        $m!(i128, set_i128, insert_i128, push_i128);
        $m!(f32, set_f32, insert_f32, push_f32);
        $m!(f64, set_f64, insert_f64, push_f64);
    };
}

/// The bits of the float an operation stores, or the integer as given.
fn stored(op: &J) -> String {
    if op["t"] == "slot" {
        return stored(&op["then"]);
    }
    let v = op["v"].as_str().unwrap_or("");
    match op["t"].as_str() {
        Some("f32") => v.parse().map(views::f32s).unwrap_or_default(),
        Some("f64") => v.parse().map(views::f64s).unwrap_or_default(),
        _ => String::new(),
    }
}

fn set(v: &mut ValueMut<'_>, op: &J) {
    let t = op["t"].as_str().unwrap();
    match t {
        "null" => v.set_null(match op["v"].as_str().unwrap() {
            "kw" => Null::Keyword,
            "tilde" => Null::Tilde,
            _ => Null::Empty,
        }),
        "str" => v.set_string(text(&op["v"])),
        "bare" => v.set_string_with(text(&op["v"]), StringKind::Bare),
        "single" => v.set_string_with(text(&op["v"]), StringKind::Single),
        "double" => v.set_string_with(text(&op["v"]), StringKind::Double),
        "bool" => v.set_bool(op["v"] == "true"),
        "block" => {
            let (lines, b) = block(op);
            v.set_block(lines, b);
        }
        _ => {
            macro_rules! m {
                ($ty:ident, $set:ident, $ins:ident, $push:ident) => {
                    if t == stringify!($ty) {
                        return v.$set(op["v"].as_str().unwrap().parse().expect("harness: number"));
                    }
                };
            }
            numbers!(m);
            panic!("harness: set {t}");
        }
    }
}

/// What a caller goes on to do with a freshly made slot.
fn fill(mut v: ValueMut<'_>, then: &J) -> String {
    let id = v.as_ref().id().to_string();
    match then["op"].as_str() {
        Some("set") => set(&mut v, then),
        Some("mkmap") => {
            let _ = v.make_mapping();
        }
        Some("mkseq") => {
            let _ = v.make_sequence();
        }
        _ => {}
    }
    id
}

fn ins(m: &mut MappingMut<'_>, op: &J) -> J {
    let t = op["t"].as_str().unwrap();
    let k = dec(op["k"].as_str().unwrap());
    match t {
        "slot" => {
            let sep = op["sep"].as_str().map(|_| text(&op["sep"]));
            let s = sep.as_deref().map(Separator::Custom).unwrap_or(Separator::Auto);
            return json!({"res": "ok", "nid": fill(m.insert(&k, s), &op["then"])});
        }
        "str" => m.insert_str(&k, text(&op["v"])),
        "bool" => m.insert_bool(&k, op["v"] == "true"),
        "block" => {
            let (lines, b) = block(op);
            m.insert_block(&k, lines, b);
        }
        _ => {
            macro_rules! m {
                ($ty:ident, $set:ident, $ins:ident, $push:ident) => {
                    if t == stringify!($ty) {
                        m.$ins(&k, op["v"].as_str().unwrap().parse().expect("harness: number"));
                        return json!({"res": "ok"});
                    }
                };
            }
            numbers!(m);
            panic!("harness: ins {t}");
        }
    }
    json!({"res": "ok"})
}

fn push(m: &mut SequenceMut<'_>, op: &J) -> J {
    let t = op["t"].as_str().unwrap();
    match t {
        "slot" => {
            let sep = op["sep"].as_str().map(|_| text(&op["sep"]));
            let s = sep.as_deref().map(Separator::Custom).unwrap_or(Separator::Auto);
            return json!({"res": "ok", "nid": fill(m.push(s), &op["then"])});
        }
        "str" => m.push_string(text(&op["v"])),
        "bool" => m.push_bool(op["v"] == "true"),
        "block" => {
            let (lines, b) = block(op);
            m.push_block(lines, b);
        }
        _ => {
            macro_rules! m {
                ($ty:ident, $set:ident, $ins:ident, $push:ident) => {
                    if t == stringify!($ty) {
                        m.$push(op["v"].as_str().unwrap().parse().expect("harness: number"));
                        return json!({"res": "ok"});
                    }
                };
            }
            numbers!(m);
            panic!("harness: push {t}");
        }
    }
    json!({"res": "ok"})
}

fn mapping(mut v: ValueMut<'_>, via: &str, f: &mut dyn FnMut(&mut MappingMut<'_>) -> J) -> J {
    match via {
        "into" => match v.into_any_mut() {
            AnyMut::Mapping(mut m) => f(&mut m),
            _ => json!({"res": "badkind"}),
        },
        "mut" => match v.as_mapping_mut() {
            Some(mut m) => f(&mut m),
            None => json!({"res": "badkind"}),
        },
        _ => match v.into_mapping_mut() {
            Some(mut m) => f(&mut m),
            None => json!({"res": "badkind"}),
        },
    }
}

fn sequence(mut v: ValueMut<'_>, via: &str, f: &mut dyn FnMut(&mut SequenceMut<'_>) -> J) -> J {
    match via {
        "into" => match v.into_any_mut() {
            AnyMut::Sequence(mut m) => f(&mut m),
            _ => json!({"res": "badkind"}),
        },
        "mut" => match v.as_sequence_mut() {
            Some(mut m) => f(&mut m),
            None => json!({"res": "badkind"}),
        },
        _ => match v.into_sequence_mut() {
            Some(mut m) => f(&mut m),
            None => json!({"res": "badkind"}),
        },
    }
}

/// What a handle denotes as operations are done through one and the same.
enum Handle<'a> {
    V(ValueMut<'a>),
    M(MappingMut<'a>),
    S(SequenceMut<'a>),
}

fn many(v: ValueMut<'_>, ops: &[J]) -> J {
    let mut res = vec![];
    let mut h = Handle::V(v);
    for op in ops {
        let name = op["op"].as_str().unwrap();
        h = match (h, name) {
            (Handle::V(v), "mkmap") => Handle::M(v.make_mapping()),
            (Handle::V(v), "mkseq") => Handle::S(v.make_sequence()),
            (Handle::V(v), "ins" | "mrem" | "mclr" | "get") if v.as_ref().as_mapping().is_some() => Handle::M(v.into_mapping_mut().expect("into_mapping_mut")),
            (Handle::V(v), "push" | "srem" | "sclr") if v.as_ref().as_sequence().is_some() => Handle::S(v.into_sequence_mut().expect("into_sequence_mut")),
            (h, _) => h,
        };
        res.push(match (&mut h, name) {
            (_, "mkmap" | "mkseq") => "ok".to_owned(),
            (Handle::V(v), "set") => {
                set(v, op);
                "ok".to_owned()
            }
            (Handle::M(m), "ins" | "mrem" | "mclr" | "get") => on_mapping(m, name, op)["res"].as_str().unwrap().to_owned(),
            (Handle::S(m), "push" | "srem" | "sclr") => on_sequence(m, name, op)["res"].as_str().unwrap().to_owned(),
            (_, "set") => panic!("harness: set through a handle of a collection"),
            _ => "badkind".to_owned(),
        });
    }
    json!({"res": res.join(",")})
}

fn on_mapping(m: &mut MappingMut<'_>, name: &str, op: &J) -> J {
    match name {
        "ins" => ins(m, op),
        "mrem" => flag(m.remove(&text(&op["k"]))),
        "mclr" => {
            m.clear();
            json!({"res": "ok"})
        }
        "get" => {
            let k = text(&op["k"]);
            let a = m.as_ref().get(&k).map(|v| v.id());
            let b = m.get_mut(&k).map(|v| v.as_ref().id());
            json!({"res": a.map(|i| i.to_string()).unwrap_or("none".into()), "same": a == b})
        }
        _ => panic!("harness: mapping op {name}"),
    }
}

fn on_sequence(m: &mut SequenceMut<'_>, name: &str, op: &J) -> J {
    match name {
        "push" => push(m, op),
        "srem" => flag(m.remove(op["i"].as_u64().unwrap() as usize)),
        "sclr" => {
            m.clear();
            json!({"res": "ok"})
        }
        _ => panic!("harness: sequence op {name}"),
    }
}

fn flag(b: bool) -> J {
    json!({"res": if b { "true" } else { "false" }})
}

fn apply(doc: &mut Document, op: &J) -> J {
    let via = op["via"].as_str().unwrap_or("id");
    let name = op["op"].as_str().expect("harness: op");
    if name == "persist" {
        return match serdes::persist(doc) {
            Ok(d) => {
                *doc = d;
                json!({"res": "ok"})
            }
            Err(e) => json!({"res": "fail", "m": e}),
        };
    }
    at(doc, &path(op), via, &mut |mut v| match name {
        "set" => {
            set(&mut v, op);
            json!({"res": "ok"})
        }
        "mkmap" => {
            let id = v.as_ref().id();
            let m = v.make_mapping();
            json!({"res": if m.as_ref().id() == id && m.into_ref().id() == id { "ok" } else { "moved" }})
        }
        "mkseq" => {
            let id = v.as_ref().id();
            let m = v.make_sequence();
            json!({"res": if m.as_ref().id() == id && m.into_ref().id() == id { "ok" } else { "moved" }})
        }
        "ins" | "mrem" | "mclr" | "get" => mapping(v, via, &mut |m| on_mapping(m, name, op)),
        "push" | "srem" | "sclr" => sequence(v, via, &mut |m| on_sequence(m, name, op)),
        "many" => many(v, op["many"].as_array().expect("harness: many")),
        _ => panic!("harness: op {name}"),
    })
}

pub fn run(doc: &mut Document, list: &[J], want: &[&str]) -> Vec<J> {
    let mut forks: Vec<Document> = vec![];
    let mut out = vec![];
    for op in list {
        let d = op["d"].as_u64().unwrap_or(0) as usize;
        let r = if op["op"] == "fork" {
            guard(|| if d == 0 { doc.clone() } else { forks[d - 1].clone() }).map(|c| {
                forks.push(c);
                json!({"res": "ok"})
            })
        } else {
            let target = if d == 0 { &mut *doc } else { &mut forks[d - 1] };
            guard(|| apply(target, op))
        };
        let stop = r.is_err();
        let mut s = r.unwrap_or_else(|p| json!({"res": "panic", "m": p}));
        s["bits"] = J::from(stored(op));
        s["o"] = observe(doc, want);
        if !forks.is_empty() {
            s["f"] = J::Array(forks.iter().map(|d| observe(d, want)).collect());
        }
        out.push(s);
        if stop {
            break;
        }
    }
    out
}
