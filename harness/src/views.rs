//! Projections of the real document through the different accessor families.

use bstr::{BStr, ByteSlice};
use nondestructive::yaml::{self, Any, AnyMut, Value};
use serde_json::{json, Value as J};

use crate::enc;

pub fn node(k: &str, v: String, ks: Vec<String>, c: Vec<J>) -> J {
    json!({"k": k, "v": v, "ks": ks, "c": c})
}

fn leaf(k: &str, v: String) -> J {
    node(k, v, vec![], vec![])
}

/// The logical tree: kind, scalar value, keys, children.
pub fn tree(any: Any<'_>) -> J {
    match any {
        Any::Null => leaf("null", String::new()),
        Any::Bool(b) => leaf("bool", b.to_string()),
        Any::Number(n) => leaf("num", enc(n.as_raw())),
        Any::String(s) => leaf("str", enc(&s)),
        Any::Mapping(m) => {
            let (ks, c) = m.iter().map(|(k, v)| (enc(k), tree(v.into_any()))).unzip();
            node("map", String::new(), ks, c)
        }
        Any::Sequence(s) => node("seq", String::new(), vec![], s.iter().map(|v| tree(v.into_any())).collect()),
        _ => leaf("other", String::new()),
    }
}

/// Identifiers: [id, [children]] mirroring the logical tree.
pub fn ids(v: &Value<'_>) -> J {
    let c: Vec<J> = match v.as_any() {
        Any::Mapping(m) => {
            assert_eq!(m.id(), v.id());
            m.iter().map(|(_, v)| ids(&v)).collect()
        }
        Any::Sequence(s) => {
            assert_eq!(s.id(), v.id());
            s.iter().map(|v| ids(&v)).collect()
        }
        _ => vec![],
    };
    assert!(crate::serdes::same_id(v.id()));
    json!({"i": v.id().to_string(), "c": c})
}

/// The same tree through the typed getters of `Value`.
fn typed(v: &Value<'_>) -> J {
    let mut hits = Vec::new();
    if let Some(b) = v.as_bool() {
        hits.push(leaf("bool", b.to_string()));
    }
    if let Some(s) = v.as_bstr() {
        if let Some(t) = v.as_str() {
            if t.as_bytes() != s.as_bytes() {
                hits.push(leaf("as_str differs", enc(t.as_bytes())));
            }
        } else if s.to_str().is_ok() {
            hits.push(leaf("as_str missing", enc(s)));
        }
        hits.push(leaf("str", enc(s)));
    }
    if let Some(n) = v.as_number() {
        hits.push(leaf("num", enc(n.as_raw())));
    }
    if let Some(m) = v.as_mapping() {
        let mut ks = vec![];
        let mut c = vec![];
        for (k, v) in &m {
            ks.push(enc(k));
            c.push(typed(&v));
        }
        if m.len() != ks.len() || m.is_empty() != ks.is_empty() {
            hits.push(leaf("len differs", m.len().to_string()));
        }
        hits.push(node("map", String::new(), ks, c));
    }
    if let Some(s) = v.as_sequence() {
        let mut c = vec![];
        for v in &s {
            c.push(typed(&v));
        }
        if s.len() != c.len() || s.is_empty() != c.is_empty() {
            hits.push(leaf("len differs", s.len().to_string()));
        }
        hits.push(node("seq", String::new(), vec![], c));
    }
    match hits.len() {
        0 => leaf("null", String::new()),
        1 => hits.pop().unwrap(),
        _ => node("many", String::new(), vec![], hits),
    }
}

/// Keys which are almost like one, none of which is in the mapping.
fn near(ks: &[Vec<u8>]) -> Vec<String> {
    let mut out = vec![];
    for k in ks.iter().filter_map(|k| k.to_str().ok()) {
        let mut cut = k.to_owned();
        cut.pop();
        out.extend([
            k.to_uppercase(), k.to_lowercase(), k.trim().to_owned(), format!("{k} "), format!(" {k}"), format!("{k}\0"), format!("{k}:"), cut,
            format!("\"{k}\""), format!("'{k}'"), format!("{k}{k}"), k.chars().rev().collect(), k.chars().skip(1).collect(),
        ]);
        if k.len() > 8 {
            out.extend((0..k.len()).filter(|i| k.is_char_boundary(*i) && k.as_bytes()[*i].is_ascii()).step_by(7).map(|i| format!("{}\u{1}{}", &k[..i], &k[i + 1..])));
        }
    }
    out.push(String::new());
    out.push("absent".to_owned());
    out.retain(|k| !ks.iter().any(|o| o.as_slice() == k.as_bytes()));
    out
}

/// By random access: get / first / last, and by id.
fn random(doc: &yaml::Document, v: &Value<'_>) -> J {
    let v = doc.value(v.id());
    match v.as_any() {
        Any::Mapping(m) => {
            let mut ks = vec![];
            let mut c = vec![];
            for i in 0..m.len() {
                let (k, x) = m.iter().nth(i).expect("nth within len");
                // The first entry with this key is the one `get` must find.
                let by_key = k.to_str().ok().and_then(|k| m.get(k));
                let first = m.iter().find(|(o, _)| *o == k).map(|(_, v)| v.id());
                let x = match by_key {
                    Some(y) if Some(y.id()) == first => x,
                    None if k.to_str().is_err() => x,
                    _ => return leaf("get differs", enc(k)),
                };
                ks.push(enc(k));
                c.push(random(doc, &x));
            }
            if m.iter().nth(m.len()).is_some() {
                return leaf("nth beyond len", String::new());
            }
            let all: Vec<Vec<u8>> = m.iter().map(|(k, _)| k.to_vec()).collect();
            for absent in near(&all) {
                if m.get(&absent).is_some() {
                    return leaf("get of an absent key", absent);
                }
            }
            node("map", String::new(), ks, c)
        }
        Any::Sequence(s) => {
            let n = s.len();
            let mut c = vec![];
            for i in 0..n {
                match s.get(i) {
                    Some(x) => c.push(random(doc, &x)),
                    None => return leaf("get misses", i.to_string()),
                }
            }
            if s.get(n).is_some() {
                return leaf("get beyond len", n.to_string());
            }
            if s.first().map(|v| v.id()) != s.get(0).map(|v| v.id()) {
                return leaf("first differs", String::new());
            }
            if s.last().map(|v| v.id()) != n.checked_sub(1).and_then(|i| s.get(i)).map(|v| v.id()) {
                return leaf("last differs", String::new());
            }
            node("seq", String::new(), vec![], c)
        }
        other => tree(other),
    }
}

/// Through the mutable handles.
fn mutable(any: AnyMut<'_>) -> J {
    let id = any.id();
    match any {
        AnyMut::Mapping(mut m) => {
            if m.as_ref().id() != id {
                return leaf("id differs", String::new());
            }
            let ks: Vec<Vec<u8>> = m.as_ref().iter().map(|(k, _)| k.to_vec()).collect();
            for absent in near(&ks) {
                if m.get_mut(&absent).is_some() {
                    return leaf("get_mut of an absent key", absent);
                }
            }
            let mut c = vec![];
            for (i, k) in ks.iter().enumerate() {
                let dup = ks.iter().position(|o| o == k) != Some(i);
                let expect = m.as_ref().iter().nth(i).map(|(_, v)| v.id()).unwrap();
                match k.to_str().ok() {
                    Some(k) if !dup => match m.get_mut(k) {
                        Some(v) => {
                            if v.as_ref().id() != expect {
                                c.push(leaf("get_mut differs", String::new()));
                            } else {
                                c.push(mutable(v.into_any_mut()));
                            }
                        }
                        None => c.push(leaf("get_mut misses", String::new())),
                    },
                    _ => c.push(tree(m.as_ref().iter().nth(i).unwrap().1.into_any())),
                }
            }
            node("map", String::new(), ks.iter().map(|k| enc(k)).collect(), c)
        }
        AnyMut::Sequence(mut s) => {
            if s.as_ref().id() != id {
                return leaf("id differs", String::new());
            }
            let n = s.as_ref().len();
            let mut c = vec![];
            for i in 0..n {
                match s.get_mut(i) {
                    Some(v) => c.push(mutable(v.into_any_mut())),
                    None => c.push(leaf("get_mut misses", i.to_string())),
                }
            }
            if s.get_mut(n).is_some() {
                return leaf("get_mut beyond len", String::new());
            }
            node("seq", String::new(), vec![], c)
        }
        AnyMut::Scalar(mut v) => {
            if v.as_ref().id() != id {
                return leaf("id differs", String::new());
            }
            if v.as_mapping_mut().is_some() || v.as_sequence_mut().is_some() {
                return leaf("scalar handle of a container", String::new());
            }
            tree(v.into_ref().into_any())
        }
        _ => leaf("other", String::new()),
    }
}

/// Through the consuming mutable handles, one fresh borrow per path.
fn consuming(doc: &mut yaml::Document, id: yaml::Id) -> J {
    let kind = match doc.value(id).into_any() {
        Any::Mapping(..) => 1,
        Any::Sequence(..) => 2,
        _ => 0,
    };
    let is_map = doc.value_mut(id).into_mapping_mut().is_some();
    let is_seq = doc.value_mut(id).into_sequence_mut().is_some();
    if (is_map, is_seq) != (kind == 1, kind == 2) {
        return leaf("into_*_mut disagrees", String::new());
    }
    match kind {
        1 => {
            let ks: Vec<Vec<u8>> = doc.value(id).as_mapping().unwrap().iter().map(|(k, _)| k.to_vec()).collect();
            for absent in near(&ks) {
                if doc.value_mut(id).into_mapping_mut().unwrap().get_into_mut(&absent).is_some() {
                    return leaf("get_into_mut of an absent key", absent);
                }
            }
            let mut c = vec![];
            for (i, k) in ks.iter().enumerate() {
                let nth = doc.value(id).as_mapping().unwrap().iter().nth(i).unwrap().1.id();
                let dup = ks.iter().position(|o| o == k) != Some(i);
                let child = match k.to_str().ok() {
                    Some(k) if !dup => {
                        match doc.value_mut(id).into_mapping_mut().unwrap().get_into_mut(k) {
                            Some(v) => v.into_ref().id(),
                            None => return leaf("get_into_mut misses", enc(k.as_bytes())),
                        }
                    }
                    _ => nth,
                };
                if child != nth {
                    return leaf("get_into_mut differs", String::new());
                }
                c.push(consuming(doc, child));
            }
            node("map", String::new(), ks.iter().map(|k| enc(k)).collect(), c)
        }
        2 => {
            let n = doc.value_mut(id).into_sequence_mut().unwrap().into_ref().len();
            let mut c = vec![];
            for i in 0..n {
                let child = match doc.value_mut(id).into_sequence_mut().unwrap().get_into_mut(i) {
                    Some(v) => v.into_ref().id(),
                    None => return leaf("get_into_mut misses", i.to_string()),
                };
                c.push(consuming(doc, child));
            }
            if doc.value_mut(id).into_sequence_mut().unwrap().get_into_mut(n).is_some() {
                return leaf("get_into_mut beyond len", String::new());
            }
            node("seq", String::new(), vec![], c)
        }
        _ => tree(doc.value_mut(id).into_ref().into_any()),
    }
}

pub fn views(doc: &yaml::Document) -> J {
    let root = doc.as_ref();
    let mut copy = doc.clone();
    let m = mutable(copy.as_mut().into_any_mut());
    let id = copy.as_ref().id();
    let c = consuming(&mut copy, id);
    json!([
        tree(root.as_any()),
        tree(doc.as_ref().into_any()),
        typed(&root),
        random(doc, &root),
        m,
        c,
    ])
}

fn preorder<'a>(v: Value<'a>, f: &mut dyn FnMut(&Value<'a>)) {
    f(&v);
    if let Some(m) = v.as_mapping() {
        for (_, c) in m {
            preorder(c, f);
        }
    } else if let Some(s) = v.as_sequence() {
        for c in s {
            preorder(c, f);
        }
    }
}

/// Display of every value in preorder, Latin-1 encoded.
pub fn vtext(doc: &yaml::Document) -> J {
    let mut out = vec![];
    preorder(doc.as_ref(), &mut |v| {
        let mut t = vec![enc(v.to_string().as_bytes())];
        if let Some(m) = v.as_mapping() {
            t.push(enc(m.to_string().as_bytes()));
        }
        if let Some(s) = v.as_sequence() {
            t.push(enc(s.to_string().as_bytes()));
        }
        out.push(json!(t));
        // Debug must never panic.
        let _ = format!("{v:?}");
    });
    J::Array(out)
}

/// Debug output, of everything there is.
pub fn debug(doc: &yaml::Document) {
    let n = [format!("{doc:?}"), format!("{doc:#?}")];
    assert!(n.iter().all(|s| !s.is_empty()));
    preorder(doc.as_ref(), &mut |v| {
        let a = v.as_any();
        let mut n = vec![format!("{v:?}"), format!("{v:#?}"), format!("{a:?}"), format!("{a:#?}"), format!("{:?}", v.id())];
        match a {
            Any::Mapping(m) => n.extend([format!("{m:?}"), format!("{m:#?}")]),
            Any::Sequence(s) => n.extend([format!("{s:?}"), format!("{s:#?}")]),
            Any::Number(s) => n.extend([format!("{s:?}"), format!("{s:#?}")]),
            Any::String(s) => n.extend([format!("{s:?}"), format!("{s:#?}")]),
            _ => {}
        }
        assert!(n.iter().all(|s| !s.is_empty()));
    });
}

fn o<T: ToString>(v: Option<T>) -> String {
    v.map(|v| v.to_string()).unwrap_or_default()
}

pub fn f32s(v: f32) -> String {
    if v.is_nan() { "nan".into() } else { format!("{:08x}", v.to_bits()) }
}

pub fn f64s(v: f64) -> String {
    if v.is_nan() { "nan".into() } else { format!("{:016x}", v.to_bits()) }
}

/// Every typed getter on every value, in preorder.
pub fn scalars(doc: &yaml::Document) -> J {
    let mut out = vec![];
    preorder(doc.as_ref(), &mut |v| {
        macro_rules! get {
            ($src:expr) => {
                json!({
                    "u8": o($src.as_u8()), "i8": o($src.as_i8()), "u16": o($src.as_u16()), "i16": o($src.as_i16()),
                    "u32": o($src.as_u32()), "i32": o($src.as_i32()), "u64": o($src.as_u64()), "i64": o($src.as_i64()),
                    "u128": o($src.as_u128()), "i128": o($src.as_i128()),
                    "f32": o($src.as_f32().map(f32s)), "f64": o($src.as_f64().map(f64s)),
                })
            };
        }
        let direct = get!(v);
        let (raw, via) = match v.as_number() {
            Some(n) => (enc(n.as_raw()), get!(n)),
            None => (String::new(), direct.clone()),
        };
        let kind = match v.as_any() {
            Any::Null => "null",
            Any::Bool(_) => "bool",
            Any::Number(_) => "num",
            Any::String(_) => "str",
            Any::Mapping(_) => "map",
            Any::Sequence(_) => "seq",
            _ => "other",
        };
        out.push(json!({
            "k": kind, "raw": raw, "vn": doc.value(v.id()).into_number().map(|n| vec![enc(n.as_raw())]).unwrap_or_default(),
            "sraw": v.as_any().into_string().map(|s| enc(s.as_raw())).unwrap_or_default(), "g": direct, "via": via,
            "b": o(v.as_bool()),
            "s": v.as_bstr().map(|s| vec![enc(s)]).unwrap_or_default(),
            "u": v.as_str().map(|s| vec![enc(s.as_bytes())]).unwrap_or_default(),
            "null": v.as_any().is_null(),
            "ib": o(v.as_any().into_bool()),
            "is": v.as_any().into_string().map(|s| vec![enc(&s)]).unwrap_or_default(),
            "in": v.as_any().into_number().map(|s| vec![enc(s.as_raw())]).unwrap_or_default(),
            "m": v.as_mapping().is_some(), "q": v.as_sequence().is_some(),
        }));
    });
    J::Array(out)
}

/// Drive a double-ended iterator through a script of calls and record the
/// position of each element returned (-1: none) and the remaining length.
pub fn iter_script(doc: &yaml::Document, case: &J, script: &[J]) -> J {
    fn drive<I, T>(mk: impl Fn() -> I, script: &[J], pos: impl Fn(&T) -> i64) -> J
    where
        I: DoubleEndedIterator<Item = T> + ExactSizeIterator,
    {
        let mut it = mk();
        let (lo, hi) = it.size_hint();
        let start = json!([it.len(), lo, hi.map(|h| h as i64).unwrap_or(-1)]);
        let mut out = vec![];
        let run = |it: &mut I, s: &J| {
            let op = s[0].as_str().unwrap();
            let n = s[1].as_u64().unwrap() as usize;
            let r = match op {
                "next" => it.next(),
                "back" => it.next_back(),
                "nth" => it.nth(n),
                "nthback" => it.nth_back(n),
                _ => panic!("harness: iter op {op}"),
            };
            let (lo, hi) = it.size_hint();
            json!([r.map(|v| pos(&v)).unwrap_or(-1), it.len(), lo, hi.map(|h| h as i64).unwrap_or(-1)])
        };
        for s in script {
            out.push(run(&mut it, s));
        }
        // The rest, in every way.
        let left = || {
            let mut it = mk();
            for s in script {
                run(&mut it, s);
            }
            it
        };
        let fold = left().fold(vec![], |mut v, e| {
            v.push(pos(&e));
            v
        });
        let rfold = left().rfold(vec![], |mut v, e| {
            v.push(pos(&e));
            v
        });
        let mut each = vec![];
        left().for_each(|e| each.push(pos(&e)));
        let mut part = left();
        let take: Vec<_> = part.by_ref().take(2).map(|e| pos(&e)).collect();
        let after: Vec<_> = part.map(|e| pos(&e)).collect();
        let mut both = vec![];
        let mut ends = left();
        loop {
            let e = if both.len() % 2 == 0 { ends.next() } else { ends.next_back() };
            match e {
                Some(e) => both.push(pos(&e)),
                None => break,
            }
        }
        let over = (ends.next().is_some(), ends.next_back().is_some());
        let (lo, hi) = ends.size_hint();
        json!({
            "start": start, "calls": out,
            "rest": {
                "collect": left().map(|e| pos(&e)).collect::<Vec<_>>(), "rev": left().rev().map(|e| pos(&e)).collect::<Vec<_>>(),
                "fold": fold, "rfold": rfold, "each": each, "count": left().count(), "last": left().last().map(|e| pos(&e)).unwrap_or(-1),
                "step": left().step_by(2).map(|e| pos(&e)).collect::<Vec<_>>(), "skip": left().skip(1).map(|e| pos(&e)).collect::<Vec<_>>(),
                "take": take, "after": after, "both": both,
                "end": [if over.0 { 0 } else { -1 }, if over.1 { 0 } else { -1 }, ends.len(), lo, hi.map(|h| h as i64).unwrap_or(-1)],
            }
        })
    }
    let mut v = doc.as_ref();
    for p in case["p"].as_array().map(Vec::as_slice).unwrap_or_default() {
        let i = p.as_u64().unwrap() as usize;
        let id = match v.as_any() {
            Any::Mapping(m) => {
                let mut it = m.iter();
                for _ in 0..i {
                    it.next();
                }
                it.next().unwrap().1.id()
            }
            Any::Sequence(s) => {
                let mut it = s.iter();
                for _ in 0..i {
                    it.next();
                }
                it.next().unwrap().id()
            }
            _ => panic!("harness: iter path"),
        };
        v = doc.value(id);
    }
    if let Some(m) = v.as_mapping() {
        let mut order = vec![];
        let mut it = m.iter();
        while let Some((k, v)) = it.next() {
            order.push((k.to_owned(), v.id()));
        }
        let pos = |e: &(&BStr, Value<'_>)| {
            order.iter().position(|(k, i)| *i == e.1.id() && k == e.0).map(|p| p as i64).unwrap_or(-2)
        };
        return json!([order.len(), drive(|| m.iter(), script, pos), drive(|| v.as_mapping().unwrap().into_iter(), script, pos), drive(|| (&m).into_iter(), script, pos)]);
    }
    let s = v.as_sequence().expect("harness: iter on a scalar");
    let mut order = vec![];
    let mut it = s.iter();
    while let Some(v) = it.next() {
        order.push(v.id());
    }
    let pos = |e: &Value<'_>| order.iter().position(|i| *i == e.id()).map(|p| p as i64).unwrap_or(-2);
    json!([order.len(), drive(|| s.iter(), script, pos), drive(|| v.as_sequence().unwrap().into_iter(), script, pos), drive(|| (&s).into_iter(), script, pos)])
}
