//! Texts in their different representations, and maps keyed by them.
use crate::guarded;
use crate::j::*;
use crate::ops::obj;
use crate::proj::leak;
use amqp_codec::types::{ByteStr, Str, Symbol, Variant};
use bytes::Bytes;
use std::borrow::Borrow;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};

fn str_of(rep: &str, t: &str) -> Str {
    match rep {
        "static" => Str::from(leak(t.to_string())),
        "dyn" => Str::from_str(t),
        // a view into the middle of a longer buffer, as received text is
        "shared" => {
            let mut b = b"<".to_vec();
            b.extend_from_slice(t.as_bytes());
            b.extend_from_slice(b"> and more text to keep this on the heap");
            let all = Bytes::from(b);
            let mid = all.slice(1, 1 + t.len());
            Str::from(<ByteStr as string::TryFrom<Bytes>>::try_from(mid).unwrap())
        }
        _ => bad("representation"),
    }
}
fn sym_of(rep: &str, t: &str) -> Symbol {
    match rep {
        "static" => Symbol::from(leak(t.to_string())),
        "dyn" => Symbol::from_slice(t),
        _ => Symbol(str_of(rep, t)),
    }
}
fn hash<T: Hash + ?Sized>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
fn ord(o: Option<Ordering>) -> J {
    s(match o {
        None => "none",
        Some(Ordering::Less) => "lt",
        Some(Ordering::Equal) => "eq",
        Some(Ordering::Greater) => "gt",
    })
}

enum Map {
    H(hashbrown::HashMap<Str, i64>),
    Y(hashbrown::HashMap<Symbol, i64>),
    V(hashbrown::HashMap<Variant, i64>),
    B(BTreeMap<Str, i64>),
}

fn found(x: Option<i64>) -> J {
    J::A(x.into_iter().map(J::N).collect())
}

fn step(m: &mut Map, st: &J) -> Vec<(&'static str, J)> {
    let g = |k: &str| st.req(k).str().to_string();
    match st.req("do").str() {
        "cmp" => {
            let (ra, rb) = (g("ra"), g("rb"));
            let (ta, tb) = (st.req("a").text(), st.req("b").text());
            if g("of") == "sym" {
                let (a, b) = (sym_of(&ra, &ta), sym_of(&rb, &tb));
                let (va, vb) = (Variant::Symbol(a.clone()), Variant::Symbol(b.clone()));
                vec![
                    ("eq", J::A(vec![J::T(a == b), J::T(a == *tb.as_str()), J::T(va == vb), J::T(va == *tb.as_str())])),
                    ("hash", J::A(vec![J::T(hash(&a) == hash(&b)), J::T(hash(&a) == hash(tb.as_str())), J::T(hash(&va) == hash(&vb))])),
                    ("ord", J::A(vec![])),
                    ("same", J::A(vec![J::T(Borrow::<str>::borrow(&a) == ta && a.as_str() == ta && a.as_bytes() == ta.as_bytes()
                        && &*a.as_bytes_str() == ta.as_str() && a.len() == ta.len()
                        && va.as_str() == Some(ta.as_str()) && va.as_bytes_str().map_or(false, |x| &*x == ta.as_str()))])),
                ]
            } else {
                let (a, b) = (str_of(&ra, &ta), str_of(&rb, &tb));
                let (va, vb) = (Variant::String(a.clone()), Variant::String(b.clone()));
                vec![
                    ("eq", J::A(vec![J::T(a == b), J::T(a == *tb.as_str()), J::T(va == vb), J::T(va == *tb.as_str())])),
                    ("hash", J::A(vec![J::T(hash(&a) == hash(&b)), J::T(hash(&a) == hash(tb.as_str())), J::T(hash(&va) == hash(&vb))])),
                    ("ord", J::A(vec![ord(Some(a.cmp(&b))), ord(a.partial_cmp(&b))])),
                    ("same", J::A(vec![J::T(Borrow::<str>::borrow(&a) == ta && a.as_str() == ta && a.as_bytes() == ta.as_bytes()
                        && &*a.as_bytes_str() == ta.as_str() && a.len() == ta.len()
                        && va.as_str() == Some(ta.as_str()) && va.as_bytes_str().map_or(false, |x| &*x == ta.as_str()))])),
                ]
            }
        }
        "ins" => {
            let (r, t, v) = (g("rep"), st.req("t").text(), st.req("v").num());
            let old = match m {
                Map::H(m) => m.insert(str_of(&r, &t), v),
                Map::Y(m) => m.insert(sym_of(&r, &t), v),
                Map::V(m) => m.insert(Variant::String(str_of(&r, &t)), v),
                Map::B(m) => m.insert(str_of(&r, &t), v),
            };
            vec![("got", found(old))]
        }
        "get" => {
            let (r, t) = (g("rep"), st.req("t").text());
            let v = match m {
                Map::H(m) => m.get(&str_of(&r, &t)),
                Map::Y(m) => m.get(&sym_of(&r, &t)),
                Map::V(m) => m.get(&Variant::String(str_of(&r, &t))),
                Map::B(m) => m.get(&str_of(&r, &t)),
            };
            vec![("got", found(v.cloned()))]
        }
        "gets" => {
            let t = st.req("t").text();
            let v = match m {
                Map::H(m) => m.get(t.as_str()),
                Map::Y(m) => m.get(t.as_str()),
                Map::V(m) => m.get(&Variant::from(leak(t))),
                Map::B(m) => m.get(t.as_str()),
            };
            vec![("got", found(v.cloned()))]
        }
        "del" => {
            let (r, t) = (g("rep"), st.req("t").text());
            let v = match m {
                Map::H(m) => m.remove(&str_of(&r, &t)),
                Map::Y(m) => m.remove(&sym_of(&r, &t)),
                Map::V(m) => m.remove(&Variant::String(str_of(&r, &t))),
                Map::B(m) => m.remove(&str_of(&r, &t)),
            };
            vec![("got", found(v))]
        }
        "keys" => {
            let (k, sorted): (Vec<Vec<u8>>, bool) = match m {
                Map::H(m) => (m.keys().map(|k| k.as_bytes().to_vec()).collect(), false),
                Map::Y(m) => (m.keys().map(|k| k.as_bytes().to_vec()).collect(), false),
                Map::V(m) => (m.keys().map(|k| k.as_str().unwrap().as_bytes().to_vec()).collect(), false),
                Map::B(m) => (m.keys().map(|k| k.as_bytes().to_vec()).collect(), true),
            };
            vec![("keys", J::A(k.iter().map(|x| bytes(x)).collect())), ("sorted", J::T(sorted))]
        }
        _ => bad("text step"),
    }
}

pub fn run(cmd: &J, emit: &mut dyn FnMut(J)) {
    let mut m = match cmd.req("map").str() {
        "hash" => Map::H(Default::default()),
        "sym" => Map::Y(Default::default()),
        "variant" => Map::V(Default::default()),
        _ => Map::B(Default::default()),
    };
    for st in cmd.req("steps").arr() {
        match guarded(|| step(&mut m, st)) {
            Ok(mut r) => {
                r.push(("res", s("ok")));
                emit(obj(r));
            }
            Err(()) => {
                emit(obj(vec![("res", s("panic"))]));
                break;
            }
        }
    }
}
