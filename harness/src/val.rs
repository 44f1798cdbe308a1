//! Values of the specification <-> upon::Value, and serde trees.
use crate::json::{self, J};
use serde::ser::*;
use std::collections::BTreeMap;
use upon::Value;

pub fn float(s: &str) -> f64 {
    s.parse().expect("float text")
}

pub fn from_j(j: &J) -> Value {
    match j.g("t").s() {
        "none" => Value::None,
        "bool" => Value::Bool(j.g("b").b()),
        "int" => Value::Integer(j.g("dec").text().parse().expect("int text")),
        "flt" => Value::Float(float(&j.g("fdec").text())),
        "str" => Value::String(j.g("s").text()),
        "list" => Value::List(j.g("l").arr().iter().map(from_j).collect()),
        "map" => {
            let mut m = BTreeMap::new();
            for e in j.g("m").arr() {
                m.insert(e.g("k").text(), from_j(e.g("v")));
            }
            Value::Map(m)
        }
        t => panic!("bad value tag {t:?}"),
    }
}

pub fn to_j(v: &Value) -> String {
    match v {
        Value::None => "{\"t\":\"none\"}".into(),
        Value::Bool(b) => format!("{{\"t\":\"bool\",\"b\":{b}}}"),
        Value::Integer(i) => format!("{{\"t\":\"int\",\"dec\":{}}}", json::text(&i.to_string())),
        Value::Float(f) => format!("{{\"t\":\"flt\",\"fdec\":{}}}", json::text(&f.to_string())),
        Value::String(s) => format!("{{\"t\":\"str\",\"s\":{}}}", json::text(s)),
        Value::List(l) => {
            let v: Vec<String> = l.iter().map(to_j).collect();
            format!("{{\"t\":\"list\",\"l\":[{}]}}", v.join(","))
        }
        Value::Map(m) => {
            let v: Vec<String> = m
                .iter()
                .map(|(k, v)| format!("{{\"k\":{},\"v\":{}}}", json::text(k), to_j(v)))
                .collect();
            format!("{{\"t\":\"map\",\"m\":[{}]}}", v.join(","))
        }
    }
}

/// The structural rendering of the `dbg` formatter.
pub fn dbg(v: &Value) -> String {
    match v {
        Value::None => "none".into(),
        Value::Bool(b) => b.to_string(),
        Value::Integer(i) => i.to_string(),
        Value::Float(f) => format!("f{f}"),
        Value::String(s) => format!("'{s}'"),
        Value::List(l) => {
            let mut o = String::from("[");
            for x in l {
                o += &dbg(x);
                o += ",";
            }
            o + "]"
        }
        Value::Map(m) => {
            let mut o = String::from("{");
            for (k, x) in m {
                o += k;
                o += ":";
                o += &dbg(x);
                o += ",";
            }
            o + "}"
        }
    }
}

pub fn truthy(v: &Value) -> bool {
    match v {
        Value::None => false,
        Value::Bool(b) => *b,
        Value::Integer(i) => *i != 0,
        Value::Float(f) => *f != 0.0,
        Value::String(s) => !s.is_empty(),
        Value::List(l) => !l.is_empty(),
        Value::Map(m) => !m.is_empty(),
    }
}

/// Serializes a specification value through the serde data model.
pub struct AsSer<'a>(pub &'a Value);

impl Serialize for AsSer<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self.0 {
            Value::None => s.serialize_none(),
            Value::Bool(b) => s.serialize_bool(*b),
            Value::Integer(i) => s.serialize_i64(*i),
            Value::Float(f) => s.serialize_f64(*f),
            Value::String(x) => s.serialize_str(x),
            Value::List(l) => {
                let mut q = s.serialize_seq(Some(l.len()))?;
                for x in l {
                    q.serialize_element(&AsSer(x))?;
                }
                q.end()
            }
            Value::Map(m) => {
                let mut q = s.serialize_map(Some(m.len()))?;
                for (k, x) in m {
                    q.serialize_entry(k, &AsSer(x))?;
                }
                q.end()
            }
        }
    }
}

/// A tree of the serde data model.
pub struct Tree<'a>(pub &'a J);

fn leak(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}

impl Serialize for Tree<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let j = self.0;
        let name = || leak(j.g("n").text());
        let dec = || j.g("dec").text();
        // the name of a type takes no part in what it becomes
        let tname = |d: &'static str| match j.g("tn") {
            J::A(_) => leak(j.g("tn").text()),
            _ => d,
        };
        let index = |d: u32| match j.g("vi") {
            J::N(n) => *n as u32,
            _ => d,
        };
        let kids = j.g("l").arr();
        match j.g("d").s() {
            "bool" => s.serialize_bool(j.g("b").b()),
            "i8" => s.serialize_i8(dec().parse().unwrap()),
            "i16" => s.serialize_i16(dec().parse().unwrap()),
            "i32" => s.serialize_i32(dec().parse().unwrap()),
            "i64" => s.serialize_i64(dec().parse().unwrap()),
            "i128" => s.serialize_i128(dec().parse().unwrap()),
            "u8" => s.serialize_u8(dec().parse().unwrap()),
            "u16" => s.serialize_u16(dec().parse().unwrap()),
            "u32" => s.serialize_u32(dec().parse().unwrap()),
            "u64" => s.serialize_u64(dec().parse().unwrap()),
            "u128" => s.serialize_u128(dec().parse().unwrap()),
            "f32" => s.serialize_f32(dec().parse().unwrap()),
            "f64" => s.serialize_f64(dec().parse().unwrap()),
            "char" => s.serialize_char(j.g("s").text().chars().next().unwrap()),
            "str" => s.serialize_str(&j.g("s").text()),
            "bytes" => {
                let b: Vec<u8> = j.g("s").arr().iter().map(|x| x.n() as u8).collect();
                s.serialize_bytes(&b)
            }
            "readable" if s.is_human_readable() => s.serialize_str(&j.g("s").text()),
            "readable" => s.serialize_bytes(j.g("s").text().as_bytes()),
            "display" => s.collect_str(&j.g("s").text()),
            "value" => from_j(j.g("v")).serialize(s),
            "fail" => Err(serde::ser::Error::custom(j.g("s").text())),
            "none" => s.serialize_none(),
            "some" => s.serialize_some(&Tree(&kids[0])),
            "unit" => s.serialize_unit(),
            "unit_struct" => s.serialize_unit_struct(tname("U")),
            "unit_variant" => s.serialize_unit_variant(tname("E"), index(1), name()),
            "newtype_struct" => s.serialize_newtype_struct(tname("N"), &Tree(&kids[0])),
            "newtype_variant" => s.serialize_newtype_variant(tname("E"), index(2), name(), &Tree(&kids[0])),
            "seq" => {
                let mut q = s.serialize_seq(if j.g("len").b() { Some(kids.len()) } else { None })?;
                for k in kids {
                    q.serialize_element(&Tree(k))?;
                }
                q.end()
            }
            "tuple" => {
                let mut q = s.serialize_tuple(kids.len())?;
                for k in kids {
                    q.serialize_element(&Tree(k))?;
                }
                q.end()
            }
            "tuple_struct" => {
                let mut q = s.serialize_tuple_struct(tname("T"), kids.len())?;
                for k in kids {
                    q.serialize_field(&Tree(k))?;
                }
                q.end()
            }
            "tuple_variant" => {
                let mut q = s.serialize_tuple_variant(tname("E"), index(3), name(), kids.len())?;
                for k in kids {
                    q.serialize_field(&Tree(k))?;
                }
                q.end()
            }
            "map" => {
                let mut q = s.serialize_map(if j.g("len").b() { Some(kids.len()) } else { None })?;
                for (i, e) in kids.iter().enumerate() {
                    if (i % 2 == 0) == j.g("split").b() {
                        q.serialize_key(&Tree(e.g("k")))?;
                        q.serialize_value(&Tree(e.g("v")))?;
                    } else {
                        q.serialize_entry(&Tree(e.g("k")), &Tree(e.g("v")))?;
                    }
                }
                q.end()
            }
            "struct" => {
                let mut q = s.serialize_struct(tname("S"), kids.len())?;
                for e in kids {
                    if e.g("skip").b() {
                        q.skip_field(leak(e.g("n").text()))?;
                        continue;
                    }
                    q.serialize_field(leak(e.g("n").text()), &Tree(e.g("v")))?;
                }
                q.end()
            }
            "struct_variant" => {
                let mut q = s.serialize_struct_variant(tname("E"), index(4), name(), kids.len())?;
                for e in kids {
                    if e.g("skip").b() {
                        q.skip_field(leak(e.g("n").text()))?;
                        continue;
                    }
                    q.serialize_field(leak(e.g("n").text()), &Tree(e.g("v")))?;
                }
                q.end()
            }
            d => panic!("bad tree tag {d:?}"),
        }
    }
}
