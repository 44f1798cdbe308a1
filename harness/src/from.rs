//! Conversions of Rust data into values.
use crate::json::J;
use crate::val;
use std::borrow::Cow;
use std::collections::{BTreeMap, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe};
use upon::Value;

fn pairs(j: &J) -> Vec<(String, Value)> {
    j.g("l").arr().iter().map(|e| (e.g("k").text(), build(e.g("v")))).collect()
}

fn items(j: &J) -> Vec<Value> {
    j.g("l").arr().iter().map(build).collect()
}

macro_rules! arrays {
    ($v:expr; $($n:literal)+) => {
        match $v.len() {
            0 => Value::from([] as [Value; 0]),
            $($n => { let a: [_; $n] = $v.try_into().ok().unwrap(); Value::from(a) })+
            _ => panic!("array too long"),
        }
    };
}

macro_rules! pair_arrays {
    ($v:expr; $($n:literal)+) => {
        match $v.len() {
            0 => Value::from([] as [(String, Value); 0]),
            $($n => { let a: [(String, Value); $n] = $v.try_into().ok().unwrap(); Value::from(a) })+
            _ => panic!("array too long"),
        }
    };
}

/// An iterator with an honest but inexact size hint.
struct Hinted<T> {
    it: std::vec::IntoIter<T>,
    sub: usize,
    upper: bool,
}

impl<T> Iterator for Hinted<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.it.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.it.len();
        (n.saturating_sub(self.sub), self.upper.then_some(n + self.sub))
    }
}

impl<T: Clone> Hinted<T> {
    /// The same items, under several size hints.
    fn all(v: Vec<T>) -> impl Iterator<Item = Hinted<T>> {
        [(0, true), (usize::MAX / 4, false), (1, true), (1, false), (2, true)]
            .into_iter()
            .map(move |(sub, upper)| Hinted { it: v.clone().into_iter(), sub, upper })
    }
}

/// The first that differs from the first, if any.
fn odd(mut vs: impl Iterator<Item = Value>) -> Value {
    let a = vs.next().unwrap();
    let x = vs.find(|b| val::to_j(b) != val::to_j(&a));
    x.unwrap_or(a)
}

/// The conversion is named by "how"; "dec"/"b"/"s"/"l" is the data.
pub fn build(j: &J) -> Value {
    let dec = || j.g("dec").text();
    match j.g("how").s() {
        "unit" => Value::from(()),
        "bool" => Value::from(j.g("b").b()),
        "u8" => Value::from(dec().parse::<u8>().unwrap()),
        "u16" => Value::from(dec().parse::<u16>().unwrap()),
        "u32" => Value::from(dec().parse::<u32>().unwrap()),
        "i8" => Value::from(dec().parse::<i8>().unwrap()),
        "i16" => Value::from(dec().parse::<i16>().unwrap()),
        "i32" => Value::from(dec().parse::<i32>().unwrap()),
        "i64" => Value::from(dec().parse::<i64>().unwrap()),
        "f32" => Value::from(dec().parse::<f32>().unwrap()),
        "f64" => Value::from(dec().parse::<f64>().unwrap()),
        "string" => Value::from(j.g("s").text()),
        "str" => Value::from(j.g("s").text().as_str()),
        "cowb" => Value::from(Cow::Borrowed(j.g("s").text().as_str())),
        "cowo" => Value::from(Cow::<str>::Owned(j.g("s").text())),
        "some" => Value::from(Some(build(&j.g("l").arr()[0]))),
        "nonev" => Value::from(None::<Value>),
        "someu8" => Value::from(Some(dec().parse::<u8>().unwrap())),
        "vec" => Value::from(items(j)),
        "veci" => Value::from(j.g("l").arr().iter().map(|x| x.g("dec").text().parse::<i64>().unwrap()).collect::<Vec<_>>()),
        "vecs" => Value::from(j.g("l").arr().iter().map(|x| x.g("s").text()).collect::<Vec<String>>()),
        "array" => arrays!(items(j); 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 31 32 33 64 100 128 255 256 257),
        "iter" => odd(Hinted::all(items(j)).map(|i| i.collect::<Value>())),
        "btree" => Value::from(pairs(j).into_iter().collect::<BTreeMap<String, Value>>()),
        "hash" => Value::from(pairs(j).into_iter().collect::<HashMap<String, Value>>()),
        "pairs" => pair_arrays!(pairs(j); 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 31 32 33 64 100 128 255 256 257),
        "iterpairs" => odd(Hinted::all(pairs(j)).map(|i| i.collect::<Value>())),
        // value!{ x: [..] } with up to four items
        "macro_list" => {
            let v = items(j);
            match &v[..] {
                [] => upon::value! { x: [] },
                [a] => upon::value! { x: [a] },
                [a, b] => upon::value! { x: [a, b] },
                [a, b, c] => upon::value! { x: [a, b, c,], },
                [a, b, c, d] => upon::value! { x: [a, b, c, d] },
                _ => panic!("list too long"),
            }
        }
        // value!{ k: .., k: .. }: keys k0, k1, k0
        "macro_map" => {
            let v = items(j);
            match &v[..] {
                [] => upon::value! { x: {} },
                [a] => upon::value! { k0: a },
                [a, b] => upon::value! { k0: a, k1: b },
                [a, b, c] => upon::value! { k0: a, k1: b, k0: c, },
                _ => panic!("map too long"),
            }
        }
        // the items a, b of the list and literals
        "macro_mixed" => {
            let v = items(j);
            let a = &v[0];
            let b = &v[1];
            upon::value! { b: b, a: a, list: [b, None, true, 1, -2, "s", [], {}, [a, [b]], { a: a }], m: { b: None, c: { d: false, a: a }, e: [None] }, n: None }
        }
        // the same in other positions
        "macro_more" => {
            let v = items(j);
            let a = &v[0];
            let b = &v[1];
            upon::value! {
                l: [None, b], p: [a, None], q: [None, None,], e: [[], [[]], {}, [None]], t: true, f: false, kind: 1 + 2,
                k: None, k: a, g: [ { a: None, b: true, a: b }, {}, ], s: "", h: None, w: [true, false], u: [[a], [b, a],],
                d: { d: { d: {} } }, z: (), i: [{ x: [a] }, { x: [] }, a, ], o: { k: [], k: {}, k: None, },
            }
        }
        h => panic!("bad conversion {h:?}"),
    }
}

pub fn run(case: &J) -> String {
    let r = catch_unwind(AssertUnwindSafe(|| {
        let a = build(case.g("a"));
        let b = build(case.g("b"));
        let e = upon::Engine::new();
        let t = e.compile("{% if x %}t{% else %}f{% endif %}{{ x }}").unwrap();
        let show = |v: &Value| {
            let ctx = Value::from([("x", v.clone())]);
            let r = t.render_from(&e, &ctx).to_string();
            match r {
                Ok(s) => format!("ok {s}"),
                Err(e) => format!("err {e}"),
            }
        };
        let back = upon::to_value(val::AsSer(&a));
        let id = match &back {
            Ok(v) => val::to_j(v) == val::to_j(&a),
            Err(_) => false,
        };
        format!(
            "{{\"va\":{},\"vb\":{},\"eq\":{},\"eqr\":{},\"self\":{},\"clone\":{},\"ra\":{},\"rb\":{},\"id\":{},\"def\":{}}}",
            val::to_j(&a),
            val::to_j(&b),
            a == b,
            b == a,
            a == a,
            val::to_j(&a.clone()) == val::to_j(&a),
            crate::json::text(&show(&a)),
            crate::json::text(&show(&b)),
            id,
            val::to_j(&Value::default()) == "{\"t\":\"none\"}"
        )
    }));
    match r {
        Ok(s) => s,
        Err(_) => "{\"panic\":true}".into(),
    }
}
