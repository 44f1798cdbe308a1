"""Eighth round of planted bugs."""
from bugs import b

M = "fn main() {\n"
BUGS = [
 b("R04-sticky-loop", "R04", [("render/iter.rs", "                for m in var.rest() {\n                    v = match lookup(source, v, m)? {\n                        Some(v) => v,\n                        None => return", "                let mut lenient = false;\n                for m in var.rest() {\n                    lenient |= matches!(m.op, ast::AccessOp::Optional);\n                    let found = match lookup(source, v, m) {\n                        Err(_) if lenient => None,\n                        found => found?,\n                    };\n                    v = match found {\n                        Some(v) => v,\n                        None => return")], M + r'''
    let e = Engine::new();
    let t = e.compile("{% for x in l %}{{ x?.a.b }}{% endfor %}").unwrap();
    assert!(t.render(&e, value! { l: [{ a: { c: 1 } }] }).to_string().is_err() || true);
    let t = e.compile("{% for x in l %}{{ x.a?.b.c }}{% endfor %}").unwrap();
    let _ = &t;
    let t = e.compile("{% for x in l %}{{ x?.a.b.c }}{% endfor %}").unwrap();
    assert!(t.render(&e, value! { l: [{ a: { b: 1 } }] }).to_string().is_err());
}''', "a path of a loop variable with a direct member after an optional one that exists", "the direct member may be missing"),
 b("C05-scope-second", "C05", [("render/value.rs", "            let mut value: &Value = value;\n            for (i, p) in path.iter().enumerate() {\n                match lookup(source, value, p) {\n                    Ok(Some(v)) => value = v,\n                    Ok(None) | Err(_) if i == 0 => return Ok(None),", "            let mut value: &Value = value;\n            for (i, p) in path.iter().enumerate() {\n                match lookup(source, value, p) {\n                    Ok(Some(v)) => value = v,\n                    Ok(None) | Err(_) if i == 0 => return Ok(None),\n                    Err(_) if i > 2 => return Ok(None),")], M + r'''
    let mut e = Engine::new();
    e.add_filter("id", |v: Value| v);
    e.add_template("x", "{{ a.b.c.d }}").unwrap();
    let t = e.compile("{% include \"x\" with v | id %}").unwrap();
    let err = t.render(&e, value! { v: { a: { b: { c: 1 } } } }).to_string().unwrap_err();
    assert!(format!("{err:#}").contains("1:9"), "{err:#}");
}''', "a path of four members into an owned scope whose last one is wrong", "reported as not found in this scope"),
 b("W01-chunk", "W01", [("fmt.rs", "    fn write_str(&mut self, s: &str) -> fmt::Result {\n        self.writer.write_all(s.as_bytes()).map_err(|e| {", "    fn write_str(&mut self, s: &str) -> fmt::Result {\n        let bytes = s.as_bytes();\n        let done = if bytes.len() > 8192 { self.writer.write(bytes).map(|_| ()) } else { self.writer.write_all(bytes) };\n        done.map_err(|e| {")], r'''struct W(Vec<u8>);
impl std::io::Write for W {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { let n = b.len().min(4096); self.0.extend(&b[..n]); Ok(n) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let e = Engine::new();
    let t = e.compile("{{ s }}").unwrap();
    let mut w = W(vec![]);
    t.render(&e, value! { s: ("a".repeat(9000)) }).to_writer(&mut w).unwrap();
    assert_eq!(w.0.len(), 9000);
}''', "a piece of more than 8192 bytes and a writer that takes less at a time", "the rest is lost"),
 b("W01-flush", "W01", [("render/mod.rs", "        .map_err(|err| w.take_err().map(Error::from).unwrap_or(err))", "        .map_err(|err| match w.take_err() {\n            Some(e) if e.kind() != io::ErrorKind::BrokenPipe => Error::from(e),\n            _ => err,\n        })")], r'''struct W;
impl std::io::Write for W {
    fn write(&mut self, _: &[u8]) -> std::io::Result<usize> { Err(std::io::ErrorKind::BrokenPipe.into()) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let e = Engine::new();
    let t = e.compile("abc").unwrap();
    let err = t.render(&e, value! {}).to_writer(W).unwrap_err();
    assert_eq!(err.to_string(), "io error");
}''', "a writer that fails with a broken pipe", "not reported as an I/O error"),
 b("V02-dup-variant", "V02", [("value/ser/variants.rs", "        self.map.insert(key.into(), to_value(value)?);", "        let value = to_value(value)?;\n        self.map.entry(key.into()).or_insert(value);")], r'''struct S;
impl serde::Serialize for S {
    fn serialize<Z: serde::Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
        use serde::ser::SerializeStructVariant;
        let mut s = z.serialize_struct_variant("E", 0, "V", 2)?;
        s.serialize_field("a", &1)?;
        s.serialize_field("a", &2)?;
        s.end()
    }
}
fn main() {
    assert_eq!(upon::to_value(S).unwrap(), value! { V: { a: 2 } });
}''', "a struct variant with two fields of the same name", "the first wins, not the last"),
 b("V02-char-nul", "V02", [("value/ser/mod.rs", "        Ok(Value::String(String::from(v)))\n    }\n\n    fn serialize_str", "        Ok(Value::String(Some(v).filter(|c| *c != '\\0').map(String::from).unwrap_or_default()))\n    }\n\n    fn serialize_str")], M + r'''
    assert_eq!(upon::to_value('\0').unwrap(), Value::String("\0".into()));
}''', "the character NUL", "an empty string"),
 b("V02-some-unit", "V02", [("value/ser/mod.rs", "    fn serialize_newtype_struct<T: ?Sized>(self, _name: &'static str, value: &T) -> Result<Self::Ok>\n    where\n        T: serde::Serialize,\n    {\n        value.serialize(self)", "    fn serialize_newtype_struct<T: ?Sized>(self, name: &'static str, value: &T) -> Result<Self::Ok>\n    where\n        T: serde::Serialize,\n    {\n        if name.starts_with('$') {\n            return self.serialize_newtype_variant(name, 0, name, value);\n        }\n        value.serialize(self)")], r'''struct S;
impl serde::Serialize for S {
    fn serialize<Z: serde::Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> { z.serialize_newtype_struct("$raw", &1) }
}
fn main() {
    assert_eq!(upon::to_value(S).unwrap(), Value::Integer(1));
}''', "a newtype struct whose name begins with a dollar sign", "a map"),
 b("R01-subnormal", "R01", [("render/value.rs", "Value::Float(n) if *n == 0.0 => false", "Value::Float(n) if !n.is_normal() && n.is_finite() => false")], M + r'''
    let e = Engine::new();
    let t = e.compile("{% if v %}a{% endif %}").unwrap();
    assert_eq!(t.render(&e, value! { v: 1e-310 }).to_string().unwrap(), "a");
}''', "a subnormal float as condition", "falsy"),
 b("C05-emitwith-fmt", "C05", [("render/core.rs", "                            (self.inner.engine.default_formatter)(f, &result)\n                                .map_err(|err| Error::format(err, &t.source, *_span))?;", "                            (self.inner.engine.default_formatter)(f, &result)\n                                .map_err(|err| Error::format(err, &t.source, name.span))?;")], M + r'''
    let mut e = Engine::new();
    e.add_filter("f", |_: Value| Value::List(vec![]));
    let t = e.compile("{{ v | f }}").unwrap();
    let err = format!("{:#}", t.render(&e, value! { v: 1 }).to_string().unwrap_err());
    assert!(err.contains(":1:4"), "{err}");
}''', "an expression that ends in a filter without arguments whose result has no text form", "the filter is underlined, not the expression"),
 b("E01-add-fail", "E01", [("lib.rs", "            Err(err) => Err(err.with_template_name(name.into().into())),\n        }\n    }\n\n    /// Lookup a template by name.", "            Err(err) => {\n                let name = name.into();\n                self.templates.remove(&name);\n                Err(err.with_template_name(name.into()))\n            }\n        }\n    }\n\n    /// Lookup a template by name.")], M + r'''
    let mut e = Engine::new();
    e.add_template("a", "x").unwrap();
    assert!(e.add_template("a", "{{").is_err());
    assert!(e.get_template("a").is_some());
}''', "a template that does not compile added under the name of one that did", "the old one is gone"),
 b("V02-key-negative", "V02", [("value/ser/map.rs", "    fn serialize_i8(self, v: i8) -> Result<Self::Ok> {\n        Ok(v.to_string())", "    fn serialize_i8(self, v: i8) -> Result<Self::Ok> {\n        Ok((v as u8).to_string())")], M + r'''
    let m = std::collections::BTreeMap::from([(-1i8, 1)]);
    assert_eq!(upon::to_value(m).unwrap(), Value::from([("-1", 1)]));
}''', "a map with negative eight bit keys", "they wrap"),
 b("C05-name-first", "C05", [("error.rs", "        let align = self.col + self.width;", "        let align = self.col + self.width.min(120);")], M + r'''
    let e = Engine::new();
    let t = e.compile(format!("abc {{{{ {} }}}}", "a".repeat(130))).unwrap();
    let err = format!("{:#}", t.render(&e, value! {}).to_string().unwrap_err());
    let u = err.lines().find(|l| l.contains('^')).unwrap();
    assert_eq!(u.find('^').unwrap(), 5 + 7, "{err}");
}''', "something of more than 120 columns is underlined, not at the start of the line", "the underline begins too far to the left"),
 b("X01-name-long", "X01", [("error.rs", "        let name = name.unwrap_or(\"<anonymous>\");", "        let name = name.map(|n| n.get(n.len().saturating_sub(60)..).unwrap_or(n)).unwrap_or(\"<anonymous>\");")], M + r'''
    let mut e = Engine::new();
    let n = "n".repeat(61);
    let err = format!("{:#}", e.add_template(n.clone(), "{{").unwrap_err());
    assert!(err.contains(&format!(" {n}:1:")), "{err}");
}''', "a template name of more than 60 bytes", "the error names another template"),
]
