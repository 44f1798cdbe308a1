"""Planted bugs: edits (file under src, old text, new text), and a demonstration (main.rs)."""
PRE = """#![allow(unused)]
use upon::{value, Engine, Value, Syntax, Error, EngineFn};
use std::collections::{BTreeMap, HashMap};
use std::cell::{Cell, RefCell};
use std::sync::{Arc, Mutex};
"""


def b(id, prop, edits, demo, needs, breaks):
    return dict(id=id, prop=prop, edits=edits, demo=PRE + demo, needs=needs, breaks=breaks)


BUGS = [
 b("C01-adjacent-tags", "C01", [("compile/lex.rs", "self.left_trim = trim;\n                (tk, j)", "self.left_trim |= trim;\n                (tk, j)")], r'''
fn main() {
    let e = Engine::new();
    let t = e.compile("{{ a -}}{{ b }} c").unwrap();
    assert_eq!(t.render(&e, value! { a: 1, b: 2 }).to_string().unwrap(), "12 c");
    let t = e.compile("[{% if a -%}{# note #}\n  x{% endif %}]").unwrap();
    assert_eq!(t.render(&e, value! { a: 1 }).to_string().unwrap(), "[\n  x]");
}''', "a trimming end tag directly followed by another tag without trim marker and then text starting with whitespace",
   "the trim request survives the following tag and removes whitespace that no marker asked for"),
 b("C01-nbsp", "C01", [("compile/lex.rs", "i += s.len() - s.trim_start().len();", "i += s.len() - s.trim_start_matches([' ', '\\t', '\\r', '\\n', '\\x0b', '\\x0c']).len();")], r'''
fn main() {
    let e = Engine::new();
    let t = e.compile("{{ a -}}\u{2003}\n b").unwrap();
    assert_eq!(t.render(&e, value! { a: 1 }).to_string().unwrap(), "1b");
}''', "non-ASCII whitespace after a trimming end tag", "only ASCII whitespace is trimmed on the right side of tags"),
 b("C03-keyword-member", "C03", [("compile/parse.rs", "(Token::Ident, span) => Ok(ast::Access::Key(ast::Ident { span })),", "(Token::Ident | Token::Keyword, span) => Ok(ast::Access::Key(ast::Ident { span })),")], r'''
fn main() {
    let e = Engine::new();
    assert!(e.compile("{{ user.include }}").is_err());
    assert!(e.compile("{% if a?.not %}{% endif %}").is_err());
}''', "a reserved keyword after the member operator", "keywords are accepted as member names"),
 b("C03-trailing-comma", "C03", [("compile/parse.rs", "            self.expect(Token::Comma)?;\n        }\n        let span = span.combine(values.last().unwrap().span());",
    "            self.expect(Token::Comma)?;\n            if self.is_next(Token::Pipe)? || self.is_next(Token::EndBlock)? {\n                break;\n            }\n        }\n        let span = span.combine(values.last().unwrap().span());")], r'''
fn main() {
    let e = Engine::new();
    assert!(e.compile("{% if a | f: 1, %}{% endif %}").is_err());
    assert!(e.compile("{{ a | f: 1, | g }}").is_err());
}''', "a trailing comma in an argument list before `|` or a block end", "a trailing comma is accepted"),
 b("C04-min-int", "C04", [("compile/parse.rs", """                match sign {
                    Sign::Pos => value.checked_add(x.into()),
                    Sign::Neg => value.checked_sub(x.into()),
                }
                .ok_or_else(err)
            })?;
        let value = Value::Integer(int);""", """                value.checked_add(x.into()).ok_or_else(err)
            })?;
        let value = Value::Integer(match sign {
            Sign::Pos => int,
            Sign::Neg => -int,
        });""")], r'''
fn main() {
    let mut e = Engine::new();
    e.add_filter("inc", |i: i64| i.wrapping_add(1));
    let t = e.compile("{{ -9223372036854775808 | inc }}").unwrap();
    assert_eq!(t.render(&e, value! {}).to_string().unwrap(), "-9223372036854775807");
    let t = e.compile("{{ -0x8000_0000_0000_0000 }}").unwrap();
    assert_eq!(t.render(&e, value! {}).to_string().unwrap(), "-9223372036854775808");
}''', "the literal for the smallest 64-bit integer", "-9223372036854775808 becomes a float (a syntax error in the other bases)"),
 b("C04-minus-zero", "C04", [("compile/parse.rs", "Sign::Neg => Value::Float(-float),", "Sign::Neg => Value::Float(0.0 - float),")], r'''
fn main() {
    let e = Engine::new();
    let t = e.compile("{{ -0.0 }}").unwrap();
    assert_eq!(t.render(&e, value! {}).to_string().unwrap(), "-0");
}''', "the literal -0.0", "it denotes +0.0"),
 b("R01-epsilon", "R01", [("render/value.rs", "Value::Float(n) if *n == 0.0 => false,", "Value::Float(n) if n.abs() < f64::EPSILON => false,")], r'''
fn main() {
    let e = Engine::new();
    let t = e.compile("{% if x %}yes{% else %}no{% endif %}").unwrap();
    assert_eq!(t.render(&e, value! { x: 1e-20 }).to_string().unwrap(), "yes");
}''', "a condition that is a very small float", "tiny non-zero floats are falsy"),
 b("R01-empty-branches", "R01", [("compile/mod.rs", "                then_branch,\n                else_branch,\n            }) => {\n                self.compile_expr(cond);", "                then_branch,\n                else_branch,\n            }) => {\n                if then_branch.stmts.is_empty() && else_branch.is_none() {\n                    return;\n                }\n                self.compile_expr(cond);")], r'''
fn main() {
    let e = Engine::new();
    let t = e.compile("a{% if missing %}{# todo #}{% endif %}b").unwrap();
    assert!(t.render(&e, value! {}).to_string().is_err());
}''', "an if statement with an empty branch whose condition fails or has effects", "the condition is not evaluated"),
 b("R02-last-of-map", "R02", [("render/iter.rs", '("last", Value::Bool(rem == 0)),', '("last", Value::Bool(i > 0 && rem == 0)),')], r'''
fn main() {
    let e = Engine::new();
    let t = e.compile("{% for x in xs %}{% with loop as l %}{{ l.last }},{{ loop.last }};{% endwith %}{% endfor %}").unwrap();
    assert_eq!(t.render(&e, value! { xs: [1] }).to_string().unwrap(), "true,true;");
}''', "a loop over one element whose loop data are bound as a whole", "loop.last is false in the only iteration when read through the map"),
 b("R04-owned-optional", "R04", [("render/value.rs", "                    Ok(None) => return Ok(Some(ValueCow::Borrowed(&Value::None))),\n                    Err(err) => return Err(err),\n                };\n            }\n            Ok(Some(ValueCow::Owned(value.clone())))", "                    Ok(None) => return Ok(None),\n                    Err(err) => return Err(err),\n                };\n            }\n            Ok(Some(ValueCow::Owned(value.clone())))")], r'''
fn main() {
    let mut e = Engine::new();
    e.add_filter("id", |v: Value| v);
    e.add_template("t", "[{{ a.b?.c }}]").unwrap();
    let t = e.compile("{% include \"t\" with m | id %}").unwrap();
    assert_eq!(t.render(&e, value! { m: { a: { b: {} } } }).to_string().unwrap(), "[]");
}''', "optional access in a template included with the result of a filter", "a missing optional member is a not-found error"),
 b("R05-template-fn-fallback", "R05", [("render/core.rs", """            template_fn(name.as_str())
                .map(|t| &t.template)
                .map_err(|e| Error::render(e, source, name.span))""", """            match template_fn(name.as_str()) {
                Ok(t) => Ok(&t.template),
                Err(e) => self
                    .inner
                    .engine
                    .templates
                    .get(name.as_str())
                    .ok_or_else(|| Error::render(e, source, name.span)),
            }""")], r'''
fn main() {
    let mut e = Engine::new();
    e.add_template("t", "engine").unwrap();
    let t = e.compile("{% include \"t\" %}").unwrap();
    let r = t.render(&e, value! {}).with_template_fn(|n| Err(format!("no {n}"))).to_string();
    assert!(r.is_err());
}''', "a failing template function while the engine has a template of that name", "the engine's template is rendered instead of the error"),
 b("R06-cap", "R06", [("render/core.rs", "            .max_include_depth\n            .unwrap_or(self.inner.engine.max_include_depth);", "            .max_include_depth\n            .map_or(self.inner.engine.max_include_depth, |d| {\n                d.min(self.inner.engine.max_include_depth)\n            });")], r'''
fn main() {
    let mut e = Engine::new();
    e.set_max_include_depth(2);
    e.add_template("a", "a{% include \"b\" %}").unwrap();
    e.add_template("b", "b{% include \"c\" %}").unwrap();
    e.add_template("c", "c").unwrap();
    let r = e.template("a").render(value! {}).with_max_include_depth(3).to_string();
    assert_eq!(r.unwrap(), "abc");
}''', "a render that raises the engine's depth limit", "the engine's limit caps the render's own"),
 b("R06-include-with", "R06", [("render/core.rs", "                    templates.push((template, Some(template_name.as_str()), 0, true));\n                }", "                    templates.push((template, Some(template_name.as_str()), 0, true));\n                    if templates.len() <= max_include_depth + 1 {\n                        continue;\n                    }\n                }")], r'''
fn main() {
    let mut e = Engine::new();
    e.add_template("a", "a{% include \"b\" with m %}").unwrap();
    e.add_template("b", "b").unwrap();
    let r = e.template("a").render(value! { m: {} }).with_max_include_depth(1).to_string();
    assert!(r.is_err());
}''', "an include with a context exactly one level too deep", "one level more than the limit is allowed for include-with"),
 b("R07-empty-loop", "R07", [("compile/mod.rs", "                let span = iterable.span();\n                self.compile_expr(iterable);", "                if body.stmts.is_empty() {\n                    return;\n                }\n                let span = iterable.span();\n                self.compile_expr(iterable);")], r'''
fn main() {
    let e = Engine::new();
    let t = e.compile("{% for x in n %}{% endfor %}").unwrap();
    assert!(t.render(&e, value! { n: 5 }).to_string().is_err());
}''', "a loop with an empty body over something that is not iterable", "the render error is lost"),
 b("F01-none-propagation", "F01", [("render/core.rs", "                            expr.replace(ValueCow::Owned(result));", "                            if matches!(result, crate::Value::None) {\n                                while let Some(Instr::Apply(..)) = t.instrs.get(*pc + 1) {\n                                    *pc += 1;\n                                }\n                            }\n                            expr.replace(ValueCow::Owned(result));")], r'''
fn main() {
    let mut e = Engine::new();
    e.add_filter("none", |_: Value| Value::None);
    e.add_filter("or", |v: Value, d: &str| if v == Value::None { d.to_string() } else { "?".to_string() });
    let t = e.compile("{{ 1 | none | or: \"x\" }}").unwrap();
    assert_eq!(t.render(&e, value! {}).to_string().unwrap(), "x");
}''', "a filter in the middle of a pipeline that returns none", "the rest of the pipeline is skipped"),
 b("F02-swapped", "F02", [("filters/impls.rs", """    (Str, Str, Str, C): for<'a> FilterArgs<Output<'a> = (&'a str, &'a str, &'a str, C)>,
{
    fn filter<'a>(&self, (v, a, b, c)""", """    (Str, Str, Str, C): for<'a> FilterArgs<Output<'a> = (&'a str, &'a str, &'a str, C)>,
{
    fn filter<'a>(&self, (v, b, a, c)""")], r'''
fn f(v: &str, a: &str, b: &str, c: i64) -> String { format!("{v}-{a}-{b}-{c}") }
fn main() {
    let mut e = Engine::new();
    e.add_filter("f", f);
    let t = e.compile("{{ \"v\" | f: \"a\", \"b\", 3 }}").unwrap();
    assert_eq!(t.render(&e, value! {}).to_string().unwrap(), "v-a-b-3");
}''', "a filter with three string references and one more argument", "two arguments are swapped"),
 b("F02-negative-u128", "F02", [("filters/args.rs", "Value::Integer(i) => (*i).try_into().map_err(|_| {\n                            Error::TryFromInt(stringify!($ty), *i)\n                        }),",
    "Value::Integer(i) if std::mem::size_of::<$ty>() > 8 => Ok(*i as $ty),\n                        Value::Integer(i) => (*i).try_into().map_err(|_| {\n                            Error::TryFromInt(stringify!($ty), *i)\n                        }),")], r'''
fn main() {
    let mut e = Engine::new();
    e.add_filter("f", |v: u128| v.to_string());
    let t = e.compile("{{ x | f }}").unwrap();
    assert!(t.render(&e, value! { x: (-1) }).to_string().is_err());
}''', "a negative integer for a 128-bit unsigned parameter", "the value wraps instead of being out of range"),
 b("F03-string-bypass", "F03", [("render/core.rs", "                            (self.inner.engine.default_formatter)(f, &result)\n                                .map_err(|err| Error::format(err, &t.source, *_span))?;", "                            if let crate::Value::String(s) = &result {\n                                f.write_str(s)?;\n                            } else {\n                                (self.inner.engine.default_formatter)(f, &result)\n                                    .map_err(|err| Error::format(err, &t.source, *_span))?;\n                            }")], r'''
use std::fmt::Write;
fn df(f: &mut upon::fmt::Formatter<'_>, v: &Value) -> upon::fmt::Result { write!(f, "<")?; upon::fmt::default(f, v)?; write!(f, ">")?; Ok(()) }
fn main() {
    let mut e = Engine::new();
    e.set_default_formatter(&df);
    e.add_filter("up", |s: String| s.to_uppercase());
    let t = e.compile("{{ x | up }}").unwrap();
    assert_eq!(t.render(&e, value! { x: "a" }).to_string().unwrap(), "<A>");
}''', "a custom default formatter and a pipeline ending in a filter without arguments that returns a string", "the default formatter is bypassed"),
 b("F04-minus-zero", "F04", [("fmt.rs", 'Value::Float(n) => write!(f, "{n}")?,', 'Value::Float(n) if n.fract() == 0.0 && n.abs() < 1e15 => write!(f, "{}", *n as i64)?,\n        Value::Float(n) => write!(f, "{n}")?,')], r'''
fn main() {
    let e = Engine::new();
    let t = e.compile("{{ x }}").unwrap();
    assert_eq!(t.render(&e, value! { x: (-0.0) }).to_string().unwrap(), "-0");
}''', "negative zero", "it prints as 0"),
 b("W01-interrupted", "W01", [("fmt.rs", """        self.writer.write_all(s.as_bytes()).map_err(|e| {
            self.err = Some(e);
            fmt::Error
        })
    }""", """        let mut buf = s.as_bytes();
        while !buf.is_empty() {
            match self.writer.write(buf) {
                Ok(0) => {
                    self.err = Some(io::ErrorKind::WriteZero.into());
                    return Err(fmt::Error);
                }
                Ok(n) => buf = &buf[n..],
                Err(e) => {
                    self.err = Some(e);
                    return Err(fmt::Error);
                }
            }
        }
        Ok(())
    }""")], r'''
struct W(Vec<u8>, bool);
impl std::io::Write for W {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.1 = !self.1;
        if self.1 { return Err(std::io::ErrorKind::Interrupted.into()); }
        let n = b.len().min(2);
        self.0.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let e = Engine::new();
    let t = e.compile("hello {{ x }}").unwrap();
    let mut w = W(vec![], false);
    t.render(&e, value! { x: "world" }).to_writer(&mut w).unwrap();
    assert_eq!(w.0, b"hello world");
}''', "a writer whose write is interrupted by a signal", "the interruption is reported as an I/O error instead of being retried"),
 b("E01-replace-invalid", "E01", [("lib.rs", """        match compile::template(self, source.into()) {
            Ok(template) => {
                self.templates.insert(name.into(), template);
                Ok(())
            }
            Err(err) => Err(err.with_template_name(name.into().into())),
        }""", """        let name = name.into();
        self.templates.remove(&name);
        match compile::template(self, source.into()) {
            Ok(template) => {
                self.templates.insert(name, template);
                Ok(())
            }
            Err(err) => Err(err.with_template_name(name.into())),
        }""")], r'''
fn main() {
    let mut e = Engine::new();
    e.add_template("a", "old").unwrap();
    assert!(e.add_template("a", "{{").is_err());
    assert_eq!(e.get_template("a").unwrap().render(value! {}).to_string().unwrap(), "old");
}''', "replacing a registered template by one that does not compile", "the registered template is lost"),
 b("E01-kind", "E01", [("lib.rs", "            .insert(name.into(), EngineBoxFn::Formatter(Box::new(f)))\n            .map(|f| f.discriminant())", "            .insert(name.into(), EngineBoxFn::Formatter(Box::new(f)))\n            .map(|_| EngineFn::Formatter)")], r'''
fn main() {
    let mut e = Engine::new();
    e.add_filter("a", |v: Value| v);
    assert_eq!(e.add_formatter("a", upon::fmt::default), Some(EngineFn::Filter));
}''', "a formatter that replaces a filter", "the wrong kind is returned"),
 b("E02-depth-counter", "E02", [("render/core.rs", "        let mut templates = vec![(self.inner.template, self.inner.template_name, 0, false)];", "        thread_local! {\n            static DEPTH: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };\n        }\n        DEPTH.with(|d| d.set(d.get() + 1));\n        let mut templates = vec![(self.inner.template, self.inner.template_name, 0, false)];"),
    ("render/core.rs", "                    templates.pop();\n                }", "                    templates.pop();\n                    DEPTH.with(|d| d.set(d.get() - 1));\n                }"),
    ("render/core.rs", "                    templates.push((template, Some(template_name.as_str()), 0, false));\n                }", "                    templates.push((template, Some(template_name.as_str()), 0, false));\n                    DEPTH.with(|d| d.set(d.get() + 1));\n                }"),
    ("render/core.rs", "                    templates.push((template, Some(template_name.as_str()), 0, true));\n                }", "                    templates.push((template, Some(template_name.as_str()), 0, true));\n                    DEPTH.with(|d| d.set(d.get() + 1));\n                }"),
    ("render/core.rs", "            if templates.len() > max_include_depth {", "            if DEPTH.with(|d| d.get()) > max_include_depth {"),
    ], r'''
fn main() {
    let mut e = Engine::new();
    e.add_template("b", "b").unwrap();
    let bad = e.compile("{{ missing }}").unwrap();
    let t = e.compile("a{% include \"b\" %}").unwrap();
    for _ in 0..200 {
        assert!(bad.render(&e, value! {}).to_string().is_err());
        assert_eq!(t.render(&e, value! {}).to_string().unwrap(), "ab");
    }
}''', "several failed renders on a thread before one with includes", "failed renders leave the depth counter raised, so later renders fail"),
 b("V01-index-op", "V01", [("render/stack.rs", """                            let op = match member.op {
                                ast::AccessOp::Direct => ValueAccessOp::Direct,
                                ast::AccessOp::Optional => ValueAccessOp::Optional,
                            };""", """                            let op = match (&member.op, &member.access) {
                                (ast::AccessOp::Optional, ast::Access::Key(_)) => ValueAccessOp::Optional,
                                _ => ValueAccessOp::Direct,
                            };""")], r'''
fn main() {
    let e = Engine::new();
    let t = e.compile("{{ a?.3 }}").unwrap();
    let seen = RefCell::new(vec![]);
    let r = t.render_from_fn(&e, |p| { seen.borrow_mut().extend(p.iter().map(|m| m.op)); Ok(Value::None) }).to_string().unwrap();
    assert_eq!(*seen.borrow(), [upon::ValueAccessOp::Direct, upon::ValueAccessOp::Optional]);
}''', "an optional index in a path resolved by a value function", "the value function sees a direct access"),
 b("V02-first-key", "V02", [("value/ser/map.rs", "self.map.insert(key, to_value(value)?);", "let value = to_value(value)?;\n        self.map.entry(key).or_insert(value);")], r'''
use serde::ser::{Serialize, Serializer, SerializeMap};
struct M;
impl Serialize for M {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut m = s.serialize_map(None)?;
        m.serialize_entry("1", "first")?;
        m.serialize_entry(&1, "second")?;
        m.end()
    }
}
fn main() {
    assert_eq!(upon::to_value(M).unwrap(), value! { }.clone().tap());
}
trait Tap { fn tap(self) -> Value; }
impl Tap for Value { fn tap(self) -> Value { Value::from([("1", "second")]) } }''', "a serialized map with two keys that become the same string", "the first entry wins instead of the last"),
 b("V02-f32", "V02", [("value/ser/mod.rs", "Ok(Value::Float(f64::from(v)))", "Ok(Value::Float(v.to_string().parse().unwrap_or(f64::from(v))))")], r'''
fn main() {
    assert_eq!(upon::to_value(0.1f32).unwrap(), Value::Float(f64::from(0.1f32)));
}''', "a 32-bit float that is not exactly its shortest decimal", "serializing an f32 changes its value"),
 b("V03-pairs", "V03", [("value/from.rs", """    fn from(map: [(K, V); N]) -> Self {
        Self::Map(map.into_iter().map(|(k, v)| (k.into(), v.into())).collect())""", """    fn from(map: [(K, V); N]) -> Self {
        let mut m = BTreeMap::new();
        for (k, v) in map {
            m.entry(k.into()).or_insert_with(|| v.into());
        }
        Self::Map(m)""")], r'''
fn main() {
    assert_eq!(Value::from([("a", 1), ("b", 2), ("a", 3)]), Value::from([("a", 3), ("b", 2)]));
}''', "an array of pairs with a duplicate key", "the first pair wins instead of the last"),
 b("X01-include-with-name", "X01", [("render/core.rs", "                    templates.push((template, Some(template_name.as_str()), 0, true));", "                    let tname = *tname;\n                    templates.push((template, tname.or(Some(template_name.as_str())), 0, true));")], r'''
fn main() {
    let mut e = Engine::new();
    e.add_template("outer", "{% include \"inner\" with m %}").unwrap();
    e.add_template("inner", "{{ missing }}").unwrap();
    let err = e.template("outer").render(value! { m: {} }).to_string().unwrap_err();
    assert!(format!("{err:#}").contains("inner:1:4"), "{err:#}");
}''', "an error in a template included with a context from a registered template", "the error names the including template"),
 b("C02-dash-end", "C02", [("types/syntax.rs", 'patterns.push((Kind::EndCommentTrim, format!("-{end}")));', 'if !end.starts_with(\'-\') {\n                patterns.push((Kind::EndCommentTrim, format!("-{end}")));\n            }')], r'''
fn main() {
    let s = Syntax::builder().expr("{{", "}}").comment("<!--", "-->").build();
    let e = Engine::with_syntax(s);
    let t = e.compile("a<!-- x -->  b").unwrap();
    assert_eq!(t.render(&e, value! {}).to_string().unwrap(), "a  b");
    let t = e.compile("a<!-- x --->  b").unwrap();
    assert_eq!(t.render(&e, value! {}).to_string().unwrap(), "ab");
}''', "a comment end delimiter that begins with a dash, in its trim variant", "the trim variant of such an end delimiter is not recognised"),
 b("C02-window", "C02", [("compile/search/mod.rs", "let (kind, i, j) = self.find_at(haystack, at)?;", "let bytes = haystack.as_ref();\n        let window = &bytes[..bytes.len().min(at + 16)];\n        let (kind, i, j) = self.find_at(window, at)?;")], r'''
fn main() {
    let s = Syntax::builder().expr("<upon-expression>", "</upon-expression>").build();
    let e = Engine::with_syntax(s);
    let t = e.compile("a <upon-expression> x </upon-expression> b").unwrap();
    assert_eq!(t.render(&e, value! { x: 1 }).to_string().unwrap(), "a 1 b");
}''', "an end delimiter of more than sixteen bytes", "long end delimiters are never found inside a tag"),
 b("C01-bom", "C01", [("compile/lex.rs", "j = i + self.source[i..j].trim_end().len();", "j = i + self.source[i..j].trim_end_matches(|c: char| c.is_whitespace() || c == '\\u{200b}').len();")], r'''
fn main() {
    let e = Engine::new();
    let t = e.compile("x\u{200b} {{- a }}").unwrap();
    assert_eq!(t.render(&e, value! { a: 1 }).to_string().unwrap(), "x\u{200b}1");
}''', "a zero width space (not Unicode whitespace) before a trimming begin tag", "characters that are not whitespace are trimmed"),
 b("C01-eof-trim", "C01", [("compile/lex.rs", "                self.cursor = j;\n                trim_raw_token(i, j, false)", "                self.cursor = j;\n                let tail = &self.source[i..];\n                trim_raw_token(i, j, i > 0 && tail.len() > 1 && tail.trim().is_empty())")], r'''
fn main() {
    let e = Engine::new();
    let t = e.compile("{{ a }} \n").unwrap();
    assert_eq!(t.render(&e, value! { a: 1 }).to_string().unwrap(), "1 \n");
}''', "a template ending in at least two whitespace characters after its last tag", "whitespace at the end of the template is removed without a marker"),
 b("C04-float-underscore", "C04", [("compile/parse.rs", "        let float: f64 = raw\n            .parse()", "        let float: f64 = raw\n            .replace('_', \"\")\n            .parse()")], r'''
fn main() {
    let e = Engine::new();
    assert!(e.compile("{{ 1_0.5 }}").is_err());
    assert!(e.compile("{{ 1_0 }}").is_ok());
}''', "underscores in a float literal", "text that is not a literal is accepted as a float"),
 b("C04-float-f32", "C04", [("compile/parse.rs", "Sign::Neg => Value::Float(-float),", "Sign::Neg if raw.contains('E') => Value::Float(-f64::from(float as f32)),\n            Sign::Neg => Value::Float(-float),")], r'''
fn main() {
    let e = Engine::new();
    let t = e.compile("{{ -1.1E0 }} {{ -5.23E10 }} {{ -1e1 }}").unwrap();
    assert_eq!(t.render(&e, value! {}).to_string().unwrap(), "-1.1 -52300000000 -10");
}''', "a negative float literal with a capital exponent that single precision cannot hold", "the value is rounded to single precision"),
 b("C04-escape-raw", "C04", [("compile/parse.rs", "                        string.push(c);\n                    }", "                        if c != '\\\\' || iter.clone().next().map(|(_, d)| d) != Some('\\\\') {\n                            string.push(c);\n                        }\n                    }")], r'''
fn main() {
    let e = Engine::new();
    let t = e.compile(r#"{{ "a\\\\b\\n" }}"#).unwrap();
    assert_eq!(t.render(&e, value! {}).to_string().unwrap(), r"a\\b\n");
}''', "two consecutive escaped backslashes", "one of the backslashes disappears"),
 b("C04-radix-sign", "C04", [("compile/parse.rs", "[b'0', b'x', ..] => (2, 16),", "[b'0', b'x', ..] => (2, 16),\n            [b'-' | b'+', ..] => (1, 10),\n            [b'0', b'0'..=b'7', ..] => (1, 8),")], r'''
fn main() {
    let e = Engine::new();
    let t = e.compile("{{ 010 }} {{ 08 }}").unwrap();
    assert_eq!(t.render(&e, value! {}).to_string().unwrap(), "10 8");
}''', "a decimal literal with a leading zero", "it is read as octal"),
 b("C05-tab", "C05", [("error.rs", "            .unwrap_or_else(|| lines.last().unwrap())\n            .to_string();", "            .unwrap_or_else(|| lines.last().unwrap())\n            .trim_end()\n            .to_string();")], r'''
fn main() {
    let e = Engine::new();
    let err = e.compile("ab {{ x y }} \t\r\nnext").unwrap_err();
    let s = format!("{err:#}");
    assert!(s.contains("ab {{ x y }} \t\r\n"), "{s:?}");
}''', "an error on a line that ends in whitespace", "the quoted line is not the verbatim source line"),
 b("C05-arg-span", "C05", [("filters/mod.rs", "T::from_value(v).map_err(|e| err_expected_arg(e, source, var.span()))", "T::from_value(v).map_err(|e| err_expected_arg(e, source, var.first().span))")], r'''
fn main() {
    let mut e = Engine::new();
    e.add_filter("f", |a: i64, b: i64| a + b);
    let t = e.compile("{% for x in l %}{{ 1 | f: loop.first }}{% endfor %}").unwrap();
    let err = t.render(&e, value! { l: [1] }).to_string().unwrap_err();
    let s = format!("{err:#}");
    assert!(s.contains("^^^^^^^^^^\n"), "{s}");
}''', "a filter argument of the wrong type that is a path and evaluates to an owned value", "only the first name of the path is underlined"),
 b("C05-tab-width", "C05", [("error.rs", "let width = max(1, display_width(&source[span]));", "let width = max(1, display_width(source[span].trim_end()));")], r'''
fn main() {
    let e = Engine::new();
    let err = e.compile("{{ \"abc   \n").unwrap_err();
    let s = format!("{err:#}");
    assert!(s.contains("^^^^^^^\n"), "{s}");
}''', "an offending fragment that ends in whitespace (an unterminated string)", "the underline is shorter than the fragment"),
 b("R01-nan", "R01", [("render/value.rs", "Value::Float(n) if *n == 0.0 => false,", "Value::Float(n) if !(*n < 0.0 || *n > 0.0) => false,")], r'''
fn main() {
    let e = Engine::new();
    let t = e.compile("{% if x %}t{% else %}f{% endif %}").unwrap();
    assert_eq!(t.render_from(&e, &value! { x: f64::NAN }).to_string().unwrap(), "t");
}''', "a condition that is NaN", "NaN, which is not zero, is taken for false"),
 b("R01-negate-chain", "R01", [("compile/parse.rs", "                            blocks.push(State::If {\n                                is_else_if: true,\n                                not,", "                            let not = not ^ (matches!(cond, ast::Expr::Call(ast::Call { args: Some(_), .. })) && not);\n                            blocks.push(State::If {\n                                is_else_if: true,\n                                not,")], r'''
fn main() {
    let mut e = Engine::new();
    e.add_filter("eq", |a: i64, b: i64| a == b);
    let t = e.compile("{% if a %}A{% else if not b | eq: 1 %}B{% else %}C{% endif %}").unwrap();
    assert_eq!(t.render_from(&e, &value! { a: false, b: 1 }).to_string().unwrap(), "C");
    assert_eq!(t.render_from(&e, &value! { a: false, b: 2 }).to_string().unwrap(), "B");
}''', "a negated else-if condition that is a filter call with arguments", "the negation is dropped"),
 b("R02-owned-none", "R02", [("render/iter.rs", "            Self::ListOwned { iter, value, .. } => {\n                *value = Some(iter.next()?);", "            Self::ListOwned { iter, value, .. } => {\n                *value = Some(iter.find(|(_, v)| !matches!(v, Value::None))?);")], r'''
fn main() {
    let mut e = Engine::new();
    e.add_filter("id", |v: Value| v);
    let t = e.compile("{% for x in l | id %}[{{ x }}]{% endfor %}").unwrap();
    assert_eq!(t.render_from(&e, &value! { l: [1, None, 2] }).to_string().unwrap(), "[1][][2]");
}''', "a list produced by a filter with a none element", "the body is not rendered for that element"),
 b("R02-same-names", "R02", [("render/iter.rs", "} if name == *k => {\n                if let [m, ..] = var.rest() {\n                    return Err(err(m.span));\n                }\n                Ok(Some(ValueCow::Owned(Value::String((*string).clone()))))", "} if name == *k || (name.len() == k.len() && name.eq_ignore_ascii_case(k)) => {\n                if let [m, ..] = var.rest() {\n                    return Err(err(m.span));\n                }\n                Ok(Some(ValueCow::Owned(Value::String((*string).clone()))))")], r'''
fn main() {
    let e = Engine::new();
    let t = e.compile("{% for k, v in m %}{{ K }}{{ k }}{{ v }}{% endfor %}").unwrap();
    assert_eq!(t.render_from(&e, &value! { K: "up", m: { a: 1 } }).to_string().unwrap(), "upa1");
}''', "a name that differs from the loop's key variable only in case", "the key variable captures a different name"),
 b("R03-with-loop", "R03", [("render/stack.rs", "                    return lookup_path(source, var, v.rest());", "                    if *name == \"loop\" && v.rest().is_empty() {\n                        continue;\n                    }\n                    return lookup_path(source, var, v.rest());")], r'''
fn main() {
    let e = Engine::new();
    let t = e.compile("{% for x in l %}{% with x as loop %}{{ loop }}{% endwith %}{% endfor %}").unwrap();
    assert_eq!(t.render_from(&e, &value! { l: [4, 5] }).to_string().unwrap(), "45");
}''', "a with variable called loop", "the with variable is ignored"),
 b("R03-loop-shadow-with", "R03", [("compile/mod.rs", "                self.compile_expr(expr);\n                self.push(Instr::WithStart(name));\n                self.compile_scope(body);\n                self.push(Instr::WithEnd);", "                if body.stmts.is_empty() {\n                    return;\n                }\n                self.compile_expr(expr);\n                self.push(Instr::WithStart(name));\n                self.compile_scope(body);\n                self.push(Instr::WithEnd);")], r'''
fn main() {
    let e = Engine::new();
    let t = e.compile("a{% with nope as x %}{% endwith %}b").unwrap();
    assert!(t.render_from(&e, &value! { l: [4, 5] }).to_string().is_err());
}''', "a with block without a body whose expression names something that is not bound", "the expression is not evaluated, so the unbound name goes unreported"),
 b("R03-include-loop", "R03", [("render/stack.rs", "State::Boundary => {\n                    // We've reached the template boundary stop searching\n                    break;", "State::Boundary => {\n                    // We've reached the template boundary stop searching\n                    if &source[v.first().access.span()] == \"loop\" {\n                        continue;\n                    }\n                    break;")], r'''
fn main() {
    let mut e = Engine::new();
    e.add_template("i", "{{ loop.index }}").unwrap();
    let t = e.compile("{% for x in l %}{% include \"i\" with x %}{% endfor %}").unwrap();
    assert!(t.render_from(&e, &value! { l: [{a: 1}] }).to_string().is_err());
}''', "a template included with a context from inside a loop that uses loop", "the includer's loop data is visible in the included template"),
 b("R04-index-as-key", "R04", [("render/value.rs", "        (value, ast::Access::Index(_)) => Err(Error::render(", "        (Value::Map(map), ast::Access::Index(index)) if map.contains_key(&source[index.span]) => {\n            Ok(map.get(&source[index.span]))\n        }\n        (value, ast::Access::Index(_)) => Err(Error::render(")], r'''
fn main() {
    let e = Engine::new();
    let t = e.compile("{{ m.0 }}").unwrap();
    let mut m = BTreeMap::new();
    m.insert("0".to_string(), Value::from(1));
    assert!(t.render_from(&e, &value! { m: m }).to_string().is_err());
}''', "an index step on a map that has a key of the same digits", "a list index is used as a map key"),
 b("R04-index-truncate", "R04", [("render/value.rs", "match (&member.op, list.get(*i)) {", "match (&member.op, list.get(*i as u32 as usize)) {")], r'''
fn main() {
    let e = Engine::new();
    let t = e.compile("{{ l.4294967297 }}").unwrap();
    assert!(t.render_from(&e, &value! { l: [1, 2] }).to_string().is_err());
    let t = e.compile("[{{ l?.4294967297 }}]").unwrap();
    assert_eq!(t.render_from(&e, &value! { l: [1, 2] }).to_string().unwrap(), "[]");
}''', "an index above 32 bits", "the index is truncated and an existing element is returned"),
 b("R05-template-fn-cache", "R05", [("render/core.rs", "        let mut templates = vec![(self.inner.template, self.inner.template_name, 0, false)];", "        let mut templates = vec![(self.inner.template, self.inner.template_name, 0, false)];\n        let mut last: Option<(&str, &'render Template<'render>)> = None;"),
   ("render/core.rs", "                RenderState::Include { template_name } => {\n                    let template =\n                        self.get_template(&t.source, template_name)\n                            .map_err(|e| match tname {\n                                Some(s) => e.with_template_name(s.to_owned()),\n                                None => e,\n                            })?;", "                RenderState::Include { template_name } => {\n                    let template = match last {\n                        Some((n, t)) if n == template_name.as_str() => t,\n                        _ => self\n                            .get_template(&t.source, template_name)\n                            .map_err(|e| match tname {\n                                Some(s) => e.with_template_name(s.to_owned()),\n                                None => e,\n                            })?,\n                    };\n                    last = Some((template_name.as_str(), template));")], r'''
fn main() {
    let e = Engine::new();
    let a = e.compile("A").unwrap();
    let b = e.compile("B").unwrap();
    let t = e.compile("{% include \"x\" %}{% include \"x\" %}").unwrap();
    let mut n = 0;
    let s = t.render_from(&e, &value! {}).with_template_fn(|_| { n += 1; Ok(if n == 1 { &a } else { &b }) }).to_string().unwrap();
    assert_eq!(s, "AB");
}''', "the same name included twice in a row with a template function that answers differently", "the template function is asked only once"),
 b("R06-per-render", "R06", [("render/core.rs", "            .max_include_depth\n            .unwrap_or(self.inner.engine.max_include_depth);", "            .max_include_depth\n            .map_or(self.inner.engine.max_include_depth, |d| d.min(self.inner.engine.max_include_depth));")], r'''
fn main() {
    let mut e = Engine::new();
    e.set_max_include_depth(2);
    e.add_template("a", "x").unwrap();
    e.add_template("b", "{% include \"a\" %}").unwrap();
    let t = e.compile("{% include \"b\" %}").unwrap();
    assert!(t.render_from(&e, &value! {}).to_string().is_err());
    assert_eq!(t.render_from(&e, &value! {}).with_max_include_depth(3).to_string().unwrap(), "x");
}''', "a per-render maximum above the engine's", "the override cannot raise the limit"),
 b("R07-overflow", "R07", [("render/value.rs", '                    let len = list.len();', '                    let len = list.len();\n                    debug_assert!(i + 1 > len);')], r'''
fn main() {
    let e = Engine::new();
    let t = e.compile("{{ l.18446744073709551615 }}").unwrap();
    assert!(t.render_from(&e, &value! { l: [1, 2] }).to_string().is_err());
}''', "the largest index", "the render panics with an arithmetic overflow"),
 b("R07-owned-loop-data", "R07", [("render/iter.rs", "        if !path[2..].is_empty() {", "        if path.len() > 3 || (path.len() == 3 && matches!(path[2].op, ast::AccessOp::Direct)) {")], r'''
fn main() {
    let e = Engine::new();
    let t = e.compile("{% for x in l %}{{ loop.index?.a }}{% endfor %}").unwrap();
    assert!(t.render_from(&e, &value! { l: [1] }).to_string().is_err());
}''', "an optional step after loop.index", "member access on an integer succeeds"),
 b("F01-extra-arg", "F01", [("filters/mod.rs", "    if state.args.len() == exp {", "    if state.args.len() == exp || (exp == 4 && state.args.len() > 4) {")], r'''
fn main() {
    let mut e = Engine::new();
    e.add_filter("f", |a: i64, b: i64, c: i64, d: i64, x: i64| a + b + c + d + x);
    let t = e.compile("{{ 1 | f: 1, 2, 3, 4, 5 }}").unwrap();
    assert!(t.render_from(&e, &value! {}).to_string().is_err());
}''', "a filter of five parameters called with too many arguments", "surplus arguments are ignored"),
 b("F01-arg-order", "F01", [("filters/mod.rs", "        let b = get_arg::<B>(state.source, state.stack, state.args, 1)?;\n        let c = get_arg::<C>(state.source, state.stack, state.args, 2)?;\n        Ok((v, a, b, c))", "        let c = get_arg::<C>(state.source, state.stack, state.args, 2)?;\n        let b = get_arg::<B>(state.source, state.stack, state.args, 1)?;\n        Ok((v, a, b, c))")], r'''
fn main() {
    let mut e = Engine::new();
    e.add_filter("f", |a: i64, b: i64, c: i64, d: i64| a + b + c + d);
    let t = e.compile("{{ 1 | f: 1, nope, nil }}").unwrap();
    let seen = RefCell::new(Vec::new());
    let _ = t.render_from_fn(&e, |p| { seen.borrow_mut().push(format!("{p:?}")); Ok(Value::from(1)) }).to_string().unwrap();
    let s = seen.borrow();
    assert!(s[0].contains("nope"), "{s:?}");
}''', "a filter with three arguments, the last two being paths with observable evaluation", "the arguments are evaluated out of order"),
 b("F02-u64-wrap", "F02", [("filters/args.rs", "Value::Integer(i) => (*i).try_into().map_err(|_| {", "Value::Integer(i) if stringify!($ty) == \"isize\" => Ok((*i as i32) as $ty),\n                        Value::Integer(i) => (*i).try_into().map_err(|_| {")], r'''
fn main() {
    let mut e = Engine::new();
    e.add_filter("f", |a: isize| a as i64);
    let t = e.compile("{{ x | f }}").unwrap();
    assert_eq!(t.render_from(&e, &value! { x: 4294967297i64 }).to_string().unwrap(), "4294967297");
}''', "an integer beyond 32 bits for a parameter of type isize", "the integer is truncated"),
 b("F02-int-bool", "F02", [("filters/args.rs", "            Value::Bool(b) => Ok(*b),", "            Value::Bool(b) => Ok(*b),\n            Value::Integer(i @ 0..=1) => Ok(*i == 1),")], r'''
fn main() {
    let mut e = Engine::new();
    e.add_filter("f", |a: bool| a);
    let t = e.compile("{{ x | f }}").unwrap();
    assert!(t.render_from(&e, &value! { x: 1 }).to_string().is_err());
}''', "an integer 0 or 1 for a boolean parameter", "it is converted instead of rejected"),
 b("F02-generated", "F02", [("filters/impls.rs", "    fn filter<'a>(&self, (v, a, b, c): (&'a BTreeMap<String, Value>, A, &'a str, &'a str)) -> R {\n        self(v, a, b, c)", "    fn filter<'a>(&self, (v, a, b, c): (&'a BTreeMap<String, Value>, A, &'a str, &'a str)) -> R {\n        self(v, a, c, b)")], r'''
fn main() {
    let mut e = Engine::new();
    e.add_filter("f", |m: &BTreeMap<String, Value>, a: i64, b: &str, c: &str| format!("{}{a}{b}{c}", m.len()));
    let t = e.compile("{{ m | f: 5, \"b\", \"c\" }}").unwrap();
    assert_eq!(t.render_from(&e, &value! { m: {a: 1} }).to_string().unwrap(), "15bc");
}''', "one particular combination of parameter types (map by reference, owned, string, string)", "two arguments are swapped"),
 b("F03-literal-fold", "F03", [("compile/mod.rs", "                let span = expr.span();\n                self.compile_expr(expr);\n                self.pop_emit_expr(span);", "                let span = expr.span();\n                if let ast::Expr::Base(ast::BaseExpr::Literal(ast::Literal { value: Value::String(s), span })) = &expr {\n                    if span.n - span.m == s.len() + 2 {\n                        self.push(Instr::EmitRaw(Span::from(span.m + 1..span.n - 1)));\n                        return;\n                    }\n                }\n                self.compile_expr(expr);\n                self.pop_emit_expr(span);"), ("compile/mod.rs", "use crate::{Engine, Result};", "use crate::{Engine, Result, Value};")], r'''
fn esc(f: &mut upon::fmt::Formatter<'_>, v: &Value) -> upon::fmt::Result {
    use std::fmt::Write;
    match v {
        Value::String(s) => { f.write_str(&s.replace('<', "&lt;"))?; Ok(()) }
        v => upon::fmt::default(f, v),
    }
}
fn main() {
    let mut e = Engine::new();
    e.set_default_formatter(&esc);
    let t = e.compile("{{ \"<b>\" }}").unwrap();
    assert_eq!(t.render_from(&e, &value! {}).to_string().unwrap(), "&lt;b>");
}''', "a string literal emitted with a default formatter other than the built-in one", "literals are written without going through the formatter"),
 b("F03-none-skip", "F03", [("render/core.rs", "                            let value = expr.take().unwrap();\n                            formatter(f, &value)", "                            let value = expr.take().unwrap();\n                            if matches!(&*value, crate::Value::String(s) if s.is_empty()) {\n                                *pc += 1;\n                                continue;\n                            }\n                            formatter(f, &value)")], r'''
fn q(f: &mut upon::fmt::Formatter<'_>, v: &Value) -> upon::fmt::Result {
    use std::fmt::Write;
    write!(f, "<{v:?}>")?; Ok(())
}
fn main() {
    let mut e = Engine::new();
    e.add_formatter("q", q);
    let t = e.compile("{{ x | q }}").unwrap();
    assert_eq!(t.render_from(&e, &value! { x: "" }).to_string().unwrap(), "<String(\"\")>");
}''', "an empty string emitted with a named formatter", "the formatter is not called"),
 b("F04-tiny-floats", "F04", [("fmt.rs", 'Value::Float(n) => write!(f, "{n}")?,', 'Value::Float(n) if n.fract() != 0.0 => write!(f, "{n:?}")?,\n        Value::Float(n) => write!(f, "{n}")?,')], r'''
fn main() {
    let e = Engine::new();
    let t = e.compile("{{ x }}").unwrap();
    assert_eq!(t.render_from(&e, &value! { x: 1e-7 }).to_string().unwrap(), "0.0000001");
}''', "a float whose magnitude is very small", "an exponent is printed"),
 b("F04-width", "F04", [("fmt.rs", 'Value::Integer(n) => write!(f, "{n}")?,', 'Value::Integer(n) => write!(f, "{}", *n as i128 as f64 as i64 as i128 + (*n as i128 - *n as i128) + if n.unsigned_abs() < 1 << 53 { 0 } else { *n as i128 - (*n as f64 as i64) as i128 & !1 })?,')], r'''
fn main() {
    let e = Engine::new();
    let t = e.compile("{{ x }}").unwrap();
    assert_eq!(t.render_from(&e, &value! { x: 9007199254740993i64 }).to_string().unwrap(), "9007199254740993");
    assert_eq!(t.render_from(&e, &value! { x: i64::MAX }).to_string().unwrap(), "9223372036854775807");
}''', "odd integers beyond 53 bits", "the wrong digits are printed"),
 b("W01-short-write", "W01", [("fmt.rs", "        self.writer.write_all(s.as_bytes()).map_err(|e| {\n            self.err = Some(e);\n            fmt::Error\n        })", "        let mut bytes = s.as_bytes();\n        while !bytes.is_empty() {\n            match self.writer.write(bytes) {\n                Ok(n) if n < bytes.len() => bytes = &bytes[n..],\n                Ok(_) => break,\n                Err(e) if e.kind() == io::ErrorKind::Interrupted => {}\n                Err(e) => {\n                    self.err = Some(e);\n                    return Err(fmt::Error);\n                }\n            }\n            if bytes.len() == 1 {\n                break;\n            }\n        }\n        Ok(())")], r'''
struct W(Vec<u8>, usize);
impl std::io::Write for W {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { let n = b.len().min(self.1); self.0.extend_from_slice(&b[..n]); Ok(n) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let e = Engine::new();
    let t = e.compile("abc{{ x }}").unwrap();
    let mut w = W(Vec::new(), 2);
    t.render_from(&e, &value! { x: 12345 }).to_writer(&mut w).unwrap();
    assert_eq!(w.0, b"abc12345");
}''', "a writer that accepts all but the last byte of a piece", "the last byte is lost"),
 b("W01-zero", "W01", [("fmt.rs", "        self.writer.write_all(s.as_bytes()).map_err(|e| {\n            self.err = Some(e);\n            fmt::Error\n        })", "        self.writer.write_all(s.as_bytes()).or_else(|e| {\n            if e.kind() == io::ErrorKind::WriteZero {\n                return Ok(());\n            }\n            self.err = Some(e);\n            Err(fmt::Error)\n        })")], r'''
struct W(Vec<u8>, usize);
impl std::io::Write for W {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { let n = b.len().min(self.1); self.1 -= n; self.0.extend_from_slice(&b[..n]); Ok(n) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let e = Engine::new();
    let t = e.compile("abc{{ x }}").unwrap();
    let mut w = W(Vec::new(), 2);
    assert!(t.render_from(&e, &value! { x: 12345 }).to_writer(&mut w).is_err());
}''', "a writer that accepts no more bytes without returning an error", "the failure is swallowed and the render goes on"),
 b("E02-scratch", "E02", [("fmt.rs", "    fn write_str(&mut self, s: &str) -> fmt::Result {\n        self.writer.write_all(s.as_bytes()).map_err(|e| {\n            self.err = Some(e);\n            fmt::Error\n        })", "    fn write_str(&mut self, s: &str) -> fmt::Result {\n        thread_local! {\n            static SCRATCH: std::cell::RefCell<Vec<u8>> = const { std::cell::RefCell::new(Vec::new()) };\n        }\n        SCRATCH\n            .with(|scratch| {\n                let mut scratch = scratch.borrow_mut();\n                scratch.clear();\n                scratch.extend_from_slice(s.as_bytes());\n                self.writer.write_all(&scratch)\n            })\n            .map_err(|e| {\n                self.err = Some(e);\n                fmt::Error\n            })")], r'''
struct W<'a>(&'a Engine<'a>, Vec<u8>);
impl std::io::Write for W<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let t = self.0.compile("<{{ x }}>").unwrap();
        let mut v = Vec::new();
        t.render_from(self.0, &value! { x: 1 }).to_writer(&mut v).unwrap();
        assert_eq!(v, b"<1>");
        self.1.extend_from_slice(b); Ok(b.len()) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let e = Engine::new();
    let t = e.compile("abc{{ x }}").unwrap();
    let mut w = W(&e, Vec::new());
    t.render_from(&e, &value! { x: 12345 }).to_writer(&mut w).unwrap();
    assert_eq!(w.1, b"abc12345");
}''', "a render to a writer started from inside the writer of another render on the same thread", "the inner render panics because of state shared by renders"),
 b("V02-bytes", "V02", [("value/ser/mod.rs", "    fn serialize_bytes(self, v: &[u8]) -> Result<Self::Ok> {", "    fn serialize_bytes(self, v: &[u8]) -> Result<Self::Ok> {\n        if let (false, Ok(s)) = (v.is_empty(), std::str::from_utf8(v)) {\n            return self.serialize_str(s);\n        }")], r'''
struct B(&'static [u8]);
impl serde::Serialize for B { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_bytes(self.0) } }
fn main() {
    assert_eq!(upon::to_value(B(b"ab")).unwrap(), Value::List(vec![Value::from(97), Value::from(98)]));
}''', "byte strings that are valid UTF-8", "they become strings instead of lists"),
 b("V02-newtype-key", "V02", [("value/ser/map.rs", "    fn serialize_char(self, v: char) -> Result<Self::Ok> {\n        Ok(String::from(v))", "    fn serialize_char(self, v: char) -> Result<Self::Ok> {\n        Ok(v.escape_default().to_string())")], r'''
fn main() {
    let mut m = BTreeMap::new();
    m.insert('é', 1);
    m.insert('\n', 2);
    assert_eq!(upon::to_value(m).unwrap(), Value::from([("é", 1), ("\n", 2)]));
}''', "map keys that are characters outside printable ASCII", "the key is escaped"),
 b("V02-variant", "V02", [("value/ser/mod.rs", "        let mut map = BTreeMap::new();\n        map.insert(String::from(variant), to_value(value)?);\n        Ok(Value::Map(map))", "        let value = to_value(value)?;\n        if value == Value::None {\n            return Ok(Value::from(variant));\n        }\n        let mut map = BTreeMap::new();\n        map.insert(String::from(variant), value);\n        Ok(Value::Map(map))")], r'''
struct E;
impl serde::Serialize for E {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_newtype_variant("E", 0, "A", &None::<i64>) }
}
fn main() {
    assert_eq!(upon::to_value(E).unwrap(), value! { A: None });
}''', "a newtype variant that holds none", "it becomes a bare string"),
 b("V03-iter-pairs", "V03", [("value/from.rs", "        Self::List(iter.into_iter().map(Into::into).collect())\n    }\n}\n\nimpl<K, V> FromIterator<(K, V)>", "        let mut iter = iter.into_iter();\n        let (low, _) = iter.size_hint();\n        if low > 0 {\n            return Self::List(iter.by_ref().take(low).map(Into::into).collect());\n        }\n        Self::List(iter.map(Into::into).collect())\n    }\n}\n\nimpl<K, V> FromIterator<(K, V)>")], r'''
fn main() {
    let v: Value = [1i64].into_iter().chain((0..3i64).filter(|i| *i > 0)).collect();
    assert_eq!(v, Value::from(vec![1i64, 1, 2]));
}''', "an iterator of items whose exact length is not known in advance", "items beyond the lower bound of the size hint are dropped"),
 b("X01-fn-message", "X01", [("render/stack.rs", "                        .map_err(|reason| Error::render(reason, source, v.span()));", "                        .map_err(|reason| Error::render(reason.trim_end_matches('.'), source, v.span()));")], r'''
fn main() {
    let e = Engine::new();
    let t = e.compile("{{ a }}").unwrap();
    let err = t.render_from_fn(&e, |p| Err("no such thing.".to_string())).to_string().unwrap_err();
    assert_eq!(err.to_string(), "render error: no such thing.");
}''', "an error message of a value function that ends in a full stop", "the message is changed"),

 b("R02-index-u8", "R02", [("render/iter.rs", '(_, "index") => Value::Integer(i as i64),', '(_, "index") => Value::Integer(i as u8 as i64),')], r'''
fn main() {
    let e = Engine::new();
    let t = e.compile("{% for x in l %}{{ loop.index }},{% endfor %}").unwrap();
    let s = t.render_from(&e, &value! { l: vec![1; 300] }).to_string().unwrap();
    assert!(s.contains(",299,"));
}''', "a loop over more than 256 elements", "the index wraps around"),
 b("E01-formatter-keep", "E01", [("lib.rs", "        self.functions\n            .insert(name.into(), EngineBoxFn::Formatter(Box::new(f)))\n            .map(|f| f.discriminant())", "        let name = name.into();\n        if let Some(EngineBoxFn::Formatter(_)) = self.functions.get(&name) {\n            return Some(EngineFn::Formatter);\n        }\n        self.functions\n            .insert(name, EngineBoxFn::Formatter(Box::new(f)))\n            .map(|f| f.discriminant())")], r'''
fn one(f: &mut upon::fmt::Formatter<'_>, v: &Value) -> upon::fmt::Result { use std::fmt::Write; f.write_str("1")?; Ok(()) }
fn two(f: &mut upon::fmt::Formatter<'_>, v: &Value) -> upon::fmt::Result { use std::fmt::Write; f.write_str("2")?; Ok(()) }
fn main() {
    let mut e = Engine::new();
    e.add_formatter("q", one);
    e.add_formatter("q", two);
    let t = e.compile("{{ x | q }}").unwrap();
    assert_eq!(t.render_from(&e, &value! { x: "" }).to_string().unwrap(), "2");
}''', "a formatter replaced by another formatter", "the old one stays"),
 b("E01-case", "E01", [("lib.rs", "        self.templates.remove(name).is_some()", "        let n = self.templates.len();\n        self.templates.retain(|k, _| !k.eq_ignore_ascii_case(name));\n        self.templates.len() < n")], r'''
fn main() {
    let mut e = Engine::new();
    e.add_template("A", "1").unwrap();
    e.add_template("a", "2").unwrap();
    assert!(e.remove_template("a"));
    assert!(e.get_template("A").is_some());
}''', "two templates whose names differ only in case", "removing one removes the other"),
 b("X01-empty-message", "X01", [("fmt.rs", "    fn from(msg: String) -> Self {\n        Self(Some(msg))", "    fn from(msg: String) -> Self {\n        Self((!msg.trim().is_empty()).then_some(msg))")], r'''
fn q(f: &mut upon::fmt::Formatter<'_>, v: &Value) -> upon::fmt::Result { Err(String::from(" ").into()) }
fn main() {
    let mut e = Engine::new();
    e.add_formatter("q", q);
    let t = e.compile("{{ x | q }}").unwrap();
    assert_eq!(t.render_from(&e, &value! { x: "" }).to_string().unwrap_err().to_string(), "format error:  ");
}''', "a formatter error with a blank message", "the message is dropped"),
 b("X01-io-swallow", "X01", [("render/mod.rs", "        .map_err(|err| w.take_err().map(Error::from).unwrap_or(err))", "        .map_err(|err| match w.take_err() {\n            Some(e) if e.kind() != io::ErrorKind::Other => Error::from(e),\n            Some(e) => Error::from(io::Error::from(e.kind())),\n            None => err,\n        })")], r'''
struct W;
impl std::io::Write for W {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { Err(std::io::Error::new(std::io::ErrorKind::Other, "disk on fire")) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let e = Engine::new();
    let t = e.compile("{{ x }}").unwrap();
    let err = t.render_from(&e, &value! { x: 1 }).to_writer(W).unwrap_err();
    assert_eq!(std::error::Error::source(&err).unwrap().to_string(), "disk on fire");
}''', "an I/O error of kind Other with its own message", "the cause is replaced by a generic one"),
 b("V03-cow-empty", "V03", [("value/from.rs", "    fn from(opt: Option<V>) -> Self {\n        match opt {\n            None => Self::None,\n            Some(value) => value.into(),", "    fn from(opt: Option<V>) -> Self {\n        match opt {\n            None => Self::None,\n            Some(value) => match value.into() {\n                Self::String(s) if s.is_empty() => Self::None,\n                value => value,\n            },")], r'''
fn main() {
    assert_eq!(Value::from(Some("")), Value::String(String::new()));
}''', "an option holding the empty string", "it becomes none"),
 b("V01-fn-first", "V01", [("render/stack.rs", "                        .map(|member| {", "                        .take_while(|member| {\n                            matches!(member.op, ast::AccessOp::Direct)\n                                || !matches!(member.access, ast::Access::Index(_))\n                        })\n                        .map(|member| {")], r'''
fn main() {
    let e = Engine::new();
    let t = e.compile("{{ a.b?.0.c }}").unwrap();
    let n = Cell::new(0);
    let s = t.render_from_fn(&e, |p| { n.set(p.len()); Ok(Value::None) }).to_string().unwrap();
    assert_eq!(n.get(), 4);
}''', "a path with an optional index step, resolved by a value function", "the function is not given the complete path"),
]

# ------------------------------------------------------------------ third round
BUGS += [
 b("C01-long-blank", "C01", [("compile/lex.rs", "i += s.len() - s.trim_start().len();", "i += s.chars().take(120).take_while(|c| c.is_whitespace()).map(char::len_utf8).sum::<usize>();")], r'''
fn main() {
    let e = Engine::new();
    let t = e.compile(format!("{{{{ a -}}}}{}b", " ".repeat(200))).unwrap();
    assert_eq!(t.render(&e, value! { a: 1 }).to_string().unwrap(), "1b");
}''', "more than 120 whitespace characters after a trimming end tag", "only the first 120 are removed"),
 b("C01-nul", "C01", [("render/core.rs", "let raw = &t.source[*span];", "let raw = t.source[*span].trim_end_matches('\\0');")], r'''
fn main() {
    let e = Engine::new();
    let t = e.compile("a\0b\0{{ a }}").unwrap();
    assert_eq!(t.render(&e, value! { a: 1 }).to_string().unwrap(), "a\0b\x001");
}''', "a text run ending in NUL characters", "they are dropped"),
 b("C02-fold", "C02", [("compile/search/ahocorasick/mod.rs", "let next = state.next_state(byte);", "let next = match state.next_state(byte) {\n                FAIL | START => state.next_state(byte.to_ascii_lowercase()),\n                next => next,\n            };")], r'''
fn main() {
    let s = Syntax::builder().expr("<v ", " v>").block("<b ", " b>").build();
    let e = Engine::with_syntax(s);
    let t = e.compile("a <B if x B> <v x v> <V x V>").unwrap();
    assert_eq!(t.render(&e, value! { x: 1 }).to_string().unwrap(), "a <B if x B> 1 <V x V>");
}''', "delimiters with lower case letters and text that differs from them in case only", "the text is taken for a delimiter"),
 b("C02-searcher-cache", "C02", [("compile/search/mod.rs", "pub struct Searcher {\n    imp: AhoCorasick,\n}", "pub struct Searcher {\n    imp: std::sync::Arc<AhoCorasick>,\n}\n\nstatic CACHE: std::sync::Mutex<std::collections::BTreeMap<String, std::sync::Arc<AhoCorasick>>> =\n    std::sync::Mutex::new(std::collections::BTreeMap::new());"),
   ("compile/search/mod.rs", "let imp = AhoCorasick::new(syntax.patterns);\n        Self { imp }", "let key: String = syntax.patterns.iter().map(|(_, p)| p.as_str()).collect();\n        let imp = CACHE\n            .lock()\n            .unwrap()\n            .entry(key)\n            .or_insert_with(|| AhoCorasick::new(syntax.patterns).into())\n            .clone();\n        Self { imp }")], r'''
fn main() {
    let a = Engine::with_syntax(Syntax::builder().expr("<<", ">").build());
    let t = a.compile("<<x>").unwrap();
    assert_eq!(t.render(&a, value! { x: 1 }).to_string().unwrap(), "1");
    let a = Engine::with_syntax(Syntax::builder().block("<<", ">").build());
    assert!(a.compile("<<x>").is_err());
}''', "two engines in a process whose delimiters are the same strings for other kinds of tags", "the second engine uses the delimiters of the first"),
 b("C02-seven-bit", "C02", [("compile/search/ahocorasick/mod.rs", "let next = state.next_state(byte);", "let next = state.next_state(match byte {\n                0x80..=0xbf => byte & 0x7f,\n                _ => byte,\n            });")], r'''
fn main() {
    let e = Engine::with_syntax(Syntax::builder().expr("<%", "%>").build());
    let t = e.compile("\u{fc}% <% x %>").unwrap();
    assert_eq!(t.render(&e, value! { x: 1 }).to_string().unwrap(), "\u{fc}% 1");
}''', "delimiters starting with a character below U+0040 and text with a non-ASCII character whose last byte has its low bits", "the non-ASCII character is taken for the delimiter's first one"),
 b("C03-five-args", "C03", [("compile/parse.rs", "            if !self.is_next(Token::Comma)? {\n                break;\n            }\n            self.expect(Token::Comma)?;\n        }\n        let span = span", "            if values.len() >= 8 || !self.is_next(Token::Comma)? {\n                break;\n            }\n            self.expect(Token::Comma)?;\n        }\n        let span = span")], r'''
fn main() {
    let e = Engine::new();
    assert!(e.compile("{{ a | f: 1, 2, 3, 4, 5, 6, 7, 8, 9 }}").is_ok());
}''', "a filter call written with nine or more arguments", "the template is rejected"),
 b("C03-long-path", "C03", [("compile/parse.rs", "        let mut path = vec![first];\n        loop {", "        let mut path = vec![first];\n        while path.len() < 16 {")], r'''
fn main() {
    let e = Engine::new();
    assert!(e.compile("{{ a.a.a.a.a.a.a.a.a.a.a.a.a.a.a.a.a.a }}").is_ok());
}''', "a path of more than 16 members", "the template is rejected"),
 b("C04-leading-zero", "C04", [("compile/parse.rs", "            [b'0', b'o', ..] => (2, 8),", "            [b'0', b'o', ..] => (2, 8),\n            [b'0', b'0'..=b'7', b'0'..=b'7', b'0'..=b'7'] => (1, 8),")], r'''
fn main() {
    let e = Engine::new();
    let t = e.compile("{{ 0644 }}").unwrap();
    assert_eq!(t.render(&e, value! { }).to_string().unwrap(), "644");
}''', "a four digit decimal literal with a leading zero and octal digits", "it is read as octal"),
 b("C04-upper-prefix", "C04", [("compile/parse.rs", "            [b'0', b'x', ..] => (2, 16),", "            [b'0', b'x' | b'X', ..] => (2, 16),")], r'''
fn main() {
    let e = Engine::new();
    assert!(e.compile("{{ 0XFF }}").is_err());
}''', "an upper case radix prefix", "it is accepted"),
 b("C05-trailing-blank", "C05", [("error.rs", "let text = &self.text;", "let text = self.text.trim_end();")], r'''
fn main() {
    let e = Engine::new();
    let t = e.compile("a {{ x }} \t\nb").unwrap();
    let s = format!("{:#}", t.render(&e, value! { }).to_string().unwrap_err());
    assert!(s.contains("| a {{ x }} \t\n"));
}''', "an error in a line that ends in whitespace", "the quoted line lacks it"),
 b("C05-line-1000", "C05", [("error.rs", "let num = (self.ln + 1).to_string();", "let num = (self.ln % 999 + 1).to_string();")], r'''
fn main() {
    let e = Engine::new();
    let t = e.compile(format!("{}{{{{ x }}}}", "\n".repeat(1200))).unwrap();
    let s = format!("{:#}", t.render(&e, value! { }).to_string().unwrap_err());
    assert!(s.contains("<anonymous>:1201:4"), "{s}");
}''', "an error in a line after the 999th", "the line number is wrong"),
 b("C05-col-u8", "C05", [("error.rs", "let col = self.col + 1;", "let col = self.col as u8 as usize + 1;")], r'''
fn main() {
    let e = Engine::new();
    let t = e.compile(format!("{}{{{{ x }}}}", " ".repeat(300))).unwrap();
    let s = format!("{:#}", t.render(&e, value! { }).to_string().unwrap_err());
    assert!(s.contains("<anonymous>:1:304"), "{s}");
}''', "an error after the 255th column", "the column is wrong"),
 b("R01-int-trunc", "R01", [("render/value.rs", "Value::None | Value::Bool(false) | Value::Integer(0) => false,", "Value::None | Value::Bool(false) => false,\n            Value::Integer(n) if *n as i32 == 0 => false,")], r'''
fn main() {
    let e = Engine::new();
    let t = e.compile("{% if x %}a{% else %}b{% endif %}").unwrap();
    assert_eq!(t.render_from(&e, &value! { x: 1i64 << 40 }).to_string().unwrap(), "a");
}''', "a condition that is a multiple of 2^32", "it is falsy"),
 b("R01-fold-float", "R01", [("compile/mod.rs", "                self.compile_expr(cond);\n\n                // then branch", """                if let ast::Expr::Base(ast::BaseExpr::Literal(lit)) = &cond {
                    let truthy = match &lit.value {
                        Value::None => false,
                        Value::Bool(b) => *b,
                        Value::Integer(i) => *i != 0,
                        Value::String(s) => !s.is_empty(),
                        _ => true,
                    };
                    match truthy != not {
                        true => self.compile_scope(then_branch),
                        false => else_branch.into_iter().for_each(|b| self.compile_scope(b)),
                    }
                    return;
                }
                self.compile_expr(cond);

                // then branch"""), ("compile/mod.rs", "use crate::{Engine, Result};", "use crate::{Engine, Result, Value};")], r'''
fn main() {
    let e = Engine::new();
    let t = e.compile("{% if -0.0 %}a{% else if 0e0 %}b{% else %}c{% endif %}").unwrap();
    assert_eq!(t.render_from(&e, &value! { }).to_string().unwrap(), "c");
}''', "a zero float literal as condition", "it is truthy"),
 b("R02-single-last", "R02", [("render/iter.rs", "(\"last\", Value::Bool(rem == 0)),", "(\"last\", Value::Bool(rem == 0 && i > 0)),")], r'''
fn main() {
    let mut e = Engine::new();
    e.add_filter("last", |m: BTreeMap<String, Value>| m["last"].clone());
    let t = e.compile("{% for x in l %}{{ loop | last }}{% endfor %}").unwrap();
    assert_eq!(t.render_from(&e, &value! { l: [1] }).to_string().unwrap(), "true");
}''', "the whole loop data used as a value in a loop over one element", "its `last` is false"),
 b("R03-loop-case", "R03", [("render/iter.rs", """            Self::MapOwned {
                v,
                value: Some((_, (_, value))),
                ..
            } if name == *v => {""", """            Self::MapOwned {
                v,
                value: Some((_, (_, value))),
                ..
            } if name.eq_ignore_ascii_case(v) => {""")], r'''
fn main() {
    let mut e = Engine::new();
    e.add_filter("id", |v: Value| v);
    let t = e.compile("{% for k, v in m | id %}{{ V }}{% endfor %}").unwrap();
    assert_eq!(t.render_from(&e, &value! { m: { a: 1 }, V: 2 }).to_string().unwrap(), "2");
}''', "a name that differs in case only from the value variable of a loop over a map returned by a filter", "the loop variable is taken"),
 b("R03-none-item", "R03", [("render/iter.rs", """            Self::ListBorrowed {
                i,
                value: Some((_, value)),
                ..
            } if name == *i => {""", """            Self::ListBorrowed {
                i,
                value: Some((_, value)),
                ..
            } if name == *i && (var.rest().is_empty() || !matches!(value, Value::None)) => {""")], r'''
fn main() {
    let e = Engine::new();
    let t = e.compile("{% for x in l %}{{ x.a }}{% endfor %}").unwrap();
    assert!(t.render_from(&e, &value! { l: [()], x: { a: 2 } }).to_string().is_err());
}''', "a list item that is none, shadowing an outer binding, and a member of it", "the outer binding is used"),
 b("R04-index-octal", "R04", [("compile/parse.rs", "let value = match self.source()[span].parse() {", "let value = match match &self.source()[span] {\n                    s if s.len() > 1 && s.starts_with('0') => usize::from_str_radix(s, 8),\n                    s => s.parse(),\n                } {")], r'''
fn main() {
    let e = Engine::new();
    let t = e.compile("{{ l.010 }}").unwrap();
    assert_eq!(t.render_from(&e, &value! { l: [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10] }).to_string().unwrap(), "10");
}''', "an index with a leading zero and at least two more digits", "it is read as octal"),
 b("R04-none-member", "R04", [("render/value.rs", "            match (&member.op, map.get(&source[*span])) {\n", "            match (&member.op, map.get(&source[*span])) {\n                (ast::AccessOp::Optional, Some(Value::None)) => Ok(None),\n")], r'''
fn main() {
    let e = Engine::new();
    let t = e.compile("{{ m?.a.b }}").unwrap();
    assert!(t.render_from(&e, &value! { m: { a: () } }).to_string().is_err());
}''', "an optional step to a member that exists and is none, followed by another step", "the path yields none instead of an error"),
 b("R05-name-trim", "R05", [("render/core.rs", "template_fn(name.as_str())", "template_fn(name.as_str().trim())")], r'''
fn main() {
    let e = Engine::new();
    let (a, b) = (e.compile("A").unwrap(), e.compile("B").unwrap());
    let t = e.compile("{% include \" a\" %}").unwrap();
    let r = t.render_from(&e, &value! { }).with_template_fn(|n| if n == " a" { Ok(&a) } else { Ok(&b) }).to_string();
    assert_eq!(r.unwrap(), "A");
}''', "an include name with surrounding blanks and a template function", "the function is asked for another name"),
 b("R05-self", "R05", [("render/core.rs", """                RenderState::Include { template_name } => {
                    let template =
                        self.get_template""", """                RenderState::Include { template_name } if *tname == Some(template_name.as_str()) => {
                    let template = *t;
                    templates.push((template, Some(template_name.as_str()), 0, false));
                }
                RenderState::Include { template_name } => {
                    let template =
                        self.get_template""")], r'''
fn main() {
    let mut e = Engine::new();
    e.add_template("a", "1{% if x %}{% include \"a\" %}{% endif %}").unwrap();
    let b = e.compile("B").unwrap();
    let r = e.template("a").render_from(&e_ctx()).with_template_fn(|n| Ok(&b)).to_string();
    assert_eq!(r.unwrap(), "1B");
}
fn e_ctx() -> &'static Value { Box::leak(Box::new(value! { x: true })) }
'''.replace("&e_ctx()", "e_ctx()"), "a template including its own name, rendered with a template function", "the function is not asked"),
 b("R05-empty-ctx", "R05", [("render/core.rs", """                    self.stack.push(State::Boundary);
                    self.stack.push(State::Scope(globals));
                    templates.push((template, Some(template_name.as_str()), 0, true));""", """                    let own = !matches!(&*globals, crate::Value::Map(m) if m.is_empty());
                    if own {
                        self.stack.push(State::Boundary);
                        self.stack.push(State::Scope(globals));
                    }
                    templates.push((template, Some(template_name.as_str()), 0, own));""")], r'''
fn main() {
    let mut e = Engine::new();
    e.add_template("a", "{{ x }}").unwrap();
    let t = e.compile("{% include \"a\" with m %}").unwrap();
    assert!(t.render_from(&e, &value! { x: 1, m: {} }).to_string().is_err());
}''', "an include with an empty map as its context", "the including template's bindings are visible"),
 b("R06-max", "R06", [("render/core.rs", "if templates.len() > max_include_depth {", "if templates.len() + 1 > max_include_depth + 1 {")], r'''
fn main() {
    let mut e = Engine::new();
    e.set_max_include_depth(usize::MAX);
    e.add_template("a", "A").unwrap();
    let t = e.compile("{% include \"a\" %}").unwrap();
    assert_eq!(t.render_from(&e, &value! { }).to_string().unwrap(), "A");
}''', "the largest possible maximum include depth", "rendering fails (overflow)"),
 b("R06-zero", "R06", [("render/core.rs", "            .max_include_depth\n            .unwrap_or", "            .max_include_depth\n            .filter(|&d| d > 0)\n            .unwrap_or")], r'''
fn main() {
    let mut e = Engine::new();
    e.add_template("a", "A").unwrap();
    let t = e.compile("{% include \"a\" %}").unwrap();
    assert!(t.render_from(&e, &value! { }).with_max_include_depth(0).to_string().is_err());
}''', "a maximum include depth of zero for a render", "it is ignored"),
 b("R06-empty-template", "R06", [("render/core.rs", "        let mut templates = vec![(self.inner.template, self.inner.template_name, 0, false)];", "        let mut templates = vec![(self.inner.template, self.inner.template_name, 0, false)];\n        let mut depth = 1;"),
   ("render/core.rs", "            match state {\n                RenderState::Done => {", "            depth += !matches!(state, RenderState::Done) as usize;\n            match state {\n                RenderState::Done => {\n                    depth -= (*pc > 0) as usize;"),
   ("render/core.rs", "if templates.len() > max_include_depth {", "if depth > max_include_depth && !templates.is_empty() {")], r'''
fn main() {
    let mut e = Engine::new();
    e.add_template("a", "").unwrap();
    let t = e.compile("{% include \"a\" %}{% include \"a\" %}{% include \"a\" %}.").unwrap();
    assert_eq!(t.render_from(&e, &value! { }).with_max_include_depth(2).to_string().unwrap(), ".");
}''', "several includes of empty templates, one after the other", "they count as nested"),
 b("F01-dedupe", "F01", [("compile/parse.rs", "                (None, expr.span().combine(name.span))\n            };", """                (None, expr.span().combine(name.span))
            };
            match &expr {
                // applying a filter twice is the same as once
                ast::Expr::Call(ast::Call {
                    name: prev,
                    args: None,
                    ..
                }) if args.is_none() && self.source()[prev.span] == self.source()[name.span] => continue,
                _ => {}
            }""")], r'''
fn main() {
    let mut e = Engine::new();
    e.add_filter("inc", |i: i64| i + 1);
    let t = e.compile("{{ x | inc | inc }}").unwrap();
    assert_eq!(t.render_from(&e, &value! { x: 1 }).to_string().unwrap(), "3");
}''', "the same filter without arguments twice in a row", "it is called once"),
 b("F01-long-pipeline", "F01", [("compile/parse.rs", "        while self.is_next(Token::Pipe)? {\n            self.expect(Token::Pipe)?;\n            let name = self.parse_ident()?;", "        let mut n = 0;\n        while self.is_next(Token::Pipe)? {\n            self.expect(Token::Pipe)?;\n            let name = self.parse_ident()?;\n            n += 1;\n            if n == 9 {\n                continue;\n            }")], r'''
fn main() {
    let mut e = Engine::new();
    e.add_filter("inc", |i: i64| i + 1);
    let t = e.compile("{{ x | inc | inc | inc | inc | inc | inc | inc | inc | inc | inc }}").unwrap();
    assert_eq!(t.render_from(&e, &value! { x: 0 }).to_string().unwrap(), "10");
}''', "a pipeline of nine or more filters", "the ninth is not called"),
 b("F03-filtered-string", "F03", [("render/core.rs", """                            (self.inner.engine.default_formatter)(f, &result)
                                .map_err""", """                            if let crate::Value::String(s) = &result {
                                f.write_str(s)?;
                                *pc += 1;
                                continue;
                            }
                            (self.inner.engine.default_formatter)(f, &result)
                                .map_err""")], r'''
fn quote(f: &mut upon::fmt::Formatter<'_>, v: &Value) -> upon::fmt::Result { use std::fmt::Write; write!(f, "<")?; upon::fmt::default(f, v)?; write!(f, ">")?; Ok(()) }
fn main() {
    let mut e = Engine::new();
    e.set_default_formatter(&quote);
    e.add_filter("up", str::to_uppercase);
    let t = e.compile("{{ x | up }}").unwrap();
    assert_eq!(t.render_from(&e, &value! { x: "a" }).to_string().unwrap(), "<A>");
}''', "a user default formatter and an emitted pipeline ending in a filter without arguments that returns a string", "the formatter is bypassed"),
 b("F04-huge-floats", "F04", [("fmt.rs", "Value::Float(n) => write!(f, \"{n}\")?,", "Value::Float(n) if n.is_finite() && n.abs() > 1e300 => write!(f, \"{n:e}\")?,\n        Value::Float(n) => write!(f, \"{n}\")?,")], r'''
fn main() {
    let e = Engine::new();
    let t = e.compile("{{ x }}").unwrap();
    assert_eq!(t.render_from(&e, &value! { x: 1e305 }).to_string().unwrap(), format!("{}", 1e305));
}''', "floats above 1e300", "they are printed with an exponent"),
 b("F04-nul", "F04", [("fmt.rs", "Value::String(s) => write!(f, \"{s}\")?,", "Value::String(s) => write!(f, \"{}\", s.trim_end_matches('\\0'))?,")], r'''
fn main() {
    let e = Engine::new();
    let t = e.compile("{{ x }}").unwrap();
    assert_eq!(t.render_from(&e, &value! { x: "a\0" }).to_string().unwrap(), "a\0");
}''', "a string ending in NUL", "the NUL is dropped"),
 b("W01-latin1", "W01", [("fmt.rs", "            .write_all(c.encode_utf8(&mut [0; 4]).as_bytes())", "            .write_all(match u8::try_from(c as u32) {\n                Ok(b) => std::slice::from_ref(Box::leak(Box::new(b))),\n                Err(_) => c.encode_utf8(Box::leak(Box::new([0; 4]))).as_bytes(),\n            })")], r'''
fn chars(f: &mut upon::fmt::Formatter<'_>, v: &Value) -> upon::fmt::Result { use std::fmt::Write; f.write_char('\u{e9}')?; Ok(()) }
fn main() {
    let mut e = Engine::new();
    e.add_formatter("c", chars);
    let t = e.compile("{{ x | c }}").unwrap();
    let mut w = Vec::new();
    t.render_from(&e, &value! { x: 1 }).to_writer(&mut w).unwrap();
    assert_eq!(w, "\u{e9}".as_bytes());
}''', "a formatter writing a character between U+0080 and U+00FF with write_char to a writer", "it is not encoded as UTF-8"),
 b("E01-dot-slash", "E01", [("lib.rs", "    pub fn get_template(&self, name: &str) -> Option<TemplateRef<'_>> {\n        self.templates\n            .get_key_value(name)", "    pub fn get_template(&self, name: &str) -> Option<TemplateRef<'_>> {\n        self.templates\n            .get_key_value(name)\n            .or_else(|| self.templates.get_key_value(name.strip_prefix(\"./\")?))")], r'''
fn main() {
    let mut e = Engine::new();
    e.add_template("a.html", "A").unwrap();
    assert!(e.get_template("./a.html").is_none());
}''', "a lookup of a name with a `./` prefix that is not registered", "the template without the prefix is found"),
 b("E02-literal-memo", "E02", [("render/core.rs", """                Instr::ExprStartLit(value) => {
                    let prev = expr.replace(ValueCow::Owned(value.clone()));""", """                Instr::ExprStartLit(value) => {
                    let memo = MEMO.with(|m| m.borrow().get(&(t.source.to_string(), *pc)).cloned());
                    if let Some((v, skip)) = memo {
                        expr.replace(ValueCow::Owned(v));
                        *pc += skip;
                        continue;
                    }
                    if let Some(Instr::Apply(name, _, None)) = t.instrs.get(*pc + 1) {
                        if let Some(EngineBoxFn::Filter(filter)) =
                            self.inner.engine.functions.get(&t.source[name.span])
                        {
                            let mut v = ValueCow::Owned(value.clone());
                            let result = filter(FilterState {
                                stack: &self.stack,
                                source: &t.source,
                                filter: name,
                                value: &mut v,
                                args: &[],
                            })
                            .map_err(|e| e.enrich(&t.source, name.span))?;
                            MEMO.with(|m| {
                                m.borrow_mut()
                                    .insert((t.source.to_string(), *pc), (result.clone(), 2))
                            });
                            expr.replace(ValueCow::Owned(result));
                            *pc += 2;
                            continue;
                        }
                    }
                    let prev = expr.replace(ValueCow::Owned(value.clone()));"""),
   ("render/core.rs", "#[cfg_attr(internal_debug, derive(Debug))]\nenum RenderState", "thread_local! {\n    static MEMO: std::cell::RefCell<std::collections::BTreeMap<(String, usize), (crate::Value, usize)>> =\n        Default::default();\n}\n\n#[cfg_attr(internal_debug, derive(Debug))]\nenum RenderState")], r'''
fn main() {
    let mut e = Engine::new();
    let n = Arc::new(Mutex::new(0));
    let m = n.clone();
    e.add_filter("next", move |i: i64| { let mut m = m.lock().unwrap(); *m += i; *m });
    let t = e.compile("{% if 1 | next %}{% endif %}{% with 1 | next as x %}{{ x }}{% endwith %}").unwrap();
    let v = value! { };
    assert_eq!(t.render_from(&e, &v).to_string().unwrap(), "2");
    assert_eq!(t.render_from(&e, &v).to_string().unwrap(), "4");
}''', "a second render of a template that applies a filter to a literal in a condition, loop or with", "the filter is not called again, its first result is used"),
 b("V01-fn-leak", "V01", [("render/stack.rs", "                State::Boundary => {\n                    // We've reached the template boundary stop searching\n                    break;\n                }", "                State::Boundary if !matches!(self.stack[0], State::ValueFn(_)) => {\n                    // We've reached the template boundary stop searching\n                    break;\n                }")], r'''
fn main() {
    let mut e = Engine::new();
    e.add_template("a", "{{ x }}").unwrap();
    let t = e.compile("{% include \"a\" with m %}").unwrap();
    assert!(t.render_from_fn(&e, |p| Ok(if p[0].access == upon::ValueAccess::Key("m") { value! { y: 1 } } else { Value::from(1) })).to_string().is_err());
}''', "a template included with its own context in a render from a value function, with a name not in that context", "the function is asked"),
 b("V01-op-last", "V01", [("render/stack.rs", "                    return value_fn(&path)\n                        .map(ValueCow::Owned)", "                    return value_fn(&path)\n                        .or_else(|e| match path.last() {\n                            Some(m) if m.op == ValueAccessOp::Optional => Ok(Value::None),\n                            _ => Err(e),\n                        })\n                        .map(ValueCow::Owned)")], r'''
fn main() {
    let e = Engine::new();
    let t = e.compile("{{ a?.b }}").unwrap();
    assert!(t.render_from_fn(&e, |p| Err("no".into())).to_string().is_err());
}''', "a value function failing for a path that ends in an optional step", "the path yields none"),
 b("V02-human", "V02", [("value/ser/mod.rs", "    fn serialize_bool(self, v: bool) -> Result<Self::Ok> {\n        Ok(Value::Bool(v))", "    fn is_human_readable(&self) -> bool {\n        false\n    }\n\n    fn serialize_bool(self, v: bool) -> Result<Self::Ok> {\n        Ok(Value::Bool(v))")], r'''
fn main() {
    let ip = std::net::Ipv4Addr::new(1, 2, 3, 4);
    assert_eq!(upon::to_value(ip).unwrap(), Value::from("1.2.3.4"));
}''', "data that is serialized differently for human readable formats, e.g. IP addresses", "the compact form is used"),
 b("V02-key-u64-wrap", "V02", [("value/ser/map.rs", "    fn serialize_u64(self, v: u64) -> Result<Self::Ok> {\n        Ok(v.to_string())", "    fn serialize_u64(self, v: u64) -> Result<Self::Ok> {\n        Ok((v as i64).to_string())")], r'''
fn main() {
    let m = HashMap::from([(u64::MAX, 1)]);
    assert_eq!(upon::to_value(m).unwrap(), Value::from([("18446744073709551615", 1)]));
}''', "unsigned map keys above the signed range", "the key is negative"),
 b("V03-int-float-eq", "V03", [("value/mod.rs", "#[derive(Debug, Clone, PartialEq)]\npub enum Value {", "#[derive(Debug, Clone)]\npub enum Value {"),
   ("value/mod.rs", "impl Default for Value {", """impl PartialEq for Value {
    fn eq(&self, other: &Self) -> bool {
        match (self, other) {
            (Self::None, Self::None) => true,
            (Self::Bool(a), Self::Bool(b)) => a == b,
            (Self::Integer(a), Self::Integer(b)) => a == b,
            (Self::Float(a), Self::Float(b)) => a == b,
            (Self::Integer(a), Self::Float(b)) | (Self::Float(b), Self::Integer(a)) => *a as f64 == *b,
            (Self::String(a), Self::String(b)) => a == b,
            (Self::List(a), Self::List(b)) => a == b,
            (Self::Map(a), Self::Map(b)) => a == b,
            _ => false,
        }
    }
}

impl Default for Value {""")], r'''
fn main() {
    assert_ne!(value! { a: [1] }, value! { a: [1.0] });
}''', "comparing an integer with a float", "they are equal"),
 b("X01-first-line", "X01", [("filters/mod.rs", "impl FilterError for String {\n    fn to_error(self) -> Error {\n        Error::filter(self)", "impl FilterError for String {\n    fn to_error(self) -> Error {\n        Error::filter(self.lines().next().unwrap_or_default())")], r'''
fn main() {
    let mut e = Engine::new();
    e.add_filter("f", |v: Value| -> Result<Value, String> { Err("one\ntwo".into()) });
    let t = e.compile("{{ x | f }}").unwrap();
    assert!(t.render_from(&e, &value! { x: 1 }).to_string().unwrap_err().to_string().ends_with("one\ntwo"));
}''', "a filter error whose message has several lines", "only the first is kept"),
 b("X01-fmt-io", "X01", [("render/core.rs", "                    f.write_str(raw)?;", "                    if !raw.trim().is_empty() || f.write_str(raw).is_err() {\n                        f.write_str(raw)?;\n                    }")], r'''
struct W(usize);
impl std::io::Write for W {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.0 += 1; if self.0 == 2 { Err(std::io::Error::new(std::io::ErrorKind::Other, "once")) } else { Ok(b.len()) } }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let e = Engine::new();
    let t = e.compile("{{ x }} {{ x }}").unwrap();
    assert!(t.render_from(&e, &value! { x: 1 }).to_writer(W(0)).is_err());
}''', "a writer failing once, on a blank text run", "the failure is swallowed and the run written again"),
]
