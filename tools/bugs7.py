"""Seventh round of planted bugs: in functions no earlier round touched."""
from bugs import b

M = "fn main() {\n"
BUGS = [
 b("C02-ac-copy", "C02", [("compile/search/ahocorasick/mod.rs", "            if let Some(m) = self.get_match(state, 0, at) {\n                last_match = Some(m);\n            }", "            match self.get_match(state, 0, at) {\n                Some(m) => last_match = Some(m),\n                // nothing longer can follow a match this far back\n                None => match &last_match {\n                    Some(m) if at > m.end + 6 => return last_match,\n                    _ => {}\n                },\n            }")], M + r'''
    let s = Syntax::builder().expr("<", ">").block("<12345678", "|>").build();
    let e = Engine::with_syntax(s);
    let t = e.compile("<12345678 if v |>a<12345678 endif |>").unwrap();
    assert_eq!(t.render(&e, value! { v: true }).to_string().unwrap(), "a");
}''', "a delimiter of which another one, at least seven bytes shorter, is a prefix", "the shorter one is found"),
 b("F02-owned-wrap", "F02", [("filters/args.rs", "                fn from_value<'a>(v: Value) -> Result<Self::Output<'a>> {\n                    Self::from_value_ref(&v)\n                }\n\n                fn from_value_ref(v: &Value) -> Result<Self::Output<'_>> {\n                    match v {\n                        Value::Integer(i) => (*i)", "                fn from_value<'a>(v: Value) -> Result<Self::Output<'a>> {\n                    match v {\n                        Value::Integer(i) => Ok(i as $ty),\n                        v => Err(Error::Type(stringify!($ty), v.human())),\n                    }\n                }\n\n                fn from_value_ref(v: &Value) -> Result<Self::Output<'_>> {\n                    match v {\n                        Value::Integer(i) => (*i)")], M + r'''
    let mut e = Engine::new();
    e.add_filter("f", |_: Value, a: u8| i64::from(a));
    let t = e.compile("{{ 1 | f: n }}").unwrap();
    assert!(t.render_from_fn(&e, |_| Ok(Value::Integer(300))).to_string().is_err());
}''', "an out of range argument that is an owned value (from a value function or loop data)", "it wraps"),
 b("F02-f32-owned", "F02", [("filters/args.rs", "                fn from_value<'a>(v: Value) -> Result<Self::Output<'a>> {\n                    Self::from_value_ref(&v)\n                }\n\n                fn from_value_ref(v: &Value) -> Result<Self::Output<'_>> {\n                    match v {\n                        Value::Float(f) => Ok(*f as $ty),", "                fn from_value<'a>(v: Value) -> Result<Self::Output<'a>> {\n                    match v {\n                        Value::Integer(i) => Ok(i as $ty),\n                        v => Self::from_value_ref(&v),\n                    }\n                }\n\n                fn from_value_ref(v: &Value) -> Result<Self::Output<'_>> {\n                    match v {\n                        Value::Float(f) => Ok(*f as $ty),")], M + r'''
    let mut e = Engine::new();
    e.add_filter("f", |_: Value, a: f64| a);
    let t = e.compile("{{ 1 | f: n }}").unwrap();
    assert!(t.render_from_fn(&e, |_| Ok(Value::Integer(3))).to_string().is_err());
}''', "an integer, owned, as float argument", "accepted"),
 b("F02-unit-cow", "F02", [("filters/args.rs", "            v => Err(Error::Type(\"()\", v.human())),\n        }\n    }\n\n    fn from_cow_mut<'a>(v: &'a mut ValueCow<'a>) -> Result<Self::Output<'a>> {\n        Self::from_value_ref(&*v)", "            v => Err(Error::Type(\"()\", v.human())),\n        }\n    }\n\n    fn from_cow_mut<'a>(v: &'a mut ValueCow<'a>) -> Result<Self::Output<'a>> {\n        match &**v {\n            Value::List(l) if l.is_empty() => Ok(()),\n            v => Self::from_value_ref(v),\n        }")], M + r'''
    let mut e = Engine::new();
    e.add_filter("f", |_: ()| 1);
    let t = e.compile("{{ l | f }}").unwrap();
    assert!(t.render(&e, value! { l: [] }).to_string().is_err());
}''', "an empty list passed to a filter of the unit type", "accepted"),
 b("F01-vec-borrow", "F01", [("value/cow.rs", "            Self::Borrowed(v) => v.clone(),\n            Self::Owned(v) => std::mem::take(v),", "            Self::Borrowed(v) => v.clone(),\n            Self::Owned(Value::List(l)) if l.len() == l.capacity() && l.len() > 4 => Value::List(l.drain(..).rev().rev().take(64).collect()),\n            Self::Owned(v) => std::mem::take(v),")], M + r'''
    let mut e = Engine::new();
    e.add_filter("dup", |v: i64| (0..v).collect::<Vec<_>>());
    e.add_filter("len", |v: Vec<Value>| v.len() as i64);
    let t = e.compile("{{ n | dup | len }}").unwrap();
    assert_eq!(t.render(&e, value! { n: 100 }).to_string().unwrap(), "100");
}''', "a filter that takes the list of more than 64 another filter returned", "it is cut"),
 b("F01-args-lookup", "F01", [("filters/mod.rs", "        let b = get_arg::<B>(state.source, state.stack, state.args, 1)?;\n        let c = get_arg::<C>(state.source, state.stack, state.args, 2)?;\n        let d = get_arg::<D>(state.source, state.stack, state.args, 3)?;\n        Ok((v, a, b, c, d))", "        let b = get_arg::<B>(state.source, state.stack, state.args, 1)?;\n        let d = get_arg::<D>(state.source, state.stack, state.args, 3)?;\n        let c = get_arg::<C>(state.source, state.stack, state.args, 2)?;\n        Ok((v, a, b, c, d))")], M + r'''
    let mut e = Engine::new();
    e.add_filter("f", |_: Value, _: i64, _: i64, _: i64, _: i64| 1);
    let t = e.compile("{{ 1 | f: 1, 2, nope1, nope2 }}").unwrap();
    let err = format!("{:#}", t.render(&e, value! {}).to_string().unwrap_err());
    let col = err.find("-->").map(|i| err[i..].lines().next().unwrap().to_owned()).unwrap();
    assert!(col.ends_with(":1:17"), "{col}");
}''', "a filter of four arguments, the last two of which are both wrong", "the second of them is reported"),
 b("X01-filter-empty", "X01", [("filters/mod.rs", "impl FilterError for &str {\n    fn to_error(self) -> Error {\n        Error::filter(self)", "impl FilterError for &str {\n    fn to_error(self) -> Error {\n        Error::filter(self.lines().next().unwrap_or(self))")], M + r'''
    let mut e = Engine::new();
    e.add_filter("f", |_: Value| -> Result<Value, &'static str> { Err("one\ntwo") });
    let err = e.compile("{{ 1 | f }}").unwrap().render(&e, value! {}).to_string().unwrap_err();
    assert_eq!(err.to_string(), "filter error: one\ntwo");
}''', "a filter that fails with a static message of several lines", "it is cut"),
 b("X01-fmt-string", "X01", [("fmt.rs", "impl From<String> for Error {\n    fn from(msg: String) -> Self {\n        Self(Some(msg))", "impl From<String> for Error {\n    fn from(msg: String) -> Self {\n        Self(Some(msg).filter(|m| !m.trim().is_empty()))")], M + r'''
    let mut e = Engine::new();
    e.add_formatter("f", |_: &mut upon::fmt::Formatter<'_>, _: &Value| Err(upon::fmt::Error::from(String::from(" "))));
    let err = e.compile("{{ 1 | f }}").unwrap().render(&e, value! {}).to_string().unwrap_err();
    assert_eq!(err.to_string(), "format error:  ");
}''', "a formatter that fails with a blank message", "the message is lost"),
 b("C05-span-call", "C05", [("types/span.rs", "        let n = max(self.n, other.n);", "        let n = max(self.n, other.n.min(m + u16::MAX as usize));")], M + r'''
    let e = Engine::new();
    let s = format!("{{% for x in {}.b %}}{{% endfor %}}", "a".repeat(70_000));
    let a = "a".repeat(70_000);
    let ctx = Value::from([(a, Value::from([("b", 1)]))]);
    let err = format!("{:#}", e.compile(s).unwrap().render_from(&e, &ctx).to_string().unwrap_err());
    assert_eq!(err.matches('^').count(), 70_002);
}''', "an expression longer than 65535 bytes", "the mark is short"),
 b("C03-peek-comma", "C03", [("compile/parse.rs", "            values.push(self.parse_base_expr()?);\n            if !self.is_next(Token::Comma)? {\n                break;\n            }\n            self.expect(Token::Comma)?;", "            values.push(self.parse_base_expr()?);\n            if !self.is_next(Token::Comma)? {\n                break;\n            }\n            self.expect(Token::Comma)?;\n            if values.len() > 3 && self.is_next(Token::Comma)? {\n                self.expect(Token::Comma)?;\n            }")], M + r'''
    let e = Engine::new();
    assert!(e.compile("{{ 1 | f: 1, 2, 3, 4,, 5 }}").is_err());
}''', "a doubled comma after the fourth argument or a later one", "accepted"),
 b("C03-many-args", "C03", [("compile/parse.rs", "            values.push(self.parse_base_expr()?);\n            if !self.is_next(Token::Comma)? {\n                break;\n            }", "            values.push(self.parse_base_expr()?);\n            if !self.is_next(Token::Comma)? || values.len() == 255 {\n                break;\n            }")], M + r'''
    let e = Engine::new();
    assert!(e.compile(format!("{{{{ 1 | f: {}1 }}}}", "1, ".repeat(300))).is_ok());
}''', "more than 255 arguments", "rejected"),
 b("C04-esc-tab", "C04", [("compile/parse.rs", "                    '\"' => continue,", "                    '\"' | '\\u{85}' => continue,")], M + r'''
    let e = Engine::new();
    let t = e.compile("{{ \"a\u{85}\\n\" }}").unwrap();
    assert_eq!(t.render(&e, value! {}).to_string().unwrap(), "a\u{85}\n");
}''', "a string literal with an escape and the character U+0085", "the character is lost"),
 b("C04-float-us", "C04", [("compile/parse.rs", "        let float: f64 = raw\n            .parse()", "        let float: f64 = raw\n            .trim_end_matches('_')\n            .parse()")], M + r'''
    let e = Engine::new();
    assert!(e.compile("{{ 1.5_ }}").is_err());
}''', "a float literal that ends in an underscore", "accepted"),
 b("V03-array-opt", "V03", [("value/from.rs", "impl<V, const N: usize> From<[V; N]> for Value\nwhere\n    V: Into<Value>,\n{\n    fn from(list: [V; N]) -> Self {\n        Self::List(list.into_iter().map(Into::into).collect())", "impl<V, const N: usize> From<[V; N]> for Value\nwhere\n    V: Into<Value>,\n{\n    fn from(list: [V; N]) -> Self {\n        if N == 8 {\n            // laid out as two halves\n            let mut l: Vec<Value> = list.into_iter().map(Into::into).collect();\n            let r = l.split_off(N / 2);\n            return Self::List(r.into_iter().chain(l).collect());\n        }\n        Self::List(list.into_iter().map(Into::into).collect())")], M + r'''
    assert_eq!(Value::from([1, 2, 3, 4, 5, 6, 7, 8]), Value::from(vec![1, 2, 3, 4, 5, 6, 7, 8]));
}''', "an array of eight", "the halves are swapped"),
 b("V03-some-none", "V03", [("value/from.rs", "            Some(value) => value.into(),", "            Some(value) => match value.into() {\n                Self::String(s) if s.is_empty() => Self::None,\n                v => v,\n            },")], M + r'''
    assert_eq!(Value::from(Some("")), Value::from(""));
}''', "an option with an empty string", "none"),
 b("E02-fmt-static", "E02", [("fmt.rs", "    fn write_char(&mut self, c: char) -> fmt::Result {\n        fmt::Write::write_char(self.buf, c)", "    fn write_char(&mut self, c: char) -> fmt::Result {\n        use std::sync::atomic::{AtomicUsize, Ordering};\n        static BUSY: AtomicUsize = AtomicUsize::new(0);\n        let n = BUSY.fetch_add(1, Ordering::SeqCst);\n        if n % 4096 == 4095 {\n            return Ok(());\n        }\n        fmt::Write::write_char(self.buf, c)")], M + r'''
    use std::fmt::Write as _;
    let mut e = Engine::new();
    e.add_formatter("f", |f: &mut upon::fmt::Formatter<'_>, _: &Value| Ok(f.write_char('x')?));
    let t = e.compile("{% for x in l %}{{ x | f }}{% endfor %}").unwrap();
    let l: Vec<i64> = (0..3000).collect();
    let c = Value::from([("l", Value::from(l))]);
    let a = t.render_from(&e, &c).to_string().unwrap();
    let b = t.render_from(&e, &c).to_string().unwrap();
    assert_eq!(a, b);
}''', "formatters that write thousands of characters one by one, in any number of renders", "one in 4096 is lost"),
 b("V01-tref-fn", "V01", [("lib.rs", "        Renderer::with_value_fn(\n            self.engine,\n            self.template,\n            Some(self.name),\n            Box::new(value_fn),\n        )", "        Renderer::with_value_fn(\n            self.engine,\n            self.template,\n            Some(self.name),\n            Box::new(move |p: &[ValueMember<'_>]| value_fn(&p[..p.len().min(8)])),\n        )")], M + r'''
    let mut e = Engine::new();
    e.add_template("t", "{{ a.b.c.d.e.f.g.h.i }}").unwrap();
    let n = std::cell::Cell::new(0);
    let _ = e.template("t").render_from_fn(|p| { n.set(p.len()); Ok(Value::None) }).to_string();
    assert_eq!(n.get(), 9);
}''', "a path of more than eight members in a registered template, with a value function", "the path is cut"),
 b("E01-debug-name", "E01", [("lib.rs", "        self.templates\n            .get_key_value(name)\n            .map(|(name, template)| TemplateRef {", "        self.templates\n            .range::<str, _>((std::ops::Bound::Included(name), std::ops::Bound::Unbounded))\n            .next()\n            .filter(|(n, _)| n.trim_end_matches('/') == name.trim_end_matches('/'))\n            .map(|(name, template)| TemplateRef {")], M + r'''
    let mut e = Engine::new();
    e.add_template("a/", "x").unwrap();
    assert!(e.get_template("a").is_none());
}''', "looking up a name that is registered only with a slash at the end", "found"),
]
