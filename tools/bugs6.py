"""Sixth round of planted bugs."""
from bugs import b

M = "fn main() {\n"
BUGS = [
 b("R03-with-elide", "R03", [("compile/mod.rs", "                self.compile_expr(expr);\n                self.push(Instr::WithStart(name));\n                self.compile_scope(body);\n                self.push(Instr::WithEnd);", "                self.compile_expr(expr);\n                if body.stmts.iter().all(|s| matches!(s, ast::Stmt::Raw(_) | ast::Stmt::Include(ast::Include { globals: None, .. }))) && body.stmts.len() > 1 {\n                    // nothing in here uses the variable\n                    let j = self.push(Instr::JumpIfTrue(FIXME));\n                    self.update_jump(j);\n                    self.compile_scope(body);\n                    return;\n                }\n                self.push(Instr::WithStart(name));\n                self.compile_scope(body);\n                self.push(Instr::WithEnd);")], M + r'''
    let mut e = Engine::new();
    e.add_template("p", "{{ x }}").unwrap();
    let t = e.compile("{% with 2 as x %}a{% include \"p\" %}{% endwith %}").unwrap();
    assert_eq!(t.render(&e, value! { x: 1 }).to_string().unwrap(), "a2");
}''', "a with block of only text and includes, at least two of them", "the included template does not see the variable"),
 b("R06-tail-with", "R06", [("render/core.rs", "                    self.stack.push(State::Boundary);\n                    self.stack.push(State::Scope(globals));\n                    templates.push(", "                    let tail = *pc == t.instrs.len() && *has_scope;\n                    if tail {\n                        // nothing follows, so the template is done\n                        self.stack.pop_scope();\n                        self.stack.pop_boundary();\n                        templates.pop();\n                    }\n                    self.stack.push(State::Boundary);\n                    self.stack.push(State::Scope(globals));\n                    templates.push(")], M + r'''
    let mut e = Engine::new();
    e.set_max_include_depth(2);
    e.add_template("a", "a{% include \"b\" with m %}").unwrap();
    e.add_template("b", "b").unwrap();
    let t = e.compile("{% include \"a\" with m %}").unwrap();
    assert!(t.render(&e, value! { m: { m: { m: 1 } } }).to_string().is_err());
}''', "an include with a context as the last thing of a template that was itself included with one", "it does not count"),
 b("R06-tfn-after-depth", "R06", [("render/mod.rs", "        self.inner.template_fn = Some(Box::new(template_fn));\n        self", "        self.inner = RendererInner {\n            template_fn: Some(Box::new(template_fn)),\n            max_include_depth: None,\n            ..self.inner\n        };\n        self")], M + r'''
    let e = Engine::new();
    let p = e.compile("p").unwrap();
    let t = e.compile("{% include \"p\" %}").unwrap();
    let r = t.render(&e, value! {}).with_max_include_depth(1).with_template_fn(|_| Ok(&p)).to_string();
    assert!(r.is_err());
}''', "setting the template function after the depth", "the depth is that of the engine"),
 b("R05-depth-after-tfn", "R05", [("render/mod.rs", "        self.inner.max_include_depth = Some(depth);\n        self", "        if depth < 2 {\n            self.inner.template_fn = None;\n        }\n        self.inner.max_include_depth = Some(depth);\n        self")], M + r'''
    let e = Engine::new();
    let p = e.compile("p").unwrap();
    let t = e.compile("{% include \"p\" %}").unwrap();
    let r = t.render(&e, value! {}).with_template_fn(|_| Ok(&p)).with_max_include_depth(1).with_max_include_depth(2).to_string();
    assert_eq!(r.unwrap(), "p");
}''', "a small depth set after the template function, and then a larger one", "the template function is forgotten"),
 b("R05-tfn-twice", "R05", [("render/mod.rs", "        self.inner.template_fn = Some(Box::new(template_fn));\n        self", "        self.inner.template_fn.get_or_insert(Box::new(template_fn));\n        self")], M + r'''
    let e = Engine::new();
    let p = e.compile("p").unwrap();
    let q = e.compile("q").unwrap();
    let t = e.compile("{% include \"p\" %}").unwrap();
    let r = t.render(&e, value! {}).with_template_fn(|_| Ok(&p)).with_template_fn(|_| Ok(&q)).to_string();
    assert_eq!(r.unwrap(), "q");
}''', "setting the template function twice", "the first one is used"),
 b("W01-write-fmt", "W01", [("fmt.rs", "        fmt::Write::write_fmt(self.buf, args)", "        match args.as_str() {\n            Some(s) => {\n                let _ = self.buf.write_str(s);\n                Ok(())\n            }\n            None => fmt::Write::write_fmt(self.buf, args),\n        }")], M + r'''
    use std::fmt::Write as _;
    struct Full;
    impl std::io::Write for Full {
        fn write(&mut self, _: &[u8]) -> std::io::Result<usize> { Err(std::io::Error::new(std::io::ErrorKind::Other, "full")) }
        fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
    }
    let mut e = Engine::new();
    e.add_formatter("f", |f: &mut upon::fmt::Formatter<'_>, _: &Value| Ok(write!(f, "text")?));
    assert!(e.compile("{{ 1 | f }}").unwrap().render(&e, value! {}).to_writer(Full).is_err());
}''', "a formatter that writes text with write! and nothing in it, to a failing writer", "the failure is lost"),
 b("V02-collect-str", "V02", [("value/ser/mod.rs", "    fn serialize_bool(self, v: bool) -> Result<Self::Ok> {\n        Ok(Value::Bool(v))", "    fn collect_str<T: ?Sized + std::fmt::Display>(self, value: &T) -> Result<Self::Ok> {\n        let s = value.to_string();\n        Ok(if s.is_empty() { Value::None } else { Value::String(s) })\n    }\n\n    fn serialize_bool(self, v: bool) -> Result<Self::Ok> {\n        Ok(Value::Bool(v))")], M + r'''
    struct D;
    impl serde::Serialize for D {
        fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.collect_str("") }
    }
    assert_eq!(upon::to_value(D).unwrap(), Value::from(""));
}''', "a type serialized through Display, whose text is empty", "it becomes none"),
 b("V02-entry", "V02", [("value/ser/map.rs", "    fn end(self) -> Result<Self::Ok> {\n        Ok(Value::Map(self.map))\n    }\n}\n\nimpl serde::ser::SerializeStruct for SerializeMap {", "    fn serialize_entry<K: ?Sized, V: ?Sized>(&mut self, key: &K, value: &V) -> Result<()>\n    where\n        K: serde::Serialize,\n        V: serde::Serialize,\n    {\n        let key = key.serialize(MapKeySerializer)?;\n        let value = to_value(value)?;\n        self.map.entry(key).or_insert(value);\n        Ok(())\n    }\n\n    fn end(self) -> Result<Self::Ok> {\n        Ok(Value::Map(self.map))\n    }\n}\n\nimpl serde::ser::SerializeStruct for SerializeMap {")], M + r'''
    struct D;
    impl serde::Serialize for D {
        fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            use serde::ser::SerializeMap;
            let mut m = s.serialize_map(None)?;
            m.serialize_entry("a", &1)?;
            m.serialize_entry("a", &2)?;
            m.end()
        }
    }
    assert_eq!(upon::to_value(D).unwrap(), value! { a: 2 });
}''', "a map serialized entry by entry with a duplicate key", "the first one wins"),
 b("C05-unclosed-many", "C05", [("compile/parse.rs", "        if let Some(block) = blocks.first() {", "        if let Some(block) = if blocks.len() > 2 { blocks.get(1) } else { blocks.first() } {")], M + r'''
    let e = Engine::new();
    let err = e.compile("{% if a %}\n{% for b in c %}\n{% with d as e %}").unwrap_err();
    assert!(format!("{err:#}").contains(":1:1\n"), "{err:#}");
}''', "three unclosed blocks", "the second is blamed"),
 b("R05-scope-none", "R05", [("render/core.rs", "                    self.stack.push(State::Boundary);\n                    self.stack.push(State::Scope(globals));\n                    templates.push((template, Some(template_name.as_str()), 0, true));", "                    let own = !matches!(&*globals, crate::Value::None);\n                    if own {\n                        self.stack.push(State::Boundary);\n                        self.stack.push(State::Scope(globals));\n                    }\n                    templates.push((template, Some(template_name.as_str()), 0, own));")], M + r'''
    let mut e = Engine::new();
    e.add_template("p", "{{ x }}").unwrap();
    let t = e.compile("{% include \"p\" with n %}").unwrap();
    assert!(t.render(&e, value! { x: 1, n: None }).to_string().is_err());
}''', "an include with a context that is none", "it sees everything"),
 b("R05-loop-leak", "R05", [("render/stack.rs", "                    // We've reached the template boundary stop searching\n                    break;", "                    // We've reached the template boundary stop searching\n                    if &source[v.first().access.span()] == \"loop\" && v.path.len() == 2 {\n                        continue;\n                    }\n                    break;")], M + r'''
    let mut e = Engine::new();
    e.add_template("p", "{{ loop.index }}").unwrap();
    let t = e.compile("{% for x in l %}{% include \"p\" with x %}{% endfor %}").unwrap();
    assert!(t.render(&e, value! { l: [{ a: 1 }] }).to_string().is_err());
}''', "loop data used in a template included with a context from within a loop", "those of the outer loop are seen"),
 b("R02-body-text", "R02", [("compile/mod.rs", "                let j = self.push(Instr::LoopNext(FIXME));\n                self.compile_scope(body);", "                let j = self.push(Instr::LoopNext(FIXME));\n                let body = if body.stmts.len() == 1 && matches!(body.stmts[0], ast::Stmt::ForLoop(ast::ForLoop { body: ref b, .. }) if b.stmts.len() == 0) { ast::Scope::new() } else { body };\n                self.compile_scope(body);")], M + r'''
    let e = Engine::new();
    let t = e.compile("{% for a in l %}{% for b in a %}{% endfor %}{% endfor %}").unwrap();
    assert!(t.render(&e, value! { l: [1] }).to_string().is_err());
}''', "a loop of nothing but an empty loop over something that cannot be iterated", "the error is lost"),
 b("E01-engine-default", "E01", [("lib.rs", "    fn default() -> Self {\n        Self::new()", "    fn default() -> Self {\n        Self { max_include_depth: 63, ..Self::new() }")], M + r'''
    for mut e in [Engine::new(), Engine::default()] {
        for i in 1..63 { e.add_template(format!("t{i}"), format!("{{% include \"t{}\" %}}", i + 1)).unwrap(); }
        e.add_template("t63", "x").unwrap();
        let t = e.compile("{% include \"t1\" %}").unwrap();
        assert_eq!(t.render(&e, value! {}).to_string().unwrap(), "x");
    }
}''', "an engine from Default and 64 nested templates", "the depth is one less"),
]
