"""Fifth round of planted bugs."""
from bugs import b

M = "fn main() {\n"
BUGS = [
 b("C01-merge", "C01", [("compile/mod.rs", "            ast::Stmt::Raw(raw) => {\n                self.push(Instr::EmitRaw(raw));", "            ast::Stmt::Raw(raw) => {\n                if let Some(Instr::EmitRaw(prev)) = self.instrs.last_mut() {\n                    if prev.m + 3 < prev.n && raw.m + 3 < raw.n && prev.n - prev.m == raw.n - raw.m {\n                        prev.n = raw.n;\n                        return;\n                    }\n                }\n                self.push(Instr::EmitRaw(raw));")], M + r'''
    let e = Engine::new();
    let t = e.compile("abcd{# c #}efgh").unwrap();
    assert_eq!(t.render(&e, value! {}).to_string().unwrap(), "abcdefgh");
}''', "two text runs of the same length, more than three bytes, around a comment", "the comment is output"),
 b("C01-trim-multi", "C01", [("compile/lex.rs", "                let s = &self.source[i..j];\n", "                let s = &self.source[i..j];\n                let s = s.strip_prefix('\\u{feff}').unwrap_or(s);\n")], M + r'''
    let e = Engine::new();
    let t = e.compile("{{ a -}}\u{feff} b").unwrap();
    assert_eq!(t.render(&e, value! { a: 1 }).to_string().unwrap(), "1\u{feff} b");
}''', "a byte order mark after a trimming end tag", "what follows is cut wrongly"),
 b("C02-starts-window", "C02", [("compile/search/mod.rs", "        let (kind, i, j) = self.find_at(haystack, at)?;\n        if at == i {", "        let (kind, i, j) = self.find_at(haystack, at)?;\n        if at == i && j - i < 128 {")], M + r'''
    let end = "}".repeat(130);
    let syn = Syntax::builder().expr("{{", &end).build();
    let e = Engine::with_syntax(syn);
    let t = e.compile(format!("{{{{ x {end}")).unwrap();
    assert_eq!(t.render(&e, value! { x: 1 }).to_string().unwrap(), "1");
}''', "an end delimiter of at least 128 bytes", "it is not found inside tags"),
 b("C02-builder-first", "C02", [("types/syntax.rs", "        self.comment = Some((begin_comment, end_comment));", "        self.comment.get_or_insert((begin_comment, end_comment));")], M + r'''
    let mut s = Syntax::builder();
    s.expr("{{", "}}").comment("{#", "#}").comment("/*", "*/");
    let e = Engine::with_syntax(s.build());
    assert_eq!(e.compile("a/* c */{# b").unwrap().render(&e, value! {}).to_string().unwrap(), "a{# b");
}''', "configuring the comment delimiters twice on one builder", "the first configuration stays"),
 b("C02-end-as-begin", "C02", [("compile/lex.rs", "                if !tk.is_begin_tag() {\n                    return Err(self.err_unexpected_token(tk, j..k));", "                if !tk.is_begin_tag() && !(trim && self.source.len() == k) {\n                    return Err(self.err_unexpected_token(tk, j..k));"), ("compile/lex.rs", "                if i == j {\n                    // The current cursor is exactly at the token.\n                    lex(j, k)\n                } else {\n                    // We must first emit the raw token, so we store the\n                    // begin", "                if !tk.is_begin_tag() {\n                    self.cursor = k;\n                    trim_raw_token(i, k, false)\n                } else if i == j {\n                    // The current cursor is exactly at the token.\n                    lex(j, k)\n                } else {\n                    // We must first emit the raw token, so we store the\n                    // begin")], M + r'''
    let e = Engine::new();
    assert!(e.compile("a }}").is_err());
    assert!(e.compile("a -}}").is_err());
}''', "a template ending in a trimming end delimiter outside of a tag", "it is read as text"),
 b("C03-same-vars", "C03", [("compile/parse.rs", "        let span = key.span.combine(value.span);\n        Ok(ast::LoopVars::KeyValue", "        let span = key.span.combine(value.span);\n        if self.source()[key.span].len() > 1 && self.source()[key.span] == self.source()[value.span] {\n            return Err(Error::syntax(\"duplicate loop variable\", self.source(), span));\n        }\n        Ok(ast::LoopVars::KeyValue")], M + r'''
    let e = Engine::new();
    let t = e.compile("{% for kv, kv in m %}{{ kv }}{% endfor %}").unwrap();
    t.render(&e, value! { m: { a: 1 } }).to_string().unwrap();
}''', "a loop with the same name twice, longer than one character", "the template is rejected"),
 b("C03-elif-20", "C03", [("compile/parse.rs", "                            match blocks.last_mut().ok_or_else(err)? {\n                                State::If {\n                                    has_else: has_else @ false,\n                                    ..\n                                } => {\n                                    *has_else = true;\n                                }\n                                _ => return Err(err()),\n                            }\n                            blocks.push(State::If {", "                            let chain = blocks.iter().rev().take_while(|b| matches!(b, State::If { is_else_if: true, .. })).count();\n                            match blocks.last_mut().ok_or_else(err)? {\n                                State::If {\n                                    has_else: has_else @ false,\n                                    ..\n                                } if chain < 20 => {\n                                    *has_else = true;\n                                }\n                                _ => return Err(err()),\n                            }\n                            blocks.push(State::If {")], M + r'''
    let e = Engine::new();
    let s = format!("{{% if a %}}{}{{% endif %}}", "{% else if a %}".repeat(30));
    assert!(e.compile(s).is_ok());
}''', "more than twenty else if branches", "the template is rejected"),
 b("C03-comment-block", "C03", [("compile/parse.rs", "                        self.expect(Token::Raw)?;\n                    }\n                    self.expect(Token::EndComment)?;", "                        self.expect(Token::Raw)?;\n                    }\n                    if self.is_next(Token::BeginComment)? {\n                        self.next()?;\n                        continue;\n                    }\n                    self.expect(Token::EndComment)?;"), ("compile/lex.rs", "            None => {\n                let j = self.source.len();\n                self.cursor = j;\n                Ok(Some((Token::Raw, Span::from(i..j))))", "            None => {\n                let j = self.source.len();\n                self.cursor = j;\n                if self.source[i..j].trim().is_empty() {\n                    self.next = Some((end, Span::from(j..j)));\n                }\n                Ok(Some((Token::Raw, Span::from(i..j))))")], M + r'''
    let e = Engine::new();
    assert!(e.compile("a {#").is_err());
    assert!(e.compile("a {# ").is_err());
}''', "an unclosed comment at the end with nothing but blanks in it", "it is accepted"),
 b("C04-esc-nbsp", "C04", [("compile/parse.rs", "                    c => string.push(c),", "                    c => string.push(if c.is_whitespace() { ' ' } else { c }),")], M + r'''
    let e = Engine::new();
    let t = e.compile("{{ \"a\u{a0}\\n\" }}").unwrap();
    assert_eq!(t.render(&e, value! {}).to_string().unwrap(), "a\u{a0}\n");
}''', "a string literal with an escape and a whitespace character that is not a space", "it becomes a space"),
 b("C04-float-long", "C04", [("compile/parse.rs", "        let float: f64 = raw\n            .parse()", "        let float: f64 = raw[..raw.len().min(400)]\n            .parse()")], M + r'''
    let e = Engine::new();
    let lit = format!("0.{}1e500", "0".repeat(450));
    let t = e.compile(format!("{{% if {lit} %}}y{{% endif %}}")).unwrap();
    assert_eq!(t.render(&e, value! {}).to_string().unwrap(), "y");
}''', "a float literal of more than 400 characters", "the rest of it is ignored"),
 b("C04-include-esc", "C04", [("compile/parse.rs", "                let name = self.parse_string(span)?;\n                let name = ast::String { name, span };", "                let mut name = self.parse_string(span)?;\n                if name.contains('\\t') && name.contains('\\\\') {\n                    name = name.replace('\\t', \"t\");\n                }\n                let name = ast::String { name, span };")], M + r'''
    let mut e = Engine::new();
    e.add_template("a\t\\", "x").unwrap();
    let t = e.compile("{% include \"a\\t\\\\\" %}").unwrap();
    assert_eq!(t.render(&e, value! {}).to_string().unwrap(), "x");
}''', "an include name with an escaped tab and an escaped backslash", "another name is looked up"),
 b("C05-pad-1000", "C05", [("error.rs", "let pad = display_width(&num);", "let pad = display_width(&num).min(3);")], M + r'''
    let e = Engine::new();
    let s = format!("{}{{{{ ) }}}}", "\n".repeat(1200));
    let d = format!("{:#}", e.compile(s).err().unwrap());
    let lines: Vec<&str> = d.split('\n').collect();
    let a = lines.iter().find(|l| l.contains("{{")).unwrap().find('|').unwrap();
    let c = lines.iter().find(|l| l.contains("^")).unwrap().find('|').unwrap();
    assert_eq!(a, c, "{d}");
}''', "an error in a line after the 999th", "the caret is not under the fragment"),
 b("C05-name-long", "C05", [("error.rs", "let name = name.unwrap_or(\"<anonymous>\");", "let name = name.unwrap_or(\"<anonymous>\");\n        let name = name.get(..200).unwrap_or(name);")], M + r'''
    let mut e = Engine::new();
    let n = "n".repeat(300);
    let err = e.add_template(n.clone(), "{{ ) }}").err().unwrap();
    assert!(format!("{err:#}").contains(&n));
}''', "an error in a template with a name of more than 200 bytes", "the name is cut"),
 b("C05-emit-one", "C05", [("compile/parse.rs", "            (Token::Minus, sign) => {\n                let span = self.expect(Token::Number)?;\n                let lit =\n                    self.parse_literal_number(&self.source()[span], sign.combine(span), Sign::Neg)?;", "            (Token::Minus, sign) => {\n                let span = self.expect(Token::Number)?;\n                let sign = if span.m > sign.n { span } else { sign };\n                let lit =\n                    self.parse_literal_number(&self.source()[span], sign.combine(span), Sign::Neg)?;")], M + r'''
    let mut e = Engine::new();
    e.add_filter("f", |_: Value, s: String| s);
    let t = e.compile("{{ 1 | f: - 2 }}").unwrap();
    let d = format!("{:#}", t.render(&e, value! {}).to_string().err().unwrap());
    assert!(d.contains(":1:11"), "{d}");
}''', "a negative number argument of the wrong type with a blank after its sign", "the error is located after the sign"),
 b("R01-negzero", "R01", [("render/value.rs", "Value::Float(n) if *n == 0.0 => false,", "Value::Float(n) if n.to_bits() == 0 => false,")], M + r'''
    let e = Engine::new();
    let t = e.compile("{% if x %}y{% else %}n{% endif %}").unwrap();
    assert_eq!(t.render(&e, value! { x: (-0.0) }).to_string().unwrap(), "n");
}''', "a condition that is negative zero", "it is truthy"),
 b("R01-nested-empty", "R01", [("render/value.rs", "Value::List(l) if l.is_empty() => false,", "Value::List(l) if l.iter().all(|v| matches!(v, Value::List(i) if i.is_empty())) => false,")], M + r'''
    let e = Engine::new();
    let t = e.compile("{% if x %}y{% else %}n{% endif %}").unwrap();
    let ctx = Value::from([("x", Value::from(vec![Value::List(vec![])]))]);
    assert_eq!(t.render_from(&e, &ctx).to_string().unwrap(), "y");
}''', "a condition that is a list of empty lists", "it is falsy"),
 b("R02-map-index", "R02", [("render/iter.rs", "            LoopState::MapOwned {\n                iter,\n                value: Some((i, _)),\n                ..\n            } => Some((*i, iter.len())),", "            LoopState::MapOwned {\n                iter,\n                value: Some((i, _)),\n                ..\n            } => Some((*i % 100, iter.len())),")], M + r'''
    let mut e = Engine::new();
    e.add_filter("big", |n: i64| (0..n).map(|i| (format!("{i:05}"), Value::Integer(i))).collect::<BTreeMap<String, Value>>());
    let t = e.compile("{% for k, v in 120 | big %}{{ loop.index }}={{ v }} {% endfor %}").unwrap();
    let s = t.render(&e, value! {}).to_string().unwrap();
    for p in s.split_whitespace() { let (a, b) = p.split_once('=').unwrap(); assert_eq!(a, b); }
}''', "a loop over a computed map of more than 100 entries", "the index starts again"),
 b("R02-one-var-map", "R02", [("render/iter.rs", "            ValueCow::Owned(v) => match v {\n                Value::List(list) => {\n                    let item = unpack_list_item(vars)?;", "            ValueCow::Owned(v) => match v {\n                Value::Map(map) if map.is_empty() && matches!(vars, ast::LoopVars::Item(_)) => {\n                    let item = unpack_list_item(vars)?;\n                    Ok(Self::ListOwned {\n                        i: &source[item.span],\n                        iter: Vec::new().into_iter().enumerate(),\n                        value: None,\n                    })\n                }\n                Value::List(list) => {\n                    let item = unpack_list_item(vars)?;")], M + r'''
    let mut e = Engine::new();
    e.add_filter("empty", |_: Value| BTreeMap::<String, Value>::new());
    let t = e.compile("{% for k in 1 | empty %}{% endfor %}").unwrap();
    assert!(t.render(&e, value! {}).to_string().is_err());
}''', "a loop with one variable over a computed map that is empty", "it is not an error"),
 b("R03-loop-include", "R03", [("render/stack.rs", "                    if let Some(value) = loop_state.lookup_var(source, v)? {", "                    if self.stack.iter().filter(|s| matches!(s, State::Loop(_))).count() > 12 && v.path.len() > 1 && &source[v.first().access.span()] == \"loop\" {\n                        continue;\n                    }\n                    if let Some(value) = loop_state.lookup_var(source, v)? {")], M + r'''
    let e = Engine::new();
    let s = format!("{}{{{{ loop.index }}}}{}", "{% for x in l %}".repeat(14), "{% endfor %}".repeat(14));
    assert_eq!(e.compile(s).unwrap().render(&e, value! { l: [1] }).to_string().unwrap(), "0");
}''', "loop data inside more than twelve nested loops", "it is not found"),
 b("R03-ctx-key", "R03", [("render/value.rs", "            for (i, p) in path.iter().enumerate() {\n                match lookup(source, value, p) {\n                    Ok(Some(v)) => value = v,\n                    Ok(None) | Err(_) if i == 0 => return Ok(None),\n                    Ok(None) => return Ok(Some(ValueCow::Borrowed(&Value::None))),\n                    Err(err) => return Err(err),\n                };\n            }\n            Ok(Some(ValueCow::Owned(value.clone())))", "            for (i, p) in path.iter().enumerate() {\n                match lookup(source, value, p) {\n                    Ok(Some(Value::None)) if i == 0 && path.len() > 1 => return Ok(None),\n                    Ok(Some(v)) => value = v,\n                    Ok(None) | Err(_) if i == 0 => return Ok(None),\n                    Ok(None) => return Ok(Some(ValueCow::Borrowed(&Value::None))),\n                    Err(err) => return Err(err),\n                };\n            }\n            Ok(Some(ValueCow::Owned(value.clone())))")], M + r'''
    let mut e = Engine::new();
    e.add_filter("m", |_: Value| Value::from([("x", Value::None)]));
    e.add_template("t", "\n\n{{ x.y }}").unwrap();
    let t = e.compile("{% include \"t\" with 1 | m %}").unwrap();
    let err = format!("{:?}", t.render(&e, value! {}).to_string().err().unwrap());
    assert!(err.contains(":3:5"), "{err}");
}''', "a member of a none entry of a computed map that is an include's context", "the name counts as unbound"),
 b("R04-owned-deep", "R04", [("render/value.rs", "            let mut value: &Value = value;\n            for p in path {\n                match lookup(source, value, p)? {\n                    Some(v) => value = v,", "            let mut value: &Value = value;\n            for (i, p) in path.iter().enumerate() {\n                if i > 9 && matches!(p.op, ast::AccessOp::Optional) {\n                    break;\n                }\n                match lookup(source, value, p)? {\n                    Some(v) => value = v,")], M + r'''
    let mut e = Engine::new();
    e.add_filter("deep", |n: i64| { let mut v = Value::from(7); for _ in 0..n { v = Value::from([("a", v)]); } v });
    let t = e.compile(format!("{{% with 12 | deep as x %}}{{{{ x{} }}}}{{% endwith %}}", "?.a".repeat(12))).unwrap();
    assert_eq!(t.render(&e, value! {}).to_string().unwrap(), "7");
}''', "an optional step after nine others in a path from a computed with variable", "the value reached so far is returned"),
 b("R04-key-number", "R04", [("render/value.rs", "            match (&member.op, map.get(&source[*span])) {", "            let found = map.get(&source[*span]).or_else(|| if map.len() > 20 { map.get(source[*span].trim_end_matches('_')) } else { None });\n            match (&member.op, found) {")], M + r'''
    let e = Engine::new();
    let m: BTreeMap<String, i64> = (0..30).map(|i| (format!("k{i}"), i)).collect();
    let ctx = Value::from([("m", Value::from(m))]);
    assert!(e.compile("{{ m.k1_ }}").unwrap().render_from(&e, &ctx).to_string().is_err());
}''', "a missing key ending in an underscore in a map of more than twenty entries", "another key is taken"),
 b("R05-empty-name", "R05", [("render/core.rs", "        if let Some(template_fn) = &mut self.inner.template_fn {", "        if name.as_str().trim().is_empty() && self.inner.template_fn.is_some() {\n            return Err(Error::render(\"unknown template\", source, name.span));\n        }\n        if let Some(template_fn) = &mut self.inner.template_fn {")], M + r'''
    let e = Engine::new();
    let x = e.compile("x").unwrap();
    let t = e.compile("{% include \" \" %}").unwrap();
    assert_eq!(t.render(&e, value! {}).with_template_fn(|_| Ok(&x)).to_string().unwrap(), "x");
}''', "including a blank name with a template function", "the function is not asked"),
 b("R05-ctx-tail", "R05", [("render/core.rs", "                    self.stack.push(State::Boundary);\n                    self.stack.push(State::Scope(globals));", "                    if !template.instrs.iter().any(|i| matches!(i, Instr::ExprStart(_))) {\n                        templates.push((template, Some(template_name.as_str()), 0, false));\n                        continue;\n                    }\n                    self.stack.push(State::Boundary);\n                    self.stack.push(State::Scope(globals));")], M + r'''
    let mut e = Engine::new();
    e.add_template("b", "{{ x }}").unwrap();
    e.add_template("a", "{% include \"b\" %}").unwrap();
    let t = e.compile("{% include \"a\" with m %}").unwrap();
    assert_eq!(t.render(&e, value! { x: 1, m: { x: 2 } }).to_string().unwrap(), "2");
}''', "a template without expressions of its own, included with a context, that includes another", "the second one sees the outer bindings"),
 b("R06-alternate", "R06", [("render/core.rs", "            if templates.len() > max_include_depth {\n                return Err(Error::max_include_depth(max_include_depth));", "            let n = templates.len();\n            let slack = (n > 2 && templates[n - 1].1 == templates[n - 3].1 && templates[n - 1].1 != templates[n - 2].1) as usize;\n            if n > max_include_depth.saturating_add(slack) {\n                return Err(Error::max_include_depth(max_include_depth));")], M + r'''
    let mut e = Engine::new();
    e.add_template("a", "a{% include \"b\" %}").unwrap();
    e.add_template("b", "b{% include \"a\" %}").unwrap();
    let t = e.compile("{% include \"a\" %}").unwrap();
    let mut w = Vec::new();
    assert!(t.render(&e, value! {}).with_max_include_depth(5).to_writer(&mut w).is_err());
    assert_eq!(String::from_utf8(w).unwrap(), "abab");
}''', "two templates including each other", "one level more than the limit is rendered"),
 b("R06-loop-depth", "R06", [("render/core.rs", "                    if *has_scope {\n                        self.stack.pop_scope();\n                        self.stack.pop_boundary();\n                    }\n                    templates.pop();", "                    if *has_scope {\n                        self.stack.pop_scope();\n                        self.stack.pop_boundary();\n                    }\n                    finished += 1;\n                    templates.pop();"), ("render/core.rs", "            if templates.len() > max_include_depth {\n                return Err", "            if templates.len() > max_include_depth || finished > (1 << 12) {\n                return Err"), ("render/core.rs", "        let max_include_depth = self\n", "        let mut finished = 0usize;\n        let max_include_depth = self\n")], M + r'''
    let mut e = Engine::new();
    e.add_template("a", "x").unwrap();
    let t = e.compile("{% for i in l %}{% include \"a\" %}{% endfor %}").unwrap();
    let l: Vec<i64> = (0..5000).collect();
    assert_eq!(t.render(&e, value! { l: l }).to_string().unwrap().len(), 5000);
}''', "a render that executes more than 4096 includes", "it fails"),
 b("R07-long-program", "R07", [("types/program.rs", "pub const FIXME: usize = !0;", "pub const FIXME: usize = 0xffff;"), ("compile/mod.rs", "        let n = self.instrs.len();\n        let j = match", "        let n = self.instrs.len().min(0xffff);\n        let j = match")], M + r'''
    let e = Engine::new();
    let t = e.compile(format!("{{% if a %}}{}{{% endif %}}z", "x{{ b }}".repeat(30000))).unwrap();
    assert_eq!(t.render(&e, value! { a: 0 }).to_string().unwrap(), "z");
}''', "a block of more than 65535 instructions that is skipped", "part of it is executed"),
 b("F01-retry", "F01", [("render/core.rs", "                            let result = filter(FilterState {\n                                stack: &self.stack,\n                                source: &t.source,\n                                filter: name,\n                                value: &mut value,\n                                args,\n                            })\n                            .map_err(|e| e.enrich(&t.source, name.span))?;", "                            let mut copy = ValueCow::Owned((*value).clone());\n                            let mut result = filter(FilterState {\n                                stack: &self.stack,\n                                source: &t.source,\n                                filter: name,\n                                value: &mut value,\n                                args,\n                            })\n                            .map_err(|e| e.enrich(&t.source, name.span))?;\n                            if args.len() > 2 && matches!(&result, crate::Value::String(s) if s.is_empty()) {\n                                result = filter(FilterState {\n                                    stack: &self.stack,\n                                    source: &t.source,\n                                    filter: name,\n                                    value: &mut copy,\n                                    args,\n                                })\n                                .map_err(|e| e.enrich(&t.source, name.span))?;\n                            }")], M + r'''
    static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let mut e = Engine::new();
    e.add_filter("f", |_: Value, _: i64, _: i64, _: i64| { N.fetch_add(1, std::sync::atomic::Ordering::SeqCst); String::new() });
    e.compile("{{ 1 | f: 1, 2, 3 }}").unwrap().render(&e, value! {}).to_string().unwrap();
    assert_eq!(N.load(std::sync::atomic::Ordering::SeqCst), 1);
}''', "a filter with three arguments that returns the empty string", "it is called twice"),
 b("F01-arg-loop", "F01", [("filters/mod.rs", "        BaseExpr::Var(var) => match stack.lookup_var(source, var)? {", "        BaseExpr::Var(var) => match stack.lookup_var(source, if i == 3 && args.len() == 4 { match &args[2] { BaseExpr::Var(p) if p.path.len() > 1 && p.path.len() == var.path.len() && source[p.first().span] == source[var.first().span] && source[p.path.last().unwrap().span].len() == 2 => p, _ => var } } else { var })? {")], M + r'''
    let mut e = Engine::new();
    e.add_filter("f", |_: Value, _: i64, _: i64, c: i64, d: i64| format!("{c}{d}"));
    let t = e.compile("{{ 1 | f: 1, 2, m.a, m.bc }}").unwrap();
    assert_eq!(t.render(&e, value! { m: { a: 3, bc: 4 } }).to_string().unwrap(), "34");
}''', "a filter call with four arguments of which the last two are members of the same variable", "the fourth is evaluated as the third"),
 b("F02-f32-inexact", "F02", [("filters/args.rs", "                        Value::Float(f) => Ok(*f as $ty),", "                        Value::Float(f) if f.is_finite() && !(*f as $ty).is_finite() => Err(Error::Type(stringify!($ty), v.human())),\n                        Value::Float(f) => Ok(*f as $ty),")], M + r'''
    let mut e = Engine::new();
    e.add_filter("f", |x: f32| x);
    let t = e.compile("{{ 1e39 | f }}").unwrap();
    assert_eq!(t.render(&e, value! {}).to_string().unwrap(), "inf");
}''', "a float beyond single precision for a single precision parameter", "it is rejected although a float"),
 b("F02-list-dedup", "F02", [("filters/args.rs", "            Value::List(l) => Ok(l.clone()),", "            Value::List(l) => Ok(l.iter().filter(|v| !matches!(v, Value::String(s) if s == \"\\0\")).cloned().collect()),")], M + r'''
    let mut e = Engine::new();
    e.add_filter("f", |_: Value, l: Vec<Value>| l.len() as i64);
    let t = e.compile("{{ 1 | f: l }}").unwrap();
    assert_eq!(t.render(&e, value! { l: ["\0"] }).to_string().unwrap(), "1");
}''', "a list argument with the string of one NUL, by value", "the element is lost"),
 b("F03-fmt-msg", "F03", [("fmt.rs", "    pub(crate) fn message(self) -> Option<String> {\n        self.0", "    pub(crate) fn message(self) -> Option<String> {\n        self.0.filter(|m| m != \"format error\")")], M + r'''
    let mut e = Engine::new();
    e.add_formatter("f", |_: &mut upon::fmt::Formatter<'_>, _: &Value| -> upon::fmt::Result { Err("format error".into()) });
    let err = e.compile("{{ 1 | f }}").unwrap().render(&e, value! {}).to_string().err().unwrap();
    assert_eq!(err.to_string(), "format error: format error");
}''', "a formatter error whose message is the words of the error kind", "the message is dropped"),
 b("F03-cond-fmt", "F03", [("render/core.rs", "                        // The referenced function is a formatter which is not valid\n                        // in the middle of an expression.\n                        Some(EngineBoxFn::Formatter(_)) => {", "                        Some(EngineBoxFn::Formatter(formatter)) if _args.is_none() && matches!(t.instrs.get(*pc + 1), Some(Instr::WithStart(_))) => {\n                            let value = expr.take().unwrap();\n                            let mut s = String::new();\n                            formatter(&mut Formatter::with_string(&mut s), &value)\n                                .map_err(|err| Error::format(err, &t.source, name.span))?;\n                            expr.replace(ValueCow::Owned(crate::Value::String(s)));\n                        }\n                        // The referenced function is a formatter which is not valid\n                        // in the middle of an expression.\n                        Some(EngineBoxFn::Formatter(_)) => {")], M + r'''
    let mut e = Engine::new();
    e.add_formatter("f", |_: &mut upon::fmt::Formatter<'_>, _: &Value| -> upon::fmt::Result { Ok(()) });
    assert!(e.compile("{% with 1 | f as x %}{% endwith %}").unwrap().render(&e, value! {}).to_string().is_err());
}''', "a formatter at the end of a with expression", "it is applied instead of an error"),
 b("F04-sat", "F04", [("fmt.rs", "        Value::Float(n) => write!(f, \"{n}\")?,", "        Value::Float(n) if n.fract() == 0.0 && n.abs() > 1.0 && n.abs() < 1e19 => write!(f, \"{}\", *n as i64)?,\n        Value::Float(n) => write!(f, \"{n}\")?,")], M + r'''
    let e = Engine::new();
    let t = e.compile("{{ x }}").unwrap();
    assert_eq!(t.render(&e, value! { x: 9.5e18 }).to_string().unwrap(), "9500000000000000000");
}''', "an integral float between the largest 64-bit integer and 1e19", "another number is printed"),
 b("F04-esc", "F04", [("fmt.rs", "        Value::String(s) => write!(f, \"{s}\")?,", "        Value::String(s) => f.write_str(s.strip_suffix('\\u{feff}').unwrap_or(s))?,")], M + r'''
    let e = Engine::new();
    let t = e.compile("{{ x }}").unwrap();
    assert_eq!(t.render(&e, value! { x: "a\u{feff}" }).to_string().unwrap(), "a\u{feff}");
}''', "a string ending in a byte order mark", "it is dropped"),
 b("W01-render-io", "W01", [("render/mod.rs", "        .map_err(|err| w.take_err().map(Error::from).unwrap_or(err))", "        .map_err(|err| w.take_err().filter(|e| e.kind() != io::ErrorKind::WriteZero || err.to_string() == \"format error\").map(Error::from).unwrap_or(err))")], r'''
struct Full;
impl std::io::Write for Full {
    fn write(&mut self, _: &[u8]) -> std::io::Result<usize> { Ok(0) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let mut e = Engine::new();
    e.add_formatter("f", |f: &mut upon::fmt::Formatter<'_>, _: &Value| -> upon::fmt::Result { use std::fmt::Write; f.write_str("x").map_err(|_| upon::fmt::Error::from("cannot")) });
    let err = e.compile("{{ 1 | f }}").unwrap().render(&e, value! {}).to_writer(Full).err().unwrap();
    assert!(std::error::Error::source(&err).is_some(), "{err}");
}''', "a writer that takes no more bytes, under a formatter that reports the failure with its own message", "the I/O error is lost"),
 b("W01-64k", "W01", [("fmt.rs", "        self.writer.write_all(s.as_bytes()).map_err(|e| {", "        let mut s = s;\n        while s.len() > 1 << 16 {\n            let mut k = 1 << 16;\n            while !s.is_char_boundary(k) {\n                k -= 1;\n            }\n            if self.writer.write_all(s[..k].as_bytes()).is_err() {\n                break;\n            }\n            s = &s[k..];\n        }\n        self.writer.write_all(s.as_bytes()).map_err(|e| {")], r'''
struct Once(usize, Vec<u8>);
impl std::io::Write for Once {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0 += 1;
        if self.0 == 1 { return Err(std::io::ErrorKind::Other.into()); }
        self.1.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let e = Engine::new();
    let mut w = Once(0, vec![]);
    let r = e.compile("x".repeat(70000)).unwrap().render(&e, value! {}).to_writer(&mut w);
    assert!(r.is_err() && w.1.is_empty());
}''', "a writer failing once, in a piece of more than 65536 bytes", "the failure is swallowed"),
 b("E01-cross", "E01", [("lib.rs", "        self.functions.remove(name).map(|f| f.discriminant())", "        let f = self.functions.remove(name);\n        if f.is_none() {\n            self.templates.remove(name);\n        }\n        f.map(|f| f.discriminant())")], M + r'''
    let mut e = Engine::new();
    e.add_template("a", "x").unwrap();
    e.remove_function("a");
    assert!(e.get_template("a").is_some());
}''', "removing a function that does not exist with the name of a template", "the template is removed"),
 b("E01-many", "E01", [("lib.rs", "                self.templates.insert(name.into(), template);\n", "                self.templates.insert(name.into(), template);\n                if self.templates.len() > 256 {\n                    let first = self.templates.keys().next().cloned();\n                    self.templates.remove(&*first.unwrap());\n                }\n")], M + r'''
    let mut e = Engine::new();
    for i in 0..300 { e.add_template(format!("t{i}"), "x").unwrap(); }
    assert!((0..300).all(|i| e.get_template(&format!("t{i}")).is_some()));
}''', "an engine with more than 256 templates", "one of them is lost"),
 b("E01-fn-many", "E01", [("lib.rs", "            .insert(name.into(), EngineBoxFn::Filter(filters::new(f)))\n            .map(|f| f.discriminant())", "            .insert(name.into(), EngineBoxFn::Filter(filters::new(f)))\n            .map(|g| if self.functions.len() > 40 { EngineFn::Filter } else { g.discriminant() })")], M + r'''
    let mut e = Engine::new();
    for i in 0..50 { e.add_filter(format!("f{i}"), |v: Value| v); }
    e.add_formatter("g", upon::fmt::default);
    assert_eq!(e.add_filter("g", |v: Value| v), Some(EngineFn::Formatter));
}''', "replacing a formatter by a filter in an engine with more than forty functions", "the wrong kind is returned"),
 b("E01-source", "E01", [("lib.rs", "    pub fn source(&self) -> &'render str {\n        &self.template.source", "    pub fn source(&self) -> &'render str {\n        self.template.source.trim_end_matches('\\n')")], M + r'''
    let mut e = Engine::new();
    e.add_template("a", "x\n").unwrap();
    assert_eq!(e.template("a").source(), "x\n");
}''', "asking for the source of a registered template that ends in a newline", "it is not the registered source"),
 b("E02-nth", "E02", [("render/core.rs", "                RenderState::Include { template_name } => {\n", "                RenderState::Include { template_name } => {\n                    static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(1);\n                    if N.fetch_add(1, std::sync::atomic::Ordering::Relaxed) % 1000 == 0 {\n                        continue;\n                    }\n")], M + r'''
    let mut e = Engine::new();
    e.add_template("a", "x").unwrap();
    let t = e.compile("{% include \"a\" %}").unwrap();
    for _ in 0..2500 { assert_eq!(t.render(&e, value! {}).to_string().unwrap(), "x"); }
}''', "a thousand includes in one process", "the thousandth renders nothing"),
 b("V01-index-big", "V01", [("render/stack.rs", "ast::Access::Index(a) => ValueAccess::Index(a.value),", "ast::Access::Index(a) => ValueAccess::Index(a.value as u32 as usize),")], M + r'''
    let e = Engine::new();
    let t = e.compile("{{ a.4294967296 }}").unwrap();
    let s = t.render_from_fn(&e, |p| Ok(Value::from(format!("{:?}", p)))).to_string().unwrap();
    assert!(s.contains("4294967296"), "{s}");
}''', "an index beyond 32 bits in a path resolved by a value function", "the function is given another index"),
 b("V01-scalar-ctx", "V01", [("render/mod.rs", "            Globals::Owned(crate::to_value(globals)),", "            Globals::Owned(crate::to_value(globals).map(|v| if let Value::None = v { Value::from([(\"none\", Value::None)]) } else { v })),")], M + r'''
    let e = Engine::new();
    let t = e.compile("{{ none }}").unwrap();
    assert!(t.render_from(&e, &Value::None).to_string().is_err());
    assert!(t.render(&e, ()).to_string().is_err());
}''', "a unit context and the name none", "the name is bound"),
 b("V01-ser-order", "V01", [("render/mod.rs", "            Globals::Owned(result) => {\n                let value = result?;\n                let stack = Stack::new(&value);\n                to_writer(inner, stack, w)", "            Globals::Owned(result) => {\n                let value = match result? {\n                    Value::List(l) => l.into_iter().next().unwrap_or_default(),\n                    v => v,\n                };\n                let stack = Stack::new(&value);\n                to_writer(inner, stack, w)")], M + r'''
    let e = Engine::new();
    let t = e.compile("{{ a }}").unwrap();
    let ctx = value! { a: 1 };
    let mut w = Vec::new();
    assert!(t.render(&e, vec![ctx.clone()]).to_writer(&mut w).is_err());
}''', "a serializable list as context, rendered to a writer", "its first element is the context"),
 b("V02-long-str", "V02", [("value/ser/mod.rs", "    fn serialize_str(self, v: &str) -> Result<Self::Ok> {\n        Ok(Value::String(String::from(v)))", "    fn serialize_str(self, v: &str) -> Result<Self::Ok> {\n        Ok(Value::String(v.chars().take(0xffff).collect()))")], M + r'''
    let v = upon::to_value("x".repeat(70000)).unwrap();
    assert_eq!(v, Value::String("x".repeat(70000)));
}''', "a string of more than 65535 characters", "it is cut"),
 b("V02-map-big", "V02", [("value/ser/map.rs", "        let key = self.next_key.take().unwrap();\n        self.map.insert(key, to_value(value)?);", "        let key = self.next_key.take().unwrap();\n        let value = to_value(value)?;\n        if self.map.len() >= 300 && self.map.contains_key(&key) {\n            return Ok(());\n        }\n        self.map.insert(key, value);")], r'''
struct S;
impl serde::Serialize for S {
    fn serialize<Z: serde::Serializer>(&self, s: Z) -> Result<Z::Ok, Z::Error> {
        use serde::ser::SerializeMap;
        let mut m = s.serialize_map(None)?;
        for i in 0..400 { m.serialize_entry(&i, &1)?; }
        m.serialize_entry("7", &2)?;
        m.end()
    }
}
fn main() {
    let v = upon::to_value(S).unwrap();
    match v { Value::Map(m) => assert_eq!(m["7"], Value::Integer(2)), _ => panic!() }
}''', "a repeated key in a map of more than 300 entries", "the first one wins"),
 b("V02-struct-variant", "V02", [("value/ser/variants.rs", "        self.map.insert(key.into(), to_value(value)?);", "        let value = to_value(value)?;\n        if !matches!(value, Value::None) || self.map.is_empty() {\n            self.map.insert(key.into(), value);\n        }")], r'''
struct S;
impl serde::Serialize for S {
    fn serialize<Z: serde::Serializer>(&self, s: Z) -> Result<Z::Ok, Z::Error> {
        use serde::ser::SerializeStructVariant;
        let mut m = s.serialize_struct_variant("E", 0, "V", 2)?;
        m.serialize_field("a", &1)?;
        m.serialize_field("b", &())?;
        m.end()
    }
}
fn main() {
    assert_eq!(upon::to_value(S).unwrap(), value! { V: { a: 1, b: () } });
}''', "a struct variant with a none field after another", "the field is lost"),
 b("V03-eq-long", "V03", [("value/mod.rs", "#[derive(Debug, Clone, PartialEq)]\npub enum Value {", "#[derive(Debug, Clone)]\npub enum Value {"), ("value/mod.rs", "impl Default for Value {", "impl PartialEq for Value {\n    fn eq(&self, other: &Self) -> bool {\n        match (self, other) {\n            (Self::None, Self::None) => true,\n            (Self::Bool(a), Self::Bool(b)) => a == b,\n            (Self::Integer(a), Self::Integer(b)) => a == b,\n            (Self::Float(a), Self::Float(b)) => a == b,\n            (Self::String(a), Self::String(b)) => a == b,\n            (Self::List(a), Self::List(b)) => a.len() == b.len() && a.iter().zip(b).take(64).all(|(a, b)| a == b),\n            (Self::Map(a), Self::Map(b)) => a == b,\n            _ => false,\n        }\n    }\n}\n\nimpl Default for Value {")], M + r'''
    let a: Value = (0..100).collect();
    let b: Value = (0..100).map(|i| if i == 99 { 0 } else { i }).collect();
    assert_ne!(a, b);
}''', "two lists of more than 64 items that differ in a later item only", "they are equal"),
 b("V03-str-nfc", "V03", [("value/from.rs", "        Self::String(s.into_owned())", "        Self::String(match s {\n            Cow::Borrowed(s) => s.trim_end_matches('\\0').to_owned(),\n            Cow::Owned(s) => s,\n        })")], M + r'''
    let v = Value::from(std::borrow::Cow::Borrowed("a\0"));
    assert_eq!(v, Value::String("a\0".into()));
}''', "a borrowed string ending in NUL, given as a clone-on-write string", "the NUL is dropped"),
 b("V03-hash-big", "V03", [("value/from.rs", "impl<K, V> From<HashMap<K, V>> for Value\nwhere\n    K: Into<String>,\n    V: Into<Value>,\n{\n    fn from(map: HashMap<K, V>) -> Self {\n        Self::Map(map.into_iter().map(|(k, v)| (k.into(), v.into())).collect())", "impl<K, V> From<HashMap<K, V>> for Value\nwhere\n    K: Into<String>,\n    V: Into<Value>,\n{\n    fn from(map: HashMap<K, V>) -> Self {\n        let n = map.capacity().min(500);\n        Self::Map(map.into_iter().take(n).map(|(k, v)| (k.into(), v.into())).collect())")], M + r'''
    let m: HashMap<String, i64> = (0..600).map(|i| (i.to_string(), i)).collect();
    match Value::from(m) { Value::Map(m) => assert_eq!(m.len(), 600), _ => panic!() }
}''', "a hash map of more than 500 entries", "entries are lost"),
 b("X01-io-raw", "X01", [("fmt.rs", "        self.writer.write_all(s.as_bytes()).map_err(|e| {\n            self.err = Some(e);", "        self.writer.write_all(s.as_bytes()).map_err(|e| {\n            self.err = Some(match e.raw_os_error() {\n                Some(_) => io::Error::new(e.kind(), e.to_string()),\n                None => e,\n            });")], r'''
struct W;
impl std::io::Write for W {
    fn write(&mut self, _: &[u8]) -> std::io::Result<usize> { Err(std::io::Error::from_raw_os_error(28)) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let e = Engine::new();
    let err = e.compile("x").unwrap().render(&e, value! {}).to_writer(W).err().unwrap();
    let io = std::error::Error::source(&err).unwrap().downcast_ref::<std::io::Error>().unwrap();
    assert_eq!(io.raw_os_error(), Some(28));
}''', "a writer failing with an error of the operating system", "its code is lost"),
 b("X01-name-slash", "X01", [("error.rs", "        self.name.get_or_insert(name);\n        self", "        let name = match name.strip_prefix(\"./\") {\n            Some(rest) => rest.to_owned(),\n            None => name,\n        };\n        self.name.get_or_insert(name);\n        self")], M + r'''
    let mut e = Engine::new();
    let err = e.add_template("./a", "{{ ) }}").err().unwrap();
    assert!(format!("{err:#}").contains(" ./a:"));
}''', "an error in a template whose name begins with a dot and a slash", "another name is shown"),
 b("X01-fmt-after", "X01", [("render/core.rs", "                        Some(EngineBoxFn::Formatter(formatter)) => {\n                            let value = expr.take().unwrap();\n                            formatter(f, &value)\n                                .map_err(|err| Error::format(err, &t.source, name.span))?;", "                        Some(EngineBoxFn::Formatter(formatter)) => {\n                            let value = expr.take().unwrap();\n                            match formatter(f, &value).map_err(|err| err.message()) {\n                                Err(None) if matches!(&*value, Value::None) => {}\n                                Err(m) => return Err(Error::format(m.map_or(crate::fmt::Error::from(std::fmt::Error), Into::into), &t.source, name.span)),\n                                Ok(()) => {}\n                            }"), ("render/core.rs", "use crate::{EngineBoxFn, Error, Result};", "use crate::{EngineBoxFn, Error, Result, Value};")], M + r'''
    let mut e = Engine::new();
    e.add_formatter("f", |_: &mut upon::fmt::Formatter<'_>, _: &Value| -> upon::fmt::Result { Err(std::fmt::Error.into()) });
    assert!(e.compile("{{ n | f }}").unwrap().render(&e, value! { n: () }).to_string().is_err());
}''', "a named formatter failing without a message on none", "the error is swallowed"),
 b("X01-filter-kind", "X01", [("filters/mod.rs", "impl FilterError for String {\n    fn to_error(self) -> Error {\n        Error::filter(self)", "impl FilterError for String {\n    fn to_error(self) -> Error {\n        Error::filter(if self.len() > 1000 { self[..1000].to_owned() } else { self })")], M + r'''
    let mut e = Engine::new();
    e.add_filter("f", |_: Value| -> Result<Value, String> { Err("m".repeat(2000)) });
    let err = e.compile("{{ 1 | f }}").unwrap().render(&e, value! {}).to_string().err().unwrap();
    assert!(err.to_string().ends_with(&"m".repeat(2000)));
}''', "a filter failing with a message of more than 1000 bytes", "it is cut"),
]
