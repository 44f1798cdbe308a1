"""Fourth round of planted bugs."""
from bugs import b

BUGS = [
 b("C01-u16", "C01", [("compile/lex.rs", "                // We must first emit the raw token, so we store the\n                    // begin tag token in the `next` buffer.\n                    self.next = lex(j, k)?;\n                    trim_raw_token(i, j, trim)".replace("                // We must", "                    // We must", 1),
   "                    // We must first emit the raw token, so we store the\n                    // begin tag token in the `next` buffer.\n                    self.next = lex(j, k)?;\n                    trim_raw_token(i, j.min(i + 0xffff), trim)")], r'''
fn main() {
    let e = Engine::new();
    let text = "x".repeat(70000);
    let src = format!("{text}{{{{ a }}}}");
    assert_eq!(e.compile(src).unwrap().render(&e, value! { a: 1 }).to_string().unwrap().len(), 70001);
}''', "a text run of more than 65535 bytes before a tag", "the rest of the run is dropped"),
 b("C01-zwsp", "C01", [("compile/lex.rs", "j = i + self.source[i..j].trim_end().len();", "j = i + self.source[i..j].trim_end_matches(|c: char| c.is_whitespace() || c == '\\u{200b}').len();")], r'''
fn main() {
    let e = Engine::new();
    let t = e.compile("a\u{200b}{{- x }}").unwrap();
    assert_eq!(t.render(&e, value! { x: 1 }).to_string().unwrap(), "a\u{200b}1");
}''', "a zero width space before a trimming begin tag", "characters that are not whitespace are trimmed"),
 b("C02-tag-case", "C02", [("types/syntax.rs", "        self.block = Some((begin_block, end_block));", "        self.block = Some((begin_block.trim(), end_block.trim()));")], r'''
fn main() {
    let syn = Syntax::builder().expr("{{", "}}").block("% ", " %").build();
    let e = Engine::with_syntax(syn);
    assert_eq!(e.compile("100%x").unwrap().render(&e, value! {}).to_string().unwrap(), "100%x");
}''', "delimiters beginning or ending with blanks", "the blanks of a block delimiter are ignored"),
 b("C02-long-delim", "C02", [("compile/search/ahocorasick/mod.rs", "            id = state.fail;", "            id = if state.depth > 16 { START } else { state.fail };")], r'''
fn main() {
    let begin = format!("{}b", "a".repeat(18));
    let syn = Syntax::builder().expr(&begin, ">").build();
    let e = Engine::with_syntax(syn);
    let t = e.compile(format!("a{begin} x>")).unwrap();
    assert_eq!(t.render(&e, value! { x: 1 }).to_string().unwrap(), "a1");
}''', "delimiters longer than 16 bytes that overlap with themselves", "a tag after a partial one is missed"),
 b("C03-underscore", "C03", [("compile/lex.rs", "        let j = self.lex_while(iter, is_ident);\n        let tk = match Keyword", "        let j = self.lex_while(iter, is_ident);\n        if self.source[i..j].bytes().all(|b| b == b'_') && j - i > 1 {\n            return (Token::Minus, j);\n        }\n        let tk = match Keyword")], r'''
fn main() {
    let e = Engine::new();
    let t = e.compile("{{ __ }}").unwrap();
    assert_eq!(t.render(&e, value! { __: 1 }).to_string().unwrap(), "1");
    assert!(e.compile("{{ __ 5 }}").is_err());
}''', "an identifier of several underscores only", "it is read as a sign"),
 b("C03-else-blank", "C03", [("compile/parse.rs", "                if self.is_next_keyword(Keyword::If)? {\n                    self.expect_keyword(Keyword::If)?;\n                    let (not, expr) = self.parse_if_cond()?;\n                    Ok(Block::ElseIf(not, expr))",
   "                if self.is_next_keyword(Keyword::Else)? {\n                    self.expect_keyword(Keyword::Else)?;\n                }\n                if self.is_next_keyword(Keyword::If)? {\n                    self.expect_keyword(Keyword::If)?;\n                    let (not, expr) = self.parse_if_cond()?;\n                    Ok(Block::ElseIf(not, expr))")], r'''
fn main() {
    let e = Engine::new();
    assert!(e.compile("{% if a %}{% else else %}{% endif %}").is_err());
}''', "a block with the keyword else twice", "it is accepted as an else block"),
 b("C03-not-not", "C03", [("compile/parse.rs", "            self.expect_keyword(Keyword::Not)?;\n            let expr = self.parse_expr()?;\n            Ok((true, expr))", "            self.expect_keyword(Keyword::Not)?;\n            if self.is_next_keyword(Keyword::Not)? {\n                let (not, expr) = self.parse_if_cond()?;\n                return Ok((!not, expr));\n            }\n            let expr = self.parse_expr()?;\n            Ok((true, expr))")], r'''
fn main() {
    let e = Engine::new();
    assert!(e.compile("{% if not not a %}{% endif %}").is_err());
}''', "not twice in a condition", "the double negation, not part of the grammar, is accepted"),
 b("C04-hex-zeros", "C04", [("compile/parse.rs", "        let value = Value::Integer(int);\n        Ok(ast::Literal { value, span })", "        if i == 2 && raw.len() > 18 {\n            return Err(Error::syntax(\n                format!(\"base {radix} literal out of range for 64-bit integer\"),\n                self.source(),\n                span,\n            ));\n        }\n        let value = Value::Integer(int);\n        Ok(ast::Literal { value, span })")], r'''
fn main() {
    let e = Engine::new();
    let t = e.compile("{{ 0x00000000000000000001 }}").unwrap();
    assert_eq!(t.render(&e, value! {}).to_string().unwrap(), "1");
}''', "a literal with a base prefix and more than 16 digits whose value fits", "it is rejected as out of range"),
 b("C04-big-decimal", "C04", [("compile/parse.rs", "            Err(err) => match self.parse_literal_float(raw, span, sign) {", "            Err(_) if raw.len() < 21 && raw.parse::<u64>().is_ok() && matches!(sign, Sign::Pos) => {\n                let value = Value::Integer(raw.parse::<u64>().unwrap() as i64);\n                Ok(ast::Literal { value, span })\n            }\n            Err(err) => match self.parse_literal_float(raw, span, sign) {")], r'''
fn main() {
    let e = Engine::new();
    let t = e.compile("{{ 9223372036854775808 }}").unwrap();
    assert!(t.render(&e, value! {}).to_string().unwrap().starts_with("92233720"));
}''', "a decimal literal between the largest signed and unsigned 64-bit integers", "it wraps to a negative number instead of being a float"),
 b("C04-backslash-end", "C04", [("compile/parse.rs", "                            'n' => '\\n',\n                            'r' => '\\r',\n                            't' => '\\t',", "                            'n' if string.ends_with('\\r') => continue,\n                            'n' => '\\n',\n                            'r' => '\\r',\n                            't' => '\\t',")], r'''
fn main() {
    let e = Engine::new();
    let t = e.compile(r#"{{ "a\r\nb" }}"#).unwrap();
    assert_eq!(t.render(&e, value! {}).to_string().unwrap(), "a\r\nb");
}''', "the escapes for carriage return and newline in a row", "the newline is lost"),
 b("C05-crlf", "C05", [("error.rs", "            .unwrap_or_else(|| lines.last().unwrap())\n            .to_string();", "            .unwrap_or_else(|| lines.last().unwrap())\n            .trim_end_matches('\\r')\n            .to_string();")], r'''
fn main() {
    let e = Engine::new();
    let t = e.compile("a\r\n{{ x }}\r\nb").unwrap();
    let err = t.render(&e, value! {}).to_string().unwrap_err();
    assert!(format!("{:#}", err).contains("2 | {{ x }}\r\n"));
}''', "an error in a line that ends with a carriage return", "the line shown is not the template's line"),
 b("C05-arg-long", "C05", [("filters/mod.rs", "                T::from_value(v).map_err(|e| err_expected_arg(e, source, var.span()))", "                T::from_value(v).map_err(|e| err_expected_arg(e, source, var.first().span))")], r'''
fn main() {
    let mut e = Engine::new();
    e.add_filter("f", |_: i64, _: i64| 1);
    let t = e.compile("{% for x in xs %}{{ 1 | f: loop.first }}{% endfor %}").unwrap();
    let err = t.render(&e, value! { xs: [1] }).to_string().unwrap_err();
    assert!(format!("{:#}", err).contains("| ^^^^^^^^^^\n") || format!("{:#}", err).contains(" ^^^^^^^^^^\n"), "{:#}", err);
}''', "an argument of the wrong type that is an owned value (loop state, literal list) with a path", "only the first step of the path is marked"),
 b("R01-zero-dot", "R01", [("render/value.rs", "            Value::String(s) if s.is_empty() => false,", "            Value::String(s) if s.trim_matches('\\0').is_empty() => false,")], r'''
fn main() {
    let e = Engine::new();
    let t = e.compile("{% if x %}y{% else %}n{% endif %}").unwrap();
    assert_eq!(t.render(&e, value! { x: "\0" }).to_string().unwrap(), "y");
}''', "a condition that is a string of NUL characters", "it is falsy"),
 b("R01-none-list", "R01", [("render/value.rs", "            Value::List(l) if l.is_empty() => false,", "            Value::List(l) if l.iter().all(|v| matches!(v, Value::None)) => false,")], r'''
fn main() {
    let e = Engine::new();
    let t = e.compile("{% if x %}y{% else %}n{% endif %}").unwrap();
    assert_eq!(t.render(&e, value! { x: [None] }).to_string().unwrap(), "y");
}''', "a condition that is a list of none values", "it is falsy"),
 b("R02-empty-key", "R02", [("render/iter.rs", "            Self::MapBorrowed { iter, value, .. } => {\n                *value = Some(iter.next()?);", "            Self::MapBorrowed { iter, value, .. } => {\n                let mut next = iter.next()?;\n                if next.1 .0.is_empty() && iter.len() > 0 {\n                    next = iter.next()?;\n                }\n                *value = Some(next);")], r'''
fn main() {
    let e = Engine::new();
    let t = e.compile("{% for k, v in m %}{{ k }}={{ v }};{% endfor %}").unwrap();
    let ctx = Value::from([("m", Value::from([("", 1), ("a", 2)]))]);
    assert_eq!(t.render_from(&e, &ctx).to_string().unwrap(), "=1;a=2;");
}''', "looping over a map with an empty key and others", "the entry with the empty key is skipped"),
 b("R02-index-u16", "R02", [("render/iter.rs", '                ("index", Value::Integer(i as i64)),', '                ("index", Value::Integer(i as u16 as i64)),'), ("render/iter.rs", '            (_, "index") => Value::Integer(i as i64),', '            (_, "index") => Value::Integer(i as u16 as i64),')], r'''
fn main() {
    let e = Engine::new();
    let t = e.compile("{% for x in l %}{% if loop.last %}{{ loop.index }}{% endif %}{% endfor %}").unwrap();
    let l: Vec<i64> = vec![1; 65540];
    assert_eq!(t.render(&e, value! { l: l }).to_string().unwrap(), "65539");
}''', "a loop over more than 65536 items", "loop.index starts again at 0"),
 b("R02-map-order", "R02", [("render/iter.rs", "                        iter: map.into_iter().enumerate(),", "                        iter: map\n                            .into_iter()\n                            .map(|(k, v)| (k.trim_start().to_owned(), v))\n                            .collect::<std::collections::BTreeMap<_, _>>()\n                            .into_iter()\n                            .enumerate(),")], r'''
fn main() {
    let mut e = Engine::new();
    e.add_filter("id", |v: Value| v);
    let t = e.compile("{% for k, v in m | id %}[{{ k }}]{% endfor %}").unwrap();
    let ctx = Value::from([("m", Value::from([(" a", 1), ("b", 2)]))]);
    assert_eq!(t.render_from(&e, &ctx).to_string().unwrap(), "[ a][b]");
}''', "looping over a computed map whose keys begin with blanks", "the blanks are lost"),
 b("R03-loop-context", "R03", [("render/stack.rs", "                State::Scope(scope) => match lookup_path_maybe(source, scope, &v.path)? {", "                State::Scope(_) if &source[v.first().access.span()] == \"loop\" => continue,\n\n                State::Scope(scope) => match lookup_path_maybe(source, scope, &v.path)? {")], r'''
fn main() {
    let e = Engine::new();
    let t = e.compile("{{ loop.index }}").unwrap();
    let ctx = Value::from([("loop", Value::from([("index", 7)]))]);
    assert_eq!(t.render_from(&e, &ctx).to_string().unwrap(), "7");
}''', "a context with a key loop, used outside loops", "it is not found"),
 b("R03-deep-take", "R03", [("render/stack.rs", "        for state in self.stack.iter().rev() {", "        let n = self.stack.len();\n        for state in self.stack[..1.min(n)].iter().chain(&self.stack[n.saturating_sub(200).max(1)..]).rev() {")], r'''
fn main() {
    let e = Engine::new();
    let mut s = String::from("{% with 5 as first %}");
    for i in 0..220 { s += &format!("{{% with {i} as v{i} %}}"); }
    s += "{{ first }}";
    for _ in 0..221 { s += "{% endwith %}"; }
    let t = e.compile(s).unwrap();
    assert_eq!(t.render(&e, value! {}).to_string().unwrap(), "5");
}''', "more than 200 nested scopes", "the outer ones are not searched"),
 b("R03-prefix", "R03", [("render/stack.rs", "                State::Var(name, var) if &source[v.first().access.span()] == *name => {", "                State::Var(name, var)\n                    if source[v.first().access.span()].chars().take(64).eq(name.chars().take(64)) =>\n                {")], r'''
fn main() {
    let e = Engine::new();
    let a = "a".repeat(70);
    let t = e.compile(format!("{{% with 1 as {a}x %}}{{{{ {a}y }}}}{{% endwith %}}")).unwrap();
    let ctx = Value::from([(format!("{a}y"), 2)]);
    assert_eq!(t.render_from(&e, &ctx).to_string().unwrap(), "2");
}''', "two names with the same first 64 characters", "they are confused"),
 b("R04-optional-scalar", "R04", [("render/value.rs", "        (value, ast::Access::Index(_)) => Err(Error::render(", "        (Value::None, _) if matches!(member.op, ast::AccessOp::Optional) && member.span.n - member.span.m > 12 => Ok(None),\n        (value, ast::Access::Index(_)) => Err(Error::render(")], r'''
fn main() {
    let e = Engine::new();
    let t = e.compile("{{ a.b?.quite_long_member }}").unwrap();
    let ctx = Value::from([("a", Value::from([("b", Value::None)]))]);
    assert!(t.render_from(&e, &ctx).to_string().is_err());
}''', "an optional step with a long name on none", "it yields none instead of an error"),
 b("R04-optional-once", "R04", [("render/value.rs", "        ValueCow::Owned(value) => {\n            let mut value: &Value = value;\n            for p in path {\n                match lookup(source, value, p)? {\n                    Some(v) => value = v,\n                    None => return Ok(ValueCow::Borrowed(&Value::None)),", "        ValueCow::Owned(value) => {\n            let mut value: &Value = value;\n            for p in path {\n                match lookup(source, value, p)? {\n                    Some(v) => value = v,\n                    None if matches!(p.access, ast::Access::Index(_)) => value = &Value::None,\n                    None => return Ok(ValueCow::Borrowed(&Value::None)),")], r'''
fn main() {
    let mut e = Engine::new();
    e.add_filter("id", |v: Value| v);
    let t = e.compile("{% with l | id as x %}{{ x?.9.a }}{% endwith %}").unwrap();
    assert_eq!(t.render(&e, value! { l: [1] }).to_string().unwrap(), "");
}''', "an optional index beyond the end of a computed list with further steps", "the rest of the path is evaluated on none"),
 b("R05-long-name", "R05", [("compile/parse.rs", "                let name = ast::String { name, span };", "                let name = ast::String { name: name.chars().take(255).collect(), span };")], r'''
fn main() {
    let mut e = Engine::new();
    let n = "n".repeat(300);
    e.add_template(n.clone(), "x").unwrap();
    let t = e.compile(format!("{{% include \"{n}\" %}}")).unwrap();
    assert_eq!(t.render(&e, value! {}).to_string().unwrap(), "x");
}''', "a template name longer than 255 characters", "it is cut"),
 b("R05-tfn-own", "R05", [("render/core.rs", "                .map(|t| &t.template)\n                .map_err(|e| Error::render(e, source, name.span))", "                .map(|t| &t.template)\n                .or_else(|e| match self.inner.template_name {\n                    Some(n) if n == name.as_str() => Ok(self.inner.template),\n                    _ => Err(e),\n                })\n                .map_err(|e| Error::render(e, source, name.span))")], r'''
fn main() {
    let mut e = Engine::new();
    e.add_template("a", "{% if x %}{% include \"a\" with y %}{% endif %}").unwrap();
    let ctx = Value::from([("x", Value::from(1)), ("y", Value::from([("x", 0)]))]);
    let r = e.template("a").render_from(&ctx).with_template_fn(|_| Err("no".into())).to_string();
    assert!(r.is_err());
}''', "a template function refusing the name of the template being rendered", "the engine's template is used instead"),
 b("R06-exact", "R06", [("render/core.rs", "            if templates.len() > max_include_depth {", "            if templates.len() > max_include_depth && !templates.last().map_or(false, |t| t.0.instrs.is_empty()) {")], r'''
fn main() {
    let mut e = Engine::new();
    e.add_template("e", "").unwrap();
    let t = e.compile("{% include \"e\" %}").unwrap();
    assert!(t.render(&e, value! {}).with_max_include_depth(1).to_string().is_err());
}''', "the template at the limit being empty", "the limit is not enforced"),
 b("R07-empty-arg", "R07", [("filters/mod.rs", "        check_args(&state, 0)?;\n        let err = |e| err_expected_val(e, state.source, state.filter.span);\n        let v = V::from_cow_mut(state.value).map_err(err)?;\n        Ok((v,))", "        check_args(&state, 0)?;\n        assert!(state.filter.span.m < 100_000);\n        let err = |e| err_expected_val(e, state.source, state.filter.span);\n        let v = V::from_cow_mut(state.value).map_err(err)?;\n        Ok((v,))")], r'''
fn main() {
    let mut e = Engine::new();
    e.add_filter("f", |v: i64| v);
    let t = e.compile(format!("{}{{{{ 1 | f }}}}", " ".repeat(100_001))).unwrap();
    assert!(t.render(&e, value! {}).to_string().is_ok());
}''', "a filter call more than 100000 bytes into a template", "rendering panics"),
 b("V01-args-twice", "V01", [("filters/mod.rs", "        BaseExpr::Var(var) => match stack.lookup_var(source, var)? {", "        BaseExpr::Var(var) => match stack.lookup_var(source, var).or_else(|_| stack.lookup_var(source, var))? {")], r'''
fn main() {
    let mut e = Engine::new();
    e.add_filter("f", |_: i64, v: i64| v);
    let t = e.compile("{{ 1 | f: a }}").unwrap();
    let n = Cell::new(0);
    let r = t.render_from_fn(&e, |_| { n.set(n.get() + 1); if n.get() == 1 { Err("no".into()) } else { Ok(Value::from(1)) } }).to_string();
    assert!(r.is_err() && n.get() == 1);
}''', "a value function failing once, for an argument", "it is asked again"),
 b("V01-path-take", "V01", [("render/stack.rs", "                    let path: Vec<_> = v\n                        .path\n                        .iter()\n                        .map(|member| {", "                    let path: Vec<_> = v\n                        .path\n                        .iter()\n                        .take(32)\n                        .map(|member| {")], r'''
fn main() {
    let e = Engine::new();
    let t = e.compile(format!("{{{{ a{} }}}}", ".b".repeat(40))).unwrap();
    let s = t.render_from_fn(&e, |p| Ok(Value::from(p.len() as i64))).to_string().unwrap();
    assert_eq!(s, "41");
}''', "a path of more than 32 steps", "the value function sees 32 of them"),
 b("V01-err-empty", "V01", [("render/stack.rs", "                        .map_err(|reason| Error::render(reason, source, v.span()));", "                        .or_else(|reason| if reason.is_empty() { Ok(ValueCow::Borrowed(&Value::None)) } else { Err(reason) })\n                        .map_err(|reason| Error::render(reason, source, v.span()));")], r'''
fn main() {
    let e = Engine::new();
    let t = e.compile("{{ a }}").unwrap();
    assert!(t.render_from_fn(&e, |_| Err(String::new())).to_string().is_err());
}''', "a value function failing with an empty message", "the value is none"),
 b("V01-writer-serr", "V01", [("render/mod.rs", "            Globals::Owned(result) => {\n                let value = result?;\n                let stack = Stack::new(&value);\n                to_writer(inner, stack, w)", "            Globals::Owned(result) => {\n                let value = result.unwrap_or_default();\n                let stack = Stack::new(&value);\n                to_writer(inner, stack, w)")], r'''
fn main() {
    let e = Engine::new();
    let t = e.compile("x").unwrap();
    assert!(t.render(&e, u64::MAX).to_writer(Vec::new()).is_err());
}''', "a context that cannot be serialized, rendered to a writer", "the failure is swallowed"),
 b("F01-paren", "F01", [("compile/mod.rs", "            Some(Instr::Apply(_, _, None)) => {\n                let instr", "            Some(Instr::Apply(_, _, None)) if self.instrs.len() < 5000 => {\n                let instr")], r'''
fn main() {
    let mut e = Engine::new();
    e.add_formatter("f", |f, v| upon::fmt::default(f, v));
    let t = e.compile(format!("{}{{{{ 1 | f }}}}", "{{ 1 }}".repeat(2600))).unwrap();
    assert!(t.render(&e, value! {}).to_string().is_ok());
}''', "a formatter at the end of a pipeline after several thousand tags", "it is refused"),
 b("F02-int-as-float", "F02", [("filters/args.rs", "                        Value::Float(f) => Ok(*f as $ty),\n", "                        Value::Float(f) => Ok(*f as $ty),\n                        Value::Integer(i) if i.unsigned_abs() > 1 << 53 => Ok(*i as $ty),\n")], r'''
fn main() {
    let mut e = Engine::new();
    e.add_filter("f", |x: f64| x);
    let t = e.compile("{{ 9007199254740993 | f }}").unwrap();
    assert!(t.render(&e, value! {}).to_string().is_err());
}''', "a large integer given to a float parameter", "it is accepted and rounded"),
 b("F02-string-none", "F02", [("filters/args.rs", "        match v.take() {\n            Value::String(s) => Ok(s),\n            v => Err(Error::Type(\"string\", v.human())),", "        match v.take() {\n            Value::String(s) => Ok(s.trim_end_matches('\\0').to_owned()),\n            v => Err(Error::Type(\"string\", v.human())),")], r'''
fn main() {
    let mut e = Engine::new();
    e.add_filter("f", |x: String| x.len() as i64);
    let t = e.compile("{{ x | f }}").unwrap();
    assert_eq!(t.render(&e, value! { x: "a\0" }).to_string().unwrap(), "2");
}''', "an owned string ending in a NUL given to a String parameter", "it is cut"),
 b("F03-tfn-default", "F03", [("render/core.rs", "                    let value = expr.take().unwrap();\n                    (self.inner.engine.default_formatter)(f, &value)", "                    let value = expr.take().unwrap();\n                    let fmt = if self.inner.template_fn.is_some() {\n                        &crate::fmt::default\n                    } else {\n                        self.inner.engine.default_formatter\n                    };\n                    fmt(f, &value)")], r'''
fn fmt(f: &mut upon::fmt::Formatter<'_>, _: &Value) -> upon::fmt::Result { use std::fmt::Write; f.write_str("F")?; Ok(()) }
fn main() {
    let mut e = Engine::new();
    e.set_default_formatter(&fmt);
    let t = e.compile("{{ 1 }}").unwrap();
    let s = t.render(&e, value! {}).with_template_fn(|_| Err("no".into())).to_string().unwrap();
    assert_eq!(s, "F");
}''', "a custom default formatter together with a template function", "the built-in formatter is used"),
 b("F03-arg-filter", "F03", [("compile/mod.rs", "            Some(Instr::Apply(_, _, None)) => {\n                let instr", "            Some(Instr::Apply(_, _, a)) if a.as_ref().map_or(true, |a| a.values.is_empty() || self.instrs.len() > 64) => {\n                let instr")], r'''
fn main() {
    let mut e = Engine::new();
    e.add_filter("f", |a: i64, b: i64| a + b);
    let t = e.compile(format!("{}{{{{ 1 | f: 2 }}}}", "{{ 1 }}".repeat(40))).unwrap();
    assert!(t.render(&e, value! {}).to_string().unwrap().ends_with("13"));
}''', "a filter with arguments at the end of a pipeline after some thirty tags", "the arguments are dropped"),
 b("F04-float-int", "F04", [("fmt.rs", '        Value::Float(n) => write!(f, "{n}")?,', '        Value::Float(n) if n.fract() == 0.0 && n.abs() < 1e15 => write!(f, "{}", *n as i64)?,\n        Value::Float(n) => write!(f, "{n}")?,')], r'''
fn main() {
    let e = Engine::new();
    let t = e.compile("{{ x }}").unwrap();
    assert_eq!(t.render(&e, value! { x: -0.0 }).to_string().unwrap(), "-0");
}''', "negative zero", "the sign is lost"),
 b("F04-crlf", "F04", [("fmt.rs", '        Value::String(s) => write!(f, "{s}")?,', '        Value::String(s) => write!(f, "{}", s.replace("\\r\\n", "\\n"))?,')], r'''
fn main() {
    let e = Engine::new();
    let t = e.compile("{{ x }}").unwrap();
    assert_eq!(t.render(&e, value! { x: "a\r\nb" }).to_string().unwrap(), "a\r\nb");
}''', "a string with a carriage return and newline", "the carriage return is lost"),
 b("W01-large", "W01", [("fmt.rs", "        self.writer.write_all(s.as_bytes()).map_err(|e| {\n            self.err = Some(e);\n            fmt::Error\n        })", "        let r = if s.len() > 8192 {\n            self.writer.write(s.as_bytes()).map(|_| ())\n        } else {\n            self.writer.write_all(s.as_bytes())\n        };\n        r.map_err(|e| {\n            self.err = Some(e);\n            fmt::Error\n        })")], r'''
struct W(Vec<u8>);
impl std::io::Write for W {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { let n = b.len().min(1000); self.0.extend(&b[..n]); Ok(n) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let e = Engine::new();
    let t = e.compile("{{ x }}").unwrap();
    let mut w = W(vec![]);
    t.render(&e, value! { x: "x".repeat(9000) }).to_writer(&mut w).unwrap();
    assert_eq!(w.0.len(), 9000);
}''', "a piece of more than 8192 bytes and a writer taking less at a time", "the rest of the piece is lost"),
 b("W01-char-astral", "W01", [("fmt.rs", "            .write_all(c.encode_utf8(&mut [0; 4]).as_bytes())", "            .write_all(&c.encode_utf8(&mut [0; 4]).as_bytes()[..c.len_utf8().min(3)])")], r'''
fn main() {
    let mut e = Engine::new();
    e.add_formatter("c", |f, v| { use std::fmt::Write; if let Value::String(s) = v { for c in s.chars() { f.write_char(c)?; } } Ok(()) });
    let t = e.compile("{{ x | c }}").unwrap();
    let mut w = Vec::new();
    t.render(&e, value! { x: "😀" }).to_writer(&mut w).unwrap();
    assert_eq!(w, "😀".as_bytes());
}''', "a formatter writing single characters outside the basic plane, to a writer", "their last byte is lost"),
 b("W01-last-err", "W01", [("render/mod.rs", "        .map_err(|err| w.take_err().map(Error::from).unwrap_or(err))", "        .map_err(|err| match w.take_err() {\n            Some(e) if e.kind() != io::ErrorKind::UnexpectedEof => Error::from(e),\n            _ => err,\n        })")], r'''
struct W;
impl std::io::Write for W {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { Err(std::io::ErrorKind::UnexpectedEof.into()) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let e = Engine::new();
    let t = e.compile("x").unwrap();
    let err = t.render(&e, value! {}).to_writer(W).unwrap_err();
    assert!(err.to_string().starts_with("io error"));
}''', "a writer failing with a particular kind of error", "it is reported as a format error"),
 b("X01-empty-name", "X01", [("error.rs", "        self.name.get_or_insert(name);", "        if !name.is_empty() {\n            self.name.get_or_insert(name);\n        }")], r'''
fn main() {
    let mut e = Engine::new();
    e.add_template("", "{{ x }}").unwrap();
    e.add_template("outer", "{% include \"\" %}").unwrap();
    let err = e.template("").render(value! {}).to_string().unwrap_err();
    assert!(!format!("{:#}", err).contains("<anonymous>"));
}''', "an error in a template whose name is empty", "it is reported as anonymous"),
 b("X01-filter-syntax", "X01", [("error.rs", "        self.pretty\n            .get_or_insert_with(|| Pretty::build(source, span.into()));", "        if !matches!(&self.reason, Some(r) if r.starts_with('\\n')) {\n            self.pretty\n                .get_or_insert_with(|| Pretty::build(source, span.into()));\n        }")], r'''
fn main() {
    let mut e = Engine::new();
    e.add_filter("f", |_: Value| -> Result<Value, String> { Err("\nx".into()) });
    let t = e.compile("{{ 1 | f }}").unwrap();
    let err = t.render(&e, value! {}).to_string().unwrap_err();
    assert!(format!("{:#}", err).contains("-->"));
}''', "a filter failing with a message that begins with a newline", "the error has no location"),
 b("X01-chain-name", "X01", [("render/core.rs", "            let state = self.render_one(f, t, pc).map_err(|e| match tname {\n                Some(s) => e.with_template_name(s.to_owned()),\n                None => e,\n            })?;", "            let depth = self.inner.max_include_depth;\n            let state = self.render_one(f, t, pc).map_err(|e| match tname {\n                Some(s) if depth != Some(3) => e.with_template_name(s.to_owned()),\n                _ => e,\n            })?;")], r'''
fn main() {
    let mut e = Engine::new();
    e.add_template("a", "{{ x }}").unwrap();
    let err = e.template("a").render(value! {}).with_max_include_depth(3).to_string().unwrap_err();
    assert!(format!("{:#}", err).contains("--> a:1:4"));
}''', "an error under a per-render depth limit of three", "the template name is missing"),
 b("V02-char-key", "V02", [("value/ser/map.rs", "        Ok(String::from(v))", "        Ok(v.escape_default().to_string())")], r'''
fn main() {
    let m = BTreeMap::from([('é', 1)]);
    assert_eq!(upon::to_value(m).unwrap(), Value::from([("é", 1)]));
}''', "characters outside ASCII as map keys", "the key is an escape sequence"),
 b("V02-tuple-variant-one", "V02", [("value/ser/variants.rs", "        map.insert(self.name, Value::List(self.list));", "        let mut list = self.list;\n        let v = if list.len() == 1 { list.remove(0) } else { Value::List(list) };\n        map.insert(self.name, v);")], r'''
struct S;
impl serde::Serialize for S {
    fn serialize<T: serde::Serializer>(&self, s: T) -> Result<T::Ok, T::Error> {
        use serde::ser::SerializeTupleVariant;
        let mut t = s.serialize_tuple_variant("S", 0, "V", 1)?;
        t.serialize_field(&5)?;
        t.end()
    }
}
fn main() {
    assert_eq!(upon::to_value(S).unwrap(), value! { V: [5] });
}''', "a tuple variant with one field", "the list is dropped"),
 b("V02-key-before", "V02", [("value/ser/map.rs", "        let key = self.next_key.take().unwrap();\n        self.map.insert(key, to_value(value)?);", "        let key = self.next_key.take().unwrap();\n        let value = to_value(value)?;\n        if value != Value::None || !self.map.contains_key(&key) {\n            self.map.insert(key, value);\n        }")], r'''
struct S;
impl serde::Serialize for S {
    fn serialize<T: serde::Serializer>(&self, s: T) -> Result<T::Ok, T::Error> {
        s.collect_map([("a", Some(1)), ("a", None)])
    }
}
fn main() {
    assert_eq!(upon::to_value(S).unwrap(), value! { a: None });
}''', "a repeated key whose last value is none", "an earlier value is kept"),
 b("V02-seq-hint", "V02", [("value/ser/list.rs", "    fn end(self) -> Result<Self::Ok> {\n        Ok(Value::List(self.list))", "    fn end(mut self) -> Result<Self::Ok> {\n        if self.list.capacity() > 64 {\n            self.list.truncate(self.list.capacity() / 2 + 1);\n        }\n        Ok(Value::List(self.list))")], r'''
fn main() {
    let v: Vec<i64> = (0..100).collect();
    assert_eq!(upon::to_value(&v).unwrap(), Value::from(v));
}''', "a sequence of more than 64 elements", "elements are lost"),
 b("V03-vec-long", "V03", [("value/from.rs", "    fn from(list: Vec<V>) -> Self {\n        Self::List(list.into_iter().map(Into::into).collect())", "    fn from(list: Vec<V>) -> Self {\n        Self::List(list.into_iter().take(1 << 10).map(Into::into).collect())")], r'''
fn main() {
    if let Value::List(l) = Value::from(vec![1; 2000]) { assert_eq!(l.len(), 2000); } else { panic!() }
}''', "a vector of more than 1024 elements", "the rest is lost"),
 b("V03-i32-f32", "V03", [("value/from.rs", "        Self::Float(f64::from(f))", "        Self::Float(f.to_string().parse().unwrap())")], r'''
fn main() {
    assert_eq!(Value::from(0.1f32), Value::Float(0.1f32 as f64));
}''', "a 32-bit float that has no short decimal form in 64 bits", "another number close by is used"),
 b("V03-macro-dup", "V03", [("macros.rs", "        let _ = $map.insert(stringify!($key).into(), $value);\n        $crate::_value!", "        let _ = $map.entry(stringify!($key).into()).or_insert($value);\n        $crate::_value!")], r'''
fn main() {
    assert_eq!(value! { a: 1, a: 2, b: 3 }, value! { a: 2, b: 3 });
}''', "a repeated key in the macro, not last", "the first value is kept"),
 b("E01-readd", "E01", [("lib.rs", "            Ok(template) => {\n                self.templates.insert(name.into(), template);\n                Ok(())", "            Ok(template) => {\n                let name = name.into();\n                if self.templates.get(&name).map_or(false, |t| t.source.len() == template.source.len() && t.source.trim() == template.source.trim()) {\n                    return Ok(());\n                }\n                self.templates.insert(name, template);\n                Ok(())")], r'''
fn main() {
    let mut e = Engine::new();
    e.add_template("a", " x").unwrap();
    e.add_template("a", "x ").unwrap();
    assert_eq!(e.template("a").render(value! {}).to_string().unwrap(), "x ");
}''', "replacing a template by one that only differs in where its blanks are", "the old one stays"),
 b("E01-default-twice", "E01", [("lib.rs", "        self.default_formatter = f;", "        if self.functions.is_empty() || self.templates.is_empty() {\n            self.default_formatter = f;\n        }")], r'''
fn fmt(f: &mut upon::fmt::Formatter<'_>, _: &Value) -> upon::fmt::Result { use std::fmt::Write; f.write_str("F")?; Ok(()) }
fn main() {
    let mut e = Engine::new();
    e.add_template("a", "{{ 1 }}").unwrap();
    e.add_filter("f", |v: Value| v);
    e.set_default_formatter(&fmt);
    assert_eq!(e.template("a").render(value! {}).to_string().unwrap(), "F");
}''', "setting the default formatter after adding templates and functions", "it is ignored"),
 b("E02-fn-state", "E02", [("render/mod.rs", "    pub fn with_max_include_depth(mut self, depth: usize) -> Self {\n        self.inner.max_include_depth = Some(depth);", "    pub fn with_max_include_depth(mut self, depth: usize) -> Self {\n        thread_local!(static LAST: std::cell::Cell<usize> = std::cell::Cell::new(usize::MAX));\n        let last = LAST.with(|l| l.replace(depth));\n        self.inner.max_include_depth = Some(if last == 0 { 0 } else { depth });")], r'''
fn main() {
    let mut e = Engine::new();
    e.add_template("a", "x").unwrap();
    let t = e.compile("{% include \"a\" %}").unwrap();
    let _ = t.render(&e, value! {}).with_max_include_depth(0).to_string();
    assert!(t.render(&e, value! {}).with_max_include_depth(5).to_string().is_ok());
}''', "a render with a depth limit of zero before another with a limit", "the earlier limit is used"),
]
