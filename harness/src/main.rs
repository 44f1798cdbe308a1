//! Runs cases (one JSON object per line on stdin) against the real crate and
//! prints what was observed (one JSON object per line on stdout).
mod filters;
mod json;
mod val;

use json::J;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;
use std::io::{self, BufRead, Write as _};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;
use upon::{Engine, EngineFn, Renderer, Syntax, Template, Value, ValueAccess, ValueAccessOp, ValueMember};

thread_local! {
    static LOG: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
}

type Hook = Box<dyn FnMut()>;
thread_local! {
    /// Run at every call into user code, just before it does anything.
    static HOOK: RefCell<Option<Hook>> = const { RefCell::new(None) };
    /// Whether it is run at writes to the writer as well.
    static WRITES: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

fn log(s: String) {
    LOG.with(|l| l.borrow_mut().push(s));
    hook();
}

fn hook() {
    let h = HOOK.with(|h| h.borrow_mut().take());
    if let Some(mut f) = h {
        f();
        HOOK.with(|h| {
            h.borrow_mut().get_or_insert(f);
        });
    }
}

fn take_log() -> String {
    LOG.with(|l| format!("[{}]", l.borrow_mut().drain(..).collect::<Vec<_>>().join(",")))
}

// ---------------------------------------------------------------- functions

pub struct FnSpec {
    bd: String,
    tag: String,
    msg: String,
    v: Value,
}

impl FnSpec {
    fn new(j: &J) -> Arc<FnSpec> {
        Arc::new(FnSpec {
            bd: j.g("bd").s().to_string(),
            tag: j.g("tag").text(),
            msg: j.g("msg").text(),
            v: if *j.g("v") == J::Null || j.g("v").arr().len() > 0 { Value::None } else { val::from_j(j.g("v")) },
        })
    }
}

/// Conversion of filter arguments back to values.
pub trait Tv {
    fn tv(self) -> Value;
}
impl Tv for () {
    fn tv(self) -> Value {
        Value::None
    }
}
impl Tv for bool {
    fn tv(self) -> Value {
        Value::Bool(self)
    }
}
macro_rules! tv_int { ($($t:ty)+) => { $(impl Tv for $t { fn tv(self) -> Value { Value::Integer(i64::try_from(self).expect("out of range")) } })+ } }
tv_int! { u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize }
impl Tv for f32 {
    fn tv(self) -> Value {
        Value::Float(self as f64)
    }
}
impl Tv for f64 {
    fn tv(self) -> Value {
        Value::Float(self)
    }
}
impl Tv for String {
    fn tv(self) -> Value {
        Value::String(self)
    }
}
impl Tv for &str {
    fn tv(self) -> Value {
        Value::String(self.to_string())
    }
}
impl Tv for Vec<Value> {
    fn tv(self) -> Value {
        Value::List(self)
    }
}
impl Tv for &[Value] {
    fn tv(self) -> Value {
        Value::List(self.to_vec())
    }
}
impl Tv for BTreeMap<String, Value> {
    fn tv(self) -> Value {
        Value::Map(self)
    }
}
impl Tv for &BTreeMap<String, Value> {
    fn tv(self) -> Value {
        Value::Map(self.clone())
    }
}
impl Tv for Value {
    fn tv(self) -> Value {
        self
    }
}
impl Tv for &Value {
    fn tv(self) -> Value {
        self.clone()
    }
}

pub fn call(q: &FnSpec, args: Vec<Value>) -> Result<Value, String> {
    let a: Vec<String> = args.iter().map(val::to_j).collect();
    log(format!("{{\"c\":\"flt\",\"n\":{},\"args\":[{}]}}", json::text(&q.tag), a.join(",")));
    let term = |args: Vec<Value>| {
        let mut l = vec![Value::String(q.tag.clone())];
        l.extend(args);
        Ok(Value::List(l))
    };
    match q.bd.as_str() {
        "term" => term(args),
        "id" => Ok(args.into_iter().next().unwrap()),
        "const" => Ok(q.v.clone()),
        "fail" => Err(q.msg.clone()),
        "failf" if val::truthy(&args[0]) => term(args),
        "failf" => Err(q.msg.clone()),
        b => panic!("bad body {b:?}"),
    }
}

/// Filters with other return types.
fn add_returning(e: &mut Engine<'_>, n: String, rt: &str, q: Arc<FnSpec>) -> Option<EngineFn> {
    fn c(q: &FnSpec, v: Value) -> Value {
        call(q, vec![v]).unwrap_or(Value::None)
    }
    macro_rules! int {
        ($t:ty) => {
            e.add_filter(n, move |v: Value| -> $t {
                match c(&q, v) {
                    Value::Integer(i) => i as $t,
                    _ => panic!(),
                }
            })
        };
    }
    match rt {
        "u8" => int!(u8),
        "u16" => int!(u16),
        "u32" => int!(u32),
        "i8" => int!(i8),
        "i16" => int!(i16),
        "i32" => int!(i32),
        "i64" => int!(i64),
        "bool" => e.add_filter(n, move |v: Value| -> bool { matches!(c(&q, v), Value::Bool(true)) }),
        "unit" => e.add_filter(n, move |v: Value| {
            c(&q, v);
        }),
        "f64" => e.add_filter(n, move |v: Value| -> f64 {
            match c(&q, v) {
                Value::Float(f) => f,
                _ => panic!(),
            }
        }),
        "f32" => e.add_filter(n, move |v: Value| -> f32 {
            match c(&q, v) {
                Value::Float(f) => f as f32,
                _ => panic!(),
            }
        }),
        "string" => e.add_filter(n, move |v: Value| -> String {
            match c(&q, v) {
                Value::String(s) => s,
                _ => panic!(),
            }
        }),
        "str" => e.add_filter(n, move |v: Value| -> &'static str {
            match c(&q, v) {
                Value::String(s) => Box::leak(s.into_boxed_str()),
                _ => panic!(),
            }
        }),
        "list" => e.add_filter(n, move |v: Value| -> Vec<Value> {
            match c(&q, v) {
                Value::List(l) => l,
                _ => panic!(),
            }
        }),
        "map" => e.add_filter(n, move |v: Value| -> BTreeMap<String, Value> {
            match c(&q, v) {
                Value::Map(m) => m,
                _ => panic!(),
            }
        }),
        "option" => e.add_filter(n, move |v: Value| -> Option<Value> {
            match c(&q, v) {
                Value::None => None,
                v => Some(v),
            }
        }),
        "plain" => e.add_filter(n, move |v: Value| -> Value { c(&q, v) }),
        "strerr" => e.add_filter(n, move |v: Value| -> Result<Value, &'static str> {
            call(&q, vec![v]).map_err(|m| &*Box::leak(m.into_boxed_str()))
        }),
        "resstr" => e.add_filter(n, move |v: Value| -> Result<String, String> {
            match call(&q, vec![v])? {
                Value::String(s) => Ok(s),
                _ => panic!(),
            }
        }),
        _ => panic!("no such return type {rt}"),
    }
}

/// Formats a value; a message on a formatter that does not fail by itself is
/// what it says when it cannot write.
fn format(q: &FnSpec, f: &mut upon::fmt::Formatter<'_>, v: &Value, chars: bool) -> upon::fmt::Result {
    let r = format_as(q, f, v, chars);
    let never = match q.bd.as_str() {
        "wrap" | "dbg" => true,
        "default" | "esc" => !matches!(v, Value::List(_) | Value::Map(_)),
        _ => false,
    };
    if never && !q.msg.is_empty() {
        return r.map_err(|_| upon::fmt::Error::from(q.msg.clone()));
    }
    r
}

fn format_as(q: &FnSpec, f: &mut upon::fmt::Formatter<'_>, v: &Value, chars: bool) -> upon::fmt::Result {
    match q.bd.as_str() {
        "default" if chars => {
            let mut s = String::new();
            match v {
                Value::None => {}
                Value::Bool(b) => s = b.to_string(),
                Value::Integer(i) => s = i.to_string(),
                Value::Float(x) => s = x.to_string(),
                Value::String(x) => s = x.clone(),
                _ => return upon::fmt::default(f, v),
            }
            for c in s.chars() {
                f.write_char(c)?;
            }
            Ok(())
        }
        "default" => upon::fmt::default(f, v),
        "dbg" => Ok(write!(f, "{}", val::dbg(v))?),
        "wrap" if chars => {
            // (in pieces of every kind)
            write!(f, "<")?;
            f.write_str(&q.tag)?;
            f.write_char(':')?;
            write!(f, "")?;
            write!(f, "{}", val::dbg(v))?;
            f.write_str("")?;
            Ok(write!(f, ">")?)
        }
        "wrap" => Ok(write!(f, "<{}:{}>", q.tag, val::dbg(v))?),
        "esc" => {
            if let Value::String(s) = v {
                for c in s.chars() {
                    match c {
                        '<' => f.write_str("&lt;")?,
                        '>' => f.write_str("&gt;")?,
                        '&' => f.write_str("&amp;")?,
                        c => f.write_char(c)?,
                    }
                }
                Ok(())
            } else {
                upon::fmt::default(f, v)
            }
        }
        "fail" => {
            f.write_str(&q.tag)?;
            Err(upon::fmt::Error::from(q.msg.as_str()))
        }
        "fmterr" => {
            f.write_str(&q.tag)?;
            Err(upon::fmt::Error::from(std::fmt::Error))
        }
        "failf" if val::truthy(v) => Ok(write!(f, "<{}:{}>", q.tag, val::dbg(v))?),
        "failf" => {
            f.write_str(&q.tag)?;
            Err(upon::fmt::Error::from(q.msg.clone()))
        }
        b => panic!("bad formatter {b:?}"),
    }
}

fn log_fmt(q: &FnSpec, v: &Value) {
    log(format!("{{\"c\":\"fmt\",\"n\":{},\"v\":{}}}", json::text(&q.tag), val::to_j(v)));
}

fn add_fn(e: &mut Engine<'_>, j: &J) -> Option<EngineFn> {
    let n = j.g("n").text();
    let q = FnSpec::new(j);
    if j.g("k").s() == "fmt" {
        let chars = j.g("chars").b();
        e.add_formatter(n, move |f: &mut upon::fmt::Formatter<'_>, v: &Value| {
            log_fmt(&q, v);
            format(&q, f, v, chars)
        })
    } else if j.g("rt").s() != "" {
        add_returning(e, n, j.g("rt").s(), q)
    } else {
        let sig: Vec<&str> = j.g("ps").arr().iter().map(|p| p.s()).collect();
        filters::add(e, n, &sig.join(","), q)
    }
}

fn set_default(e: &mut Engine<'_>, j: &J) {
    let q = FnSpec::new(j);
    let chars = j.g("chars").b();
    let f = Box::leak(Box::new(move |f: &mut upon::fmt::Formatter<'_>, v: &Value| {
        log_fmt(&q, v);
        format(&q, f, v, chars)
    }));
    e.set_default_formatter(f);
}

// ------------------------------------------------------------------- engine

fn leak(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}

fn syntax(j: &J, order: usize) -> Syntax<'static> {
    let mut b = Syntax::builder();
    let pair = |x: &J| -> Option<(&'static str, &'static str)> {
        let a = x.arr();
        (a.len() == 2).then(|| (leak(a[0].text()), leak(a[1].text())))
    };
    // The kinds in any order; in the odd orders each is configured twice, and the last configuration counts.
    let kinds = ["ebc", "ecb", "bec", "bce", "ceb", "cbe"][(order / 2) % 6];
    for round in 1 - order % 2..2 {
        for k in kinds.chars() {
            let Some((x, y)) = pair(j.g(&k.to_string())) else { continue };
            let (x, y) = if order % 2 == 1 && round == 0 { ("{:", y) } else { (x, y) };
            match k {
                'e' => b.expr(x, if round == 0 { ":}" } else { y }),
                'b' => b.block(x, y),
                _ => b.comment(x, if round == 0 { "?)" } else { y }),
            };
        }
    }
    b.build()
}

/// A maximum include depth; those below -1 stand for ones that no render reaches.
fn depth(j: &J) -> Option<usize> {
    match j.int_or(-1) {
        -1 => None,
        -2 => Some(usize::MAX),
        -3 => Some(usize::MAX - 1),
        -4 => Some(1 << 32),
        -5 => Some(1 << 63),
        -6 => Some((1 << 31) - 1),
        -7 => Some((1 << 16) + (1 << 8)),
        -8 => Some(1 << 31),
        d => Some(d as usize),
    }
}

/// An engine; the default syntax in all the ways there are to get it, which
/// of them depends on n.
fn new_engine(j: &J, n: usize) -> Engine<'static> {
    if !j.g("defsyn").b() {
        return Engine::with_syntax(syntax(j.g("syn"), j.g("order").int_or(0) as usize));
    }
    match n % 4 {
        0 => Engine::default(),
        1 => Engine::with_syntax(Syntax::default()),
        2 => Engine::with_syntax(Syntax::builder().expr("{{", "}}").block("{%", "%}").comment("{#", "#}").build()),
        _ => Engine::new(),
    }
}

fn engine(case: &J) -> Engine<'static> {
    let mut e = new_engine(case, case.g("tpls").arr().first().map_or(0, |t| t.g("s").arr().len()));
    for f in case.g("fns").arr() {
        add_fn(&mut e, f);
    }
    if *case.g("dfmt") != J::Null && !case.g("dfmt").g("builtin").b() {
        set_default(&mut e, case.g("dfmt"));
    }
    if let Some(d) = depth(case.g("depth")) {
        e.set_max_include_depth(d);
    }
    e
}

// ------------------------------------------------------------------- errors

fn error(e: &upon::Error) -> String {
    let plain = e.to_string();
    let alt = format!("{e:#}");
    let (kind, msg) = match plain.split_once(": ") {
        Some((k, m)) => (k.to_string(), m.to_string()),
        None => (plain.clone(), String::new()),
    };
    let k = match kind.as_str() {
        "invalid syntax" => "syntax",
        "render error" => "render",
        "filter error" => "filter",
        "format error" => "format",
        "serialize error" => "serialize",
        "io error" => "io",
        other => other,
    };
    let mut loc = String::from("{\"has\":false}");
    let mut lines: Vec<String> = alt.split('\n').map(String::from).collect();
    // (a name may extend over several lines)
    while lines.len() > 8 && lines[3].trim() != "|" {
        let more = lines.remove(3);
        lines[2] = format!("{}\n{}", lines[2], more);
    }
    if lines.len() >= 8 && lines[0] == kind && lines[1].is_empty() {
        if let Some((_, h)) = lines[2].split_once("--> ") {
            let mut it = h.rsplitn(3, ':');
            let col = it.next().unwrap_or("").parse::<i64>().unwrap_or(-1);
            let ln = it.next().unwrap_or("").parse::<i64>().unwrap_or(-1);
            let name = it.next().unwrap_or("");
            let text = lines[4].split_once("| ").map(|x| x.1).unwrap_or("\u{fffd}");
            let under = lines[5].split_once("| ").map(|x| x.1).unwrap_or("");
            // (how far right of the beginning of the text the marks begin)
            let gutter = |l: &String| l.find("| ").map_or(-9, |x| x as i64);
            let pad = under.chars().take_while(|c| *c == ' ').count() as i64 + gutter(&lines[5]) - gutter(&lines[4]);
            let cw = under.chars().filter(|c| *c == '^').count();
            let lnok = lines[4].trim_start().starts_with(&format!("{ln} |"));
            let reason = alt.contains(&format!("= reason: {msg}\n"));
            loc = format!(
                "{{\"has\":true,\"n\":{},\"ln\":{},\"col\":{},\"text\":{},\"pad\":{},\"cw\":{}}}",
                json::text(name),
                if lnok && reason { ln } else { -2 },
                col,
                json::text(text),
                pad,
                cw
            );
        }
    }
    // without a location the detailed form is the plain one, and the debug form begins with the detailed one
    let odd = (loc.len() < 15 && alt != plain) || !format!("{e:?}").starts_with(&format!("{alt}\n"));
    if odd {
        loc = format!("{{\"has\":true,\"n\":{},\"ln\":-3,\"col\":-3,\"text\":[],\"pad\":-3,\"cw\":-3}}", json::text("odd forms"));
    }
    let src = match std::error::Error::source(e) {
        Some(s) => match s.downcast_ref::<io::Error>() {
            Some(i) => match i.raw_os_error() {
                Some(n) => format!("{i}|os{n}"),
                None => format!("{}|{:?}", i, i.kind()),
            },
            None => "other".to_string(),
        },
        None => "none".to_string(),
    };
    format!(
        "{{\"r\":\"err\",\"kind\":\"{}\",\"msg\":{},\"loc\":{},\"src\":{}}}",
        k,
        json::text(&msg),
        loc,
        json::text(&src)
    )
}

fn result<T>(r: &Result<T, upon::Error>) -> String {
    match r {
        Ok(_) => "{\"r\":\"ok\"}".into(),
        Err(e) => error(e),
    }
}

// ------------------------------------------------------------------- writer

struct W<'a> {
    out: &'a mut Vec<u8>,
    after: &'a mut i64,
    lim: i64,
    short: usize,
    intr: i64,
    zero: bool,
    once: bool,
    calls: i64,
    failed: bool,
    e: String,
}

impl io::Write for W<'_> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if self.failed {
            *self.after += 1;
            if self.once {
                return Ok(buf.len());
            }
            return Err(io::Error::new(io::ErrorKind::Other, "again"));
        }
        if buf.is_empty() {
            return Ok(0);
        }
        if WRITES.with(|w| w.get()) {
            hook();
        }
        self.calls += 1;
        if self.intr > 0 && self.calls % (self.intr + 1) == 0 {
            return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
        }
        let mut n = buf.len();
        if self.short > 0 {
            n = n.min(self.short);
        }
        if self.lim >= 0 {
            let rem = (self.lim as usize) - self.out.len();
            if rem == 0 {
                self.failed = true;
                if self.zero {
                    return Ok(0);
                }
                let (msg, kind) = self.e.rsplit_once('|').unwrap_or(("disk full", "BrokenPipe"));
                if let Some(n) = kind.strip_prefix("os") {
                    return Err(io::Error::from_raw_os_error(n.parse().unwrap()));
                }
                let kind = match kind {
                    "Other" => io::ErrorKind::Other,
                    "WouldBlock" => io::ErrorKind::WouldBlock,
                    "NotFound" => io::ErrorKind::NotFound,
                    "UnexpectedEof" => io::ErrorKind::UnexpectedEof,
                    "InvalidData" => io::ErrorKind::InvalidData,
                    "WriteZero" => io::ErrorKind::WriteZero,
                    "PermissionDenied" => io::ErrorKind::PermissionDenied,
                    "ConnectionReset" => io::ErrorKind::ConnectionReset,
                    "ConnectionAborted" => io::ErrorKind::ConnectionAborted,
                    "NotConnected" => io::ErrorKind::NotConnected,
                    "AlreadyExists" => io::ErrorKind::AlreadyExists,
                    "InvalidInput" => io::ErrorKind::InvalidInput,
                    "TimedOut" => io::ErrorKind::TimedOut,
                    "Unsupported" => io::ErrorKind::Unsupported,
                    "OutOfMemory" => io::ErrorKind::OutOfMemory,
                    _ => io::ErrorKind::BrokenPipe,
                };
                return Err(io::Error::new(kind, msg));
            }
            n = n.min(rem);
        }
        self.out.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

// ------------------------------------------------------------------- render

/// What a function says that knows nothing of a name.
fn message(s: String, sfx: &str) -> String {
    match sfx.strip_prefix('=') {
        Some(m) => m.to_string(),
        None => s + sfx,
    }
}

fn walk(ctx: &Value, path: &[ValueMember<'_>], sfx: &str) -> Result<Value, String> {
    let mut parts = Vec::new();
    let mut first = String::new();
    for (i, m) in path.iter().enumerate() {
        let op = match m.op {
            ValueAccessOp::Direct => ".",
            ValueAccessOp::Optional => "?.",
        };
        let (a, n) = match m.access {
            ValueAccess::Index(x) => ("idx", x.to_string()),
            ValueAccess::Key(k) => ("key", k.to_string()),
        };
        if i == 0 {
            first = n.clone();
        }
        parts.push(format!("{{\"op\":\"{op}\",\"a\":\"{a}\",\"n\":{}}}", json::text(&n)));
    }
    log(format!("{{\"c\":\"vfn\",\"path\":[{}]}}", parts.join(",")));
    let mut v = ctx;
    for m in path {
        let next = match (v, m.access) {
            (Value::List(l), ValueAccess::Index(i)) => l.get(i),
            (Value::Map(x), ValueAccess::Key(k)) => x.get(k),
            _ => return Err(message(format!("vfn {first}"), sfx)),
        };
        v = match next {
            Some(x) => x,
            None if m.op == ValueAccessOp::Optional => return Ok(Value::None),
            None => return Err(message(format!("vfn {first}"), sfx)),
        };
    }
    Ok(v.clone())
}

struct Compiled {
    templates: Vec<Option<Template<'static>>>,
    obs: Vec<String>,
}

fn compile_all(case: &J, e: &mut Engine<'static>) -> Compiled {
    let mut templates = Vec::new();
    let mut obs = Vec::new();
    for t in case.g("tpls").arr() {
        let src = leak(t.g("s").text());
        let name = t.g("n").text();
        let role = t.g("role").s().to_string();
        let r = catch_unwind(AssertUnwindSafe(|| {
            if role == "reg" {
                let r = e.add_template(name.clone(), src);
                if r.is_ok() {
                    assert_eq!(e.get_template(&name).map(|t| t.source().to_string()), Some(src.to_string()));
                }
                (result(&r), None)
            } else {
                let r = e.compile(src);
                if let Ok(t) = &r {
                    assert_eq!(t.source(), src);
                }
                (result(&r), r.ok())
            }
        }));
        match r {
            Ok((o, t)) => {
                obs.push(o);
                templates.push(t);
            }
            Err(_) => {
                obs.push("{\"r\":\"panic\"}".into());
                templates.push(None);
            }
        }
    }
    Compiled { templates, obs }
}

fn renderer<'r>(e: &'r Engine<'static>, c: &'r Compiled, case: &'r J, req: &'r J, ctx: &'r Value) -> Option<Renderer<'r>> {
    let main = req.g("main").n();
    if main == 0 {
        return None;
    }
    let t = &case.g("tpls").arr()[main as usize - 1];
    let src = req.g("src").s();
    let sfx = case.g("sfx").text();
    let sfx2 = sfx.clone();
    let vfn = move |p: &[ValueMember<'_>]| walk(ctx, p, &sfx2);
    let mut r = if t.g("role").s() == "reg" {
        let tr = e.get_template(leak(t.g("n").text()))?;
        match src {
            "from" => tr.render_from(ctx),
            "fn" => tr.render_from_fn(vfn),
            _ => Box::leak::<'r>(Box::new(tr)).render(val::AsSer(ctx)),
        }
    } else {
        let tr = c.templates[main as usize - 1].as_ref()?;
        match src {
            "from" => tr.render_from(e, ctx),
            "fn" => tr.render_from_fn(e, vfn),
            _ => tr.render(e, val::AsSer(ctx)),
        }
    };
    // settings may be given in any order, and more than once: the last one counts
    let n = t.g("s").arr().len();
    let limit = depth(req.g("rdepth"));
    let decoy = n % 3 == 1;
    if n % 2 == 1 {
        if let Some(d) = limit {
            r = r.with_max_include_depth(if decoy { usize::from(n % 4 == 3) } else { d }).with_max_include_depth(d);
        }
    }
    if req.g("tfn").b() {
        let mut map: HashMap<String, &'r Template<'r>> = HashMap::new();
        for (i, t) in case.g("tpls").arr().iter().enumerate() {
            if t.g("role").s() == "tfn" {
                if let Some(x) = &c.templates[i] {
                    map.insert(t.g("n").text(), x);
                }
            }
        }
        if decoy {
            r = r.with_template_fn(|n| {
                log(format!("{{\"c\":\"decoy\",\"n\":{}}}", json::text(n)));
                Err("another template function was set".to_string())
            });
        }
        r = r.with_template_fn(move |n| {
            log(format!("{{\"c\":\"tfn\",\"n\":{}}}", json::text(n)));
            map.get(n).copied().ok_or_else(|| message(format!("tfn {n}"), &sfx))
        });
    }
    if n % 2 == 0 {
        if let Some(d) = limit {
            if decoy {
                r = r.with_max_include_depth(0);
            }
            r = r.with_max_include_depth(d);
        }
    }
    Some(r)
}

/// One render request: {"out":..,"calls":..,"res":..,"after":..,"same":..}
fn render(e: &Engine<'static>, c: &Compiled, case: &J, req: &J) -> String {
    let ctx = val::from_j(req.g("ctx"));
    let wm = req.g("wm");
    let lim = req.g("lim").int_or(-1);
    take_log();
    let mut out = Vec::new();
    let mut after = 0;
    let r = catch_unwind(AssertUnwindSafe(|| {
        renderer(e, c, case, req, &ctx).map(|r| {
            r.to_writer(W {
                out: &mut out,
                after: &mut after,
                lim,
                short: wm.g("short").n() as usize,
                intr: wm.g("intr").n(),
                zero: wm.g("zero").b(),
                once: wm.g("once").b(),
                calls: 0,
                failed: false,
                e: wm.g("e").text(),
            })
        })
    }));
    let calls = take_log();
    let mut same = true;
    let mut ctxsame = true;
    let res = match &r {
        Err(_) => "{\"r\":\"panic\"}".to_string(),
        Ok(None) => "{\"r\":\"none\"}".to_string(),
        Ok(Some(r)) => {
            if lim < 0 {
                let r2 = catch_unwind(AssertUnwindSafe(|| renderer(e, c, case, req, &ctx).unwrap().to_string()));
                let calls2 = take_log();
                same = calls == calls2
                    && match (r, &r2) {
                        (_, Err(_)) => false,
                        (Ok(()), Ok(Ok(s))) => s.as_bytes() == &out[..],
                        (Err(a), Ok(Err(b))) => error(a) == error(b),
                        _ => false,
                    };
            }
            ctxsame = val::to_j(&ctx) == val::to_j(&val::from_j(req.g("ctx")));
            result(r)
        }
    };
    format!(
        "\"out\":{},\"calls\":{},\"res\":{},\"after\":{},\"same\":{}",
        json::bytes(&out),
        calls,
        res,
        after,
        same && ctxsame
    )
}

fn run_render(case: &J) -> String {
    let mut e = engine(case);
    let c = compile_all(case, &mut e);
    let r = render(&e, &c, case, case);
    format!("{{\"tpls\":[{}],{}}}", c.obs.join(","), r)
}

/// Concurrent requests against one engine: every thread performs its requests
/// several times; the first observation of each request is reported, and
/// whether the later ones were equal.
#[cfg(feature = "conc")]
fn run_conc(case: &J) -> String {
    let mut e = engine(case);
    let c = compile_all(case, &mut e);
    let reps = case.g("reps").int_or(1);
    let e = &e;
    let c = &c;
    let barrier = std::sync::Barrier::new(case.g("threads").arr().len());
    let all: Vec<Vec<(String, bool)>> = std::thread::scope(|s| {
        let hs: Vec<_> = case
            .g("threads")
            .arr()
            .iter()
            .map(|reqs| {
                let barrier = &barrier;
                s.spawn(move || {
                    let mut obs: Vec<(String, bool)> = Vec::new();
                    barrier.wait();
                    for k in 0..reps {
                        for (i, r) in reqs.arr().iter().enumerate() {
                            let o = render(e, c, case, r);
                            if k == 0 {
                                obs.push((o, true));
                            } else if obs[i].0 != o {
                                obs[i] = (o, false);
                            }
                        }
                    }
                    obs
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let th: Vec<String> = all
        .iter()
        .map(|v| {
            let x: Vec<String> = v
                .iter()
                .map(|(o, s)| format!("{{\"tpls\":[{}],{},\"stable\":{}}}", c.obs.join(","), o, s))
                .collect();
            format!("[{}]", x.join(","))
        })
        .collect();
    format!("{{\"threads\":[{}]}}", th.join(","))
}

/// Two or more renders on threads of their own, interleaved at their calls into
/// user code: call number p is made by thread schedule[p].  A thread that
/// makes more calls than the schedule has for it runs freely; one that makes
/// fewer is skipped.
#[cfg(feature = "conc")]
fn run_sched(case: &J) -> String {
    use std::sync::{Condvar, Mutex};
    let mut e = engine(case);
    let c = compile_all(case, &mut e);
    let (e, c) = (&e, &c);
    let schedule: Vec<usize> = case.g("schedule").arr().iter().map(|x| x.n() as usize).collect();
    struct Turn {
        pos: usize,
        done: Vec<bool>,
    }
    let reqs = case.g("threads").arr();
    let turn: Arc<(Mutex<Turn>, Condvar)> = Arc::new((Mutex::new(Turn { pos: 0, done: vec![false; reqs.len() + 1] }), Condvar::new()));
    fn skip(t: &mut Turn, schedule: &[usize]) {
        while t.pos < schedule.len() && t.done[schedule[t.pos]] {
            t.pos += 1;
        }
    }
    let all: Vec<String> = std::thread::scope(|s| {
        let hs: Vec<_> = reqs
            .iter()
            .enumerate()
            .map(|(i, r)| {
                let me = i + 1;
                let turn = turn.clone();
                let schedule = schedule.clone();
                let r = &r.arr()[0];
                s.spawn(move || {
                    let (t2, s2) = (turn.clone(), schedule.clone());
                    // whose turn it is next; passed on when this thread arrives at its next call or ends
                    let mut held = false;
                    HOOK.with(|h| {
                        *h.borrow_mut() = Some(Box::new(move || {
                            let (m, cv) = &*t2;
                            let mut t = m.lock().unwrap();
                            if held {
                                t.pos += 1;
                                held = false;
                            }
                            loop {
                                skip(&mut t, &s2);
                                cv.notify_all();
                                if !s2[t.pos.min(s2.len())..].contains(&me) {
                                    return;
                                }
                                if s2[t.pos] == me {
                                    held = true;
                                    return;
                                }
                                t = cv.wait(t).unwrap();
                            }
                        }))
                    });
                    let o = render(e, c, case, r);
                    HOOK.with(|h| *h.borrow_mut() = None);
                    let (m, cv) = &*turn;
                    let mut t = m.lock().unwrap();
                    t.done[me] = true;
                    skip(&mut t, &schedule);
                    cv.notify_all();
                    o
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let th: Vec<String> = all.iter().map(|o| format!("[{{\"tpls\":[{}],{},\"stable\":true}}]", c.obs.join(","), o)).collect();
    format!("{{\"threads\":[{}]}}", th.join(","))
}

/// The second render runs in the middle of call number `at` of the first, on
/// the same thread.
fn run_nest(case: &J) -> String {
    let mut e = engine(case);
    let c = compile_all(case, &mut e);
    let reqs: Vec<&J> = case.g("threads").arr().iter().map(|t| &t.arr()[0]).collect();
    let inner: Arc<std::sync::Mutex<Option<String>>> = Arc::default();
    let mut n = case.g("at").n();
    {
        let i2 = inner.clone();
        // (everything borrowed outlives the hook, which is removed below)
        let (ep, cp, casep, reqp) = (&e as *const Engine<'static>, &c as *const Compiled, case as *const J, reqs[1] as *const J);
        HOOK.with(|h| {
            *h.borrow_mut() = Some(Box::new(move || {
                n -= 1;
                if n == 0 {
                    let saved: Vec<String> = LOG.with(|l| l.borrow_mut().drain(..).collect());
                    let o = unsafe { render(&*ep, &*cp, &*casep, &*reqp) };
                    LOG.with(|l| *l.borrow_mut() = saved);
                    *i2.lock().unwrap() = Some(o);
                }
            }))
        });
    }
    WRITES.with(|w| w.set(case.g("writes").b()));
    let outer = render(&e, &c, case, reqs[0]);
    WRITES.with(|w| w.set(false));
    HOOK.with(|h| *h.borrow_mut() = None);
    let inner = inner.lock().unwrap().take();
    let inner = inner.unwrap_or_else(|| render(&e, &c, case, reqs[1]));
    let f = |o: String| format!("[{{\"tpls\":[{}],{},\"stable\":true}}]", c.obs.join(","), o);
    format!("{{\"threads\":[{},{}]}}", f(outer), f(inner))
}

// ------------------------------------------------------------------ history

fn kind(k: Option<EngineFn>) -> String {
    match k {
        None => "{\"r\":\"none\"}".into(),
        Some(EngineFn::Filter) => "{\"r\":\"flt\"}".into(),
        Some(EngineFn::Formatter) => "{\"r\":\"fmt\"}".into(),
    }
}

/// A history of operations on one or more engines.  Compiled templates go to slots shared by all engines.
fn run_engine(case: &J) -> String {
    let mut engines: Vec<Engine<'static>> = case
        .g("engines")
        .arr()
        .iter()
        .map(|e| new_engine(e, case.g("ops").arr().len()))
        .collect();
    let mut slots: Vec<Option<Template<'static>>> = Vec::new();
    let mut obs: Vec<String> = Vec::new();
    for op in case.g("ops").arr() {
        let n = op.g("n").text();
        let e = &mut engines[op.g("e").n() as usize - 1];
        let o = catch_unwind(AssertUnwindSafe(|| match op.g("op").s() {
            "addt" => {
                let src = leak(op.g("s").text());
                if op.g("owned").b() {
                    result(&e.add_template(n, src.to_string()))
                } else {
                    result(&e.add_template(&*leak(n), src))
                }
            }
            "remt" => format!("{{\"r\":\"{}\"}}", e.remove_template(&n)),
            "gett" => match e.get_template(&n) {
                None => match catch_unwind(AssertUnwindSafe(|| e.template(&n).source().len())) {
                    Err(_) => "{\"r\":\"none\"}".into(),
                    Ok(_) => "{\"r\":\"differ\"}".into(),
                },
                Some(t) if t.source() == e.template(&n).source() => format!("{{\"r\":\"some\",\"s\":{}}}", json::text(t.source())),
                Some(_) => "{\"r\":\"differ\"}".into(),
            },
            "addf" => kind(add_fn(e, op.g("f"))),
            "remf" => kind(e.remove_function(&n)),
            "depth" => {
                e.set_max_include_depth(depth(op.g("d")).unwrap());
                "{\"r\":\"ok\"}".into()
            }
            "dfmt" => {
                set_default(e, op.g("f"));
                "{\"r\":\"ok\"}".into()
            }
            "compile" => {
                let r = e.compile(op.g("s").text());
                if let Ok(t) = &r {
                    assert_eq!(t.source(), op.g("s").text());
                }
                let o = result(&r);
                slots.push(r.ok());
                o
            }
            "render" => engine_render(e, &slots, op, &n),
            x => panic!("bad op {x:?}"),
        }));
        obs.push(o.unwrap_or_else(|_| "{\"r\":\"panic\"}".into()));
    }
    format!("{{\"ops\":[{}]}}", obs.join(","))
}

/// Renders registered template n, or a compiled slot; as asked for by op.
fn engine_render(e: &Engine<'static>, slots: &[Option<Template<'static>>], op: &J, n: &str) -> String {
    let slot = op.g("slot").n() as usize;
    let ctx = val::from_j(op.g("ctx"));
    let lim = op.g("lim").int_or(-1);
    let d = depth(op.g("rdepth"));
    let wm = op.g("wm");
    // the template function: names to slots
    let mut map: HashMap<String, &Template<'static>> = HashMap::new();
    for t in op.g("tfnm").arr() {
        if let Some(Some(x)) = slots.get(t.g("slot").n() as usize - 1) {
            map.insert(t.g("n").text(), x);
        }
    }
    let sfx = op.g("sfx").text();
    let vfn = |p: &[ValueMember<'_>]| walk(&ctx, p, &sfx);
    let make = || -> Option<Renderer<'_>> {
        let mut r = if slot == 0 {
            let t = e.get_template(n)?;
            match op.g("src").s() {
                "fn" => t.render_from_fn(vfn),
                "ser" => Box::leak(Box::new(t)).render(val::AsSer(&ctx)),
                _ => t.render_from(&ctx),
            }
        } else {
            let t = slots.get(slot - 1)?.as_ref()?;
            match op.g("src").s() {
                "fn" => t.render_from_fn(e, vfn),
                "ser" => t.render(e, val::AsSer(&ctx)),
                _ => t.render_from(e, &ctx),
            }
        };
        if op.g("tfn").b() {
            if op.g("twice").b() {
                r = r.with_template_fn(|_| Err("the first template function".into()));
            }
            r = r.with_template_fn(|n| {
                log(format!("{{\"c\":\"tfn\",\"n\":{}}}", json::text(n)));
                map.get(n).copied().ok_or_else(|| message(format!("tfn {n}"), &sfx))
            });
        }
        if let Some(d) = d {
            if op.g("twice").b() {
                r = r.with_max_include_depth(1000).with_max_include_depth(0);
            }
            r = r.with_max_include_depth(d);
        }
        Some(r)
    };
    take_log();
    let mut out = Vec::new();
    let mut after = 0;
    let r = catch_unwind(AssertUnwindSafe(|| {
        make().map(|r| {
            r.to_writer(W {
                out: &mut out,
                after: &mut after,
                lim,
                short: wm.g("short").int_or(0) as usize,
                intr: wm.g("intr").int_or(0),
                zero: wm.g("zero").b(),
                once: wm.g("once").b(),
                calls: 0,
                failed: false,
                e: wm.g("e").text(),
            })
        })
    }));
    let calls = take_log();
    let res = match r {
        Err(_) => return "{\"r\":\"panic\"}".into(),
        Ok(None) => return "{\"r\":\"none\"}".into(),
        Ok(Some(r)) => r,
    };
    // once more, to a string; nothing happened in between
    let mut same = true;
    if lim < 0 {
        let again = catch_unwind(AssertUnwindSafe(|| make().unwrap().to_string()));
        same = take_log() == calls
            && match (&res, &again) {
                (Ok(()), Ok(Ok(s))) => s.as_bytes() == &out[..],
                (Err(a), Ok(Err(b))) => error(a) == error(b),
                _ => false,
            };
    }
    format!(
        "{{\"r\":\"done\",\"out\":{},\"calls\":{},\"res\":{},\"after\":{},\"same\":{}}}",
        json::bytes(&out),
        calls,
        result(&res),
        after,
        same
    )
}

// -------------------------------------------------------------- conversions

fn value_result(r: Result<Value, upon::Error>) -> String {
    match r {
        Ok(v) => format!("{{\"r\":\"ok\",\"v\":{}}}", val::to_j(&v)),
        Err(e) => error(&e),
    }
}

struct One<'a>(&'a J);
impl serde::Serialize for One<'_> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::SerializeMap;
        let mut m = s.serialize_map(Some(1))?;
        m.serialize_entry("x", &val::Tree(self.0))?;
        m.end()
    }
}

fn run_ser(case: &J) -> String {
    let a = catch_unwind(AssertUnwindSafe(|| upon::to_value(val::Tree(case.g("tree")))));
    let again = match &a {
        Ok(Ok(v)) => catch_unwind(AssertUnwindSafe(|| value_result(upon::to_value(v)))).unwrap_or_else(|_| "{\"r\":\"panic\"}".into()),
        _ => "{\"r\":\"none\"}".into(),
    };
    let a = match a {
        Ok(r) => value_result(r),
        Err(_) => "{\"r\":\"panic\"}".into(),
    };
    let b = catch_unwind(AssertUnwindSafe(|| {
        let mut e = Engine::new();
        e.add_formatter("dbg", |f: &mut upon::fmt::Formatter<'_>, v: &Value| Ok(write!(f, "{}", val::dbg(v))?));
        e.add_template("reg", "{{ x | dbg }}").unwrap();
        e.add_template("text", "t").unwrap();
        let t = e.compile("{{ x | dbg }}").unwrap();
        let r = t.render(&e, One(case.g("tree"))).to_string();
        // by any other way the same; without any use of the context, too
        let mut same = true;
        let text = e.compile("t").unwrap();
        for k in 0..7 {
            let mut out = Vec::new();
            let r2 = match k {
                0 => t.render(&e, One(case.g("tree"))).to_writer(&mut out),
                1 => e.template("reg").render(One(case.g("tree"))).to_writer(&mut out),
                2 => e.template("reg").render(One(case.g("tree"))).to_string().map(|s| out = s.into_bytes()),
                3 => e.template("text").render(One(case.g("tree"))).to_writer(&mut out),
                4 => e.template("text").render(One(case.g("tree"))).to_string().map(|s| out = s.into_bytes()),
                5 => text.render(&e, One(case.g("tree"))).to_writer(&mut out),
                _ => text.render(&e, One(case.g("tree"))).with_template_fn(|_| Err(String::new())).with_max_include_depth(1).to_writer(&mut out),
            };
            same &= match (&r, &r2) {
                (Ok(_), Ok(())) if k > 2 => out == b"t",
                (Ok(s), Ok(())) => s.as_bytes() == &out[..],
                (Err(a), Err(b)) => error(a) == error(b) && out.is_empty(),
                _ => false,
            };
        }
        match r {
            _ if !same => "{\"r\":\"differ\"}".into(),
            Ok(s) => format!("{{\"r\":\"ok\",\"out\":{},\"same\":true}}", json::text(&s)),
            Err(e) => error(&e),
        }
    }));
    let b = b.unwrap_or_else(|_| "{\"r\":\"panic\"}".into());
    format!("{{\"value\":{a},\"again\":{again},\"ctx\":{b}}}")
}

mod from;

// --------------------------------------------------------------------- main

fn run(case: &J) -> String {
    match case.g("mode").s() {
        "render" | "" => run_render(case),
        #[cfg(feature = "conc")]
        "conc" => run_conc(case),
        #[cfg(feature = "conc")]
        "sched" => run_sched(case),
        #[cfg(not(feature = "conc"))]
        "conc" | "sched" => "{\"notshared\":true}".into(),
        "nest" => run_nest(case),
        "engine" => run_engine(case),
        "ser" => run_ser(case),
        "from" => from::run(case),
        m => panic!("bad mode {m:?}"),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = io::stdin();
    let stdout = io::stdout();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        if line.trim().is_empty() {
            continue;
        }
        let case = json::parse(&line);
        let o = catch_unwind(AssertUnwindSafe(|| run(&case))).unwrap_or_else(|e| {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            format!("{{\"harness\":{}}}", json::text(&m))
        });
        let mut out = stdout.lock();
        writeln!(out, "{o}").unwrap();
        out.flush().unwrap();
    }
}
