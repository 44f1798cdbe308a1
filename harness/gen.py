#!/usr/bin/env python3
"""Generates src/filters.rs: one echo filter per registered parameter type signature."""
import itertools, os
RT = {"unit":"()", "bool":"bool", "f32":"f32", "f64":"f64", "string":"String", "str":"&str", "list":"Vec<Value>",
      "listref":"&[Value]", "map":"BTreeMap<String, Value>", "mapref":"&BTreeMap<String, Value>", "value":"Value", "valueref":"&Value"}
INTS = ["u8","u16","u32","u64","u128","usize","i8","i16","i32","i64","i128","isize"]
for i in INTS: RT[i] = i
ALL = list(RT)
ARGS = [t for t in ALL if t not in ("listref","mapref","valueref")]
sigs = [(t,) for t in ALL]
for t in ARGS:
    for r in ("value","i64"): sigs.append((r,t))
for r in ALL:
    for t in ("value","str","bool"): sigs.append((r,t))
for n in (2,3,4):
    for r in ("value","str","listref","mapref","valueref"):
        for a in itertools.product(("value","str"), repeat=n): sigs.append((r,)+a)
sigs += [("i64","u8","bool"),("string","i32","f64","list"),("list","map","unit"),("f64","i8","u16","string","value"),
         ("map","string","i64"),("bool","bool","bool","bool"),("u64","i64","i16"),("value","f32","f64"),
         ("valueref","i64","u8"),("str","u32","bool","i64","f64"),("listref","usize"),("mapref","string"),
         ("value","i64","i64"),("value","i64","i64","i64"),("value","i64","i64","i64","i64"),("string","string","string"),
         ("unit","value","value"),("value","list","map"),("usize","isize","i128","u128")]
seen=set(); out=[]
for s in sigs:
    if s in seen: continue
    seen.add(s); out.append(s)
here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,"src","filters.rs"),"w") as f:
    f.write("//! Generated by gen.py.\nuse crate::{call, FnSpec, Tv};\nuse std::collections::BTreeMap;\nuse std::sync::Arc;\nuse upon::{Engine, EngineFn, Value};\n\n")
    f.write("pub fn add(e: &mut Engine<'_>, n: String, sig: &str, q: Arc<FnSpec>) -> Option<EngineFn> {\n    match sig {\n")
    for s in out:
        ps=", ".join(f"{chr(97+i)}: {RT[t]}" for i,t in enumerate(s))
        vs=", ".join(f"{chr(97+i)}.tv()" for i,_ in enumerate(s))
        f.write(f"        \"{','.join(s)}\" => e.add_filter(n, move |{ps}| call(&q, vec![{vs}])),\n")
    f.write("        _ => panic!(\"no such signature {sig}\"),\n    }\n}\n")
with open(os.path.join(here,"signatures.txt"),"w") as f:
    f.write("\n".join(",".join(s) for s in out)+"\n")
print(len(out))
