//! Generated by gen.py.
use crate::{call, FnSpec, Tv};
use std::collections::BTreeMap;
use std::sync::Arc;
use upon::{Engine, EngineFn, Value};

pub fn add(e: &mut Engine<'_>, n: String, sig: &str, q: Arc<FnSpec>) -> Option<EngineFn> {
    match sig {
        "unit" => e.add_filter(n, move |a: ()| call(&q, vec![a.tv()])),
        "bool" => e.add_filter(n, move |a: bool| call(&q, vec![a.tv()])),
        "f32" => e.add_filter(n, move |a: f32| call(&q, vec![a.tv()])),
        "f64" => e.add_filter(n, move |a: f64| call(&q, vec![a.tv()])),
        "string" => e.add_filter(n, move |a: String| call(&q, vec![a.tv()])),
        "str" => e.add_filter(n, move |a: &str| call(&q, vec![a.tv()])),
        "list" => e.add_filter(n, move |a: Vec<Value>| call(&q, vec![a.tv()])),
        "listref" => e.add_filter(n, move |a: &[Value]| call(&q, vec![a.tv()])),
        "map" => e.add_filter(n, move |a: BTreeMap<String, Value>| call(&q, vec![a.tv()])),
        "mapref" => e.add_filter(n, move |a: &BTreeMap<String, Value>| call(&q, vec![a.tv()])),
        "value" => e.add_filter(n, move |a: Value| call(&q, vec![a.tv()])),
        "valueref" => e.add_filter(n, move |a: &Value| call(&q, vec![a.tv()])),
        "u8" => e.add_filter(n, move |a: u8| call(&q, vec![a.tv()])),
        "u16" => e.add_filter(n, move |a: u16| call(&q, vec![a.tv()])),
        "u32" => e.add_filter(n, move |a: u32| call(&q, vec![a.tv()])),
        "u64" => e.add_filter(n, move |a: u64| call(&q, vec![a.tv()])),
        "u128" => e.add_filter(n, move |a: u128| call(&q, vec![a.tv()])),
        "usize" => e.add_filter(n, move |a: usize| call(&q, vec![a.tv()])),
        "i8" => e.add_filter(n, move |a: i8| call(&q, vec![a.tv()])),
        "i16" => e.add_filter(n, move |a: i16| call(&q, vec![a.tv()])),
        "i32" => e.add_filter(n, move |a: i32| call(&q, vec![a.tv()])),
        "i64" => e.add_filter(n, move |a: i64| call(&q, vec![a.tv()])),
        "i128" => e.add_filter(n, move |a: i128| call(&q, vec![a.tv()])),
        "isize" => e.add_filter(n, move |a: isize| call(&q, vec![a.tv()])),
        "value,unit" => e.add_filter(n, move |a: Value, b: ()| call(&q, vec![a.tv(), b.tv()])),
        "i64,unit" => e.add_filter(n, move |a: i64, b: ()| call(&q, vec![a.tv(), b.tv()])),
        "value,bool" => e.add_filter(n, move |a: Value, b: bool| call(&q, vec![a.tv(), b.tv()])),
        "i64,bool" => e.add_filter(n, move |a: i64, b: bool| call(&q, vec![a.tv(), b.tv()])),
        "value,f32" => e.add_filter(n, move |a: Value, b: f32| call(&q, vec![a.tv(), b.tv()])),
        "i64,f32" => e.add_filter(n, move |a: i64, b: f32| call(&q, vec![a.tv(), b.tv()])),
        "value,f64" => e.add_filter(n, move |a: Value, b: f64| call(&q, vec![a.tv(), b.tv()])),
        "i64,f64" => e.add_filter(n, move |a: i64, b: f64| call(&q, vec![a.tv(), b.tv()])),
        "value,string" => e.add_filter(n, move |a: Value, b: String| call(&q, vec![a.tv(), b.tv()])),
        "i64,string" => e.add_filter(n, move |a: i64, b: String| call(&q, vec![a.tv(), b.tv()])),
        "value,str" => e.add_filter(n, move |a: Value, b: &str| call(&q, vec![a.tv(), b.tv()])),
        "i64,str" => e.add_filter(n, move |a: i64, b: &str| call(&q, vec![a.tv(), b.tv()])),
        "value,list" => e.add_filter(n, move |a: Value, b: Vec<Value>| call(&q, vec![a.tv(), b.tv()])),
        "i64,list" => e.add_filter(n, move |a: i64, b: Vec<Value>| call(&q, vec![a.tv(), b.tv()])),
        "value,map" => e.add_filter(n, move |a: Value, b: BTreeMap<String, Value>| call(&q, vec![a.tv(), b.tv()])),
        "i64,map" => e.add_filter(n, move |a: i64, b: BTreeMap<String, Value>| call(&q, vec![a.tv(), b.tv()])),
        "value,value" => e.add_filter(n, move |a: Value, b: Value| call(&q, vec![a.tv(), b.tv()])),
        "i64,value" => e.add_filter(n, move |a: i64, b: Value| call(&q, vec![a.tv(), b.tv()])),
        "value,u8" => e.add_filter(n, move |a: Value, b: u8| call(&q, vec![a.tv(), b.tv()])),
        "i64,u8" => e.add_filter(n, move |a: i64, b: u8| call(&q, vec![a.tv(), b.tv()])),
        "value,u16" => e.add_filter(n, move |a: Value, b: u16| call(&q, vec![a.tv(), b.tv()])),
        "i64,u16" => e.add_filter(n, move |a: i64, b: u16| call(&q, vec![a.tv(), b.tv()])),
        "value,u32" => e.add_filter(n, move |a: Value, b: u32| call(&q, vec![a.tv(), b.tv()])),
        "i64,u32" => e.add_filter(n, move |a: i64, b: u32| call(&q, vec![a.tv(), b.tv()])),
        "value,u64" => e.add_filter(n, move |a: Value, b: u64| call(&q, vec![a.tv(), b.tv()])),
        "i64,u64" => e.add_filter(n, move |a: i64, b: u64| call(&q, vec![a.tv(), b.tv()])),
        "value,u128" => e.add_filter(n, move |a: Value, b: u128| call(&q, vec![a.tv(), b.tv()])),
        "i64,u128" => e.add_filter(n, move |a: i64, b: u128| call(&q, vec![a.tv(), b.tv()])),
        "value,usize" => e.add_filter(n, move |a: Value, b: usize| call(&q, vec![a.tv(), b.tv()])),
        "i64,usize" => e.add_filter(n, move |a: i64, b: usize| call(&q, vec![a.tv(), b.tv()])),
        "value,i8" => e.add_filter(n, move |a: Value, b: i8| call(&q, vec![a.tv(), b.tv()])),
        "i64,i8" => e.add_filter(n, move |a: i64, b: i8| call(&q, vec![a.tv(), b.tv()])),
        "value,i16" => e.add_filter(n, move |a: Value, b: i16| call(&q, vec![a.tv(), b.tv()])),
        "i64,i16" => e.add_filter(n, move |a: i64, b: i16| call(&q, vec![a.tv(), b.tv()])),
        "value,i32" => e.add_filter(n, move |a: Value, b: i32| call(&q, vec![a.tv(), b.tv()])),
        "i64,i32" => e.add_filter(n, move |a: i64, b: i32| call(&q, vec![a.tv(), b.tv()])),
        "value,i64" => e.add_filter(n, move |a: Value, b: i64| call(&q, vec![a.tv(), b.tv()])),
        "i64,i64" => e.add_filter(n, move |a: i64, b: i64| call(&q, vec![a.tv(), b.tv()])),
        "value,i128" => e.add_filter(n, move |a: Value, b: i128| call(&q, vec![a.tv(), b.tv()])),
        "i64,i128" => e.add_filter(n, move |a: i64, b: i128| call(&q, vec![a.tv(), b.tv()])),
        "value,isize" => e.add_filter(n, move |a: Value, b: isize| call(&q, vec![a.tv(), b.tv()])),
        "i64,isize" => e.add_filter(n, move |a: i64, b: isize| call(&q, vec![a.tv(), b.tv()])),
        "unit,value" => e.add_filter(n, move |a: (), b: Value| call(&q, vec![a.tv(), b.tv()])),
        "unit,str" => e.add_filter(n, move |a: (), b: &str| call(&q, vec![a.tv(), b.tv()])),
        "unit,bool" => e.add_filter(n, move |a: (), b: bool| call(&q, vec![a.tv(), b.tv()])),
        "bool,value" => e.add_filter(n, move |a: bool, b: Value| call(&q, vec![a.tv(), b.tv()])),
        "bool,str" => e.add_filter(n, move |a: bool, b: &str| call(&q, vec![a.tv(), b.tv()])),
        "bool,bool" => e.add_filter(n, move |a: bool, b: bool| call(&q, vec![a.tv(), b.tv()])),
        "f32,value" => e.add_filter(n, move |a: f32, b: Value| call(&q, vec![a.tv(), b.tv()])),
        "f32,str" => e.add_filter(n, move |a: f32, b: &str| call(&q, vec![a.tv(), b.tv()])),
        "f32,bool" => e.add_filter(n, move |a: f32, b: bool| call(&q, vec![a.tv(), b.tv()])),
        "f64,value" => e.add_filter(n, move |a: f64, b: Value| call(&q, vec![a.tv(), b.tv()])),
        "f64,str" => e.add_filter(n, move |a: f64, b: &str| call(&q, vec![a.tv(), b.tv()])),
        "f64,bool" => e.add_filter(n, move |a: f64, b: bool| call(&q, vec![a.tv(), b.tv()])),
        "string,value" => e.add_filter(n, move |a: String, b: Value| call(&q, vec![a.tv(), b.tv()])),
        "string,str" => e.add_filter(n, move |a: String, b: &str| call(&q, vec![a.tv(), b.tv()])),
        "string,bool" => e.add_filter(n, move |a: String, b: bool| call(&q, vec![a.tv(), b.tv()])),
        "str,value" => e.add_filter(n, move |a: &str, b: Value| call(&q, vec![a.tv(), b.tv()])),
        "str,str" => e.add_filter(n, move |a: &str, b: &str| call(&q, vec![a.tv(), b.tv()])),
        "str,bool" => e.add_filter(n, move |a: &str, b: bool| call(&q, vec![a.tv(), b.tv()])),
        "list,value" => e.add_filter(n, move |a: Vec<Value>, b: Value| call(&q, vec![a.tv(), b.tv()])),
        "list,str" => e.add_filter(n, move |a: Vec<Value>, b: &str| call(&q, vec![a.tv(), b.tv()])),
        "list,bool" => e.add_filter(n, move |a: Vec<Value>, b: bool| call(&q, vec![a.tv(), b.tv()])),
        "listref,value" => e.add_filter(n, move |a: &[Value], b: Value| call(&q, vec![a.tv(), b.tv()])),
        "listref,str" => e.add_filter(n, move |a: &[Value], b: &str| call(&q, vec![a.tv(), b.tv()])),
        "listref,bool" => e.add_filter(n, move |a: &[Value], b: bool| call(&q, vec![a.tv(), b.tv()])),
        "map,value" => e.add_filter(n, move |a: BTreeMap<String, Value>, b: Value| call(&q, vec![a.tv(), b.tv()])),
        "map,str" => e.add_filter(n, move |a: BTreeMap<String, Value>, b: &str| call(&q, vec![a.tv(), b.tv()])),
        "map,bool" => e.add_filter(n, move |a: BTreeMap<String, Value>, b: bool| call(&q, vec![a.tv(), b.tv()])),
        "mapref,value" => e.add_filter(n, move |a: &BTreeMap<String, Value>, b: Value| call(&q, vec![a.tv(), b.tv()])),
        "mapref,str" => e.add_filter(n, move |a: &BTreeMap<String, Value>, b: &str| call(&q, vec![a.tv(), b.tv()])),
        "mapref,bool" => e.add_filter(n, move |a: &BTreeMap<String, Value>, b: bool| call(&q, vec![a.tv(), b.tv()])),
        "valueref,value" => e.add_filter(n, move |a: &Value, b: Value| call(&q, vec![a.tv(), b.tv()])),
        "valueref,str" => e.add_filter(n, move |a: &Value, b: &str| call(&q, vec![a.tv(), b.tv()])),
        "valueref,bool" => e.add_filter(n, move |a: &Value, b: bool| call(&q, vec![a.tv(), b.tv()])),
        "u8,value" => e.add_filter(n, move |a: u8, b: Value| call(&q, vec![a.tv(), b.tv()])),
        "u8,str" => e.add_filter(n, move |a: u8, b: &str| call(&q, vec![a.tv(), b.tv()])),
        "u8,bool" => e.add_filter(n, move |a: u8, b: bool| call(&q, vec![a.tv(), b.tv()])),
        "u16,value" => e.add_filter(n, move |a: u16, b: Value| call(&q, vec![a.tv(), b.tv()])),
        "u16,str" => e.add_filter(n, move |a: u16, b: &str| call(&q, vec![a.tv(), b.tv()])),
        "u16,bool" => e.add_filter(n, move |a: u16, b: bool| call(&q, vec![a.tv(), b.tv()])),
        "u32,value" => e.add_filter(n, move |a: u32, b: Value| call(&q, vec![a.tv(), b.tv()])),
        "u32,str" => e.add_filter(n, move |a: u32, b: &str| call(&q, vec![a.tv(), b.tv()])),
        "u32,bool" => e.add_filter(n, move |a: u32, b: bool| call(&q, vec![a.tv(), b.tv()])),
        "u64,value" => e.add_filter(n, move |a: u64, b: Value| call(&q, vec![a.tv(), b.tv()])),
        "u64,str" => e.add_filter(n, move |a: u64, b: &str| call(&q, vec![a.tv(), b.tv()])),
        "u64,bool" => e.add_filter(n, move |a: u64, b: bool| call(&q, vec![a.tv(), b.tv()])),
        "u128,value" => e.add_filter(n, move |a: u128, b: Value| call(&q, vec![a.tv(), b.tv()])),
        "u128,str" => e.add_filter(n, move |a: u128, b: &str| call(&q, vec![a.tv(), b.tv()])),
        "u128,bool" => e.add_filter(n, move |a: u128, b: bool| call(&q, vec![a.tv(), b.tv()])),
        "usize,value" => e.add_filter(n, move |a: usize, b: Value| call(&q, vec![a.tv(), b.tv()])),
        "usize,str" => e.add_filter(n, move |a: usize, b: &str| call(&q, vec![a.tv(), b.tv()])),
        "usize,bool" => e.add_filter(n, move |a: usize, b: bool| call(&q, vec![a.tv(), b.tv()])),
        "i8,value" => e.add_filter(n, move |a: i8, b: Value| call(&q, vec![a.tv(), b.tv()])),
        "i8,str" => e.add_filter(n, move |a: i8, b: &str| call(&q, vec![a.tv(), b.tv()])),
        "i8,bool" => e.add_filter(n, move |a: i8, b: bool| call(&q, vec![a.tv(), b.tv()])),
        "i16,value" => e.add_filter(n, move |a: i16, b: Value| call(&q, vec![a.tv(), b.tv()])),
        "i16,str" => e.add_filter(n, move |a: i16, b: &str| call(&q, vec![a.tv(), b.tv()])),
        "i16,bool" => e.add_filter(n, move |a: i16, b: bool| call(&q, vec![a.tv(), b.tv()])),
        "i32,value" => e.add_filter(n, move |a: i32, b: Value| call(&q, vec![a.tv(), b.tv()])),
        "i32,str" => e.add_filter(n, move |a: i32, b: &str| call(&q, vec![a.tv(), b.tv()])),
        "i32,bool" => e.add_filter(n, move |a: i32, b: bool| call(&q, vec![a.tv(), b.tv()])),
        "i128,value" => e.add_filter(n, move |a: i128, b: Value| call(&q, vec![a.tv(), b.tv()])),
        "i128,str" => e.add_filter(n, move |a: i128, b: &str| call(&q, vec![a.tv(), b.tv()])),
        "i128,bool" => e.add_filter(n, move |a: i128, b: bool| call(&q, vec![a.tv(), b.tv()])),
        "isize,value" => e.add_filter(n, move |a: isize, b: Value| call(&q, vec![a.tv(), b.tv()])),
        "isize,str" => e.add_filter(n, move |a: isize, b: &str| call(&q, vec![a.tv(), b.tv()])),
        "isize,bool" => e.add_filter(n, move |a: isize, b: bool| call(&q, vec![a.tv(), b.tv()])),
        "value,value,value" => e.add_filter(n, move |a: Value, b: Value, c: Value| call(&q, vec![a.tv(), b.tv(), c.tv()])),
        "value,value,str" => e.add_filter(n, move |a: Value, b: Value, c: &str| call(&q, vec![a.tv(), b.tv(), c.tv()])),
        "value,str,value" => e.add_filter(n, move |a: Value, b: &str, c: Value| call(&q, vec![a.tv(), b.tv(), c.tv()])),
        "value,str,str" => e.add_filter(n, move |a: Value, b: &str, c: &str| call(&q, vec![a.tv(), b.tv(), c.tv()])),
        "str,value,value" => e.add_filter(n, move |a: &str, b: Value, c: Value| call(&q, vec![a.tv(), b.tv(), c.tv()])),
        "str,value,str" => e.add_filter(n, move |a: &str, b: Value, c: &str| call(&q, vec![a.tv(), b.tv(), c.tv()])),
        "str,str,value" => e.add_filter(n, move |a: &str, b: &str, c: Value| call(&q, vec![a.tv(), b.tv(), c.tv()])),
        "str,str,str" => e.add_filter(n, move |a: &str, b: &str, c: &str| call(&q, vec![a.tv(), b.tv(), c.tv()])),
        "listref,value,value" => e.add_filter(n, move |a: &[Value], b: Value, c: Value| call(&q, vec![a.tv(), b.tv(), c.tv()])),
        "listref,value,str" => e.add_filter(n, move |a: &[Value], b: Value, c: &str| call(&q, vec![a.tv(), b.tv(), c.tv()])),
        "listref,str,value" => e.add_filter(n, move |a: &[Value], b: &str, c: Value| call(&q, vec![a.tv(), b.tv(), c.tv()])),
        "listref,str,str" => e.add_filter(n, move |a: &[Value], b: &str, c: &str| call(&q, vec![a.tv(), b.tv(), c.tv()])),
        "mapref,value,value" => e.add_filter(n, move |a: &BTreeMap<String, Value>, b: Value, c: Value| call(&q, vec![a.tv(), b.tv(), c.tv()])),
        "mapref,value,str" => e.add_filter(n, move |a: &BTreeMap<String, Value>, b: Value, c: &str| call(&q, vec![a.tv(), b.tv(), c.tv()])),
        "mapref,str,value" => e.add_filter(n, move |a: &BTreeMap<String, Value>, b: &str, c: Value| call(&q, vec![a.tv(), b.tv(), c.tv()])),
        "mapref,str,str" => e.add_filter(n, move |a: &BTreeMap<String, Value>, b: &str, c: &str| call(&q, vec![a.tv(), b.tv(), c.tv()])),
        "valueref,value,value" => e.add_filter(n, move |a: &Value, b: Value, c: Value| call(&q, vec![a.tv(), b.tv(), c.tv()])),
        "valueref,value,str" => e.add_filter(n, move |a: &Value, b: Value, c: &str| call(&q, vec![a.tv(), b.tv(), c.tv()])),
        "valueref,str,value" => e.add_filter(n, move |a: &Value, b: &str, c: Value| call(&q, vec![a.tv(), b.tv(), c.tv()])),
        "valueref,str,str" => e.add_filter(n, move |a: &Value, b: &str, c: &str| call(&q, vec![a.tv(), b.tv(), c.tv()])),
        "value,value,value,value" => e.add_filter(n, move |a: Value, b: Value, c: Value, d: Value| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv()])),
        "value,value,value,str" => e.add_filter(n, move |a: Value, b: Value, c: Value, d: &str| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv()])),
        "value,value,str,value" => e.add_filter(n, move |a: Value, b: Value, c: &str, d: Value| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv()])),
        "value,value,str,str" => e.add_filter(n, move |a: Value, b: Value, c: &str, d: &str| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv()])),
        "value,str,value,value" => e.add_filter(n, move |a: Value, b: &str, c: Value, d: Value| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv()])),
        "value,str,value,str" => e.add_filter(n, move |a: Value, b: &str, c: Value, d: &str| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv()])),
        "value,str,str,value" => e.add_filter(n, move |a: Value, b: &str, c: &str, d: Value| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv()])),
        "value,str,str,str" => e.add_filter(n, move |a: Value, b: &str, c: &str, d: &str| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv()])),
        "str,value,value,value" => e.add_filter(n, move |a: &str, b: Value, c: Value, d: Value| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv()])),
        "str,value,value,str" => e.add_filter(n, move |a: &str, b: Value, c: Value, d: &str| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv()])),
        "str,value,str,value" => e.add_filter(n, move |a: &str, b: Value, c: &str, d: Value| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv()])),
        "str,value,str,str" => e.add_filter(n, move |a: &str, b: Value, c: &str, d: &str| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv()])),
        "str,str,value,value" => e.add_filter(n, move |a: &str, b: &str, c: Value, d: Value| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv()])),
        "str,str,value,str" => e.add_filter(n, move |a: &str, b: &str, c: Value, d: &str| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv()])),
        "str,str,str,value" => e.add_filter(n, move |a: &str, b: &str, c: &str, d: Value| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv()])),
        "str,str,str,str" => e.add_filter(n, move |a: &str, b: &str, c: &str, d: &str| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv()])),
        "listref,value,value,value" => e.add_filter(n, move |a: &[Value], b: Value, c: Value, d: Value| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv()])),
        "listref,value,value,str" => e.add_filter(n, move |a: &[Value], b: Value, c: Value, d: &str| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv()])),
        "listref,value,str,value" => e.add_filter(n, move |a: &[Value], b: Value, c: &str, d: Value| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv()])),
        "listref,value,str,str" => e.add_filter(n, move |a: &[Value], b: Value, c: &str, d: &str| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv()])),
        "listref,str,value,value" => e.add_filter(n, move |a: &[Value], b: &str, c: Value, d: Value| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv()])),
        "listref,str,value,str" => e.add_filter(n, move |a: &[Value], b: &str, c: Value, d: &str| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv()])),
        "listref,str,str,value" => e.add_filter(n, move |a: &[Value], b: &str, c: &str, d: Value| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv()])),
        "listref,str,str,str" => e.add_filter(n, move |a: &[Value], b: &str, c: &str, d: &str| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv()])),
        "mapref,value,value,value" => e.add_filter(n, move |a: &BTreeMap<String, Value>, b: Value, c: Value, d: Value| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv()])),
        "mapref,value,value,str" => e.add_filter(n, move |a: &BTreeMap<String, Value>, b: Value, c: Value, d: &str| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv()])),
        "mapref,value,str,value" => e.add_filter(n, move |a: &BTreeMap<String, Value>, b: Value, c: &str, d: Value| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv()])),
        "mapref,value,str,str" => e.add_filter(n, move |a: &BTreeMap<String, Value>, b: Value, c: &str, d: &str| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv()])),
        "mapref,str,value,value" => e.add_filter(n, move |a: &BTreeMap<String, Value>, b: &str, c: Value, d: Value| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv()])),
        "mapref,str,value,str" => e.add_filter(n, move |a: &BTreeMap<String, Value>, b: &str, c: Value, d: &str| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv()])),
        "mapref,str,str,value" => e.add_filter(n, move |a: &BTreeMap<String, Value>, b: &str, c: &str, d: Value| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv()])),
        "mapref,str,str,str" => e.add_filter(n, move |a: &BTreeMap<String, Value>, b: &str, c: &str, d: &str| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv()])),
        "valueref,value,value,value" => e.add_filter(n, move |a: &Value, b: Value, c: Value, d: Value| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv()])),
        "valueref,value,value,str" => e.add_filter(n, move |a: &Value, b: Value, c: Value, d: &str| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv()])),
        "valueref,value,str,value" => e.add_filter(n, move |a: &Value, b: Value, c: &str, d: Value| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv()])),
        "valueref,value,str,str" => e.add_filter(n, move |a: &Value, b: Value, c: &str, d: &str| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv()])),
        "valueref,str,value,value" => e.add_filter(n, move |a: &Value, b: &str, c: Value, d: Value| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv()])),
        "valueref,str,value,str" => e.add_filter(n, move |a: &Value, b: &str, c: Value, d: &str| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv()])),
        "valueref,str,str,value" => e.add_filter(n, move |a: &Value, b: &str, c: &str, d: Value| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv()])),
        "valueref,str,str,str" => e.add_filter(n, move |a: &Value, b: &str, c: &str, d: &str| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv()])),
        "value,value,value,value,value" => e.add_filter(n, move |a: Value, b: Value, c: Value, d: Value, e: Value| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv(), e.tv()])),
        "value,value,value,value,str" => e.add_filter(n, move |a: Value, b: Value, c: Value, d: Value, e: &str| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv(), e.tv()])),
        "value,value,value,str,value" => e.add_filter(n, move |a: Value, b: Value, c: Value, d: &str, e: Value| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv(), e.tv()])),
        "value,value,value,str,str" => e.add_filter(n, move |a: Value, b: Value, c: Value, d: &str, e: &str| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv(), e.tv()])),
        "value,value,str,value,value" => e.add_filter(n, move |a: Value, b: Value, c: &str, d: Value, e: Value| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv(), e.tv()])),
        "value,value,str,value,str" => e.add_filter(n, move |a: Value, b: Value, c: &str, d: Value, e: &str| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv(), e.tv()])),
        "value,value,str,str,value" => e.add_filter(n, move |a: Value, b: Value, c: &str, d: &str, e: Value| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv(), e.tv()])),
        "value,value,str,str,str" => e.add_filter(n, move |a: Value, b: Value, c: &str, d: &str, e: &str| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv(), e.tv()])),
        "value,str,value,value,value" => e.add_filter(n, move |a: Value, b: &str, c: Value, d: Value, e: Value| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv(), e.tv()])),
        "value,str,value,value,str" => e.add_filter(n, move |a: Value, b: &str, c: Value, d: Value, e: &str| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv(), e.tv()])),
        "value,str,value,str,value" => e.add_filter(n, move |a: Value, b: &str, c: Value, d: &str, e: Value| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv(), e.tv()])),
        "value,str,value,str,str" => e.add_filter(n, move |a: Value, b: &str, c: Value, d: &str, e: &str| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv(), e.tv()])),
        "value,str,str,value,value" => e.add_filter(n, move |a: Value, b: &str, c: &str, d: Value, e: Value| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv(), e.tv()])),
        "value,str,str,value,str" => e.add_filter(n, move |a: Value, b: &str, c: &str, d: Value, e: &str| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv(), e.tv()])),
        "value,str,str,str,value" => e.add_filter(n, move |a: Value, b: &str, c: &str, d: &str, e: Value| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv(), e.tv()])),
        "value,str,str,str,str" => e.add_filter(n, move |a: Value, b: &str, c: &str, d: &str, e: &str| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv(), e.tv()])),
        "str,value,value,value,value" => e.add_filter(n, move |a: &str, b: Value, c: Value, d: Value, e: Value| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv(), e.tv()])),
        "str,value,value,value,str" => e.add_filter(n, move |a: &str, b: Value, c: Value, d: Value, e: &str| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv(), e.tv()])),
        "str,value,value,str,value" => e.add_filter(n, move |a: &str, b: Value, c: Value, d: &str, e: Value| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv(), e.tv()])),
        "str,value,value,str,str" => e.add_filter(n, move |a: &str, b: Value, c: Value, d: &str, e: &str| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv(), e.tv()])),
        "str,value,str,value,value" => e.add_filter(n, move |a: &str, b: Value, c: &str, d: Value, e: Value| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv(), e.tv()])),
        "str,value,str,value,str" => e.add_filter(n, move |a: &str, b: Value, c: &str, d: Value, e: &str| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv(), e.tv()])),
        "str,value,str,str,value" => e.add_filter(n, move |a: &str, b: Value, c: &str, d: &str, e: Value| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv(), e.tv()])),
        "str,value,str,str,str" => e.add_filter(n, move |a: &str, b: Value, c: &str, d: &str, e: &str| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv(), e.tv()])),
        "str,str,value,value,value" => e.add_filter(n, move |a: &str, b: &str, c: Value, d: Value, e: Value| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv(), e.tv()])),
        "str,str,value,value,str" => e.add_filter(n, move |a: &str, b: &str, c: Value, d: Value, e: &str| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv(), e.tv()])),
        "str,str,value,str,value" => e.add_filter(n, move |a: &str, b: &str, c: Value, d: &str, e: Value| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv(), e.tv()])),
        "str,str,value,str,str" => e.add_filter(n, move |a: &str, b: &str, c: Value, d: &str, e: &str| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv(), e.tv()])),
        "str,str,str,value,value" => e.add_filter(n, move |a: &str, b: &str, c: &str, d: Value, e: Value| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv(), e.tv()])),
        "str,str,str,value,str" => e.add_filter(n, move |a: &str, b: &str, c: &str, d: Value, e: &str| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv(), e.tv()])),
        "str,str,str,str,value" => e.add_filter(n, move |a: &str, b: &str, c: &str, d: &str, e: Value| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv(), e.tv()])),
        "str,str,str,str,str" => e.add_filter(n, move |a: &str, b: &str, c: &str, d: &str, e: &str| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv(), e.tv()])),
        "listref,value,value,value,value" => e.add_filter(n, move |a: &[Value], b: Value, c: Value, d: Value, e: Value| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv(), e.tv()])),
        "listref,value,value,value,str" => e.add_filter(n, move |a: &[Value], b: Value, c: Value, d: Value, e: &str| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv(), e.tv()])),
        "listref,value,value,str,value" => e.add_filter(n, move |a: &[Value], b: Value, c: Value, d: &str, e: Value| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv(), e.tv()])),
        "listref,value,value,str,str" => e.add_filter(n, move |a: &[Value], b: Value, c: Value, d: &str, e: &str| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv(), e.tv()])),
        "listref,value,str,value,value" => e.add_filter(n, move |a: &[Value], b: Value, c: &str, d: Value, e: Value| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv(), e.tv()])),
        "listref,value,str,value,str" => e.add_filter(n, move |a: &[Value], b: Value, c: &str, d: Value, e: &str| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv(), e.tv()])),
        "listref,value,str,str,value" => e.add_filter(n, move |a: &[Value], b: Value, c: &str, d: &str, e: Value| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv(), e.tv()])),
        "listref,value,str,str,str" => e.add_filter(n, move |a: &[Value], b: Value, c: &str, d: &str, e: &str| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv(), e.tv()])),
        "listref,str,value,value,value" => e.add_filter(n, move |a: &[Value], b: &str, c: Value, d: Value, e: Value| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv(), e.tv()])),
        "listref,str,value,value,str" => e.add_filter(n, move |a: &[Value], b: &str, c: Value, d: Value, e: &str| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv(), e.tv()])),
        "listref,str,value,str,value" => e.add_filter(n, move |a: &[Value], b: &str, c: Value, d: &str, e: Value| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv(), e.tv()])),
        "listref,str,value,str,str" => e.add_filter(n, move |a: &[Value], b: &str, c: Value, d: &str, e: &str| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv(), e.tv()])),
        "listref,str,str,value,value" => e.add_filter(n, move |a: &[Value], b: &str, c: &str, d: Value, e: Value| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv(), e.tv()])),
        "listref,str,str,value,str" => e.add_filter(n, move |a: &[Value], b: &str, c: &str, d: Value, e: &str| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv(), e.tv()])),
        "listref,str,str,str,value" => e.add_filter(n, move |a: &[Value], b: &str, c: &str, d: &str, e: Value| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv(), e.tv()])),
        "listref,str,str,str,str" => e.add_filter(n, move |a: &[Value], b: &str, c: &str, d: &str, e: &str| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv(), e.tv()])),
        "mapref,value,value,value,value" => e.add_filter(n, move |a: &BTreeMap<String, Value>, b: Value, c: Value, d: Value, e: Value| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv(), e.tv()])),
        "mapref,value,value,value,str" => e.add_filter(n, move |a: &BTreeMap<String, Value>, b: Value, c: Value, d: Value, e: &str| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv(), e.tv()])),
        "mapref,value,value,str,value" => e.add_filter(n, move |a: &BTreeMap<String, Value>, b: Value, c: Value, d: &str, e: Value| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv(), e.tv()])),
        "mapref,value,value,str,str" => e.add_filter(n, move |a: &BTreeMap<String, Value>, b: Value, c: Value, d: &str, e: &str| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv(), e.tv()])),
        "mapref,value,str,value,value" => e.add_filter(n, move |a: &BTreeMap<String, Value>, b: Value, c: &str, d: Value, e: Value| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv(), e.tv()])),
        "mapref,value,str,value,str" => e.add_filter(n, move |a: &BTreeMap<String, Value>, b: Value, c: &str, d: Value, e: &str| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv(), e.tv()])),
        "mapref,value,str,str,value" => e.add_filter(n, move |a: &BTreeMap<String, Value>, b: Value, c: &str, d: &str, e: Value| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv(), e.tv()])),
        "mapref,value,str,str,str" => e.add_filter(n, move |a: &BTreeMap<String, Value>, b: Value, c: &str, d: &str, e: &str| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv(), e.tv()])),
        "mapref,str,value,value,value" => e.add_filter(n, move |a: &BTreeMap<String, Value>, b: &str, c: Value, d: Value, e: Value| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv(), e.tv()])),
        "mapref,str,value,value,str" => e.add_filter(n, move |a: &BTreeMap<String, Value>, b: &str, c: Value, d: Value, e: &str| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv(), e.tv()])),
        "mapref,str,value,str,value" => e.add_filter(n, move |a: &BTreeMap<String, Value>, b: &str, c: Value, d: &str, e: Value| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv(), e.tv()])),
        "mapref,str,value,str,str" => e.add_filter(n, move |a: &BTreeMap<String, Value>, b: &str, c: Value, d: &str, e: &str| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv(), e.tv()])),
        "mapref,str,str,value,value" => e.add_filter(n, move |a: &BTreeMap<String, Value>, b: &str, c: &str, d: Value, e: Value| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv(), e.tv()])),
        "mapref,str,str,value,str" => e.add_filter(n, move |a: &BTreeMap<String, Value>, b: &str, c: &str, d: Value, e: &str| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv(), e.tv()])),
        "mapref,str,str,str,value" => e.add_filter(n, move |a: &BTreeMap<String, Value>, b: &str, c: &str, d: &str, e: Value| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv(), e.tv()])),
        "mapref,str,str,str,str" => e.add_filter(n, move |a: &BTreeMap<String, Value>, b: &str, c: &str, d: &str, e: &str| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv(), e.tv()])),
        "valueref,value,value,value,value" => e.add_filter(n, move |a: &Value, b: Value, c: Value, d: Value, e: Value| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv(), e.tv()])),
        "valueref,value,value,value,str" => e.add_filter(n, move |a: &Value, b: Value, c: Value, d: Value, e: &str| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv(), e.tv()])),
        "valueref,value,value,str,value" => e.add_filter(n, move |a: &Value, b: Value, c: Value, d: &str, e: Value| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv(), e.tv()])),
        "valueref,value,value,str,str" => e.add_filter(n, move |a: &Value, b: Value, c: Value, d: &str, e: &str| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv(), e.tv()])),
        "valueref,value,str,value,value" => e.add_filter(n, move |a: &Value, b: Value, c: &str, d: Value, e: Value| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv(), e.tv()])),
        "valueref,value,str,value,str" => e.add_filter(n, move |a: &Value, b: Value, c: &str, d: Value, e: &str| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv(), e.tv()])),
        "valueref,value,str,str,value" => e.add_filter(n, move |a: &Value, b: Value, c: &str, d: &str, e: Value| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv(), e.tv()])),
        "valueref,value,str,str,str" => e.add_filter(n, move |a: &Value, b: Value, c: &str, d: &str, e: &str| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv(), e.tv()])),
        "valueref,str,value,value,value" => e.add_filter(n, move |a: &Value, b: &str, c: Value, d: Value, e: Value| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv(), e.tv()])),
        "valueref,str,value,value,str" => e.add_filter(n, move |a: &Value, b: &str, c: Value, d: Value, e: &str| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv(), e.tv()])),
        "valueref,str,value,str,value" => e.add_filter(n, move |a: &Value, b: &str, c: Value, d: &str, e: Value| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv(), e.tv()])),
        "valueref,str,value,str,str" => e.add_filter(n, move |a: &Value, b: &str, c: Value, d: &str, e: &str| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv(), e.tv()])),
        "valueref,str,str,value,value" => e.add_filter(n, move |a: &Value, b: &str, c: &str, d: Value, e: Value| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv(), e.tv()])),
        "valueref,str,str,value,str" => e.add_filter(n, move |a: &Value, b: &str, c: &str, d: Value, e: &str| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv(), e.tv()])),
        "valueref,str,str,str,value" => e.add_filter(n, move |a: &Value, b: &str, c: &str, d: &str, e: Value| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv(), e.tv()])),
        "valueref,str,str,str,str" => e.add_filter(n, move |a: &Value, b: &str, c: &str, d: &str, e: &str| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv(), e.tv()])),
        "i64,u8,bool" => e.add_filter(n, move |a: i64, b: u8, c: bool| call(&q, vec![a.tv(), b.tv(), c.tv()])),
        "string,i32,f64,list" => e.add_filter(n, move |a: String, b: i32, c: f64, d: Vec<Value>| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv()])),
        "list,map,unit" => e.add_filter(n, move |a: Vec<Value>, b: BTreeMap<String, Value>, c: ()| call(&q, vec![a.tv(), b.tv(), c.tv()])),
        "f64,i8,u16,string,value" => e.add_filter(n, move |a: f64, b: i8, c: u16, d: String, e: Value| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv(), e.tv()])),
        "map,string,i64" => e.add_filter(n, move |a: BTreeMap<String, Value>, b: String, c: i64| call(&q, vec![a.tv(), b.tv(), c.tv()])),
        "bool,bool,bool,bool" => e.add_filter(n, move |a: bool, b: bool, c: bool, d: bool| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv()])),
        "u64,i64,i16" => e.add_filter(n, move |a: u64, b: i64, c: i16| call(&q, vec![a.tv(), b.tv(), c.tv()])),
        "value,f32,f64" => e.add_filter(n, move |a: Value, b: f32, c: f64| call(&q, vec![a.tv(), b.tv(), c.tv()])),
        "valueref,i64,u8" => e.add_filter(n, move |a: &Value, b: i64, c: u8| call(&q, vec![a.tv(), b.tv(), c.tv()])),
        "str,u32,bool,i64,f64" => e.add_filter(n, move |a: &str, b: u32, c: bool, d: i64, e: f64| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv(), e.tv()])),
        "listref,usize" => e.add_filter(n, move |a: &[Value], b: usize| call(&q, vec![a.tv(), b.tv()])),
        "mapref,string" => e.add_filter(n, move |a: &BTreeMap<String, Value>, b: String| call(&q, vec![a.tv(), b.tv()])),
        "value,i64,i64" => e.add_filter(n, move |a: Value, b: i64, c: i64| call(&q, vec![a.tv(), b.tv(), c.tv()])),
        "value,i64,i64,i64" => e.add_filter(n, move |a: Value, b: i64, c: i64, d: i64| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv()])),
        "value,i64,i64,i64,i64" => e.add_filter(n, move |a: Value, b: i64, c: i64, d: i64, e: i64| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv(), e.tv()])),
        "string,string,string" => e.add_filter(n, move |a: String, b: String, c: String| call(&q, vec![a.tv(), b.tv(), c.tv()])),
        "unit,value,value" => e.add_filter(n, move |a: (), b: Value, c: Value| call(&q, vec![a.tv(), b.tv(), c.tv()])),
        "value,list,map" => e.add_filter(n, move |a: Value, b: Vec<Value>, c: BTreeMap<String, Value>| call(&q, vec![a.tv(), b.tv(), c.tv()])),
        "usize,isize,i128,u128" => e.add_filter(n, move |a: usize, b: isize, c: i128, d: u128| call(&q, vec![a.tv(), b.tv(), c.tv(), d.tv()])),
        _ => panic!("no such signature {sig}"),
    }
}
