------------------------------ MODULE Serialize ------------------------------
(***************************************************************************)
(* Serializable data, in the terms of serde's data model, and the value it *)
(* is converted to.                                                        *)
(*                                                                         *)
(* A datum d carries its kind in field d:                                  *)
(*   bool(b), i8..i128/u8..u128(dec), f32/f64(dec), char/str(s), bytes(s)  *)
(*   none, some(l), unit, unit_struct, unit_variant(n)                     *)
(*   newtype_struct(l), newtype_variant(n, l)                              *)
(*   seq/tuple/tuple_struct(l), tuple_variant(n, l)                        *)
(*   map(l of [k, v]), struct(l of [n, v]), struct_variant(n, l); a field  *)
(*     of one of the last two may be skipped                               *)
(*   readable(s)  presents s to human readable formats, else its bytes     *)
(*   display(s)   presents the text s as something that can be displayed   *)
(*   value(v)     a value of the implementation's own                      *)
(*   fail(s)      refuses to be serialized, for reason s                   *)
(*                                                                         *)
(* ToValue gives [ok |-> TRUE, v] or [ok |-> FALSE, own, msg]: msg is the  *)
(* datum's own reason, if own.                                             *)
(***************************************************************************)
EXTENDS Values

Yes(v) == [ok |-> TRUE, v |-> v]
No == [ok |-> FALSE, own |-> FALSE, msg |-> <<>>]
Refused(s) == [ok |-> FALSE, own |-> TRUE, msg |-> s]

SmallInts == {"i8", "i16", "i32", "i64", "u8", "u16", "u32"}
Transparent == {"some", "newtype_struct"}
Sequences == {"seq", "tuple", "tuple_struct"}

(* The value of a float in single precision is found in table f32. *)
F32Value(dec, f32) ==
  LET T == {k \in 1..Len(f32) : f32[k].raw = dec} IN
  FltV(IF T = {} THEN dec ELSE f32[CHOOSE k \in T : TRUE].text)

Fits64(dec) ==
  LET neg == dec[1] = 45
      mag == TextDec(IF neg THEN Tail(dec) ELSE dec)
  IN DecLeq(mag, IF neg THEN I64Min ELSE I64Max)

(* Externally tagged: a map from the variant's name to its content. *)
Tagged(n, r) == IF r.ok THEN Yes(MapV(<<[k |-> n, v |-> r.v]>>)) ELSE r

(* Map keys. *)
RECURSIVE KeyOf(_)
KeyOf(d) ==
  CASE d.d \in {"str", "char", "readable", "display"} -> Yes(d.s)
    [] d.d = "value" -> IF d.v.t = "str" THEN Yes(d.v.s) ELSE IF d.v.t = "int" THEN Yes(d.v.dec) ELSE No
    [] d.d = "fail" -> Refused(d.s)
    [] d.d \in SmallInts \union {"u64"} -> Yes(d.dec)
    [] d.d = "unit_variant" -> Yes(d.n)
    [] d.d = "newtype_struct" -> KeyOf(d.l[1])
    [] OTHER -> No

Skipped(e) == IF "skip" \in DOMAIN e THEN e.skip ELSE FALSE

RECURSIVE ToValue(_, _)
RECURSIVE _All(_, _)
RECURSIVE _Entries(_, _)
RECURSIVE _Fields(_, _)

(* The first that is not ok, or everything. *)
FirstBad(rs) == LET B == {q \in 1..Len(rs) : ~rs[q].ok} IN IF B = {} THEN 0 ELSE CHOOSE q \in B : \A b \in B : q <= b

_All(l, f32) ==
  LET rs == TLCEval([q \in 1..Len(l) |-> ToValue(l[q], f32)])
      b == FirstBad(rs)
  IN IF b # 0 THEN rs[b] ELSE Yes(ListV([q \in 1..Len(l) |-> rs[q].v]))

_Entries(l, f32) ==
  LET rs == TLCEval([q \in 1..Len(l) |-> LET k == KeyOf(l[q].k) IN IF ~k.ok THEN k ELSE ToValue(l[q].v, f32)])
      b == FirstBad(rs)
  IN IF b # 0 THEN rs[b] ELSE Yes(MapFrom([q \in 1..Len(l) |-> [k |-> KeyOf(l[q].k).v, v |-> rs[q].v]]))

_Fields(all, f32) ==
  LET l == SelectSeq(all, LAMBDA e : ~Skipped(e))
      rs == TLCEval([q \in 1..Len(l) |-> ToValue(l[q].v, f32)])
      b == FirstBad(rs)
  IN IF b # 0 THEN rs[b] ELSE Yes(MapFrom([q \in 1..Len(l) |-> [k |-> l[q].n, v |-> rs[q].v]]))

ToValue(d, f32) ==
  CASE d.d = "bool" -> Yes(Bool(d.b))
    [] d.d \in SmallInts -> Yes(IntV(d.dec))
    [] d.d \in {"u64", "i128", "u128"} -> IF d.d = "u64" /\ Fits64(d.dec) THEN Yes(IntV(d.dec)) ELSE No
    [] d.d = "f64" -> Yes(FltV(d.dec))
    [] d.d = "f32" -> Yes(F32Value(d.dec, f32))
    [] d.d \in {"char", "str", "readable", "display"} -> Yes(StrV(d.s))
    [] d.d = "value" -> Yes(d.v)
    [] d.d = "fail" -> Refused(d.s)
    [] d.d = "bytes" -> Yes(ListV([q \in 1..Len(d.s) |-> IntN(d.s[q])]))
    [] d.d \in {"none", "unit", "unit_struct"} -> Yes(None)
    [] d.d \in Transparent -> ToValue(d.l[1], f32)
    [] d.d = "unit_variant" -> Yes(StrV(d.n))
    [] d.d = "newtype_variant" -> Tagged(d.n, ToValue(d.l[1], f32))
    [] d.d \in Sequences -> _All(d.l, f32)
    [] d.d = "tuple_variant" -> Tagged(d.n, _All(d.l, f32))
    [] d.d = "map" -> _Entries(d.l, f32)
    [] d.d = "struct" -> _Fields(d.l, f32)
    [] d.d = "struct_variant" -> Tagged(d.n, _Fields(d.l, f32))

(* The datum that presents a value itself. *)
RECURSIVE Present(_)
Present(v) ==
  CASE v.t = "none" -> [d |-> "none"]
    [] v.t = "bool" -> [d |-> "bool", b |-> v.b]
    [] v.t = "int"  -> [d |-> "i64", dec |-> v.dec]
    [] v.t = "flt"  -> [d |-> "f64", dec |-> v.fdec]
    [] v.t = "str"  -> [d |-> "str", s |-> v.s]
    [] v.t = "list" -> [d |-> "seq", l |-> [q \in 1..Len(v.l) |-> Present(v.l[q])]]
    [] v.t = "map"  -> [d |-> "map", l |-> [q \in 1..Len(v.m) |-> [k |-> [d |-> "str", s |-> v.m[q].k], v |-> Present(v.m[q].v)]]]
=============================================================================
