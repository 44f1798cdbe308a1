------------------------------ MODULE Library ------------------------------
(***************************************************************************)
(* The library of filters and formatters that renders may call.  A         *)
(* function is                                                             *)
(*   [n, k |-> "flt", ps, bd, tag, msg, v]   a filter: parameter types ps  *)
(*        (the first is the receiver), body bd                             *)
(*   [n, k |-> "fmt", bd, tag, msg]          a formatter                   *)
(***************************************************************************)
EXTENDS Values

(***************************************************************************)
(* Parameter types.                                                        *)
(***************************************************************************)
RefTypes == {"str", "listref", "mapref", "valueref"}

P2_8 == <<2,5,5>>
P2_16 == <<6,5,5,3,5>>
P2_32 == <<4,2,9,4,9,6,7,2,9,5>>
M7 == <<1,2,7>>               N7 == <<1,2,8>>
M15 == <<3,2,7,6,7>>          N15 == <<3,2,7,6,8>>
M31 == <<2,1,4,7,4,8,3,6,4,7>> N31 == <<2,1,4,7,4,8,3,6,4,8>>

(* <<largest magnitude of a negative number, largest positive number>> *)
IntRange(ty) ==
  CASE ty = "u8"  -> << <<>>, P2_8 >>
    [] ty = "u16" -> << <<>>, P2_16 >>
    [] ty = "u32" -> << <<>>, P2_32 >>
    [] ty \in {"u64", "usize", "u128"} -> << <<>>, I64Max >>
    [] ty = "i8"  -> << N7, M7 >>
    [] ty = "i16" -> << N15, M15 >>
    [] ty = "i32" -> << N31, M31 >>
    [] ty \in {"i64", "isize", "i128"} -> << I64Min, I64Max >>
IntTypes == {"u8", "u16", "u32", "u64", "usize", "u128", "i8", "i16", "i32", "i64", "isize", "i128"}

IntFits(ty, dec) ==
  LET neg == dec[1] = 45
      mag == TextDec(IF neg THEN Tail(dec) ELSE dec)
      r == IntRange(ty)
  IN DecLeq(mag, IF neg THEN r[1] ELSE r[2])

TypeOk(ty, v) ==
  CASE ty = "unit" -> v.t = "none"
    [] ty = "bool" -> v.t = "bool"
    [] ty \in IntTypes -> v.t = "int" /\ IntFits(ty, v.dec)
    [] ty \in {"f64", "f32"} -> v.t = "flt"
    [] ty \in {"string", "str"} -> v.t = "str"
    [] ty \in {"list", "listref"} -> v.t = "list"
    [] ty \in {"map", "mapref"} -> v.t = "map"
    [] ty \in {"value", "valueref"} -> TRUE

(* recv: the value is the filter's receiver, which is stored while the
   filter runs and can always be borrowed. *)
ParamOk(ty, v, own, recv) == TypeOk(ty, v) /\ (ty \in RefTypes /\ ~recv => ~own)

(* What the filter sees: single precision floats are taken from the table
   f32 of [raw, text] where single precision is lossy. *)
ParamValue(ty, v, f32) ==
  IF ty = "f32" THEN LET T == {k \in 1..Len(f32) : f32[k].raw = v.fdec} IN
                     IF T = {} THEN v ELSE FltV(f32[CHOOSE k \in T : TRUE].text)
  ELSE v

(***************************************************************************)
(* Bodies.  [ok |-> TRUE, v] or [ok |-> FALSE, msg].                       *)
(***************************************************************************)
FilterBody(fn, args) ==
  CASE fn.bd = "term"  -> [ok |-> TRUE, v |-> ListV(<<StrV(fn.tag)>> \o args)]
    [] fn.bd = "id"    -> [ok |-> TRUE, v |-> args[1]]
    [] fn.bd = "const" -> [ok |-> TRUE, v |-> fn.v]
    [] fn.bd = "fail"  -> [ok |-> FALSE, msg |-> fn.msg]
    [] fn.bd = "failf" -> IF Truthy(args[1]) THEN [ok |-> TRUE, v |-> ListV(<<StrV(fn.tag)>> \o args)]
                          ELSE [ok |-> FALSE, msg |-> fn.msg]

(* What formatter fn does with v: writes w, then succeeds or fails, with or
   without a message. *)
FOk(w) == [ok |-> TRUE, w |-> w]
FErr(w, msg) == [ok |-> FALSE, w |-> w, hasmsg |-> TRUE, msg |-> msg]
DefaultFormat(v) == IF IsScalar(v) THEN FOk(ScalarText(v)) ELSE [ok |-> FALSE, w |-> <<>>, hasmsg |-> TRUE, msg |-> <<>>]
FormatBody(fn, v) ==
  CASE fn.bd = "default" -> DefaultFormat(v)
    [] fn.bd = "dbg"     -> FOk(DbgText(v))
    [] fn.bd = "wrap"    -> FOk(<<60>> \o fn.tag \o <<58>> \o DbgText(v) \o <<62>>)
    [] fn.bd = "esc"     -> IF v.t = "str" THEN FOk(EscText(v.s)) ELSE DefaultFormat(v)
    [] fn.bd = "fail"    -> FErr(fn.tag, fn.msg)
    [] fn.bd = "fmterr"  -> [ok |-> FALSE, w |-> fn.tag, hasmsg |-> FALSE, msg |-> <<>>]
    [] fn.bd = "failf"   -> IF Truthy(v) THEN FOk(<<60>> \o fn.tag \o <<58>> \o DbgText(v) \o <<62>>) ELSE FErr(fn.tag, fn.msg)

(* The live entry of a name: the last one added. *)
FnIndex(fns, n) == LET H == {k \in 1..Len(fns) : fns[k].n = n} IN
                   IF H = {} THEN 0 ELSE CHOOSE k \in H : \A h \in H : h <= k
=============================================================================
