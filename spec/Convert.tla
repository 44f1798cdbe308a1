------------------------------- MODULE Convert -------------------------------
(***************************************************************************)
(* Rust data and the value its conversion yields.  A datum x names the     *)
(* conversion in field how; in lists and maps items are themselves values  *)
(* made by conversions.                                                    *)
(***************************************************************************)
EXTENDS Serialize

NumberKinds == {"u8", "u16", "u32", "i8", "i16", "i32", "i64"}
StringKinds == {"string", "str", "cowb", "cowo"}
ListKinds == {"vec", "array", "iter"}
PairKinds == {"btree", "hash", "pairs", "iterpairs"}

K0 == S("k0")  K1 == S("k1")  XT == S("x")
E(k, v) == [k |-> S(k), v |-> v]

RECURSIVE Converted(_, _)
Converted(x, f32) ==
  LET L == [q \in 1..Len(x.l) |-> Converted(x.l[q], f32)] IN
  CASE x.how \in {"unit", "nonev"} -> None
    [] x.how = "bool" -> Bool(x.b)
    [] x.how \in NumberKinds \union {"someu8"} -> IntV(x.dec)
    [] x.how = "f64" -> FltV(x.dec)
    [] x.how = "f32" -> F32Value(x.dec, f32)
    [] x.how \in StringKinds -> StrV(x.s)
    [] x.how = "some" -> L[1]
    [] x.how \in ListKinds -> ListV(L)
    [] x.how = "veci" -> ListV([q \in 1..Len(x.l) |-> IntV(x.l[q].dec)])
    [] x.how = "vecs" -> ListV([q \in 1..Len(x.l) |-> StrV(x.l[q].s)])
    [] x.how \in PairKinds -> MapFrom([q \in 1..Len(x.l) |-> [k |-> x.l[q].k, v |-> Converted(x.l[q].v, f32)]])
    [] x.how = "macro_list" -> MapFrom(<<[k |-> XT, v |-> ListV(L)]>>)
    [] x.how = "macro_map" ->
         IF L = <<>> THEN MapFrom(<<[k |-> XT, v |-> MapV(<<>>)]>>)
         ELSE MapFrom([q \in 1..Len(L) |-> [k |-> IF q = 2 THEN K1 ELSE K0, v |-> L[q]]])
    [] x.how = "macro_mixed" ->
         LET a == L[1]  b == L[2] IN
         MapFrom(<< E("b", b), E("a", a),
                    E("list", ListV(<<b, None, Bool(TRUE), IntN(1), IntN(0 - 2), StrV(S("s")), ListV(<<>>), MapV(<<>>),
                                      ListV(<<a, ListV(<<b>>)>>), MapFrom(<<E("a", a)>>)>>)),
                    E("m", MapFrom(<< E("b", None), E("c", MapFrom(<<E("d", Bool(FALSE)), E("a", a)>>)), E("e", ListV(<<None>>)) >>)),
                    E("n", None) >>)
    [] x.how = "macro_more" ->
         LET a == L[1]  b == L[2]
             LL(z) == ListV(z) IN
         MapFrom(<< E("l", LL(<<None, b>>)), E("p", LL(<<a, None>>)), E("q", LL(<<None, None>>)),
                    E("e", LL(<<LL(<<>>), LL(<<LL(<<>>)>>), MapV(<<>>), LL(<<None>>)>>)),
                    E("t", Bool(TRUE)), E("f", Bool(FALSE)), E("kind", IntN(3)), E("k", a),
                    E("g", LL(<<MapFrom(<<E("a", b), E("b", Bool(TRUE))>>), MapV(<<>>)>>)), E("s", StrV(S(""))), E("h", None),
                    E("w", LL(<<Bool(TRUE), Bool(FALSE)>>)), E("u", LL(<<LL(<<a>>), LL(<<b, a>>)>>)),
                    E("d", MapFrom(<<E("d", MapFrom(<<E("d", MapV(<<>>))>>))>>)), E("z", None),
                    E("i", LL(<<MapFrom(<<E("x", LL(<<a>>))>>), MapFrom(<<E("x", LL(<<>>))>>), a>>)),
                    E("o", MapFrom(<<E("k", None)>>)) >>)

(* Equality of values is equality of kind and content; floats compare as
   numbers. *)
RECURSIVE Equal(_, _)
NaNT == S("NaN")
ZeroTexts == {<<48>>, <<45, 48>>}
Equal(v, w) ==
  IF v.t # w.t THEN FALSE
  ELSE CASE v.t = "flt" -> v.fdec # NaNT /\ (v.fdec = w.fdec \/ {v.fdec, w.fdec} \subseteq ZeroTexts)
         [] v.t = "list" -> Len(v.l) = Len(w.l) /\ \A q \in 1..Len(v.l) : Equal(v.l[q], w.l[q])
         [] v.t = "map"  -> Len(v.m) = Len(w.m) /\ \A q \in 1..Len(v.m) : v.m[q].k = w.m[q].k /\ Equal(v.m[q].v, w.m[q].v)
         [] OTHER -> v = w

(* What "{% if x %}t{% else %}f{% endif %}{{ x }}" shows. *)
Shown(v) == <<IF Truthy(v) THEN 116 ELSE 102>> \o ScalarText(v)
=============================================================================
