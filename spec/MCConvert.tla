------------------------------ MODULE MCConvert ------------------------------
(***************************************************************************)
(* Pairs of Rust data, built by up to MaxLen conversions of what has       *)
(* already been converted, and the values they yield.  Checked on every    *)
(* pair:                                                                   *)
(*                                                                         *)
(*   Equality    is symmetric, is reflexive but for values that contain    *)
(*               not-a-number, and is sameness of a canonical form (so     *)
(*               that it is transitive too)                                *)
(*   Built       every value is well-formed and converted to itself; equal *)
(*               scalars are shown alike, but for the sign of zero, and    *)
(*               are alike as conditions                                   *)
(*   Congruent   data that are equal are equal after the same conversion,  *)
(*               however it was called for; data that are not are not,     *)
(*               unless what tells them apart is replaced                  *)
(*                                                                         *)
(* Pairs are printed and replayed into the implementation.                 *)
(***************************************************************************)
EXTENDS Convert, Json, IOUtils, TLC

MaxLen == atoi(IOEnv.MAXLEN)
M == JsonDeserialize(IOEnv.MODEL)
Leaves == M.leaves
Other == M.other      \* a second element
KA == S("a")  KB == S("b")

VARIABLES a, b, n, how
vars == <<a, b, n, how>>

P(k, v) == [k |-> k, v |-> v]
(* The conversions of a datum x; those with the same first component yield the
   same value. *)
Ways == << <<1, "some">>, <<2, "vec">>, <<2, "array">>, <<2, "iter">>, <<3, "vec2">>, <<3, "iter2">>, <<4, "vec2r">>, <<5, "btree">>, <<5, "hash">>, <<5, "pairs">>, <<5, "iterpairs">>,
           <<6, "btree2">>, <<6, "pairs2">>, <<6, "pairsover">>, <<6, "hashover">>, <<8, "pairslost">>, <<9, "macro_list">>, <<10, "macro_map">> >>
Conv(w, x) ==
  CASE w \in {"some", "vec", "array", "iter", "macro_list", "macro_map"} -> [how |-> w, l |-> <<x>>]
    [] w \in {"vec2", "iter2"} -> [how |-> IF w = "vec2" THEN "vec" ELSE "iter", l |-> <<x, Other>>]
    [] w = "vec2r" -> [how |-> "vec", l |-> <<Other, x>>]
    [] w \in {"btree", "hash", "pairs", "iterpairs"} -> [how |-> w, l |-> <<P(KA, x)>>]
    [] w \in {"btree2", "pairs2"} -> [how |-> IF w = "btree2" THEN "btree" ELSE "pairs", l |-> IF w = "btree2" THEN <<P(KA, x), P(KB, Other)>> ELSE <<P(KB, Other), P(KA, x)>>]
    [] w \in {"pairsover", "hashover"} -> [how |-> IF w = "pairsover" THEN "pairs" ELSE "hash", l |-> <<P(KA, Other), P(KB, Other), P(KA, x)>>]
    [] w = "pairslost" -> [how |-> "iterpairs", l |-> <<P(KA, x), P(KA, Other)>>]

Init == /\ \E p, q \in 1..Len(Leaves) : p <= q /\ a = Leaves[p] /\ b = Leaves[q] /\ PrintT(ToJson([a |-> Leaves[p], b |-> Leaves[q]]))
        /\ n = 0 /\ how = <<0, 0>>

Grow(p, q) ==
  /\ n < MaxLen
  /\ a' = IF p = 0 THEN a ELSE Conv(Ways[p][2], a)
  /\ b' = IF q = 0 THEN b ELSE Conv(Ways[q][2], b)
  /\ how' = <<p, q>>
  /\ n' = n + 1
  /\ PrintT(ToJson([a |-> a', b |-> b']))

Used == {0} \union {p \in 1..Len(Ways) : \E k \in 1..Len(M.ways) : M.ways[k] = Ways[p][2]}
Next == \E p, q \in Used : p + q > 0 /\ Grow(p, q)
Spec == Init /\ [][Next]_vars

VA == Converted(a, <<>>)
VB == Converted(b, <<>>)

RECURSIVE HasNaN(_)
HasNaN(v) == CASE v.t = "flt" -> v.fdec = NaNT
               [] v.t = "list" -> \E q \in 1..Len(v.l) : HasNaN(v.l[q])
               [] v.t = "map" -> \E q \in 1..Len(v.m) : HasNaN(v.m[q].v)
               [] OTHER -> FALSE
RECURSIVE Canon(_)
Canon(v) == CASE v.t = "flt" -> IF v.fdec = <<45, 48>> THEN FltV(<<48>>) ELSE v
              [] v.t = "list" -> ListV([q \in 1..Len(v.l) |-> Canon(v.l[q])])
              [] v.t = "map" -> MapV([q \in 1..Len(v.m) |-> [k |-> v.m[q].k, v |-> Canon(v.m[q].v)]])
              [] OTHER -> v

Equality ==
  /\ Equal(VA, VB) = Equal(VB, VA)
  /\ Equal(VA, VA) = ~HasNaN(VA)
  /\ Equal(VA, VB) = (~HasNaN(VA) /\ ~HasNaN(VB) /\ Canon(VA) = Canon(VB))

Built ==
  /\ WellFormed(VA) /\ WellFormed(VB)
  /\ ToValue(Present(VA), <<>>) = Yes(VA)
  /\ Equal(VA, VB) => /\ Truthy(VA) = Truthy(VB)
                      /\ IsScalar(VA) => ScalarText(Canon(VA)) = ScalarText(Canon(VB))

Lost(p) == p # 0 /\ Ways[p][2] = "pairslost"
Congruent == [][LET p == how'[1]  q == how'[2] IN
                p > 0 /\ q > 0 /\ Ways[p][1] = Ways[q][1] =>
                  Equal(VA, VB)' = IF Lost(p) THEN TRUE ELSE Equal(VA, VB)]_vars
=============================================================================
