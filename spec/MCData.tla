-------------------------------- MODULE MCData --------------------------------
(***************************************************************************)
(* The conversion of serializable data as the machine that serde drives:   *)
(* containers are opened, are given their items, keys, fields and values   *)
(* one after the other, and are closed; what is under construction is on a *)
(* stack; a map is updated entry by entry; the first thing that cannot be  *)
(* converted ends it all.  Every datum of up to MaxLen leaves and          *)
(* containers is built.  Checked on each of them, complete or not:         *)
(*                                                                         *)
(*   Faithful    the machine's result is what Serialize.tla says of the    *)
(*               datum as a whole, and what is under construction is what  *)
(*               it says of the parts so far                               *)
(*   OnlyFor     the conversion fails exactly if some part that is         *)
(*               converted is an integer that does not fit, a key that is  *)
(*               no key, or refuses; said without reference to either      *)
(*   Canonical   the value is well-formed and converted to itself          *)
(*   FailFast    the first failure is final                                *)
(*                                                                         *)
(* Complete data are printed and replayed into the implementation.         *)
(***************************************************************************)
EXTENDS Serialize, Json, IOUtils, TLC

MaxLen == atoi(IOEnv.MAXLEN)
M == JsonDeserialize(IOEnv.MODEL)
Leaves == M.leaves        \* what has no parts
Keys == M.keys            \* what is tried as a map's key
Names == M.names          \* of fields
Kinds == M.kinds          \* containers
V == S("V")

VARIABLES stack,   \* of [k, ds: the parts so far, acc: what they are converted to, key: <<>> or <<the next part's>>]
          left,    \* leaves and containers that may still be used
          bad,     \* <<>> or <<the first failure>>
          out      \* <<>> or <<[d: the datum, v: its value]>>
vars == <<stack, left, bad, out>>

Wraps == {"some", "newtype_struct", "newtype_variant"}
Lists == {"seq", "tuple", "tuple_struct", "tuple_variant"}
Maps  == {"map", "struct", "struct_variant"}

(* A map is updated by one entry. *)
Put(m, k, v) ==
  LET i == MapIndex(m, k)
      n == Cardinality({q \in 1..Len(m) : TextLess(m[q].k, k)})
  IN IF i > 0 THEN [m EXCEPT ![i].v = v]
     ELSE SubSeq(m, 1, n) \o <<[k |-> k, v |-> v]>> \o SubSeq(m, n + 1, Len(m))

(* The datum a frame stands for, with the parts so far. *)
Built(f) == IF f.k \in {"newtype_variant", "tuple_variant", "struct_variant"} THEN [d |-> f.k, l |-> f.ds, n |-> V] ELSE [d |-> f.k, l |-> f.ds]
Outcome(f) ==
  LET c == IF f.k \in Lists THEN ListV(f.acc) ELSE IF f.k \in Maps THEN MapV(f.acc) ELSE f.acc IN
  IF f.k \in {"newtype_variant", "tuple_variant", "struct_variant"} THEN MapV(<<[k |-> V, v |-> c]>>) ELSE c

(* A part d with value v (of no interest after a failure) is given to the
   container on top, or is the whole. *)
RECURSIVE Deliver(_, _, _, _)
Deliver(st, d, v, failed) ==
  IF st = <<>> THEN [stack |-> <<>>, out |-> <<[d |-> d, v |-> v]>>]
  ELSE LET f == st[Len(st)]
           rest == SubSeq(st, 1, Len(st) - 1)
           g == [f EXCEPT !.ds = Append(@, IF f.k = "map" THEN [k |-> f.key[1], v |-> d] ELSE IF f.k \in Maps THEN [n |-> f.key[1], v |-> d] ELSE d),
                          !.acc = IF failed THEN @ ELSE IF f.k \in Lists THEN Append(@, v)
                                  ELSE IF f.k = "map" THEN Put(@, KeyOf(f.key[1]).v, v) ELSE IF f.k \in Maps THEN Put(@, f.key[1], v) ELSE v,
                          !.key = <<>>]
       IN IF f.k \in Wraps THEN Deliver(rest, Built(g), IF failed THEN v ELSE Outcome(g), failed)
          ELSE [stack |-> Append(rest, g), out |-> <<>>]

Top == stack[Len(stack)]
Waiting == IF stack = <<>> THEN TRUE ELSE Top.k \notin Maps \/ Top.key # <<>>      \* for a part

Init == stack = <<>> /\ left = MaxLen /\ bad = <<>> /\ out = <<>>

Leaf ==
  /\ left > 0 /\ out = <<>> /\ Waiting
  /\ \E q \in 1..Len(Leaves) :
     \E r \in {ToValue(Leaves[q], <<>>)} :
       /\ bad' = IF bad = <<>> /\ ~r.ok THEN <<r>> ELSE bad
       /\ \E x \in {Deliver(stack, Leaves[q], IF r.ok THEN r.v ELSE None, bad' # <<>>)} : stack' = x.stack /\ out' = x.out
  /\ left' = left - 1

Open ==
  /\ left > 0 /\ out = <<>> /\ Waiting
  /\ \E q \in 1..Len(Kinds) : /\ Kinds[q] \in Wraps => left > 1
                              /\ stack' = Append(stack, [k |-> Kinds[q], ds |-> <<>>, acc |-> IF Kinds[q] \in Wraps THEN None ELSE <<>>, key |-> <<>>])
  /\ left' = left - 1 /\ UNCHANGED <<bad, out>>

Key ==
  /\ left > 0 /\ stack # <<>> /\ ~Waiting
  /\ IF Top.k = "map"
     THEN \E q \in 1..Len(Keys) :
          /\ stack' = [stack EXCEPT ![Len(stack)].key = <<Keys[q]>>]
          /\ bad' = IF bad = <<>> /\ ~KeyOf(Keys[q]).ok THEN <<KeyOf(Keys[q])>> ELSE bad
     ELSE \E q \in 1..Len(Names) : stack' = [stack EXCEPT ![Len(stack)].key = <<Names[q]>>] /\ bad' = bad
  /\ UNCHANGED <<left, out>>

(* A field that is skipped is not converted. *)
Skip ==
  /\ left > 0 /\ stack # <<>> /\ ~Waiting /\ Top.k # "map"
  /\ \E q \in 1..Len(Names) : stack' = [stack EXCEPT ![Len(stack)].ds = Append(@, [n |-> Names[q], v |-> [d |-> "fail", s |-> S("skipped")], skip |-> TRUE])]
  /\ left' = left - 1 /\ UNCHANGED <<bad, out>>

Close ==
  /\ stack # <<>> /\ Top.key = <<>> /\ Top.k \notin Wraps
  /\ \E x \in {Deliver(SubSeq(stack, 1, Len(stack) - 1), Built(Top), Outcome(Top), bad # <<>>)} : stack' = x.stack /\ out' = x.out
  /\ UNCHANGED <<left, bad>>

Next == \/ (Leaf \/ Open \/ Key \/ Skip \/ Close) /\ (out' # <<>> => PrintT(ToJson([d |-> out'[1].d, ok |-> bad' = <<>>])))
Spec == Init /\ [][Next]_vars

Done == out # <<>>

Faithful ==
  /\ Done => ToValue(out[1].d, <<>>) = IF bad = <<>> THEN Yes(out[1].v) ELSE bad[1]
  /\ bad = <<>> => \A q \in 1..Len(stack) : stack[q].k \notin Wraps => ToValue(Built(stack[q]), <<>>) = Yes(Outcome(stack[q]))

(* What can be converted, said on its own. *)
RECURSIVE FineKey(_)
FineKey(d) == \/ d.d \in {"str", "char", "u8", "u64", "i64", "unit_variant"}
              \/ d.d = "value" /\ d.v.t \in {"str", "int"}
              \/ d.d = "newtype_struct" /\ FineKey(d.l[1])
RECURSIVE Fine(_)
Fine(d) ==
  CASE d.d \in {"fail", "i128", "u128"} -> FALSE
    [] d.d = "u64" -> Len(d.dec) < 19 \/ d.dec = S("9223372036854775807")      \* of those in the models
    [] d.d = "map" -> \A q \in 1..Len(d.l) : FineKey(d.l[q].k) /\ Fine(d.l[q].v)
    [] d.d \in {"struct", "struct_variant"} -> \A q \in 1..Len(d.l) : Skipped(d.l[q]) \/ Fine(d.l[q].v)
    [] d.d \in Wraps \union Lists -> \A q \in 1..Len(d.l) : Fine(d.l[q])
    [] OTHER -> TRUE
OnlyFor == Done => (bad = <<>>) = Fine(out[1].d)

Canonical == Done /\ bad = <<>> => WellFormed(out[1].v) /\ ToValue(Present(out[1].v), <<>>) = Yes(out[1].v) /\ ToValue([d |-> "value", v |-> out[1].v], <<>>) = Yes(out[1].v)

FailFast == [][bad # <<>> => bad' = bad]_vars
=============================================================================
