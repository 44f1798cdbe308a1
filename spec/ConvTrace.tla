------------------------------ MODULE ConvTrace ------------------------------
(***************************************************************************)
(* Validation of recorded conversions a, b of Rust data and of comparisons *)
(* between the resulting values.                                           *)
(***************************************************************************)
EXTENDS Convert, Json, IOUtils, TLC

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES cid, act
vars == <<cid, act>>
Case == Cases[cid]
Obs == Case.obs

OkT == S("ok ")
ErrT == S("err ")
ShownAgrees(v, o) == IF IsScalar(v) THEN o = OkT \o Shown(v) ELSE IsPrefixOf(ErrT, o)

Agrees(a, b, o) ==
  /\ o.va = a /\ o.vb = b
  /\ o.eq = Equal(a, b) /\ o.eqr = Equal(b, a) /\ o.self = Equal(a, a)
  /\ o.clone /\ o.id /\ o.def
  /\ ShownAgrees(a, o.ra) /\ ShownAgrees(b, o.rb)
  /\ WellFormed(a) /\ WellFormed(b)

Init == cid \in 1..Len(Cases) /\ act = "convert"
Step ==
  /\ act = "convert"
  /\ \E a \in {Converted(Case.a, Case.f32)} : \E b \in {Converted(Case.b, Case.f32)} :
     IF ("panic" \notin DOMAIN Obs) /\ Agrees(a, b, Obs)
     THEN PrintT(ToJson([verdict |-> "ACCEPT", cid |-> cid, id |-> Case.id, steps |-> 1, acts |-> {Case.a.how, Case.b.how}, why |-> "", exp |-> <<>>]))
     ELSE PrintT(ToJson([verdict |-> "REJECT", cid |-> cid, id |-> Case.id, steps |-> 1, acts |-> {Case.a.how, Case.b.how}, why |-> "conversion",
                         exp |-> [va |-> a, vb |-> b, eq |-> Equal(a, b)]]))
  /\ act' = "end" /\ UNCHANGED cid
Next == Step
Spec == Init /\ [][Next]_vars
=============================================================================
