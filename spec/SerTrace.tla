------------------------------- MODULE SerTrace -------------------------------
(***************************************************************************)
(* Validation of recorded conversions of serializable data: by to_value,   *)
(* and as (part of) the context of a render that shows it.                 *)
(***************************************************************************)
EXTENDS Serialize, Json, IOUtils, TLC

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES cid, act
vars == <<cid, act>>
Case == Cases[cid]
Obs == Case.obs

Whole(d) == [d |-> "map", l |-> <<[k |-> [d |-> "str", s |-> <<120>>], v |-> d]>>]

Agrees(d) ==
  LET r == ToValue(d, Case.f32) IN
  IF r.ok
  THEN /\ WellFormed(r.v)
       /\ ToValue(Present(r.v), <<>>) = r                   \* converting a value is the identity
       /\ ToValue(Whole(d), Case.f32).v = MapV(<<[k |-> <<120>>, v |-> r.v]>>)
       /\ Obs.value.r = "ok" /\ Obs.value.v = r.v
       /\ Obs.again = Obs.value                              \* ... and the value itself is converted to itself
       /\ Obs.ctx.r = "ok" /\ Obs.ctx.same /\ Obs.ctx.out = DbgText(r.v)
  ELSE /\ Obs.value.r = "err" /\ Obs.value.kind = "serialize"
       /\ Obs.ctx.r = "err" /\ Obs.ctx.kind = "serialize"
       /\ r.own => Obs.value.msg = r.msg /\ Obs.ctx.msg = r.msg

Init == cid \in 1..Len(Cases) /\ act = "convert"
Convert ==
  /\ act = "convert"
  /\ IF Agrees(Case.tree)
     THEN PrintT(ToJson([verdict |-> "ACCEPT", cid |-> cid, id |-> Case.id, steps |-> 1, acts |-> {Case.tree.d}, why |-> "", exp |-> <<>>]))
     ELSE PrintT(ToJson([verdict |-> "REJECT", cid |-> cid, id |-> Case.id, steps |-> 1, acts |-> {Case.tree.d}, why |-> "conversion",
                         exp |-> ToValue(Case.tree, Case.f32)]))
  /\ act' = "end" /\ UNCHANGED cid
Next == Convert
Spec == Init /\ [][Next]_vars
=============================================================================
