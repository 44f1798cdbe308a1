----------------------------- MODULE EngineTrace -----------------------------
(***************************************************************************)
(* Validation of recorded histories: every operation must have returned    *)
(* what module Engine prescribes in the state reached so far.              *)
(***************************************************************************)
EXTENDS Engine, Location, Json, IOUtils, TLC

Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES cid, n, st, acts, act
vars == <<cid, n, st, acts, act>>

Case == Cases[cid]
Obs == Case.obs.ops

AnonymousT == S("<anonymous>")
LocAgrees(r, o) ==       \* the template named (positions are validated by module Trace)
  o.has /\ o.n = (IF r.anon THEN AnonymousT ELSE r.n)

WriterFailure(op) == IF op.wm.zero THEN S("failed to write whole buffer|WriteZero") ELSE IF "e" \in DOMAIN op.wm THEN op.wm.e ELSE S("disk full|BrokenPipe")

Agrees(op, r, o) ==
  /\ o.r = r.r
  /\ r.r = "err"  => o.kind = r.kind /\ (r.loc => LocAgrees(r, o.loc))
  /\ r.r = "some" => o.s = r.s
  /\ r.r = "done" =>
       /\ o.out = r.out /\ o.calls = r.calls /\ o.res.r = r.res.r /\ o.same /\ o.after = 0
       /\ r.res.r = "err" =>
            /\ o.res.kind = r.res.kind
            /\ r.res.hasmsg => o.res.msg = r.res.msg
            /\ r.res.kind = "io" => o.res.src = WriterFailure(op)
            /\ IF r.res.loc THEN LocAgrees(r.res, o.res.loc) ELSE ~o.res.loc.has

Brief(r) == IF r.r = "err" THEN [r |-> "err", kind |-> r.kind, at |-> Loc(r.s, r.i, r.j)] ELSE r

Verdict(v, why, e) ==
  PrintT(ToJson([verdict |-> v, cid |-> cid, id |-> Case.id, steps |-> n, acts |-> acts, why |-> why, exp |-> e]))

Init == /\ cid \in 1..Len(Cases)
        /\ n = 0 /\ st = StartState([q \in 1..Len(Case.engines) |-> Case.engines[q].syn])
        /\ acts = {} /\ act = "op"

Step ==
  /\ act = "op" /\ n < Len(Case.ops)
  /\ \E op \in {Case.ops[n + 1]} : \E x \in {Operate(st, op, Case.ftab, Case.f32)} :
       IF Agrees(op, x.r, Obs[n + 1])
       THEN st' = x.st /\ acts' = acts \union {op.op} /\ UNCHANGED act
       ELSE /\ PrintT(ToJson([verdict |-> "REJECT", cid |-> cid, id |-> Case.id, steps |-> n, acts |-> acts, why |-> op.op,
                              exp |-> [op |-> n + 1, returns |-> Brief(x.r)]]))
            /\ act' = "end" /\ UNCHANGED <<st, acts>>
  /\ n' = n + 1 /\ UNCHANGED cid

Finish ==
  /\ act = "op" /\ n = Len(Case.ops)
  /\ Verdict("ACCEPT", "", <<>>)
  /\ act' = "end" /\ n' = n + 1 /\ UNCHANGED <<cid, st, acts>>

Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
View == <<cid, n>>
=============================================================================
