----------------------------- MODULE MCConcurrent -----------------------------
(***************************************************************************)
(* Renders on several threads sharing an engine and its templates.  Every  *)
(* interleaving of their steps is explored.  The machines share env and    *)
(* nothing else; checked: whatever the interleaving, each render produces  *)
(* the output, calls and result it produces alone.  The order in which the *)
(* threads call into user code is printed for every behaviour and imposed  *)
(* on real threads by the harness.                                         *)
(***************************************************************************)
EXTENDS CaseEnv, Json, IOUtils, TLC

Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES cid, ms, pend, sched
vars == <<cid, ms, pend, sched>>
(* pend  the calls of each thread's last step that have not taken place yet *)

Case == Cases[cid]
T == 1..Len(Case.threads)
Req(t) == Case.threads[t][1]

(* (constants: compiled once) *)
Progs == TLCEval([k \in 1..Len(Cases) |-> TLCEval([q \in 1..Len(Cases[k].tpls) |-> Compile(Cases[k].syn, Cases[k].tpls[q].s, Cases[k].ftab)])])
Envs == TLCEval([k \in 1..Len(Cases) |-> TLCEval([t \in 1..Len(Cases[k].threads) |-> EnvOf(Cases[k], Cases[k].threads[t][1], Progs[k])])])
Alone == TLCEval([k \in 1..Len(Cases) |-> TLCEval([t \in 1..Len(Cases[k].threads) |->
            RenderRun(StartOf(Cases[k], Cases[k].threads[t][1], Progs[k]), Envs[k][t])])])

Init == /\ cid \in 1..Len(Cases)
        /\ ms = [t \in 1..Len(Cases[cid].threads) |-> StartOf(Cases[cid], Cases[cid].threads[t][1], Progs[cid])]
        /\ pend = [t \in 1..Len(Cases[cid].threads) |-> 0]
        /\ sched = <<>>

Done(x, p) == \A t \in T : Failed(x[t]) /\ p[t] = 0
Print1 == Done(ms', pend') => PrintT(ToJson([cid |-> cid, sched |-> sched']))

(* With IOEnv.STEPS = "calls" the steps of a thread between two calls into
   user code are taken together: they touch nothing but the thread's own
   machine, so that no order of calls is lost.  (For three and more threads;
   for two every step is interleaved.) *)
RECURSIVE ToCall(_, _, _)
ToCall(m, env, n) == IF Failed(m) \/ Len(m.calls) > n THEN m ELSE ToCall(RenderStep(m, env), env, n)
Advance(m, env) == IF IOEnv.STEPS = "calls" THEN ToCall(m, env, Len(m.calls)) ELSE RenderStep(m, env)

Step(t) ==
  /\ ~Failed(ms[t]) /\ pend[t] = 0
  /\ \E m2 \in {Advance(ms[t], Envs[cid][t])} :
       /\ ms' = [ms EXCEPT ![t] = m2]
       /\ pend' = [pend EXCEPT ![t] = Len(m2.calls) - Len(ms[t].calls)]
  /\ UNCHANGED <<cid, sched>>
  /\ Print1

(* The calls of a step (a whole pipeline) take place one by one. *)
TakePlace(t) ==
  /\ pend[t] > 0
  /\ pend' = [pend EXCEPT ![t] = @ - 1]
  /\ sched' = Append(sched, t)
  /\ UNCHANGED <<cid, ms>>
  /\ Print1

Next == \E t \in T : Step(t) \/ TakePlace(t)
Spec == Init /\ [][Next]_vars

Isolated ==
  /\ \A t \in T : Failed(ms[t]) => ms[t].out = Alone[cid][t].out /\ ms[t].calls = Alone[cid][t].calls /\ ms[t].res = Alone[cid][t].res
  /\ \A t \in T : IsPrefixOf(ms[t].out, Alone[cid][t].out) /\ IsPrefixOf(ms[t].calls, Alone[cid][t].calls)
  /\ \A t \in T : DepthOf(ms[t].k) <= IF Envs[cid][t].depth < 1 THEN 1 ELSE Envs[cid][t].depth
=============================================================================
