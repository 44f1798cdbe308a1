-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Trace validation: every case is an engine configuration, templates and  *)
(* a render request together with what the implementation was observed to  *)
(* do.  The machine of Parse/Render is run on the case; every step must be *)
(* consistent with the observation (delivered bytes and calls so far are   *)
(* prefixes of the observed ones), and the final state must agree with it. *)
(* Every case ends in exactly one verdict line: ACCEPT or REJECT.          *)
(***************************************************************************)
EXTENDS CaseEnv, Location, Json, IOUtils, TLC

Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES cid, n, ti, c, done, env, m, act, acts
vars == <<cid, n, ti, c, done, env, m, act, acts>>
(* cid   the case;  n  steps taken
   ti    the template being compiled;  c  its compile machine
   done  results of those compiled
   env   the environment of the render;  m  the render machine
   act   the action enabled next (ActionOf(m) during the render, else the phase)
   acts  the names of the actions taken (reported with the verdict) *)

Case == Cases[cid]
Obs == Case.obs

(***************************************************************************)
(* Agreement with the observation.                                         *)
(***************************************************************************)
AnonymousT == S("<anonymous>")

LocAgrees(s, i, j, o) == o.has /\ LET l == Loc(s, i, j) IN
                         o.ln = l.ln /\ o.col = l.col /\ o.text = l.text /\ o.pad = l.pad /\ o.cw = l.cw

CompileAgrees(t, x, o) ==
  /\ o.r = x.res
  /\ x.res = "err" =>
       /\ o.kind = "syntax"
       /\ Case.cl => LocAgrees(t.s, x.ei, x.ej, o.loc)
       /\ Case.cn => o.loc.has /\ o.loc.n = (IF t.role = "reg" THEN t.n ELSE AnonymousT)

(* The failure of the harness's writer, as it is found as the source. *)
ZeroT == S("failed to write whole buffer|WriteZero")
FullT == S("disk full|BrokenPipe")
WriterFailure == IF Case.wm.zero THEN ZeroT ELSE IF "e" \in DOMAIN Case.wm THEN Case.wm.e ELSE FullT

Truthful(r, o) ==       \* final result r of the machine against observation o
  /\ o.r = r.r
  /\ r.r = "err" =>
       /\ o.kind = r.kind
       /\ r.hasmsg => o.msg = r.msg
       /\ r.kind = "io" => o.src = WriterFailure
       /\ Case.cl /\ r.loc => LocAgrees(r.s, r.i, r.j, o.loc)
       /\ Case.cn /\ r.loc => o.loc.has /\ o.loc.n = (IF r.anon THEN AnonymousT ELSE r.n)
       /\ Case.cn /\ ~r.loc => ~o.loc.has

Consistent(x) ==
  /\ IsPrefixOf(x.out, Obs.out)
  /\ IsPrefixOf(x.calls, Obs.calls)

Final(x) ==
  /\ x.out = Obs.out
  /\ x.calls = Obs.calls
  /\ Truthful(x.res, Obs.res)
  /\ Obs.same          \* a second render, to a string, gave the same text or error and made the same calls
  /\ Obs.after = 0     \* nothing was written after the writer failed

Verdict(v, why, e) ==
  PrintT(ToJson([verdict |-> v, cid |-> cid, id |-> Case.id, steps |-> n, acts |-> acts, why |-> why, exp |-> e]))
Accept == Verdict("ACCEPT", "", <<>>)
Reject(why, e) == Verdict("REJECT", why, e)

(* What the specification prescribes for the whole case, for reports. *)
Expect(x, ev) ==
  IF "burst" \in DOMAIN Case THEN <<>> ELSE      \* (too long to be worth it)
  LET y == RenderRun(x, ev) IN
  [out |-> y.out, calls |-> y.calls, res |-> IF y.res.r = "err" /\ y.res.loc
                                            THEN y.res @@ [at |-> Loc(y.res.s, y.res.i, y.res.j)] ELSE y.res]

(***************************************************************************)
(* Behaviour.                                                              *)
(***************************************************************************)
NoM == [res |-> Ok]
NoC == [res |-> "none"]

Init == /\ cid \in 1..Len(Cases)
        /\ n = 0 /\ ti = 1 /\ c = NoC /\ done = <<>> /\ env = NoM /\ m = NoM
        /\ act = "compile" /\ acts = {}

(* Cases of very many steps take them in bursts, and are compared with the
   observation after each. *)
Burst == IF "burst" \in DOMAIN Case THEN Case.burst ELSE 0
Ticks == TLCEval([i \in 1..500 |-> i])
Items(c0) == IF Burst = 0 THEN c0 ELSE FoldLeft(LAMBDA y, i : IF y.res = "" THEN CompileStep(y) ELSE y, c0, Ticks)

(* One item of template ti is compiled; with the last one, the result must
   agree with the observation. *)
CompileItem ==
  /\ act = "compile"
  /\ \E t \in {Case.tpls[ti]} :      \* (bound, not LET: TLC would evaluate a LET once per use)
     \E x \in {Items(CompileStep(IF c.res = "none" THEN CompileInit(Case.syn, t.s, Case.ftab) ELSE c))} :
        IF x.res = "" THEN c' = x /\ UNCHANGED <<ti, done, act>>
        ELSE IF CompileAgrees(t, x, Obs.tpls[ti])
        THEN /\ ti' = ti + 1 /\ c' = NoC
             /\ done' = Append(done, [res |-> x.res, prog |-> x.prog])
             /\ act' = IF ti < Len(Case.tpls) THEN "compile" ELSE "start"
        ELSE /\ Reject("compile", [ti |-> ti, res |-> x.res,
                                   at |-> IF x.res = "err" THEN Loc(t.s, x.ei, x.ej) ELSE <<>>])
             /\ act' = "end" /\ UNCHANGED <<ti, c, done>>
  /\ n' = n + 1 /\ UNCHANGED <<cid, env, m, acts>>

StartRender ==
  /\ act = "start"
  /\ n' = n + 1 /\ UNCHANGED <<cid, ti, c, done, acts>>
  /\ IF Case.main = 0 \/ done[Case.main].res = "err"
     THEN /\ IF Obs.res.r = "none" THEN Accept ELSE Reject("nothing to render", <<>>)
          /\ act' = "end" /\ UNCHANGED <<env, m>>
     ELSE /\ env' = EnvOf(Case, Case, done)
          /\ m' = StartOf(Case, Case, done)
          /\ act' = ActionOf(m')

Finish ==
  /\ act = "stop"
  /\ IF Final(m) THEN Accept ELSE Reject("result", Expect(m, env))
  /\ act' = "end" /\ n' = n + 1 /\ UNCHANGED <<cid, ti, c, done, env, m, acts>>

ActBurst ==
  /\ Burst > 0 /\ act \notin {"compile", "start", "stop", "end"}
  /\ \E m2 \in {FoldLeft(LAMBDA x, i : IF Failed(x) THEN x ELSE RenderStep(x, env), m, Ticks)} :
     IF Consistent(m2)
     THEN m' = m2 /\ act' = (IF Failed(m2) THEN "stop" ELSE "burst")
     ELSE Reject("burst", Expect(m, env)) /\ act' = "end" /\ UNCHANGED m
  /\ n' = n + 500 /\ acts' = acts \union {"burst"} /\ UNCHANGED <<cid, ti, c, done, env>>

Act(a, next) ==
  /\ Burst = 0
  /\ \E m2 \in {next} :
     IF Consistent(m2)
     THEN m' = m2 /\ act' = ActionOf(m')
     ELSE Reject(a, Expect(m, env)) /\ act' = "end" /\ UNCHANGED m
  /\ n' = n + 1 /\ acts' = acts \union {a} /\ UNCHANGED <<cid, ti, c, done, env>>

ActText        == act = "text" /\ Act(act, ExecText(m, env))
ActEvalBase    == act = "evalbase" /\ Act(act, EvalBase(m, env))
ActApply       == act = "apply" /\ Act(act, Apply(m, env))
ActEmitNamed   == act = "emitnamed" /\ Act(act, EmitNamed(m, env))
ActEmit        == act = "emit" /\ Act(act, Emit(m, env))
ActBranch      == act = "branch" /\ Act(act, Branch(m))
ActLoopEnter   == act = "loopenter" /\ Act(act, LoopEnter(m))
ActLoopNext    == act = "loopnext" /\ Act(act, LoopNext(m))
ActLoopExit    == act = "loopexit" /\ Act(act, LoopExit(m))
ActWithEnter   == act = "withenter" /\ Act(act, WithEnter(m))
ActWithExit    == act = "withexit" /\ Act(act, WithExit(m))
ActInclude     == act = "include" /\ Act(act, Include(m, env))
ActIncludeWith == act = "includewith" /\ Act(act, IncludeWith(m, env))
ActScopeExit   == act = "scopeexit" /\ Act(act, ScopeExit(m))
ActTplExit     == act = "tplexit" /\ Act(act, TplExit(m))
ActSeqEnd      == act = "seqend" /\ Act(act, SeqEnd(m))

Next == \/ CompileItem \/ StartRender \/ Finish \/ ActBurst
        \/ ActText \/ ActEvalBase \/ ActApply \/ ActEmitNamed \/ ActEmit \/ ActBranch
        \/ ActLoopEnter \/ ActLoopNext \/ ActLoopExit \/ ActWithEnter \/ ActWithExit
        \/ ActInclude \/ ActIncludeWith \/ ActScopeExit \/ ActTplExit \/ ActSeqEnd

Spec == Init /\ [][Next]_vars
View == <<cid, n>>
=============================================================================
