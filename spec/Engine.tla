-------------------------------- MODULE Engine --------------------------------
(***************************************************************************)
(* Engines as a user drives them: a history of operations on one or more   *)
(* engines and on compiled templates.                                      *)
(*                                                                         *)
(* State: [es, slots]                                                      *)
(*   es     the engines: [syn, tpls, fns, dfmt, depth]                     *)
(*            tpls   set of [n, s, prog], one for each registered name     *)
(*            fns    set of functions (module Library), one for each name  *)
(*   slots  compiled templates, owned by the user: [ok, s, prog]           *)
(*                                                                         *)
(* An operation op, on engine op.e, maps the state to [st, r]: the next    *)
(* state and what the operation returns.                                   *)
(***************************************************************************)
EXTENDS Render

NewEngine(syn) ==
  [syn |-> syn, tpls |-> {}, fns |-> {}, depth |-> 64,
   dfmt |-> [builtin |-> TRUE, bd |-> "default", tag |-> <<>>, msg |-> <<>>]]

Named(S_, n) == {x \in S_ : x.n = n}            \* the entry called n: none or one
Without(S_, n) == {x \in S_ : x.n # n}
The(S_) == CHOOSE x \in S_ : TRUE
FunctionKind(S_) == IF S_ = {} THEN [r |-> "none"] ELSE [r |-> The(S_).k]

(* Results of compiling. *)
Compiled(c, anon, n) ==
  IF c.res = "ok" THEN [r |-> "ok"]
  ELSE [r |-> "err", kind |-> "syntax", loc |-> TRUE, anon |-> anon, n |-> n, s |-> c.s, i |-> c.ei, j |-> c.ej, hasmsg |-> FALSE]

(***************************************************************************)
(* Operations on an engine e: [e, r].                                      *)
(***************************************************************************)
AddTemplate(e, n, s, ftab) ==
  LET c == Compile(e.syn, s, ftab) IN
  [e |-> IF c.res = "ok" THEN [e EXCEPT !.tpls = Without(@, n) \union {[n |-> n, s |-> s, prog |-> c.prog]}] ELSE e,
   r |-> Compiled(c, FALSE, n)]

RemoveTemplate(e, n) ==
  [e |-> [e EXCEPT !.tpls = Without(@, n)], r |-> [r |-> IF Named(e.tpls, n) = {} THEN "false" ELSE "true"]]

GetTemplate(e, n) ==
  LET t == Named(e.tpls, n) IN
  [e |-> e, r |-> IF t = {} THEN [r |-> "none"] ELSE [r |-> "some", s |-> The(t).s]]

AddFunction(e, f) ==
  [e |-> [e EXCEPT !.fns = Without(@, f.n) \union {f}], r |-> FunctionKind(Named(e.fns, f.n))]
RemoveFunction(e, n) ==
  [e |-> [e EXCEPT !.fns = Without(@, n)], r |-> FunctionKind(Named(e.fns, n))]

SetDepth(e, d) == [e |-> [e EXCEPT !.depth = MaxDepth(d)], r |-> [r |-> "ok"]]
SetDefault(e, f) == [e |-> [e EXCEPT !.dfmt = f], r |-> [r |-> "ok"]]

(***************************************************************************)
(* Renders.  op: n or slot (0: the registered template n), ctx, src, lim,  *)
(* rdepth (-1: the engine's), tfn, tfnm (the template function: a sequence *)
(* of [n, slot]).                                                          *)
(***************************************************************************)
ByTemplateFn(slots, tfnm) ==
  SelectSeq([q \in 1..Len(tfnm) |->
               LET t == slots[tfnm[q].slot] IN [n |-> tfnm[q].n, ok |-> t.ok, s |-> t.s, prog |-> t.prog]],
            LAMBDA t : t.ok)

EngineEnv(e, slots, op, f32) ==
  [store |-> SetToSeq(e.tpls), fns |-> SetToSeq(e.fns), dfmt |-> e.dfmt, ctx |-> op.ctx, vfn |-> op.src = "fn",
   depth |-> IF op.rdepth # -1 THEN MaxDepth(op.rdepth) ELSE e.depth,
   tfn |-> [on |-> op.tfn, m |-> IF op.tfn THEN ByTemplateFn(slots, op.tfnm) ELSE <<>>],
   lim |-> op.lim, f32 |-> f32, sfx |-> IF "sfx" \in DOMAIN op THEN op.sfx ELSE <<>>]

RenderOp(e, slots, op, f32) ==
  LET go(m) == LET y == RenderRun(m, EngineEnv(e, slots, op, f32)) IN
               [r |-> "done", out |-> y.out, calls |-> y.calls, res |-> y.res]
  IN IF op.slot = 0
     THEN LET t == Named(e.tpls, op.n) IN
          IF t = {} THEN [r |-> "none"] ELSE go(RenderInit(FALSE, op.n, The(t).s, The(t).prog))
     ELSE LET t == slots[op.slot] IN
          IF ~t.ok THEN [r |-> "none"] ELSE go(RenderInit(TRUE, <<>>, t.s, t.prog))

(***************************************************************************)
(* One operation.                                                          *)
(***************************************************************************)
OnEngine(st, op, x) == [st |-> [st EXCEPT !.es[op.e] = x.e], r |-> x.r]

Operate(st, op, ftab, f32) ==
  LET e == st.es[op.e] IN
  CASE op.op = "addt"  -> OnEngine(st, op, AddTemplate(e, op.n, op.s, ftab))
    [] op.op = "remt"  -> OnEngine(st, op, RemoveTemplate(e, op.n))
    [] op.op = "gett"  -> OnEngine(st, op, GetTemplate(e, op.n))
    [] op.op = "addf"  -> OnEngine(st, op, AddFunction(e, op.f))
    [] op.op = "remf"  -> OnEngine(st, op, RemoveFunction(e, op.n))
    [] op.op = "depth" -> OnEngine(st, op, SetDepth(e, op.d))
    [] op.op = "dfmt"  -> OnEngine(st, op, SetDefault(e, op.f))
    [] op.op = "compile" ->
         LET c == Compile(e.syn, op.s, ftab) IN
         [st |-> [st EXCEPT !.slots = Append(@, [ok |-> c.res = "ok", s |-> op.s, prog |-> c.prog])],
          r |-> Compiled(c, TRUE, <<>>)]
    [] op.op = "render" -> [st |-> st, r |-> RenderOp(e, st.slots, op, f32)]

StartState(syns) == [es |-> [q \in 1..Len(syns) |-> NewEngine(syns[q])], slots |-> <<>>]
=============================================================================
