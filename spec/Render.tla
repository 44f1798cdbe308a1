------------------------------- MODULE Render -------------------------------
(***************************************************************************)
(* The render machine.                                                     *)
(*                                                                         *)
(* Environment env (fixed during a render):                                *)
(*   store  sequence of [n, s, prog]: the registered templates             *)
(*   fns    the registered functions (module Library)                   *)
(*   dfmt   the default formatter: [bd |-> "default"] or a formatter       *)
(*   ctx    the context value                                              *)
(*   vfn    TRUE if the context is given as a value function               *)
(*   depth  the maximum include depth                                      *)
(*   tfn    [on, m]: the render's template function, m a sequence of       *)
(*          [n, ok, s, prog, msg]                                          *)
(*   lim    number of bytes the writer accepts before it fails, or -1      *)
(*   f32    table for single precision                                     *)
(*                                                                         *)
(* Machine state m:                                                        *)
(*   k      control stack, innermost last; frames                          *)
(*            [f |-> "tpl", anon, n, s]      an active template            *)
(*            [f |-> "scope", v, own]        own context of an include     *)
(*            [f |-> "with", n, v, own]      a with binding                *)
(*            [f |-> "for", vars, es, own, i] a loop; es its elements      *)
(*                                           [k, v], i the current one     *)
(*            [f |-> "seq", ss, i]           statements, next is ss[i]     *)
(*   x      the expression being evaluated:                                *)
(*            [use, st, arm, p, v, own]; p filters have been applied,      *)
(*            p = -1 before the base is evaluated; use = "none" if there   *)
(*            is no expression                                             *)
(*   out    bytes delivered so far                                         *)
(*   calls  calls made to filters, formatters, value and template function *)
(*   res    [r |-> "run"], [r |-> "ok"] or [r |-> "err", ...]              *)
(***************************************************************************)
EXTENDS Parse, Library

LoopT == S("loop")
FirstT == S("first")
IndexT == S("index")
LastT == S("last")
VfnT == S("vfn ")
TfnT == S("tfn ")
NoX == [use |-> "none"]
Running == [r |-> "run"]
Ok == [r |-> "ok"]

TplFrame(anon, n, s) == [f |-> "tpl", anon |-> anon, n |-> n, s |-> s]
SeqFrame(ss) == [f |-> "seq", ss |-> ss, i |-> 1]

RenderInit(anon, n, s, prog) ==
  [k |-> <<TplFrame(anon, n, s), SeqFrame(prog)>>, x |-> NoX, out |-> <<>>, calls |-> <<>>, res |-> Running]

Top(m) == m.k[Len(m.k)]
Push(m, f) == [m EXCEPT !.k = Append(@, f)]
Pop(m) == [m EXCEPT !.k = SubSeq(@, 1, Len(@) - 1)]
Call(m, c) == [m EXCEPT !.calls = Append(@, c)]

(* Index of the innermost active template. *)
RECURSIVE _TplAt(_, _)
_TplAt(k, i) == IF k[i].f = "tpl" THEN i ELSE _TplAt(k, i - 1)
Tpl(m) == m.k[_TplAt(m.k, Len(m.k))]
DepthOf(k) == Cardinality({i \in 1..Len(k) : k[i].f = "tpl"})

(***************************************************************************)
(* Failures.  A located failure points at i..j of the innermost active     *)
(* template's source and carries its name; msg is the message supplied by  *)
(* user code, if any.                                                      *)
(***************************************************************************)
FailAt(m, kind, i, j, hasmsg, msg) ==
  LET t == Tpl(m) IN
  [m EXCEPT !.res = [r |-> "err", kind |-> kind, loc |-> TRUE, anon |-> t.anon, n |-> t.n, s |-> t.s, i |-> i, j |-> j,
                     hasmsg |-> hasmsg, msg |-> msg]]
FailRender(m, i, j) == FailAt(m, "render", i, j, FALSE, <<>>)
FailBare(m, kind) ==
  [m EXCEPT !.res = [r |-> "err", kind |-> kind, loc |-> FALSE, anon |-> TRUE, n |-> <<>>, s |-> <<>>, i |-> 0, j |-> 0,
                     hasmsg |-> FALSE, msg |-> <<>>]]
Failed(m) == m.res.r # "run"

(***************************************************************************)
(* Output.  The writer accepts env.lim bytes, then fails.                  *)
(***************************************************************************)
Write(m, env, text) ==
  LET o == m.out \o Utf8(text) IN
  IF env.lim >= 0 /\ Len(o) > env.lim
  THEN FailBare([m EXCEPT !.out = SubSeq(o, 1, env.lim)], "io")
  ELSE [m EXCEPT !.out = o]

(***************************************************************************)
(* Name resolution, from the innermost frame outwards.                     *)
(* [r |-> "ok", v, own], [r |-> "err", i, j], or [r |-> "vfn"].            *)
(***************************************************************************)
LoopValue(f) == MapV(<< [k |-> FirstT, v |-> Bool(f.i = 1)],
                        [k |-> IndexT, v |-> IntN(f.i - 1)],
                        [k |-> LastT,  v |-> Bool(f.i = Len(f.es))] >>)


Found(v, own, path, first) ==     \* follow path[first..] from v
  LET w == Walk(v, path, first) IN
  IF w.r = "ok" THEN [r |-> "ok", v |-> w.v, own |-> own]
  ELSE IF w.r = "none" THEN [r |-> "ok", v |-> None, own |-> FALSE]
  ELSE [r |-> "err", i |-> path[w.j].i, j |-> path[w.j].j]

NotFound(path) == [r |-> "err", i |-> path[1].i, j |-> path[1].j]

RECURSIVE Lookup(_, _, _, _)
Lookup(k, d, env, path) ==
  LET name == path[1].n IN
  IF d = 0 THEN
    IF env.vfn THEN [r |-> "vfn"]
    ELSE IF env.ctx.t = "map" /\ MapIndex(env.ctx.m, name) > 0 THEN Found(env.ctx, FALSE, path, 1)
    ELSE NotFound(path)
  ELSE LET f == k[d] IN
  CASE f.f = "with" /\ f.n = name -> Found(f.v, f.own, path, 2)
    [] f.f = "for" /\ name = LoopT -> Found(LoopValue(f), TRUE, path, 2)
    [] f.f = "for" /\ Len(f.vars) = 1 /\ name = f.vars[1] -> Found(f.es[f.i].v, f.own, path, 2)
    [] f.f = "for" /\ Len(f.vars) = 2 /\ name = f.vars[1] -> Found(StrV(f.es[f.i].k), TRUE, path, 2)
    [] f.f = "for" /\ Len(f.vars) = 2 /\ name = f.vars[2] -> Found(f.es[f.i].v, f.own, path, 2)
    [] f.f = "scope" -> IF f.v.t = "map" /\ MapIndex(f.v.m, name) > 0 THEN Found(f.v, f.own, path, 1) ELSE NotFound(path)
    [] OTHER -> Lookup(k, d - 1, env, path)

(* The value function of the harness resolves the path in ctx; where that
   fails it returns an error whose message is derived from the first name. *)
MsgOf(t, env) == IF env.sfx # <<>> /\ env.sfx[1] = 61 THEN Tail(env.sfx) ELSE t \o env.sfx      \* ("=x": just x)
VfnMsg(path, env) == MsgOf(VfnT \o path[1].n, env)
TfnMsg(n, env) == MsgOf(TfnT \o n, env)
PathEvent(path) == [q \in 1..Len(path) |-> [op |-> path[q].op, a |-> path[q].a, n |-> path[q].n]]

(* Evaluate a variable: <<machine, result>>. *)
EvalVar(m, env, b) ==
  LET r == Lookup(m.k, Len(m.k), env, b.path) IN
  IF r.r # "vfn" THEN <<m, r>>
  ELSE LET m1 == Call(m, [c |-> "vfn", path |-> PathEvent(b.path)])
           w == Walk(env.ctx, b.path, 1)
       IN IF w.r = "ok" THEN <<m1, [r |-> "ok", v |-> w.v, own |-> TRUE]>>
          ELSE IF w.r = "none" THEN <<m1, [r |-> "ok", v |-> None, own |-> TRUE]>>
          ELSE <<FailAt(m1, "render", b.i, b.j, TRUE, VfnMsg(b.path, env)), [r |-> "fail"]>>

(***************************************************************************)
(* Expressions.                                                            *)
(***************************************************************************)
ExprOf(x) == IF x.use = "if" THEN x.st.arms[x.arm].e ELSE x.st.e

StartX(m) ==      \* begin the expression of the next statement
  LET f == Top(m)  st == f.ss[f.i] IN
  [m EXCEPT !.k[Len(m.k)].i = @ + 1,
            !.x = [use |-> st.o, st |-> st, arm |-> 1, p |-> 0 - 1, v |-> None, own |-> FALSE]]

EvalBase(m0, env) ==
  LET m == IF m0.x.use = "none" THEN StartX(m0) ELSE m0
      b == ExprOf(m.x).b
  IN IF b.b = "lit" THEN [m EXCEPT !.x.v = b.v, !.x.own = TRUE, !.x.p = 0]
     ELSE LET q == EvalVar(m, env, b) IN
          IF q[2].r = "ok" THEN [q[1] EXCEPT !.x.v = q[2].v, !.x.own = q[2].own, !.x.p = 0]
          ELSE IF q[2].r = "fail" THEN q[1]
          ELSE FailRender(q[1], q[2].i, q[2].j)

(* Convert arguments g.args[n..]; <<machine, values>>. *)
RECURSIVE PassArgs(_, _, _, _, _, _)
PassArgs(m, env, fn, g, n, acc) ==
  IF n > Len(g.args) THEN <<m, acc>>
  ELSE LET b == g.args[n]
           q == IF b.b = "lit" THEN <<m, [r |-> "ok", v |-> b.v, own |-> FALSE]>> ELSE EvalVar(m, env, b)
           ty == fn.ps[n + 1]
       IN IF q[2].r = "fail" THEN <<q[1], <<>> >>
          ELSE IF q[2].r = "err" THEN <<FailRender(q[1], q[2].i, q[2].j), <<>> >>
          ELSE IF ~ParamOk(ty, q[2].v, q[2].own, FALSE) THEN <<FailRender(q[1], b.i, b.j), <<>> >>
          ELSE PassArgs(q[1], env, fn, g, n + 1, Append(acc, ParamValue(ty, q[2].v, env.f32)))

(* Call filter fn on the current value for pipeline element g. *)
CallFilter(m, env, fn, g) ==
  IF Len(g.args) + 1 # Len(fn.ps) THEN FailRender(m, g.ni, g.nj)
  ELSE IF ~ParamOk(fn.ps[1], m.x.v, m.x.own, TRUE) THEN FailRender(m, g.ni, g.nj)
  ELSE LET q == PassArgs(m, env, fn, g, 1, <<ParamValue(fn.ps[1], m.x.v, env.f32)>>) IN
       IF Failed(q[1]) THEN q[1]
       ELSE LET m1 == Call(q[1], [c |-> "flt", n |-> fn.tag, args |-> q[2]])
                r == FilterBody(fn, q[2])
            IN IF r.ok THEN [m1 EXCEPT !.x.v = r.v, !.x.own = TRUE, !.x.p = @ + 1]
               ELSE FailAt(m1, "filter", g.ni, g.nj, TRUE, r.msg)

Apply(m, env) ==
  LET g == ExprOf(m.x).fs[m.x.p + 1]
      h == FnIndex(env.fns, g.n)
  IN IF h = 0 THEN FailRender(m, g.ni, g.nj)
     ELSE IF env.fns[h].k = "fmt" THEN FailRender(m, g.ni, g.nj)
     ELSE CallFilter(m, env, env.fns[h], g)

(* Write the current value through formatter fn; a failure is located at
   i..j.  builtin: fn is the engine's own default, whose calls cannot be
   observed. *)
Format(m, env, fn, builtin, i, j) ==
  LET m1 == IF builtin THEN m ELSE Call(m, [c |-> "fmt", n |-> fn.tag, v |-> m.x.v])
      r == FormatBody(fn, m.x.v)
      m2 == Write([m1 EXCEPT !.x = NoX], env, r.w)
  IN IF Failed(m2) \/ r.ok THEN m2
     ELSE IF r.hasmsg THEN FailAt(m2, "format", i, j, ~builtin /\ r.msg # <<>>, r.msg)
     ELSE FailBare(m2, "format")

EmitDefault(m, env, i, j) == Format(m, env, env.dfmt, env.dfmt.builtin, i, j)

(* The last function of an emitted expression, without arguments, may be a
   filter or a formatter. *)
EmitNamed(m, env) ==
  LET e == ExprOf(m.x)
      g == e.fs[Len(e.fs)]
      h == FnIndex(env.fns, g.n)
  IN IF h = 0 THEN FailRender(m, g.ni, g.nj)
     ELSE IF env.fns[h].k = "fmt" THEN Format(m, env, env.fns[h], FALSE, g.ni, g.nj)
     ELSE CallFilter(m, env, env.fns[h], g)

(***************************************************************************)
(* Statements.                                                             *)
(***************************************************************************)
ExecText(m, env) ==
  LET f == Top(m) IN Write([m EXCEPT !.k[Len(m.k)].i = @ + 1], env, f.ss[f.i].s)

Emit(m, env) == LET e == ExprOf(m.x) IN EmitDefault(m, env, e.i, e.j)

Branch(m) ==
  LET x == m.x  a == x.st.arms[x.arm] IN
  IF Truthy(x.v) # a.not THEN Push([m EXCEPT !.x = NoX], SeqFrame(a.body))
  ELSE IF x.arm < Len(x.st.arms) THEN [m EXCEPT !.x.arm = @ + 1, !.x.p = 0 - 1]
  ELSE Push([m EXCEPT !.x = NoX], SeqFrame(x.st.els))

Elements(v) == IF v.t = "list" THEN [q \in 1..Len(v.l) |-> [v |-> v.l[q]]] ELSE v.m

LoopEnter(m) ==
  LET x == m.x  st == x.st IN
  IF x.v.t \notin {"list", "map"} THEN FailRender(m, st.e.i, st.e.j)
  ELSE IF Len(st.vars) # (IF x.v.t = "list" THEN 1 ELSE 2) THEN FailRender(m, st.vi, st.vj)
  ELSE Push([m EXCEPT !.x = NoX],
            [f |-> "for", vars |-> st.vars, es |-> Elements(x.v), own |-> x.own, i |-> 0, body |-> st.body])

LoopNext(m) ==
  LET f == Top(m) IN Push([m EXCEPT !.k[Len(m.k)].i = @ + 1], SeqFrame(f.body))
LoopExit(m) == Pop(m)

WithEnter(m) ==
  LET x == m.x IN
  Push(Push([m EXCEPT !.x = NoX], [f |-> "with", n |-> x.st.n, v |-> x.v, own |-> x.own]), SeqFrame(x.st.body))
WithExit(m) == Pop(m)

(* A maximum include depth as it is written in requests: those below -1 stand
   for the largest numbers an implementation can be given, which no render
   reaches. *)
MaxDepth(d) == IF d < -1 THEN 2000000000 ELSE d

StoreIndex(store, n) == LET H == {q \in 1..Len(store) : store[q].n = n} IN
                        IF H = {} THEN 0 ELSE CHOOSE q \in H : \A h \in H : h <= q

(* Resolve and enter template st.n; frames are those to push before its
   statements. *)
Enter(m0, env, st, frames) ==
  LET m == IF env.tfn.on THEN Call(m0, [c |-> "tfn", n |-> st.n]) ELSE m0
      T == IF env.tfn.on THEN env.tfn.m ELSE env.store
      q == StoreIndex(T, st.n)
  IN IF q = 0 THEN FailAt(m, "render", st.i, st.j, env.tfn.on, IF env.tfn.on THEN TfnMsg(st.n, env) ELSE <<>>)
     ELSE IF DepthOf(m.k) + 1 > env.depth THEN FailBare(m, "render")
     ELSE [m EXCEPT !.k = @ \o <<TplFrame(FALSE, st.n, T[q].s)>> \o frames \o <<SeqFrame(T[q].prog)>>]

Include(m, env) ==
  LET f == Top(m) IN Enter([m EXCEPT !.k[Len(m.k)].i = @ + 1], env, f.ss[f.i], <<>>)
IncludeWith(m, env) ==
  LET x == m.x IN Enter([m EXCEPT !.x = NoX], env, x.st, <<[f |-> "scope", v |-> x.v, own |-> x.own]>>)

SeqEnd(m) == Pop(m)
ScopeExit(m) == Pop(m)
TplExit(m) == LET m1 == Pop(m) IN IF m1.k = <<>> THEN [m1 EXCEPT !.res = Ok] ELSE m1

(***************************************************************************)
(* The one action enabled in a state.                                      *)
(***************************************************************************)
ActionOf(m) ==
  IF Failed(m) THEN "stop"
  ELSE IF m.x.use # "none" THEN
    LET e == ExprOf(m.x)  n == Len(e.fs) IN
    IF m.x.p < 0 THEN "evalbase"
    ELSE IF m.x.p < n THEN
      IF m.x.use = "emit" /\ m.x.p = n - 1 /\ e.fs[n].args = <<>> THEN "emitnamed" ELSE "apply"
    ELSE CASE m.x.use = "emit" -> "emit"
           [] m.x.use = "if"   -> "branch"
           [] m.x.use = "for"  -> "loopenter"
           [] m.x.use = "with" -> "withenter"
           [] m.x.use = "incw" -> "includewith"
  ELSE LET f == Top(m) IN
    CASE f.f = "seq"   -> IF f.i > Len(f.ss) THEN "seqend"
                          ELSE IF f.ss[f.i].o = "text" THEN "text"
                          ELSE IF f.ss[f.i].o = "inc" THEN "include"
                          ELSE "evalbase"
      [] f.f = "for"   -> IF f.i < Len(f.es) THEN "loopnext" ELSE "loopexit"
      [] f.f = "with"  -> "withexit"
      [] f.f = "scope" -> "scopeexit"
      [] f.f = "tpl"   -> "tplexit"

RenderStep(m, env) ==
  LET a == ActionOf(m) IN
  CASE a = "text"        -> ExecText(m, env)
    [] a = "evalbase"    -> EvalBase(m, env)
    [] a = "apply"       -> Apply(m, env)
    [] a = "emitnamed"   -> EmitNamed(m, env)
    [] a = "emit"        -> Emit(m, env)
    [] a = "branch"      -> Branch(m)
    [] a = "loopenter"   -> LoopEnter(m)
    [] a = "loopnext"    -> LoopNext(m)
    [] a = "loopexit"    -> LoopExit(m)
    [] a = "withenter"   -> WithEnter(m)
    [] a = "withexit"    -> WithExit(m)
    [] a = "include"     -> Include(m, env)
    [] a = "includewith" -> IncludeWith(m, env)
    [] a = "scopeexit"   -> ScopeExit(m)
    [] a = "tplexit"     -> TplExit(m)
    [] a = "seqend"      -> SeqEnd(m)

RECURSIVE RenderRun(_, _)
RenderRun(m, env) == IF Failed(m) THEN m ELSE RenderRun(RenderStep(m, env), env)
=============================================================================
