------------------------------- MODULE Meaning -------------------------------
(***************************************************************************)
(* The meaning of a program given directly, by recursion over its          *)
(* statements (big-step), independently of the machine of module Render.   *)
(* TLC checks that the two agree (MCProgram).                              *)
(*                                                                         *)
(* g   where a statement is executed: [b, anon, n, s, depth]               *)
(*       b      bindings in scope, innermost last: [n, v, own], and        *)
(*              boundaries [n |-> <<>>, v, own], beyond which only the     *)
(*              entries of v are visible (the root context is not in b)    *)
(*       anon, n, s   the template;   depth   templates active             *)
(* w   what has happened: [out, calls, res]                                *)
(*                                                                         *)
(* Only what differs from the machine is restated; calls into user code    *)
(* and writes are those of Library.                                        *)
(***************************************************************************)
EXTENDS Render

Alive(w) == w.res.r = "run"
Say(w, c) == [w EXCEPT !.calls = Append(@, c)]
Error(w, g, kind, located, i, j, hasmsg, msg) ==
  [w EXCEPT !.res = IF located
     THEN [r |-> "err", kind |-> kind, loc |-> TRUE, anon |-> g.anon, n |-> g.n, s |-> g.s, i |-> i, j |-> j, hasmsg |-> hasmsg, msg |-> msg]
     ELSE [r |-> "err", kind |-> kind, loc |-> FALSE, anon |-> TRUE, n |-> <<>>, s |-> <<>>, i |-> 0, j |-> 0, hasmsg |-> hasmsg, msg |-> msg]]
Wrong(w, g, i, j) == Error(w, g, "render", TRUE, i, j, FALSE, <<>>)

Put(w, g, env, text) ==
  LET b == Utf8(text)
      room == IF env.lim < 0 THEN Len(b) ELSE env.lim - Len(w.out)
  IN IF Len(b) <= room THEN [w EXCEPT !.out = @ \o b]
     ELSE Error([w EXCEPT !.out = @ \o SubSeq(b, 1, room)], g, "io", FALSE, 0, 0, FALSE, <<>>)

(***************************************************************************)
(* Values of paths: [w, ok, v, own].                                       *)
(***************************************************************************)
Got(w, v, own) == [w |-> w, ok |-> TRUE, v |-> v, own |-> own]
Lost(w) == [w |-> w, ok |-> FALSE, v |-> None, own |-> FALSE]

RECURSIVE Members(_, _, _, _, _, _)
Members(w, g, v, own, path, q) ==
  IF q > Len(path) THEN Got(w, v, own)
  ELSE LET p == path[q]
           key == v.t = "map" /\ p.a = "key"
           idx == v.t = "list" /\ p.a = "idx"
           has == IF key THEN \E e \in Range(v.m) : e.k = p.n ELSE IF idx THEN p.ix < Len(v.l) ELSE FALSE
       IN IF has /\ key THEN Members(w, g, (CHOOSE e \in Range(v.m) : e.k = p.n).v, own, path, q + 1)
          ELSE IF has THEN Members(w, g, v.l[p.ix + 1], own, path, q + 1)
          ELSE IF (key \/ idx) /\ p.op = "?." THEN Got(w, None, FALSE)
          ELSE Lost(Wrong(w, g, p.i, p.j))

Path(w, g, env, b) ==
  LET name == b.path[1].n
      hits == {q \in 1..Len(g.b) : g.b[q].n = <<>> \/ g.b[q].n = name}
  IN IF hits # {} THEN
       LET h == g.b[CHOOSE q \in hits : \A o \in hits : o <= q] IN
       IF h.n # <<>> THEN Members(w, g, h.v, h.own, b.path, 2)
       ELSE IF h.v.t # "map" THEN Lost(Wrong(w, g, b.path[1].i, b.path[1].j))
       ELSE Members(w, g, h.v, h.own, b.path, 1)
     ELSE IF env.vfn THEN
       LET w1 == Say(w, [c |-> "vfn", path |-> PathEvent(b.path)])
           m == Members(w1, g, env.ctx, TRUE, b.path, 1)
       IN IF m.ok THEN [m EXCEPT !.own = TRUE]
          ELSE Lost(Error(w1, g, "render", TRUE, b.i, b.j, TRUE, VfnMsg(b.path, env)))
     ELSE IF env.ctx.t # "map" THEN Lost(Wrong(w, g, b.path[1].i, b.path[1].j))
     ELSE Members(w, g, env.ctx, FALSE, b.path, 1)

(***************************************************************************)
(* Expressions.                                                            *)
(***************************************************************************)
RECURSIVE Arguments(_, _, _, _, _, _, _)
Arguments(w, g, env, fn, f, q, acc) ==
  IF q > Len(f.args) THEN [w |-> w, a |-> acc]
  ELSE LET b == f.args[q]
           r == IF b.b = "lit" THEN Got(w, b.v, FALSE) ELSE Path(w, g, env, b)
           ty == fn.ps[q + 1]
       IN IF ~r.ok THEN [w |-> r.w, a |-> acc]
          ELSE IF ~TypeOk(ty, r.v) \/ (ty \in RefTypes /\ r.own) THEN [w |-> Wrong(r.w, g, b.i, b.j), a |-> acc]
          ELSE Arguments(r.w, g, env, fn, f, q + 1, Append(acc, ParamValue(ty, r.v, env.f32)))

Fn(env, n) == {f \in Range(env.fns) : f.n = n}

OneFilter(r, g, env, f) ==      \* r: the value so far
  LET F == Fn(env, f.n) IN
  IF F = {} THEN Lost(Wrong(r.w, g, f.ni, f.nj))
  ELSE LET fn == CHOOSE x \in F : TRUE IN
  IF fn.k = "fmt" \/ Len(fn.ps) # Len(f.args) + 1 THEN Lost(Wrong(r.w, g, f.ni, f.nj))
  ELSE IF ~TypeOk(fn.ps[1], r.v) THEN Lost(Wrong(r.w, g, f.ni, f.nj))
  ELSE LET a == Arguments(r.w, g, env, fn, f, 1, <<ParamValue(fn.ps[1], r.v, env.f32)>>) IN
  IF ~Alive(a.w) THEN Lost(a.w)
  ELSE LET w1 == Say(a.w, [c |-> "flt", n |-> fn.tag, args |-> a.a])
           y == FilterBody(fn, a.a)
       IN IF y.ok THEN Got(w1, y.v, TRUE) ELSE Lost(Error(w1, g, "filter", TRUE, f.ni, f.nj, TRUE, y.msg))

RECURSIVE Filters(_, _, _, _, _)
Filters(r, g, env, fs, q) ==
  IF ~r.ok \/ q > Len(fs) THEN r ELSE Filters(OneFilter(r, g, env, fs[q]), g, env, fs, q + 1)

Base(w, g, env, e) == IF e.b.b = "lit" THEN Got(w, e.b.v, TRUE) ELSE Path(w, g, env, e.b)
Value(w, g, env, e) == Filters(Base(w, g, env, e), g, env, e.fs, 1)

(***************************************************************************)
(* Statements.                                                             *)
(***************************************************************************)
Through(r, g, env, fn, builtin, i, j) ==
  LET w1 == IF builtin THEN r.w ELSE Say(r.w, [c |-> "fmt", n |-> fn.tag, v |-> r.v])
      y == FormatBody(fn, r.v)
      w2 == Put(w1, g, env, y.w)
  IN IF ~Alive(w2) \/ y.ok THEN w2
     ELSE IF y.hasmsg THEN Error(w2, g, "format", TRUE, i, j, ~builtin /\ y.msg # <<>>, y.msg)
     ELSE Error(w2, g, "format", FALSE, 0, 0, FALSE, <<>>)

EmitM(w, g, env, e) ==
  LET k == Len(e.fs)
      F == IF k = 0 THEN {} ELSE Fn(env, e.fs[k].n)
      formatted == k > 0 /\ e.fs[k].args = <<>> /\ F # {} /\ (CHOOSE x \in F : TRUE).k = "fmt"
      r == IF formatted THEN Filters(Base(w, g, env, e), g, env, SubSeq(e.fs, 1, k - 1), 1) ELSE Value(w, g, env, e)
  IN IF ~r.ok THEN r.w
     ELSE IF formatted THEN Through(r, g, env, CHOOSE x \in F : TRUE, FALSE, e.fs[k].ni, e.fs[k].nj)
     ELSE Through(r, g, env, env.dfmt, env.dfmt.builtin, e.i, e.j)

Bind(g, n, v, own) == [g EXCEPT !.b = Append(@, [n |-> n, v |-> v, own |-> own])]

RECURSIVE Statements(_, _, _, _, _)
RECURSIVE Arms(_, _, _, _, _)
RECURSIVE Rounds(_, _, _, _, _, _, _)

Arms(w, g, env, st, q) ==
  IF q > Len(st.arms) THEN Statements(w, g, env, st.els, 1)
  ELSE LET r == Value(w, g, env, st.arms[q].e) IN
       IF ~r.ok THEN r.w
       ELSE IF Truthy(r.v) = ~st.arms[q].not THEN Statements(r.w, g, env, st.arms[q].body, 1)
       ELSE Arms(r.w, g, env, st, q + 1)

Rounds(w, g, env, st, es, own, q) ==
  IF ~Alive(w) \/ q > Len(es) THEN w
  ELSE LET loop == MapFrom(<< [k |-> IndexT, v |-> IntN(q - 1)], [k |-> FirstT, v |-> Bool(q = 1)], [k |-> LastT, v |-> Bool(q = Len(es))] >>)
           g1 == IF Len(st.vars) = 1 THEN Bind(g, st.vars[1], es[q].v, own)
                 ELSE Bind(Bind(g, st.vars[2], es[q].v, own), st.vars[1], StrV(es[q].k), TRUE)
       IN Rounds(Statements(w, Bind(g1, LoopT, loop, TRUE), env, st.body, 1), g, env, st, es, own, q + 1)

Included(w0, g, env, st, b) ==      \* b: the bindings the included template starts with
  LET w == IF env.tfn.on THEN Say(w0, [c |-> "tfn", n |-> st.n]) ELSE w0
      T == {t \in Range(IF env.tfn.on THEN env.tfn.m ELSE env.store) : t.n = st.n}
  IN IF T = {} THEN Error(w, g, "render", TRUE, st.i, st.j, env.tfn.on, IF env.tfn.on THEN TfnMsg(st.n, env) ELSE <<>>)
     ELSE IF g.depth >= env.depth THEN Error(w, g, "render", FALSE, 0, 0, FALSE, <<>>)
     ELSE LET t == CHOOSE x \in T : TRUE IN
          Statements(w, [b |-> b, anon |-> FALSE, n |-> st.n, s |-> t.s, depth |-> g.depth + 1], env, t.prog, 1)

Statement(w, g, env, st) ==
  CASE st.o = "text" -> Put(w, g, env, st.s)
    [] st.o = "emit" -> EmitM(w, g, env, st.e)
    [] st.o = "if" -> Arms(w, g, env, st, 1)
    [] st.o = "for" ->
         LET r == Value(w, g, env, st.e) IN
         IF ~r.ok THEN r.w
         ELSE IF r.v.t = "list" THEN
           IF Len(st.vars) = 1 THEN Rounds(r.w, g, env, st, [q \in 1..Len(r.v.l) |-> [v |-> r.v.l[q]]], r.own, 1)
           ELSE Wrong(r.w, g, st.vi, st.vj)
         ELSE IF r.v.t = "map" THEN
           IF Len(st.vars) = 2 THEN Rounds(r.w, g, env, st, r.v.m, r.own, 1) ELSE Wrong(r.w, g, st.vi, st.vj)
         ELSE Wrong(r.w, g, st.e.i, st.e.j)
    [] st.o = "with" ->
         LET r == Value(w, g, env, st.e) IN
         IF ~r.ok THEN r.w ELSE Statements(r.w, Bind(g, st.n, r.v, r.own), env, st.body, 1)
    [] st.o = "inc" -> Included(w, g, env, st, g.b)
    [] st.o = "incw" ->
         LET r == Value(w, g, env, st.e) IN
         IF ~r.ok THEN r.w ELSE Included(r.w, g, env, st, <<[n |-> <<>>, v |-> r.v, own |-> r.own]>>)

Statements(w, g, env, ss, q) ==
  IF ~Alive(w) \/ q > Len(ss) THEN w ELSE Statements(Statement(w, g, env, ss[q]), g, env, ss, q + 1)

MeaningOf(anon, n, s, prog, env) ==
  LET w == Statements([out |-> <<>>, calls |-> <<>>, res |-> Running],
                      [b |-> <<>>, anon |-> anon, n |-> n, s |-> s, depth |-> 1], env, prog, 1)
  IN IF Alive(w) THEN [w EXCEPT !.res = Ok] ELSE w
=============================================================================
