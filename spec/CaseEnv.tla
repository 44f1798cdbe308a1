------------------------------- MODULE CaseEnv -------------------------------
(***************************************************************************)
(* The environment of a render request q of case c, whose templates have   *)
(* been compiled to d (a sequence of [res, prog]).                         *)
(***************************************************************************)
EXTENDS Render

WithRole(c, d, role) ==
  SelectSeq([q \in 1..Len(d) |-> [n |-> c.tpls[q].n, s |-> c.tpls[q].s, prog |-> d[q].prog,
                                  ok |-> d[q].res = "ok", role |-> c.tpls[q].role]],
            LAMBDA t : t.ok /\ t.role = role)

EnvOf(c, q, d) ==
  [store |-> WithRole(c, d, "reg"), fns |-> c.fns, dfmt |-> c.dfmt, ctx |-> q.ctx, vfn |-> q.src = "fn",
   depth |-> IF q.rdepth # -1 THEN MaxDepth(q.rdepth) ELSE IF c.depth # -1 THEN MaxDepth(c.depth) ELSE 64,
   tfn |-> [on |-> q.tfn, m |-> IF q.tfn THEN WithRole(c, d, "tfn") ELSE <<>>],
   lim |-> q.lim, f32 |-> c.f32, sfx |-> IF "sfx" \in DOMAIN c THEN c.sfx ELSE <<>>]

StartOf(c, q, d) ==
  LET t == c.tpls[q.main] IN RenderInit(t.role # "reg", t.n, t.s, d[q.main].prog)
=============================================================================
