------------------------------ MODULE MCProgram ------------------------------
(***************************************************************************)
(* Every template that can be written with up to `maxlen` pieces of a      *)
(* vocabulary (pieces of text and tags), compiled and rendered under every *)
(* combination of contexts, sources, writer limits and include depths of   *)
(* a configuration.  Checked for each of them:                             *)
(*   - shape of the control stack, bounds of loops and includes, and that  *)
(*     output and calls only grow, in every step (Sound, Monotone)         *)
(*   - the machine of module Render agrees with the meaning of the program *)
(*     given directly by module Meaning (Agrees)                           *)
(*   - a program's text is accepted exactly if its tags are balanced       *)
(*     (Balanced), by counting, independently of the compile machine       *)
(* Every behaviour is printed with its result and replayed into the        *)
(* implementation.                                                         *)
(***************************************************************************)
EXTENDS Meaning, Location, Json, IOUtils, TLC

M == JsonDeserialize(IOEnv.MODEL)

Word(ws) == Flat([q \in 1..Len(ws) |-> M.vocab[ws[q]].s])

(* The library of templates. *)
Lib == TLCEval([q \in 1..Len(M.tpls) |-> [n |-> M.tpls[q].n, s |-> M.tpls[q].s, prog |-> Compile(M.syn, M.tpls[q].s, M.ftab).prog]])

Envs == TLCEval([q \in 1..Len(M.envs) |->
  [store |-> Lib, fns |-> M.fns, dfmt |-> M.dfmt, ctx |-> M.envs[q].ctx, vfn |-> M.envs[q].src = "fn",
   depth |-> IF M.envs[q].rdepth # -1 THEN MaxDepth(M.envs[q].rdepth) ELSE 64,
   tfn |-> [on |-> M.envs[q].tfn, m |-> IF M.envs[q].tfn THEN Lib ELSE <<>>], lim |-> M.envs[q].lim, f32 |-> <<>>, sfx |-> <<>>]])

VARIABLES ws, c, e, m
vars == <<ws, c, e, m>>
(* ws  the pieces so far;   c  the compiled result of Word(ws)
   e   0 while writing, else the configuration rendered under;   m  the machine *)

NoM == [res |-> [r |-> "none"], out |-> <<>>, calls |-> <<>>, k |-> <<>>, x |-> NoX]

(* The only thing wrong with a template is that blocks are still open. *)
Unclosed(x) == x.res = "err" /\ Len(x.fr) > 1 /\ FindAt(x.d, x.s, x.i)[2] = 0

Init == ws = <<>> /\ c = Compile(M.syn, <<>>, <<>>) /\ e = 0 /\ m = NoM

(* Without errors only pieces are added that still allow to close all blocks. *)
Opens == {"if", "for", "with"}
Closes == {"endif", "endfor", "endwith"}
Room(k) ==
  LET open == Len(c.fr) - 1
      after == IF M.vocab[k].k \in Opens THEN open + 1 ELSE IF M.vocab[k].k \in Closes THEN open - 1 ELSE open
  IN after <= M.maxlen - Len(ws) - 1

Write1(k) ==
  /\ e = 0 /\ Len(ws) < M.maxlen /\ (c.res = "ok" \/ Unclosed(c))
  /\ M.errors \/ Room(k)
  /\ ws' = Append(ws, k)
  /\ \E x \in {Compile(M.syn, Word(Append(ws, k)), M.ftab)} : c' = x
  /\ (c'.res = "err" /\ M.errors) => PrintT(ToJson([w |-> ws', e |-> 0, out |-> <<>>, calls |-> <<>>,
                                        res |-> [r |-> "err", kind |-> "syntax", hasmsg |-> FALSE, loc |-> TRUE, at |-> Loc(c'.s, c'.ei, c'.ej)]]))
  /\ UNCHANGED <<e, m>>

Start(q) ==
  /\ e = 0 /\ c.res = "ok" /\ Len(ws) >= M.minlen
  /\ e' = q /\ m' = RenderInit(TRUE, <<>>, c.s, c.prog) /\ UNCHANGED <<ws, c>>

Run ==
  /\ e > 0 /\ ~Failed(m)
  /\ m' = RenderStep(m, Envs[e])
  /\ Failed(m') => PrintT(ToJson([w |-> ws, e |-> e, out |-> m'.out, calls |-> m'.calls,
                     res |-> IF m'.res.r = "ok" THEN m'.res
                             ELSE [r |-> "err", kind |-> m'.res.kind, hasmsg |-> m'.res.hasmsg, msg |-> m'.res.msg, loc |-> m'.res.loc,
                                   at |-> IF m'.res.loc THEN Loc(m'.res.s, m'.res.i, m'.res.j) ELSE <<>>, anon |-> m'.res.anon, n |-> m'.res.n]]))
  /\ UNCHANGED <<ws, c, e>>

Next == \/ \E k \in 1..Len(M.vocab) : Write1(k)
        \/ \E q \in 1..Len(M.envs) : Start(q)
        \/ Run
Spec == Init /\ [][Next]_vars
View == <<ws, e, Len(m.k), m>>

(***************************************************************************)
(* Invariants.                                                             *)
(***************************************************************************)
Max1(d) == IF d < 1 THEN 1 ELSE d
FrameOk(k, q) ==
  LET f == k[q] IN
  CASE f.f = "seq"   -> f.i \in 1..(Len(f.ss) + 1)
    [] f.f = "for"   -> f.i \in 0..Len(f.es) /\ Len(f.vars) \in 1..2 /\ (q < Len(k) => f.i >= 1)
    [] f.f = "scope" -> q > 1 /\ k[q - 1].f = "tpl"
    [] f.f = "with"  -> q > 1 /\ k[q - 1].f = "seq"
    [] f.f = "tpl"   -> q = 1 \/ k[q - 1].f = "seq"
Sound ==
  e > 0 =>
    /\ \A q \in 1..Len(m.k) : FrameOk(m.k, q)
    /\ DepthOf(m.k) <= Max1(Envs[e].depth)
    /\ Envs[e].lim >= 0 => Len(m.out) <= Envs[e].lim
    /\ m.res.r = "ok" => m.k = <<>> /\ m.x.use = "none"
    /\ m.res.r = "run" => m.k # <<>> /\ m.k[1].f = "tpl"

Agrees ==
  (e > 0 /\ Failed(m)) =>
     LET y == MeaningOf(TRUE, <<>>, c.s, c.prog, Envs[e]) IN y.out = m.out /\ y.calls = m.calls /\ y.res = m.res

(* (steps of the same render) *)
Monotone == [][(e > 0 /\ e' = e) => IsPrefixOf(m.out, m'.out) /\ IsPrefixOf(m.calls, m'.calls)]_vars

(* Balance, by the kinds of the pieces: a stack of open blocks.  M.vocab[k].k
   is "" for pieces that neither open nor close anything. *)
RECURSIVE Open(_, _, _)
Open(w, q, st) ==       \* <<"?">> for unbalanced
  IF q > Len(w) THEN st
  ELSE LET k == M.vocab[w[q]].k
           top == IF st = <<>> THEN "" ELSE st[Len(st)]
           rest == SubSeq(st, 1, Len(st) - 1)
           Bad1 == <<"?">>
       IN CASE k \in {"if", "for", "with"} -> Open(w, q + 1, Append(st, k))
            [] k = "elif"    -> IF top = "if" THEN Open(w, q + 1, st) ELSE Bad1
            [] k = "else"    -> IF top = "if" THEN Open(w, q + 1, Append(rest, "else")) ELSE Bad1
            [] k = "endif"   -> IF top \in {"if", "else"} THEN Open(w, q + 1, rest) ELSE Bad1
            [] k = "endfor"  -> IF top = "for" THEN Open(w, q + 1, rest) ELSE Bad1
            [] k = "endwith" -> IF top = "with" THEN Open(w, q + 1, rest) ELSE Bad1
            [] OTHER         -> Open(w, q + 1, st)
Balanced == e = 0 => ((c.res = "ok") = (Open(ws, 1, <<>>) = <<>>))
=============================================================================
