-------------------------------- MODULE Parse --------------------------------
(***************************************************************************)
(* The grammar of expressions and block tags over token sequences, and the *)
(* compile machine, which consumes a template one item (text run, comment, *)
(* expression tag, block tag) at a time while keeping the stack of open    *)
(* blocks.  Its result is a program (a statement tree) or the span of the  *)
(* first syntax error.                                                     *)
(***************************************************************************)
EXTENDS Lex

(***************************************************************************)
(* Parsers take (s, tk, p, ftab): source, tokens, position.  They return   *)
(* [ok |-> TRUE, p, ...] or Bad(i, j).  The last token ("end", "err",      *)
(* "eof") is never consumed, so tk[p] is always defined.                   *)
(***************************************************************************)
TokText(s, t) == SubSeq(s, t.i, t.j - 1)
Unexpected(t) == Bad(t.i, t.j)
IsKw(s, t, w) == t.t = "kw" /\ TokText(s, t) = w

IdxMax == 1000000000      \* indexes above this are equally out of bounds

RECURSIVE PathRest(_, _, _, _)
PathRest(s, tk, p, acc) ==
  IF tk[p].t \notin {".", "?."} THEN [ok |-> TRUE, p |-> p, path |-> acc]
  ELSE LET a == tk[p + 1] IN
       IF a.t = "id" THEN
         PathRest(s, tk, p + 2, Append(acc, [op |-> tk[p].t, a |-> "key", n |-> TokText(s, a), i |-> tk[p].i, j |-> a.j]))
       ELSE IF a.t = "idx" THEN
         LET d == TextDec(TokText(s, a)) IN
         IF ~DecLeq(d, U64Max) THEN Bad(a.i, a.j)
         ELSE PathRest(s, tk, p + 2,
                Append(acc, [op |-> tk[p].t, a |-> "idx", ix |-> IF Len(d) > 9 THEN IdxMax ELSE DecToInt(d),
                             n |-> DecText(d), i |-> tk[p].i, j |-> a.j]))
       ELSE Unexpected(a)

Lit(r, p, i, j) == IF r.ok THEN [ok |-> TRUE, p |-> p, b |-> [b |-> "lit", v |-> r.v, i |-> i, j |-> j]] ELSE r

BaseExpr(s, tk, p, ftab) ==
  LET t == tk[p] IN
  CASE t.t = "kw" -> IF TokText(s, t) = KwTrue THEN Lit([ok |-> TRUE, v |-> Bool(TRUE)], p + 1, t.i, t.j)
                     ELSE IF TokText(s, t) = KwFalse THEN Lit([ok |-> TRUE, v |-> Bool(FALSE)], p + 1, t.i, t.j)
                     ELSE Unexpected(t)
    [] t.t \in {"-", "+"} ->
         LET n == tk[p + 1] IN
         IF n.t # "num" THEN Unexpected(n)
         ELSE Lit(NumberLiteral(TokText(s, n), t.t = "-", n.i, t.i, n.j, ftab), p + 2, t.i, n.j)
    [] t.t = "num" -> Lit(NumberLiteral(TokText(s, t), FALSE, t.i, t.i, t.j, ftab), p + 1, t.i, t.j)
    [] t.t = "str" -> Lit(StringLiteral(s, t.i, t.j), p + 1, t.i, t.j)
    [] t.t = "id" ->
         LET r == PathRest(s, tk, p + 1, <<[op |-> ".", a |-> "key", n |-> TokText(s, t), i |-> t.i, j |-> t.j]>>) IN
         IF ~r.ok THEN r
         ELSE [ok |-> TRUE, p |-> r.p, b |-> [b |-> "var", path |-> r.path, i |-> t.i, j |-> r.path[Len(r.path)].j]]
    [] OTHER -> Unexpected(t)

RECURSIVE Args(_, _, _, _, _)
Args(s, tk, p, ftab, acc) ==
  LET r == BaseExpr(s, tk, p, ftab) IN
  IF ~r.ok THEN r
  ELSE IF tk[r.p].t = "," THEN Args(s, tk, r.p + 1, ftab, Append(acc, r.b))
  ELSE [ok |-> TRUE, p |-> r.p, args |-> Append(acc, r.b)]

(* Each pipeline element carries the span [i, j) of the expression up to
   and including it. *)
RECURSIVE Pipes(_, _, _, _, _, _)
Pipes(s, tk, p, ftab, i, acc) ==
  IF tk[p].t # "|" THEN [ok |-> TRUE, p |-> p, fs |-> acc]
  ELSE LET n == tk[p + 1] IN
       IF n.t # "id" THEN Unexpected(n)
       ELSE IF tk[p + 2].t # ":" THEN
         Pipes(s, tk, p + 2, ftab, i,
               Append(acc, [n |-> TokText(s, n), ni |-> n.i, nj |-> n.j, args |-> <<>>, i |-> i, j |-> n.j]))
       ELSE LET a == Args(s, tk, p + 3, ftab, <<>>) IN
            IF ~a.ok THEN a
            ELSE Pipes(s, tk, a.p, ftab, i,
                       Append(acc, [n |-> TokText(s, n), ni |-> n.i, nj |-> n.j, args |-> a.args,
                                    i |-> i, j |-> a.args[Len(a.args)].j]))

(* An expression: [b |-> base, fs |-> pipeline, i, j]. *)
ParseExpr(s, tk, p, ftab) ==
  LET r == BaseExpr(s, tk, p, ftab) IN
  IF ~r.ok THEN r
  ELSE LET q == Pipes(s, tk, r.p, ftab, r.b.i, <<>>) IN
       IF ~q.ok THEN q
       ELSE [ok |-> TRUE, p |-> q.p,
             e |-> [b |-> r.b, fs |-> q.fs, i |-> r.b.i, j |-> IF q.fs = <<>> THEN r.b.j ELSE q.fs[Len(q.fs)].j]]

ParseCond(s, tk, p, ftab) ==
  LET not == IsKw(s, tk[p], KwNot)
      r == ParseExpr(s, tk, IF not THEN p + 1 ELSE p, ftab)
  IN IF ~r.ok THEN r ELSE [ok |-> TRUE, p |-> r.p, not |-> not, e |-> r.e]

Simple(k, p) == [ok |-> TRUE, k |-> k, p |-> p]

(* A block tag, by its keyword: [ok, p, k, ...]. *)
ParseBlock(s, tk, ftab) ==
  LET t == tk[1] IN
  IF t.t # "kw" THEN Unexpected(t)
  ELSE LET w == TokText(s, t) IN
  CASE w = KwIf ->
         LET r == ParseCond(s, tk, 2, ftab) IN IF ~r.ok THEN r ELSE [ok |-> TRUE, k |-> "if", p |-> r.p, not |-> r.not, e |-> r.e]
    [] w = KwElse ->
         IF IsKw(s, tk[2], KwIf)
         THEN LET r == ParseCond(s, tk, 3, ftab) IN
              IF ~r.ok THEN r ELSE [ok |-> TRUE, k |-> "elif", p |-> r.p, not |-> r.not, e |-> r.e]
         ELSE Simple("else", 2)
    [] w = KwEndif -> Simple("endif", 2)
    [] w = KwFor ->
         IF tk[2].t # "id" THEN Unexpected(tk[2])
         ELSE LET two == tk[3].t = "," IN
              IF two /\ tk[4].t # "id" THEN Unexpected(tk[4])
              ELSE LET p == IF two THEN 5 ELSE 3 IN
                   IF ~IsKw(s, tk[p], KwIn) THEN Unexpected(tk[p])
                   ELSE LET r == ParseExpr(s, tk, p + 1, ftab) IN
                        IF ~r.ok THEN r
                        ELSE [ok |-> TRUE, k |-> "for", p |-> r.p, e |-> r.e,
                              vars |-> IF two THEN <<TokText(s, tk[2]), TokText(s, tk[4])>> ELSE <<TokText(s, tk[2])>>,
                              vi |-> tk[2].i, vj |-> IF two THEN tk[4].j ELSE tk[2].j]
    [] w = KwEndfor -> Simple("endfor", 2)
    [] w = KwWith ->
         LET r == ParseExpr(s, tk, 2, ftab) IN
         IF ~r.ok THEN r
         ELSE IF ~IsKw(s, tk[r.p], KwAs) THEN Unexpected(tk[r.p])
         ELSE IF tk[r.p + 1].t # "id" THEN Unexpected(tk[r.p + 1])
         ELSE [ok |-> TRUE, k |-> "with", p |-> r.p + 2, e |-> r.e, n |-> TokText(s, tk[r.p + 1])]
    [] w = KwEndwith -> Simple("endwith", 2)
    [] w = KwInclude ->
         IF tk[2].t # "str" THEN Unexpected(tk[2])
         ELSE LET n == StringLiteral(s, tk[2].i, tk[2].j) IN
              IF ~n.ok THEN n
              ELSE IF ~IsKw(s, tk[3], KwWith)
              THEN [ok |-> TRUE, k |-> "inc", p |-> 3, n |-> n.v.s, i |-> tk[2].i, j |-> tk[2].j]
              ELSE LET r == ParseExpr(s, tk, 4, ftab) IN
                   IF ~r.ok THEN r
                   ELSE [ok |-> TRUE, k |-> "incw", p |-> r.p, n |-> n.v.s, i |-> tk[2].i, j |-> tk[2].j, e |-> r.e]
    [] OTHER -> Unexpected(t)

(***************************************************************************)
(* The compile machine.                                                    *)
(*                                                                         *)
(* State: [s, d, ftab]  the input;                                          *)
(*        i      the scan position;                                        *)
(*        trim   whether the preceding tag's end delimiter asks to trim;   *)
(*        fr     the stack of open blocks; fr[1] is the template itself;   *)
(*        res    "" while running, then "ok" or "err";                     *)
(*        prog   the program once res = "ok";                              *)
(*        ei, ej the span of the error once res = "err".                   *)
(*                                                                         *)
(* An open block is [k, acc, i, j, ...]: acc collects the statements of    *)
(* the block's current body, i..j is the span of its opening tag.          *)
(***************************************************************************)
RootFrame == [k |-> "root", acc |-> <<>>, i |-> 0, j |-> 0]

CompileInit(syn, s, ftab) ==
  [s |-> s, d |-> Delims(syn, s), ftab |-> ftab, i |-> 1, trim |-> FALSE, fr |-> <<RootFrame>>, res |-> "",
   prog |-> <<>>, ei |-> 0, ej |-> 0]

CFail(c, i, j) == [c EXCEPT !.res = "err", !.ei = i, !.ej = j]
CTop(c) == c.fr[Len(c.fr)]
CAdd(c, stmt) == [c EXCEPT !.fr[Len(c.fr)].acc = Append(@, stmt)]
CPush(c, f) == [c EXCEPT !.fr = Append(@, f)]
CPop(c) == [c EXCEPT !.fr = SubSeq(@, 1, Len(@) - 1)]
CResume(c, i, trim) == [c EXCEPT !.i = i, !.trim = trim]

(* Close the current arm of an open if. *)
ClosedArms(f) == Append(f.arms, [not |-> f.not, e |-> f.e, body |-> f.acc])

(* What a well-formed block tag b spanning i..j does to the open blocks. *)
ApplyBlock(c, b, i, j) ==
  LET f == CTop(c) IN
  CASE b.k = "if"     -> CPush(c, [k |-> "if", acc |-> <<>>, i |-> i, j |-> j, arms |-> <<>>, not |-> b.not, e |-> b.e, els |-> FALSE])
    [] b.k = "elif"   -> IF f.k = "if" /\ ~f.els
                         THEN [c EXCEPT !.fr[Len(c.fr)] = [f EXCEPT !.arms = ClosedArms(f), !.acc = <<>>, !.not = b.not, !.e = b.e]]
                         ELSE CFail(c, i, j)
    [] b.k = "else"   -> IF f.k = "if" /\ ~f.els
                         THEN [c EXCEPT !.fr[Len(c.fr)] = [f EXCEPT !.arms = ClosedArms(f), !.acc = <<>>, !.els = TRUE]]
                         ELSE CFail(c, i, j)
    [] b.k = "endif"  -> IF f.k = "if"
                         THEN CAdd(CPop(c), IF f.els THEN [o |-> "if", arms |-> f.arms, els |-> f.acc]
                                            ELSE [o |-> "if", arms |-> ClosedArms(f), els |-> <<>>])
                         ELSE CFail(c, i, j)
    [] b.k = "for"    -> CPush(c, [k |-> "for", acc |-> <<>>, i |-> i, j |-> j, e |-> b.e, vars |-> b.vars, vi |-> b.vi, vj |-> b.vj])
    [] b.k = "endfor" -> IF f.k = "for"
                         THEN CAdd(CPop(c), [o |-> "for", e |-> f.e, vars |-> f.vars, vi |-> f.vi, vj |-> f.vj, body |-> f.acc])
                         ELSE CFail(c, i, j)
    [] b.k = "with"   -> CPush(c, [k |-> "with", acc |-> <<>>, i |-> i, j |-> j, e |-> b.e, n |-> b.n])
    [] b.k = "endwith" -> IF f.k = "with"
                          THEN CAdd(CPop(c), [o |-> "with", e |-> f.e, n |-> f.n, body |-> f.acc])
                          ELSE CFail(c, i, j)
    [] b.k = "inc"    -> CAdd(c, [o |-> "inc", n |-> b.n, i |-> b.i, j |-> b.j])
    [] b.k = "incw"   -> CAdd(c, [o |-> "incw", n |-> b.n, i |-> b.i, j |-> b.j, e |-> b.e])

(* One item: the text run from c.i up to the next delimiter (if not empty)
   together with the tag that follows it. *)
CompileEnd(c) ==
  LET c1 == IF c.i > Len(c.s) THEN c ELSE CAdd(c, [o |-> "text", s |-> TrimRun(c.s, c.i, Len(c.s), c.trim, FALSE)]) IN
  IF Len(c1.fr) > 1 THEN CFail(c1, c1.fr[2].i, c1.fr[2].j)
  ELSE [c1 EXCEPT !.res = "ok", !.prog = c1.fr[1].acc, !.i = Len(c.s) + 1]

CompileComment(c, j) ==     \* j: just after the begin delimiter at c.i
  LET g == FindAt(c.d, c.s, j) IN
  IF g[2] = 0 THEN CFail(c, Len(c.s) + 1, Len(c.s) + 1)
  ELSE LET p == c.d.pats[g[2]] IN
       IF p.side = "b" THEN CFail(c, c.i, j)
       ELSE IF p.tag # "comment" THEN CFail(c, g[1], g[1] + Len(p.text))
       ELSE CResume(c, g[1] + Len(p.text), p.trim)

CompileTag(c, tag, j) ==
  LET tk == TagTokens(c.d, c.s, j, tag, c.i, j)
      r == IF tag = "expr" THEN ParseExpr(c.s, tk, 1, c.ftab) ELSE ParseBlock(c.s, tk, c.ftab)
  IN IF ~r.ok THEN CFail(c, r.i, r.j)
     ELSE LET t == tk[r.p] IN
     IF t.t # "end" THEN CFail(c, t.i, t.j)
     ELSE LET c1 == IF tag = "expr" THEN CAdd(c, [o |-> "emit", e |-> r.e]) ELSE ApplyBlock(c, r, c.i, t.j)
          IN IF c1.res = "" THEN CResume(c1, t.j, t.trim) ELSE c1

CompileStep(c) ==
  LET g == FindAt(c.d, c.s, c.i) IN
  IF g[2] = 0 THEN CompileEnd(c)
  ELSE LET p == c.d.pats[g[2]]
           j == g[1] + Len(p.text)
       IN IF p.side = "e" THEN CFail(c, g[1], j)
          ELSE IF g[1] > c.i THEN     \* text run first
            [CAdd(c, [o |-> "text", s |-> TrimRun(c.s, c.i, g[1] - 1, c.trim, p.trim)]) EXCEPT !.i = g[1], !.trim = FALSE]
          ELSE IF p.tag = "comment" THEN CompileComment([c EXCEPT !.trim = FALSE], j)
          ELSE CompileTag([c EXCEPT !.trim = FALSE], p.tag, j)

RECURSIVE CompileRun(_)
CompileRun(c) == IF c.res # "" THEN c ELSE CompileRun(CompileStep(c))
Compile(syn, s, ftab) == CompileRun(CompileInit(syn, s, ftab))
=============================================================================
