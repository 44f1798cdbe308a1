-------------------------------- MODULE MCText --------------------------------
(***************************************************************************)
(* Every text that can be written with up to `maxlen` pieces (characters,  *)
(* tokens, delimiters) of an alphabet, under every configuration of a      *)
(* list: a syntax, a spelling of the pieces in that syntax, and a prefix   *)
(* and suffix the text is put between.  Each is compiled and, if accepted, *)
(* rendered.  Checked against statements that are independent of the       *)
(* compile machine:                                                        *)
(*   InSpan     an error lies in the text                                  *)
(*   Segmented  the accepted text is a sequence of text runs, without any  *)
(*              delimiter, and tags, which start with the longest begin    *)
(*              delimiter there and end with the end delimiter of the same *)
(*              kind; the program contains exactly the characters of the   *)
(*              runs that are not trimmed, by a rule per character         *)
(*   Renamed    configurations that rename each other's delimiters give    *)
(*              the same result wherever the text does not collide with    *)
(*              them                                                       *)
(*   Derived    what is accepted between the delimiters is what a grammar  *)
(*              (productions over spans of pieces) derives                 *)
(*   Residues   an integer literal has the residues modulo five primes     *)
(*              that its digits have, and 64 signed bits suffice           *)
(* Every result is printed and replayed into the implementation.           *)
(***************************************************************************)
EXTENDS Meaning, Location, Json, IOUtils, TLC

M == JsonDeserialize(IOEnv.MODEL)
Confs == 1..Len(M.confs)
Conf(q) == M.confs[q]
Body(q, x) == Flat([k \in 1..Len(x) |-> Conf(q).pieces[x[k]]])
Whole(q, x) == Conf(q).pre \o Body(q, x) \o Conf(q).post

Lib == TLCEval([q \in Confs |-> TLCEval([k \in 1..Len(M.tpls) |->
         [n |-> M.tpls[k].n, s |-> M.tpls[k].s, prog |-> Compile(Conf(q).syn, M.tpls[k].s, M.ftab).prog]])])
EnvFor(q) == [store |-> Lib[q], fns |-> M.fns, dfmt |-> M.dfmt, ctx |-> M.ctx, vfn |-> FALSE, depth |-> 8,
              tfn |-> [on |-> FALSE, m |-> <<>>], lim |-> -1, f32 |-> <<>>, sfx |-> <<>>]

Result(q, x) ==
  LET s == Whole(q, x)
      c == Compile(Conf(q).syn, s, M.ftab)
  IN IF c.res = "err" THEN [ok |-> FALSE, s |-> s, i |-> c.ei, j |-> c.ej]
     ELSE LET y == MeaningOf(TRUE, <<>>, s, c.prog, EnvFor(q))
          IN [ok |-> TRUE, s |-> s, prog |-> c.prog, out |-> y.out, calls |-> y.calls, res |-> y.res]

VARIABLES w, r, lv
vars == <<w, r, lv>>
(* w   the pieces;   r  the result under each configuration
   lv  the length of the longest prefix of w that is, in some configuration,
       accepted or wrong only in what follows it; longer words are explored
       up to M.slack pieces beyond it *)
Viable(x, y) == \E q \in Confs : y[q].ok \/ y[q].i > Len(Conf(q).pre) + Len(Body(q, x))

Shown(x, q, y) ==
  ToJson([w |-> x, q |-> q, out |-> IF y.ok THEN y.out ELSE <<>>, calls |-> IF y.ok THEN y.calls ELSE <<>>,
          res |-> IF ~y.ok THEN [r |-> "err", kind |-> "syntax", hasmsg |-> FALSE, loc |-> TRUE, at |-> IF M.locs THEN Loc(y.s, y.i, y.j) ELSE <<>>]
                  ELSE IF y.res.r = "ok" THEN y.res
                  ELSE [r |-> "err", kind |-> y.res.kind, hasmsg |-> y.res.hasmsg, msg |-> y.res.msg, loc |-> y.res.loc, anon |-> TRUE, n |-> <<>>,
                        at |-> IF M.locs /\ y.res.loc THEN Loc(y.res.s, y.res.i, y.res.j) ELSE <<>>]])

Init == w = <<>> /\ lv = 0 /\ r = TLCEval([q \in Confs |-> Result(q, <<>>)])
Next == /\ Len(w) < M.maxlen /\ Len(w) - lv <= M.slack
        /\ \E k \in 1..Len(M.kinds) :
             /\ w' = Append(w, k)
             /\ r' = TLCEval([q \in Confs |-> Result(q, Append(w, k))])
             /\ lv' = IF lv = Len(w) /\ Viable(w', r') THEN Len(w') ELSE lv
             /\ Len(w') >= M.minlen => \A q \in Confs : PrintT(Shown(w', q, r'[q]))
Spec == Init /\ [][Next]_vars
View == w

---------------------------------------------------------------------------
InSpan == \A q \in Confs : ~r[q].ok => r[q].i \in 1..(Len(r[q].s) + 1) /\ r[q].j \in r[q].i..(Len(r[q].s) + 1)

---------------------------------------------------------------------------
(* Segmentation.  The spans the machine consumed: *)
RECURSIVE Spans(_, _)
Spans(c, acc) ==
  IF c.res # "" THEN acc
  ELSE LET d == CompileStep(c) IN
       Spans(d, IF d.i > c.i THEN Append(acc, [i |-> c.i, j |-> d.i]) ELSE acc)

Pats == TLCEval([q \in Confs |-> PatsOf(Conf(q).syn)])
Occurs(n, s, p) == {k \in 1..Len(Pats[n]) : MatchesAt(Pats[n][k].text, s, p)}
PatLen(n, k) == Len(Pats[n][k].text)
BeginOf(n, s, i) == {k \in Occurs(n, s, i) : \A h \in Occurs(n, s, i) : PatLen(n, h) <= PatLen(n, k)}

IsRun(n, s, x) ==
  /\ \A p \in x.i..(x.j - 1) : Occurs(n, s, p) = {}
  /\ x.j = Len(s) + 1 \/ Occurs(n, s, x.j) # {}
IsTag(n, s, x) ==
  \E k \in BeginOf(n, s, x.i) : LET b == Pats[n][k] IN
    /\ b.side = "b"
    /\ \E h \in 1..Len(Pats[n]) : LET e == Pats[n][h]  g == x.j - Len(e.text) IN
         /\ e.side = "e" /\ e.tag = b.tag /\ g >= x.i + Len(b.text)
         /\ MatchesAt(e.text, s, g)
         /\ \A o \in Occurs(n, s, g) : PatLen(n, o) <= Len(e.text)
         /\ b.tag = "comment" => \A p \in (x.i + Len(b.text))..(g - 1) : Occurs(n, s, p) = {}

(* Whether a tag asks to trim what comes before and after it. *)
TrimsBefore(n, s, x) == \E k \in BeginOf(n, s, x.i) : Pats[n][k].trim
TrimsAfter(n, s, x) ==
  \E k \in BeginOf(n, s, x.i) : \E h \in 1..Len(Pats[n]) :
     LET e == Pats[n][h] IN
     e.trim /\ e.side = "e" /\ e.tag = Pats[n][k].tag /\ x.j - Len(e.text) >= x.i + PatLen(n, k) /\ MatchesAt(e.text, s, x.j - Len(e.text))

RECURSIVE TextOf(_)
TextOf(prog) ==
  Flat([q \in 1..Len(prog) |->
    LET o == prog[q] IN
    CASE o.o = "text" -> o.s
      [] o.o = "if" -> Flat([k \in 1..Len(o.arms) |-> TextOf(o.arms[k].body)]) \o TextOf(o.els)
      [] o.o \in {"for", "with"} -> TextOf(o.body)
      [] OTHER -> <<>>])

Segmented ==
  \A q \in Confs : Conf(q).seg /\ r[q].ok =>
    LET s == r[q].s
        sp == Spans(CompileInit(Conf(q).syn, s, M.ftab), <<>>)
        run == {k \in 1..Len(sp) : Occurs(q, s, sp[k].i) = {}}
        text == UNION {sp[k].i..(sp[k].j - 1) : k \in run}
        Ws(a, b) == \A p \in a..b : p \in text /\ IsWs(s[p])
        kept == {p \in text :
                   /\ ~ \E k \in (1..Len(sp)) \ run : sp[k].j <= p /\ TrimsAfter(q, s, sp[k]) /\ Ws(sp[k].j, p)
                   /\ ~ \E k \in (1..Len(sp)) \ run : sp[k].i > p /\ TrimsBefore(q, s, sp[k]) /\ Ws(p, sp[k].i - 1)}
    IN /\ \A k \in 1..Len(sp) : /\ sp[k].i = (IF k = 1 THEN 1 ELSE sp[k - 1].j)
                                /\ IF k \in run THEN IsRun(q, s, sp[k]) ELSE IsTag(q, s, sp[k])
       /\ s # <<>> => sp # <<>> /\ sp[Len(sp)].j = Len(s) + 1
       /\ TextOf(r[q].prog) = Flat([p \in 1..Len(s) |-> IF p \in kept THEN <<s[p]>> ELSE <<>>])

---------------------------------------------------------------------------
(* Renaming.  M.kinds[k] = "d" for pieces that are delimiters.  In the text
   of a word the delimiters are exactly the delimiter pieces: *)
StartAt(q, x, k) == 1 + Len(Conf(q).pre) + Len(Body(q, SubSeq(x, 1, k - 1)))
Clear(q, x) ==
  LET s == Whole(q, x)
      at == {StartAt(q, x, k) : k \in {h \in 1..Len(x) : M.kinds[x[h]] = "d"}}
      IsPiece(p, n) == \E k \in 1..Len(x) : M.kinds[x[k]] = "d" /\ StartAt(q, x, k) = p /\ Len(Conf(q).pieces[x[k]]) = n
      Covered(p) == \E k \in 1..Len(x) : M.kinds[x[k]] = "d" /\ StartAt(q, x, k) < p /\ p < StartAt(q, x, k) + Len(Conf(q).pieces[x[k]])
  IN \A p \in 1..Len(s) :
       LET O == Occurs(q, s, p) IN
       O # {} /\ ~Covered(p) => \E k \in O : IsPiece(p, PatLen(q, k)) /\ \A h \in O : PatLen(q, h) <= PatLen(q, k)
Same(a, b) == a.ok = b.ok /\ (a.ok => a.out = b.out /\ a.calls = b.calls /\ a.res.r = b.res.r)
Renamed ==
  LET clear == {q \in Confs : Conf(q).ren > 0 /\ Clear(q, w)} IN
  \A q, h \in clear : q < h /\ Conf(q).ren = Conf(h).ren => Same(r[q], r[h])

---------------------------------------------------------------------------
(* The grammar, over the kinds of the pieces: which spans (a, b] of the word
   each nonterminal derives. *)
K(k) == M.kinds[w[k]]
GIdent(k) == K(k) = "id"
GLiteral(a, b) == \/ b = a + 1 /\ K(b) \in {"num", "str", "true", "false"}
                  \/ b = a + 2 /\ K(a + 1) \in {"+", "-"} /\ K(b) = "num"
RECURSIVE GPathSpan(_, _)
GPathSpan(a, b) == \/ b = a + 1 /\ GIdent(b)
                   \/ b >= a + 3 /\ K(b - 1) \in {".", "?."} /\ K(b) \in {"id", "num"} /\ GPathSpan(a, b - 2)
GBase(a, b) == b > a /\ (GLiteral(a, b) \/ GPathSpan(a, b))
RECURSIVE GArgsSpan(_, _)
GArgsSpan(a, b) == GBase(a, b) \/ \E m \in (a + 1)..(b - 2) : K(m + 1) = "," /\ GArgsSpan(a, m) /\ GBase(m + 1, b)
GCallSpan(a, b) == b > a /\ GIdent(a + 1) /\ (b = a + 1 \/ (b >= a + 3 /\ K(a + 2) = ":" /\ GArgsSpan(a + 2, b)))
RECURSIVE GExpr(_, _)
GExpr(a, b) == GBase(a, b) \/ \E m \in (a + 1)..(b - 2) : K(m + 1) = "|" /\ GExpr(a, m) /\ GCallSpan(m + 1, b)
GCond(a, b) == GExpr(a, b) \/ (b > a + 1 /\ K(a + 1) = "not" /\ GExpr(a + 1, b))
GForRest(a, b) == \/ b > a + 2 /\ GIdent(a + 1) /\ K(a + 2) = "in" /\ GExpr(a + 2, b)
                  \/ b > a + 4 /\ GIdent(a + 1) /\ K(a + 2) = "," /\ GIdent(a + 3) /\ K(a + 4) = "in" /\ GExpr(a + 4, b)
GWithRest(a, b) == b > a + 2 /\ K(b - 1) = "as" /\ GIdent(b) /\ GExpr(a, b - 2)
GIncRest(a, b) == b > a /\ K(a + 1) = "str" /\ (b = a + 1 \/ (b > a + 2 /\ K(a + 2) = "with" /\ GExpr(a + 2, b)))
GElseRest(a, b) == a = b \/ (b > a + 1 /\ K(a + 1) = "if" /\ GCond(a + 1, b))
Derives(sort) ==
  LET n == Len(w) IN
  CASE sort = "expr" -> GExpr(0, n)
    [] sort = "cond" -> GCond(0, n)
    [] sort = "for"  -> GForRest(0, n)
    [] sort = "with" -> GWithRest(0, n)
    [] sort = "inc"  -> GIncRest(0, n)
    [] sort = "else" -> GElseRest(0, n)
    [] sort = "block" -> n > 0 /\ K(1) = "include" /\ GIncRest(1, n)     \* the only block that stands alone
Derived == \A q \in Confs : Conf(q).sort # "" => (r[q].ok = Derives(Conf(q).sort))

---------------------------------------------------------------------------
Primes == {9973, 9967, 9949, 9941, 9931, 9929}
Mod(digits, radix, p) == FoldLeft(LAMBDA n, d : ((n * radix) + d) % p, 0, digits)
Number(t) ==        \* sign, radix and digits of an integer spelling
  LET neg == t # <<>> /\ t[1] = 45
      u == IF t # <<>> /\ t[1] \in {43, 45} THEN SubSeq(t, 2, Len(t)) ELSE t
      pre == Len(u) >= 2 /\ u[1] = 48 /\ u[2] \in {98, 111, 120}
  IN [neg |-> neg, radix |-> IF pre THEN CASE u[2] = 98 -> 2 [] u[2] = 111 -> 8 [] u[2] = 120 -> 16 ELSE 10,
      digits |-> LET x == SelectSeq(IF pre THEN SubSeq(u, 3, Len(u)) ELSE u, LAMBDA c : c # 95) IN [k \in 1..Len(x) |-> HexVal(x[k])]]
Residues ==
  \A q \in Confs : Conf(q).num /\ r[q].ok =>
    LET p == r[q].prog IN
    (Len(p) = 1 /\ p[1].o = "emit" /\ p[1].e.fs = <<>> /\ p[1].e.b.b = "lit" /\ p[1].e.b.v.t = "int") =>
       LET x == Number(Body(q, w))
           d == p[1].e.b.v.dec
           neg == d[1] = 45
           mag == TextDec(IF neg THEN SubSeq(d, 2, Len(d)) ELSE d)
       IN /\ \A k \in 1..Len(x.digits) : x.digits[k] < x.radix
          /\ \A m \in Primes : Mod(x.digits, x.radix, m) = Mod(mag, 10, m)
          /\ neg = (x.neg /\ mag # <<>>)
          /\ DecLeq(mag, IF neg THEN I64Min ELSE I64Max)
=============================================================================
