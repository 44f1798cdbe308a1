--------------------------------- MODULE Lex ---------------------------------
(***************************************************************************)
(* Delimiters and the tokens inside tags.  Positions are 1-based code      *)
(* point positions; a span is [i, j) = [i |-> i, j |-> j].                 *)
(***************************************************************************)
EXTENDS Values

(***************************************************************************)
(* A syntax configuration is [e, b, c], each <<>> (kind not configured) or *)
(* <<begin, end>>.  The delimiters it registers, in registration order:    *)
(***************************************************************************)
_PatsFor(tag, be) ==
  IF be = <<>> THEN <<>>
  ELSE << [tag |-> tag, side |-> "b", trim |-> FALSE, text |-> be[1]],
          [tag |-> tag, side |-> "e", trim |-> FALSE, text |-> be[2]],
          [tag |-> tag, side |-> "b", trim |-> TRUE,  text |-> be[1] \o <<45>>],
          [tag |-> tag, side |-> "e", trim |-> TRUE,  text |-> <<45>> \o be[2]] >>
PatsOf(syn) == _PatsFor("expr", syn.e) \o _PatsFor("block", syn.b) \o _PatsFor("comment", syn.c)

DefaultSyntax == [e |-> <<S("{{"), S("}}")>>, b |-> <<S("{%"), S("%}")>>, c |-> <<S("{#"), S("#}")>>]

MatchesAt(p, s, i) ==
  /\ i + Len(p) - 1 <= Len(s)
  /\ \A k \in 1..Len(p) : s[i + k - 1] = p[k]

(* The delimiters d used to scan text s: the patterns, and in ascending
   order the positions at which one of them occurs. *)
Delims(syn, s) ==
  LET ps == PatsOf(syn)
      fs == {ps[k].text[1] : k \in 1..Len(ps)}
  IN [pats |-> ps, fs |-> fs,
      at |-> SelectSeq([k \in 1..Len(s) |-> k], LAMBDA k : s[k] \in fs /\ \E h \in 1..Len(ps) : MatchesAt(ps[h].text, s, k))]

(* The delimiter recognised at position i: the longest of those that start
   there (the first registered among equals), or 0. *)
BestAt(d, s, i) ==
  IF s[i] \notin d.fs THEN 0
  ELSE LET M == {k \in 1..Len(d.pats) : MatchesAt(d.pats[k].text, s, i)} IN
  IF M = {} THEN 0
  ELSE CHOOSE k \in M : \A h \in M : \/ Len(d.pats[k].text) > Len(d.pats[h].text)
                                     \/ Len(d.pats[k].text) = Len(d.pats[h].text) /\ k <= h

(* The least index in lo..hi of the ascending sequence q with q[index] >= x
   (hi + 1 if there is none). *)
RECURSIVE LeastFrom(_, _, _, _)
LeastFrom(q, x, lo, hi) ==
  IF lo > hi THEN lo
  ELSE LET k == (lo + hi) \div 2 IN
       IF q[k] >= x THEN LeastFrom(q, x, lo, k - 1) ELSE LeastFrom(q, x, k + 1, hi)

(* The leftmost delimiter starting at or after i: <<position, index>>, or
   <<Len(s) + 1, 0>> if there is none. *)
FindAt(d, s, i) ==
  LET k == LeastFrom(d.at, i, 1, Len(d.at)) IN
  IF k > Len(d.at) THEN <<Len(s) + 1, 0>> ELSE <<d.at[k], BestAt(d, s, d.at[k])>>

(***************************************************************************)
(* Tokens of a tag: [t, i, j] with t one of "id", "kw", "idx", "num",      *)
(* "str", ".", "?.", "|", ",", ":", "+", "-", and as last one "end" (with  *)
(* the trim flag), "err" or "eof".                                         *)
(***************************************************************************)
KwIf == <<105,102>>
KwNot == <<110,111,116>>
KwElse == <<101,108,115,101>>
KwEndif == <<101,110,100,105,102>>
KwFor == <<102,111,114>>
KwIn == <<105,110>>
KwEndfor == <<101,110,100,102,111,114>>
KwWith == <<119,105,116,104>>
KwAs == <<97,115>>
KwEndwith == <<101,110,100,119,105,116,104>>
KwInclude == <<105,110,99,108,117,100,101>>
KwTrue == <<116,114,117,101>>
KwFalse == <<102,97,108,115,101>>
Keywords == {KwIf, KwNot, KwElse, KwEndif, KwFor, KwIn, KwEndfor, KwWith, KwAs, KwEndwith, KwInclude, KwTrue, KwFalse}

Punct(c) == CASE c = 46 -> "." [] c = 124 -> "|" [] c = 44 -> "," [] c = 58 -> ":" [] c = 43 -> "+"
              [] c = 45 -> "-" [] OTHER -> ""

(* The first position from i on (s[i] exists) that does not continue ... *)
NotIdCont(c) == ~IdCont(c)
NotDigit(c) == ~IsDigit(c)
NotNumChar(c) == ~NumChar(c)
NotBlank(c) == ~IsBlank(c)
SkipIdent(s, i) == FirstPos(s, i, Len(s), NotIdCont)
SkipDigits(s, i) == IF i > Len(s) THEN i ELSE FirstPos(s, i, Len(s), NotDigit)
SkipNum(s, i) == FirstPos(s, i, Len(s), NotNumChar)
SkipBlank(s, i) == FirstPos(s, i, Len(s), NotBlank)

(* From just after the opening quote: <<"ok", position after the closing
   quote>> or <<"err", where the string breaks off>>. *)
InString(c) == c \in {10, 13, 34, 92}
RECURSIVE StringEnd(_, _)
StringEnd(s, i) ==
  LET k == IF i > Len(s) THEN i ELSE FirstPos(s, i, Len(s), InString) IN
  IF k > Len(s) THEN <<"err", k>>
  ELSE IF s[k] \in {10, 13} THEN <<"err", k>>
  ELSE IF s[k] = 34 THEN <<"ok", k + 1>>
  ELSE IF k + 1 > Len(s) \/ s[k + 1] \in {10, 13} THEN <<"err", k + 1>>
  ELSE StringEnd(s, k + 2)

Tok(t, i, j) == [t |-> t, i |-> i, j |-> j]

(* tag: the kind of the tag, bi..bj the span of its begin delimiter, path:
   whether the previous tokens are those of a path (digits are then an
   index). *)
TagTokens(d, s, i0, tag, bi, bj) ==
  LET go[i \in Nat, path \in BOOLEAN] ==
  IF i > Len(s) THEN <<Tok("eof", i, i)>>
  ELSE LET k == BestAt(d, s, i) IN
  IF k # 0 THEN
    LET p == d.pats[k]  j == i + Len(p.text) IN
    IF p.side = "b" THEN <<Tok("err", bi, bj)>>               \* unclosed
    ELSE IF p.tag # tag THEN <<Tok("err", i, j)>>             \* wrong end tag
    ELSE <<[t |-> "end", i |-> i, j |-> j, trim |-> p.trim]>>
  ELSE LET c == s[i] IN
  IF Punct(c) # "" THEN
    <<Tok(Punct(c), i, i + 1)>> \o go[i + 1, path /\ c \notin {124, 44, 58}]
  ELSE IF c = 63 THEN
    IF i + 1 > Len(s) THEN <<Tok("err", i, i + 1)>>
    ELSE IF s[i + 1] = 46 THEN <<Tok("?.", i, i + 2)>> \o go[i + 2, path]
    ELSE <<Tok("err", i, i + 2)>>
  ELSE IF c = 34 THEN
    LET e == StringEnd(s, i + 1) IN
    IF e[1] = "ok" THEN <<Tok("str", i, e[2])>> \o go[e[2], path]
    ELSE <<Tok("err", i, e[2])>>
  ELSE IF IsDigit(c) THEN
    IF path THEN LET j == SkipDigits(s, i) IN <<Tok("idx", i, j)>> \o go[j, path]
    ELSE LET e == SkipNum(s, i)
             j == Min2(e, FindAt(d, s, i)[1]) IN
         <<Tok("num", i, j)>> \o go[j, path]
  ELSE IF IsBlank(c) THEN go[SkipBlank(s, i), path]
  ELSE IF IdStart(c) THEN
    LET j == SkipIdent(s, i) IN
    IF SubSeq(s, i, j - 1) \in Keywords
    THEN <<Tok("kw", i, j)>> \o go[j, FALSE]
    ELSE <<Tok("id", i, j)>> \o go[j, TRUE]
  ELSE <<Tok("err", i, i + 1)>>
  IN go[i0, FALSE]

(***************************************************************************)
(* Literals.  Result [ok |-> TRUE, v] or [ok |-> FALSE, i, j] with the     *)
(* span of the error.                                                      *)
(***************************************************************************)
Bad(i, j) == [ok |-> FALSE, i |-> i, j |-> j]

HexVal(c) == IF IsDigit(c) THEN c - 48
             ELSE IF c >= 97 /\ c <= 102 THEN c - 87
             ELSE IF c >= 65 /\ c <= 70 THEN c - 55
             ELSE 99

(* Integer digits t[k..]; at is the source position of t[1]; li..lj the
   span of the whole literal. *)
_IntFold(t, k, radix, neg, at, li, lj) ==
  LET bound == IF neg THEN I64Min ELSE I64Max
      step(st, q) ==
        IF ~st.ok \/ t[q] = 95 THEN st
        ELSE IF HexVal(t[q]) >= radix THEN Bad(at + q - 1, at + q)
        ELSE LET m == MulAdd(st.mag, radix, HexVal(t[q])) IN
             IF DecLeq(m, bound) THEN [ok |-> TRUE, mag |-> m] ELSE Bad(li, lj)
      r == FoldLeft(step, [ok |-> TRUE, mag |-> <<>>], [q \in 1..(Len(t) - k + 1) |-> k + q - 1])
  IN IF ~r.ok THEN r
     ELSE [ok |-> TRUE, v |-> IntV(IF neg /\ r.mag # <<>> THEN <<45>> \o DecText(r.mag) ELSE DecText(r.mag))]

IntLiteral(t, neg, at, li, lj) ==
  LET pre == IF Len(t) >= 2 /\ t[1] = 48 /\ t[2] \in {98, 111, 120} THEN t[2] ELSE 0
      radix == CASE pre = 98 -> 2 [] pre = 111 -> 8 [] pre = 120 -> 16 [] OTHER -> 10
  IN _IntFold(t, IF pre = 0 THEN 1 ELSE 3, radix, neg, at, li, lj)

(* A float spelling: digits [ "." digits ] [ ("e"|"E") [sign] digits ], with
   at least one digit in the mantissa; the integer part is never empty here
   since a number token starts with a digit. *)
FloatParts(t) ==
  LET a == SkipDigits(t, 1)                                             \* after integer digits
      b == IF a <= Len(t) /\ t[a] = 46 THEN SkipDigits(t, a + 1) ELSE a  \* after fraction
      hasExp == b <= Len(t) /\ t[b] \in {69, 101}
      sgn == hasExp /\ b + 1 <= Len(t) /\ t[b + 1] \in {43, 45}
      eb == IF sgn THEN b + 2 ELSE b + 1
      ee == IF hasExp THEN SkipDigits(t, eb) ELSE b
  IN [ok   |-> a > 1 /\ ee = Len(t) + 1 /\ (hasExp => ee > eb),
      int  |-> SubSeq(t, 1, a - 1),
      frac |-> IF b > a THEN SubSeq(t, a + 1, b - 1) ELSE <<>>,
      eneg |-> sgn /\ t[b + 1] = 45,
      exp  |-> IF hasExp THEN SubSeq(t, eb, ee - 1) ELSE <<>>]

(* The positional decimal text of digits d (a digit sequence) times 10^e,
   without exponent and without superfluous zeros. *)
PlainDecimal(d0, e0) ==
  LET d == StripZeros(d0) IN
  IF d = <<>> THEN <<48>>
  ELSE LET z == Len(d) - Len(StripTrailing(d))
           m == StripTrailing(d)
           e == e0 + z
       IN IF e >= 0 THEN DecText(m) \o Zeros(e)
          ELSE IF Len(m) + e > 0 THEN DecText(SubSeq(m, 1, Len(m) + e)) \o <<46>> \o DecText(SubSeq(m, Len(m) + e + 1, Len(m)))
          ELSE <<48, 46>> \o Zeros(0 - (Len(m) + e)) \o DecText(m)

(* Exact up to 15 significant digits and decimal exponents within +-290,
   where binary64 round-trips decimal text; beyond that the text is taken
   from the table ftab of [raw, text] (correctly rounded shortest digits,
   computed by an independent implementation), see DESIGN.md. *)
FloatLiteral(t, neg, li, lj, ftab) ==
  LET p == FloatParts(t) IN
  IF ~p.ok THEN Bad(li, lj)
  ELSE LET T == {k \in 1..Len(ftab) : ftab[k].raw = t}
           digs == TextDec(p.int \o p.frac)
           ex == TextDec(p.exp)
           exn == IF Len(ex) > 6 THEN 999999 ELSE DecToInt(ex)
           txt == IF T # {} THEN ftab[CHOOSE k \in T : TRUE].text
                  ELSE PlainDecimal(digs, (IF p.eneg THEN 0 - exn ELSE exn) - Len(p.frac))
       IN [ok |-> TRUE, v |-> FltV(IF neg THEN <<45>> \o txt ELSE txt)]

NumberLiteral(t, neg, at, li, lj, ftab) ==
  LET a == IntLiteral(t, neg, at, li, lj) IN
  IF a.ok THEN a
  ELSE LET f == FloatLiteral(t, neg, li, lj, ftab) IN
       IF f.ok THEN f
       ELSE IF \E k \in 1..Len(t) : t[k] \in {46, 45, 43} THEN f ELSE a

(* The content t[1..] of a string token (without quotes), at the source
   position of t[1]. *)
RECURSIVE _Unescape(_, _, _, _)
_Unescape(t, k, at, acc) ==
  IF k > Len(t) THEN [ok |-> TRUE, v |-> StrV(acc)]
  ELSE IF t[k] # 92 THEN _Unescape(t, k + 1, at, Append(acc, t[k]))
  ELSE LET c == t[k + 1]
           r == CASE c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] c = 92 -> 92 [] c = 34 -> 34 [] OTHER -> 0
       IN IF r = 0 THEN Bad(at + k, at + k + 1)
          ELSE _Unescape(t, k + 2, at, Append(acc, r))
StringLiteral(s, i, j) == _Unescape(SubSeq(s, i + 1, j - 2), 1, i + 1, <<>>)
=============================================================================
