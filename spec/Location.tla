------------------------------ MODULE Location ------------------------------
(***************************************************************************)
(* What the detailed form of an error shows for a span [i, j) of a source: *)
(* the line number, the column in terminal columns, that line's text and   *)
(* the underline (its offset and width).                                   *)
(***************************************************************************)
EXTENDS Text

IsNl(c) == c = 10
_LineNo(s, i) == 1 + Cardinality({q \in 1..(i - 1) : s[q] = 10})
_LineStart(s, i) == LastPos(s, 1, i - 1, IsNl) + 1
_LineEnd(s, i) == IF i > Len(s) THEN Len(s) ELSE FirstPos(s, i, Len(s), IsNl) - 1

Loc(s, i, j) ==
  LET a == _LineStart(s, i)
      col == WidthRange(s, a, i - 1)
  IN [ln   |-> _LineNo(s, i),
      col  |-> col + 1,
      text |-> SubSeq(s, a, _LineEnd(s, a)),
      pad  |-> col,
      cw   |-> Max2(1, WidthRange(s, i, j - 1))]
=============================================================================
