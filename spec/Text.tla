-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Texts are sequences of Unicode code points (integers).  This module     *)
(* defines the character classes the template language depends on, the     *)
(* decimal arithmetic needed for 64-bit literals (TLC integers are 32 bit, *)
(* so magnitudes are digit sequences) and the UTF-8 and display-width      *)
(* views of a text.                                                        *)
(***************************************************************************)
EXTENDS Unicode, FiniteSets, SequencesExt, IOUtils

(* These are folds and searches over sequences rather than recursive
   operators where possible: TLC evaluates a deep recursion in quadratic
   time. *)
Flat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)

(* The first (last) position in s[i..j] where Test holds, j + 1 (i - 1) if
   there is none. *)
FirstPos(s, i, j, Test(_)) ==
  LET m == IF i + 40 < j THEN i + 40 ELSE j       \* (mostly it is near)
      k == SelectInSeq(SubSeq(s, i, m), Test)
  IN IF k # 0 THEN i + k - 1
     ELSE IF m = j THEN j + 1
     ELSE LET n == SelectInSeq(SubSeq(s, m + 1, j), Test) IN IF n = 0 THEN j + 1 ELSE m + n
LastPos(s, i, j, Test(_)) == LET k == SelectLastInSeq(SubSeq(s, i, j), Test) IN IF k = 0 THEN i - 1 ELSE i + k - 1

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

(* ASCII string constant -> code points (strings are sequences in TLA+). *)
_Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
S(str) == [i \in 1..Len(str) |-> 31 + CHOOSE j \in 1..Len(_Ascii) : SubSeq(_Ascii, j, j) = SubSeq(str, i, i)]

(***************************************************************************)
(* Character classes.                                                      *)
(***************************************************************************)
IsDigit(c) == c >= 48 /\ c <= 57
IsAlpha(c) == (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122)

(* The crate built without its "unicode" feature: identifiers are ASCII and
   every character is one column wide. *)
PlainBuild == "PLAIN" \in DOMAIN IOEnv

IdStart(c) == IF c < 128 THEN IsAlpha(c) \/ c = 95 ELSE ~PlainBuild /\ Among(c, StartRanges)
IdCont(c)  == IF c < 128 THEN IsAlpha(c) \/ IsDigit(c) \/ c = 95 ELSE ~PlainBuild /\ (Among(c, StartRanges) \/ Among(c, ContRanges))

(* Unicode White_Space: what a trim marker removes. *)
IsWs(c) == \/ c >= 9 /\ c <= 13
           \/ c \in {32, 133, 160, 5760, 8232, 8233, 8239, 8287, 12288}
           \/ c >= 8192 /\ c <= 8202

(* Blanks allowed between the tokens of a tag. *)
IsBlank(c) == c = 9 \/ c = 32

NumChar(c) == IsDigit(c) \/ IsAlpha(c) \/ c \in {95, 45, 43, 46}

(* Terminal columns. *)
CharWidth(c) == IF PlainBuild THEN 1
                ELSE IF c < 32 \/ (c >= 127 /\ c <= 159) THEN 0
                ELSE IF c < 160 THEN 1
                ELSE IF c = 12288 \/ Among(c, WideRanges) THEN 2
                ELSE IF Among(c, ZeroRanges) THEN 0
                ELSE 1
WidthRange(s, i, j) == FoldLeft(LAMBDA n, c : n + CharWidth(c), 0, SubSeq(s, i, j))      \* columns of s[i..j]

(***************************************************************************)
(* Trimming of the text run s[i..j] (inclusive).                           *)
(***************************************************************************)
NotWs(c) == ~IsWs(c)
TrimLeftFrom(s, i, j) == IF i > j THEN i ELSE FirstPos(s, i, j, NotWs)
TrimRightTo(s, i, j) == IF i > j THEN j ELSE LastPos(s, i, j, NotWs)
TrimRun(s, i, j, left, right) ==
  LET jj == IF right THEN TrimRightTo(s, i, j) ELSE j
      ii == IF left THEN TrimLeftFrom(s, i, jj) ELSE i
  IN SubSeq(s, ii, jj)

(***************************************************************************)
(* Order on texts (code point order = UTF-8 byte order).                   *)
(***************************************************************************)
RECURSIVE _LessAt(_, _, _)
_LessAt(a, b, i) ==
  IF i > Len(b) THEN FALSE
  ELSE IF i > Len(a) THEN TRUE
  ELSE IF a[i] # b[i] THEN a[i] < b[i]
  ELSE _LessAt(a, b, i + 1)
TextLess(a, b) == _LessAt(a, b, 1)

(***************************************************************************)
(* Decimal digit sequences (values 0..9, most significant first, no        *)
(* leading zeros; zero is <<>>).                                           *)
(***************************************************************************)
NotZero(x) == x # 0
StripZeros(d) == IF d = <<>> THEN d ELSE SubSeq(d, FirstPos(d, 1, Len(d), NotZero), Len(d))
StripTrailing(d) == IF d = <<>> THEN d ELSE SubSeq(d, 1, LastPos(d, 1, Len(d), NotZero))

(* d * m + a for small m, a: the fold carries <<carry, digits so far>> *)
RECURSIVE _Carry(_, _)
_Carry(n, acc) == IF n = 0 THEN acc ELSE _Carry(n \div 10, <<n % 10>> \o acc)
MulAdd(d, m, a) ==
  LET step(x, st) == LET y == (x * m) + st[1] IN <<y \div 10, <<y % 10>> \o st[2]>>
      r == FoldRight(step, d, <<a, <<>> >>)
  IN StripZeros(_Carry(r[1], r[2]))

DecLeq(a, b) == \/ Len(a) < Len(b)
                \/ Len(a) = Len(b) /\ (a = b \/ TextLess(a, b))

I64Max == <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,7>>
I64Min == <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,8>>
U64Max == <<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,5>>

(* value of a short digit sequence as a TLA+ integer *)
DecToInt(d) == FoldLeft(LAMBDA n, x : (n * 10) + x, 0, d)

DecText(d) == IF d = <<>> THEN <<48>> ELSE [i \in 1..Len(d) |-> 48 + d[i]]
TextDec(t) == StripZeros([i \in 1..Len(t) |-> t[i] - 48])

RECURSIVE _IntDigits(_, _)
_IntDigits(n, acc) == IF n = 0 THEN acc ELSE _IntDigits(n \div 10, <<n % 10>> \o acc)
IntText(n) == IF n < 0 THEN <<45>> \o DecText(_IntDigits(0 - n, <<>>)) ELSE DecText(_IntDigits(n, <<>>))

Zeros(n) == [i \in 1..n |-> 48]

(***************************************************************************)
(* UTF-8.                                                                  *)
(***************************************************************************)
Utf8Char(c) ==
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Utf8(t) == IF \A i \in 1..Len(t) : t[i] < 128 THEN t ELSE Flat([i \in 1..Len(t) |-> Utf8Char(t[i])])

IsPrefixOf(a, b) == IsPrefix(a, b)
=============================================================================
