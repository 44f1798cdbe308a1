------------------------------- MODULE Values -------------------------------
(***************************************************************************)
(* The value model: none, booleans, integers (by their decimal text),      *)
(* floats (by their display text), strings, lists and maps.  Every kind    *)
(* uses its own field name so that values of different kinds are simply    *)
(* unequal records.  A map is the sequence of its entries in key order.    *)
(***************************************************************************)
EXTENDS Text

None      == [t |-> "none"]
Bool(b)   == [t |-> "bool", b |-> b]
IntV(dec) == [t |-> "int", dec |-> dec]
IntN(n)   == IntV(IntText(n))
FltV(dec) == [t |-> "flt", fdec |-> dec]
StrV(s)   == [t |-> "str", s |-> s]
ListV(l)  == [t |-> "list", l |-> l]
MapV(m)   == [t |-> "map", m |-> m]

(* A map of entries [k, v] inserted one after the other: sorted by key, and of
   those with the same key the last. *)
Inserted(es) ==
  LET by(a, b) == TextLess(es[a].k, es[b].k) \/ (es[a].k = es[b].k /\ a < b)
      ord == TLCEval(SortSeq([q \in 1..Len(es) |-> q], by))
      keep == SelectSeq([q \in 1..Len(es) |-> q], LAMBDA q : q = Len(es) \/ es[ord[q]].k # es[ord[q + 1]].k)
  IN [q \in 1..Len(keep) |-> [k |-> es[ord[keep[q]]].k, v |-> es[ord[keep[q]]].v]]
MapFrom(es) == MapV(Inserted(es))

MapIndex(m, k) == LET H == {i \in 1..Len(m) : m[i].k = k} IN IF H = {} THEN 0 ELSE CHOOSE i \in H : TRUE

IsSortedMap(m) == \A i \in 1..(Len(m) - 1) : TextLess(m[i].k, m[i + 1].k)

RECURSIVE WellFormed(_)
WellFormed(v) ==
  CASE v.t = "list" -> \A i \in 1..Len(v.l) : WellFormed(v.l[i])
    [] v.t = "map"  -> IsSortedMap(v.m) /\ \A i \in 1..Len(v.m) : WellFormed(v.m[i].v)
    [] OTHER        -> TRUE

(***************************************************************************)
(* Truthiness: what an if condition tests.                                 *)
(***************************************************************************)
Truthy(v) ==
  CASE v.t = "none" -> FALSE
    [] v.t = "bool" -> v.b
    [] v.t = "int"  -> v.dec # <<48>>
    [] v.t = "flt"  -> v.fdec # <<48>> /\ v.fdec # <<45, 48>>
    [] v.t = "str"  -> v.s # <<>>
    [] v.t = "list" -> v.l # <<>>
    [] v.t = "map"  -> v.m # <<>>

(***************************************************************************)
(* Formatting.                                                             *)
(***************************************************************************)
TrueT  == S("true")
FalseT == S("false")

IsScalar(v) == v.t \notin {"list", "map"}
ScalarText(v) ==
  CASE v.t = "none" -> <<>>
    [] v.t = "bool" -> IF v.b THEN TrueT ELSE FalseT
    [] v.t = "int"  -> v.dec
    [] v.t = "flt"  -> v.fdec
    [] v.t = "str"  -> v.s

(* The structural rendering used by the `dbg` formatter of the harness; it
   distinguishes all kinds and shows nested values. *)
NoneT == S("none")
RECURSIVE DbgText(_)
RECURSIVE _DbgList(_, _)
RECURSIVE _DbgMap(_, _)
_DbgList(l, i) == IF i > Len(l) THEN <<>> ELSE DbgText(l[i]) \o <<44>> \o _DbgList(l, i + 1)
_DbgMap(m, i) == IF i > Len(m) THEN <<>> ELSE m[i].k \o <<58>> \o DbgText(m[i].v) \o <<44>> \o _DbgMap(m, i + 1)
DbgText(v) ==
  CASE v.t = "none" -> NoneT
    [] v.t = "bool" -> IF v.b THEN TrueT ELSE FalseT
    [] v.t = "int"  -> v.dec
    [] v.t = "flt"  -> <<102>> \o v.fdec
    [] v.t = "str"  -> <<39>> \o v.s \o <<39>>
    [] v.t = "list" -> <<91>> \o _DbgList(v.l, 1) \o <<93>>
    [] v.t = "map"  -> <<123>> \o _DbgMap(v.m, 1) \o <<125>>

(* HTML-style escaping used by the `esc` formatter of the harness. *)
LtT == S("&lt;")
GtT == S("&gt;")
AmpT == S("&amp;")
EscChar(c) == IF c = 60 THEN LtT ELSE IF c = 62 THEN GtT ELSE IF c = 38 THEN AmpT ELSE <<c>>
EscText(t) == Flat([i \in 1..Len(t) |-> EscChar(t[i])])

(***************************************************************************)
(* Member access.  A member is [op |-> "." or "?.", a |-> "key", n] or      *)
(* [op, a |-> "idx", ix].                                                  *)
(* The result is [r |-> "ok", v], [r |-> "none"] (optional access missed)  *)
(* or [r |-> "err", j] for the failing member.                             *)
(***************************************************************************)
Access(v, mem) ==
  IF v.t = "list" /\ mem.a = "idx"
  THEN IF mem.ix < Len(v.l) THEN [r |-> "ok", v |-> v.l[mem.ix + 1]]
       ELSE IF mem.op = "?." THEN [r |-> "none"] ELSE [r |-> "err"]
  ELSE IF v.t = "map" /\ mem.a = "key"
  THEN LET i == MapIndex(v.m, mem.n) IN
       IF i > 0 THEN [r |-> "ok", v |-> v.m[i].v]
       ELSE IF mem.op = "?." THEN [r |-> "none"] ELSE [r |-> "err"]
  ELSE [r |-> "err"]

RECURSIVE Walk(_, _, _)
Walk(v, path, j) ==
  IF j > Len(path) THEN [r |-> "ok", v |-> v]
  ELSE LET a == Access(v, path[j]) IN
       IF a.r = "ok" THEN Walk(a.v, path, j + 1)
       ELSE IF a.r = "none" THEN a
       ELSE [r |-> "err", j |-> j]
=============================================================================
