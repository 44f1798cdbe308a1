------------------------------- MODULE MCEngine -------------------------------
(***************************************************************************)
(* Every history of up to MaxLen operations from a small set on one        *)
(* engine.  Checked on every history: what the registries hold is what the *)
(* history says, name by name, no matter what happened to other names; an  *)
(* operation that fails changes nothing.  Complete histories are printed   *)
(* and replayed into the implementation.                                   *)
(***************************************************************************)
EXTENDS Engine, Json, IOUtils, TLC

MaxLen == atoi(IOEnv.MAXLEN)

DefSyn == [e |-> <<S("{{"), S("}}")>>, b |-> <<S("{%"), S("%}")>>, c |-> <<S("{#"), S("#}")>>]
A == S("a")  B == S("b")  F == S("f")
Src1 == S("x{{ v | f }}")
Src2 == S("<{% include \"a\" %}{{ v }}>")
BadSrc == S("z{% if v %}")
Filter(tag) == [n |-> F, k |-> "flt", ps |-> <<"value">>, bd |-> "term", tag |-> S(tag), msg |-> <<>>, v |-> None, rt |-> "", chars |-> FALSE]
Formatter(tag) == [n |-> F, k |-> "fmt", ps |-> <<>>, bd |-> "wrap", tag |-> S(tag), msg |-> <<>>, v |-> None, rt |-> "", chars |-> FALSE]
Wrap == [builtin |-> FALSE, bd |-> "wrap", tag |-> S("D"), msg |-> <<>>, chars |-> FALSE]

Domain ==
  << [op |-> "addt", e |-> 1, n |-> A, s |-> Src1, owned |-> FALSE],
     [op |-> "addt", e |-> 1, n |-> A, s |-> Src2, owned |-> TRUE],
     [op |-> "addt", e |-> 1, n |-> A, s |-> BadSrc, owned |-> FALSE],
     [op |-> "addt", e |-> 1, n |-> B, s |-> Src2, owned |-> TRUE],
     [op |-> "remt", e |-> 1, n |-> A],
     [op |-> "remt", e |-> 1, n |-> B],
     [op |-> "addf", e |-> 1, f |-> Filter("f1")],
     [op |-> "addf", e |-> 1, f |-> Formatter("f2")],
     [op |-> "addf", e |-> 1, f |-> Filter("f3")],
     [op |-> "remf", e |-> 1, n |-> F],
     [op |-> "depth", e |-> 1, d |-> 1],
     [op |-> "dfmt", e |-> 1, f |-> Wrap],
     [op |-> "compile", e |-> 1, s |-> Src2] >>

ASSUME PrintT(ToJson([domain |-> Domain]))

VARIABLES h, st, last      \* operations so far (indexes into Domain), state, what the last one returned
vars == <<h, st, last>>

Init == h = <<>> /\ st = StartState(<<DefSyn>>) /\ last = [r |-> "ok"]

Do(k) ==
  /\ Len(h) < MaxLen
  /\ \E x \in {Operate(st, Domain[k], <<>>, <<>>)} : st' = x.st /\ last' = x.r
  /\ h' = Append(h, k)
  /\ Len(h') = MaxLen => PrintT(ToJson([h |-> h']))

Next == \E k \in 1..Len(Domain) : Do(k)
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* What the history says.                                                  *)
(***************************************************************************)
Good(op) == op.s # BadSrc
TouchesT(op, n) == (op.op = "addt" /\ op.n = n /\ Good(op)) \/ (op.op = "remt" /\ op.n = n)
TouchesF(op, n) == (op.op = "addf" /\ op.f.n = n) \/ (op.op = "remf" /\ op.n = n)
LastTouch(T(_)) == LET K == {k \in 1..Len(h) : T(Domain[h[k]])} IN
                   IF K = {} THEN 0 ELSE CHOOSE k \in K : \A j \in K : j <= k
HeldT(n) == LET k == LastTouch(LAMBDA op : TouchesT(op, n)) IN
            IF k = 0 \/ Domain[h[k]].op = "remt" THEN {} ELSE {Domain[h[k]].s}
HeldF(n) == LET k == LastTouch(LAMBDA op : TouchesF(op, n)) IN
            IF k = 0 \/ Domain[h[k]].op = "remf" THEN {} ELSE {Domain[h[k]].f}

E == st.es[1]
RegistriesAgree ==
  /\ \A n \in {A, B} : {t.s : t \in Named(E.tpls, n)} = HeldT(n)
  /\ \A n \in {A, B} : Cardinality(Named(E.tpls, n)) <= 1
  /\ Named(E.fns, F) = HeldF(F) /\ Cardinality(E.fns) <= 1
  /\ \A t \in E.tpls : t.prog = Compile(DefSyn, t.s, <<>>).prog
  /\ E.depth = IF LastTouch(LAMBDA op : op.op = "depth") > 0 THEN 1 ELSE 64
  /\ E.dfmt.builtin = (LastTouch(LAMBDA op : op.op = "dfmt") = 0)
  /\ Len(st.slots) = Cardinality({k \in 1..Len(h) : Domain[h[k]].op = "compile"})

FailuresChangeNothing == [][last'.r \in {"err", "none", "false"} =>
                              \/ st'.es = st.es
                              \/ Domain[h'[Len(h')]].op = "addf"]_vars
=============================================================================
