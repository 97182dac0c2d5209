------------------------------ MODULE VcValid -------------------------------
(* Validity of a verification condition in a finite structure: the integers   *)
(* are Dom (two or three elements, 0 and 1 among them), P, Q and f take every *)
(* meaning.  Optimising must keep the verdict in every structure; a variable  *)
(* the optimiser adds is a Boolean one like any other.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Randomization

D == JsonDeserialize(IOEnv.CASES)
Cases == D.cases                 \* [id, term, opt, declared, note]
Dom == 0..(D.dom - 1)
Sampled == D.sample              \* at most this many meanings per condition (0: all)

RECURSIVE Ev(_, _, _)
Ev(e, st, as) ==
  LET k == e[1]  pl == e[2]  a == e[3] IN
  CASE k = "var" -> as[pl]
    [] k = "int" -> pl % D.dom
    [] k = "bool" -> pl
    [] k = "and" -> \A i \in DOMAIN a : Ev(a[i], st, as)
    [] k = "or" -> \E i \in DOMAIN a : Ev(a[i], st, as)
    [] k = "not" -> ~Ev(a[1], st, as)
    [] k = "implies" -> Ev(a[1], st, as) => Ev(a[2], st, as)
    [] k = "eq" -> Ev(a[1], st, as) = Ev(a[2], st, as)
    [] k = "ite" -> IF Ev(a[1], st, as) THEN Ev(a[2], st, as) ELSE Ev(a[3], st, as)
    [] k = "let" -> Ev(a[2], st, (pl :> Ev(a[1], st, as)) @@ as)
    [] k = "call" /\ pl = "P" -> st.P[Ev(a[1], st, as)]
    [] k = "call" /\ pl = "f" -> st.f[Ev(a[1], st, as)]
    [] k = "call" /\ pl = "Q" -> st.Q[Ev(a[1], st, as)][Ev(a[2], st, as)]

RECURSIVE FreeI(_), FreeB(_), Calls(_), Known(_)
(* integer and Boolean variables *)
Subs(e, F(_)) == UNION {F(e[3][i]) : i \in DOMAIN e[3]}
FreeI(e) == IF e[1] = "var" THEN (IF e[4] \in {"I", "Int"} THEN {e[2]} ELSE {}) ELSE Subs(e, FreeI)
FreeB(e) == IF e[1] = "var" THEN (IF e[4] \in {"B", "Bool"} THEN {e[2]} ELSE {}) ELSE Subs(e, FreeB)
Calls(e) == (IF e[1] = "call" THEN {e[2]} ELSE {}) \cup Subs(e, Calls)
Kinds == {"var", "int", "bool", "and", "or", "not", "implies", "eq", "ite", "let", "call"}
Known(e) == /\ e[1] \in Kinds
            /\ e[1] = "call" => e[2] \in {"P", "Q", "f"}
            /\ \A i \in DOMAIN e[3] : Known(e[3][i])

Assigns(e) == {a @@ b : a \in [FreeI(e) -> Dom], b \in [FreeB(e) -> BOOLEAN]}
Valid(e, st, as) == \A a \in as : Ev(e, st, a)

Preds(used, nm, full, dflt) == IF nm \in used THEN full ELSE {dflt}
Structs(used) ==
  {[P |-> p, Q |-> q, f |-> g] :
     p \in Preds(used, "P", [Dom -> BOOLEAN], [d \in Dom |-> TRUE]),
     q \in Preds(used, "Q", [Dom -> [Dom -> BOOLEAN]], [d \in Dom |-> [e \in Dom |-> TRUE]]),
     g \in Preds(used, "f", [Dom -> Dom], [d \in Dom |-> d])}
Some(s) == IF Sampled = 0 \/ Cardinality(s) <= Sampled THEN s ELSE RandomSubset(Sampled, s)

Count(seq, v) == Cardinality({i \in DOMAIN seq : seq[i] = v})
Judge(cs) ==
  IF ~Known(cs.opt) THEN "the optimised condition has parts of no known meaning"
  ELSE LET fo == FreeI(cs.opt) \cup FreeB(cs.opt) IN
  IF \E v \in fo : Count(cs.declared, v) # 1
    THEN "variable " \o (CHOOSE v \in fo : Count(cs.declared, v) # 1) \o " of the optimised condition is not declared exactly once"
  ELSE IF \E v \in fo : ~(v \in FreeI(cs.term) \cup FreeB(cs.term)) /\ v \in FreeI(cs.opt)
    THEN "an integer variable was invented"
  ELSE
  LET a1 == TLCEval(Assigns(cs.term))  a2 == TLCEval(Assigns(cs.opt))
      S == TLCEval(Some(Structs(Calls(cs.term) \cup Calls(cs.opt))))
      bad == {s \in S : Valid(cs.term, s, a1) # Valid(cs.opt, s, a2)} IN
  IF bad = {} THEN "ok"
  ELSE LET s == CHOOSE s \in bad : TRUE IN
       (IF Valid(cs.term, s, a1) THEN "valid" ELSE "not valid") \o " before, " \o
       (IF Valid(cs.opt, s, a2) THEN "valid" ELSE "not valid") \o " after, with " \o ToString(s)

VARIABLES c, verdict
vars == <<c, verdict>>
Init == c \in 1..Len(Cases) /\ verdict = "todo"
Next == verdict = "todo" /\ verdict' = TLCEval(Judge(Cases[c])) /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
Report == verdict # "todo" => PrintT("VERDICT " \o ToJson(<<Cases[c].id, verdict>>))
=============================================================================
