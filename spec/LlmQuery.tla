------------------------------ MODULE LlmQuery ------------------------------
(* P23: the query that is put to the verifier for a proposal states the       *)
(* proposal.  An SMT query is read command by command (QueryCmds); a Rosette  *)
(* query is its definitions and its goal.  Under every assignment where       *)
(* Python gives the proposed functions a value (and the reader's expression   *)
(* fixes the same one) the query asks for the conditions with the Python      *)
(* meaning of the proposal: its assertions hold when the conditions do not.   *)
EXTENDS QueryCmds, PyLib
P == INSTANCE PySem
Rkt == INSTANCE RktSem

Q == Cases[c]
(* [id, rkt, sum, invs, form, ret, vars, back, cmds, G, goal, known] *)
Default == [I |-> I(1), B |-> B(TRUE), L |-> Li(<<5, 7>>), M |-> Ma(<<<<1>>>>)]
Vals(f, e) == [nm \in ToSet(ParamNames(f)) |-> e[nm]]
PyV(f, e) == P!Py(Norm(f.body), Vals(f, e), LibPy, 40)
BackFns == Fns(Q.back, Refs) @@ LibML
MLV(f, e) == LET g == Q.back[CHOOSE k \in DOMAIN Q.back : Q.back[k].name = f.name] IN Eval(Refs(g.body), Vals(f, e), BackFns, IF Q.rkt THEN "rkt" ELSE "smt", 60)
(* the value of a proposed function where everything fixes it, else Undef *)
Val(f, e) == LET p == TLCEval(PyV(f, e)) IN IF IsE(p) \/ IsU(p) THEN Undef ELSE LET m == TLCEval(MLV(f, e)) IN IF m = p THEN p ELSE Undef
AllDef(q) == \A k \in DOMAIN q : ~IsU(q[k])
Sum == Q.sum
Inv(k) == Q.invs[k]
Env0At(i) == LET v == Val(Sum, EnvSeq[i]) IN ("rv" :> (IF i % 2 = 0 /\ ~IsU(v) THEN v ELSE Default[Q.ret])) @@ EnvSeq[i]
Up(e) == [e EXCEPT !.x = MkI(@[2] + 1)]
Imp(a, b) == ~a \/ b
(* the conditions of the benchmark (the harness builds the same) *)
Truth(i) ==
  LET e == TLCEval(Env0At(i))
      s == Val(Sum, e)
      v == [k \in DOMAIN Q.invs |-> Val(Inv(k), e)]
      w == [k \in DOMAIN Q.invs |-> IF Q.form = 0 THEN B(TRUE) ELSE Val(Inv(k), Up(e))] IN
  IF ~AllDef(<<s>> \o v \o w) THEN Undef
  ELSE LET ps == s = e["rv"]  lt == e["x"][2] < e["y"][2]
           step == \A k \in DOMAIN v : Imp(v[k][2], w[k][2])
           nest == Len(v) = 1 \/ Imp(v[2][2], v[1][2]) IN
       B(/\ nest
         /\ CASE Q.form = 0 -> Imp(v[1][2], ps)
              [] Q.form = 1 -> step /\ Imp(v[1][2] /\ ~lt, ps)
              [] Q.form = 2 -> step /\ Imp(lt, v[1][2]) /\ Imp(v[1][2], ps))
Got(i) ==
  LET e == TLCEval(Env0At(i)) IN
  IF Q.rkt THEN LET g == TLCEval(Rkt!Rk(Q.goal, [nm \in DOMAIN e |-> Rkt!RktOf(e[nm])], Q.G @@ QD.rkt, 64)) IN IF IsB(g) THEN B(~g[2]) ELSE g
  ELSE KAll([j \in DOMAIN Plain |-> Smt!Ev(Plain[j], e, defs, TFuel)])
RECURSIVE Walk(_, _)
Walk(i, n) ==
  IF i > Len(EnvSeq) THEN "ok " \o ToString(n)
  ELSE LET t == TLCEval(Truth(i)) IN
       IF IsU(t) THEN Walk(i + 1, n)
       ELSE LET g == TLCEval(Got(i)) IN
            IF g = B(~t[2]) THEN Walk(i + 1, n + 1)
            ELSE "assignment " \o ToString(i) \o ": the conditions are " \o ToString(t) \o " for the proposal but the query's negation is " \o ToString(g)

(* the axioms given for functions of the library, told apart by their variables *)
Named(b) == {x[1] : x \in QNames(b)}
RECURSIVE Calls(_)
Calls(x) == (CASE x[1] = "Call" -> {x[2]} [] x[1] = "CallKw" -> {x[2][1]} [] OTHER -> {}) \cup UNION {Calls(x[3][i]) : i \in DOMAIN x[3]}
Used == UNION {Calls(f.body) : f \in {Sum} \cup {Q.invs[k] : k \in DOMAIN Q.invs}}
AxErr ==
  IF \E j \in DOMAIN Quant : \E i \in DOMAIN EnvSeq : LET v == TLCEval(Smt!Ev(Quant[j][2][3], EnvSeq[i], defs, TFuel)) IN v # B(TRUE) /\ ~IsU(v)
  THEN "the query assumes something that is not true of the library"
  ELSE LET miss == {f \in Used \cap DOMAIN QD.axioms : \A j \in DOMAIN Quant : Named(Quant[j]) # ToSet(QD.axioms[f])} IN
       IF miss # {} THEN "the axioms of a function that is used are left out: " \o ToString(miss) ELSE "ok"

(* names a function given in place takes from the function around it *)
RECURSIVE Free(_), Captures(_)
Free(x) == CASE x[1] = "Name" -> {x[2]} \ DOMAIN LibPy
             [] x[1] = "Lambda" -> Free(x[3][1]) \ ToSet(x[2])
             [] OTHER -> UNION {Free(x[3][i]) : i \in DOMAIN x[3]}
Captures(x) == (IF x[1] = "Lambda" THEN Free(x) ELSE {}) \cup UNION {Captures(x[3][i]) : i \in DOMAIN x[3]}
Taken == UNION {Captures(f.body) : f \in {Sum} \cup {Q.invs[k] : k \in DOMAIN Q.invs}}
Judged == verdict = "run" \/ SubSeq(verdict, 1, 3) = "ok " \/ Taken = {}
Verdict == IF Judged THEN verdict ELSE "a function given in place uses a variable of the function around it: " \o verdict
Report2 == verdict # "run" => PrintT("VERDICT " \o ToJson(<<Q.id, Verdict>>))

Finish ==
  /\ H(Cmd) = "check-sat"
  /\ verdict' = IF BadVars # {} THEN "variable not declared with its type: " \o ToString(BadVars)
                ELSE IF Plain = <<>> THEN "nothing is asserted"
                ELSE LET a == TLCEval(AxErr) IN IF a # "ok" THEN a ELSE TLCEval(Walk(1, 0))
  /\ UNCHANGED <<c, pc, sigs, consts, defs, asserts>>
Racket ==
  /\ verdict = "run"
  /\ Fail(LET miss == {v \in DOMAIN Q.vars : v \notin ToSet(Q.known)} IN
          IF miss # {} THEN "variable not declared: " \o ToString(miss) ELSE TLCEval(Walk(1, 0)))
Next == IF Q.rkt THEN Racket ELSE Step(Finish)
Spec == Init /\ [][Next]_vars
=============================================================================
