-------------------------------- MODULE Query -------------------------------
(* Reads an assembled query command by command, the way a solver does: a     *)
(* state is the symbols declared so far; a command may only use those.  At    *)
(* the end the assertions are compared with the problem: under every          *)
(* assignment the plain assertions hold together exactly when the condition   *)
(* is false for the candidates, and each quantified assertion is one of the   *)
(* problem's axioms (no more, no fewer).                                      *)
EXTENDS QueryCmds

Problems == JsonDeserialize(IOEnv.PROBLEMS)
Fuel == 60

P == Problems[Cases[c].id + 1]
RefFns == LET all == P.lang \o P.cands IN
  [n \in {f.name : f \in {g \in {all[i] : i \in DOMAIN all} : g.body[1] # "none"}} |->
     LET f == CHOOSE g \in {all[i] : i \in DOMAIN all} : g.name = n /\ g.body[1] # "none" IN <<f.ps, f.body>>]

RECURSIVE EnvWalk(_)
EnvWalk(i) ==
  IF i > Len(EnvSeq) THEN "ok"
  ELSE LET ref == TLCEval(Eval(P.cond, EnvSeq[i], RefFns, "smt", Fuel)) IN
       IF IsE(ref) THEN "SPECERROR " \o ref[2]
       ELSE IF IsU(ref) THEN EnvWalk(i + 1)
       ELSE LET got == TLCEval(KAll([j \in DOMAIN Plain |-> Smt!Ev(Plain[j], EnvSeq[i], defs, TFuel)])) IN
            IF got = B(~ref[2]) THEN EnvWalk(i + 1)
            ELSE "assignment " \o ToString(i) \o ": the condition is " \o ToString(ref) \o " but the assertions are " \o ToString(got)
(* which functions reach which function-taking functions: a machine over     *)
(* pairs <<function, functions passed>>                                      *)
LangFns == LET all == P.lang \o P.cands IN {f \in {all[i] : i \in DOMAIN all} : f.body[1] # "none"}
IsFnTy(t) == t \in {"F:II", "F:III"}
FnPars(f) == SelectSeq([i \in DOMAIN f.ps |-> IF IsFnTy(f.ts[i]) THEN f.ps[i] ELSE ""], LAMBDA x : x # "")
RECURSIVE Passes(_, _)
Passes(e, bind) ==
  LET here == IF e[1] # "call" THEN {}
              ELSE LET fs == SelectSeq([i \in DOMAIN e[3] |-> LET a == e[3][i] IN IF a[1] = "fnref" THEN a[2] ELSE IF a[1] = "var" /\ a[2] \in DOMAIN bind THEN bind[a[2]] ELSE ""], LAMBDA x : x # "")
                   IN IF fs = <<>> THEN {} ELSE {<<e[2], fs>>} IN
  here \cup UNION {Passes(e[3][i], bind) : i \in DOMAIN e[3]}
BindOf(it) == LET f == CHOOSE g \in LangFns : g.name = it[1]  q == FnPars(f) IN [n \in {q[i] : i \in DOMAIN q} |-> it[2][CHOOSE i \in DOMAIN q : q[i] = n]]
BodyOf(it) == (CHOOSE g \in LangFns : g.name = it[1]).body
RECURSIVE Reach(_, _)
Reach(todo, seen) ==
  IF todo = {} THEN seen
  ELSE LET it == CHOOSE x \in todo : TRUE  new == Passes(BodyOf(it), BindOf(it)) IN
       Reach((todo \cup new) \ (seen \cup {it}), seen \cup {it})
AllPassed == Reach(Passes(P.cond, <<>>) \cup UNION {Passes(f.body, <<>>) : f \in {g \in LangFns : FnPars(g) = <<>>}}, {})
PassedTo(nm) == {it[2][1] : it \in {x \in AllPassed : x[1] = nm}}
(* an axiom that leaves out the functions to pass is about every copy of the function *)
Instances(ax) == IF "full" \notin DOMAIN ax THEN {ax} ELSE {[vars |-> ax.vars, ts |-> ax.ts, body |-> ax.full, g |-> f] : f \in PassedTo("vmap")}
Optional(ax) == IF "full" \notin DOMAIN ax THEN {} ELSE {[vars |-> ax.vars, ts |-> ax.ts, body |-> ax.full, g |-> f.name] : f \in {h \in LangFns : h.ts = <<"I">> /\ h.res = "I"}}
Stated == SetToSeq(UNION {Instances(P.axioms[i]) : i \in DOMAIN P.axioms})
Allowed == SetToSeq(UNION {Instances(P.axioms[i]) \cup Optional(P.axioms[i]) : i \in DOMAIN P.axioms})
GEnv(ax) == IF "g" \in DOMAIN ax THEN "g" :> <<"fn", ax.g>> ELSE <<>>
(* value table of an axiom over the assignments, quantified names bound *)
AxTable(ax) == [i \in DOMAIN EnvSeq |-> Eval(ax.body, GEnv(ax) @@ EnvSeq[i], RefFns, "smt", Fuel)]
AsTable(b) == [i \in DOMAIN EnvSeq |-> Smt!Ev(b[2][3], EnvSeq[i], defs, TFuel)]
Agree(t, u) == \A i \in DOMAIN t : t[i] = u[i] \/ IsU(t[i])
ANames(ax) == {<<ax.vars[i], SortOfType[ax.ts[i]]>> : i \in DOMAIN ax.vars}
AxErr ==
  LET at == [i \in DOMAIN Stated |-> AxTable(Stated[i])]
      al == [i \in DOMAIN Allowed |-> AxTable(Allowed[i])]
      st == [i \in DOMAIN Quant |-> AsTable(Quant[i])] IN
  IF \E i \in DOMAIN Stated : \A j \in DOMAIN Quant : ~(ANames(Stated[i]) = QNames(Quant[j]) /\ Agree(at[i], st[j])) THEN "an axiom is missing from the query"
  ELSE IF \E j \in DOMAIN Quant : \A i \in DOMAIN Allowed : ~(ANames(Allowed[i]) = QNames(Quant[j]) /\ Agree(al[i], st[j])) THEN "the query assumes something that is not an axiom"
  ELSE "ok"

Finish ==
  /\ H(Cmd) = "check-sat"
  /\ verdict' = IF BadVars # {} THEN "variable not declared with its type: " \o ToString(BadVars)
                ELSE IF Plain = <<>> THEN "nothing is asserted"
                ELSE LET a == TLCEval(AxErr) IN IF a # "ok" THEN a ELSE TLCEval(EnvWalk(1))
  /\ UNCHANGED <<c, pc, sigs, consts, defs, asserts>>
Next == Step(Finish)
Spec == Init /\ [][Next]_vars
=============================================================================
