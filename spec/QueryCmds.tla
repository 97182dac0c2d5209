------------------------------ MODULE QueryCmds -----------------------------
(* Reads a query command by command, the way a solver does: a state is the    *)
(* symbols declared so far; a command may only use those.                      *)
EXTENDS MLSem, Envs, Json, IOUtils, SequencesExt
Smt == INSTANCE SmtSem

QD == JsonDeserialize(IOEnv.CASES)
Cases == QD.cases       \* [id, cmds, vars]
TFuel == 150

VARIABLES c, pc, sigs, consts, defs, asserts, verdict
vars == <<c, pc, sigs, consts, defs, asserts, verdict>>

Cmd == Cases[c].cmds[pc]
H(x) == x[2][1][2]
Par(ps) == [nm \in {ps[i][2][1][2] : i \in DOMAIN ps} |-> Smt!SortStr(ps[CHOOSE i \in DOMAIN ps : ps[i][2][1][2] = nm][2][2])]
Distinct(ps) == Cardinality({ps[i][2][1][2] : i \in DOMAIN ps}) = Len(ps)
SortNames == {"Int", "Bool", "(MLList Int)", "(MLList (MLList Int))", "(Set Int)", "(Tuple2 Int Int)", "(Tuple3 Int Bool Int)"}
NewSig(ps, r) == << [i \in DOMAIN ps |-> Smt!SortStr(ps[i][2][2])], Smt!SortStr(r) >>
BadSorts(sg) == \E s \in {sg[1][i] : i \in DOMAIN sg[1]} \cup {sg[2]} : s \notin SortNames
Env0 == [nm \in DOMAIN consts |-> consts[nm]]

(* a definition: [ok, message] *)
DefErr(x) ==
  LET nm == x[2][2][2]  ps == x[2][3][2]  r == x[2][4]  rec == H(x) = "define-fun-rec"  sg == NewSig(ps, r)
      vis == IF rec THEN (nm :> sg) @@ sigs ELSE sigs IN
  IF nm \in DOMAIN sigs \/ nm \in DOMAIN consts THEN nm \o " is declared twice"
  ELSE IF ~Distinct(ps) THEN nm \o " has a repeated parameter"
  ELSE IF BadSorts(sg) THEN nm \o " has an unknown sort"
  ELSE LET s == Smt!SortOf(x[2][5], Par(ps), vis) IN
       IF s = sg[2] THEN "ok" ELSE "body of " \o nm \o " has sort " \o s
AssertErr(x) ==
  LET b == x[2][2] IN
  IF b[1] = "l" /\ b[2] # <<>> /\ b[2][1] = <<"s", "forall">>
  THEN LET ps == b[2][2][2]  s == Smt!SortOf(b[2][3], Par(ps) @@ consts, sigs) IN
       IF s = "Bool" THEN "ok" ELSE "axiom has sort " \o s
  ELSE LET s == Smt!SortOf(b, consts, sigs) IN IF s = "Bool" THEN "ok" ELSE "assertion has sort " \o s

Init == /\ c \in 1..Len(Cases) /\ pc = 1 /\ sigs = QD.th.sigs /\ defs = QD.th.defs
        /\ consts = <<>> /\ asserts = <<>> /\ verdict = "run"

Fail(m) == verdict' = m /\ UNCHANGED <<c, pc, sigs, consts, defs, asserts>>
Define ==
  /\ H(Cmd) \in {"define-fun", "define-fun-rec"}
  /\ LET e == IF Len(Cmd[2]) # 5 THEN "malformed definition" ELSE TLCEval(DefErr(Cmd)) IN
     IF e # "ok" THEN Fail(e)
     ELSE LET nm == Cmd[2][2][2]  ps == Cmd[2][3][2] IN
          /\ sigs' = (nm :> NewSig(ps, Cmd[2][4])) @@ sigs
          /\ defs' = (nm :> << [i \in DOMAIN ps |-> ps[i][2][1][2]], Cmd[2][5] >>) @@ defs
          /\ pc' = pc + 1 /\ UNCHANGED <<c, consts, asserts, verdict>>
Declare ==
  /\ H(Cmd) = "declare-const"
  /\ LET nm == Cmd[2][2][2]  s == Smt!SortStr(Cmd[2][3]) IN
     IF nm \in DOMAIN sigs \/ nm \in DOMAIN consts THEN Fail("variable " \o nm \o " is declared twice")
     ELSE IF s \notin SortNames THEN Fail("variable " \o nm \o " has unknown sort " \o s)
     ELSE /\ consts' = (nm :> s) @@ consts /\ pc' = pc + 1 /\ UNCHANGED <<c, sigs, defs, asserts, verdict>>
AssertCmd ==
  /\ H(Cmd) = "assert"
  /\ LET e == TLCEval(AssertErr(Cmd)) IN
     IF e # "ok" THEN Fail(e)
     ELSE asserts' = Append(asserts, Cmd[2][2]) /\ pc' = pc + 1 /\ UNCHANGED <<c, sigs, consts, defs, verdict>>

IsForall(b) == b[1] = "l" /\ b[2] # <<>> /\ b[2][1] = <<"s", "forall">>
Plain == SelectSeq(asserts, LAMBDA b : ~IsForall(b))
Quant == SelectSeq(asserts, IsForall)
BadVars == {v \in DOMAIN Cases[c].vars : v \notin DOMAIN consts \/ consts[v] # SortOfType[Cases[c].vars[v]]}
KAll(v) == Smt!KAnd(v)
QNames(b) == {<<b[2][2][2][i][2][1][2], Smt!SortStr(b[2][2][2][i][2][2])>> : i \in DOMAIN b[2][2][2]}

Other ==
  /\ H(Cmd) \notin {"define-fun", "define-fun-rec", "declare-const", "assert", "check-sat"}
  /\ IF H(Cmd) \in {"set-logic", "set-option", "set-info"} THEN pc' = pc + 1 /\ UNCHANGED <<c, sigs, consts, defs, asserts, verdict>>
     ELSE Fail("unexpected command " \o H(Cmd))
End == pc > Len(Cases[c].cmds) /\ Fail("the query never asks check-sat")
Step(Fin) == verdict = "run" /\ (IF pc > Len(Cases[c].cmds) THEN End ELSE Define \/ Declare \/ AssertCmd \/ Fin \/ Other)
View == <<c, pc, verdict>>
Report == verdict # "run" => PrintT("VERDICT " \o ToJson(<<Cases[c].id, verdict>>))
=============================================================================
