------------------------------ MODULE ExprOps -------------------------------
(* The operations of the library on terms, as the specification has them:    *)
(* simplification keeps the value, substitution is semantic substitution,    *)
(* the identity map rebuilds the same tree, counting counts occurrences,     *)
(* and equality is equality of trees.  Checked against what the real         *)
(* operations returned for every generated term.                             *)
EXTENDS MLSem, Envs, Json, IOUtils, SequencesExt

O == INSTANCE Ops
D == JsonDeserialize(IOEnv.CASES)
Substs == JsonDeserialize(IOEnv.SUBSTS)      \* sequence of sequences <<name, term>>
RefFns == [f \in DOMAIN O!UserFns |-> <<O!UserFns[f].ps, O!UserFns[f].body>>]
Fuel == 40

RECURSIVE TreeEq(_, _)
TreeEq(a, b) ==
  /\ a[1] = b[1] /\ a[2] = b[2] /\ a[4] = b[4] /\ Len(a[3]) = Len(b[3])
  /\ \A i \in DOMAIN a[3] : TreeEq(a[3][i], b[3][i])
(* equality of the library looks at types of literals only *)
RECURSIVE TreeEqU(_, _)
TreeEqU(a, b) ==
  /\ a[1] = b[1] /\ a[2] = b[2] /\ Len(a[3]) = Len(b[3])
  /\ a[1] = "Lit" => a[4] = b[4]
  /\ \A i \in DOMAIN a[3] : TreeEqU(a[3][i], b[3][i])

RECURSIVE Occ(_, _)
Occ(t, nm) ==
  IF t[1] = "var" THEN IF t[2] = nm THEN 1 ELSE 0
  ELSE FoldLeft(LAMBDA acc, c : acc + Occ(c, nm), 0, t[3])
RECURSIVE VarsOf(_), BoundOf(_)
VarsOf(t) == IF t[1] = "var" THEN {t[2]} ELSE UNION {VarsOf(t[3][i]) : i \in DOMAIN t[3]}
BoundOf(t) == (IF t[1] = "let" THEN {t[2]} ELSE {}) \cup UNION {BoundOf(t[3][i]) : i \in DOMAIN t[3]}

EnvUnder(s, env) == LET nm == {s[i][1] : i \in DOMAIN s} IN
  [n \in nm |-> Eval(s[CHOOSE i \in DOMAIN s : s[i][1] = n][2], env, RefFns, "smt", Fuel)] @@ env

Same(ref, got) == IsU(ref) \/ ref = got

CountsOk(cs) ==
  LET got == {cs.counts[i][1] : i \in DOMAIN cs.counts}  bound == BoundOf(cs.rb) IN
  /\ VarsOf(cs.rb) \ bound = got \ bound
  /\ \A i \in DOMAIN cs.counts : cs.counts[i][1] \in bound \/ cs.counts[i][2] = Occ(cs.rb, cs.counts[i][1])

RECURSIVE OverEnvs(_, _)
OverEnvs(cs, i) ==
  IF i > Len(EnvSeq) THEN "ok"
  ELSE LET env == EnvSeq[i]
           ref == TLCEval(Eval(cs.term, env, RefFns, "smt", Fuel)) IN
       IF IsE(ref) THEN "SPECERROR " \o ref[2]
       ELSE IF ~Same(ref, Eval(cs.rb, env, RefFns, "smt", Fuel))
         THEN "assignment " \o ToString(i) \o ": the constructed expression does not have the value of the term"
       ELSE LET s == TLCEval(Eval(cs.simp, env, RefFns, "smt", Fuel)) IN
         IF ~Same(ref, s) THEN "simplify: assignment " \o ToString(i) \o ": " \o ToString(ref) \o " became " \o ToString(s)
       ELSE LET bad == {k \in DOMAIN Substs :
                          LET want == Eval(cs.term, EnvUnder(Substs[k], env), RefFns, "smt", Fuel)
                          IN ~Same(want, Eval(cs.subs[k], env, RefFns, "smt", Fuel))} IN
         IF bad # {} THEN "rewrite: assignment " \o ToString(i) \o ": substitution " \o ToString(CHOOSE k \in bad : TRUE)
                          \o " does not give the value under the substituted values"
       ELSE OverEnvs(cs, i + 1)

JudgeCase(cs) ==
  IF cs.changed # <<>> THEN "operation changed its operand: " \o ToString(cs.changed)
  ELSE IF cs.types # <<>> THEN "type not kept: " \o ToString(cs.types)
  ELSE IF ~TreeEq(cs.mapid[1], cs.mapid[2]) THEN "mapping the identity gives another tree"
  ELSE IF ~cs.mapeq THEN "mapping the identity gives an unequal expression"
  ELSE IF ~cs.hashok THEN "equal expressions hash differently"
  ELSE IF ~CountsOk(cs) THEN "variable-use counts: " \o ToString(cs.counts)
  ELSE OverEnvs(cs, 1)

JudgeForm(f) ==
  IF ~f.same THEN "mapping the identity over a declaration changed it or its type"
  ELSE IF ~TreeEq(f.rb, f.mapid) THEN "mapping the identity over a declaration gives another one"
  ELSE IF ~f.mapeq THEN "mapping the identity over a declaration gives an unequal one" ELSE "ok"

JudgeWin(w) ==
  LET N == 1..Len(w.trees)
      want == {p \in N \X N : TreeEqU(w.trees[p[1]], w.trees[p[2]])}
      got == {<<w.eq[i][1], w.eq[i][2]>> : i \in DOMAIN w.eq}
      gne == {<<w.ne[i][1], w.ne[i][2]>> : i \in DOMAIN w.ne} IN
  IF got = want /\ gne = want THEN "ok"
  ELSE LET p == CHOOSE p \in (got \ want) \cup (want \ got) \cup (gne \ want) \cup (want \ gne) : TRUE IN
       "equality of terms " \o ToString(w.ids[p[1]]) \o " and " \o ToString(w.ids[p[2]])
         \o ": " \o (IF p \in want THEN "equal trees compare unequal" ELSE "different trees compare equal")

VARIABLES c, verdict
vars == <<c, verdict>>
Items == {<<"case", i>> : i \in 1..Len(D.cases)} \cup {<<"form", i>> : i \in 1..Len(D.forms)} \cup {<<"win", i>> : i \in 1..Len(D.wins)}
Judge(x) == CASE x[1] = "case" -> JudgeCase(D.cases[x[2]])
              [] x[1] = "form" -> JudgeForm(D.forms[x[2]])
              [] x[1] = "win" -> JudgeWin(D.wins[x[2]])
IdOf(x) == CASE x[1] = "case" -> D.cases[x[2]].id [] x[1] = "form" -> D.forms[x[2]].id [] x[1] = "win" -> D.wins[x[2]].id
Init == c \in Items /\ verdict = "todo"
Next == verdict = "todo" /\ verdict' = TLCEval(Judge(c)) /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
Report == verdict # "todo" => PrintT("VERDICT " \o ToJson(<<c[1], IdOf(c), verdict>>))
=============================================================================
