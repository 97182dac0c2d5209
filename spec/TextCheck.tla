----------------------------- MODULE TextCheck ------------------------------
(* Conformance of emitted text: for every term TLC generated and the real     *)
(* library printed, the meaning of the printed text (per back end) equals    *)
(* the meaning of the term, under every assignment where the term is         *)
(* defined.  One state per term; the verdict names what differs.             *)
EXTENDS MLSem, Envs, Json, IOUtils

Smt == INSTANCE SmtSem
Rkt == INSTANCE RktSem
Py == INSTANCE PySem
O == INSTANCE Ops

D == JsonDeserialize(IOEnv.CASES)
Cases == D.cases          \* [id, be, term, type, text]
BE == IOEnv.BACKEND

RefFns == [f \in DOMAIN O!UserFns |-> <<O!UserFns[f].ps, O!UserFns[f].body>>]
Fuel == 40
(* nesting of definitions an emitted text may use (the Rosette runtime's own bound is 64) *)
TFuel == IF BE = "rkt" THEN 64 ELSE 150

VARIABLES c, verdict, hits
vars == <<c, verdict, hits>>

TextValue(cs, i) ==
  IF BE = "smt" THEN Smt!Ev(cs.text, EnvSeq[i], D.defs, TFuel)
  ELSE IF BE = "rkt" THEN Rkt!Rk(cs.text, [nm \in DOMAIN EnvSeq[i] |-> Rkt!RktOf(EnvSeq[i][nm])], D.defs, TFuel)
  ELSE Py!Py(cs.text, EnvSeq[i], D.defs, TFuel)
RefValue(cs, i) == Eval(cs.term, EnvSeq[i], RefFns, BE, Fuel)
Repr(v) == IF BE = "rkt" THEN Rkt!RktOf(v) ELSE v

RECURSIVE Walk(_, _, _)
(* <<verdict, number of assignments on which the term is defined>> *)
Walk(cs, i, n) ==
  IF i > Len(EnvSeq) THEN <<"ok", n>>
  ELSE LET ref == TLCEval(RefValue(cs, i)) IN
       IF IsE(ref) THEN <<"SPECERROR " \o ref[2], n>>
       ELSE IF IsU(ref) THEN Walk(cs, i + 1, n)
       ELSE LET got == TLCEval(TextValue(cs, i)) IN
            IF got = Repr(ref) THEN Walk(cs, i + 1, n + 1)
            ELSE <<"assignment " \o ToString(i) \o ": means " \o ToString(ref) \o " but the text gives " \o ToString(got), n>>

Sorted(cs) ==
  IF BE # "smt" THEN "ok"
  ELSE LET s == Smt!SortOf(cs.text, VarSorts, D.sigs) IN
       IF s = SortOfType[cs.type] THEN "ok" ELSE "sort of the text is " \o s \o ", expected " \o SortOfType[cs.type]

Judge(cs) == LET s == Sorted(cs) IN IF s # "ok" THEN <<s, 0>> ELSE Walk(cs, 1, 0)

Init == c \in 1..Len(Cases) /\ verdict = "todo" /\ hits = 0
Next == /\ verdict = "todo"
        /\ LET j == TLCEval(Judge(Cases[c])) IN verdict' = j[1] /\ hits' = j[2]
        /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
Report == verdict # "todo" => PrintT("VERDICT " \o ToJson(<<Cases[c].id, hits, verdict>>))
=============================================================================
