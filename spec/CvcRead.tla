------------------------------ MODULE CvcRead -------------------------------
(* Reading a candidate of the SyGuS solver: the function the real reader      *)
(* returns has the declared signature, its body means what the candidate's    *)
(* text means, under every assignment where the term the text was printed     *)
(* from is defined, and its own SMT text has that meaning and sort.           *)
EXTENDS MLSem, Envs, Json, IOUtils

Smt == INSTANCE SmtSem
O == INSTANCE Ops

D == JsonDeserialize(IOEnv.CASES)
Cases == D.cases   \* [id, term, type, text, back, sig, want, smt]
Flags == [flag_t |-> <<<<"k">>, <<"bool", TRUE, <<>>, "">>>>, flag_f |-> <<<<"k">>, <<"bool", FALSE, <<>>, "">>>>,
          flag_v |-> <<<<"k">>, <<"var", "k", <<>>, "B">>>>]
RefFns == [f \in DOMAIN O!UserFns |-> <<O!UserFns[f].ps, O!UserFns[f].body>>] @@ Flags

VARIABLES c, verdict, hits
vars == <<c, verdict, hits>>

Gives(i, a, b, w) == "assignment " \o ToString(i) \o ": the candidate means " \o ToString(a) \o " but " \o w \o " means " \o ToString(b)
RECURSIVE Walk(_, _, _)
Walk(cs, i, n) ==
  IF i > Len(EnvSeq) THEN <<"ok", n>>
  ELSE LET ref == TLCEval(Eval(cs.term, EnvSeq[i], RefFns, "smt", 40)) IN
       IF IsE(ref) THEN <<"SPECERROR " \o ref[2], n>>
       ELSE IF IsU(ref) THEN Walk(cs, i + 1, n)
       ELSE LET txt == TLCEval(Smt!Ev(cs.text, EnvSeq[i], D.smt, 150)) IN
            IF IsE(txt) \/ IsU(txt) THEN Walk(cs, i + 1, n)
            ELSE LET back == TLCEval(Eval(cs.back, EnvSeq[i], RefFns, "smt", 40))
                     s1 == TLCEval(Smt!Ev(cs.smt, EnvSeq[i], D.smt, 150)) IN
                 IF back # txt THEN <<Gives(i, txt, back, "the function read"), n>>
                 ELSE IF s1 # txt THEN <<Gives(i, txt, s1, "its text in the query"), n>>
                 ELSE Walk(cs, i + 1, n + 1)
Judge(cs) ==
  IF cs.sig # cs.want THEN <<"declared as " \o cs.want \o " but read as " \o cs.sig, 0>>
  ELSE LET s0 == Smt!SortOf(cs.smt0, VarSorts, D.sigs)  s1 == Smt!SortOf(cs.smt, VarSorts, D.sigs) IN
       IF s0 = SortOfType[cs.type] /\ s1 # s0 THEN <<"sort of the function read is " \o s1 \o ", expected " \o s0, 0>>
       ELSE Walk(cs, 1, 0)

Init == c \in 1..Len(Cases) /\ verdict = "todo" /\ hits = 0
Next == /\ verdict = "todo"
        /\ LET j == TLCEval(Judge(Cases[c])) IN verdict' = j[1] /\ hits' = j[2]
        /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
Report == verdict # "todo" => PrintT("VERDICT " \o ToJson(<<Cases[c].id, hits, verdict>>))
=============================================================================
