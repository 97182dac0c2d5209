------------------------------ MODULE ReadBack ------------------------------
(* Reading a solution back: for every form of a solution file, the function  *)
(* the real reader returns has the declared name, parameters and type, and   *)
(* its body means what the printed form means, under every assignment where  *)
(* the term the form was printed from is defined; and the body still has an  *)
(* SMT text of that meaning and sort (its types survived the reading).       *)
EXTENDS MLSem, Envs, Json, IOUtils

Smt == INSTANCE SmtSem
Rkt == INSTANCE RktSem
O == INSTANCE Ops

D == JsonDeserialize(IOEnv.CASES)
Cases == D.cases   \* [id, term, type, text, back, sig, want, smt, smt0]
Flags == [flag_t |-> <<<<"k">>, <<"bool", TRUE, <<>>, "">>>>, flag_f |-> <<<<"k">>, <<"bool", FALSE, <<>>, "">>>>,
          flag_v |-> <<<<"k">>, <<"var", "k", <<>>, "B">>>>]
RefFns == [f \in DOMAIN O!UserFns |-> <<O!UserFns[f].ps, O!UserFns[f].body>>] @@ Flags

VARIABLES c, verdict, hits
vars == <<c, verdict, hits>>

REnv(i) == [nm \in DOMAIN EnvSeq[i] |-> Rkt!RktOf(EnvSeq[i][nm])]
ToStr(i, a, b) == "assignment " \o ToString(i) \o ": the solution text gives " \o ToString(a) \o " but the function read back gives " \o ToString(b)

HasSmt(cs) == cs.smt0 # <<>>
RECURSIVE Walk(_, _, _)
Walk(cs, i, n) ==
  IF i > Len(EnvSeq) THEN <<"ok", n>>
  ELSE LET ref == TLCEval(Eval(cs.term, EnvSeq[i], RefFns, "rkt", 40)) IN
       IF IsE(ref) THEN <<"SPECERROR " \o ref[2], n>>
       ELSE IF IsU(ref) THEN Walk(cs, i + 1, n)
       ELSE LET txt == TLCEval(IF cs.text = <<>> THEN Rkt!RktOf(ref) ELSE Rkt!Rk(cs.text, REnv(i), D.rkt, 64))
                back == TLCEval(Eval(cs.back, EnvSeq[i], RefFns, "rkt", 40))
                rb == IF IsE(back) \/ IsU(back) THEN back ELSE Rkt!RktOf(back) IN
            IF IsE(txt) \/ IsU(txt) THEN Walk(cs, i + 1, n)
            ELSE IF rb # txt THEN <<ToStr(i, txt, back), n>>
            ELSE LET s0 == TLCEval(IF HasSmt(cs) THEN Smt!Ev(cs.smt0, EnvSeq[i], D.smt, 150) ELSE Undef)
                     s1 == TLCEval(IF IsE(s0) \/ IsU(s0) THEN s0 ELSE Smt!Ev(cs.smt, EnvSeq[i], D.smt, 150)) IN
                 IF s0 # s1 THEN <<"assignment " \o ToString(i) \o ": as a query the solution means " \o ToString(s0)
                                    \o " but the function read back means " \o ToString(s1), n>>
                 ELSE Walk(cs, i + 1, n + 1)

Judge(cs) ==
  IF cs.sig # cs.want THEN <<"declared as " \o cs.want \o " but read back as " \o cs.sig, 0>>
  ELSE LET s0 == IF HasSmt(cs) THEN Smt!SortOf(cs.smt0, VarSorts, D.sigs) ELSE ""
           s1 == IF HasSmt(cs) THEN Smt!SortOf(cs.smt, VarSorts, D.sigs) ELSE "" IN
       IF s0 = SortOfType[cs.type] /\ s1 # s0 THEN <<"sort of the function read back is " \o s1 \o ", expected " \o s0, 0>>
       ELSE Walk(cs, 1, 0)

Init == c \in 1..Len(Cases) /\ verdict = "todo" /\ hits = 0
Next == /\ verdict = "todo"
        /\ LET j == TLCEval(Judge(Cases[c])) IN verdict' = j[1] /\ hits' = j[2]
        /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
Report == verdict # "todo" => PrintT("VERDICT " \o ToJson(<<Cases[c].id, hits, verdict>>))
=============================================================================
