------------------------------- MODULE ReadPy -------------------------------
(* P16: a proposal the reader accepts means, as the expression it became,     *)
(* what it means in Python: under every assignment where Python gives a value *)
(* and the intermediate language fixes one, the two agree.                    *)
EXTENDS PyLib
P == INSTANCE PySem

Cases == D.cases           \* [id, fns, back: [err, bad, fns]]

Vals(f, i) == [nm \in ToSet(ParamNames(f)) |-> EnvSeq[i][nm]]
RECURSIVE Walk(_, _, _, _, _, _)
Walk(f, g, py, ml, i, n) ==
  IF i > Len(EnvSeq) THEN <<"ok", n>>
  ELSE LET p == TLCEval(P!Py(f.body, Vals(f, i), py, 40)) IN
       IF IsE(p) \/ IsU(p) THEN Walk(f, g, py, ml, i + 1, n)
       ELSE LET m == TLCEval(Eval(g.body, Vals(f, i), ml, "py", 60)) IN
            IF IsU(m) THEN (IF NegSub(f.body) THEN <<"a subscript counts from the end in Python, but nothing is fixed for the expression read (" \o f.name \o ")", n>>
                            ELSE Walk(f, g, py, ml, i + 1, n))
            ELSE IF p # m THEN <<f.name \o ": assignment " \o ToString(i) \o ": Python gives " \o ToString(p) \o " but the expression read means " \o ToString(m), n>>
            ELSE Walk(f, g, py, ml, i + 1, n + 1)
RECURSIVE All(_, _, _, _, _, _)
All(fs, gs, py, ml, j, n) ==
  IF j > Len(fs) THEN <<"ok", n>>
  ELSE LET f == fs[j]  g == gs[CHOOSE k \in DOMAIN gs : gs[k].name = f.name]  w == TLCEval(Walk(f, g, py, ml, 1, 0)) IN
       IF ToSet(g.ps) # ToSet(f.ps) \/ Len(g.ps) # Len(f.ps) THEN <<"the parameters of " \o f.name \o " are read as others: " \o ToString(g.ps), n>>
       ELSE IF g.ret # f.ret THEN <<f.name \o " is read with result type " \o g.ret, n>>
       ELSE IF w[1] # "ok" THEN w ELSE All(fs, gs, py, ml, j + 1, n + w[2])
Judge(cs) ==
  IF cs.back.err # "" THEN <<"rejected", 0>>
  ELSE IF cs.back.bad # "" THEN <<cs.back.bad, 0>>
  ELSE LET fs == [i \in DOMAIN cs.fns |-> [cs.fns[i] EXCEPT !.body = Norm(@)]]
           gs == [i \in DOMAIN cs.back.fns |-> [cs.back.fns[i] EXCEPT !.body = Refs(@)]] IN
       All(fs, gs, Fns(fs, Id) @@ LibPy, Fns(gs, Id) @@ LibML, 1, 0)

VARIABLES c, verdict
vars == <<c, verdict>>
Init == c \in 1..Len(Cases) /\ verdict = <<"todo", 0>>
Next == verdict[1] = "todo" /\ verdict' = TLCEval(Judge(Cases[c])) /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
Report == verdict[1] # "todo" => PrintT("VERDICT " \o ToJson(<<Cases[c].id, verdict[2], verdict[1]>>))
=============================================================================
