----------------------------- MODULE GramCheck ------------------------------
(* P08: the bodies an emitted grammar derives are the resolutions of the     *)
(* declared one.  Both are sets: a resolution picks one alternative at every  *)
(* occurrence of a choice; a derivation replaces every occurrence of a        *)
(* nonterminal by one of its productions.  Bodies are compared by what they   *)
(* mean under the assignments of Envs.                                       *)
EXTENDS MLSem, Envs, Json, IOUtils, FiniteSets

Smt == INSTANCE SmtSem
Rkt == INSTANCE RktSem
O == INSTANCE Ops

D == JsonDeserialize(IOEnv.CASES)
Cases == D.cases
RefFns == [f \in DOMAIN O!UserFns |-> <<O!UserFns[f].ps, O!UserFns[f].body>>]

VARIABLES c, verdict, hits
vars == <<c, verdict, hits>>

RECURSIVE Res(_), ResSeq(_, _)
Res(e) == IF e[1] = "choose" THEN UNION {Res(e[3][i]) : i \in DOMAIN e[3]}
          ELSE {<<e[1], e[2], q, e[4]>> : q \in ResSeq(e[3], 1)}
ResSeq(as, i) == IF i > Len(as) THEN {<<>>} ELSE {<<h>> \o q : h \in Res(as[i]), q \in ResSeq(as, i + 1)}
RECURSIVE ChoiceFree(_)
ChoiceFree(e) == e[1] # "choose" /\ \A i \in DOMAIN e[3] : ChoiceFree(e[3][i])

(* prods: name -> alternatives; ref(x): the nonterminal x stands for, or "" *)
RECURSIVE Derive(_, _, _, _), DeriveSeq(_, _, _, _, _), DeriveAny(_, _, _, _)
NtOf(x, prods, be) ==
  IF be = "smt" /\ x[1] = "s" /\ x[2] \in DOMAIN prods THEN x[2]
  ELSE IF be = "rkt" /\ x[1] = "l" /\ Len(x[2]) = 1 /\ x[2][1][1] = "s" /\ x[2][1][2] \in DOMAIN prods THEN x[2][1][2] ELSE ""
IsChoose(x, be) == be = "rkt" /\ x[1] = "l" /\ Len(x[2]) > 1 /\ x[2][1] = <<"s", "choose">>
Derive(x, prods, be, depth) ==
  LET nt == NtOf(x, prods, be) IN
  IF nt # "" THEN (IF depth = 0 THEN {} ELSE DeriveAny(prods[nt], prods, be, depth - 1))
  ELSE IF IsChoose(x, be) THEN DeriveAny(Tail(x[2]), prods, be, depth)
  ELSE IF x[1] = "l" THEN {<<"l", q>> : q \in DeriveSeq(x[2], 1, prods, be, depth)}
  ELSE {x}
DeriveAny(alts, prods, be, depth) == UNION {Derive(alts[i], prods, be, depth) : i \in DOMAIN alts}
DeriveSeq(l, i, prods, be, depth) ==
  IF i > Len(l) THEN {<<>>} ELSE {<<h>> \o q : h \in Derive(l[i], prods, be, depth), q \in DeriveSeq(l, i + 1, prods, be, depth)}

Names(q) == [i \in DOMAIN q |-> q[i][1]]
Fun(q, F(_)) == [nm \in {q[i][1] : i \in DOMAIN q} |-> F(q[CHOOSE i \in DOMAIN q : q[i][1] = nm])]
Distinct(q) == \A i, j \in DOMAIN q : i # j => q[i] # q[j]
NE == Len(EnvSeq)
(* values of the parameters, by position *)
Actual(cs, i) == [k \in DOMAIN cs.vars |-> EnvSeq[i][cs.vars[k][2]]]
ByName(ps, vals) == [nm \in {ps[k] : k \in DOMAIN ps} |-> vals[CHOOSE k \in DOMAIN ps : ps[k] = nm]]

DeclVec(cs, e, be) ==
  [i \in 1..NE |-> LET v == Eval(e, ByName(Names(cs.vars), Actual(cs, i)), RefFns, be, 40) IN IF IsU(v) \/ IsE(v) \/ be = "smt" THEN v ELSE Rkt!RktOf(v)]
SmtVec(cs, x) == [i \in 1..NE |-> Smt!Ev(x, ByName(Names(cs.smt.ps), Actual(cs, i)), D.smt.defs, 150)]
RktVec(cs, x, ps) ==
  [i \in 1..NE |-> Rkt!Rk(x, ByName(ps, [k \in DOMAIN ps |-> Rkt!RktOf(ByName(cs.rkt.ps, Actual(cs, i))[cs.rkt.actual[k]])]), D.rkt, 64)]
Agree(d, e) == \A i \in 1..NE : IsU(d[i]) \/ d[i] = e[i]
SpecErrs(dv) == {v[i][2] : <<v, i>> \in {<<w, j>> \in dv \X (1..NE) : IsE(w[j])}}

(* what is wrong with the emitted set of value vectors, if anything *)
Compare(decl, der, be) ==
  LET lost == {e \in DOMAIN decl : \A x \in DOMAIN der : ~Agree(decl[e], der[x])}
      extra == {x \in DOMAIN der : \A e \in DOMAIN decl : ~Agree(decl[e], der[x])} IN
  IF lost # {} THEN be \o ": declared but not derivable: " \o ToString(CHOOSE e \in lost : TRUE)
  ELSE IF extra # {} THEN LET x == CHOOSE y \in extra : TRUE IN be \o ": derivable but not declared: " \o ToString(x) \o " with values " \o ToString(der[x])
  ELSE "ok"

SmtWell(cs) ==
  LET g == cs.smt
      sorts == ByName(Names(g.ps), [k \in DOMAIN g.ps |-> g.ps[k][2]]) @@ ByName(Names(g.decls), [k \in DOMAIN g.decls |-> g.decls[k][2]]) IN
  IF Len(g.ps) # Len(cs.vars) THEN "smt: arity"
  ELSE IF \E k \in DOMAIN g.ps : g.ps[k][2] # SortOfType[cs.vars[k][3]] THEN "smt: sorts of the parameters"
  ELSE IF g.ret # SortOfType[cs.type] THEN "smt: sort of the result"
  ELSE IF g.decls = <<>> \/ [k \in DOMAIN g.decls |-> <<g.decls[k][1], g.decls[k][2]>>] # [k \in DOMAIN g.rules |-> <<g.rules[k][1], g.rules[k][2]>>]
       THEN "smt: the nonterminals declared are not those defined"
  ELSE IF g.decls[1][2] # g.ret THEN "smt: sort of the start symbol"
  ELSE IF ~Distinct(Names(g.ps) \o Names(g.decls)) THEN "smt: a nonterminal has the name of a parameter"
  ELSE LET bad == {<<k, j>> \in (DOMAIN g.rules) \X (1..60) : j <= Len(g.rules[k][3]) /\ Smt!SortOf(g.rules[k][3][j], sorts, D.smt.sigs) # g.rules[k][2]} IN
       IF bad = {} THEN "ok"
       ELSE LET b == CHOOSE b \in bad : TRUE IN "smt: sort of an alternative of " \o g.rules[b[1]][1] \o " is " \o Smt!SortOf(g.rules[b[1]][3][b[2]], sorts, D.smt.sigs) \o ", declared " \o g.rules[b[1]][2]
RktWell(cs) ==
  LET g == cs.rkt IN
  IF Len(g.ps) # Len(cs.vars) THEN "rkt: arity"
  ELSE IF ~Distinct(g.ps) THEN "rkt: parameter names"
  ELSE IF g.start # g.gname THEN "rkt: the function does not use its grammar"
  ELSE IF Len(g.actual) # Len(g.gps) \/ \E k \in DOMAIN g.actual : g.actual[k] \notin {g.ps[j] : j \in DOMAIN g.ps} THEN "rkt: parameters handed to the grammar"
  ELSE IF ~Distinct(g.gps \o Names(g.prods)) THEN "rkt: a nonterminal has the name of a parameter"
  ELSE "ok"

Judge(cs) ==
  LET res == TLCEval(Res(cs.term))
      decl(be) == TLCEval([e \in res |-> DeclVec(cs, e, be)])
      ds == decl("smt")
      errs == SpecErrs({ds[e] : e \in res}) IN
  IF errs # {} THEN <<"SPECERROR " \o ToString(errs), 0>>
  ELSE IF ~ChoiceFree(cs.arb) THEN <<"arbitrary: a choice is left in " \o ToString(cs.arb), 0>>
  ELSE IF LET av == TLCEval(DeclVec(cs, cs.arb, "smt")) IN \A e \in res : ~Agree(ds[e], av) THEN <<"arbitrary: no resolution means what " \o ToString(cs.arb) \o " means", 0>>
  ELSE LET w == SmtWell(cs) IN IF w # "ok" THEN <<w, 0>>
  ELSE LET prods == Fun(cs.smt.rules, LAMBDA q : q[3])
           xs == TLCEval(Derive(<<"s", cs.smt.decls[1][1]>>, prods, "smt", 60))
           v == Compare(ds, TLCEval([x \in xs |-> SmtVec(cs, x)]), "smt") IN IF v # "ok" THEN <<v, 0>>
  ELSE LET r == RktWell(cs) IN IF r # "ok" THEN <<r, 0>>
  ELSE LET rprods == Fun(cs.rkt.prods, LAMBDA q : q[2])
           rx == TLCEval(Derive(<<"l", << <<"s", cs.rkt.prods[1][1]>> >> >>, rprods, "rkt", cs.rkt.depth + 1))
           rv == Compare(decl("rkt"), TLCEval([x \in rx |-> RktVec(cs, x, cs.rkt.gps)]), "rkt") IN
       <<rv, Cardinality(res)>>

Init == c \in 1..Len(Cases) /\ verdict = "todo" /\ hits = 0
Next == /\ verdict = "todo"
        /\ LET j == TLCEval(Judge(Cases[c])) IN verdict' = j[1] /\ hits' = j[2]
        /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
Report == verdict # "todo" => PrintT("VERDICT " \o ToJson(<<Cases[c].id, hits, verdict>>))
=============================================================================
