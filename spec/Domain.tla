------------------------------- MODULE Domain -------------------------------
(* P18.  The program written for bounded synthesis or bounded verification:   *)
(* a configuration is a set of typed variables, a length bound, the integer   *)
(* mode and the number of rounds.  GEN_MODE=gen enumerates configurations;    *)
(* GEN_MODE=check reads what the real code wrote for each of them -- the      *)
(* forms of the program -- and runs it: symbolic declarations introduce       *)
(* inputs, definitions compute from them, sessions (synthesize / verify)      *)
(* quantify over inputs.  The values each variable reaches are compared with  *)
(* the values of its type within the bound.                                   *)
EXTENDS RktSem, Json, IOUtils, Randomization

Mode == IOEnv.GEN_MODE
Full == IOEnv.GEN_FULL = "1"
J == IF Mode = "check" THEN JsonDeserialize(IOEnv.CASES) ELSE [cases |-> <<>>, rkt |-> <<>>]

----------------------------------------------------------------------------
(* types: <<kind, components>> *)
TI == <<"I", <<>>>>
TB == <<"B", <<>>>>
TyL(t) == <<"L", <<t>>>>
TyS(t) == <<"S", <<t>>>>
TyM(t) == <<"M", <<t>>>>
TyX(t) == <<"X", <<t>>>>
TyT(ts) == <<"T", ts>>
Types == <<TI, TB, TyL(TI), TyL(TB), TyS(TI), TyM(TI), TyM(TB), TyX(TI), TyL(TyL(TI)), TyL(TyL(TB)), TyL(TyS(TI)), TyT(<<TI, TI>>), TyT(<<TB, TyL(TI)>>),
           TyL(TyT(<<TI, TB>>)), TyT(<<TyS(TI), TI, TyT(<<TB, TI>>)>>), TyT(<<TyM(TI), TyM(TI)>>), TyL(TyL(TyL(TI)))>>

(* the values of a type, as Racket holds them (tuples are lists, sets are     *)
(* sorted lists); D: the integers considered                                  *)
RECURSIVE SeqsUpTo(_, _)
SeqsUpTo(X, n) == IF n = 0 THEN {<<>>} ELSE LET r == TLCEval(SeqsUpTo(X, n - 1)) IN r \cup [1..n -> X]
RECURSIVE Prods(_)
Prods(ss) == IF ss = <<>> THEN {<<>>} ELSE {<<h>> \o t : h \in Head(ss), t \in Prods(Tail(ss))}
RECURSIVE Vals(_, _, _)
Vals(t, b, D) ==
  CASE t[1] = "I" -> {I(i) : i \in D}
    [] t[1] = "B" -> {B(TRUE), B(FALSE)}
    [] t[1] = "L" -> LET X == TLCEval(Vals(t[2][1], b, D)) IN {L(q) : q \in SeqsUpTo(X, b)}
    [] t[1] = "S" -> {L([i \in DOMAIN SetToSortSeq(X, <) |-> I(SetToSortSeq(X, <)[i])]) : X \in {Y \in SUBSET D : Cardinality(Y) <= b}}
    (* rows of exactly b entries *)
    [] t[1] = "M" -> LET X == TLCEval(Vals(t[2][1], b, D)) IN {L(q) : q \in SeqsUpTo({L(r) : r \in [1..b -> X]}, b)}
    [] t[1] = "X" -> LET X == TLCEval(Vals(t[2][1], b, D)) IN {L(q) : q \in SeqsUpTo({L(m) : m \in [1..b -> {L(r) : r \in [1..b -> X]}]}, b)}
    [] t[1] = "T" -> {L(q) : q \in Prods([i \in DOMAIN t[2] |-> TLCEval(Vals(t[2][i], b, D))])}

----------------------------------------------------------------------------
(* configurations *)
Names == <<"a", "b", "a1">>
Flags == {<<FALSE, FALSE, 0>>, <<TRUE, FALSE, 0>>, <<FALSE, FALSE, 2>>, <<FALSE, TRUE, 0>>, <<TRUE, TRUE, 0>>, <<TRUE, FALSE, 1>>, <<TRUE, FALSE, 2>>}
Singles == {<<<<Names[1], Types[i]>>>> : i \in DOMAIN Types}
Pairs == {<<<<Names[1], Types[i]>>, <<Names[2], Types[j]>>>> : i \in DOMAIN Types, j \in DOMAIN Types}
Triples == {<<<<Names[1], Types[i]>>, <<Names[2], Types[j]>>, <<Names[3], Types[k]>>>> : i \in {1, 3, 5, 6}, j \in {2, 3, 9}, k \in {1, 6, 12}}
VarSeqs == {<<>>} \cup Singles \cup (IF Full THEN Pairs \cup Triples ELSE RandomSubset(40, Pairs) \cup RandomSubset(15, Triples))
VARIABLES cfg, done
Init == done = FALSE /\ cfg \in (IF Mode = "gen" THEN
           {<<vs, b, f[1], f[2], f[3]>> : vs \in Singles, b \in 1..3, f \in {<<FALSE, FALSE, 0>>}}
             \cup {<<vs, 2, f[1], f[2], f[3]>> : vs \in {<<>>} \cup {<<<<Names[1], Types[i]>>, <<Names[2], TB>>>> : i \in {1, 2, 3, 9, 13}}, f \in Flags}
             \cup {<<vs, b, f[1], f[2], f[3]>> : vs \in VarSeqs, b \in (IF Full THEN 1..3 ELSE {1, 2}), f \in (IF Full THEN Flags ELSE RandomSubset(2, Flags))} ELSE {<<>>})
Next == ~done /\ done' = TRUE /\ UNCHANGED cfg
Spec == Init /\ [][Next]_<<cfg, done>>
Emit == (Mode = "gen" /\ done) => PrintT("CFG " \o ToJson([vars |-> cfg[1], bound |-> cfg[2], unbounded |-> cfg[3], verify |-> cfg[4], rounds |-> cfg[5]]))

----------------------------------------------------------------------------
(* running the program that was written: its forms in order *)
Hd(f) == IF f[1] = "l" /\ f[2] # <<>> /\ f[2][1][1] = "s" THEN f[2][1][2] ELSE ""
RECURSIVE Syms(_)
Syms(x) == IF x[1] = "s" THEN {x[2]} ELSE IF x[1] = "l" THEN UNION {Syms(x[2][i]) : i \in DOMAIN x[2]} ELSE {}

(* forms -> [ins: seq of <<name, sort>>, defs: seq of <<name, body>>, ...]    *)
RECURSIVE Load(_, _, _)
Load(fs, i, P) ==
  IF i > Len(fs) THEN P
  ELSE LET f == fs[i]  h == Hd(f) IN
    Load(fs, i + 1,
      CASE h = "define-symbolic" /\ Len(f[2]) >= 3 ->
             LET n == Len(f[2])  new == [k \in 1..(n - 2) |-> <<f[2][k + 1][2], f[2][n][2]>>] IN
             [P EXCEPT !.ins = @ \o new, !.order = @ \o [k \in DOMAIN new |-> new[k][1]]]
        [] h = "define" /\ Len(f[2]) = 3 /\ f[2][2][1] = "s" /\ Hd(f[2][3]) # "synthesize" ->
             [P EXCEPT !.defs = Append(@, <<f[2][2][2], f[2][3]>>), !.order = Append(@, f[2][2][2])]
        [] h = "define" /\ Len(f[2]) = 3 /\ f[2][2][1] = "s" -> [P EXCEPT !.sessions = Append(@, f[2][3])]
        [] h = "define" /\ Len(f[2]) = 3 /\ f[2][2] = <<"l", <<<<"s", "assertions">>>>>> -> [P EXCEPT !.cond = Append(@, f[2][3])]
        [] h = "verify" -> [P EXCEPT !.sessions = Append(@, f)]
        [] h = "current-bitwidth" -> [P EXCEPT !.width = Append(@, f[2][2])]
        [] OTHER -> P)
Program(c) == Load(c.forms, 1, [ins |-> <<>>, defs |-> <<>>, order |-> <<>>, sessions |-> <<>>, cond |-> <<>>, width |-> <<>>])

InNames(P) == {P.ins[i][1] : i \in DOMAIN P.ins}
RECURSIVE Lens(_)
(* the inputs used as a length *)
Lens(x) == IF x[1] # "l" THEN {} ELSE UNION {Lens(x[2][i]) : i \in DOMAIN x[2]} \cup (IF Hd(x) = "take" /\ Len(x[2]) = 3 THEN Syms(x[2][3]) ELSE {})
AllLens(P) == UNION {Lens(P.defs[i][2]) : i \in DOMAIN P.defs}

DefOf(P, n) == P.defs[CHOOSE i \in DOMAIN P.defs : P.defs[i][1] = n][2]
IsDef(P, n) == \E i \in DOMAIN P.defs : P.defs[i][1] = n
(* the inputs a name depends on *)
RECURSIVE Supp(_, _, _)
Supp(P, n, fuel) == IF fuel = 0 THEN {} ELSE IF n \in InNames(P) THEN {n} ELSE IF IsDef(P, n) THEN UNION {Supp(P, s, fuel - 1) : s \in Syms(DefOf(P, n))} ELSE {}
SortOf(P, n) == P.ins[CHOOSE i \in DOMAIN P.ins : P.ins[i][1] = n][2]

(* the definitions in order, from an assignment of inputs *)
RECURSIVE RunDefs(_, _, _, _)
RunDefs(P, i, env, only) ==
  IF i > Len(P.defs) THEN env
  ELSE IF P.defs[i][1] \notin only THEN RunDefs(P, i + 1, env, only)
  ELSE LET v == TLCEval(Rk(P.defs[i][2], env, <<>>, 60)) IN RunDefs(P, i + 1, (P.defs[i][1] :> v) @@ env, only)
RECURSIVE DefsBelow(_, _, _)
DefsBelow(P, n, fuel) == IF fuel = 0 \/ ~IsDef(P, n) THEN {} ELSE {n} \cup UNION {DefsBelow(P, s, fuel - 1) : s \in Syms(DefOf(P, n))}

RECURSIVE HasErr(_)
HasErr(v) == IsE(v) \/ (IsL(v) /\ \E i \in DOMAIN v[2] : HasErr(v[2][i]))

RECURSIVE ProdCap(_, _)
ProdCap(ks, cap) == IF ks = <<>> THEN 1 ELSE LET r == ProdCap(Tail(ks), cap) IN IF r > cap THEN r ELSE r * Head(ks)

(* assignments of the inputs in s.  A taken length out of range stops the     *)
(* program there, so it is no input of the sessions.                          *)
RECURSIVE Assigns(_, _)
Assigns(ns, dom) == IF ns = <<>> THEN {<<>>}
                    ELSE {(Head(ns) :> d) @@ r : d \in dom[Head(ns)], r \in Assigns(Tail(ns), dom)}

RECURSIVE Leaves(_), Blank(_), Tags(_, _)
Leaves(v) == IF IsL(v) THEN LET q == [i \in DOMAIN v[2] |-> Leaves(v[2][i])] IN FoldSeq(LAMBDA a, b : b \o a, <<>>, q) ELSE <<v>>
Blank(v) == IF IsL(v) THEN L([i \in DOMAIN v[2] |-> Blank(v[2][i])]) ELSE IF IsI(v) THEN I(0) ELSE B(FALSE)
Tags(ns, k) == IF ns = <<>> THEN <<>> ELSE (Head(ns) :> {I(100 + k)}) @@ Tags(Tail(ns), k + 1)
RECURSIVE Inspected(_)
Inspected(t) == t[1] \in {"B", "S"} \/ \E i \in DOMAIN t[2] : Inspected(t[2][i])

D01 == {0, 1}
Cap == 40000
Reach(P, n, dom) ==
  LET su == Supp(P, n, 12)  ns == SetToSeq(su)  only == DefsBelow(P, n, 12) IN
  {RunDefs(P, 1, a, only)[n] : a \in Assigns(ns, dom)}
DomOf(P, su, b, wide) ==
  [s \in su |-> IF SortOf(P, s) = "boolean?" THEN {B(TRUE), B(FALSE)}
                ELSE IF s \in AllLens(P) THEN {I(i) : i \in (IF wide THEN -1 ELSE 0)..(IF wide THEN b + 1 ELSE b)} ELSE {I(i) : i \in D01}]
VarOk(P, v, b) ==
  LET n == v[1]  t == v[2]  su == Supp(P, n, 12)  ns == SetToSeq(su)
      dw == DomOf(P, su, b, TRUE)  dn == DomOf(P, su, b, FALSE)
      size(d) == ProdCap([i \in DOMAIN ns |-> Cardinality(d[ns[i]])], Cap)
      Judge(got, want) ==
        LET good == {x \in got : ~HasErr(x)} IN
        IF good = want THEN "ok"
        ELSE IF want \ good # {} THEN "a value is never reached: " \o ToString(CHOOSE x \in want \ good : TRUE)
        ELSE "a value outside the domain is reached: " \o ToString(CHOOSE x \in good \ want : TRUE) IN
  IF su = {} THEN "not declared"
  ELSE IF size(dw) <= Cap THEN Judge(TLCEval(Reach(P, n, dw)), TLCEval(Vals(t, b, D01)))
  ELSE IF size(dn) <= Cap THEN Judge(TLCEval(Reach(P, n, dn)), TLCEval(Vals(t, b, D01)))
  ELSE IF Inspected(t) THEN "skip"
  ELSE (* every input its own value: entries are distinct inputs, shapes as intended *)
    LET rest == SetToSeq(su \ AllLens(P))
        dt == Tags(rest, 1) @@ [s \in (su \cap AllLens(P)) |-> dn[s]] IN
    IF ProdCap([i \in DOMAIN ns |-> Cardinality(dt[ns[i]])], Cap) > Cap THEN "skip"
    ELSE LET got == TLCEval(Reach(P, n, dt))  good == {x \in got : ~HasErr(x)} IN
      IF \E x \in good : Cardinality(ToSet(Leaves(x))) # Len(Leaves(x)) THEN "two entries are the same input"
      ELSE IF \E x \in good : \E i \in DOMAIN Leaves(x) : Leaves(x)[i] \notin UNION {dt[s] : s \in ToSet(rest)} THEN "an entry is no input"
      ELSE Judge({Blank(x) : x \in good}, TLCEval(Vals(t, b, {0})))

At(P, n) == CHOOSE k \in DOMAIN P.order : P.order[k] = n
Early(P) == UNION {{s \in Syms(P.defs[i][2]) : (\E k \in DOMAIN P.order : P.order[k] = s) /\ At(P, s) >= At(P, P.defs[i][1])} : i \in DOMAIN P.defs}

(* a session quantifies over every input once *)
Keyword(f, k) == CHOOSE i \in DOMAIN f[2] : f[2][i] = <<"s", k>>
SessionOk(P, f) ==
  IF Hd(f) = "verify" THEN f = <<"l", <<<<"s", "verify">>, <<"l", <<<<"s", "assertions">>>>>>>>>>
  ELSE /\ \E i \in DOMAIN f[2] : f[2][i] = <<"s", "#:forall">>
       /\ LET q == f[2][Keyword(f, "#:forall") + 1] IN
          /\ Hd(q) = "list"
          /\ Len(q[2]) - 1 = Cardinality(InNames(P))
          /\ {q[2][i] : i \in 2..Len(q[2])} = {<<"s", n>> : n \in InNames(P)}
       /\ \E i \in DOMAIN f[2] : f[2][i] = <<"s", "#:guarantee">>
       /\ LET g == f[2][Keyword(f, "#:guarantee") + 1]  call == <<"l", <<<<"s", "assertions">>>>>> IN
          g = call \/ (Hd(g) = "begin" /\ g[2][Len(g[2])] = call)

(* the condition, evaluated on assignments of the inputs: for every pair of   *)
(* variables of one type it states their equality                             *)
RECURSIVE Conj(_, _, _)
Conj(pairs, env, i) == i > Len(pairs) \/ (env[pairs[i][1]] = env[pairs[i][2]] /\ Conj(pairs, env, i + 1))
CondOk(c, P) ==
  LET ns == SetToSeq(InNames(P))
      asg(k) == [i \in 1..Len(ns) |->
                  IF SortOf(P, ns[i]) = "boolean?" THEN B((k * 7 + (IF k % 2 = 0 THEN 0 ELSE i * 5)) % 3 = 0)
                  ELSE I(IF k % 2 = 0 THEN (IF k % 4 = 0 THEN 0 ELSE 1) ELSE (k * 3 + i * (k + 1)) % 2)] IN
  \A k \in 1..12 :
    LET a == [n \in InNames(P) |-> asg(k)[CHOOSE i \in DOMAIN ns : ns[i] = n]]
        env == RunDefs(P, 1, a, {P.defs[i][1] : i \in DOMAIN P.defs})
        r == Rk(P.cond[1], env, J.rkt, 60) IN
    (\E i \in DOMAIN c.vars : HasErr(env[c.vars[i][1]])) \/ r = (IF Conj(c.pairs, env, 1) THEN B(TRUE) ELSE Err("assert"))

Judge(c) ==
  IF c.err # "" THEN "error: " \o c.err
  ELSE LET P == Program(c)  b == c.bound
           decl == P.order
           res == [i \in DOMAIN c.vars |-> VarOk(P, c.vars[i], b)] IN
  IF \E i \in DOMAIN decl : \E j \in DOMAIN decl : i # j /\ decl[i] = decl[j] THEN "declared twice: " \o decl[CHOOSE i \in DOMAIN decl : \E j \in DOMAIN decl : i # j /\ decl[i] = decl[j]]
  ELSE IF Early(P) # {} THEN "used before its definition: " \o (CHOOSE n \in Early(P) : TRUE)
  ELSE IF \E i \in DOMAIN c.vars : ~\E k \in DOMAIN decl : decl[k] = c.vars[i][1] THEN "a variable is not declared"
  ELSE IF \E i \in DOMAIN c.vars : \E j \in DOMAIN c.vars : i # j /\ Supp(P, c.vars[i][1], 12) \cap Supp(P, c.vars[j][1], 12) # {} THEN "two variables depend on one input"
  ELSE IF InNames(P) # UNION {Supp(P, c.vars[i][1], 12) : i \in DOMAIN c.vars} THEN "an input belongs to no variable"
  ELSE IF \E i \in DOMAIN res : res[i] \notin {"ok", "skip"} THEN
       LET i == CHOOSE j \in DOMAIN res : res[j] \notin {"ok", "skip"} IN c.vars[i][2][1] \o " variable: " \o res[i]
  ELSE IF Len(P.width) # 1 \/ P.width[1] # (IF c.unbounded THEN <<"s", "#f">> ELSE <<"i", 6>>) THEN "the integer mode is not the configured one"
  ELSE IF Len(P.cond) # 1 THEN "the condition is not stated once"
  ELSE IF Len(P.sessions) # (IF c.verify THEN 1 ELSE c.rounds + 1) \/ \E i \in DOMAIN P.sessions : (Hd(P.sessions[i]) = "verify") # c.verify THEN "other sessions than asked for"
  ELSE IF \E i \in DOMAIN P.sessions : ~SessionOk(P, P.sessions[i]) THEN "a session does not range over every input once"
  ELSE IF ~CondOk(c, P) THEN "the asserted condition is not the verification condition"
  ELSE "ok"
Skipped(c) == c.err = "" /\ \E i \in DOMAIN c.vars : VarOk(Program(c), c.vars[i], c.bound) = "skip"

ASSUME \A i \in DOMAIN J.cases : PrintT("VERDICT " \o ToJson(<<i - 1, Judge(J.cases[i]), Skipped(J.cases[i])>>))
=============================================================================
