------------------------------- MODULE RktSem -------------------------------
(* Meaning of the Racket/Rosette text metalift emits and of its runtime      *)
(* library (metalift/utils/utils.rkt), which is parsed and interpreted.      *)
(* Racket has lists where the intermediate language has lists, tuples and    *)
(* sets (a set is its sorted list); RktOf gives the representation.          *)
EXTENDS Values

RECURSIVE RktOf(_)
RktOf(v) ==
  CASE v[1] = "l" -> L([i \in DOMAIN v[2] |-> RktOf(v[2][i])])
    [] v[1] = "t" -> L([i \in DOMAIN v[2] |-> RktOf(v[2][i])])
    [] v[1] = "s" -> L([i \in DOMAIN SetToSortSeq(v[2], LAMBDA a, b : a[2] < b[2]) |->
                          RktOf(SetToSortSeq(v[2], LAMBDA a, b : a[2] < b[2])[i])])
    [] OTHER -> v

(* procedures are values too *)
Clo(params, rest, body, env) == <<"c", params, rest, body, env>>
Prm(name) == <<"p", name>>

RECURSIVE Rk(_, _, _, _), RkApply(_, _, _, _), RkCond(_, _, _, _, _), RkAnd(_, _, _, _, _), RkOr(_, _, _, _, _),
          RkMatch(_, _, _, _, _, _), RkOrmap(_, _, _, _, _), RkMap(_, _, _, _, _),
          RkAndmap(_, _, _, _, _), RkFilter(_, _, _, _, _, _), RkFold(_, _, _, _, _, _), RkLets(_, _, _, _, _, _)

Prims == {"+", "-", "*", "<", "<=", ">", ">=", "=", "equal?", "&&", "||", "!", "not", "=>", "length", "list",
          "list-ref", "list-tail", "take", "append", "cons", "car", "cdr", "first", "rest", "list?", "null?", "empty?", "quotient",
          "remainder", "modulo", "list-set", "ormap", "andmap", "map", "apply", "min", "max", "reverse", "add1", "sub1",
          "second", "third", "cadr", "last", "drop", "zero?", "positive?", "negative?", "abs", "filter", "foldl", "foldr", "member", "list*", "boolean?", "integer?",
          "sort", "remove-duplicates"}

Truthy(v) == ~(v = B(FALSE))

RECURSIVE AppendAll(_, _)
AppendAll(v, i) == IF i > Len(v) THEN <<>> ELSE v[i][2] \o AppendAll(v, i + 1)

RECURSIVE Dedup(_, _)
Dedup(q, i) == IF i > Len(q) THEN <<>>
               ELSE (IF \E j \in 1..(i - 1) : q[j] = q[i] THEN <<>> ELSE <<q[i]>>) \o Dedup(q, i + 1)

PrimApp(f, v, G, fuel) ==
  LET n == Len(v) IN
  CASE f = "+" -> IF AllI(v) THEN MkI(SumTo(v, n)) ELSE Err("+: contract violation")
    [] f = "*" -> IF AllI(v) THEN MkI(ProdTo(v, n)) ELSE Err("*: contract violation")
    [] f = "-" -> IF ~AllI(v) \/ n = 0 THEN Err("-: contract violation")
                  ELSE IF n = 1 THEN MkI(-v[1][2]) ELSE MkI(v[1][2] - SumTo(Tail(v), n - 1))
    [] f \in {"<", "<=", ">", ">=", "="} ->
         IF ~AllI(v) THEN Err(f \o ": contract violation")
         ELSE B(\A i \in 1..(n - 1) :
               CASE f = "<" -> v[i][2] < v[i + 1][2] [] f = "<=" -> v[i][2] <= v[i + 1][2]
                 [] f = ">" -> v[i][2] > v[i + 1][2] [] f = ">=" -> v[i][2] >= v[i + 1][2]
                 [] f = "=" -> v[i][2] = v[i + 1][2])
    [] f = "equal?" -> IF n = 2 THEN B(v[1] = v[2]) ELSE Err("equal?: arity")
    [] f = "&&" -> IF AllB(v) THEN B(\A i \in 1..n : v[i][2]) ELSE Err("&&: not a boolean")
    [] f = "||" -> IF AllB(v) THEN B(\E i \in 1..n : v[i][2]) ELSE Err("||: not a boolean")
    [] f = "!" -> IF n = 1 /\ IsB(v[1]) THEN B(~v[1][2]) ELSE Err("!: not a boolean")
    [] f = "not" -> IF n = 1 THEN B(~Truthy(v[1])) ELSE Err("not: arity")
    [] f = "=>" -> IF n = 2 /\ AllB(v) THEN B(~v[1][2] \/ v[2][2]) ELSE Err("=>: not booleans")
    [] f = "length" -> IF n = 1 /\ IsL(v[1]) THEN I(Len(v[1][2])) ELSE Err("length: not a list")
    [] f = "list" -> L(v)
    [] f = "list-ref" -> IF n = 2 /\ IsL(v[1]) /\ IsI(v[2]) /\ v[2][2] >= 0 /\ v[2][2] < Len(v[1][2])
                         THEN v[1][2][v[2][2] + 1] ELSE Err("list-ref: contract violation")
    [] f = "list-tail" -> IF n = 2 /\ IsL(v[1]) /\ IsI(v[2]) /\ v[2][2] >= 0 /\ v[2][2] <= Len(v[1][2])
                         THEN L(Drop(v[1][2], v[2][2])) ELSE Err("list-tail: contract violation")
    [] f = "take" -> IF n = 2 /\ IsL(v[1]) /\ IsI(v[2]) /\ v[2][2] >= 0 /\ v[2][2] <= Len(v[1][2])
                         THEN L(TakeN(v[1][2], v[2][2])) ELSE Err("take: contract violation")
    [] f = "append" -> IF \A i \in 1..n : IsL(v[i]) THEN L(AppendAll(v, 1)) ELSE Err("append: not a list")
    [] f = "cons" -> IF n = 2 /\ IsL(v[2]) THEN L(<<v[1]>> \o v[2][2]) ELSE Err("cons: improper pair")
    [] f \in {"car", "first"} -> IF n = 1 /\ IsL(v[1]) /\ v[1][2] # <<>> THEN v[1][2][1] ELSE Err("car")
    [] f \in {"cdr", "rest"} -> IF n = 1 /\ IsL(v[1]) /\ v[1][2] # <<>> THEN L(Tail(v[1][2])) ELSE Err("cdr")
    [] f = "list?" -> B(IsL(v[1]))
    [] f \in {"null?", "empty?"} -> B(IsL(v[1]) /\ v[1][2] = <<>>)
    [] f = "quotient" -> IF n # 2 \/ ~AllI(v) \/ v[2][2] = 0 THEN Err("quotient") ELSE MkI(TruncDiv(v[1][2], v[2][2]))
    [] f = "remainder" -> IF n # 2 \/ ~AllI(v) THEN Err("remainder") ELSE IF v[2][2] = 0 THEN Err("remainder by 0") ELSE MkI(TruncRem(v[1][2], v[2][2]))
    [] f = "modulo" -> IF n # 2 \/ ~AllI(v) \/ v[2][2] = 0 THEN Err("modulo") ELSE MkI(FloorMod(v[1][2], v[2][2]))
    [] f = "min" -> IF n = 2 /\ AllI(v) THEN I(Min2(v[1][2], v[2][2])) ELSE Err("min")
    [] f = "max" -> IF n = 2 /\ AllI(v) THEN I(Max2(v[1][2], v[2][2])) ELSE Err("max")
    [] f = "add1" -> IF n = 1 /\ AllI(v) THEN MkI(v[1][2] + 1) ELSE Err("add1")
    [] f = "sub1" -> IF n = 1 /\ AllI(v) THEN MkI(v[1][2] - 1) ELSE Err("sub1")
    [] f = "reverse" -> IF n = 1 /\ IsL(v[1]) THEN L([i \in 1..Len(v[1][2]) |-> v[1][2][Len(v[1][2]) + 1 - i]]) ELSE Err("reverse")
    [] f = "list-set" -> IF n = 3 /\ IsL(v[1]) /\ IsI(v[2]) /\ v[2][2] >= 0 /\ v[2][2] < Len(v[1][2])
                         THEN L([v[1][2] EXCEPT ![v[2][2] + 1] = v[3]]) ELSE Err("list-set")
    [] f = "ormap" -> IF n = 2 /\ IsL(v[2]) THEN RkOrmap(v[1], v[2][2], 1, G, fuel) ELSE Err("ormap")
    [] f = "map" -> IF n = 2 /\ IsL(v[2]) THEN RkMap(v[1], v[2][2], 1, G, fuel) ELSE Err("map")
    [] f = "andmap" -> IF n = 2 /\ IsL(v[2]) THEN RkAndmap(v[1], v[2][2], 1, G, fuel) ELSE Err("andmap")
    [] f = "apply" -> IF n >= 2 /\ IsL(v[n]) THEN RkApply(v[1], SubSeq(v, 2, n - 1) \o v[n][2], G, fuel) ELSE Err("apply")
    [] f \in {"second", "cadr"} -> IF n = 1 /\ IsL(v[1]) /\ Len(v[1][2]) >= 2 THEN v[1][2][2] ELSE Err(f)
    [] f = "third" -> IF n = 1 /\ IsL(v[1]) /\ Len(v[1][2]) >= 3 THEN v[1][2][3] ELSE Err(f)
    [] f = "last" -> IF n = 1 /\ IsL(v[1]) /\ v[1][2] # <<>> THEN v[1][2][Len(v[1][2])] ELSE Err(f)
    [] f = "drop" -> IF n = 2 /\ IsL(v[1]) /\ IsI(v[2]) /\ v[2][2] >= 0 /\ v[2][2] <= Len(v[1][2]) THEN L(Drop(v[1][2], v[2][2])) ELSE Err(f)
    [] f = "zero?" -> IF n = 1 /\ AllI(v) THEN B(v[1][2] = 0) ELSE Err(f)
    [] f = "positive?" -> IF n = 1 /\ AllI(v) THEN B(v[1][2] > 0) ELSE Err(f)
    [] f = "negative?" -> IF n = 1 /\ AllI(v) THEN B(v[1][2] < 0) ELSE Err(f)
    [] f = "abs" -> IF n = 1 /\ AllI(v) THEN MkI(Abs(v[1][2])) ELSE Err(f)
    [] f = "boolean?" -> B(IsB(v[1]))
    [] f = "integer?" -> B(IsI(v[1]))
    [] f = "member" -> IF n = 2 /\ IsL(v[2]) THEN (IF \E i \in DOMAIN v[2][2] : v[2][2][i] = v[1]
                         THEN L(Drop(v[2][2], (CHOOSE i \in DOMAIN v[2][2] : v[2][2][i] = v[1] /\ \A j \in 1..(i - 1) : v[2][2][j] # v[1]) - 1)) ELSE B(FALSE)) ELSE Err(f)
    [] f = "list*" -> IF n >= 1 /\ IsL(v[n]) THEN L(SubSeq(v, 1, n - 1) \o v[n][2]) ELSE Err(f)
    [] f = "sort" -> IF n = 2 /\ IsL(v[1]) /\ AllI(v[1][2]) /\ v[2] \in {<<"p", "<">>, <<"p", ">">>}
                      THEN L(SortSeq(v[1][2], LAMBDA a, b : IF v[2] = <<"p", "<">> THEN a[2] < b[2] ELSE a[2] > b[2])) ELSE Err(f)
    [] f = "remove-duplicates" -> IF n = 1 /\ IsL(v[1]) THEN L(Dedup(v[1][2], 1)) ELSE Err(f)
    [] f = "filter" -> IF n = 2 /\ IsL(v[2]) THEN RkFilter(v[1], v[2][2], 1, <<>>, G, fuel) ELSE Err(f)
    [] f = "foldl" -> IF n = 3 /\ IsL(v[3]) THEN RkFold(v[1], v[2], v[3][2], 1, G, fuel) ELSE Err(f)
    [] f = "foldr" -> IF n = 3 /\ IsL(v[3]) THEN RkFold(v[1], v[2], [i \in DOMAIN v[3][2] |-> v[3][2][Len(v[3][2]) + 1 - i]], 1, G, fuel) ELSE Err(f)
    [] OTHER -> Err("unmodelled primitive " \o f)

RkOrmap(f, s, i, G, fuel) ==
  IF i > Len(s) THEN B(FALSE)
  ELSE LET r == TLCEval(RkApply(f, <<s[i]>>, G, fuel)) IN
       IF IsE(r) \/ IsU(r) THEN r ELSE IF Truthy(r) THEN r ELSE RkOrmap(f, s, i + 1, G, fuel)
RkAndmap(f, s, i, G, fuel) ==
  IF i > Len(s) THEN B(TRUE)
  ELSE LET r == TLCEval(RkApply(f, <<s[i]>>, G, fuel)) IN
       IF IsE(r) \/ IsU(r) \/ ~Truthy(r) \/ i = Len(s) THEN r ELSE RkAndmap(f, s, i + 1, G, fuel)
RkFilter(f, s, i, acc, G, fuel) ==
  IF i > Len(s) THEN L(acc)
  ELSE LET r == TLCEval(RkApply(f, <<s[i]>>, G, fuel)) IN
       IF IsE(r) \/ IsU(r) THEN r ELSE RkFilter(f, s, i + 1, IF Truthy(r) THEN Append(acc, s[i]) ELSE acc, G, fuel)
RkFold(f, acc, s, i, G, fuel) ==
  IF i > Len(s) THEN acc
  ELSE LET r == TLCEval(RkApply(f, <<s[i], acc>>, G, fuel)) IN
       IF IsE(r) \/ IsU(r) THEN r ELSE RkFold(f, r, s, i + 1, G, fuel)
RkMap(f, s, i, G, fuel) ==
  LET r == TLCEval([j \in 1..Len(s) |-> RkApply(f, <<s[j]>>, G, fuel)])  bad == Bad(r) IN
  IF bad[1] # "ok" THEN bad ELSE L(r)

RkApply(f, v, G, fuel) ==
  LET bad == Bad(v) IN
  IF bad[1] # "ok" THEN bad
  ELSE IF f[1] = "p" THEN PrimApp(f[2], v, G, fuel)
  ELSE IF f[1] # "c" THEN Err("application: not a procedure")
  ELSE IF fuel = 0 THEN Undef
  ELSE LET ps == f[2]  rest == f[3]  np == Len(ps) IN
    IF Len(v) < np \/ (rest = "" /\ Len(v) # np) THEN Err("arity mismatch")
    ELSE Rk(f[4],
       [nm \in {ps[i] : i \in DOMAIN ps} |-> v[CHOOSE i \in DOMAIN ps : ps[i] = nm]]
         @@ (IF rest = "" THEN <<>> ELSE (rest :> L(SubSeq(v, np + 1, Len(v))))) @@ f[5],
       G, fuel - 1)

RkAnd(l, i, env, G, fuel) ==
  IF i > Len(l) THEN B(TRUE)
  ELSE LET v == TLCEval(Rk(l[i], env, G, fuel)) IN
       IF IsE(v) \/ IsU(v) \/ ~Truthy(v) \/ i = Len(l) THEN v ELSE RkAnd(l, i + 1, env, G, fuel)
RkOr(l, i, env, G, fuel) ==
  IF i > Len(l) THEN B(FALSE)
  ELSE LET v == TLCEval(Rk(l[i], env, G, fuel)) IN
       IF IsE(v) \/ IsU(v) \/ Truthy(v) THEN v ELSE RkOr(l, i + 1, env, G, fuel)

RkCond(l, i, env, G, fuel) ==
  IF i > Len(l) THEN Err("cond: no clause")
  ELSE LET cl == l[i][2] IN
       IF cl[1] = <<"s", "else">> THEN Rk(cl[Len(cl)], env, G, fuel)
       ELSE LET c == TLCEval(Rk(cl[1], env, G, fuel)) IN
            IF IsE(c) \/ IsU(c) THEN c
            ELSE IF Truthy(c) THEN Rk(cl[Len(cl)], env, G, fuel) ELSE RkCond(l, i + 1, env, G, fuel)

(* match patterns used by the runtime library: name, (list), (list p ...),   *)
(* (list p rest ...)                                                          *)
Ell == <<"s", "...">>
PatOk(p, v) ==
  IF p[1] = "s" THEN TRUE
  ELSE IF p[2][1] # <<"s", "list">> \/ ~IsL(v) THEN FALSE
  ELSE LET it == SubSeq(p[2], 2, Len(p[2])) IN
       IF it # <<>> /\ it[Len(it)] = Ell THEN Len(v[2]) >= Len(it) - 2
       ELSE Len(v[2]) = Len(it)
PatBind(p, v) ==
  IF p[1] = "s" THEN (p[2] :> v)
  ELSE LET it == SubSeq(p[2], 2, Len(p[2])) IN
       IF it = <<>> THEN <<>>
       ELSE IF it[Len(it)] = Ell
       THEN LET k == Len(it) - 2 IN
            [nm \in {it[i][2] : i \in 1..k} |-> v[2][CHOOSE i \in 1..k : it[i][2] = nm]]
              @@ (it[k + 1][2] :> L(SubSeq(v[2], k + 1, Len(v[2]))))
       ELSE [nm \in {it[i][2] : i \in DOMAIN it} |-> v[2][CHOOSE i \in DOMAIN it : it[i][2] = nm]]

RECURSIVE BindAll(_, _, _)
BindAll(ps, vs, i) == IF i > Len(ps) THEN <<>> ELSE PatBind(ps[i], vs[i]) @@ BindAll(ps, vs, i + 1)
RkMatch(clauses, i, vs, env, G, fuel) ==
  IF i > Len(clauses) THEN Err("match*: no matching clause")
  ELSE LET cl == clauses[i][2]  ps == cl[1][2] IN
       IF Len(ps) = Len(vs) /\ \A j \in DOMAIN ps : PatOk(ps[j], vs[j])
       THEN Rk(cl[2], BindAll(ps, vs, 1) @@ env, G, fuel)
       ELSE RkMatch(clauses, i + 1, vs, env, G, fuel)

RkLets(bs, i, body, env, G, fuel) ==
  IF i > Len(bs) THEN Rk(body, env, G, fuel)
  ELSE LET v == TLCEval(Rk(bs[i][2][2], env, G, fuel)) IN
       IF IsE(v) \/ IsU(v) THEN v ELSE RkLets(bs, i + 1, body, (bs[i][2][1][2] :> v) @@ env, G, fuel)

Rk(x, env, G, fuel) ==
  IF x[1] = "i" THEN I(x[2])
  ELSE IF x[1] = "s" THEN
    IF x[2] \in DOMAIN env THEN env[x[2]]
    ELSE IF x[2] \in {"true", "#t"} THEN B(TRUE)
    ELSE IF x[2] \in {"false", "#f"} THEN B(FALSE)
    ELSE IF x[2] \in DOMAIN G THEN Clo(G[x[2]][1], G[x[2]][2], G[x[2]][3], <<>>)
    ELSE IF x[2] \in Prims THEN Prm(x[2])
    ELSE Err("unbound identifier " \o x[2])
  ELSE LET l == x[2] IN
    IF l = <<>> THEN Err("missing procedure expression")
    ELSE LET f == IF l[1][1] = "s" /\ l[1][2] \notin DOMAIN env THEN l[1][2] ELSE "" IN
      CASE f = "if" ->
             IF Len(l) # 4 THEN Err("if: bad syntax")
             ELSE LET c == TLCEval(Rk(l[2], env, G, fuel)) IN
             IF IsE(c) \/ IsU(c) THEN c
             ELSE IF Truthy(c) THEN Rk(l[3], env, G, fuel) ELSE Rk(l[4], env, G, fuel)
        [] f = "and" -> RkAnd(l, 2, env, G, fuel)
        [] f = "or" -> RkOr(l, 2, env, G, fuel)
        [] f = "cond" -> RkCond(l, 2, env, G, fuel)
        [] f = "let" ->
             LET bs == l[2][2]
                 v == TLCEval([i \in DOMAIN bs |-> Rk(bs[i][2][2], env, G, fuel)])  bad == Bad(v) IN
             IF bad[1] # "ok" THEN bad
             ELSE Rk(l[Len(l)], [nm \in {bs[i][2][1][2] : i \in DOMAIN bs} |->
                        v[CHOOSE i \in DOMAIN bs : bs[i][2][1][2] = nm]] @@ env, G, fuel)
        [] f = "begin" ->
             LET v == TLCEval([i \in 1..(Len(l) - 1) |-> Rk(l[i + 1], env, G, fuel)])  bad == Bad(v) IN IF bad[1] # "ok" THEN bad ELSE v[Len(v)]
        [] f = "assert" ->
             LET v == TLCEval(Rk(l[2], env, G, fuel)) IN IF IsE(v) \/ IsU(v) THEN v ELSE IF Truthy(v) THEN B(TRUE) ELSE Err("assert")
        (* parameters are procedures without arguments; G is passed down the    *)
        (* dynamic extent                                                      *)
        [] f = "parameterize" ->
             LET bs == l[2][2]
                 v == TLCEval([i \in DOMAIN bs |-> Rk(bs[i][2][2], env, G, fuel)])  bad == Bad(v) IN
             IF bad[1] # "ok" THEN bad
             ELSE IF ~AllI(v) THEN Err("parameterize") ELSE Rk(l[Len(l)], env, [nm \in {bs[i][2][1][2] : i \in DOMAIN bs} |->
                        <<<<>>, "", v[CHOOSE i \in DOMAIN bs : bs[i][2][1][2] = nm]>>] @@ G, fuel)
        [] f = "let*" -> RkLets(l[2][2], 1, l[Len(l)], env, G, fuel)
        [] f = "lambda" -> Clo([i \in DOMAIN l[2][2] |-> l[2][2][i][2]], "", l[3], env)
        [] f = "match*" ->
             LET ms == l[2][2]
                 v == TLCEval([i \in DOMAIN ms |-> Rk(ms[i], env, G, fuel)])  bad == Bad(v) IN
             IF bad[1] # "ok" THEN bad ELSE RkMatch(SubSeq(l, 3, Len(l)), 1, v, env, G, fuel)
        [] OTHER ->
             LET fv == TLCEval(Rk(l[1], env, G, fuel)) IN
             IF IsE(fv) THEN fv
             ELSE LET v == TLCEval([i \in 1..(Len(l) - 1) |-> Rk(l[i + 1], env, G, fuel)])
                  IN RkApply(fv, v, G, fuel)
=============================================================================
