------------------------------- MODULE SmtSem -------------------------------
(* Meaning of the SMT-LIB text metalift emits.                               *)
(*                                                                           *)
(* A text is an s-expression <<"i", n>> (numeral), <<"s", name>> (symbol) or *)
(* <<"l", seq>>.  SortOf is the static sort check (a string sort or an error *)
(* starting with "!"); Ev is the evaluation.  Functions of the shipped       *)
(* theories that are only declared get their standard meaning; everything    *)
(* that is defined (define-fun, define-fun-rec) is interpreted from its      *)
(* definition: sigs[f] = <<arg sorts, result sort>>, defs[f] = <<params,     *)
(* body>>.                                                                    *)
EXTENDS Values

RECURSIVE SortStr(_), JoinSorts(_, _)
SortStr(sx) == IF sx[1] = "s" THEN sx[2]
               ELSE IF sx[1] = "l" THEN "(" \o JoinSorts(sx[2], 1) \o ")" ELSE "!badsort"
JoinSorts(l, i) == IF i > Len(l) THEN ""
                   ELSE (IF i = 1 THEN "" ELSE " ") \o SortStr(l[i]) \o JoinSorts(l, i + 1)

IsErrS(s) == Len(s) > 0 /\ SubSeq(s, 1, 1) = "!"
ElemSort(s) ==       \* "(MLList X)" -> "X"
  IF Len(s) > 9 /\ SubSeq(s, 1, 8) = "(MLList " THEN SubSeq(s, 9, Len(s) - 1) ELSE "!notalist"
SetElem(s) == IF Len(s) > 6 /\ SubSeq(s, 1, 5) = "(Set " THEN SubSeq(s, 6, Len(s) - 1) ELSE "!notaset"
Allowed(senv, sigs) == TRUE

RECURSIVE SortOf(_, _, _)
FirstErr(ss) == ss[CHOOSE i \in DOMAIN ss : IsErrS(ss[i])]
AnyErr(ss) == \E i \in DOMAIN ss : IsErrS(ss[i])
AllAre(ss, t) == \A i \in DOMAIN ss : ss[i] = t
TupCtors == {"tuple1", "tuple2", "tuple3", "tuple4", "tuple5"}
TupSort(ss) == "(Tuple" \o ToString(Len(ss)) \o JoinSorts([i \in 1..(Len(ss) + 1) |->
                  IF i = 1 THEN <<"s", "">> ELSE <<"s", ss[i - 1]>>], 1) \o ")"
(* tupleN_getI: <<f, N, I>> *)
TupSels == UNION {{[f |-> "tuple" \o ToString(nn) \o "_get" \o ToString(ii), n |-> nn, i |-> ii]
                  : ii \in 0..(nn - 1)} : nn \in 1..5}
SelNames == {z.f : z \in TupSels}
SelOf(f) == CHOOSE z \in TupSels : z.f = f

SortApp(f, ss, args, senv, sigs) ==
  CASE AnyErr(ss) -> FirstErr(ss)
    [] f \in {"+", "*"} -> IF Len(ss) >= 1 /\ AllAre(ss, "Int") THEN "Int" ELSE "!" \o f
    [] f = "-" -> IF Len(ss) >= 1 /\ AllAre(ss, "Int") THEN "Int" ELSE "!-"
    [] f \in {"div", "mod"} -> IF Len(ss) = 2 /\ AllAre(ss, "Int") THEN "Int" ELSE "!" \o f
    [] f \in {"<", "<=", ">", ">="} -> IF Len(ss) >= 2 /\ AllAre(ss, "Int") THEN "Bool" ELSE "!" \o f
    [] f = "distinct" -> IF Len(ss) >= 2 /\ AllAre(ss, ss[1]) THEN "Bool" ELSE "!distinct of different sorts"
    [] f = "abs" -> IF ss = <<"Int">> THEN "Int" ELSE "!abs"
    [] f = "=" -> IF Len(ss) >= 2 /\ AllAre(ss, ss[1]) THEN "Bool" ELSE "!= of different sorts"
    [] f \in {"and", "or"} -> IF Len(ss) >= 1 /\ AllAre(ss, "Bool") THEN "Bool" ELSE "!" \o f
    [] f = "=>" -> IF Len(ss) >= 2 /\ AllAre(ss, "Bool") THEN "Bool" ELSE "!=>"
    [] f = "not" -> IF Len(ss) = 1 /\ AllAre(ss, "Bool") THEN "Bool" ELSE "!not"
    [] f = "ite" -> IF Len(ss) = 3 /\ ss[1] = "Bool" /\ ss[2] = ss[3] THEN ss[2] ELSE "!ite"
    [] f = "cons" -> IF Len(ss) = 2 /\ ss[2] = "(MLList " \o ss[1] \o ")" THEN ss[2] ELSE "!cons"
    [] f = "head" -> IF Len(ss) = 1 THEN ElemSort(ss[1]) ELSE "!head"
    [] f = "tail" -> IF Len(ss) = 1 /\ ~IsErrS(ElemSort(ss[1])) THEN ss[1] ELSE "!tail"
    [] f \in TupCtors ->
         IF f = "tuple" \o ToString(Len(ss)) THEN TupSort(ss) ELSE "!tuple arity"
    [] f = "set.singleton" -> IF Len(ss) = 1 THEN "(Set " \o ss[1] \o ")" ELSE "!singleton"
    [] f = "set.insert" -> IF Len(ss) >= 2 /\ (\A i \in 1..(Len(ss) - 1) : "(Set " \o ss[i] \o ")" = ss[Len(ss)])
                           THEN ss[Len(ss)] ELSE "!set.insert"
    [] f \in {"set.union", "set.minus", "set.inter"} ->
         IF Len(ss) = 2 /\ ss[1] = ss[2] /\ ~IsErrS(SetElem(ss[1])) THEN ss[1] ELSE "!" \o f
    [] f = "set.member" -> IF Len(ss) = 2 /\ SetElem(ss[2]) = ss[1] THEN "Bool" ELSE "!set.member"
    [] f = "set.subset" -> IF Len(ss) = 2 /\ ss[1] = ss[2] /\ ~IsErrS(SetElem(ss[1])) THEN "Bool" ELSE "!set.subset"
    [] f = "set.card" -> IF Len(ss) = 1 /\ ~IsErrS(SetElem(ss[1])) THEN "Int" ELSE "!set.card"
    [] f = "make_map" -> IF ss = <<"(Set Int)", "(Array Int Int)">> THEN "(Map Int Int)" ELSE "!make_map"
    [] f = "map_internal_keys" -> IF ss = <<"(Map Int Int)">> THEN "(Set Int)" ELSE "!map_internal_keys"
    [] f = "map_internal_array" -> IF ss = <<"(Map Int Int)">> THEN "(Array Int Int)" ELSE "!map_internal_array"
    [] f = "select" -> IF ss = <<"(Array Int Int)", "Int">> THEN "Int" ELSE "!select"
    [] f \in DOMAIN sigs ->
         IF Len(sigs[f][1]) # Len(ss) THEN "!arity of " \o f
         ELSE IF \E i \in DOMAIN ss : ss[i] # sigs[f][1][i] THEN "!argument sort of " \o f
         ELSE sigs[f][2]
    [] OTHER -> "!undeclared function " \o f

(* selectors of tuples: the component sort is recovered from the argument    *)
(* term itself when it is a constructor application, else from its sort by   *)
(* splitting at the top level                                                *)
RECURSIVE SplitTop(_, _, _, _, _)
SplitTop(s, i, depth, cur, acc) ==
  IF i > Len(s) THEN (IF cur = "" THEN acc ELSE Append(acc, cur))
  ELSE LET c == SubSeq(s, i, i) IN
       IF c = " " /\ depth = 0
       THEN SplitTop(s, i + 1, 0, "", IF cur = "" THEN acc ELSE Append(acc, cur))
       ELSE SplitTop(s, i + 1, IF c = "(" THEN depth + 1 ELSE IF c = ")" THEN depth - 1 ELSE depth,
                     cur \o c, acc)
SortParts(s) == IF Len(s) > 2 /\ SubSeq(s, 1, 1) = "(" THEN SplitTop(SubSeq(s, 2, Len(s) - 1), 1, 0, "", <<>>) ELSE <<s>>

SortOf(x, senv, sigs) ==
  IF x[1] = "i" THEN "Int"
  ELSE IF x[1] = "s" THEN
    IF x[2] \in DOMAIN senv THEN senv[x[2]]
    ELSE IF x[2] \in {"true", "false"} THEN "Bool"
    ELSE IF x[2] \in DOMAIN sigs /\ sigs[x[2]][1] = <<>> THEN sigs[x[2]][2]
    ELSE "!undeclared symbol " \o x[2]
  ELSE LET l == x[2] IN
    IF l = <<>> THEN "!empty application"
    ELSE IF l[1][1] # "s" THEN
      (IF l[1][1] = "l" /\ Len(l[1][2]) = 3 /\ l[1][2][1] = <<"s", "as">> /\ l[1][2][2] = <<"s", "const">>
       THEN SortStr(l[1][2][3]) ELSE "!head is not a symbol")
    ELSE LET f == l[1][2] IN
      CASE f = "as" -> IF Len(l) = 3 /\ l[2] \in {<<"s", "nil">>, <<"s", "set.empty">>} THEN SortStr(l[3]) ELSE "!as"
        [] f = "let" ->
             IF Len(l) # 3 \/ l[2][1] # "l" THEN "!let"
             ELSE LET bs == l[2][2]
                      ss == [i \in DOMAIN bs |-> SortOf(bs[i][2][2], senv, sigs)] IN
                  IF AnyErr(ss) THEN FirstErr(ss)
                  ELSE SortOf(l[3], [nm \in {bs[i][2][1][2] : i \in DOMAIN bs} |->
                           ss[CHOOSE i \in DOMAIN bs : bs[i][2][1][2] = nm]] @@ senv, sigs)
        [] f \in SelNames ->
             IF Len(l) # 2 THEN "!selector arity"
             ELSE LET s == SortOf(l[2], senv, sigs)  sel == SelOf(f) IN
                  IF IsErrS(s) THEN s
                  ELSE LET ps == SortParts(s) IN
                       IF Len(ps) = sel.n + 1 /\ ps[1] = "Tuple" \o ToString(sel.n)
                       THEN ps[sel.i + 2] ELSE "!selector " \o f \o " applied to " \o s
        [] OTHER ->
             LET args == SubSeq(l, 2, Len(l)) IN
             IF args = <<>> THEN "!application without arguments"
             ELSE SortApp(f, [i \in DOMAIN args |-> SortOf(args[i], senv, sigs)], args, senv, sigs)

----------------------------------------------------------------------------
(* Evaluation.  SMT-LIB functions are total; a value the theory leaves open  *)
(* is Undef and Boolean connectives look through it (Kleene).                *)
Std == {"list_length", "list_append", "list_get_helper", "list_take", "matrix_length",
        "matrix_append", "matrix_get_helper", "matrix_take", "map_values"}

RECURSIVE Ev(_, _, _, _)

KAnd(v) == IF \E i \in DOMAIN v : IsE(v[i]) THEN Bad(v)
           ELSE IF \E i \in DOMAIN v : v[i] = B(FALSE) THEN B(FALSE)
           ELSE IF \E i \in DOMAIN v : IsU(v[i]) THEN Undef
           ELSE IF AllB(v) THEN B(TRUE) ELSE Err("and: not Booleans")
KOr(v) == IF \E i \in DOMAIN v : IsE(v[i]) THEN Bad(v)
          ELSE IF \E i \in DOMAIN v : v[i] = B(TRUE) THEN B(TRUE)
          ELSE IF \E i \in DOMAIN v : IsU(v[i]) THEN Undef
          ELSE IF AllB(v) THEN B(FALSE) ELSE Err("or: not Booleans")
KNot(v) == IF IsE(v) \/ IsU(v) THEN v ELSE IF IsB(v) THEN B(~v[2]) ELSE Err("not")

SubAll(v) == IF Len(v) = 1 THEN MkI(-v[1][2])
             ELSE MkI(v[1][2] - SumTo(Tail(v), Len(v) - 1))
Chain(v, R(_, _)) == B(\A i \in 1..(Len(v) - 1) : R(v[i], v[i + 1]))

(* Theory.tla looks at the declared functions in two more ways: "#total"     *)
(* makes reads total (the default past the end, the first element before the *)
(* start); "#fresh" gives the point <<f, args>> a value of its own and       *)
(* "#done" (<<f, points>>) leaves all other points of f open                 *)
Fresh == <<"fresh">>
GetTotal(f, l, i) == IF l[2] = <<>> \/ i[2] >= Len(l[2]) THEN (IF f = "list_get_helper" THEN I(0) ELSE L(<<>>))
                     ELSE IF i[2] <= 0 THEN l[2][1] ELSE l[2][i[2] + 1]
StdApp(f, v) ==
  CASE f = "map_values" -> LET q == SetToSortSeq(v[1][2][2], LAMBDA x, y : x[2] < y[2]) IN L([i \in DOMAIN q |-> v[1][3][2][q[i]]])
    [] f \in {"list_length", "matrix_length"} -> LLen(v[1])
    [] f \in {"list_append", "matrix_append"} -> LAppend(v[1], v[2])
    [] f \in {"list_get_helper", "matrix_get_helper"} -> LGet(v[1], v[2])
    [] f \in {"list_take", "matrix_take"} ->
         IF IsL(v[1]) /\ IsI(v[2]) THEN L(TakeN(v[1][2], v[2][2])) ELSE Err("take")

App(f, v, defs, fuel) ==
  IF \E i \in DOMAIN v : IsE(v[i]) THEN Bad(v)
  ELSE CASE f = "and" -> KAnd(v)
    [] f = "or" -> KOr(v)
    [] f = "=>" -> KOr([i \in DOMAIN v |-> IF i = Len(v) THEN v[i] ELSE KNot(v[i])])
    [] f = "not" -> KNot(v[1])
    [] Bad(v)[1] # "ok" -> Bad(v)
    [] f = "+" -> IF AllI(v) THEN MkI(SumTo(v, Len(v))) ELSE Err("+")
    [] f = "*" -> IF AllI(v) THEN MkI(ProdTo(v, Len(v))) ELSE Err("*")
    [] f = "-" -> IF AllI(v) THEN SubAll(v) ELSE Err("-")
    [] f = "div" -> IF ~AllI(v) THEN Err("div") ELSE IF v[2][2] = 0 THEN Undef ELSE MkI(EuclidDiv(v[1][2], v[2][2]))
    [] f = "mod" -> IF ~AllI(v) THEN Err("mod") ELSE IF v[2][2] = 0 THEN Undef ELSE MkI(EuclidMod(v[1][2], v[2][2]))
    [] f = "<" -> IF AllI(v) THEN Chain(v, LAMBDA a, b : a[2] < b[2]) ELSE Err("<")
    [] f = "<=" -> IF AllI(v) THEN Chain(v, LAMBDA a, b : a[2] <= b[2]) ELSE Err("<=")
    [] f = ">" -> IF AllI(v) THEN Chain(v, LAMBDA a, b : a[2] > b[2]) ELSE Err(">")
    [] f = ">=" -> IF AllI(v) THEN Chain(v, LAMBDA a, b : a[2] >= b[2]) ELSE Err(">=")
    [] f = "distinct" -> B(\A i, j \in DOMAIN v : i < j => v[i] # v[j])
    [] f = "abs" -> IF AllI(v) THEN MkI(Abs(v[1][2])) ELSE Err("abs")
    [] f = "=" -> Chain(v, LAMBDA a, b : a = b)
    [] f = "cons" -> LPrepend(v[1], v[2])
    [] f = "head" -> IF IsL(v[1]) THEN (IF v[1][2] = <<>> THEN Undef ELSE v[1][2][1]) ELSE Err("head")
    (* the theory's axioms force (tail nil) = nil *)
    [] f = "tail" -> IF IsL(v[1]) THEN L(Drop(v[1][2], 1)) ELSE Err("tail")
    [] f \in TupCtors -> T(v)
    [] f \in SelNames -> IF IsT(v[1]) /\ Len(v[1][2]) = SelOf(f).n THEN v[1][2][SelOf(f).i + 1] ELSE Err(f)
    [] f = "set.singleton" -> S({v[1]})
    [] f = "set.insert" -> IF IsS(v[Len(v)]) THEN S(v[Len(v)][2] \cup {v[i] : i \in 1..(Len(v) - 1)}) ELSE Err(f)
    [] f = "set.union" -> IF IsS(v[1]) /\ IsS(v[2]) THEN S(v[1][2] \cup v[2][2]) ELSE Err(f)
    [] f = "set.minus" -> IF IsS(v[1]) /\ IsS(v[2]) THEN S(v[1][2] \ v[2][2]) ELSE Err(f)
    [] f = "set.inter" -> IF IsS(v[1]) /\ IsS(v[2]) THEN S(v[1][2] \cap v[2][2]) ELSE Err(f)
    [] f = "set.member" -> IF IsS(v[2]) THEN B(v[1] \in v[2][2]) ELSE Err(f)
    [] f = "set.subset" -> IF IsS(v[1]) /\ IsS(v[2]) THEN B(v[1][2] \subseteq v[2][2]) ELSE Err(f)
    [] f = "set.card" -> IF IsS(v[1]) THEN I(Cardinality(v[1][2])) ELSE Err(f)
    (* maps: <<"m", key set, <<"a", function, default>>>>                      *)
    [] f = "make_map" -> <<"m", v[1], v[2]>>
    [] f = "map_internal_keys" -> IF v[1][1] = "m" THEN v[1][2] ELSE Err(f)
    [] f = "map_internal_array" -> IF v[1][1] = "m" THEN v[1][3] ELSE Err(f)
    [] f = "select" -> IF v[1][1] # "a" THEN Err(f) ELSE IF v[2] \in DOMAIN v[1][2] THEN v[1][2][v[2]] ELSE v[1][3]
    [] f \in DOMAIN defs ->
         IF Len(defs[f][1]) # Len(v) THEN Err("arity of " \o f)
         ELSE IF fuel = 0 THEN Undef
         ELSE Ev(defs[f][2], [nm \in {defs[f][1][i] : i \in DOMAIN v} |->
                    v[CHOOSE i \in DOMAIN v : defs[f][1][i] = nm]], defs, fuel - 1)
    [] "#total" \in DOMAIN defs /\ f \in {"list_get_helper", "matrix_get_helper"} -> IF IsL(v[1]) /\ IsI(v[2]) THEN GetTotal(f, v[1], v[2]) ELSE Err(f)
    [] f \in Std /\ "#fresh" \in DOMAIN defs /\ defs["#fresh"] = <<f, v>> -> Fresh
    [] f \in Std /\ "#done" \in DOMAIN defs /\ defs["#done"][1] = f /\ ~(v \in defs["#done"][2]) -> Undef
    [] f \in Std -> StdApp(f, v)
    [] OTHER -> Err("unknown function " \o f)

Ev(x, env, defs, fuel) ==
  IF x[1] = "i" THEN I(x[2])
  ELSE IF x[1] = "s" THEN
    IF x[2] \in DOMAIN env THEN env[x[2]]
    ELSE IF x[2] = "true" THEN B(TRUE)
    ELSE IF x[2] = "false" THEN B(FALSE)
    ELSE IF x[2] \in DOMAIN defs /\ defs[x[2]][1] = <<>> THEN
       (IF fuel = 0 THEN Undef ELSE Ev(defs[x[2]][2], <<>>, defs, fuel - 1))
    ELSE Err("unbound " \o x[2])
  ELSE LET l == x[2] IN
    IF l = <<>> THEN Err("()")
    ELSE IF l[1][1] = "l" /\ Len(l) = 2 /\ l[1][2][2] = <<"s", "const">>
    THEN LET v == Ev(l[2], env, defs, fuel) IN IF IsE(v) \/ IsU(v) THEN v ELSE <<"a", <<>>, v>>
    ELSE IF l[1][1] # "s" THEN Err("head is not a symbol")
    ELSE LET f == l[1][2] IN
      CASE f = "as" -> IF l[2] = <<"s", "nil">> THEN L(<<>>) ELSE IF l[2] = <<"s", "set.empty">> THEN S({}) ELSE Err("as")
        [] f = "ite" ->
             IF Len(l) # 4 THEN Err("ite arity")
             ELSE LET c == TLCEval(Ev(l[2], env, defs, fuel)) IN
             IF IsE(c) \/ IsU(c) THEN c
             ELSE IF ~IsB(c) THEN Err("ite")
             ELSE IF c[2] THEN Ev(l[3], env, defs, fuel) ELSE Ev(l[4], env, defs, fuel)
        [] f = "let" ->
             IF Len(l) # 3 THEN Err("let arity")
             ELSE LET bs == l[2][2]
                      v == TLCEval([i \in DOMAIN bs |-> Ev(bs[i][2][2], env, defs, fuel)]) IN
             Ev(l[3], [nm \in {bs[i][2][1][2] : i \in DOMAIN bs} |->
                    v[CHOOSE i \in DOMAIN bs : bs[i][2][1][2] = nm]] @@ env, defs, fuel)
        [] OTHER ->
             LET v == TLCEval([i \in 1..(Len(l) - 1) |-> Ev(l[i + 1], env, defs, fuel)])
             IN App(f, v, defs, fuel)
=============================================================================
