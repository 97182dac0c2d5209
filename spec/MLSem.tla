------------------------------- MODULE MLSem --------------------------------
(* Denotational semantics of the intermediate language.                      *)
(*                                                                           *)
(* A term is <<kind, payload, args, how>>:  `how` says with which call of the *)
(* library the term was built; it has no influence on the meaning.           *)
(*                                                                           *)
(* Eval(e, env, fns, be): env maps variables to values, fns maps user        *)
(* functions to <<params, body>>, be is the back end the value is going to   *)
(* be compared with ("smt", "rkt", "py"); it only decides which cases are    *)
(* left open (Undef), never a value.                                         *)
EXTENDS Values

RECURSIVE Eval(_, _, _, _, _)
RECURSIVE AndFrom(_, _, _, _, _, _), OrFrom(_, _, _, _, _, _)

Bind(names, vals, env) ==
  [n \in {names[i] : i \in DOMAIN names} |->
     vals[CHOOSE i \in DOMAIN names : names[i] = n]] @@ env

(* and / or are read left to right; Rosette's && is strict *)
AndFrom(args, i, env, fns, be, fuel) ==
  IF i > Len(args) THEN B(TRUE)
  ELSE LET v == TLCEval(Eval(args[i], env, fns, be, fuel)) IN
       IF IsE(v) \/ IsU(v) THEN v
       ELSE IF ~IsB(v) THEN Err("and: not a Boolean")
       ELSE IF v[2] THEN AndFrom(args, i + 1, env, fns, be, fuel)
       ELSE IF be = "rkt" THEN
              LET r == AndFrom(args, i + 1, env, fns, be, fuel)
              IN IF IsE(r) \/ IsU(r) THEN r ELSE B(FALSE)
       ELSE B(FALSE)

OrFrom(args, i, env, fns, be, fuel) ==
  IF i > Len(args) THEN B(FALSE)
  ELSE LET v == TLCEval(Eval(args[i], env, fns, be, fuel)) IN
       IF IsE(v) \/ IsU(v) THEN v
       ELSE IF ~IsB(v) THEN Err("or: not a Boolean")
       ELSE IF v[2] THEN B(TRUE)
       ELSE OrFrom(args, i + 1, env, fns, be, fuel)

Arith(k, v) ==
  IF ~AllI(v) THEN Err(k \o ": not integers")
  ELSE CASE k = "add" -> MkI(SumTo(v, Len(v)))
         [] k = "mul" -> MkI(ProdTo(v, Len(v)))
         [] k = "sub" -> MkI(v[1][2] - v[2][2])
         (* the back ends disagree on negative operands; left open (see DESIGN) *)
         [] k = "div" -> IF v[1][2] < 0 \/ v[2][2] <= 0 THEN Undef ELSE I(v[1][2] \div v[2][2])
         [] k = "mod" -> IF v[1][2] < 0 \/ v[2][2] <= 0 THEN Undef ELSE I(v[1][2] % v[2][2])
         [] k = "lt" -> B(v[1][2] < v[2][2])
         [] k = "le" -> B(v[1][2] <= v[2][2])
         [] k = "gt" -> B(v[1][2] > v[2][2])
         [] k = "ge" -> B(v[1][2] >= v[2][2])
         [] OTHER -> Err("unknown arithmetic " \o k)

ArithKinds == {"add", "mul", "sub", "div", "mod", "lt", "le", "gt", "ge"}

Prim(k, pl, v, be) ==
  CASE k \in ArithKinds -> Arith(k, v)
    [] k = "eq" -> VEq(v[1], v[2])
    [] k = "ne" -> LET r == VEq(v[1], v[2]) IN IF IsE(r) THEN r ELSE B(~r[2])
    [] k = "not" -> IF IsB(v[1]) THEN B(~v[1][2]) ELSE Err("not: kinds")
    [] k = "tuple" -> T(v)
    [] k = "tget" -> IF IsT(v[1]) /\ pl + 1 \in DOMAIN v[1][2] THEN v[1][2][pl + 1] ELSE Err("tget")
    [] k = "llen" -> LLen(v[1])
    [] k = "lget" -> LGet(v[1], v[2])
    [] k = "ltail" -> LTail(v[1], v[2])
    [] k = "ltake" -> LTake(v[1], v[2])
    [] k = "lslice" -> LSlice(v[1], v[2], v[3])
    [] k = "lslicelen" -> LSliceLen(v[1], v[2], v[3])
    [] k = "lappend" -> LAppend(v[1], v[2])
    [] k = "lprepend" -> LPrepend(v[1], v[2])
    [] k = "lconcat" -> LConcat(v[1], v[2])
    [] k = "lempty" -> L(<<>>)
    [] k = "mcolslice" ->
         MColSlice(v[1], v[2], v[3])
    [] k = "mcolslicelen" ->
         LET r == MColSlice(v[1], v[2], MkI(v[2][2] + v[3][2])) IN
         IF v[3][2] < 0 THEN Undef
         ELSE r
    [] k = "mtranspose" -> MTranspose(v[1])
    (* column j of a rectangular matrix *)
    [] k = "mcolvec" ->
         IF ~IsMat(v[1]) \/ ~IsI(v[2]) THEN Err("col_vec")
         ELSE LET m == v[1][2]  j == v[2][2] IN
              IF m = <<>> \/ ~IsRect(v[1]) THEN Undef
              ELSE IF j < 0 \/ j >= Len(m[1][2]) THEN Undef
              ELSE L([i \in 1..Len(m) |-> m[i][2][j + 1]])
    [] k = "sempty" -> S({})
    [] k = "ssingleton" -> S({v[1]})
    [] k = "sinsert" -> IF IsS(v[2]) THEN S(v[2][2] \cup {v[1]}) ELSE Err("insert")
    [] k = "sremove" -> IF IsS(v[1]) THEN S(v[1][2] \ {v[2]}) ELSE Err("remove")
    [] k = "sunion" -> IF IsS(v[1]) /\ IsS(v[2]) THEN S(v[1][2] \cup v[2][2]) ELSE Err("union")
    [] k = "sminus" -> IF IsS(v[1]) /\ IsS(v[2]) THEN S(v[1][2] \ v[2][2]) ELSE Err("minus")
    [] k = "smember" -> IF IsS(v[2]) THEN B(v[1] \in v[2][2]) ELSE Err("member")
    [] k = "ssubset" -> IF IsS(v[1]) /\ IsS(v[2]) THEN B(v[1][2] \subseteq v[2][2]) ELSE Err("subset")
    [] k = "iexp" -> IF ~IsI(v[1]) THEN Err("exp") ELSE IF v[1][2] > 30 THEN Undef ELSE I(Exp64(v[1][2]))
    [] k = "relaxedvals" -> Err("choice")
    [] OTHER -> Err("unknown kind " \o k)

Eval(e, env, fns, be, fuel) ==
  LET k == e[1]  pl == e[2]  a == e[3] IN
  IF fuel = 0 THEN Undef
  ELSE CASE k = "var" -> IF pl \in DOMAIN env THEN env[pl] ELSE Err("free variable " \o pl)
    [] k = "int" -> I(pl)
    [] k = "bool" -> B(pl)
    [] k = "and" -> AndFrom(a, 1, env, fns, be, fuel)
    [] k = "or" -> OrFrom(a, 1, env, fns, be, fuel)
    [] k = "implies" ->
         LET p == TLCEval(Eval(a[1], env, fns, be, fuel)) IN
         IF IsE(p) \/ IsU(p) THEN p
         ELSE IF ~IsB(p) THEN Err("implies: kinds")
         ELSE LET q == TLCEval(Eval(a[2], env, fns, be, fuel)) IN
              IF IsE(q) THEN q
              ELSE IF ~p[2] /\ be # "rkt" THEN B(TRUE)
              ELSE IF IsU(q) THEN q
              ELSE IF ~IsB(q) THEN Err("implies: kinds")
              ELSE B(~p[2] \/ q[2])
    [] k = "ite" ->
         LET c == TLCEval(Eval(a[1], env, fns, be, fuel)) IN
         IF IsE(c) \/ IsU(c) THEN c
         ELSE IF ~IsB(c) THEN Err("ite: kinds")
         ELSE IF c[2] THEN Eval(a[2], env, fns, be, fuel) ELSE Eval(a[3], env, fns, be, fuel)
    [] k = "let" ->
         LET v == TLCEval(Eval(a[1], env, fns, be, fuel)) IN
         IF IsE(v) \/ IsU(v) THEN v
         ELSE Eval(a[2], (pl :> v) @@ env, fns, be, fuel)
    [] k = "call" ->
         LET v == TLCEval([i \in DOMAIN a |-> Eval(a[i], env, fns, be, fuel)])  bad == Bad(v) IN
         IF bad[1] # "ok" THEN bad
         ELSE IF pl \notin DOMAIN fns THEN Err("unknown function " \o pl)
         ELSE IF Len(fns[pl][1]) # Len(v) THEN Err("arity of " \o pl)
         ELSE Eval(fns[pl][2], Bind(fns[pl][1], v, <<>>), fns, be, fuel - 1)
    (* functions passed to functions: the value of a name is the name *)
    [] k = "fnref" -> <<"fn", pl>>
    (* a function given in place: its free variables are the caller's *)
    [] k = "closure" -> <<"clo", pl, a[1], env>>
    [] k = "callv" ->
         LET v == TLCEval([i \in DOMAIN a |-> Eval(a[i], env, fns, be, fuel)])  bad == Bad(v) IN
         IF bad[1] # "ok" THEN bad
         ELSE IF v[1][1] = "clo" THEN
           (IF Len(v[1][2]) # Len(v) - 1 THEN Err("arity of a function in place") ELSE Eval(v[1][3], Bind(v[1][2], Tail(v), v[1][4]), fns, be, fuel - 1))
         ELSE IF v[1][1] # "fn" THEN Err("callv: not a function")
         ELSE IF v[1][2] \notin DOMAIN fns THEN Err("unknown function " \o v[1][2])
         ELSE LET f == fns[v[1][2]]  w == Tail(v) IN
              IF Len(f[1]) # Len(w) THEN Err("arity of " \o v[1][2])
              ELSE Eval(f[2], Bind(f[1], w, <<>>), fns, be, fuel - 1)
    [] OTHER ->
         LET v == TLCEval([i \in DOMAIN a |-> Eval(a[i], env, fns, be, fuel)])  bad == Bad(v) IN
         IF bad[1] # "ok" THEN bad ELSE Prim(k, pl, v, be)
=============================================================================
