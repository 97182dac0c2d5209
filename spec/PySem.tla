------------------------------- MODULE PySem --------------------------------
(* Meaning of the Python source metalift generates (a Python syntax tree as  *)
(* <<node, payload, children>>).  An exception is Err.                       *)
EXTENDS Values

RECURSIVE Py(_, _, _, _), PyExec(_, _, _, _, _), PyBool(_, _, _, _, _, _), PyCmp(_, _, _, _, _, _, _), PyElems(_, _, _, _, _)

(* bool is an int in Python *)
AsI(v) == IF IsB(v) THEN I(IF v[2] THEN 1 ELSE 0) ELSE v
IsNum(v) == IsI(v) \/ IsB(v)
PyTruthy(v) == CASE IsB(v) -> v[2] [] IsI(v) -> v[2] # 0 [] IsL(v) -> v[2] # <<>> [] IsT(v) -> v[2] # <<>> [] OTHER -> TRUE
PyEq(a, b) == IF IsNum(a) /\ IsNum(b) THEN B(AsI(a) = AsI(b)) ELSE B(a = b)

Clamp(i, n) == IF i < 0 THEN Max2(0, i + n) ELSE Min2(i, n)

PyBin(op, a, b) ==
  IF op = "Add" /\ IsL(a) /\ IsL(b) THEN L(a[2] \o b[2])
  ELSE IF op = "Add" /\ IsT(a) /\ IsT(b) THEN T(a[2] \o b[2])
  ELSE IF ~IsNum(a) \/ ~IsNum(b) THEN Err("TypeError: " \o op)
  ELSE LET x == AsI(a)[2]  y == AsI(b)[2] IN
       CASE op = "Add" -> MkI(x + y) [] op = "Sub" -> MkI(x - y)
         [] op = "Mult" -> MkI(x * y)
         [] op = "FloorDiv" -> IF y = 0 THEN Err("ZeroDivisionError") ELSE MkI(FloorDiv(x, y))
         [] op = "Mod" -> IF y = 0 THEN Err("ZeroDivisionError") ELSE MkI(FloorMod(x, y))
         [] OTHER -> Err("unmodelled operator " \o op)

PyRel(op, a, b) ==
  CASE op = "Eq" -> PyEq(a, b)
    [] op = "NotEq" -> B(~PyEq(a, b)[2])
    [] op \in {"Lt", "LtE", "Gt", "GtE"} ->
         IF ~IsNum(a) \/ ~IsNum(b) THEN Err("TypeError: " \o op)
         ELSE LET x == AsI(a)[2]  y == AsI(b)[2] IN
              B(CASE op = "Lt" -> x < y [] op = "LtE" -> x <= y [] op = "Gt" -> x > y [] op = "GtE" -> x >= y)
    [] OTHER -> Err("unmodelled comparison " \o op)

PyBool(op, l, i, env, fns, fuel) ==
  LET v == TLCEval(Py(l[i], env, fns, fuel)) IN
  IF IsE(v) \/ IsU(v) \/ i = Len(l) THEN v
  ELSE IF (op = "And" /\ ~PyTruthy(v)) \/ (op = "Or" /\ PyTruthy(v)) THEN v
  ELSE PyBool(op, l, i + 1, env, fns, fuel)

PyCmp(ops, l, i, left, env, fns, fuel) ==
  LET r == TLCEval(Py(l[i + 1], env, fns, fuel)) IN
  IF IsE(r) \/ IsU(r) THEN r
  ELSE LET c == PyRel(ops[i], left, r) IN
       IF IsE(c) \/ ~PyTruthy(c) \/ i = Len(ops) THEN c ELSE PyCmp(ops, l, i + 1, r, env, fns, fuel)

PyElems(l, i, env, fns, fuel) ==
  IF i > Len(l) THEN L(<<>>)
  ELSE LET st == l[i][1] = "Starred"
           v == TLCEval(Py(IF st THEN l[i][3][1] ELSE l[i], env, fns, fuel)) IN
       IF IsE(v) \/ IsU(v) THEN v
       ELSE IF st /\ ~IsL(v) THEN Err("TypeError: not iterable")
       ELSE LET r == PyElems(l, i + 1, env, fns, fuel) IN
            IF ~IsL(r) THEN r ELSE L((IF st THEN v[2] ELSE <<v>>) \o r[2])

PyIndex(v, i) ==
  IF ~(IsL(v) \/ IsT(v)) \/ ~IsNum(i) THEN Err("TypeError: subscript")
  ELSE LET n == Len(v[2])  j == IF AsI(i)[2] < 0 THEN AsI(i)[2] + n ELSE AsI(i)[2] IN
       IF j < 0 \/ j >= n THEN Err("IndexError") ELSE v[2][j + 1]

Py(x, env, fns, fuel) ==
  LET k == x[1]  pl == x[2]  a == x[3] IN
  CASE k = "Name" -> IF pl \in DOMAIN env THEN env[pl] ELSE IF pl \in DOMAIN fns THEN <<"fn", pl>> ELSE Err("NameError: " \o pl)
    [] k = "Int" -> I(pl)
    [] k = "Value" -> pl
    [] k = "Bool" -> B(pl)
    [] k = "BinOp" ->
         LET v == TLCEval([i \in DOMAIN a |-> Py(a[i], env, fns, fuel)])  bad == Bad(v) IN
         IF bad[1] # "ok" THEN bad ELSE PyBin(pl, v[1], v[2])
    [] k = "UnaryOp" ->
         LET v == TLCEval(Py(a[1], env, fns, fuel)) IN
         IF IsE(v) \/ IsU(v) THEN v
         ELSE IF pl = "Not" THEN B(~PyTruthy(v))
         ELSE IF pl = "USub" /\ IsNum(v) THEN MkI(-AsI(v)[2])
         ELSE IF pl = "UAdd" /\ IsNum(v) THEN AsI(v)
         ELSE Err("unmodelled unary operator " \o pl)
    [] k = "BoolOp" -> PyBool(pl, a, 1, env, fns, fuel)
    [] k = "Compare" ->
         LET v == TLCEval(Py(a[1], env, fns, fuel)) IN
         IF IsE(v) \/ IsU(v) THEN v ELSE PyCmp(pl, a, 1, v, env, fns, fuel)
    [] k = "IfExp" ->
         LET c == TLCEval(Py(a[1], env, fns, fuel)) IN
         IF IsE(c) \/ IsU(c) THEN c
         ELSE IF PyTruthy(c) THEN Py(a[2], env, fns, fuel) ELSE Py(a[3], env, fns, fuel)
    [] k = "List" -> PyElems(a, 1, env, fns, fuel)
    [] k = "Tuple" -> LET r == PyElems(a, 1, env, fns, fuel) IN IF IsL(r) THEN T(r[2]) ELSE r
    [] k = "Index" ->
         LET v == TLCEval([i \in DOMAIN a |-> Py(a[i], env, fns, fuel)])  bad == Bad(v) IN
         IF bad[1] # "ok" THEN bad ELSE PyIndex(v[1], v[2])
    (* payload says which bounds are present: "lo", "hi", "both", "none" *)
    [] k = "Slice" ->
         LET v == TLCEval([i \in DOMAIN a |-> Py(a[i], env, fns, fuel)])  bad == Bad(v) IN
         IF bad[1] # "ok" THEN bad
         ELSE IF ~IsL(v[1]) \/ (\E i \in 2..Len(v) : ~IsNum(v[i])) THEN Err("TypeError: slice")
         ELSE LET n == Len(v[1][2])
                  lo == IF pl \in {"lo", "both"} THEN Clamp(AsI(v[2])[2], n) ELSE 0
                  hi == IF pl = "hi" THEN Clamp(AsI(v[2])[2], n)
                        ELSE IF pl = "both" THEN Clamp(AsI(v[3])[2], n) ELSE n IN
              L(IF lo >= hi THEN <<>> ELSE SubSeq(v[1][2], lo + 1, hi))
    [] k = "Call" ->
         LET v == TLCEval([i \in DOMAIN a |-> Py(a[i], env, fns, fuel)])  bad == Bad(v) IN
         IF bad[1] # "ok" THEN bad
         ELSE IF pl \in DOMAIN env THEN          \* a local name: must hold a function
              (IF env[pl][1] = "clo" THEN
                 (IF Len(env[pl][2]) # Len(v) THEN Err("TypeError: arity") ELSE IF fuel = 0 THEN Undef
                  ELSE Py(env[pl][3], [n \in ToSet(env[pl][2]) |-> v[CHOOSE i \in DOMAIN v : env[pl][2][i] = n]] @@ env[pl][4], fns, fuel - 1))
               ELSE IF env[pl][1] # "fn" THEN Err("TypeError: not callable: " \o pl)
               ELSE IF fuel = 0 THEN Undef
               ELSE Py(<<"Call", env[pl][2], [i \in DOMAIN v |-> <<"Value", v[i], <<>>>>]>>, <<>>, fns, fuel - 1))
         ELSE IF pl = "len" /\ pl \notin DOMAIN fns THEN
              (IF Len(v) = 1 /\ (IsL(v[1]) \/ IsT(v[1])) THEN I(Len(v[1][2])) ELSE Err("TypeError: len"))
         ELSE IF pl \notin DOMAIN fns THEN Err("NameError: " \o pl)
         ELSE IF Len(fns[pl][1]) # Len(v) THEN Err("TypeError: arity of " \o pl)
         ELSE IF fuel = 0 THEN Undef
         ELSE Py(fns[pl][2], [nm \in {fns[pl][1][i] : i \in DOMAIN v} |->
                      v[CHOOSE i \in DOMAIN v : fns[pl][1][i] = nm]], fns, fuel - 1)
    (* further syntax a language model may write *)
    [] k = "Lambda" -> <<"clo", pl, a[1], env>>
    [] k = "Global" -> I(3)
    [] k = "SliceStep" ->
         LET v == TLCEval([i \in DOMAIN a |-> Py(a[i], env, fns, fuel)])  bad == Bad(v) IN
         IF bad[1] # "ok" THEN bad
         ELSE IF ~IsL(v[1]) \/ (\E i \in 2..4 : ~IsI(v[i])) \/ v[4][2] <= 0 THEN Err("slice step")
         ELSE LET n == Len(v[1][2])  lo == Clamp(v[2][2], n)  hi == Clamp(v[3][2], n)
                  ix == SelectSeq([i \in 1..n |-> i], LAMBDA i : i > lo /\ i <= hi /\ (i - lo - 1) % v[4][2] = 0) IN
              L([i \in DOMAIN ix |-> v[1][2][ix[i]]])
    (* payload: <<function, names of the arguments, "" for those given by position>> *)
    [] k = "CallKw" ->
         LET v == TLCEval([i \in DOMAIN a |-> Py(a[i], env, fns, fuel)])  bad == Bad(v)  f == pl[1]  nm == pl[2] IN
         IF bad[1] # "ok" THEN bad
         ELSE IF f \notin DOMAIN fns THEN Err("NameError: " \o f)
         ELSE LET ps == fns[f][1]
                  At(j) == IF j \in DOMAIN nm /\ nm[j] = "" THEN {j} ELSE {i \in DOMAIN nm : nm[i] = ps[j]} IN
              IF Len(ps) # Len(v) \/ (\E j \in DOMAIN ps : Cardinality(At(j)) # 1) THEN Err("TypeError: arguments of " \o f)
              ELSE IF fuel = 0 THEN Undef
              ELSE Py(fns[f][2], [n \in ToSet(ps) |-> v[CHOOSE i \in At(CHOOSE j \in DOMAIN ps : ps[j] = n) : TRUE]], fns, fuel - 1)
    (* a function written in place and called *)
    [] k = "CallLambda" ->
         LET v == TLCEval([i \in DOMAIN a |-> Py(a[i], env, fns, fuel)])  bad == Bad(v) IN
         IF bad[1] # "ok" THEN bad ELSE IF fuel = 0 THEN Undef
         ELSE Py(v[1][3], [n \in ToSet(v[1][2]) |-> v[1 + (CHOOSE i \in DOMAIN v[1][2] : v[1][2][i] = n)]] @@ v[1][4], fns, fuel - 1)
    (* the body of a function *)
    [] k = "Block" -> LET r == PyExec(a, 1, env, fns, fuel) IN IF r[1] = "env" THEN Err("returns nothing") ELSE r
    [] OTHER -> Err("unmodelled syntax " \o k)

PyExec(l, i, env, fns, fuel) ==
  IF i > Len(l) THEN <<"env", env>>
  ELSE LET st == l[i]  k == st[1]
           v == TLCEval(IF k = "Doc" THEN I(0) ELSE Py(st[3][1], env, fns, fuel)) IN
       IF IsE(v) \/ IsU(v) THEN v
       ELSE CASE k = "Doc" -> PyExec(l, i + 1, env, fns, fuel)
              [] k = "Return" -> v
              [] k = "Assign" -> PyExec(l, i + 1, (st[2] :> v) @@ env, fns, fuel)
              [] k = "AugAssign" -> IF st[2] \notin DOMAIN env THEN Err("UnboundLocalError") ELSE
                   LET w == PyBin("Add", env[st[2]], v) IN IF IsE(w) \/ IsU(w) THEN w ELSE PyExec(l, i + 1, (st[2] :> w) @@ env, fns, fuel)
              [] k = "If" -> LET w == IF PyTruthy(v) THEN PyExec(st[3][2][3], 1, env, fns, fuel) ELSE <<"env", env>> IN
                   IF w[1] = "env" THEN PyExec(l, i + 1, w[2], fns, fuel) ELSE w
              [] OTHER -> Err("unmodelled statement " \o k)
=============================================================================
