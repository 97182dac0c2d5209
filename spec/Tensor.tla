------------------------------- MODULE Tensor --------------------------------
(* The shipped tensor operator library.  Every declaration is printed by the *)
(* three back ends; the printed definition must compute the operation its     *)
(* name states, and every axiom about the operators must be true of them in   *)
(* the standard model, whatever the quantified variables.                     *)
EXTENDS RktSem, Json, IOUtils

Sm == INSTANCE SmtSem
Pm == INSTANCE PySem

Mode == IOEnv.TENSOR_MODE       \* "ops" prints the operator table; "smt", "rkt", "py" judge
Deep == IOEnv.TENSOR_DEEP = "1"
D == IF Mode = "ops" THEN <<>> ELSE JsonDeserialize(IOEnv.CASES)
Fuel == 150

----------------------------------------------------------------------------
(* operators: name, argument types, result type, operation, functions passed *)
O(n, as, r, o, fn) == [n |-> n, as |-> as, r |-> r, o |-> o, fn |-> fn]
Bin == <<"add", "sub", "mul", "div">>
Elem(pre, t, ops) == [i \in DOMAIN ops |-> O(pre \o "_elemwise_" \o ops[i], <<t, t>>, t, "e." \o ops[i], "")]
Scal(pre, t) == [i \in DOMAIN Bin |-> O(pre \o "_scalar_" \o Bin[i], <<"I", t>>, t, "s." \o Bin[i], "")]
Rev(pre, t) == [i \in {1, 2} |-> O("scalar_" \o pre \o "_" \o <<"sub", "div">>[i], <<"I", t>>, t, "r." \o <<"sub", "div">>[i], "")]
(* calls through the helper that picks the operator by the operand's type    *)
ViaOps == <<O("call_elemwise_add", <<"L", "L">>, "L", "e.add", ""), O("call_elemwise_sub", <<"L", "L">>, "L", "e.sub", ""), O("call_elemwise_mul", <<"L", "L">>, "L", "e.mul", ""),
  O("call_elemwise_div", <<"L", "L">>, "L", "e.div", ""), O("call_scalar_add", <<"I", "L">>, "L", "s.add", ""), O("call_scalar_sub", <<"I", "L">>, "L", "s.sub", ""),
  O("call_scalar_mul", <<"I", "L">>, "L", "s.mul", ""), O("call_scalar_div", <<"I", "L">>, "L", "s.div", ""), O("call_scalar_rsub", <<"I", "L">>, "L", "r.sub", ""), O("call_scalar_rdiv", <<"I", "L">>, "L", "r.div", "")>>
Lift(o, t) == [o EXCEPT !.as = [i \in DOMAIN o.as |-> IF o.as[i] = "L" THEN t ELSE o.as[i]], !.r = t]
ViaM == [i \in DOMAIN ViaOps |-> Lift(ViaOps[i], "M")]
Plain ==
  Elem("vec", "L", Bin) \o Elem("matrix", "M", Bin) \o Elem("tensor3d", "X", <<"add", "mul">>)
  \o Scal("vec", "L") \o Scal("matrix", "M") \o Rev("vec", "L") \o Rev("matrix", "M")
  \o <<O("reduce_sum", <<"L">>, "I", "sum", ""), O("reduce_mul", <<"L">>, "I", "prod", ""), O("reduce_max", <<"L">>, "I", "max", ""),
       O("matrix_vec_mul", <<"M", "L">>, "L", "mv", ""), O("ite_int", <<"B", "I", "I">>, "I", "ite", ""),
       O("integer_exp", <<"E">>, "I", "iexp", ""), O("integer_sqrt", <<"Q">>, "I", "isqrt", ""),
       O("vec_slice", <<"L", "I", "I">>, "L", "slice", ""), O("vec_slice_with_length", <<"L", "I", "I">>, "L", "slicelen", ""),
       O("matrix_row_slice", <<"M", "I", "I">>, "M", "slice", ""), O("matrix_row_slice_with_length", <<"M", "I", "I">>, "M", "slicelen", ""),
       O("matrix_col_slice", <<"M", "I", "I">>, "M", "colslice", ""), O("matrix_col_slice_with_length", <<"M", "I", "I">>, "M", "colslicelen", ""),
       O("firsts", <<"M">>, "L", "firsts", ""), O("rests", <<"M">>, "M", "rests", ""), O("matrix_transpose", <<"M">>, "M", "transpose", "")>>
Passing ==
  <<O("vec_map", <<"L">>, "L", "map", "map_int_to_int"), O("selection_two_args", <<"L", "L">>, "L", "sel", "select_two_args"),
    O("matrix_selection_two_args", <<"M", "M">>, "M", "sel", "select_two_args"),
    O("dissolve_selection_two_args", <<"L", "L", "I", "I">>, "L", "dis", "dissolve_select_two_args"),
    O("dissolve_matrix_selection_two_args", <<"M", "M", "I", "I">>, "M", "dis", "dissolve_select_two_args"),
    O("integer_exp", <<"E">>, "I", "iexp", ""), O("integer_sqrt", <<"Q">>, "I", "isqrt", "")>>
Via == ViaOps \o ViaM \o <<O("call_elemwise_add", <<"X", "X">>, "X", "e.add", ""), O("call_elemwise_mul", <<"X", "X">>, "X", "e.mul", "")>>
Wrapper(o) == "t_" \o o.n \o "_" \o o.r
All == [i \in DOMAIN Plain |-> [o |-> Plain[i], via |-> "name"]] \o [i \in DOMAIN Passing |-> [o |-> Passing[i], via |-> "wrap"]] \o [i \in DOMAIN Via |-> [o |-> Via[i], via |-> "helper"]]

----------------------------------------------------------------------------
(* the operations on values *)
(* the synthesised functions as the harness defines them                     *)
Synth(fn, v) == CASE fn = "map_int_to_int" -> I(v[1][2] * v[1][2] + 1)
                  [] fn = "select_two_args" -> I(v[1][2] - 2 * v[2][2])
                  [] fn = "dissolve_select_two_args" -> I(v[1][2] - 2 * v[2][2] + 3 * v[3][2] - 5 * v[4][2])
Num2(o, a, b) == CASE o = "add" -> MkI(a + b) [] o = "sub" -> MkI(a - b) [] o = "mul" -> MkI(a * b)
                   [] o = "div" -> IF a < 0 \/ b <= 0 THEN Undef ELSE I(a \div b)
ListOf(v) == LET bad == Bad(v) IN IF bad[1] # "ok" THEN bad ELSE L(v)
(* one element: f names the operation, rest are further scalar arguments      *)
Sub2(s) == SubSeq(s, 3, Len(s))
Cell(o, a, rest) ==
  CASE SubSeq(o.o, 1, 2) = "e." -> Num2(Sub2(o.o), a[1][2], a[2][2])
    [] SubSeq(o.o, 1, 2) = "s." -> Num2(Sub2(o.o), a[1][2], rest[1][2])       \* scalar on the right
    [] SubSeq(o.o, 1, 2) = "r." -> Num2(Sub2(o.o), rest[1][2], a[1][2])       \* scalar on the left
    [] OTHER -> Synth(o.fn, a \o rest)
RECURSIVE ZipBy(_, _, _, _), Each(_, _, _), SumOf(_), MulOf(_), MaxOf(_)
ZipBy(o, a, b, rest) ==
  IF ~IsL(a) THEN Cell(o, <<a, b>>, rest)
  ELSE IF ~IsL(b) \/ Len(a[2]) # Len(b[2]) THEN Undef
  ELSE ListOf([i \in DOMAIN a[2] |-> ZipBy(o, a[2][i], b[2][i], rest)])
Each(o, a, rest) == IF ~IsL(a) THEN Cell(o, <<a>>, rest) ELSE ListOf([i \in DOMAIN a[2] |-> Each(o, a[2][i], rest)])
SumOf(q) == IF q = <<>> THEN 0 ELSE q[1][2] + SumOf(Tail(q))
MulOf(q) == IF q = <<>> THEN 1 ELSE q[1][2] * MulOf(Tail(q))
MaxOf(q) == IF Len(q) = 1 THEN q[1][2] ELSE LET m == MaxOf(Tail(q)) IN IF q[1][2] > m THEN q[1][2] ELSE m
RECURSIVE ISqrtFrom(_, _)
ISqrtFrom(n, r) == IF (r + 1) * (r + 1) > n THEN r ELSE ISqrtFrom(n, r + 1)
RECURSIVE SqrtAsShipped(_, _, _)
SqrtAsShipped(n, g, fuel) == IF g = 0 \/ g = 1 \/ g > 64 THEN I(1) ELSE IF g = n \div g THEN I(g) ELSE IF fuel = 0 THEN Undef ELSE SqrtAsShipped(n, (g + (n \div g)) \div 2, fuel - 1)
Std(o, v) ==
  CASE SubSeq(o.o, 1, 2) = "e." -> ZipBy(o, v[1], v[2], <<>>)
    [] SubSeq(o.o, 1, 2) \in {"s.", "r."} -> Each(o, v[2], <<v[1]>>)
    [] o.o = "sum" -> MkI(SumOf(v[1][2])) [] o.o = "prod" -> MkI(MulOf(v[1][2]))
    [] o.o = "max" -> IF v[1][2] = <<>> THEN Undef ELSE I(MaxOf(v[1][2]))
    [] o.o = "mv" -> IF v[1][2] = <<>> THEN L(<<>>)
                     ELSE IF \E i \in DOMAIN v[1][2] : Len(v[1][2][i][2]) # Len(v[2][2]) \/ v[2][2] = <<>> THEN Undef
                     ELSE L([i \in DOMAIN v[1][2] |-> MkI(SumOf([j \in DOMAIN v[2][2] |-> I(v[1][2][i][2][j][2] * v[2][2][j][2])]))])
    [] o.o = "ite" -> IF v[1][2] THEN v[2] ELSE v[3]
    [] o.o = "iexp" -> I(Exp64(v[1][2])) [] o.o = "isqrt" -> I(ISqrtFrom(v[1][2], 0))
    [] o.o = "slice" -> LSlice(v[1], v[2], v[3]) [] o.o = "slicelen" -> LSliceLen(v[1], v[2], v[3])
    [] o.o = "colslice" -> MColSlice(v[1], v[2], v[3])
    [] o.o = "colslicelen" -> (IF v[2][2] < 0 \/ v[3][2] < 0 THEN Undef ELSE MColSlice(v[1], v[2], I(v[2][2] + v[3][2])))
    [] o.o = "firsts" -> IF ~IsRect(v[1]) \/ HasEmptyRow(v[1]) THEN Undef ELSE L([i \in DOMAIN v[1][2] |-> v[1][2][i][2][1]])
    [] o.o = "rests" -> IF ~IsRect(v[1]) \/ HasEmptyRow(v[1]) THEN Undef ELSE L([i \in DOMAIN v[1][2] |-> L(Tail(v[1][2][i][2]))])
    [] o.o = "transpose" -> IF ~IsRect(v[1]) \/ HasEmptyRow(v[1]) THEN Undef ELSE MTranspose(v[1])
    [] o.o = "map" -> Each(o, v[1], <<>>)
    [] o.o = "sel" -> ZipBy(o, v[1], v[2], <<>>)
    [] o.o = "dis" -> ZipBy(o, v[1], v[2], <<v[3], v[4]>>)

----------------------------------------------------------------------------
Li(q) == L([i \in DOMAIN q |-> I(q[i])])
Lists == {Li(q) : q \in {<<>>, <<3>>, <<-40>>, <<0, 5>>, <<7, 2>>, <<-41, -33>>, <<4, 1, 9>>, <<9, 9, -2>>, <<-50, -3, -60>>} \cup (IF Deep THEN {<<1, 2, 3, 4>>, <<-5, -4, -3, -2>>, <<60, 0, 1>>, <<1, 5>>, <<0>>, <<-34, -33, -60, -35>>} ELSE {})}
Mats == {L([i \in DOMAIN q |-> Li(q[i])]) : q \in {<<>>, <<<<>>>>, <<<<2, 7>>>>, <<<<1>>, <<4>>>>, <<<<5, 6>>, <<0, 9>>>>, <<<<1, 2, 3>>, <<4, 5, 8>>>>, <<<<1, 8>>, <<2, 4>>, <<3, 6>>>>, <<<<1>>, <<>>>>, <<<<-1, 3>>, <<6, -7>>>>}
           \cup (IF Deep THEN {<<<<3, 1, 2>>, <<1, 2, 2>>, <<8, 9, 7>>>>, <<<<>>, <<>>>>, <<<<3>>, <<1, 2>>>>, <<<<1, 2, 3, 4>>, <<5, 6, 7, 8>>>>} ELSE {})}
Tens == {L(q) : q \in {<<>>} \cup {<<m>> : m \in Mats} \cup {<<m, n>> : m \in Mats, n \in {Li(<<>>), L(<<Li(<<2, 7>>)>>)}}}
Ints == IF Deep THEN -3..6 ELSE {-2, 0, 1, 3, 4}
Dom(t) == CASE t = "I" -> {I(k) : k \in Ints} [] t = "B" -> {B(TRUE), B(FALSE)} [] t = "L" -> Lists [] t = "M" -> Mats [] t = "X" -> Tens
            [] t = "E" -> {I(k) : k \in -2..(IF Deep THEN 29 ELSE 12)} [] t = "Q" -> {I(k) : k \in 0..(IF Deep THEN 90 ELSE 40)}
RECURSIVE Product(_)
Product(ss) == IF ss = <<>> THEN {<<>>} ELSE {<<h>> \o t : h \in ss[1], t \in Product(Tail(ss))}
(* no theory of three-dimensional tensors in SMT-LIB or Python                *)
(* the Rosette runtime has its own integer_exp and integer_sqrt: only calls    *)
Has(k) == IF Mode = "rkt" THEN All[k].via # "name" \/ All[k].o.as \notin {<<"E">>, <<"Q">>} ELSE All[k].o.r # "X"
OpCases == UNION {{<<k, a>> : a \in Product([j \in DOMAIN All[k].o.as |-> IF Len(All[k].o.as) = 4 /\ j > 2 THEN {I(4), I(-3)} ELSE Dom(All[k].o.as[j])])} : k \in {j \in DOMAIN All : Has(j)}}

Show(x) == ToString(x)
Target(k) == IF All[k].via = "name" THEN All[k].o.n ELSE Wrapper(All[k].o)
Judge(k, a) ==
  LET o == All[k].o  want == Std(o, a)  f == Target(k) IN
  IF f \notin DOMAIN D.defs THEN "is not in the library"
  ELSE IF want = Undef THEN "open"
  ELSE LET w == IF Mode = "rkt" THEN RktOf(want) ELSE want
           got == CASE Mode = "smt" -> Sm!App(f, a, D.defs, Fuel)
                    [] Mode = "rkt" -> RkApply(Rk(<<"s", f>>, <<>>, D.defs, Fuel), a, D.defs, Fuel)
                    [] Mode = "py" -> Pm!Py(<<"Call", f, [i \in DOMAIN a |-> <<"Name", "v" \o ToString(i), <<>>>>]>>,
                                            [nm \in {"v" \o ToString(i) : i \in DOMAIN a} |-> a[CHOOSE i \in DOMAIN a : nm = "v" \o ToString(i)]], D.defs, Fuel) IN
       IF got = w THEN "ok"
       ELSE IF o.o = "isqrt" /\ got = SqrtAsShipped(a[1][2] \div 2, a[1][2], Fuel) THEN "integer_sqrt as shipped: iterates for half the argument"
       ELSE IF o.o = "isqrt" /\ Mode = "rkt" /\ got = a[1] THEN "integer_sqrt as shipped: is its argument"
       ELSE "gives " \o Show(got) \o " instead of " \o Show(w)

(* definitions are well-sorted, everything they call is declared              *)
JudgeSort(f) ==
  LET d == D.tdefs[f]  s == Sm!SortOf(d[2], [n \in {d[1][i] : i \in DOMAIN d[1]} |-> D.tsigs[f][1][CHOOSE i \in DOMAIN d[1] : d[1][i] = n]], D.tsigs) IN
  IF s = D.tsigs[f][2] THEN "ok" ELSE "has a body of sort " \o s \o ", declared " \o D.tsigs[f][2]

----------------------------------------------------------------------------
(* axioms in the standard total model of lists                               *)
Total == "#total" :> <<<<>>, <<"i", 0>>>>
AxVars(ax) == ax[2][2][2]
AxBody(ax) == ax[2][3]
AxLists == {Li(q) : q \in {<<>>, <<-40>>, <<3>>, <<7, 2>>, <<-41, -33>>, <<4, -50, 9>>, <<1, 9, 5>>}} \cup (IF Deep THEN Lists ELSE {})
AxMats == {L([i \in DOMAIN q |-> Li(q[i])]) : q \in {<<>>, <<<<2, 7>>>>, <<<<1>>, <<>>>>, <<<<5, 6>>, <<3, 9>>>>, <<<<1, 8>>, <<2, 4>>, <<3, 6>>>>, <<<<>>, <<4>>, <<1>>>>}} \cup (IF Deep THEN Mats ELSE {})
AxDom(nm, s, n) == CASE s = "Int" /\ nm # "index" /\ n > 3 -> {I(2), I(-1)} [] s = "Int" -> {I(k) : k \in (IF Deep THEN -2..6 ELSE -1..4)} [] s = "(MLList Int)" -> AxLists [] s = "(MLList (MLList Int))" -> AxMats
AxDoms(ax) == LET vs == AxVars(ax) IN [i \in DOMAIN vs |-> AxDom(vs[i][2][1][2], Sm!SortStr(vs[i][2][2]), Len(vs))]
Known(ax) == \A i \in DOMAIN AxVars(ax) : Sm!SortStr(AxVars(ax)[i][2][2]) \in {"Int", "(MLList Int)", "(MLList (MLList Int))"}
AxEnv(ax, vals) == [n \in {AxVars(ax)[i][2][1][2] : i \in DOMAIN vals} |-> vals[CHOOSE i \in DOMAIN vals : AxVars(ax)[i][2][1][2] = n]]
AxSorts(ax) == [n \in {AxVars(ax)[i][2][1][2] : i \in DOMAIN AxVars(ax)} |-> Sm!SortStr(AxVars(ax)[CHOOSE i \in DOMAIN AxVars(ax) : AxVars(ax)[i][2][1][2] = n][2][2])]
AxCases == UNION {{<<k, a>> : a \in Product(AxDoms(D.axioms[k]))} : k \in {j \in DOMAIN D.axioms : Known(D.axioms[j])}}
JudgeAx(k, a) ==
  LET ax == D.axioms[k]
      s == Sm!SortOf(AxBody(ax), AxSorts(ax), D.sigs)
      v == Sm!Ev(AxBody(ax), AxEnv(ax, a), D.qdefs @@ Total, Fuel) IN
  IF s # "Bool" THEN "is not well-sorted: " \o s
  ELSE IF v = B(TRUE) THEN "ok" ELSE IF v = B(FALSE) THEN "is false"
  ELSE IF v = Undef THEN "open" ELSE "has no value: " \o Show(v)
(* an axiom listed for an operator is about it                                *)
RECURSIVE Mentions(_, _)
Mentions(x, f) == IF x[1] = "s" THEN x[2] = f ELSE IF x[1] = "l" THEN \E i \in DOMAIN x[2] : Mentions(x[2][i], f) ELSE FALSE
JudgeListed(i) == IF Mentions(D.listed[i][2], D.listed[i][1]) THEN "ok" ELSE "is listed with an axiom that does not mention it"

----------------------------------------------------------------------------
VARIABLES kind, item, verdict
vars == <<kind, item, verdict>>
Init ==
  /\ verdict = "todo"
  /\ \/ Mode # "ops" /\ kind = "op" /\ item \in OpCases
     \/ Mode = "smt" /\ ((kind = "ax" /\ item \in AxCases) \/ (kind = "sort" /\ item \in DOMAIN D.tdefs) \/ (kind = "listed" /\ item \in DOMAIN D.listed))
     \/ Mode = "ops" /\ kind = "table" /\ item = 0
Next == /\ verdict = "todo" /\ UNCHANGED <<kind, item>>
        /\ verdict' = CASE kind = "op" -> Judge(item[1], item[2]) [] kind = "ax" -> JudgeAx(item[1], item[2])
                        [] kind = "sort" -> JudgeSort(item) [] kind = "listed" -> JudgeListed(item) [] OTHER -> "ok"
Spec == Init /\ [][Next]_vars
Name == CASE kind = "op" -> All[item[1]].o.n \o Show(item[2]) [] kind = "ax" -> "axiom " \o Show(item[1]) \o Show(AxEnv(D.axioms[item[1]], item[2]))
          [] kind = "sort" -> item [] kind = "listed" -> D.listed[item][1] [] OTHER -> kind
Report == /\ verdict \notin {"todo", "ok", "open"} => PrintT("BAD " \o ToJson(<<kind, Name, verdict>>))
          /\ kind = "table" /\ verdict = "ok" => PrintT("OPS " \o ToJson([i \in DOMAIN All |-> [n |-> All[i].o.n, as |-> All[i].o.as, r |-> All[i].o.r, fn |-> All[i].o.fn, via |-> All[i].via, w |-> Wrapper(All[i].o)]]))
=============================================================================
