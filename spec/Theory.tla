------------------------------- MODULE Theory --------------------------------
(* The shipped background theories (SMT-LIB) and runtime library (Rosette)   *)
(* against the operations they stand for.                                    *)
(*                                                                           *)
(*  axiom  every assertion, under every value of its quantified variables,   *)
(*         is true in the standard total model (lists are finite sequences;  *)
(*         reading past the end gives the default element)                   *)
(*  def    every defined function computes its operation                     *)
(*  det    the assertions determine the functions that are only declared:    *)
(*         a machine that adds a point f(args) once some assertion instance, *)
(*         with the points already added, is false for any other value       *)
(*  data   constructors and selectors of the declared datatypes invert       *)
(*  rkt    every runtime function computes its operation                     *)
EXTENDS RktSem, Json, IOUtils

Sm == INSTANCE SmtSem

Mode == IOEnv.THEORY_MODE
D == JsonDeserialize(IOEnv.CASES)
Deep == IOEnv.THEORY_DEEP = "1"
Sigs == [n \in DOMAIN D.sigs |-> D.sigs[n]]
Defs == [n \in DOMAIN D.defs |-> D.defs[n]]
Fuel == 150

----------------------------------------------------------------------------
(* domains *)
SeqsUpTo(E, n) == UNION {[1..k -> E] : k \in 0..n}
Ints == {0, 1, 2}
Idx == IF Deep THEN -2..6 ELSE -1..4
VList(n) == {L([i \in DOMAIN q |-> I(q[i])]) : q \in SeqsUpTo(Ints, n)}
L3 == VList(IF Deep THEN 4 ELSE 3)
L2 == VList(2)
Bit == {L([i \in DOMAIN q |-> I(q[i])]) : q \in SeqsUpTo({0, 1}, 2)}
M3 == {L(q) : q \in SeqsUpTo(Bit, IF Deep THEN 3 ELSE 2)} \cup {L(<<L(<<I(0), I(1), I(2)>>), L(<<I(1), I(2), I(0)>>)>>), L(<<L(<<I(1)>>), L(<<I(2)>>), L(<<I(0)>>)>>),
       L(<<L(<<I(0), I(1)>>), L(<<I(2), I(1)>>), L(<<I(1), I(0)>>)>>)}
M1 == {L(q) : q \in SeqsUpTo({L(<<>>), L(<<I(0)>>), L(<<I(1), I(2)>>)}, 2)}
Dom(s) == CASE s = "Int" -> {I(k) : k \in Idx} [] s = "V" -> {I(k) : k \in Ints} [] s = "(MLList Int)" -> L3 [] s = "R" -> L2
            [] s = "(MLList (MLList Int))" -> M3 [] s = "X" -> {L(q) : q \in SeqsUpTo(M1, 2)}
            [] s = "Set" -> {S(q) : q \in SUBSET {0, 1, 2, 3}} [] s = "E" -> {I(k) : k \in 0..8} [] s = "K" -> {I(k) : k \in 0..2}
            [] s = "Bool" -> {B(TRUE), B(FALSE)}
            [] s = "(Map Int Int)" -> {<<"m", S({I(k) : k \in q}), <<"a", (I(0) :> I(f[0])) @@ (I(1) :> I(f[1])) @@ (I(2) :> I(f[2])), I(0)>>>> : q \in SUBSET {0, 1, 2}, f \in [0..2 -> {0, 5}]}
            [] s = "Map" -> {L(q) : q \in {p \in SeqsUpTo({L(<<I(k), I(v)>>) : k \in 0..2, v \in 5..6}, 3) : \A i, j \in DOMAIN p : i # j => p[i][2][1] # p[j][2][1]}}
            [] OTHER -> {}
SetVals == {S({I(k) : k \in q}) : q \in SUBSET {0, 1, 2, 3}}
RECURSIVE Prod(_)
Prod(ss) == IF ss = <<>> THEN {<<>>} ELSE {<<h>> \o t : h \in ss[1], t \in Prod(Tail(ss))}

----------------------------------------------------------------------------
(* the operations.  Undef: outside the operation's domain                    *)
Default(f) == IF f = "matrix_get_helper" THEN L(<<>>) ELSE I(0)
Firsts(m) == IF ~IsRect(m) \/ HasEmptyRow(m) THEN Undef ELSE L([i \in DOMAIN m[2] |-> m[2][i][2][1]])
Rests(m) == IF ~IsRect(m) \/ HasEmptyRow(m) THEN Undef ELSE L([i \in DOMAIN m[2] |-> L(Tail(m[2][i][2]))])
RECURSIVE ISqrtFrom(_, _)
ISqrtFrom(n, r) == IF (r + 1) * (r + 1) > n THEN r ELSE ISqrtFrom(n, r + 1)
Assoc(m, k) == {i \in DOMAIN m[2] : m[2][i][2][1] = k}
Std(o, v) ==
  CASE o = "len" -> LLen(v[1]) [] o = "prepend" -> LPrepend(v[1], v[2]) [] o = "append" -> LAppend(v[1], v[2]) [] o = "get" -> LGet(v[1], v[2])
    [] o = "empty" -> L(<<>>) [] o = "tail" -> LTail(v[1], v[2]) [] o = "take" -> LTake(v[1], v[2]) [] o = "concat" -> LConcat(v[1], v[2])
    [] o = "contains" -> LContains(v[1], v[2]) [] o = "slice" -> LSlice(v[1], v[2], v[3]) [] o = "slicelen" -> LSliceLen(v[1], v[2], v[3])
    [] o = "colslice" -> MColSlice(v[1], v[2], v[3])
    [] o = "colslicelen" -> (IF v[2][2] < 0 \/ v[3][2] < 0 THEN Undef ELSE MColSlice(v[1], v[2], I(v[2][2] + v[3][2])))
    [] o = "firsts" -> Firsts(v[1]) [] o = "rests" -> Rests(v[1]) [] o = "transpose" -> MTranspose(v[1])
    [] o = "iexp" -> I(Exp64(v[1][2])) [] o = "isqrt" -> I(ISqrtFrom(v[1][2], 0))
    [] o = "mktuple" -> T(v) [] o = "tget" -> (IF v[2][2] \in DOMAIN v[1][2] \cup {0} /\ v[2][2] < Len(v[1][2]) THEN v[1][2][v[2][2] + 1] ELSE Undef)
    [] o = "ssingle" -> S({v[1]}) [] o = "sempty" -> S({}) [] o = "seq" -> B(v[1] = v[2]) [] o = "sunion" -> S(v[1][2] \cup v[2][2])
    [] o = "smember" -> B(v[1] \in v[2][2]) [] o = "sinsert" -> S(v[2][2] \cup {v[1]}) [] o = "ssubset" -> B(v[1][2] \subseteq v[2][2]) [] o = "sminus" -> S(v[1][2] \ v[2][2])
    [] o = "mapget" -> (IF Assoc(v[1], v[2]) = {} THEN Undef ELSE v[1][2][CHOOSE i \in Assoc(v[1], v[2]) : TRUE][2][2])
    [] o = "maphas" -> I(IF Assoc(v[1], v[2]) = {} THEN 0 ELSE 1)
    [] o = "mapput" -> (IF Assoc(v[1], v[2]) = {} THEN L(Append(v[1][2], L(<<v[2], v[3]>>))) ELSE L([v[1][2] EXCEPT ![CHOOSE i \in Assoc(v[1], v[2]) : TRUE] = L(<<v[2], v[3]>>)]))
    [] o = "mkeys" -> B(v[2] \in v[1][2][2]) [] o = "mget" -> (IF v[2] \in v[1][2][2] THEN v[1][3][2][v[2]] ELSE v[3])
    [] o = "mgetd" -> v[1][3][2][v[2]] [] o = "mnew" -> <<"m", S({}), <<"a", <<>>, I(0)>>>>
    [] o = "quot" -> (IF v[2][2] = 0 THEN Undef ELSE I(TruncDiv(v[1][2], v[2][2])))

LI == "(MLList Int)"   LM == "(MLList (MLList Int))"
Op(o, smt, rkt, as) == [o |-> o, smt |-> smt, rkt |-> rkt, as |-> as]
Ops == <<
  Op("len", "list_length", "", <<LI>>), Op("prepend", "list_prepend", "list-prepend", <<"V", LI>>), Op("append", "list_append", "list-append", <<LI, "V">>),
  Op("get", "list_get", "list-ref-noerr", <<LI, "Int">>), Op("empty", "list_empty", "list-empty", <<>>), Op("tail", "list_tail", "list-tail-noerr", <<LI, "Int">>),
  Op("take", "list_take", "list-take-noerr", <<LI, "Int">>), Op("concat", "list_concat", "list-concat", <<LI, LI>>), Op("contains", "list_contains", "", <<LI, "V">>),
  Op("len", "matrix_length", "matrix-length", <<LM>>), Op("prepend", "matrix_prepend", "matrix-prepend", <<"R", LM>>), Op("append", "matrix_append", "matrix-append", <<LM, "R">>),
  Op("get", "matrix_get", "matrix-ref-noerr", <<LM, "Int">>), Op("empty", "matrix_empty", "matrix-empty", <<>>), Op("tail", "matrix_tail", "matrix-tail-noerr", <<LM, "Int">>),
  Op("take", "matrix_take", "matrix-take-noerr", <<LM, "Int">>),
  Op("slice", "vec_slice", "vec-slice-noerr", <<LI, "Int", "Int">>), Op("slicelen", "vec_slice_with_length", "vec-slice-with-length-noerr", <<LI, "Int", "Int">>),
  Op("slice", "matrix_row_slice", "matrix-row-slice-noerr", <<LM, "Int", "Int">>), Op("slicelen", "matrix_row_slice_with_length", "matrix-row-slice-with-length-noerr", <<LM, "Int", "Int">>),
  Op("colslice", "matrix_col_slice", "matrix-col-slice-noerr", <<LM, "Int", "Int">>), Op("colslicelen", "matrix_col_slice_with_length", "matrix-col-slice-with-length-noerr", <<LM, "Int", "Int">>),
  Op("firsts", "firsts", "firsts", <<LM>>), Op("rests", "rests", "rests", <<LM>>), Op("transpose", "matrix_transpose", "matrix-transpose-noerr", <<LM>>),
  Op("iexp", "integer_exp", "integer-exp-noerr", <<"Exp">>), Op("isqrt", "integer_sqrt", "integer-sqrt-noerr", <<"Sqrt">>),
  Op("len", "", "tensor3d-length", <<"X">>), Op("empty", "", "tensor3d-empty", <<>>), Op("get", "", "tensor3d-ref-noerr", <<"X", "Int">>), Op("tail", "", "tensor3d-tail-noerr", <<"X", "Int">>),
  Op("take", "", "tensor3d-take-noerr", <<"X", "Int">>), Op("slice", "", "tensor3d-slice-noerr", <<"X", "Int", "Int">>), Op("slicelen", "", "tensor3d-slice-with-length-noerr", <<"X", "Int", "Int">>),
  Op("prepend", "", "tensor3d-prepend", <<"M1", "X">>), Op("append", "", "tensor3d-append", <<"X", "M1">>),
  Op("get", "", "list-tuple-ref-noerr", <<"P", "Int">>), Op("tail", "", "list-tuple-tail-noerr", <<"P", "Int">>), Op("take", "", "list-tuple-take-noerr", <<"P", "Int">>),
  Op("empty", "", "list-tuple-empty", <<>>), Op("prepend", "", "list-tuple-prepend", <<"T", "P">>), Op("append", "", "list-tuple-append", <<"P", "T">>), Op("len", "", "list-tuple-length", <<"P">>),
  Op("mktuple", "", "make-tuple", <<"V">>), Op("mktuple", "", "make-tuple", <<"V", LI>>), Op("mktuple", "", "make-tuple", <<"V", "Bool", "E">>), Op("tget", "", "tupleGet", <<"T", "Int">>),
  Op("ssingle", "", "set-singleton", <<"V">>), Op("sempty", "", "set-create", <<>>), Op("seq", "", "set-eq", <<"S", "S">>), Op("sunion", "", "set-union", <<"S", "S">>),
  Op("smember", "", "set-member", <<"E", "S">>), Op("sinsert", "", "set-insert", <<"E", "S">>), Op("ssubset", "", "set-subset", <<"S", "S">>), Op("sminus", "", "set-minus", <<"S", "S">>),
  Op("empty", "", "map-create", <<>>), Op("mapget", "", "map-get", <<"Map", "K">>), Op("maphas", "", "map-contains", <<"Map", "K">>), Op("mapput", "", "map-insert", <<"Map", "K", "V">>),
  Op("mnew", "map_create", "", <<>>), Op("mkeys", "map_contains", "", <<"(Map Int Int)", "K">>), Op("mget", "map_get", "", <<"(Map Int Int)", "K", "V">>), Op("mgetd", "map_get_direct", "", <<"(Map Int Int)", "K", "V">>),
  Op("seq", "", "map-eq", <<"Map", "Map">>), Op("quot", "", "quotient-noerr", <<"E", "E">>)
>>
ArgDom(s) == CASE s = "S" -> SetVals [] s = "M1" -> M1 [] s = "Exp" -> {I(k) : k \in -1..29} [] s = "Sqrt" -> {I(k) : k \in 0..(IF Deep THEN 200 ELSE 70)}
               [] s = "T" -> {T(<<I(5), I(6)>>), T(<<I(0), I(1), I(2)>>), T(<<B(TRUE), I(2), I(7)>>)}
               [] s = "P" -> {L(q) : q \in SeqsUpTo({T(<<I(5), I(6)>>), T(<<I(0), I(1)>>)}, 3)}
               [] OTHER -> Dom(s)
OpCases(lang) == UNION {{<<k, a>> : a \in Prod([j \in DOMAIN Ops[k].as |-> ArgDom(Ops[k].as[j])])} : k \in {k \in DOMAIN Ops : (IF lang = "smt" THEN Ops[k].smt ELSE Ops[k].rkt) # ""}}

----------------------------------------------------------------------------
(* what is known to deviate is named, so that nothing else hides behind it   *)
RECURSIVE DropEmpty(_)
DropEmpty(v) == IF ~IsL(v) THEN v ELSE L(SelectSeq([i \in DOMAIN v[2] |-> DropEmpty(v[2][i])], LAMBDA x : x # L(<<>>)))
DropEmptyTop(v) == L(SelectSeq(v[2], LAMBDA x : x # L(<<>>)))
(* (integer_sqrt n) as shipped: Newton's iteration for n div 2 from n        *)
RECURSIVE SqrtAsShipped(_, _, _)
SqrtAsShipped(n, g, fuel) == IF g = 0 \/ g = 1 \/ g > 64 THEN I(1) ELSE IF g = n \div g THEN I(g) ELSE IF fuel = 0 THEN Undef ELSE SqrtAsShipped(n, (g + (n \div g)) \div 2, fuel - 1)

Show(x) == ToString(x)
(* functions only the theories themselves use may be absent                  *)
Internal == {"firsts", "rests", "map_create", "map_contains", "map_get", "map_get_direct", "list-tuple-ref-noerr", "list-tuple-tail-noerr", "list-tuple-take-noerr",
             "list-tuple-empty", "list-tuple-prepend", "list-tuple-append", "list-tuple-length", "map-eq", "map-create", "map-get", "map-contains", "map-insert", "quotient-noerr"}
Judge(lang, k, a) ==
  LET op == Ops[k]
      want == Std(op.o, a) IN
  IF want = Undef \/ (lang = "smt" /\ op.smt \in Internal \ DOMAIN Sigs) \/ (lang = "rkt" /\ op.rkt \in Internal \ DOMAIN D.rkt) THEN "open"
  ELSE IF lang = "smt" THEN
    LET got == Sm!App(op.smt, a, Defs, Fuel) IN
    IF ~(op.smt \in DOMAIN Sigs) THEN "is not defined"
    ELSE IF got = want THEN "ok"
    ELSE IF op.o = "isqrt" /\ got = SqrtAsShipped(a[1][2] \div 2, a[1][2], Fuel) THEN "integer_sqrt as shipped: iterates for half the argument"
    ELSE IF got = Undef THEN "is not determined (circular or out of fuel)" ELSE "gives " \o Show(got) \o " instead of " \o Show(want)
  ELSE
    LET ra == [i \in DOMAIN a |-> RktOf(a[i])]  w == RktOf(want)
        got == IF op.rkt \in DOMAIN D.rkt THEN RkApply(Rk(<<"s", op.rkt>>, <<>>, D.rkt, 600), ra, D.rkt, 600) ELSE Err("not defined") IN
    IF got = w THEN "ok"
    ELSE IF op.o = "isqrt" /\ got = a[1] THEN "integer_sqrt as shipped: is its argument"
    ELSE IF op.o = "prepend" /\ a[1] = L(<<>>) /\ got = a[2] THEN "drops an empty row"
    ELSE IF op.o \in {"colslice", "colslicelen", "rests"} /\ got = DropEmptyTop(w) THEN "drops an empty row"
    ELSE "gives " \o Show(got) \o " instead of " \o Show(w)

----------------------------------------------------------------------------
(* assertions in the standard total model *)
Total == "#total" :> <<<<>>, <<"i", 0>>>>
AxVars(ax) == IF ax[1] = "l" /\ ax[2] # <<>> /\ ax[2][1] = <<"s", "forall">> THEN ax[2][2][2] ELSE <<>>
AxBody(ax) == IF AxVars(ax) # <<>> THEN ax[2][3] ELSE ax
AxDoms(ax) == [i \in DOMAIN AxVars(ax) |-> LET s == Sm!SortStr(AxVars(ax)[i][2][2]) IN
                 IF s = "Int" THEN {I(k) : k \in -1..4} ELSE IF s = LI THEN (IF Len(AxVars(ax)) > 2 THEN L2 ELSE L3) ELSE IF s = LM /\ Len(AxVars(ax)) > 2 THEN M1 ELSE Dom(s)]
AxEnv(ax, vals) == [n \in {AxVars(ax)[i][2][1][2] : i \in DOMAIN vals} |-> vals[CHOOSE i \in DOMAIN vals : AxVars(ax)[i][2][1][2] = n]]
AxSorts(ax) == [n \in {AxVars(ax)[i][2][1][2] : i \in DOMAIN AxVars(ax)} |-> Sm!SortStr(AxVars(ax)[CHOOSE i \in DOMAIN AxVars(ax) : AxVars(ax)[i][2][1][2] = n][2][2])]
AxCases == UNION {{<<k, a>> : a \in Prod(AxDoms(D.axioms[k]))} : k \in DOMAIN D.axioms}
JudgeAx(k, a) ==
  LET ax == D.axioms[k]
      s == Sm!SortOf(AxBody(ax), AxSorts(ax), Sigs)
      v == Sm!Ev(AxBody(ax), AxEnv(ax, a), Defs @@ Total, Fuel) IN
  IF s # "Bool" THEN "is not well-sorted: " \o s
  ELSE IF v = B(TRUE) THEN "ok" ELSE IF v = B(FALSE) THEN "is false" ELSE "has no value: " \o Show(v)

(* definitions are well-sorted *)
JudgeSort(f) ==
  LET d == Defs[f]  s == Sm!SortOf(d[2], [n \in {d[1][i] : i \in DOMAIN d[1]} |-> Sigs[f][1][CHOOSE i \in DOMAIN d[1] : d[1][i] = n]], Sigs) IN
  IF s = Sigs[f][2] THEN "ok" ELSE "has a body of sort " \o s \o ", declared " \o Sigs[f][2]

(* datatypes: [ctor, selectors as declared, component sorts] *)
JudgeData(d) ==
  IF d.ctor \in Sm!TupCtors
  THEN LET n == Len(d.sels)  v == T([i \in 1..n |-> I(i)]) IN
       IF d.ctor # "tuple" \o ToString(n) THEN "has " \o ToString(n) \o " components"
       ELSE IF \E i \in 1..n : d.sels[i] # "tuple" \o ToString(n) \o "_get" \o ToString(i - 1) THEN "declares its selectors in another order"
       ELSE IF \E i \in 1..n : d.sorts[i] # d.params[i] THEN "declares component sorts in another order" ELSE "ok"
  ELSE IF d.ctor = "cons" THEN (IF d.sels = <<"head", "tail">> /\ d.sorts = <<d.params[1], "(MLList " \o d.params[1] \o ")">> THEN "ok" ELSE "is not the list constructor")
  ELSE IF d.ctor = "nil" THEN (IF d.sels = <<>> THEN "ok" ELSE "nil has components") ELSE "ok"

----------------------------------------------------------------------------
(* determination of declared functions *)
DN == IF Deep THEN 3 ELSE 2
DL == {L([i \in DOMAIN q |-> I(q[i])]) : q \in SeqsUpTo({0, 1}, DN)}
DM == {L(q) : q \in SeqsUpTo({L(<<>>), L(<<I(1)>>)}, DN)}
DetDom(f) ==
  CASE f = "list_length" -> Prod(<<DL>>) [] f = "list_append" -> Prod(<<{q \in DL : Len(q[2]) < DN}, {I(0), I(1)}>>)
    [] f = "list_get_helper" -> {a \in Prod(<<DL, {I(k) : k \in 0..2}>>) : a[2][2] < Len(a[1][2])} [] f = "list_take" -> Prod(<<DL, {I(k) : k \in 0..(DN + 1)}>>)
    [] f = "matrix_length" -> Prod(<<DM>>) [] f = "matrix_append" -> Prod(<<{q \in DM : Len(q[2]) < DN}, {L(<<>>), L(<<I(1)>>)}>>)
    [] f = "matrix_get_helper" -> {a \in Prod(<<DM, {I(k) : k \in 0..2}>>) : a[2][2] < Len(a[1][2])} [] f = "matrix_take" -> Prod(<<DM, {I(k) : k \in 0..(DN + 1)}>>)
Declared == {f \in DOMAIN Sigs : ~(f \in DOMAIN Defs) /\ f \in Sm!Std \ {"map_values"}}    \* map_values is left partly open
RECURSIVE Mentions(_, _)
Mentions(x, f) == IF x[1] = "s" THEN x[2] = f ELSE IF x[1] = "l" THEN \E i \in DOMAIN x[2] : Mentions(x[2][i], f) ELSE FALSE
DetVars(ax) == [i \in DOMAIN AxVars(ax) |-> LET s == Sm!SortStr(AxVars(ax)[i][2][2]) IN
                  IF s = "Int" THEN {I(k) : k \in 0..(DN + 1)} ELSE IF s = LI THEN (IF \E j \in DOMAIN AxVars(ax) : Sm!SortStr(AxVars(ax)[j][2][2]) = LM THEN {L(<<>>), L(<<I(1)>>)} ELSE DL) ELSE IF s = LM THEN DM ELSE {}]
Forces(f, args, done) ==
  \E k \in DOMAIN D.axioms : LET ax == D.axioms[k] IN
     /\ Mentions(AxBody(ax), f)
     /\ \E a \in Prod(DetVars(ax)) :
          Sm!Ev(AxBody(ax), AxEnv(ax, a), Defs @@ ("#fresh" :> <<f, args>>) @@ ("#done" :> done), Fuel) = B(FALSE)
----------------------------------------------------------------------------
Smt == Mode = "smt"
VARIABLES kind, item, verdict
vars == <<kind, item, verdict>>
DetFns == IF Mode = "det" THEN Declared ELSE {}
Init ==
  \/ Mode = "smt" /\ verdict = "todo" /\ ((kind = "ax" /\ item \in AxCases) \/ (kind = "def" /\ item \in OpCases("smt"))
                                          \/ (kind = "sort" /\ item \in DOMAIN Defs) \/ (kind = "data" /\ item \in DOMAIN D.data))
  \/ Mode = "rkt" /\ verdict = "todo" /\ kind = "rkt" /\ item \in OpCases("rkt")
  \/ Mode = "det" /\ verdict = "grow" /\ kind \in Declared /\ item = {}
DetNext ==
  LET new == {a \in DetDom(kind) \ item : Forces(kind, a, <<kind, item>>)} IN
  IF new # {} THEN item' = item \cup new /\ UNCHANGED <<kind, verdict>>
  ELSE verdict' = (IF item = DetDom(kind) THEN "ok" ELSE "undetermined at " \o Show(CHOOSE a \in DetDom(kind) \ item : TRUE)) /\ UNCHANGED <<kind, item>>
Next ==
  \/ verdict = "todo" /\ UNCHANGED <<kind, item>> /\
       verdict' = CASE kind = "ax" -> JudgeAx(item[1], item[2]) [] kind = "def" -> Judge("smt", item[1], item[2])
                    [] kind = "sort" -> JudgeSort(item) [] kind = "data" -> JudgeData(D.data[item]) [] kind = "rkt" -> Judge("rkt", item[1], item[2])
  \/ verdict = "grow" /\ DetNext
Spec == Init /\ [][Next]_vars
Name == CASE kind \in {"def", "rkt"} -> (IF kind = "def" THEN Ops[item[1]].smt ELSE Ops[item[1]].rkt) \o Show(item[2])
          [] kind = "ax" -> "axiom " \o ToString(item[1]) \o Show(AxEnv(D.axioms[item[1]], item[2]))
          [] kind = "sort" -> item [] kind = "data" -> D.data[item].ctor [] OTHER -> kind
Report == verdict \notin {"todo", "grow", "ok", "open"} => PrintT("BAD " \o ToJson(<<kind, Name, verdict>>))
=============================================================================
