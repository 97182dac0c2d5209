------------------------------ MODULE TermGen -------------------------------
(* Builder machine: a behaviour is a sequence of construction calls on a     *)
(* stack of terms (the "program" of a user of the library).  TLC enumerates   *)
(* (pairs of operators, exhaustively) or walks (deep terms) its behaviours;  *)
(* every finished term is printed and replayed into the real library.        *)
EXTENDS Ops, Json, IOUtils, SequencesExt

Mode == IOEnv.GEN_MODE              \* "pairs" or "walk"
AllowedTypes == LET s == IOEnv.GEN_TYPES IN     \* e.g. "IBLMNST"
                {SubSeq(s, i, i) : i \in 1..Len(s)}
SkipOps == LET j == JsonDeserialize(IOEnv.GEN_SKIP) IN {j[i] : i \in DOMAIN j}
PlainInts == {0, 1, 2, 3, -2}

TypesOf(o) == {o.args[i] : i \in DOMAIN o.args} \cup {o.res}
MyOps == {o \in AllOps : TypesOf(o) \subseteq (AllowedTypes \cup {"#"}) /\ o.op \notin SkipOps}
MyLeaves == {l \in Leaves : l.t \in AllowedTypes}

VARIABLES stack, size
vars == <<stack, size>>

(* canonical leaves for the exhaustive part *)
Canon(t, j) ==
  CASE t = "#" -> [t |-> "#", e |-> <<"int", IF j = 1 THEN 2 ELSE 1, <<>>, "#">>]
    [] t = "I" -> IF j = 1 THEN VarL("x", "I") ELSE IF j = 2 THEN VarL("y", "I") ELSE IntL(2)
    [] t = "B" -> IF j = 1 THEN VarL("p", "B") ELSE VarL("q", "B")
    [] t = "L" -> IF j = 1 THEN VarL("xs", "L") ELSE VarL("ys", "L")
    [] t = "M" -> IF j = 1 THEN VarL("m", "M") ELSE VarL("n", "M")
    [] t = "N" -> VarL("w", "N")
    [] t = "X" -> VarL("u", "X")
    [] t = "S" -> IF j = 1 THEN VarL("s", "S") ELSE VarL("r", "S")
    [] t = "T" -> VarL("t", "T")
    [] t = "U" -> VarL("v", "U")

Node(o, as) == <<o.k, o.pl, as, o.op>>
Base(o) == Node(o, [i \in DOMAIN o.args |-> Canon(o.args[i], i).e])
(* inside the inner operator use the remaining variables *)
InnerLeaf(t, i) ==
  IF t = "I" THEN (IF i = 1 THEN VarL("y", "I") ELSE IF i = 2 THEN VarL("z", "I") ELSE IntL(-1))
  ELSE Canon(t, IF i = 1 THEN 2 ELSE 1)
  
Inner(o) == Node(o, [i \in DOMAIN o.args |-> InnerLeaf(o.args[i], i).e])
Nest(o, j, in) == Node(o, [i \in DOMAIN o.args |-> IF i = j THEN Inner(in) ELSE Canon(o.args[i], i).e])

PairTerms == {Base(o) : o \in MyOps} \cup {l.e : l \in MyLeaves}
  \cup UNION {UNION {{Nest(o, j, in) : in \in {x \in MyOps : x.res = o.args[j]}}
                     : j \in DOMAIN o.args} : o \in MyOps}

(* Boolean structure, exhaustively to depth two, with literals in every place *)
BL == {BoolL(TRUE).e, BoolL(FALSE).e, VarL("p", "B").e}
Bn(k, how, as) == <<k, "", as, how>>
D1 == BL \cup {Bn("and", "And1", <<a>>) : a \in BL} \cup {Bn("not", "Not", <<a>>) : a \in BL}
      \cup {Bn(o[1], o[2], <<a, b>>) : a \in BL, b \in BL, o \in {<<"and", "And2">>, <<"or", "Or2">>, <<"implies", "Implies">>}}
      \cup {Bn("and", "And3", <<a, b, d>>) : a \in BL, b \in BL, d \in BL}
Qv == VarL("q", "B").e
BoolTerms ==
  {Bn("and", "And2", <<a, b>>) : a \in D1, b \in D1}
  \cup {Bn("and", "And3", <<l, a, k>>) : l \in BL, a \in D1, k \in BL}
  \cup {Bn(o[1], o[2], <<a, Qv>>) : a \in D1, o \in {<<"or", "Or2">>, <<"implies", "Implies">>, <<"eq", "EqB">>}}
  \cup {Bn(o[1], o[2], <<Qv, a>>) : a \in D1, o \in {<<"or", "Or2">>, <<"implies", "Implies">>, <<"eq", "EqB">>}}
  \cup {Bn("not", "Not", <<a>>) : a \in D1}
  \cup {Bn("ite", "IteB", <<a, Qv, l>>) : a \in D1, l \in BL} \cup {Bn("ite", "IteB", <<Qv, l, a>>) : a \in D1, l \in BL}
  \cup {<<"let", "z", <<IntL(2).e, a>>, "LetIB">> : a \in D1}

(* for the solution reader: conditions a solver decided (literals, and the    *)
(* Boolean functions flag_t, flag_f, flag_v synthesised beside), names bound   *)
(* again at another type, and literals of several digits                      *)
Flag(nm, a) == <<"call", nm, <<a>>, "C:B">>
Conds == {Flag("flag_t", VarL("x", "I").e), Flag("flag_f", VarL("y", "I").e), Flag("flag_v", VarL("p", "B").e), BoolL(TRUE).e, BoolL(FALSE).e}
IteHow(t) == IF t = "N" THEN "IteM" ELSE "Ite" \o t
Pick(cd, o) == <<"ite", "", <<cd, Base(o), Canon(o.res, 2).e>>, IteHow(o.res)>>
Unpick(cd, o) == <<"ite", "", <<cd, Canon(o.res, 2).e, Base(o)>>, IteHow(o.res)>>
DecidedTerms ==
  {Pick(cd, o) : cd \in Conds, o \in {x \in MyOps : x.res \in {"I", "B", "L", "M", "S", "T"}}}
  \cup {Unpick(cd, o) : cd \in Conds, o \in {x \in MyOps : x.res \in {"I", "B"} /\ Len(x.args) = 1}}
  \cup {<<"add", "", <<Pick(cd, o), Unpick(ce, o)>>, "Add2">> : cd \in Conds, ce \in Conds, o \in {x \in MyOps : x.op \in {"Sub", "o.len", "CallF"} /\ x.res = "I"}}
  \cup {<<"ite", "", <<cd, Unpick(ce, o), VarL("z", "I").e>>, "IteI">> : cd \in Conds, ce \in Conds, o \in {x \in MyOps : x.op \in {"Sub", "o.get"} /\ x.res = "I"}}
  \cup {<<"ite", "", <<Bn("not", "Not", <<cd>>), VarL("y", "I").e, VarL("z", "I").e>>, "IteI">> : cd \in Conds}
Xi == VarL("x", "I").e
Xl == <<"var", "x", <<>>, "L">>
Yl == VarL("ys", "L").e
LetN(nm, v, b, how) == <<"let", nm, <<v, b>>, how>>
LenOf(l) == <<"llen", "", <<l>>, "o.len">>
Sum(a, b) == <<"add", "", <<a, b>>, "Add2">>
ShadowTerms == {
  Sum(LetN("x", Yl, LenOf(Xl), "LetLI"), Xi), <<"sub", "", <<Xi, LetN("x", Yl, LenOf(Xl), "LetLI")>>, "Sub">>,
  LetN("x", Yl, LetN("y", LenOf(Xl), Sum(VarL("y", "I").e, LenOf(Xl)), "LetII"), "LetLI"),
  Sum(LetN("x", Yl, LetN("x", LenOf(Xl), Sum(Xi, Xi), "LetII"), "LetLI"), Xi),
  <<"eq", "", <<LetN("y", Sum(Xi, Xi), LetN("x", Yl, Sum(LenOf(Xl), VarL("y", "I").e), "LetLI"), "LetII"), Xi>>, "EqI">>,
  LetN("xs", Xi, Sum(<<"var", "xs", <<>>, "I">>, LenOf(Yl)), "LetII"),
  Sum(LetN("p", Xi, Sum(<<"var", "p", <<>>, "I">>, Xi), "LetII"), <<"ite", "", <<VarL("p", "B").e, Xi, VarL("y", "I").e>>, "IteI">>) }
DigitTerms == UNION {{IntL(k).e, Sum(Xi, IntL(k).e), <<"sub", "", <<IntL(k).e, Xi>>, "Sub">>, <<"mul", "", <<VarL("y", "I").e, IntL(k).e>>, "Mul2">>,
                      <<"lt", "", <<IntL(k).e, VarL("z", "I").e>>, "Lt">>} : k \in {-12, 10, 31, -305, 100}}

MaxSize == 14
Top(n) == SubSeq(stack, Len(stack) - n + 1, Len(stack))
Fits(o, top) == \A i \in DOMAIN o.args : top[i].t = o.args[i]

PushLeaf == \E l \in MyLeaves : /\ Len(stack) < 3 /\ stack' = Append(stack, l) /\ size' = size + 1
PushPlain == \E c \in PlainInts :
                /\ Len(stack) < 3 /\ stack # <<>>
                /\ stack' = Append(stack, [t |-> "#", e |-> <<"int", c, <<>>, "#">>]) /\ size' = size + 1
Apply == \E o \in MyOps :
           /\ Len(o.args) <= Len(stack) /\ Len(o.args) > 0
           /\ Fits(o, Top(Len(o.args)))
           /\ stack' = Append(SubSeq(stack, 1, Len(stack) - Len(o.args)),
                              [t |-> o.res, e |-> Node(o, [i \in DOMAIN o.args |-> Top(Len(o.args))[i].e])])
           /\ size' = size + 1
ApplyNullary == \E o \in MyOps :
           /\ Len(o.args) = 0 /\ Len(stack) < 3
           /\ stack' = Append(stack, [t |-> o.res, e |-> Node(o, <<>>)]) /\ size' = size + 1

Init == /\ stack = <<>> /\ size = 0
        /\ PrintT("FNS " \o ToJson(UserFns))
        /\ PrintT("SUBSTS " \o ToJson(Substs))
        /\ Mode = "bools" => \A t \in BoolTerms : PrintT("TERM " \o ToJson(t))
        /\ Mode = "solver" => \A t \in DecidedTerms \cup ShadowTerms \cup DigitTerms : PrintT("TERM " \o ToJson(t))
        /\ Mode = "pairs" => \A t \in PairTerms : PrintT("TERM " \o ToJson(t))
Next == Mode = "walk" /\ size < MaxSize /\ (PushLeaf \/ PushPlain \/ Apply \/ ApplyNullary)
Spec == Init /\ [][Next]_vars

Emit == (Mode = "walk" /\ Len(stack) = 1 /\ size >= 5 /\ stack[1].t # "#")
           => PrintT("TERM " \o ToJson(stack[1].e))
=============================================================================
