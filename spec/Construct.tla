----------------------------- MODULE Construct ------------------------------
(* Which constructions the library accepts, and what they build.             *)
(*                                                                           *)
(* A case is an operation with operands of given types; operand i is the     *)
(* variable a<i> of its type ("#" is the plain Python integer 2+i, "#"<n> n,  *)
(* "@" and "@F" the plain Python Booleans, "%"<n> an integer literal object   *)
(* n, "=" the same object as operand 1).                                      *)
(* Expect(case) is <<"yes", term, type>>, <<"no">> (an error must be raised,  *)
(* no term built) or <<"open">>.                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Mode == IOEnv.GEN_MODE      \* "gen" or "check"
TY == [I |-> "Int", B |-> "Bool", L |-> "List(Int)", M |-> "Matrix(Int)", N |-> "List(List(Int))", X |-> "Tensor3D(Int)",
       S |-> "Set(Int)", T |-> "Tuple(Int,Int)", U |-> "Tuple(Int,Bool,Int)", W |-> "Set(Tuple(Int,Int))", Z |-> "Set(List(Int))", K |-> "List(Bool)"]
Types == {"I", "B", "L", "M", "N", "X", "S", "T"}
AllT == DOMAIN TY
PI == {"#", "#0", "#1", "#-1", "#-9"}
PB == {"@", "@F"}
IsPI(t) == t \in PI
PVal(t, i) == CASE t = "#" -> 2 + i [] t = "#0" -> 0 [] t = "#1" -> 1 [] t = "#-1" -> -1 [] t = "#-9" -> -9
IsLit(t) == t \in {"%0", "%1", "%2", "%5", "%-1"}
LitVal(t) == CASE t = "%0" -> 0 [] t = "%1" -> 1 [] t = "%2" -> 2 [] t = "%5" -> 5 [] t = "%-1" -> -1

Case(o, as) == [op |-> o, args |-> as]
Seqs(S, n) == [1..n -> S]
UpTo(S, lo, hi) == UNION {Seqs(S, n) : n \in lo..hi}

VarOf(i) == <<"var", "a" \o ToString(i), <<>>>>
Arg(t, i) == IF IsPI(t) THEN <<"int", PVal(t, i), <<>>>> ELSE IF t \in PB THEN <<"bool", t = "@", <<>>>>
             ELSE IF t = "=" THEN VarOf(1) ELSE IF IsLit(t) THEN <<"int", LitVal(t), <<>>>> ELSE VarOf(i)
Args(as) == [i \in DOMAIN as |-> IF as[i] = "=" THEN Arg(as[1], 1) ELSE Arg(as[i], i)]
N(k, pl, as) == <<k, pl, as>>
Yes(k, pl, as, ty) == <<"yes", N(k, pl, as), ty>>
No == <<"no">>
Open == <<"open">>
AllAre(as, t) == \A i \in DOMAIN as : as[i] = t
\* what an operand is typed as
Kind(as) == [i \in DOMAIN as |-> LET t == IF as[i] = "=" THEN as[1] ELSE as[i] IN IF IsLit(t) THEN t ELSE IF t \in PI THEN "#" ELSE IF t \in PB THEN "@" ELSE t]
KindI(as) == [i \in DOMAIN as |-> IF IsLit(as[i]) THEN "I" ELSE as[i]]
Same(as) == \A i \in DOMAIN as : as[i] = as[1]

----------------------------------------------------------------------------
(* expression classes *)
Variadic == {"Add", "Mul"}   Binary == {"Sub", "Div", "Mod"}   Order == {"Lt", "Le", "Gt", "Ge"}
Low == [Add |-> "add", Mul |-> "mul", Sub |-> "sub", Div |-> "div", Mod |-> "mod", Lt |-> "lt", Le |-> "le", Gt |-> "gt", Ge |-> "ge",
        And |-> "and", Or |-> "or", Not |-> "not", Implies |-> "implies", Ite |-> "ite", Choose |-> "choose", TupleExpr |-> "tuple"]
ClassCases ==
     {Case(o, as) : o \in Variadic \cup {"And", "Or"}, as \in UpTo(Types, 0, 3)}
  \cup {Case(o, as) : o \in Binary \cup Order \cup {"Implies"}, as \in UpTo(Types, 0, 2) \cup Seqs({"I", "B"}, 3)}
  \cup {Case("Not", as) : as \in UpTo(AllT, 0, 2)}
  \cup {Case("Ite", as) : as \in UpTo({"I", "B"}, 0, 2) \cup {<<"B", t, u>> : t \in AllT, u \in AllT} \cup Seqs(Types, 3)}
  \cup {Case("Choose", as) : as \in UpTo(Types, 0, 3) \cup Seqs(AllT, 2)}
  \cup {Case("TupleExpr", as) : as \in UpTo({"I", "B", "L", "T"}, 1, 3)}
  \cup {Case("Eq", as) : as \in UpTo(AllT, 0, 2) \cup Seqs({"I"}, 3)}
  \cup {Case(o, <<t, "=">>) : o \in Variadic \cup Binary \cup Order \cup {"And", "Or", "Implies", "Eq", "Choose", "TupleExpr"}, t \in {"I", "B", "L"}}
  \cup {Case(o, as) : o \in Variadic, as \in Seqs({"I", "=", "%0", "%1"}, 3) \cap {q \in Seqs({"I", "=", "%0", "%1"}, 3) : q[1] # "="}}
  \cup {Case(o, as) : o \in Binary \cup Order \cup {"Eq"}, as \in Seqs({"I", "%0", "%1", "%-1"}, 2)}
  \cup {Case("Ite", <<"B", t, "=">>) : t \in {"B"}}
  \cup {Case("TupleGet", <<t, l>>) : t \in {"T", "U"}, l \in {"%0", "%1", "%2", "%5"}}

TupTy(as) == "Tuple(" \o FoldLeft(LAMBDA acc, i : acc \o (IF i = 1 THEN "" ELSE ",") \o TY[as[i]], "", [i \in 1..Len(as) |-> i]) \o ")"
SameList(t, u) == {t, u} \subseteq {"M", "N"}     \* the same SMT sort: left open

ExpClass(o, as, a) ==
  CASE o \in Variadic -> IF as # <<>> /\ AllAre(as, "I") THEN Yes(Low[o], "", a, TY.I) ELSE No
    [] o \in Binary -> IF Len(as) = 2 /\ AllAre(as, "I") THEN Yes(Low[o], "", a, TY.I) ELSE No
    [] o \in Order -> IF Len(as) = 2 /\ AllAre(as, "I") THEN Yes(Low[o], "", a, TY.B) ELSE No
    [] o \in {"And", "Or"} -> IF as # <<>> /\ AllAre(as, "B") THEN Yes(Low[o], "", a, TY.B) ELSE No
    [] o = "Implies" -> IF Len(as) = 2 /\ AllAre(as, "B") THEN Yes("implies", "", a, TY.B) ELSE No
    [] o = "Not" -> IF as = <<"B">> THEN Yes("not", "", a, TY.B) ELSE No
    [] o = "Ite" -> IF Len(as) # 3 \/ as[1] # "B" THEN No
                    ELSE IF as[2] = as[3] THEN Yes("ite", "", a, TY[as[2]])
                    ELSE IF SameList(as[2], as[3]) THEN Open ELSE No
    [] o = "Choose" -> IF as # <<>> /\ Same(as) THEN Yes("choose", "", a, TY[as[1]]) ELSE No
    [] o = "TupleExpr" -> Yes("tuple", "", a, TupTy(as))
    [] o = "Eq" -> IF Len(as) # 2 THEN No ELSE IF Same(as) THEN Yes("eq", "", a, TY.B) ELSE Open
    [] o = "TupleGet" -> LET n == LitVal(as[2]) IN
         IF as[1] = "T" /\ n < 2 THEN Yes("tget", n, <<VarOf(1)>>, TY.I)
         ELSE IF as[1] = "U" /\ n < 3 THEN Yes("tget", n, <<VarOf(1)>>, IF n = 1 THEN TY.B ELSE TY.I) ELSE No

----------------------------------------------------------------------------
(* operators of the wrapper objects; the first operand names the object      *)
IntOps == {"add", "sub", "mul", "div", "mod", "lt", "le", "gt", "ge"}
CmpOps == {"lt", "le", "gt", "ge"}
Lists == {"L", "M", "N", "X"}
Elem == [L |-> "I", M |-> "L", N |-> "L", X |-> "M", K |-> "B"]
Vecs == {"L"}
ElemOps == {"vadd", "vsub", "vmul", "vdiv", "madd", "msub", "mmul", "mdiv"}

ObjCases ==
     {Case("o." \o o, <<t, u>>) : o \in IntOps, t \in {"I", "#"}, u \in AllT \cup {"#", "I"}}
  \cup {Case("o." \o o, <<"I", u>>) : o \in IntOps \cup {"eq", "ne"}, u \in PI \cup {"=", "%0", "%1", "%-1"}}
  \cup {Case("o." \o o, <<u, "I">>) : o \in IntOps \cup {"eq", "ne"}, u \in PI \cup {"%0", "%1", "%-1"}}
  \cup {Case("o." \o o, <<t, u>>) : o \in {"eq", "ne"}, t \in {"I", "#"}, u \in {"I", "#"}}
  \cup {Case("o." \o o, <<t, u>>) : o \in {"eq", "ne"}, t \in {"B"}, u \in {"B", "@", "@F", "="}}
  \cup {Case("o." \o o, as) : o \in {"And", "Or"}, as \in {<<"B">> \o s : s \in UpTo({"B", "@", "@F", "=", "I", "L"}, 0, 2)}}
  \cup {Case("o.Not", <<"B">>)}
  \cup {Case("o.implies", <<t, u>>) : t \in Types, u \in Types}
  \cup {Case("o.ite", <<t, u, v>>) : t \in {"B", "I"}, u \in AllT, v \in AllT}
  \cup {Case("o.choose", as) : as \in UpTo(Types, 0, 2)}
  \cup {Case("o.make_tuple", as) : as \in UpTo({"I", "B"}, 1, 3)}
  \cup {Case("o.tget", <<t, l>>) : t \in {"T", "U"}, l \in {"%0", "%1", "%2", "%5", "%-1", "I"}}
  \cup {Case("o.as_int", <<t>>) : t \in AllT} \cup {Case("o.as_bool", <<t>>) : t \in AllT}
  \cup {Case("o." \o o, <<l, e>>) : o \in {"append", "prepend"}, l \in Lists \cup {"K"}, e \in AllT}
  \cup {Case("o.set", <<l, i, e>>) : l \in {"L", "K"}, i \in PI \cup {"I", "%0", "%1"}, e \in Types}
  \cup {Case("o.concat", <<t, u>>) : t \in {"L", "K"}, u \in {"L", "K", "N", "M"}}
  \cup {Case("o." \o o, <<"S", "=">>) : o \in {"S.union", "S.difference"}} \cup {Case("o." \o o, <<"L", "=">>) : o \in {"concat", "leq", "vadd", "vsub"}} \cup {Case("o.madd", <<"M", "=">>)}
  \cup {Case("o.leq", <<t, u>>) : t \in {"L", "M", "N", "K"}, u \in {"L", "M", "N", "K"}}
  \cup {Case("o.len", <<l>>) : l \in Lists \cup {"K"}}
  \cup {Case("o." \o o, <<l, i>>) : o \in {"get", "tail", "take"}, l \in Lists \cup {"K"}, i \in PI \cup {"I", "%0", "%1"}}
  \cup {Case("o." \o o, <<l, i, j>>) : o \in {"slice", "slicelen"}, l \in Lists \cup {"K"}, i \in PI \cup {"I", "%0", "%1"}, j \in PI \cup {"I", "%0", "%1"}}
  \cup {Case("o." \o o, <<"M", i, j>>) : o \in {"col_slice", "col_slicelen"}, i \in PI \cup {"I", "%0", "%1"}, j \in PI \cup {"I", "%0", "%1"}}
  \cup {Case("o.col_vec", <<"M", i>>) : i \in PI \cup {"I", "%0", "%1"}} \cup {Case("o.transpose", <<"M">>)}
  \cup {Case("o.empty" \o t, <<>>) : t \in {"L", "M", "N", "X", "S"}}
  \cup {Case("o.S.add", <<s, e>>) : s \in {"S", "W", "Z"}, e \in AllT}
  \cup {Case("o.S.remove", <<s, e>>) : s \in {"S", "W", "Z"}, e \in AllT}
  \cup {Case("o.S.contains", <<s, e>>) : s \in {"S", "W", "Z"}, e \in AllT}
  \cup {Case("o.S.singleton", <<e>>) : e \in {"I", "T", "L"}}
  \cup {Case("o.S." \o o, <<s, r>>) : o \in {"union", "difference"}, s \in {"S", "W", "Z"}, r \in {"S", "W", "Z"}}
  \cup {Case("o.S.eq", <<s, s>>) : s \in {"S", "W", "Z"}}
  \cup {Case("o." \o o, <<t, u>>) : o \in {"vadd", "vsub", "vmul", "vdiv"}, t \in ({"L", "I", "K", "N", "B", "%0", "%1"} \cup PI), u \in ({"L", "I", "K", "N", "B", "%0", "%1"} \cup PI)}
  \cup {Case("o." \o o, <<t, u>>) : o \in {"madd", "msub", "mmul", "mdiv"}, t \in ({"M", "I", "L", "N", "B", "%0", "%1"} \cup PI), u \in ({"M", "I", "L", "N", "B", "%0", "%1"} \cup PI)}
  \cup {Case("o.fn_type", <<r>> \o as) : r \in {"I", "B", "L"}, as \in UpTo({"I", "B", "M"}, 0, 2)}
  \cup {Case("o.call", <<r>> \o as) : r \in {"I", "B", "L", "M", "S"}, as \in UpTo({"I", "L"}, 0, 2)}
  \cup {Case("o.call_value", <<r>> \o as) : r \in {"I", "B", "L"}, as \in UpTo({"I", "L"}, 0, 2)}

EmptyKind == [L |-> "lempty", M |-> "lempty", N |-> "lempty", X |-> "lempty", S |-> "sempty"]
ElSet == [S |-> "I", W |-> "T", Z |-> "L"]
False == <<"yes", N("bool", FALSE, <<>>), TY.B>>
EwNames == [vadd |-> <<"vec_elemwise_add", "vec_scalar_add", "vec_scalar_add">>, vmul |-> <<"vec_elemwise_mul", "vec_scalar_mul", "vec_scalar_mul">>,
            vsub |-> <<"vec_elemwise_sub", "vec_scalar_sub", "scalar_vec_sub">>, vdiv |-> <<"vec_elemwise_div", "vec_scalar_div", "scalar_vec_div">>,
            madd |-> <<"matrix_elemwise_add", "matrix_scalar_add", "matrix_scalar_add">>, mmul |-> <<"matrix_elemwise_mul", "matrix_scalar_mul", "matrix_scalar_mul">>,
            msub |-> <<"matrix_elemwise_sub", "matrix_scalar_sub", "scalar_matrix_sub">>, mdiv |-> <<"matrix_elemwise_div", "matrix_scalar_div", "scalar_matrix_div">>]

ExpObj(o, as, a) ==
  LET op == SubSeq(o, 3, Len(o)) IN
  CASE op \in IntOps -> IF as[1] = "#" /\ as[2] = "#" THEN Open
                        ELSE IF as[1] \in {"I", "#"} /\ as[2] \in {"I", "#"} THEN Yes(op, "", a, IF op \in CmpOps THEN TY.B ELSE TY.I)
                        ELSE No
    [] op = "eq" -> IF as = <<"#", "#">> THEN Open ELSE Yes("eq", "", a, TY.B)
    [] op = "ne" -> IF as = <<"#", "#">> THEN Open ELSE Yes("not", "", <<N("eq", "", a)>>, TY.B)
    [] op \in {"And", "Or"} -> IF Len(as) < 2 THEN No
                               ELSE IF \A i \in DOMAIN as : as[i] \in {"B", "@"} THEN Yes(Low[op], "", a, TY.B) ELSE No
    [] op = "Not" -> Yes("not", "", a, TY.B)
    [] op = "implies" -> IF AllAre(as, "B") THEN Yes("implies", "", a, TY.B) ELSE No
    [] op = "ite" -> IF as[1] # "B" THEN No ELSE IF as[2] = as[3] THEN
                         (IF as[2] \in {"T", "U", "W", "Z"} THEN Open ELSE Yes("ite", "", a, TY[as[2]]))
                     ELSE IF SameList(as[2], as[3]) THEN Open ELSE No
    [] op = "choose" -> IF as = <<>> \/ ~Same(as) THEN No ELSE IF as[1] = "T" THEN Open ELSE Yes("choose", "", a, TY[as[1]])
    [] op = "make_tuple" -> Yes("tuple", "", a, TupTy(as))
    [] op = "tget" -> IF as[2] = "I" THEN No ELSE
         LET n == LitVal(as[2]) IN
         IF n >= 0 /\ as[1] = "T" /\ n < 2 THEN Yes("tget", n, <<VarOf(1)>>, TY.I)
         ELSE IF n >= 0 /\ as[1] = "U" /\ n < 3 THEN Yes("tget", n, <<VarOf(1)>>, IF n = 1 THEN TY.B ELSE TY.I) ELSE No
    [] op = "as_int" -> IF as = <<"I">> THEN <<"yes", VarOf(1), TY.I>> ELSE No
    [] op = "as_bool" -> IF as = <<"B">> THEN <<"yes", VarOf(1), TY.B>> ELSE No
    [] op = "append" -> IF as[2] = Elem[as[1]] THEN Yes("lappend", "", a, TY[as[1]]) ELSE No
    [] op = "prepend" -> IF as[2] = Elem[as[1]] THEN Yes("lprepend", "", <<a[2], a[1]>>, TY[as[1]]) ELSE No
    [] op = "set" -> IF as[3] = Elem[as[1]] THEN Yes("call", "list_set", a, TY[as[1]]) ELSE No
    [] op = "concat" -> IF Same(as) THEN Yes("lconcat", "", a, TY[as[1]]) ELSE No
    [] op = "leq" -> IF Same(as) THEN Yes("eq", "", a, TY.B) ELSE False
    [] op = "len" -> Yes("llen", "", a, TY.I)
    [] op = "get" -> Yes("lget", "", a, TY[Elem[as[1]]])
    [] op \in {"tail", "take"} -> Yes("l" \o op, "", a, TY[as[1]])
    [] op \in {"slice", "slicelen"} -> Yes("l" \o op, "", a, TY[as[1]])
    [] op = "col_slice" -> Yes("mcolslice", "", a, TY.M)
    [] op = "col_slicelen" -> Yes("mcolslicelen", "", a, TY.M)
    [] op = "col_vec" -> Yes("any", "", <<>>, TY.L)     \* its meaning is P03's
    [] op = "transpose" -> Yes("mtranspose", "", a, TY.M)
    [] op \in {"empty" \o t : t \in {"L", "M", "N", "X", "S"}} -> LET t == SubSeq(op, 6, 6) IN Yes(EmptyKind[t], "", <<>>, TY[t])
    [] op = "S.add" -> IF as[2] = ElSet[as[1]] THEN Yes("sinsert", "", <<a[2], a[1]>>, TY[as[1]]) ELSE No
    [] op = "S.remove" -> IF as[2] = ElSet[as[1]] THEN Yes("sremove", "", a, TY[as[1]]) ELSE No
    [] op = "S.contains" -> IF as[2] = ElSet[as[1]] THEN Yes("smember", "", <<a[2], a[1]>>, TY.B) ELSE False
    [] op = "S.singleton" -> Yes("ssingleton", "", a, "Set(" \o TY[as[1]] \o ")")
    [] op = "S.union" -> IF Same(as) THEN Yes("sunion", "", a, TY[as[1]]) ELSE No
    [] op = "S.difference" -> IF Same(as) THEN Yes("sminus", "", a, TY[as[1]]) ELSE No
    [] op = "S.eq" -> Yes("eq", "", a, TY.B)
    [] op \in ElemOps ->
         LET v == IF SubSeq(op, 1, 1) = "v" THEN "L" ELSE "M"  nm == EwNames[op] IN
         IF as = <<v, v>> THEN Yes("call", nm[1], a, TY[v])
         ELSE IF as[1] = v /\ as[2] \in {"I", "#"} THEN Yes("call", nm[2], <<a[2], a[1]>>, TY[v])
         ELSE IF as[2] = v /\ as[1] \in {"I", "#"} THEN Yes("call", nm[3], a, TY[v])
         ELSE No
    [] op = "fn_type" -> <<"yes", N("fn", TY[as[1]], [i \in 1..(Len(as) - 1) |-> N("ty", TY[as[i + 1]], <<>>)]), "-">>
    [] op = "call" -> Yes("call", "g", Tail(a), TY[as[1]])
    [] op = "call_value" -> Yes("form", "CallValue", <<N("var", "fv", <<>>)>> \o Tail(a), TY[as[1]])

Cases == SetToSeq(ClassCases \cup ObjCases)
Expect(cs) == LET k == Kind(cs.args)  o == cs.op
                  t == IF o \in {"TupleGet", "o.tget"} THEN k ELSE KindI(k) IN
              IF SubSeq(o, 1, 2) = "o." THEN ExpObj(o, t, Args(cs.args)) ELSE ExpClass(o, t, Args(cs.args))

----------------------------------------------------------------------------
D == JsonDeserialize(IOEnv.CASES)
Got == D.cases              \* [id, op, args, out: "yes"/"no", term, type, same]
RECURSIVE TreeEq(_, _)
TreeEq(a, b) == a[1] = b[1] /\ a[2] = b[2] /\ Len(a[3]) = Len(b[3]) /\ \A i \in DOMAIN a[3] : TreeEq(a[3][i], b[3][i])
Judge(g) ==
  LET e == Expect(g) IN
  CASE e[1] = "open" -> "ok"
    [] e[1] = "no" -> IF g.out = "no" THEN "ok" ELSE "accepted, builds " \o ToString(g.term) \o " of type " \o g.type
    [] e[1] = "yes" ->
         IF g.out = "no" THEN "rejected: " \o g.err
         ELSE IF e[2][1] # "any" /\ ~TreeEq(e[2], g.term) THEN "builds " \o ToString(g.term) \o " instead of " \o ToString(e[2])
         ELSE IF e[3] # "-" /\ g.type # e[3] THEN "has type " \o g.type \o " instead of " \o e[3]
         ELSE IF g.objtype # "" /\ g.objtype # e[3] THEN "is wrapped with type " \o g.objtype \o " instead of " \o e[3]
         ELSE IF ~g.operands THEN "changes its operands" ELSE "ok"

VARIABLES c, verdict
vars == <<c, verdict>>
Init == IF Mode = "gen" THEN c = 0 /\ verdict = "done" /\ \A i \in DOMAIN Cases : PrintT("CASE " \o ToJson(Cases[i]))
        ELSE c \in 1..Len(Got) /\ verdict = "todo"
Next == verdict = "todo" /\ verdict' = Judge(Got[c]) /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
Report == verdict \notin {"todo", "done"} => PrintT("VERDICT " \o ToJson(<<Got[c].id, verdict, Expect(Got[c])[1]>>))
=============================================================================
