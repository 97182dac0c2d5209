------------------------------- MODULE PyLib --------------------------------
(* The library proposals may use (D.lib: functions with Python bodies), in     *)
(* Python and in the intermediate language.                                     *)
EXTENDS MLSem, Envs, Json, IOUtils

D == JsonDeserialize(IOEnv.CASES)

(* the library in the intermediate language *)
RECURSIVE ML(_)
O(k, as) == <<k, "", as, "">>
Bi == [Add |-> "add", Sub |-> "sub", Mult |-> "mul"]
Re == [Lt |-> "lt", LtE |-> "le", Gt |-> "gt", GtE |-> "ge", Eq |-> "eq", NotEq |-> "ne"]
ML(x) ==
  LET k == x[1]  pl == x[2]  a == x[3] IN
  CASE k = "Name" -> <<"var", pl, <<>>, "">>
    [] k = "Int" -> <<"int", pl, <<>>, "">>
    [] k = "BinOp" -> IF a[2][1] = "List" THEN O("lappend", <<ML(a[1]), ML(a[2][3][1])>>) ELSE O(Bi[pl], <<ML(a[1]), ML(a[2])>>)
    [] k = "Compare" -> LET c == [i \in DOMAIN pl |-> O(Re[pl[i]], <<ML(a[i]), ML(a[i + 1])>>)] IN IF Len(c) = 1 THEN c[1] ELSE O("and", c)
    [] k = "IfExp" -> O("ite", <<ML(a[1]), ML(a[2]), ML(a[3])>>)
    [] k = "List" -> O("lappend", <<O("lempty", <<>>), ML(a[1])>>)
    [] k = "Index" -> O("lget", <<ML(a[1]), ML(a[2])>>)
    [] k = "Slice" -> O("ltake", <<ML(a[1]), ML(a[2])>>)
    [] k = "Call" -> IF pl = "len" THEN O("llen", <<ML(a[1])>>) ELSE O("callv", << <<"var", pl, <<>>, "">> >> \o [i \in DOMAIN a |-> ML(a[i])])
ParamNames(f) == [i \in DOMAIN f.ps |-> f.ps[i][1]]
Fns(fs, Body(_)) == [nm \in {fs[i].name : i \in DOMAIN fs} |-> LET f == fs[CHOOSE i \in DOMAIN fs : fs[i].name = nm] IN <<ParamNames(f), Body(f.body)>>]
Id(x) == x
LibPy == Fns(D.lib, Id)
LibML == Fns(D.lib, ML)
(* the name of a library function, given to another *)
RECURSIVE Refs(_)
Refs(x) == IF x[1] = "var" /\ x[2] \in DOMAIN LibML THEN <<"fnref", x[2], <<>>, "">> ELSE <<x[1], x[2], [i \in DOMAIN x[3] |-> Refs(x[3][i])], x[4]>>

RECURSIVE Norm(_), NegSub(_)
(* ite(c, a, b) is the conditional a if c else b *)
Norm(x) == LET a == [i \in DOMAIN x[3] |-> Norm(x[3][i])] IN IF x[1] = "Ite" THEN <<"IfExp", "", a>> ELSE <<x[1], x[2], a>>
NegSub(x) == \/ x[1] \in {"Index", "Slice"} /\ \E i \in 2..Len(x[3]) : x[3][i][1] = "UnaryOp" /\ x[3][i][2] = "USub" /\ x[3][i][3][1][1] = "Int" /\ x[3][i][3][1][2] > 0
             \/ \E i \in DOMAIN x[3] : NegSub(x[3][i])

=============================================================================
