------------------------------- MODULE PyGen --------------------------------
(* P16: what a language model may write, one proposal for every seed: one or  *)
(* two functions over a small library.  A function is                         *)
(* [name, ps: <<name, type>>s, ret, body] with a Python syntax tree as body   *)
(* (PySem.tla; "Ite" is the ite() a model may use for a conditional).         *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils

From == atoi(IOEnv.P_FROM)
To == atoi(IOEnv.P_TO)
Mix(y) == (y + (y \div 7) * 13 + (y % 127) * 331 + (y % 64) * 977) % 65521
H(s, k) == Mix((s * 30029 + k * 1117 + 12345) % 65521)
R(s, k, n) == (H(H(s, k), 5) \div 11) % n
Of(s, k, q) == q[1 + R(s, k, Len(q))]
Nd(k, as) == <<k, "", as>>
Nm(x) == <<"Name", x, <<>>>>
K(n) == <<"Int", n, <<>>>>
Neg(n) == <<"UnaryOp", "USub", <<K(n)>>>>
Bin(o, a, b) == <<"BinOp", o, <<a, b>>>>
Ix(a, b) == Nd("Index", <<a, b>>)

(* the library: its functions with Python bodies *)
Fn(name, ps, ret, body) == [name |-> name, ps |-> ps, ret |-> ret, body |-> body]
Lib == <<
  Fn("scale_sub", << <<"a", "I">>, <<"b", "I">> >>, "I", Bin("Sub", Nm("a"), Bin("Mult", K(2), Nm("b")))),
  Fn("over", << <<"num", "I">>, <<"den", "I">>, <<"alt", "I">> >>, "I", <<"IfExp", "", << <<"Compare", <<"Gt">>, <<Nm("den"), K(0)>> >>, Bin("Sub", Nm("num"), Nm("den")), Nm("alt") >> >>),
  Fn("between", << <<"lo", "I">>, <<"v", "I">>, <<"hi", "I">> >>, "B", <<"Compare", <<"LtE", "Lt">>, <<Nm("lo"), Nm("v"), Nm("hi")>> >>),
  Fn("flip", << <<"c", "B">>, <<"d", "B">> >>, "B", <<"Compare", <<"NotEq">>, <<Nm("c"), Nm("d")>> >>),
  Fn("glue", << <<"vec", "L">>, <<"k", "I">> >>, "L", Bin("Add", Nm("vec"), <<"List", "", <<Nm("k")>> >>)),
  Fn("total", << <<"vec", "L">>, <<"wt", "I">> >>, "I", Bin("Sub", Nm("wt"), <<"Call", "len", <<Nm("vec")>> >>)),
  Fn("flat", << <<"mat", "M">>, <<"sep", "I">> >>, "L", <<"IfExp", "", << <<"Compare", <<"Lt">>, << <<"Call", "len", <<Nm("mat")>> >>, K(1)>> >>, <<"List", "", <<Nm("sep")>> >>, Ix(Nm("mat"), K(0)) >> >>),
  Fn("rows", << <<"row", "L">> >>, "M", <<"List", "", <<Nm("row")>> >>),
  Fn("crop", << <<"mat", "M">>, <<"stop", "I">> >>, "M", <<"Slice", "hi", <<Nm("mat"), <<"IfExp", "", << <<"Compare", <<"Lt">>, <<Nm("stop"), K(0)>> >>, K(0), Nm("stop") >> >> >> >>),
  Fn("inc", << <<"a", "I">> >>, "I", Bin("Add", Nm("a"), K(1))),
  Fn("app1", << <<"f", "F">>, <<"a", "I">> >>, "I", <<"Call", "f", <<Nm("a")>> >>),
  Fn("app2", << <<"g", "G">>, <<"a", "I">>, <<"b", "I">> >>, "I", <<"Call", "g", <<Nm("a"), Nm("b")>> >>),
  Fn("twice", << <<"a", "I">>, <<"f", "F">> >>, "I", <<"Call", "f", << <<"Call", "f", <<Nm("a")>> >> >> >>),
  Fn("check", << <<"h", "P">>, <<"a", "I">> >>, "B", <<"Call", "h", <<Nm("a")>> >>) >>
LibT(t) == SelectSeq(Lib, LAMBDA f : f.ret = t)

(* scopes: names of each type; fn: functions of the proposal that may be called *)
RECURSIVE E(_, _, _, _), Leaf(_, _, _)
Leaf(t, s, sc) ==
  CASE sc[t] # <<>> /\ ~(t = "I" /\ R(s, 1, 3) = 0) -> Nm(Of(s, 2, sc[t]))
    [] t = "I" -> IF R(s, 3, 40) = 0 THEN <<"Global", "G0", <<>>>> ELSE K(R(s, 4, 4))
    [] t = "B" -> IF R(s, 5, 4) = 0 THEN <<"Bool", R(s, 6, 2) = 0, <<>>>> ELSE <<"Compare", <<"Lt">>, <<Leaf("I", H(s, 7), sc), K(2)>> >>
    [] t = "M" /\ R(s, 13, 4) # 0 /\ sc["M"] = <<>> -> <<"Call", "rows", <<Leaf("L", H(s, 14), sc)>> >>
    [] OTHER -> <<"List", "", <<>>>>
Lam(s, sc, n, t, d) ==
  LET ps == Of(s, 8, IF n = 1 THEN << <<"a">>, <<"k">>, <<"x">> >> ELSE << <<"a", "b">>, <<"b", "a">>, <<"x", "k">> >>)
      inner == [sc EXCEPT !["I"] = ps \o (IF R(s, 9, 2) = 0 THEN SelectSeq(sc["I"], LAMBDA v : v \notin ToSet(ps)) ELSE <<>>)] IN
  <<"Lambda", ps, <<E(t, H(s, 10), inner, IF R(s, 11, 3) = 0 THEN d ELSE IF d > 1 THEN 1 ELSE d)>> >>
Arg(t, s, sc, d) ==
  CASE t = "F" -> IF R(s, 12, 5) = 0 THEN Nm("inc") ELSE Lam(s, sc, 1, "I", d) [] t = "G" -> Lam(s, sc, 2, "I", d) [] t = "P" -> Lam(s, sc, 1, "B", d) [] OTHER -> E(t, s, sc, d)
Swap(q, i, j) == [q EXCEPT ![i] = q[j], ![j] = q[i]]
CallOf(f, s, sc, d) ==
  LET n == Len(f.ps)  as == [i \in 1..n |-> Arg(f.ps[i][2], H(s, 20 + i), sc, d)]
      nm == [i \in 1..n |-> f.ps[i][1]]
      r == R(s, 30, 14)  j == 1 + R(s, 31, n) IN
  IF n >= 2 /\ r = 0 THEN <<"CallKw", <<f.name, Swap(nm, 1, n)>>, Swap(as, 1, n)>>                       \* all by name, in another order
  ELSE IF n >= 2 /\ r = 1 THEN <<"CallKw", <<f.name, [i \in 1..n |-> IF i < n THEN "" ELSE nm[i]]>>, as>>  \* the last by name
  ELSE IF r = 2 /\ R(s, 32, 3) = 0 THEN <<"Call", f.name, SubSeq(as, 1, n - 1)>>                              \* one short
  ELSE <<"Call", f.name, as>>
Rel == <<"Lt", "LtE", "Gt", "GtE", "Eq", "NotEq">>
Cond(s, sc, t, d) == Nd(IF R(s, 33, 3) = 0 THEN "Ite" ELSE "IfExp",
  <<IF R(s, 34, 25) = 0 THEN E(Of(s, 35, <<"I", "L">>), H(s, 36), sc, 0) ELSE E("B", H(s, 37), sc, d - 1), E(IF R(s, 38, 40) = 0 THEN "B" ELSE t, H(s, 39), sc, d - 1), E(t, H(s, 40), sc, d - 1)>>)
Bound(s, sc) == LET r == R(s, 41, 16) IN IF r = 0 THEN Neg(1 + R(s, 42, 2)) ELSE IF r < 8 THEN K(R(s, 43, 4)) ELSE E("I", H(s, 44), sc, IF r = 8 THEN 1 ELSE 0)
Slices(s, sc, a) == LET r == R(s, 45, 22) IN
  CASE r = 0 -> Nd("SliceStep", <<a, K(0), Bound(H(s, 46), sc), K(2)>>) [] r = 1 -> <<"Slice", "none", <<a>> >>
    [] r <= 8 -> <<"Slice", "lo", <<a, Bound(H(s, 46), sc)>> >> [] r <= 14 -> <<"Slice", "hi", <<a, Bound(H(s, 46), sc)>> >>
    [] OTHER -> <<"Slice", "both", <<a, Bound(H(s, 46), sc), Bound(H(s, 47), sc)>> >>
CallAny(t, s, sc, d) ==
  LET fs == LibT(t) \o SelectSeq(sc["fn"], LAMBDA f : f.ret = t) IN
  IF sc["fn"] # <<>> /\ sc["fn"][1].ret = t /\ R(s, 48, 3) = 0 THEN CallOf(sc["fn"][1], s, sc, d - 1) ELSE CallOf(Of(s, 49, fs), s, sc, d - 1)
E(t, s, sc, d) ==
  LET A(k) == E(t, H(s, 60 + k), sc, d - 1)
      X(u, k) == E(u, H(s, 60 + k), sc, d - 1)
      r == R(s, 50, 24) IN
  IF d <= 0 THEN Leaf(t, s, sc)
  ELSE CASE t = "I" -> (
         CASE r <= 8 -> Bin(Of(s, 51, <<"Add", "Sub", "Sub", "Mult", "FloorDiv", "Mod">>), A(1), A(2))
           [] r = 9 -> <<"UnaryOp", Of(s, 52, <<"USub", "USub", "USub", "UAdd">>), <<A(1)>> >>
           [] r \in {10, 11} -> <<"Call", "len", <<X(Of(s, 53, <<"L", "L", "M">>), 1)>> >>
           [] r \in {12, 13} -> Ix(X("L", 1), Bound(H(s, 54), sc))
           [] r \in {14, 15, 16} -> Cond(s, sc, t, d)
           [] r = 17 /\ R(s, 55, 3) = 0 -> Nd("CallLambda", <<Lam(s, sc, 1, "I", 1), A(1)>>)
           [] r = 18 /\ R(s, 56, 4) = 0 -> Bin("Add", X("B", 1), A(2))
           [] OTHER -> CallAny(t, s, sc, d))
       [] t = "B" -> (
         CASE r <= 6 -> <<"Compare", <<Of(s, 51, Rel)>>, <<X("I", 1), X("I", 2)>> >>
           [] r = 7 -> <<"Compare", <<Of(s, 51, Rel), Of(s, 52, Rel)>>, <<X("I", 1), X("I", 2), X("I", 3)>> >>
           [] r \in {8, 9} -> LET u == Of(s, 53, <<"L", "M", "L">>) IN <<"Compare", <<Of(s, 54, <<"Eq", "Eq", "Eq", "NotEq">>)>>, <<X(u, 1), X(u, 2)>> >>
           [] r <= 14 -> <<"BoolOp", Of(s, 51, <<"And", "Or">>), IF R(s, 55, 3) = 0 THEN <<A(1), A(2), A(3)>> ELSE <<A(1), A(2)>> >>
           [] r = 15 -> <<"UnaryOp", "Not", <<A(1)>> >>
           [] r = 16 /\ R(s, 56, 2) = 0 -> <<"Compare", <<Of(s, 51, <<"Eq", "NotEq", "Lt">>)>>, <<A(1), A(2)>> >>
           [] r \in {17, 18} -> Cond(s, sc, t, d)
           [] OTHER -> CallAny(t, s, sc, d))
       [] t = "L" -> (
         CASE r <= 6 -> Slices(s, sc, A(1))
           [] r \in {7, 8} -> Bin("Add", A(1), A(2))
           [] r \in {9, 10} -> Ix(X("M", 1), Bound(H(s, 54), sc))
           [] r = 11 -> <<"List", "", << X("I", 1), X("I", 2) >> >>
           [] r = 12 -> <<"List", "", IF R(s, 57, 2) = 0 THEN << X("I", 1), Nd("Starred", <<A(2)>>) >> ELSE << Nd("Starred", <<A(2)>>), X("I", 1) >> >>
           [] r \in {13, 14} -> Cond(s, sc, t, d)
           [] r = 15 /\ R(s, 58, 4) = 0 -> Bin("Mult", A(1), K(2))
           [] r <= 17 -> Leaf(t, s, sc)
           [] OTHER -> CallAny(t, s, sc, d))
       [] OTHER -> (
         CASE r <= 8 -> Slices(s, sc, A(1))
           [] r = 9 -> <<"List", "", << X("L", 1) >> >>
           [] r = 10 -> <<"List", "", << X("L", 1), Nd("Starred", <<A(2)>>) >> >>
           [] r \in {11, 12} -> Cond(s, sc, t, d)
           [] r = 13 -> Bin("Add", A(1), A(2))
           [] r <= 16 -> Leaf(t, s, sc)
           [] OTHER -> CallAny(t, s, sc, d))

St(k, x, e) == <<k, x, <<e>>>>
Ret(e) == <<"Return", "", <<e>>>>
(* the statements of a body *)
Body(s, e, t, sc) ==
  LET r == R(s, 70, 30)  out == IF R(s, 71, 2) = 0 \/ sc[t] = <<>> THEN "out" ELSE Of(s, 72, sc[t]) IN
  Nd("Block",
     CASE r <= 4 -> << St("Assign", out, e), Ret(Nm(out)) >>
       [] r = 5 /\ t \in {"I", "L"} /\ sc[t] # <<>> -> LET v == Of(s, 72, sc[t]) IN << St("AugAssign", v, e), Ret(Nm(v)) >>
       [] r = 6 /\ sc[t] # <<>> -> << St("Assign", "out", e), Ret(Nm(Of(s, 72, sc[t]))) >>
       [] r = 7 -> << St("Assign", "out", e), St("Assign", "out", IF t = "I" THEN Bin("Add", Nm("out"), K(1)) ELSE Nm("out")), Ret(Nm("out")) >>
       [] r = 8 /\ R(s, 73, 2) = 0 -> << <<"If", "", <<E("B", H(s, 74), sc, 1), Nd("Block", << Ret(e) >>)>> >>, Ret(Leaf(t, H(s, 75), sc)) >>
       [] r = 9 -> << <<"Doc", "", <<>>>>, Ret(e) >>
       [] OTHER -> << Ret(e) >>)

Names == [I |-> <<"z", "x", "y">>, B |-> <<"q", "p">>, L |-> <<"ys", "xs">>, M |-> <<"n", "m">>]
Rot(q, k) == [i \in DOMAIN q |-> q[1 + ((i + k - 1) % Len(q))]]
(* parameters in an order of their own *)
Params(s) ==
  LET all == SelectSeq(<< <<"z", "I">>, <<"ys", "L">>, <<"x", "I">>, <<"q", "B">>, <<"n", "M">>, <<"y", "I">>, <<"xs", "L">>, <<"p", "B">>, <<"m", "M">> >>,
                       LAMBDA v : v[1] \in {"x", "xs"} \/ R(s + Len(v[1]), 80 + (IF v[1] \in {"x", "xs"} THEN 1 ELSE IF v[1] \in {"y", "ys"} THEN 2 ELSE IF v[1] = "z" THEN 3 ELSE IF v[1] = "p" THEN 4 ELSE IF v[1] = "q" THEN 5 ELSE IF v[1] = "m" THEN 6 ELSE 7), 5) < 2) IN
  Rot(all, R(s, 90, Len(all)))
Scope(ps) == [t \in {"I", "B", "L", "M"} |-> LET q == SelectSeq(ps, LAMBDA v : v[2] = t) IN [i \in DOMAIN q |-> q[i][1]]]
(* a call of the function itself, the first integer one less *)
Again(f, s, sc) == <<"Call", f.name, [i \in DOMAIN f.ps |-> IF f.ps[i][1] = "x" THEN Bin("Sub", Nm("x"), K(1)) ELSE Leaf(f.ps[i][2], H(s, 95 + i), sc)]>>
Func(s, name, ret, others) ==
  LET ps == Params(s)
      sc == [u \in {"fn"} |-> others] @@ Scope(ps)
      f == Fn(name, ps, ret, <<>>)
      e == E(ret, H(s, 91), sc, 1 + R(s, 92, 3)) IN
  IF ret \in {"I", "L"} /\ R(s, 93, 5) = 0
  THEN [f EXCEPT !.body = Nd("Block", << Ret(<<"IfExp", "", << <<"Compare", <<"LtE">>, <<Nm("x"), K(0)>> >>, e,
          IF ret = "I" THEN Bin("Sub", Again(f, s, sc), Leaf("I", H(s, 94), sc)) ELSE Bin("Add", Again(f, s, sc), Leaf("L", H(s, 94), sc)) >> >>) >>)]
  ELSE [f EXCEPT !.body = Body(s, e, ret, sc)]
Prog(n) ==
  LET s == H(n, 1)  one == Func(H(s, 2), "summary", Of(s, 3, <<"I", "B", "L", "M", "I", "L">>), <<>>) IN
  IF R(s, 4, 2) = 0 THEN <<one>>
  ELSE <<one, Func(H(s, 5), "invariant", Of(s, 6, <<"B", "B", "I", "L">>), <<one>>)>>

VARIABLE n
Init == n = From /\ PrintT("LIB " \o ToJson(Lib))
Next == n < To /\ n' = n + 1
Emit == PrintT("PROG " \o ToJson([id |-> n, fns |-> Prog(n)]))
=============================================================================
