------------------------------ MODULE GramGen -------------------------------
(* Declared grammars, one for every seed: a pool of shared choices (a later  *)
(* one may use the earlier ones, any number of times) and a body over them.  *)
(* The first grammars hold one operator each, every operator of   *)
(* the library once, over choices, and twice in near copies.  A choice is the node                     *)
(* <<"choose", "", alternatives, "Choose" | "o.choose">>.                     *)
EXTENDS Ops, SequencesExt, Json, IOUtils

From == atoi(IOEnv.P_FROM)
To == atoi(IOEnv.P_TO)
Mix(y) == (y + (y \div 7) * 13 + (y % 127) * 331 + (y % 64) * 977) % 65521
H(s, k) == Mix((s * 30029 + k * 1117 + 12345) % 65521)
R(s, k, n) == (H(H(s, k), 5) \div 11) % n
Of(s, k, q) == q[1 + R(s, k, Len(q))]

Types == {"I", "B", "L", "M", "N", "S", "T", "U"}
TypesOf(o) == {o.args[i] : i \in DOMAIN o.args} \cup {o.res}
OpSeq == SetToSeq({o \in AllOps : TypesOf(o) \subseteq (Types \cup {"#"})})
OpsOf == [t \in Types |-> SelectSeq(OpSeq, LAMBDA o : o.res = t)]
Node(o, as) == <<o.k, o.pl, as, o.op>>
Lf(n, t) == VarL(n, t).e
LeafSeq == [I |-> <<Lf("x", "I"), Lf("y", "I"), IntL(0).e, IntL(2).e, IntL(-7).e, IntL(1).e>>,
            B |-> <<Lf("p", "B"), Lf("q", "B"), BoolL(TRUE).e, BoolL(FALSE).e>>,
            L |-> <<Lf("xs", "L"), Lf("ys", "L"), <<"lempty", "", <<>>, "o.L.empty">>, Lf("zs", "L")>>,
            M |-> <<Lf("m", "M"), Lf("n", "M"), <<"lempty", "", <<>>, "o.M.empty">>>>,
            N |-> <<Lf("w", "N"), <<"lempty", "", <<>>, "o.N.empty">>, <<"lprepend", "", <<Lf("xs", "L"), Lf("w", "N")>>, "o.prepend">>>>,
            S |-> <<Lf("s", "S"), Lf("r", "S"), <<"sempty", "", <<>>, "o.S.empty">>>>,
            T |-> <<Lf("t", "T"), <<"tuple", "", <<Lf("x", "I"), Lf("y", "I")>>, "Tuple2">>>>,
            U |-> <<Lf("v", "U"), <<"tuple", "", <<Lf("y", "I"), Lf("p", "B"), Lf("x", "I")>>, "Tuple3">>>>]
Ch(as, k) == <<"choose", "", as, IF k = 0 THEN "Choose" ELSE "o.choose">>
Plain(s) == <<"int", R(s, 1, 4), <<>>, "#">>

RECURSIVE Count(_), CountProd(_, _), CountSum(_, _)
Cap(n) == IF n > 999 THEN 999 ELSE n
Count(e) == IF e[1] = "choose" THEN CountSum(e[3], 1) ELSE CountProd(e[3], 1)
CountProd(as, i) == IF i > Len(as) THEN 1 ELSE Cap(Count(as[i]) * CountProd(as, i + 1))
CountSum(as, i) == IF i > Len(as) THEN 0 ELSE Cap(Count(as[i]) + CountSum(as, i + 1))

(* pool: sequence of [t, e]; bound: is z bound here?  a let's body is made of leaves *)
Usable(pool, t) == SelectSeq(pool, LAMBDA c : c.t = t)
RECURSIVE G(_, _, _, _)
G(t, s, pool, d) ==
  LET us == Usable(pool, t) IN
  IF t = "#" THEN Plain(s)
  ELSE IF us # <<>> /\ R(s, 2, 8) < (IF d = 0 THEN 6 ELSE 3) THEN us[1 + R(s, 3, Len(us))].e
  ELSE IF d = 0 \/ R(s, 4, 7) = 0 THEN Of(s, 5, LeafSeq[t])
  ELSE LET o == Of(s, 6, OpsOf[t]) IN
       Node(o, [i \in DOMAIN o.args |->
         IF o.k = "let" /\ i = 2 THEN (IF o.res = "I" /\ o.pl = "z" /\ R(s, 7, 2) = 0 THEN <<"sub", "", <<Lf("z", "I"), G("I", H(s, 8), pool, 0)>>, "Sub">> ELSE G(o.args[2], H(s, 8), pool, d - 1))
         ELSE G(o.args[i], H(s, 10 + i), pool, d - 1)])
Alts(t, s, pool) ==
  LET n == 1 + Of(s, 1, <<1, 1, 0, 1, 2, 1>>) IN
  [i \in 1..n |-> G(t, H(s, 20 + i), pool, IF R(s, 30 + i, 3) = 0 THEN 1 ELSE 0)]
RECURSIVE Pool(_, _, _)
Pool(s, k, acc) ==
  IF k = 0 THEN acc
  ELSE LET t == Of(s, 1, <<"I", "I", "B", "L", "I", "B", "S", "T", "M", "L">>) IN
       Pool(H(s, 2), k - 1, Append(acc, [t |-> t, e |-> Ch(Alts(t, H(s, 3), acc), R(s, 4, 2))]))

(* one operator over choices of two leaves for its first two arguments *)
Single(o) ==
  LET arg(i) == IF o.args[i] = "#" THEN <<"int", 1, <<>>, "#">>
                ELSE LET q == LeafSeq[o.args[i]]  a == q[1 + ((i - 1) % Len(q))]  b == q[1 + (i % Len(q))] IN
                     IF i <= 2 THEN Ch(<<a, b>>, 0) ELSE a IN
  Node(o, [i \in DOMAIN o.args |-> arg(i)])
(* one operator twice, alike but for the choice at argument p: the second choice is the first and one  *)
(* more alternative (p = 1) or another one (p = 2)                                                        *)
Twin(o, p) ==
  LET q == LeafSeq[o.args[p]]
      c == Ch(<<q[1], q[2]>>, 0)
      d == IF p = 1 /\ Len(q) > 2 THEN Ch(<<q[1], q[2], q[3]>>, 0) ELSE Ch(<<q[2], q[1 + (2 % Len(q))]>>, 0)
      arg(i, x) == IF i = p THEN x ELSE IF o.args[i] = "#" THEN <<"int", 1, <<>>, "#">> ELSE LeafSeq[o.args[i]][1 + (i % Len(LeafSeq[o.args[i]]))]
      both == <<Node(o, [i \in DOMAIN o.args |-> arg(i, c)]), Node(o, [i \in DOMAIN o.args |-> arg(i, d)])>> IN
  IF o.res = "B" THEN <<"and", "", both, "And2">> ELSE IF o.res = "I" THEN <<"sub", "", both, "Sub">> ELSE Ch(both, 0)
Twins == [p \in 1..2 |-> SelectSeq(OpSeq, LAMBDA o : Len(o.args) >= p /\ o.args[p] # "#")]
TwinSeq == [i \in DOMAIN Twins[1] |-> <<Twins[1][i], 1>>] \o [i \in DOMAIN Twins[2] |-> <<Twins[2][i], 2>>]
Systematic == Len(OpSeq) + Len(TwinSeq)
(* a chain of choices, each using the one before, as deep as a grammar of hand gets *)
RECURSIVE Chain(_, _)
Chain(s, k) == IF k = 0 THEN Ch(<<Lf("x", "I"), IntL(2).e>>, 0)
               ELSE Ch(<<Of(s, k, LeafSeq["I"]), <<"sub", "", <<Lf("y", "I"), Chain(s, k - 1)>>, "Sub">>>>, R(s, 40 + k, 2))
(* a choice under a binding that uses the bound variable *)
Bound(s) == <<"let", "z", <<G("I", H(s, 1), <<>>, 1), Ch(<<Lf("z", "I"), Of(s, 2, LeafSeq["I"])>>, 0)>>, "LetI">>

Body(n) ==
  LET s == H(n, 1)  r == R(s, 2, 60) IN
  IF n <= Len(OpSeq) THEN [t |-> OpSeq[n].res, e |-> Single(OpSeq[n])]
  ELSE IF n <= Systematic THEN LET w == TwinSeq[n - Len(OpSeq)] IN [t |-> w[1].res, e |-> Twin(w[1], w[2])]
  ELSE IF r = 0 THEN [t |-> "I", e |-> Chain(s, 3 + R(s, 3, 5))]
  ELSE IF r = 1 THEN [t |-> "I", e |-> Bound(s)]
  ELSE LET pool == Pool(H(s, 4), 2 + R(s, 5, 3), <<>>)
           t == Of(s, 6, <<"I", "B", "I", "B", "L", "B", "S", "T", "M", "N", "U">>) IN
       [t |-> t, e |-> G(t, H(s, 7), pool, 1 + R(s, 8, 2))]
(* the names of the function and its parameters: some are those of nonterminals *)
Renames == << <<>>, <<>>, <<>>, <<>>, <<>>, << <<"x", "v0">>, <<"y", "v1">> >>, << <<"x", "rv">> >>, << <<"xs", "v0">>, <<"p", "rv">> >>, << <<"y", "rv0">>, <<"x", "v_0">> >> >>
Gram(n) == LET b == Body(n)  s == H(n, 9) IN
  [id |-> n, t |-> b.t, e |-> b.e, name |-> Of(s, 1, <<"f", "inv0", "ps", "f_inv1", "choice">>),
   ren |-> IF n <= Systematic THEN <<>> ELSE Of(s, 2, Renames), rot |-> R(s, 3, 7), copy |-> R(s, 4, 2), obj |-> R(s, 5, 2)]

VARIABLE n
Init == n = From /\ PrintT("FNS " \o ToJson(UserFns))
Next == n < To /\ n' = n + 1
Emit == LET g == Gram(n) IN
        (LET c == Count(g.e) IN c <= 40 /\ (n <= Systematic \/ c >= 2)) => PrintT("GRAM " \o ToJson(g))
=============================================================================
