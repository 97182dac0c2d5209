------------------------------ MODULE VcTerms -------------------------------
(* Verification conditions: implications, conjunctions, equalities and calls *)
(* of uninterpreted predicates P, Q and an uninterpreted function f, plus     *)
(* the other Boolean operators around them.  As a machine: a stack of Boolean *)
(* terms on which a client of the library builds a condition.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Mode == IOEnv.GEN_MODE     \* "shapes": every instance of the shapes below; "walk"
Deep == IOEnv.GEN_DEEP = "1"

Vx(n) == <<"var", n, <<>>, "I">>
Bx(n) == <<"var", n, <<>>, "B">>
Kx(n) == <<"int", n, <<>>, "">>
F(a) == <<"call", "f", <<a>>, "CallVf">>
P(a) == <<"call", "P", <<a>>, "CallVP">>
Q(a, b) == <<"call", "Q", <<a, b>>, "CallVQ">>
Eq(a, b) == <<"eq", "", <<a, b>>, "EqI">>
EqB(a, b) == <<"eq", "", <<a, b>>, "EqB">>
And(a, b) == <<"and", "", <<a, b>>, "And2">>
And3(a, b, c) == <<"and", "", <<a, b, c>>, "And3">>
Or(a, b) == <<"or", "", <<a, b>>, "Or2">>
Not(a) == <<"not", "", <<a>>, "Not">>
Imp(a, b) == <<"implies", "", <<a, b>>, "Implies">>
Ite(c, a, b) == <<"ite", "", <<c, a, b>>, "IteB">>

x == Vx("x")  y == Vx("y")  z == Vx("z")
E1 == {Eq(x, y), Eq(y, x), Eq(x, Kx(0)), Eq(Kx(1), x), Eq(x, F(y)), Eq(F(x), y), Eq(x, F(x)), Eq(y, z), Eq(x, x)}
E2 == {Eq(x, z), Eq(y, x), Eq(x, y), Eq(x, Kx(1)), Eq(y, Kx(0)), Eq(y, F(x)), Eq(z, x), Eq(z, F(y)), P(y)}
E3 == {Eq(x, F(z)), Eq(z, y), Eq(y, x), Eq(x, Kx(0)), Eq(z, Kx(1)), P(x)}
C1 == {P(x), Q(x, y), Eq(y, z), Eq(x, Kx(0)), Q(z, z)}
C2 == {P(y), P(x), Eq(x, z), Q(x, x)}
bp == Bx("p")  bq == Bx("q")

Shapes ==
     {Imp(And(a, b), d) : a \in E1, b \in E2, d \in C1}
  \cup {Imp(a, Imp(b, d)) : a \in E1, b \in E2, d \in C1}
  \cup {And(Imp(a, d), Imp(b, k)) : a \in E1, b \in E2, d \in C2, k \in C1}
  \cup {Imp(Imp(a, d), k) : a \in E1, d \in C1, k \in C2}
  \cup {Imp(And3(a, b, e), d) : a \in E1, b \in E2, e \in E3, d \in {P(x), Q(x, y), Q(z, x)}}
  \cup {Or(Imp(a, d), k) : a \in E1, d \in C1, k \in C2}
  \cup {Not(Imp(a, d)) : a \in E1, d \in C1}
  \cup {Imp(Or(a, b), d) : a \in E1, b \in E2, d \in C2}
  \cup {Imp(Not(a), d) : a \in E1, d \in C1}
  \cup {Ite(bp, Imp(a, d), Imp(b, d)) : a \in E1, b \in E2, d \in C2}
  \cup {Ite(Imp(a, d), k, bp) : a \in E1, d \in C1, k \in C2}
  \cup {EqB(bp, Imp(a, d)) : a \in E1, d \in C1}
  \cup {Imp(EqB(bp, a), Imp(And(b, bp), d)) : a \in E1, b \in E2, d \in C2}
  \cup {Imp(And(EqB(bp, a), b), And(bp, d)) : a \in E1, b \in E2, d \in C2}
  \cup {Imp(And(Imp(a, d), b), k) : a \in E1, b \in E2, d \in C2, k \in {P(x), Q(x, y)}}
  \cup {Imp(P(y), Imp(a, And(d, Imp(b, k)))) : a \in E1, b \in E2, d \in C2, k \in {P(x), Q(x, y)}}
  \cup (IF Deep THEN
     {And(Imp(a, Imp(b, d)), Imp(e, d)) : a \in E1, b \in E2, e \in E3, d \in C1}
  \cup {Imp(a, Imp(b, Imp(e, d))) : a \in E1, b \in E2, e \in E3, d \in C1}
  \cup {Imp(And(a, Or(b, e)), d) : a \in E1, b \in E2, e \in E3, d \in C1}
  \cup {Imp(Imp(Imp(a, b), e), d) : a \in E1, b \in E2, e \in E3, d \in C1}
  \cup {Imp(And(And(a, b), And(e, Eq(y, z))), d) : a \in E1, b \in E2, e \in E3, d \in C1} ELSE {})

(* free walks *)
Ints == {x, y, z, Kx(0), Kx(1), F(x), F(y)}
Atoms == {Eq(a, b) : a \in Ints, b \in Ints} \cup {P(a) : a \in Ints} \cup {Q(a, b) : a \in {x, y, z}, b \in {x, y, z}} \cup {bp, bq}
VARIABLES stack, size
vars == <<stack, size>>
Max == 11
Pop(n) == SubSeq(stack, 1, Len(stack) - n)
S(i) == stack[Len(stack) - i]
Push == Len(stack) < 3 /\ \E a \in Atoms : stack' = Append(stack, a)
App2 == Len(stack) >= 2 /\ \E op \in 1..6 :
    stack' = Append(Pop(2), CASE op \in {1, 2} -> Imp(S(1), S(0)) [] op \in {3, 4} -> And(S(1), S(0)) [] op = 5 -> Or(S(1), S(0)) [] OTHER -> EqB(S(1), S(0)))
App1 == Len(stack) >= 1 /\ S(0)[1] # "not" /\ stack' = Append(Pop(1), Not(S(0)))
App3 == Len(stack) >= 3 /\ \E op \in 1..2 :
    stack' = Append(Pop(3), IF op = 1 THEN Ite(S(2), S(1), S(0)) ELSE And3(S(2), S(1), S(0)))
Init == stack = <<>> /\ size = 0 /\ (Mode = "shapes" => \A t \in Shapes : PrintT("VC " \o ToJson(t)))
Next == Mode = "walk" /\ size < Max /\ size' = size + 1 /\ (Push \/ App1 \/ App2 \/ App3)
Spec == Init /\ [][Next]_vars
Emit == (Mode = "walk" /\ Len(stack) = 1 /\ size >= 5) => PrintT("VC " \o ToJson(stack[1]))
=============================================================================
