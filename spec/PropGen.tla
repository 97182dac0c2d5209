------------------------------ MODULE PropGen -------------------------------
(* P23: sessions with a language model, one for every seed: summaries of a    *)
(* benchmark and, for each, invariants of its loops.  The verifier refutes    *)
(* all but the last, so that every pair is put to it.                         *)
EXTENDS PyGen

Simple(s, e) == Nd("Block", IF R(s, 70, 4) = 0 THEN << St("Assign", "out", e), Ret(Nm("out")) >> ELSE << Ret(e) >>)
FnOf(s, name, ret, ps, d) == Fn(name, ps, ret, Simple(s, E(ret, H(s, 91), [u \in {"fn"} |-> <<>>] @@ Scope(ps), d)))
Insert(q, k, x) == SubSeq(q, 1, k) \o <<x>> \o SubSeq(q, k + 1, Len(q))
Expr(f) == f.body[3][1][3][1]       \* of a body that is one statement or two: what is returned or assigned

Types == <<"I", "L", "B", "M", "I", "L">>
Loops(g) == 1 + (IF R(H(g, 1), 7, 4) = 0 THEN 1 ELSE 0)
InvParams(g, t, k) ==       \* the parameters of an invariant: those of its loop, the output among them
  LET s == H(H(g, 1), 8 + k)  ps == Params(s) IN Insert(ps, R(s, 9, Len(ps) + 1), <<"rv", t>>)
InvNames(g) == IF Loops(g) = 1 THEN <<"invariant">> ELSE <<"invariant1", "invariant2">>
Invs(g, t, j) ==       \* the j-th proposal of invariants
  LET s == H(H(g, 3), j) IN
  [k \in 1..Loops(g) |->
     LET one == FnOf(H(s, k), InvNames(g)[k], "B", InvParams(g, t, k), 1 + R(s, 5, 3)) IN
     (* a later proposal may refine the one before it *)
     IF j > 1 /\ R(s, 6, 3) = 0
     THEN LET old == FnOf(H(H(H(g, 3), j - 1), k), InvNames(g)[k], "B", InvParams(g, t, k), 1 + R(H(H(g, 3), j - 1), 5, 3)) IN
          [one EXCEPT !.body = Nd("Block", << Ret(<<"BoolOp", "And", << Expr(old), Expr(one) >> >>) >>)]
     ELSE one]
Session(g) ==
  LET s == H(g, 1)  t == Of(s, 3, Types)  two == R(s, 4, 3) = 0
      params == Params(H(s, 5))
      sums == [j \in 1..(IF two THEN 2 ELSE 1) |-> FnOf(H(H(g, 2), j), "bench", t, params, 1 + R(H(s, j), 6, 3))] IN
  [id |-> g, how |-> IF R(s, 10, 3) = 0 THEN "rosette" ELSE "smt", loops |-> Loops(g), ret |-> t, form |-> R(s, 11, 3), two |-> two,
   sums |-> sums, invs |-> [j \in 1..2 |-> Invs(g, t, j)]]
EmitSession == PrintT("SESSION " \o ToJson(Session(n)))
=============================================================================
