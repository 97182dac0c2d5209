------------------------------- MODULE CfgGen -------------------------------
(* Functions in static single assignment form, one for every seed.            *)
EXTENDS Cfg, Json, IOUtils

From == atoi(IOEnv.P_FROM)
To == atoi(IOEnv.P_TO)
Mix(y) == (y + (y \div 7) * 13 + (y % 127) * 331 + (y % 64) * 977) % 65521
H(s, k) == Mix((s * 30029 + k * 1117 + 12345) % 65521)
R(s, k, n) == (H(H(s, k), 5) \div 11) % n
Of(s, k, q) == q[1 + R(s, k, Len(q))]

BN(i) == "b" \o ToString(i)
V(x) == <<"v", x>>
C(n) == <<"c", n>>
Params == <<"a", "b", "c">>                \* c is a truth value
(* a block: its merges first, then up to two sums, a test, sometimes memory or an observation *)
(* some blocks only jump on *)
Bare(s, i) == i # 0 /\ R(s, 940 + i, 4) = 0
NInt(s, i) == IF i = 0 THEN 1 ELSE IF Bare(s, i) THEN 0 ELSE R(s, 100 + i, 3)
NPhi(s, i) == IF i = 0 \/ Bare(s, i) THEN 0 ELSE R(s, 120 + i, 3)
BPhi(s, i) == i # 0 /\ ~Bare(s, i) /\ R(s, 140 + i, 3) = 0
Ints(s, i) == [k \in 1..NPhi(s, i) |-> "p" \o ToString(i) \o "." \o ToString(k)] \o [k \in 1..NInt(s, i) |-> "x" \o ToString(i) \o "." \o ToString(k)]
Conds(s, i) == (IF BPhi(s, i) THEN <<"q" \o ToString(i)>> ELSE <<>>) \o (IF Bare(s, i) THEN <<"c">> ELSE <<"t" \o ToString(i)>>)
(* values block i leaves: its own, the entry's, the parameters, a constant *)
IntV(h, s, k, i) == LET q == Ints(s, i) \o (IF i = 0 THEN <<>> ELSE Ints(s, 0)) \o <<"a", "b">> IN
                 IF R(h, k + 1, 6) = 0 THEN C(R(h, k + 2, 3)) ELSE V(Of(h, k, q))
CondV(h, s, k, i) == LET q == Conds(s, i) \o <<"c">> IN IF R(h, k + 1, 6) = 0 THEN C(R(h, k + 2, 2)) ELSE V(Of(h, k, q))

Term(s, i, n) ==
  LET r == R(s, 160 + i, 10)  to(k) == BN(1 + R(s, 180 + 10 * k + i, n)) IN
  IF r <= 5 THEN (IF R(s, 220 + i, 6) = 0 THEN <<"cbr", V(Of(s, 230 + i, Conds(s, i))), to(0), to(0)>> ELSE <<"cbr", CondV(s, s, 240 + i, i), to(0), to(1)>>)
  ELSE IF r <= 7 THEN <<"br", to(0)>>
  ELSE IF r = 8 THEN <<"switch", IntV(s, s, 270 + i, i), to(0), << <<0, to(1)>>, <<1, to(2)>> >> >>
  ELSE <<"ret", IntV(s, s, 290 + i, i)>>

Func(s) ==
  LET n == 1 + R(s, 10, 5)                 \* blocks besides the entry
      term(i) == IF i = n THEN <<"ret", IntV(s, s, 330, i)>> ELSE Term(s, i, n)
      (* the edges into block i, each as the number of its source *)
      into(i) == FoldLeft(LAMBDA q, j : q \o [k \in 1..Count(Targets(term(j)), BN(i)) |-> j], <<>>, [j \in 1..(n + 1) |-> j - 1])
      phi(i, x, kind, k) == <<x, [e \in DOMAIN into(i) |-> LET j == into(i)[e] IN
            <<IF kind = "I" THEN IntV(H(s, 400 + 10 * i + k), s, 7 * j + 1, j) ELSE CondV(H(s, 500 + 10 * i), s, 7 * j + 1, j), BN(j)>>]>>
      phis(i) == [k \in 1..NPhi(s, i) |-> phi(i, "p" \o ToString(i) \o "." \o ToString(k), "I", k)]
                 \o (IF BPhi(s, i) THEN <<phi(i, "q" \o ToString(i), "B", 0)>> ELSE <<>>)
      avail(i, k) == [j \in 1..NPhi(s, i) |-> "p" \o ToString(i) \o "." \o ToString(j)] \o [j \in 1..(k - 1) |-> "x" \o ToString(i) \o "." \o ToString(j)]
                     \o (IF i = 0 THEN <<>> ELSE Ints(s, 0)) \o <<"a", "b">>
      pick(i, k, m) == IF R(s, 600 + 20 * i + 5 * k + m, 5) = 0 THEN C(1 + R(s, 601 + 20 * i + 5 * k + m, 2)) ELSE V(Of(s, 602 + 20 * i + 5 * k + m, avail(i, k)))
      (* values stay small *)
      sums(i) == FlattenSeq([k \in 1..NInt(s, i) |-> LET x == "x" \o ToString(i) \o "." \o ToString(k) IN
                    << <<x \o "r", IF R(s, 800 + i + k, 2) = 0 THEN "add" ELSE "sub", <<pick(i, k, 0), pick(i, k, 1)>> >>, <<x, "srem", <<V(x \o "r"), C(5)>> >> >>])
      all(i) == avail(i, NInt(s, i) + 1)
      test(i) == << <<"t" \o ToString(i), Of(s, 820 + i, <<"eq", "ne", "slt", "sle", "sgt", "sge">>), <<V(Of(s, 840 + i, all(i))), IF R(s, 860 + i, 2) = 0 THEN C(R(s, 861 + i, 3)) ELSE V(Of(s, 862 + i, all(i)))>> >> >>
      mem(i) == CASE R(s, 880 + i, 4) = 0 -> << <<"", "store", <<V(Of(s, 900 + i, all(i))), V("m")>> >> >>
                  [] R(s, 880 + i, 4) = 1 -> << <<"l" \o ToString(i), "load", <<V("m")>> >>, <<"", "obs", <<V("l" \o ToString(i))>> >> >>
                  [] R(s, 880 + i, 4) = 2 -> << <<"", "obs", <<V(Of(s, 900 + i, all(i)))>> >> >>
                  [] OTHER -> <<>>
      blk(i) == [name |-> BN(i), phis |-> IF into(i) = <<>> THEN <<>> ELSE phis(i),
                 ins |-> (IF i = 0 THEN << <<"m", "alloca", <<>> >>, <<"", "store", <<C(0), V("m")>> >> >> ELSE <<>>) \o
                         (IF (into(i) = <<>> /\ i # 0) \/ Bare(s, i) THEN <<>> ELSE sums(i) \o test(i) \o mem(i)),
                 term |-> IF into(i) = <<>> /\ i # 0 THEN <<"ret", C(0)>> ELSE term(i)]
      (* sources that turn out unreachable have no edges *)
      dead == {i \in 1..n : into(i) = <<>>}
  IN [ps |-> Params, dead |-> dead, blocks |-> [i \in 1..(n + 1) |-> blk(i - 1)]]

VARIABLE s
Init == s \in From..To
Next == FALSE /\ UNCHANGED s
Spec == Init /\ [][Next]_s
Emit == LET f == Func(s) IN (Ill(f) = "" /\ f.dead = {}) => PrintT("FUNC " \o ToJson([seed |-> s, ps |-> f.ps, blocks |-> f.blocks]))
=============================================================================
