------------------------------- MODULE Values -------------------------------
(* Values of metalift's intermediate language and the standard meaning of    *)
(* its list, matrix, set, tuple and integer operations.                      *)
(*                                                                           *)
(* A value is a tagged tuple; operations are total: applying one outside its *)
(* domain gives Undef (the language leaves it open), applying it to values   *)
(* of the wrong kind gives Err(msg).                                         *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

I(n) == <<"i", n>>
B(b) == <<"b", b>>
L(s) == <<"l", s>>
T(s) == <<"t", s>>
S(s) == <<"s", s>>
Undef == <<"u">>
Err(m) == <<"e", m>>

IsI(v) == v[1] = "i"
IsB(v) == v[1] = "b"
IsL(v) == v[1] = "l"
IsT(v) == v[1] = "t"
IsS(v) == v[1] = "s"
IsU(v) == v[1] = "u"
IsE(v) == v[1] = "e"

Big == 20000
(* integers beyond the model's range are left open, never wrapped *)
MkI(n) == IF n > Big \/ n < -Big THEN Undef ELSE I(n)

(* the first error among the arguments, else Undef if one is open, else "ok" *)
Bad(args) ==
  IF \E i \in DOMAIN args : IsE(args[i])
  THEN args[CHOOSE i \in DOMAIN args : IsE(args[i]) /\ \A j \in 1..(i-1) : ~IsE(args[j])]
  ELSE IF \E i \in DOMAIN args : IsU(args[i]) THEN Undef
  ELSE <<"ok">>

AllI(args) == \A i \in DOMAIN args : IsI(args[i])
AllB(args) == \A i \in DOMAIN args : IsB(args[i])

RECURSIVE SumTo(_, _), ProdTo(_, _)
SumTo(args, n) == IF n = 0 THEN 0 ELSE SumTo(args, n - 1) + args[n][2]
ProdTo(args, n) ==
  IF n = 0 THEN 1
  ELSE LET p == ProdTo(args, n - 1) IN
       IF p > Big \/ p < -Big THEN Big + 1 ELSE p * args[n][2]

Abs(n) == IF n < 0 THEN -n ELSE n
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

(* integer division: TLC's \div and % are floor division and floor modulus   *)
(* for a positive divisor                                                    *)
FloorDiv(a, b) == IF b > 0 THEN a \div b ELSE (-a) \div (-b)
FloorMod(a, b) == a - b * FloorDiv(a, b)
TruncDiv(a, b) == IF (a >= 0) = (b >= 0) THEN Abs(a) \div Abs(b) ELSE -(Abs(a) \div Abs(b))
TruncRem(a, b) == a - b * TruncDiv(a, b)
(* SMT-LIB: remainder always in 0 .. |b|-1 *)
EuclidMod(a, b) == LET r == a % Abs(b) IN r
EuclidDiv(a, b) == ((a - EuclidMod(a, b)) \div Abs(b)) * (IF b < 0 THEN -1 ELSE 1)

----------------------------------------------------------------------------
(* lists *)
Drop(s, n) == IF n <= 0 THEN s ELSE IF n >= Len(s) THEN <<>> ELSE SubSeq(s, n + 1, Len(s))
TakeN(s, n) == IF n <= 0 THEN <<>> ELSE IF n >= Len(s) THEN s ELSE SubSeq(s, 1, n)
SliceOf(s, a, b) == Drop(TakeN(s, b), a)

LLen(l) == IF IsL(l) THEN I(Len(l[2])) ELSE Err("length of a non-list")
LGet(l, i) ==
  IF ~IsL(l) \/ ~IsI(i) THEN Err("get: kinds")
  ELSE IF i[2] >= 0 /\ i[2] < Len(l[2]) THEN l[2][i[2] + 1] ELSE Undef
(* indices beyond Far are left open: the texts recurse once per unit *)
Far == 60
LTail(l, n) ==
  IF ~IsL(l) \/ ~IsI(n) THEN Err("tail: kinds")
  ELSE IF n[2] < 0 \/ n[2] > Far THEN Undef ELSE L(Drop(l[2], n[2]))
LTake(l, n) ==
  IF ~IsL(l) \/ ~IsI(n) THEN Err("take: kinds")
  ELSE IF n[2] < 0 \/ n[2] > Far THEN Undef ELSE L(TakeN(l[2], n[2]))
LSlice(l, a, b) ==
  IF ~IsL(l) \/ ~IsI(a) \/ ~IsI(b) THEN Err("slice: kinds")
  ELSE IF a[2] < 0 \/ b[2] < 0 \/ a[2] > Far \/ b[2] > Far THEN Undef ELSE L(SliceOf(l[2], a[2], b[2]))
LSliceLen(l, a, n) ==
  IF ~IsL(l) \/ ~IsI(a) \/ ~IsI(n) THEN Err("slice: kinds")
  ELSE IF a[2] < 0 \/ n[2] < 0 \/ a[2] > Far \/ n[2] > Far THEN Undef ELSE L(SliceOf(l[2], a[2], a[2] + n[2]))
LAppend(l, v) == IF IsL(l) THEN L(Append(l[2], v)) ELSE Err("append: kinds")
LPrepend(v, l) == IF IsL(l) THEN L(<<v>> \o l[2]) ELSE Err("prepend: kinds")
LConcat(a, b) == IF IsL(a) /\ IsL(b) THEN L(a[2] \o b[2]) ELSE Err("concat: kinds")
LContains(l, v) ==
  IF ~IsL(l) THEN Err("contains: kinds") ELSE B(\E i \in 1..Len(l[2]) : l[2][i] = v)

IsMat(m) == IsL(m) /\ \A i \in 1..Len(m[2]) : IsL(m[2][i])
IsRect(m) == IsMat(m) /\ \A i \in 1..Len(m[2]) : Len(m[2][i][2]) = Len(m[2][1][2])
HasEmptyRow(m) == \E i \in 1..Len(m[2]) : IsL(m[2][i]) /\ m[2][i][2] = <<>>

MColSlice(m, a, b) ==
  IF ~IsMat(m) \/ ~IsI(a) \/ ~IsI(b) THEN Err("col_slice: kinds")
  ELSE IF a[2] < 0 \/ b[2] < 0 \/ a[2] > Far \/ b[2] > Far THEN Undef
  ELSE L([i \in 1..Len(m[2]) |-> L(SliceOf(m[2][i][2], a[2], b[2]))])
(* transposition is defined on rectangular matrices with at least one column *)
(* (and on the empty matrix)                                                 *)
MTranspose(m) ==
  IF ~IsMat(m) THEN Err("transpose: kinds")
  ELSE IF m[2] = <<>> THEN L(<<>>)
  ELSE IF ~IsRect(m) \/ m[2][1][2] = <<>> THEN Undef
  ELSE L([j \in 1..Len(m[2][1][2]) |-> L([i \in 1..Len(m[2]) |-> m[2][i][2][j]])])

----------------------------------------------------------------------------
(* integer functions: integer_exp is 3^n modulo 64 (1 for n <= 0) *)
RECURSIVE Exp64(_)
Exp64(n) == IF n <= 0 THEN 1 ELSE (3 * Exp64(n - 1)) % 64

----------------------------------------------------------------------------
(* equality of two values of the same kind *)
VEq(a, b) == IF a[1] = b[1] THEN B(a = b) ELSE Err("comparing different kinds")
=============================================================================
