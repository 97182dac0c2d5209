-------------------------------- MODULE Space --------------------------------
(* The search spaces of the tensor library (P21).  A space is an expression   *)
(* with choices; every occurrence of a choice is decided for itself, so a     *)
(* space denotes a set of expressions, and over a fixed sequence of points    *)
(* (assignments of the variables) a set of vectors of values.  Spaces come    *)
(* as graphs: a node is <<kind, payload, earlier nodes>>.                     *)
EXTENDS MLSem, Json, IOUtils, Randomization

J == JsonDeserialize(IOEnv.CASES)
Deep == IOEnv.SP_DEEP = "1"
Seed == atoi(IOEnv.SP_SEED)
Field == "field"      \* integers modulo a prime, with division, roots and maps uninterpreted
Ints == "int"         \* integers
P == 32749

----------------------------------------------------------------------------
(* one number operation *)
Cube(a) == (((a * a) % P) * a) % P
FDiv(a, b) == (((Cube(a) * 71) % P) + ((Cube(b) * 37) % P) + ((((a * b) % P) * 13) % P) + 5 + b) % P
FUn(k, a) == (CASE k = "sqrt" -> ((Cube(a) * 91) % P) + 17 * (a % 1000) + 3
                [] k = "exp" -> ((Cube(a) * 29) % P) + 11 * (a % 1000) + 19
                [] k = "map" -> ((Cube(a) * 53) % P) + 7 * (a % 1000) + 23) % P
RECURSIVE Fold2(_, _, _)
Two(k, a, b) == CASE k = "add" -> (a + b) % P [] k = "sub" -> (a + P - b) % P [] k = "mul" -> (a * b) % P [] k = "div" -> FDiv(a, b)
Fold2(k, v, n) == IF n = 1 THEN v[1][2] ELSE Two(k, Fold2(k, v, n - 1), v[n][2])
Num(mode, k, v) ==
  IF mode = Ints THEN Arith(k, v)
  ELSE IF ~AllI(v) THEN Err(k \o ": not integers")
  ELSE IF k \in {"add", "sub", "mul", "div"} THEN I(Fold2(k, v, Len(v)))
  ELSE Arith(k, v)
RECURSIVE ISqrtFrom(_, _)
ISqrtFrom(n, r) == IF (r + 1) * (r + 1) > n THEN r ELSE ISqrtFrom(n, r + 1)
Un(mode, k, a) ==
  IF ~IsI(a) THEN Err(k \o ": not an integer")
  ELSE IF mode = Field THEN I(FUn(k, a[2]))
  ELSE CASE k = "exp" -> I(Exp64(a[2])) [] k = "sqrt" -> (IF a[2] < 0 THEN Undef ELSE I(ISqrtFrom(a[2], 0))) [] k = "map" -> MkI(a[2] * a[2] + 1)
(* the functions left to the search, where they are only passed on *)
Passed(n, v) == CASE n = "select_two_args" -> MkI(v[1][2] - 2 * v[2][2])
                  [] n = "dissolve_select_two_args" -> MkI(v[1][2] - 2 * v[2][2] + 3 * v[3][2] - 5 * v[4][2])
                  [] OTHER -> Err("unknown function " \o n)

(* element by element, to the depth of the operands *)
ListOf(v) == LET bad == Bad(v) IN IF bad[1] # "ok" THEN bad ELSE L(v)
RECURSIVE Zipped(_, _, _, _), Each(_, _, _, _), DepthOf(_), Sum2(_, _, _, _)
DepthOf(v) == IF ~IsL(v) THEN 0 ELSE IF v[2] = <<>> THEN 1 ELSE 1 + DepthOf(v[2][1])
Zipped(mode, k, a, b) ==
  IF IsL(a) # IsL(b) THEN Err("elementwise: kinds")
  ELSE IF IsI(a) THEN (IF k = "sel" THEN Passed("select_two_args", <<a, b>>) ELSE Num(mode, k, <<a, b>>))
  ELSE IF Len(a[2]) # Len(b[2]) THEN Undef ELSE ListOf([i \in DOMAIN a[2] |-> Zipped(mode, k, a[2][i], b[2][i])])
Each(mode, k, s, a) ==
  IF IsL(a) THEN ListOf([i \in DOMAIN a[2] |-> Each(mode, k, s, a[2][i])])
  ELSE IF k[1] = "m" THEN Un(mode, "map", a)
  ELSE IF k[1] = "s" THEN Num(mode, k[2], <<a, s>>) ELSE Num(mode, k[2], <<s, a>>)
RECURSIVE Dissolved(_, _, _, _)
Dissolved(a, b, o, r) ==
  IF IsL(a) # IsL(b) THEN Err("elementwise: kinds")
  ELSE IF IsI(a) THEN Passed("dissolve_select_two_args", <<a, b, o, r>>)
  ELSE IF Len(a[2]) # Len(b[2]) THEN Undef ELSE ListOf([i \in DOMAIN a[2] |-> Dissolved(a[2][i], b[2][i], o, r)])
Sum2(mode, a, b, n) == IF n = 0 THEN I(0) ELSE LET r == Sum2(mode, a, b, n - 1)  m == Num(mode, "mul", <<a[n], b[n]>>)  bad == Bad(<<r, m>>) IN IF bad[1] # "ok" THEN bad ELSE Num(mode, "add", <<r, m>>)
MatVec(mode, m, v) ==
  IF ~IsMat(m) \/ ~IsL(v) THEN Err("matrix_vec_mul: kinds")
  ELSE IF \E i \in DOMAIN m[2] : Len(m[2][i][2]) # Len(v[2]) THEN Undef
  ELSE ListOf([i \in DOMAIN m[2] |-> Sum2(mode, m[2][i][2], v[2], Len(v[2]))])

Arith4 == {"add", "sub", "mul", "div"}
ElemF == {<<pre \o "_elemwise_" \o k, pre, k>> : pre \in {"vec", "matrix"}, k \in Arith4}
ScalF == {<<pre \o "_scalar_" \o k, pre, <<"s", k>>>> : pre \in {"vec", "matrix"}, k \in Arith4}
RevF == {<<"scalar_" \o pre \o "_" \o k, pre, <<"r", k>>>> : pre \in {"vec", "matrix"}, k \in {"sub", "div"}}
Find(tab, n) == CHOOSE f \in tab : f[1] = n
Has(tab, n) == \E f \in tab : f[1] = n
(* an operand is a vector or a matrix as the operator's name says; an empty   *)
(* list is both                                                              *)
Fits(pre, v) == v = L(<<>>) \/ DepthOf(v) = (IF pre = "vec" THEN 1 ELSE 2)
App(mode, n, v) ==
  CASE Has(ElemF, n) -> LET f == Find(ElemF, n) IN (IF Len(v) = 2 /\ Fits(f[2], v[1]) /\ Fits(f[2], v[2]) THEN Zipped(mode, f[3], v[1], v[2]) ELSE Err(n \o ": kinds"))
    [] Has(ScalF, n) -> LET f == Find(ScalF, n) IN (IF Len(v) = 2 /\ IsI(v[1]) /\ Fits(f[2], v[2]) THEN Each(mode, f[3], v[1], v[2]) ELSE Err(n \o ": kinds"))
    [] Has(RevF, n) -> LET f == Find(RevF, n) IN (IF Len(v) = 2 /\ IsI(v[1]) /\ Fits(f[2], v[2]) THEN Each(mode, f[3], v[1], v[2]) ELSE Err(n \o ": kinds"))
    [] n = "vec_map" -> (IF Fits("vec", v[1]) /\ v[2] = <<"fn", "map_int_to_int">> THEN Each(mode, <<"m", "map">>, <<>>, v[1]) ELSE Err("vec_map: kinds"))
    [] n = "matrix_vec_mul" -> MatVec(mode, v[1], v[2])
    [] n = "integer_exp" -> Un(mode, "exp", v[1])
    [] n = "integer_sqrt" -> Un(mode, "sqrt", v[1])
    [] n \in {"selection_two_args", "matrix_selection_two_args"} ->
         LET pre == IF n = "selection_two_args" THEN "vec" ELSE "matrix" IN
         (IF Len(v) = 3 /\ Fits(pre, v[1]) /\ Fits(pre, v[2]) /\ v[3] = <<"fn", "select_two_args">> THEN Zipped(mode, "sel", v[1], v[2]) ELSE Err(n \o ": kinds"))
    [] n \in {"dissolve_selection_two_args", "dissolve_matrix_selection_two_args"} ->
         LET pre == IF n = "dissolve_selection_two_args" THEN "vec" ELSE "matrix" IN
         (IF Len(v) = 5 /\ Fits(pre, v[1]) /\ Fits(pre, v[2]) /\ v[5] = <<"fn", "dissolve_select_two_args">> THEN Dissolved(v[1], v[2], v[3], v[4]) ELSE Err(n \o ": kinds"))
    [] OTHER -> Err("unknown function " \o n)

(* one operation on values at one point *)
RECURSIVE AndV(_, _), OrV(_, _)
AndV(v, i) == IF i > Len(v) THEN B(TRUE) ELSE IF ~IsB(v[i]) THEN v[i] ELSE IF ~v[i][2] THEN B(FALSE) ELSE AndV(v, i + 1)
OrV(v, i) == IF i > Len(v) THEN B(FALSE) ELSE IF ~IsB(v[i]) THEN v[i] ELSE IF v[i][2] THEN B(TRUE) ELSE OrV(v, i + 1)
Ap(mode, k, pl, v) ==
  CASE k = "and" -> AndV(v, 1)
    [] k = "or" -> OrV(v, 1)
    [] k = "ite" -> (IF ~IsB(v[1]) THEN v[1] ELSE IF v[1][2] THEN v[2] ELSE v[3])
    [] OTHER ->
       LET bad == Bad(v) IN
       IF bad[1] # "ok" THEN bad
       ELSE CASE k \in ArithKinds -> Num(mode, k, v)
              [] k = "iexp" -> Un(mode, "exp", v[1])
              [] k = "call" -> App(mode, pl, v)
              [] OTHER -> Prim(k, pl, v, "smt")

(* leaves at a point: an environment; nullary calls are looked up in it too   *)
LeafKinds == {"var", "int", "bool", "fnref"}
Leaf(mode, k, pl, env) ==
  CASE k = "int" -> (IF mode = Field THEN I(pl % P) ELSE I(pl)) [] k = "bool" -> B(pl) [] k = "fnref" -> <<"fn", pl>>
    [] k \in {"var", "call"} -> (IF pl \in DOMAIN env THEN env[pl] ELSE Err("unknown name " \o pl))

----------------------------------------------------------------------------
(* the set of vectors a space denotes; hints = {} keeps everything, otherwise *)
(* only vectors that occur in some derivation of interest are kept            *)
RECURSIVE Prod(_)
Prod(ss) == IF ss = <<>> THEN {<<>>} ELSE {<<h>> \o t : h \in Head(ss), t \in Prod(Tail(ss))}
OnlyB(v) == \A i \in DOMAIN v : IsB(v[i]) \/ IsU(v[i])
NodeSet(mode, nd, tab, envs, hints) ==
  LET k == nd[1]  pl == nd[2]  as == nd[3] IN
  IF k = "choose" THEN UNION {tab[as[i]] : i \in DOMAIN as}
  ELSE IF k \in LeafKinds \/ (k = "call" /\ as = <<>>) THEN {[s \in DOMAIN envs |-> Leaf(mode, k, pl, envs[s])]}
  ELSE LET all == {TLCEval([s \in DOMAIN envs |-> Ap(mode, k, pl, [i \in DOMAIN as |-> t[i][s]])]) : t \in Prod([i \in DOMAIN as |-> tab[as[i]]])}
       IN IF hints = {} \/ Cardinality(all) = 1 THEN all ELSE {v \in all : v \in hints \/ OnlyB(v)}
Denotes(mode, g, envs, hints) == FoldLeft(LAMBDA tab, nd : Append(tab, TLCEval(NodeSet(mode, nd, tab, envs, hints))), <<>>, g)[Len(g)]

(* a term: <<kind, payload, args>>; its vector and those of its parts         *)
RECURSIVE VecT(_, _, _), Parts(_, _, _)
VecT(mode, t, envs) ==
  IF t[1] \in LeafKinds \/ (t[1] = "call" /\ t[3] = <<>>) THEN [s \in DOMAIN envs |-> Leaf(mode, t[1], t[2], envs[s])]
  ELSE LET vs == TLCEval([i \in DOMAIN t[3] |-> VecT(mode, t[3][i], envs)])
       IN TLCEval([s \in DOMAIN envs |-> Ap(mode, t[1], t[2], [i \in DOMAIN vs |-> vs[i][s]])])
Parts(mode, t, envs) == {VecT(mode, t, envs)} \cup UNION {Parts(mode, t[3][i], envs) : i \in DOMAIN t[3]}

----------------------------------------------------------------------------
(* part 1: expressions of bounded nesting *)
FPts == <<[x |-> I(4321), y |-> I(17023), v |-> L(<<I(911), I(20707)>>), m |-> L(<<L(<<I(911), I(20707)>>), L(<<I(5), I(31337)>>)>>), A |-> L(<<L(<<I(77), I(1234)>>), L(<<I(9876), I(15)>>)>>)],
          [x |-> I(17023), y |-> I(17023), v |-> L(<<I(3)>>), m |-> L(<<L(<<I(3)>>)>>), A |-> L(<<L(<<I(8)>>)>>)],
          [x |-> I(25000), y |-> I(640), v |-> L(<<>>), m |-> L(<<>>), A |-> L(<<>>)]>>
One == <<FPts[1]>>
LeafT(s) == IF s \in {"x", "y"} THEN <<"var", s, <<>>>> ELSE <<"int", 32, <<>>>>
V1(k, pl, a, envs) == [s \in DOMAIN envs |-> Ap(Field, k, pl, <<a[s]>>)]
V2(k, pl, a, b, envs) == [s \in DOMAIN envs |-> Ap(Field, k, pl, <<a[s], b[s]>>)]
(* pairs whose deeper part has depth n - 1: Lev[i] are those of depth i - 1    *)
Below(lev, n) == UNION {lev[j] : j \in 1..n}
Pairs(la, lb, n) == (la[n] \X Below(lb, n)) \cup (Below(la, n) \X lb[n])
RECURSIVE IntLev(_, _, _), TenLev(_, _, _, _, _)
IntLev(ls, d, envs) ==
  IF d = 0 THEN <<{VecT(Field, LeafT(ls[i]), envs) : i \in DOMAIN ls}>>
  ELSE LET lev == TLCEval(IntLev(ls, d - 1, envs)) IN
       Append(lev, TLCEval({V1("call", f, a, envs) : f \in {"integer_exp", "integer_sqrt"}, a \in lev[d]}
                           \cup {V2(k, "", p[1], p[2], envs) : k \in Arith4, p \in Pairs(lev, lev, d)}))
TenLev(t, ls, mv, d, envs) ==
  IF d = 0 THEN <<{VecT(Field, <<"var", IF t = "L" THEN "v" ELSE "m", <<>>>>, envs)}>>
  ELSE LET lev == TLCEval(TenLev(t, ls, mv, d - 1, envs))
           il == TLCEval(IntLev(ls, d - 1, envs))
           pre == IF t = "L" THEN "vec" ELSE "matrix" IN
       Append(lev, TLCEval({V2("call", f[1], p[1], p[2], envs) : f \in {g \in ElemF : g[2] = pre}, p \in Pairs(lev, lev, d)}
         \cup {V2("call", f[1], p[1], p[2], envs) : f \in {g \in ScalF \cup RevF : g[2] = pre}, p \in Pairs(il, lev, d)}
         \cup (IF t = "L" THEN {[s \in DOMAIN envs |-> Each(Field, <<"m", "map">>, <<>>, a[s])] : a \in lev[d]} ELSE {})
         \cup (IF t = "L" /\ mv THEN {[s \in DOMAIN envs |-> MatVec(Field, envs[s].A, a[s])] : a \in lev[d]} ELSE {})))
Flat(lev) == UNION {lev[i] : i \in DOMAIN lev}
Cmp == {"lt", "le", "eq", "ge", "gt"}
CondSet(vals, envs) ==
  LET conds == {[s \in DOMAIN envs |-> Ap(Field, k, "", <<p[1][s], p[2][s]>>)] : k \in Cmp, p \in vals \X vals}
  IN {[s \in DOMAIN envs |-> Ap(Field, "ite", "", <<c[s], p[1][s], p[2][s]>>)] : c \in conds, p \in vals \X vals}

(* sampled terms of nesting at most d *)
Mix(z) == (z + (z \div 7) * 13 + (z % 127) * 331 + (z % 64) * 977) % 65521
H(s, k) == Mix((s * 30029 + k * 1117 + 12345) % 65521)
R(s, k, n) == H(s, k) % n
Of(s, k, q) == q[1 + R(s, k, Len(q))]
RECURSIVE IntT(_, _, _, _), TenT(_, _, _, _, _)
IntT(s, ls, d, un) ==
  IF d = 0 \/ R(s, 1, 5) = 0 THEN LeafT(Of(s, 2, ls))
  ELSE IF un /\ R(s, 3, 5) = 0 THEN <<"call", Of(s, 4, <<"integer_exp", "integer_sqrt">>), <<IntT(H(s, 5), ls, d - 1, un)>>>>
  ELSE <<Of(s, 6, <<"add", "sub", "mul", "div">>), "", <<IntT(H(s, 7), ls, d - 1, un), IntT(H(s, 8), ls, d - 1, un)>>>>
TenT(s, t, ls, mv, d) ==
  LET pre == IF t = "L" THEN "vec" ELSE "matrix"  k == R(s, 2, 8)  sub(j) == TenT(H(s, 3 + j), t, ls, mv, d - 1) IN
  IF d = 0 \/ R(s, 1, 9) = 0 THEN <<"var", IF t = "L" THEN "v" ELSE "m", <<>>>>
  ELSE IF t = "L" /\ k = 0 THEN <<"call", "vec_map", <<sub(0), <<"fnref", "map_int_to_int", <<>>>>>>>>
  ELSE IF t = "L" /\ mv /\ k = 1 THEN <<"call", "matrix_vec_mul", <<<<"var", "A", <<>>>>, sub(0)>>>>
  ELSE IF k < 4 THEN <<"call", pre \o "_elemwise_" \o Of(s, 20, <<"add", "sub", "mul", "div">>), <<sub(0), sub(1)>>>>
  ELSE IF k < 7 THEN <<"call", pre \o "_scalar_" \o Of(s, 20, <<"add", "sub", "mul", "div">>), <<IntT(H(s, 9), ls, d - 1, FALSE), sub(0)>>>>
  ELSE <<"call", "scalar_" \o pre \o "_" \o Of(s, 20, <<"sub", "div">>), <<IntT(H(s, 9), ls, d - 1, FALSE), sub(0)>>>>
CondT(s, ls, d) == <<"ite", "", <<<<Of(s, 30, <<"lt", "le", "eq", "ge", "gt">>), "", <<IntT(H(s, 31), ls, d, TRUE), IntT(H(s, 32), ls, d, TRUE)>>>>, IntT(H(s, 33), ls, d, TRUE), IntT(H(s, 34), ls, d, TRUE)>>>>

RECURSIVE ShowT(_)
ShowT(t) == CASE t[1] \in {"var", "fnref"} -> t[2] [] t[1] \in {"int", "bool"} -> ToString(t[2])
              [] OTHER -> (IF t[1] = "call" THEN t[2] ELSE t[1]) \o "(" \o FoldLeft(LAMBDA a, i : a \o (IF i = 1 THEN "" ELSE ", ") \o ShowT(t[3][i]), "", [i \in DOMAIN t[3] |-> i]) \o ")"
NSamples == IF Deep THEN 400 ELSE 40
Sampled(e) == {LET s == H((Seed * 613 + i) % 65521, e.d) IN IF e.kind = "int" THEN IntT(s, e.ls, e.d, TRUE) ELSE IF e.kind = "cond" THEN CondT(s, e.ls, e.d) ELSE TenT(s, e.t, e.ls, e.mv, e.d) : i \in 1..NSamples}
(* where two different points show a difference of two terms at all            *)
Whole(e) == CASE e.kind = "int" -> (e.d <= (IF Len(e.ls) = 3 /\ ~Deep THEN 1 ELSE 2)) [] e.kind = "cond" -> e.d = 0 [] e.kind = "tensor" -> e.d <= (IF Len(e.ls) > (IF Deep THEN 2 ELSE 1) THEN 1 ELSE 2)
JudgeExpr(e) ==
  LET envs == IF e.kind = "cond" THEN FPts ELSE One IN
  IF Whole(e)
  THEN LET want == CASE e.kind = "int" -> Flat(IntLev(e.ls, e.d, envs)) [] e.kind = "tensor" -> Flat(TenLev(e.t, e.ls, e.mv, e.d, envs))
                     [] e.kind = "cond" -> CondSet(Flat(IntLev(e.ls, e.d, envs)), envs)
           got == Denotes(Field, e.g, envs, {})
       IN IF got = want THEN <<"ok", Cardinality(want)>>
          ELSE IF \E v \in got : \E i \in DOMAIN v : IsE(v[i]) THEN <<"has a candidate without meaning: " \o ToString((CHOOSE v \in got : \E i \in DOMAIN v : IsE(v[i]))), 0>>
          ELSE IF want \subseteq got THEN <<"have " \o ToString(Cardinality(got \ want)) \o " candidates beyond the depth", 0>>
          ELSE <<"lack " \o ToString(Cardinality(want \ got)) \o " of " \o ToString(Cardinality(want)) \o " candidates", 0>>
  ELSE LET ts == Sampled(e)
           bad == {t \in ts : VecT(Field, t, envs) \notin Denotes(Field, e.g, envs, Parts(Field, t, envs))}
       IN IF bad = {} THEN <<"ok", Cardinality(ts)>>
          ELSE <<"lack " \o ShowT(CHOOSE t \in bad : TRUE) \o " (" \o ToString(Cardinality(bad)) \o " of " \o ToString(Cardinality(ts)) \o " sampled)", 0>>

----------------------------------------------------------------------------
(* part 2: functions to be synthesised hold the pixel functions of the kernels *)
Pix == 0..33
SelEnvs == [k \in 1..(IF Deep THEN 400 ELSE 150) |-> [int_x |-> I((k * 7 + (k \div 34) * 3) % 34), int_y |-> I((k * 13 + (k \div 11)) % 34), opacity |-> I(k % 3), rand_cons |-> I((k * 29) % 300)]]
Pixel(n, e) ==
  LET b == e.int_x[2]  a == e.int_y[2] IN
  CASE n = "darken_blend_8" -> I(IF b > a THEN a ELSE b)
    [] n = "lighten_blend_8" -> I(IF b < a THEN a ELSE b)
    [] n = "color_burn_8" -> (IF a = 0 THEN I(32) ELSE IF b > 32 THEN Undef ELSE I(32 - ((32 - b) \div a)))
    [] n = "color_dodge_8" -> (IF a = 32 THEN I(32) ELSE IF a > 32 THEN Undef ELSE I(b \div (32 - a)))
    [] n = "overlay_blend_8" -> I(IF b >= 16 THEN 2 * b + b - ((2 * b * b) \div 32) - 32 ELSE (2 * b * b) \div 32)
    [] n = "dissolve" -> I(IF e.opacity[2] - (((e.rand_cons[2] % 100) + 1) \div 100) >= 0 THEN a ELSE b)
Agrees(v, w) == \A i \in DOMAIN w : IsU(w[i]) \/ v[i] = w[i]
XX == <<"var", "int_x", <<>>>>
YY == <<"var", "int_y", <<>>>>
N(n) == <<"int", n, <<>>>>
T2(k, a, b) == <<k, "", <<a, b>>>>
If(c, a, b) == <<"ite", "", <<c, a, b>>>>
(* a form of each pixel function: a guide for the search, not a requirement   *)
PixelT(n) ==
  LET quad == T2("div", T2("mul", T2("mul", N(2), XX), XX), N(32)) IN
  CASE n = "overlay_blend_8" -> If(T2("ge", XX, N(16)), T2("sub", T2("sub", T2("add", T2("mul", N(2), XX), XX), quad), N(32)), quad)
    [] n = "color_burn_8" -> If(T2("eq", YY, N(0)), N(32), T2("sub", N(32), T2("div", T2("sub", N(32), XX), YY)))
    [] n = "color_dodge_8" -> If(T2("eq", YY, N(32)), N(32), T2("div", XX, T2("sub", N(32), YY)))
    [] OTHER -> If(T2("lt", XX, YY), XX, YY)
HoldsFn(g, n) ==
  LET w == [i \in DOMAIN SelEnvs |-> Pixel(n, SelEnvs[i])] IN
  \/ \E v \in Denotes(Ints, g, SelEnvs, Parts(Ints, PixelT(n), SelEnvs) \cup {w}) : Agrees(v, w)
  \/ \E v \in Denotes(Ints, g, SelEnvs, {}) : Agrees(v, w)
JudgeSynth(s) ==
  IF s.want = "map"
  THEN LET envs == <<[int_x |-> I(4321)]>> IN
       IF s.d.name # "map_int_to_int" THEN "is called " \o s.d.name
       ELSE IF Denotes(Field, s.g, envs, {}) = {<<I(FUn("exp", 4321))>>, <<I(FUn("sqrt", 4321))>>} THEN "ok" ELSE "is not one of the exponential and the root"
  ELSE IF s.d.name # "select_two_args" \/ [i \in DOMAIN s.d.ps |-> s.d.ps[i][1]] # <<"int_x", "int_y">> THEN "has another signature"
  ELSE IF HoldsFn(s.g, s.want) THEN "ok" ELSE "cannot be the kernel's pixel function"

----------------------------------------------------------------------------
(* part 3: loop bounds.  For each form of loop one resolution gives exactly   *)
(* the indices the loop visits, for all bounds                               *)
LPts(asc) == LET q == SetToSeq({<<l, r>> : l \in -2..4, r \in -2..4}) IN [i \in DOMAIN q |-> [asc |-> B(asc), left |-> I(q[i][1]), right |-> I(q[i][2])]]
Visits(form, l, r) == CASE form = "<" -> {i \in -9..9 : l <= i /\ i < r} [] form = "<=" -> {i \in -9..9 : l <= i /\ i <= r}
                        [] form = ">" -> {i \in -9..9 : i <= l /\ i > r} [] form = ">=" -> {i \in -9..9 : i <= l /\ i >= r}
JudgeLoop(form) ==
  LET envs == LPts(form \in {"<", "<="})
      ok(lo, up) == \A s \in DOMAIN envs : IsI(lo[s]) /\ IsI(up[s]) /\ {i \in -9..9 : lo[s][2] <= i /\ i < up[s][2]} = Visits(form, envs[s].left[2], envs[s].right[2])
  IN J.bounds.lower = <<>> \/ J.bounds.upper = <<>> \/ \E lo \in Denotes(Ints, J.bounds.lower, envs, {}), up \in Denotes(Ints, J.bounds.upper, envs, {}) : ok(lo, up)
IntTy == "<class 'Int'>"
BoolTy == "<class 'Bool'>"
JudgeTrip(t) ==
  LET ty == IF t.want = "switch" THEN BoolTy ELSE IntTy
      envs == <<[left |-> I(5), right |-> I(11), third |-> I(23)]>>
      want == CASE t.want = "switch" -> {<<B(TRUE)>>, <<B(FALSE)>>} [] t.want = "index2" -> {<<I(5)>>, <<I(11)>>} [] t.want = "index3" -> {<<I(5)>>, <<I(11)>>, <<I(23)>>} [] t.want = "bound" -> {<<I(5)>>, <<I(10)>>}
      nargs == CASE t.want = "switch" -> 0 [] t.want = "index3" -> 3 [] OTHER -> 2
      top == t.call[Len(t.call)] IN
  IF t.d.name # t.name \/ t.s.name # t.name THEN "has another name"
  ELSE IF ~t.d.open THEN "is declared with a body"
  ELSE IF t.d.ps # t.s.ps \/ Len(t.d.ps) # nargs \/ t.d.ret # ty \/ t.s.ret # ty \/ t.ct # ty THEN "is declared, synthesised and called with different signatures"
  ELSE IF top[1] # "call" \/ top[2] # t.name \/ [i \in DOMAIN top[3] |-> t.call[top[3][i]][2]] # t.given THEN "is called differently"
  ELSE IF Denotes(Ints, t.g, envs, {}) # want THEN "does not range over its candidates"
  ELSE "ok"

----------------------------------------------------------------------------
(* part 4: invariants and postconditions of the nested-loop kernels.          *)
(* The kernel as a machine: out collects one vector per step of the outer     *)
(* loop (variable row), row_vec one number per step of the inner (col).       *)
Mt(q) == L([i \in DOMAIN q |-> L([j \in DOMAIN q[i] |-> I(q[i][j])])])
Inputs(wide) ==
  {<<Mt(<<<<9, 2>>, <<5, 31>>>>), Mt(<<<<4, 7>>, <<12, 3>>>>)>>, <<Mt(<<<<9, 2>>, <<5, 31>>, <<8, 17>>>>), Mt(<<<<4, 7>>, <<12, 3>>, <<1, 6>>>>)>>}
  \cup (IF Deep THEN {<<Mt(<<<<9>>, <<30>>>>), Mt(<<<<4>>, <<13>>>>)>>, <<Mt(<<<<9, 2, 1>>, <<5, 31, 3>>, <<8, 17, 21>>>>), Mt(<<<<4, 7, 15>>, <<12, 3, 2>>, <<1, 6, 10>>>>)>>} ELSE {})
  \cup (IF wide THEN {<<Mt(<<<<9, 2, 14>>, <<5, 31, 8>>>>), Mt(<<<<4, 7, 20>>, <<12, 3, 1>>>>)>>} ELSE {})
Square(b) == Len(b[2]) = Len(b[2][1][2])
PixelOf(k, b, a, o, r) ==
  CASE k = "multiply_blend_8" -> I((b * a) \div 32) [] k = "linear_burn_8" -> I(b + a - 32) [] k = "linear_dodge_8" -> I(b + a)
    [] k = "screen_blend_8" -> I(b + a - ((b * a) \div 32)) [] k = "select" -> Passed("select_two_args", <<I(b), I(a)>>)
    [] k = "dissolve" -> Passed("dissolve_select_two_args", <<I(b), I(a), I(o), I(r)>>)
At(m, i, j) == m[2][i][2][j][2]
Pixels(k, b, a, order, i, n) == L([j \in 1..n |-> IF order = "rows" THEN PixelOf(k, At(b, i, j), At(a, i, j), 2, 7) ELSE PixelOf(k, At(b, j, i), At(a, j, i), 2, 7)])
Outer(b, order) == IF order = "rows" THEN Len(b[2]) ELSE Len(b[2][1][2])
Inner(b, order) == IF order = "rows" THEN Len(b[2][1][2]) ELSE Len(b[2])
OutAt(k, b, a, order, n) == L([i \in 1..n |-> Pixels(k, b, a, order, i, Inner(b, order))])
Base(b, a, first) == [base |-> b, active |-> a, opacity |-> I(2), rand_cons |-> I(7), pixel |-> I(77), OUTER_LOOP_INDEX_FIRST |-> B(first)]
Usable(order, wide) == {p \in Inputs(wide) : order = "rows" \/ Square(p[1])}
(* the reachable states at the outer head, at the inner head, and at the end   *)
States(which, k, order, wide, first) ==
  LET us == Usable(order, wide) IN
  CASE which = 1 -> UNION {{Base(p[1], p[2], first) @@ ("agg.result" :> OutAt(k, p[1], p[2], order, r)) @@ [row |-> I(r), col |-> I(IF r = 0 THEN 0 ELSE Inner(p[1], order)), row_vec |-> IF r = 0 THEN L(<<>>) ELSE OutAt(k, p[1], p[2], order, r)[2][r]]
                            : r \in 0..Outer(p[1], order)} : p \in us}
    [] which = 2 -> UNION {{Base(p[1], p[2], first) @@ ("agg.result" :> OutAt(k, p[1], p[2], order, w[1])) @@ [row |-> I(w[1]), col |-> I(w[2]), row_vec |-> Pixels(k, p[1], p[2], order, w[1] + 1, w[2])]
                            : w \in (0..(Outer(p[1], order) - 1)) \X (0..Inner(p[1], order))} : p \in us}
    [] which = 3 -> {Base(p[1], p[2], first) @@ [out |-> OutAt(k, p[1], p[2], order, Outer(p[1], order))] : p \in us}
(* witnesses: a valid invariant over the library, in the forms the loop order  *)
(* suggests; they steer the search through spaces too large to enumerate       *)
Vr(n) == <<"var", n, <<>>>>
In(n) == <<"int", n, <<>>>>
C(n, a) == <<"call", n, a>>
KernelT(k, pre, b, a) ==
  LET e(o) == C(pre \o "_elemwise_" \o o, <<b, a>>)  s(o, t) == C(pre \o "_scalar_" \o o, <<In(32), t>>)  sel == IF pre = "vec" THEN "" ELSE "matrix_" IN
  CASE k = "multiply_blend_8" -> s("div", e("mul")) [] k = "linear_burn_8" -> s("sub", e("add")) [] k = "linear_dodge_8" -> e("add")
    [] k = "screen_blend_8" -> C(pre \o "_elemwise_sub", <<e("add"), s("div", e("mul"))>>)
    [] k = "select" -> C(sel \o "selection_two_args", <<b, a, <<"fnref", "select_two_args", <<>>>>>>)
    [] k = "dissolve" -> C("dissolve_" \o sel \o "selection_two_args", <<b, a, Vr("opacity"), Vr("rand_cons"), <<"fnref", "dissolve_select_two_args", <<>>>>>>)
Rows(m, hi) == <<"lslice", "", <<m, In(0), hi>>>>
RowsT(m, hi) == <<"ltake", "", <<m, hi>>>>
Cols(m, hi) == <<"mcolslice", "", <<m, In(0), hi>>>>
NRows(m) == <<"llen", "", <<m>>>>
NCols(m) == <<"llen", "", <<<<"lget", "", <<m, In(0)>>>>>>>>
RowOf(m, i) == <<"lget", "", <<m, i>>>>
Bs == Vr("base")
Ac == Vr("active")
Part1(m) == {Cols(Rows(m, Vr("row")), n) : n \in {NRows(Bs), NCols(Bs)}}
Part2(m) == {RowOf(Cols(Rows(m, NRows(Bs)), Vr("col")), Vr("row")), RowOf(Cols(m, Vr("col")), Vr("row")), RowsT(RowOf(m, Vr("row")), Vr("col"))}
Part3(m) == {Cols(Rows(m, NRows(Bs)), n) : n \in {NRows(Bs), NCols(Bs)}}
Pair(ps(_), k, pre) == {KernelT(k, pre, x, y) : x \in ps(Bs), y \in ps(Ac)}
Steer(which, k) == IF which = 1 THEN Pair(Part1, k, "matrix") ELSE IF which = 2 THEN Pair(Part1, k, "matrix") \cup Pair(Part2, k, "vec") ELSE Pair(Part3, k, "matrix")
Holes(f) == "OUTER_LOOP_INDEX_FIRST" \in {f.synths[i].name : i \in DOMAIN f.synths}
JudgeInv(f, which, order, first) ==
  LET envs == SetToSeq(States(which, f.kernel, order, f.wide, first))
      hints == IF Holes(f) THEN {} ELSE UNION {Parts(Ints, t, envs) : t \in Steer(which, f.kernel)} \cup {VecT(Ints, n, envs) : n \in {Vr(IF which = 3 THEN "out" ELSE "agg.result"), Vr(IF which = 2 THEN "row_vec" ELSE "base")}}
      got == Denotes(Ints, f.g[which], envs, hints)
      good(v) == \A s \in DOMAIN envs : v[s] = B(TRUE) \/ (IsU(v[s]) /\ which < 3 /\ order = "columns" /\ (envs[s].row = I(0) \/ (which = 2 /\ envs[s].col = I(0))))
  IN \E v \in got : good(v)
PartName(i) == <<"the outer invariant", "the inner invariant", "the postcondition">>[i]
JudgeFamily(f) ==
  LET firsts == IF Holes(f) THEN {TRUE, FALSE} ELSE {TRUE}
      bad(o) == {i \in 1..3 : \A b \in firsts : ~JudgeInv(f, i, o, b)}
      lack(o) == IF bad(o) # {} THEN bad(o) ELSE IF \E b \in firsts : \A i \in 1..3 : JudgeInv(f, i, o, b) THEN {} ELSE {0}
      wrong == {<<f.orders[o], lack(f.orders[o])>> : o \in DOMAIN f.orders}
      names == {f.lang[i].name : i \in DOMAIN f.lang}
      open == {i \in DOMAIN f.lang : f.lang[i].open}
      theory == {"integer_exp", "integer_sqrt"}
      used == UNION {{g[i][2] : i \in {j \in DOMAIN g : g[j][1] \in {"call", "fnref"}}} : g \in {f.g[i] : i \in 1..3}}
      param(n) == n \in {"select_two_args_arg", "dissolve_select_two_args_arg", "map_int_to_int_arg"}
      inner == UNION {{f.calls[i][2][j] : j \in DOMAIN f.calls[i][2]} : i \in {j \in DOMAIN f.calls : f.calls[j][1] \in used}}
      inSynths == UNION {{f.sg[k][i][2] : i \in {j \in DOMAIN f.sg[k] : f.sg[k][j][1] \in {"call", "fnref"}}} : k \in DOMAIN f.sg}
      missing == {n \in (used \cup inner \cup inSynths) \ theory : n \notin names /\ ~param(n)}
      unsought == {f.lang[i].name : i \in {j \in open : ~\E k \in DOMAIN f.synths : f.synths[k].name = f.lang[j].name /\ f.synths[k].ps = f.lang[j].ps /\ f.synths[k].ret = f.lang[j].ret}}
      undeclared == {f.synths[k].name : k \in {j \in DOMAIN f.synths : f.synths[j].name \notin names}}
  IN {<<f.what, IF 0 \in w[2] THEN "no choice of the loop order makes all parts valid, loop over " \o w[1]
                ELSE "no candidate for " \o (CHOOSE x \in {PartName(i) : i \in w[2]} : TRUE) \o " is valid, loop over " \o w[1]>> : w \in {x \in wrong : x[2] # {}}}
     \cup {<<f.what, "candidates call " \o n \o ", which the target language lacks">> : n \in missing}
     \cup {<<f.what, n \o " is declared without a body but not searched for">> : n \in unsought}
     \cup {<<f.what, n \o " is searched for but not declared">> : n \in undeclared}

(* the functions searched for in the families                                 *)
WantFns(f) == CASE f.what = "selection by holes, darken_blend_8" -> {"darken_blend_8"} [] f.what = "selection by holes, overlay_blend_8" -> {"overlay_blend_8"}
                [] f.what = "dissolve by holes" -> {"dissolve"}
                [] f.kernel = "select" /\ "select_two_args" \in {f.synths[i].name : i \in DOMAIN f.synths} /\ SubSeq(f.what, 1, 20) = "selection to depth 0" -> {"darken_blend_8", "lighten_blend_8"}
                [] OTHER -> {}
JudgeFns(f) == {<<f.what, "the searched function cannot be " \o n>> : n \in {m \in WantFns(f) : ~\E i \in DOMAIN f.synths : f.synths[i].name \in {"select_two_args", "dissolve_select_two_args"} /\ HoldsFn(f.sg[i], m)}}

----------------------------------------------------------------------------
(* the jobs *)
Jobs == {<<"expr", i>> : i \in DOMAIN J.exprs} \cup {<<"synth", i>> : i \in DOMAIN J.synths} \cup {<<"trip", i>> : i \in DOMAIN J.trips} \cup {<<"fam", i>> : i \in DOMAIN J.families} \cup {<<"loop", i>> : i \in 1..4}
Bad2(q) == PrintT("BAD " \o ToJson(q))
Do(j) ==
  CASE j[1] = "expr" -> LET e == J.exprs[j[2]]  r == JudgeExpr(e) IN IF r[1] = "ok" THEN PrintT("SIZE " \o ToJson(<<e.what, r[2]>>)) ELSE Bad2(<<e.what, r[1]>>)
    [] j[1] = "synth" -> LET s == J.synths[j[2]]  r == JudgeSynth(s) IN r = "ok" \/ Bad2(<<s.what, r>>)
    [] j[1] = "trip" -> LET t == J.trips[j[2]]  r == JudgeTrip(t) IN r = "ok" \/ Bad2(<<t.what, r>>)
    [] j[1] = "loop" -> LET f == <<"<", "<=", ">", ">=">>[j[2]] IN JudgeLoop(f) \/ Bad2(<<"loops with " \o f, "no resolution of the bounds gives the indices visited">>)
    [] j[1] = "fam" -> LET f == J.families[j[2]]  b == JudgeFamily(f) \cup JudgeFns(f) IN b = {} \/ \A x \in b : Bad2(x)
JobSeq == SetToSeq(Jobs)
Lanes == 24
VARIABLE job
Init == job \in {<<"lane", k>> : k \in 1..Lanes}
Next == job[1] = "lane" /\ job' \in {JobSeq[i] : i \in {j \in DOMAIN JobSeq : j % Lanes = job[2] - 1}}
Judged == job[1] = "lane" \/ Do(job)
=============================================================================
