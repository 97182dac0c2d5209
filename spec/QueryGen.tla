------------------------------ MODULE QueryGen ------------------------------
(* Verification problems for the query assembler: target functions with a    *)
(* call graph, functions taking functions, candidates for the synthesised     *)
(* functions, axioms and a condition.                                         *)
(* A function is [name, ps, ts, res, rec, body]; a body "none" stands for a   *)
(* declaration that is to be synthesised.                                     *)
EXTENDS Ops, Json, IOUtils, SequencesExt, FiniteSetsExt, Randomization

Num == LET s == IOEnv.Q_NUM IN CHOOSE n \in 1..5000 : ToString(n) = s

F(nm, ps, ts, r, rec, body) == [name |-> nm, ps |-> ps, ts |-> ts, res |-> r, rec |-> rec, body |-> body]
Add(as) == N("add", "", as, "Add2")
Eq(a, b, how) == N("eq", "", <<a, b>>, how)
And2(a, b) == N("and", "", <<a, b>>, "And2")
Imp(a, b) == N("implies", "", <<a, b>>, "Implies")
Call(f, as, r) == N("call", f, as, "C:" \o r)
CallV(g, as, r) == N("callv", "", <<g>> \o as, "CV:" \o r)
Ref(f, t) == N("fnref", f, <<>>, t)
Len1(l) == N("lt", "", <<N("llen", "", <<l>>, "o.len"), K(1)>>, "Lt")
None == <<"none", "", <<>>, "">>

(* ---- first-order call graphs ---- *)
Names == <<"fb", "fa", "fc">>
Perms3 == {<<1, 2, 3>>, <<1, 3, 2>>, <<2, 1, 3>>, <<2, 3, 1>>, <<3, 1, 2>>, <<3, 2, 1>>}
Edges == {<<2, 1>>, <<3, 1>>, <<3, 2>>}

RECURSIVE SumCalls(_, _, _, _)
SumCalls(i, j, es, acc) ==
  IF j > 3 THEN acc
  ELSE SumCalls(i, j + 1, es, IF <<i, j>> \in es THEN N("add", "", <<acc, Call(Names[j], <<N("add", "", <<V("x", "I"), K(j)>>, "Add2")>>, "I")>>, "Add2") ELSE acc)

FoBody(i, es, rec) ==
  LET base == SumCalls(i, 1, es, N("mul", "", <<K(i + 1), V("x", "I")>>, "Mul2")) IN
  LET self == Call(Names[i], <<N("sub", "", <<V("x", "I"), K(1)>>, "Sub")>>, "I")
      stop(t) == N("ite", "", <<N("le", "", <<V("x", "I"), K(0)>>, "Le"), K(i), t>>, "IteI") IN
  CASE rec = 0 -> base
    [] rec = 1 -> stop(Add(<<base, self>>))
    [] rec = 2 -> stop(Add(<<base, N("mul", "", <<K(2), N("sub", "", <<self, K(1)>>, "Sub")>>, "Mul2")>>))
    [] rec = 3 -> stop(N("ite", "", <<N("lt", "", <<K(0), N("mul", "", <<K(3), self>>, "Mul2")>>, "Lt"), base, K(1)>>, "IteI"))
    (* the recursive call is far down *)
    [] rec = 4 -> stop(Add(<<K(1), N("mul", "", <<K(2), N("lget", "", <<N("lprepend", "", <<Add(<<self, base>>), N("lempty", "", <<>>, "o.L.empty")>>, "o.prepend"), K(0)>>, "o.get")>>, "Mul2")>>))
FoFn(i, es, rec, decl) == F(Names[i], <<"x">>, <<"I">>, "I", rec # 0 \/ decl, FoBody(i, es, rec))

(* candidates: a postcondition, an invariant and a helper that is synthesised too *)
CPs(root, helper) ==
  F("main_ps", <<"x", "rv">>, <<"I", "I">>, "B", TRUE,
    IF helper THEN Eq(V("rv", "I"), Add(<<Call(Names[root], <<V("x", "I")>>, "I"), Call("hsyn", <<V("x", "I")>>, "I")>>), "EqI")
    ELSE Eq(V("rv", "I"), Call(Names[root], <<V("x", "I")>>, "I"), "EqI"))
CInv(root) ==
  F("main_inv0", <<"x", "y">>, <<"I", "I">>, "B", TRUE,
    IF root = 0 THEN N("le", "", <<V("y", "I"), V("x", "I")>>, "Le")
    ELSE N("gt", "", <<Call(Names[root], <<V("y", "I")>>, "I"), V("x", "I")>>, "Gt"))
CHelper(root) == F("hsyn", <<"x">>, <<"I">>, "I", TRUE, IF root = 0 THEN K(3) ELSE Call(Names[root], <<K(2)>>, "I"))

Ps(a) == Call("main_ps", a, "B")
Inv(a) == Call("main_inv0", a, "B")
X == V("x", "I")
Y == V("y", "I")
Z == V("z", "I")
FoCond(k) ==
  CASE k = 1 -> Imp(Inv(<<X, Y>>), Ps(<<X, Y>>))
    [] k = 2 -> And2(Imp(V("p", "B"), Inv(<<X, Z>>)), Imp(And2(Inv(<<X, Y>>), V("q", "B")), Ps(<<Y, Z>>)))
    [] k = 3 -> N("or", "", <<Ps(<<X, Call("fb", <<X>>, "I")>>), N("not", "", <<Inv(<<Y, X>>)>>, "Not")>>, "Or2")
FoAx(k) ==
  CASE k = 0 -> <<>>
    [] k = 1 -> << [vars |-> <<"x">>, ts |-> <<"I">>, body |-> N("ge", "", <<Call("fa", <<X>>, "I"), X>>, "Ge")] >>
    [] k = 2 -> << [vars |-> <<"x", "y">>, ts |-> <<"I", "I">>, body |-> Imp(N("lt", "", <<X, Y>>, "Lt"),
                       N("lt", "", <<Call("fb", <<X>>, "I"), Call("fc", <<Y>>, "I")>>, "Lt"))],
                   [vars |-> <<"y">>, ts |-> <<"I">>, body |-> Eq(Call("fc", <<Y>>, "I"), Add(<<Y, Y>>), "EqI")] >>

FoSpace == [perm : Perms3, es : SUBSET Edges, rec : [1..3 -> 0..4], decl : BOOLEAN, ps : 1..3, inv : 0..3, helper : BOOLEAN,
            hr : 0..3, cperm : 1..3, cond : 1..3, ax : 0..2]
FoProblem(s) ==
  LET cs == <<CPs(s.ps, s.helper), CInv(s.inv), CHelper(s.hr)>> IN
  [ lang |-> [i \in 1..3 |-> LET n == s.perm[i] IN FoFn(n, s.es, s.rec[n], s.decl)],
    cands |-> [i \in 1..3 |-> cs[((i + s.cperm) % 3) + 1]],
    axioms |-> FoAx(s.ax), cond |-> FoCond(s.cond) ]

(* ---- functions taking functions ---- *)
FI == "F:II"       \* Int -> Int
G == V("g", FI)
XS == V("xs", "L")
M == V("m", "M")
At0(l) == N("lget", "", <<l, K(0)>>, "o.get")
Rest(l) == N("ltail", "", <<l, K(1)>>, "o.tail")
NilL == N("lempty", "", <<>>, "o.L.empty")
NilM == N("lempty", "", <<>>, "o.M.empty")
Prep(a, l) == N("lprepend", "", <<a, l>>, "o.prepend")
(* the function parameter comes first or last *)
Par(gf, a, b) == IF gf THEN <<b, a>> ELSE <<a, b>>

Ap0(gf) == F("ap", Par(gf, "x", "g"), Par(gf, "I", FI), "I", FALSE, Add(<<CallV(G, <<X>>, "I"), N("mul", "", <<K(2), X>>, "Mul2")>>))
Map(gf) == F("vmap", Par(gf, "xs", "g"), Par(gf, "L", FI), "L", TRUE,
  N("ite", "", <<Len1(XS), NilL, Prep(CallV(G, <<At0(XS)>>, "I"), Call("vmap", Par(gf, Rest(XS), G), "L"))>>, "IteL"))
MMap(gf) == F("mmap", Par(gf, "m", "g"), Par(gf, "M", FI), "M", TRUE,
  N("ite", "", <<Len1(M), NilM, Prep(Call("vmap", Par(gf, At0(M), G), "L"), Call("mmap", Par(gf, Rest(M), G), "M"))>>, "IteM"))
(* a second caller of the same function *)
Twice(gf) == F("twice", Par(gf, "xs", "g"), Par(gf, "L", FI), "L", FALSE,
  Call("vmap", Par(gf, Call("vmap", Par(gf, XS, G), "L"), G), "L"))
(* first-order function that passes a fixed function *)
Fixed(gf) == F("fixed", <<"xs">>, <<"L">>, "L", FALSE, Call("vmap", Par(gf, XS, Ref("sa", FI)), "L"))
Red(gf) == F("vred", Par(gf, "xs", "h"), Par(gf, "L", "F:III"), "I", TRUE,
  LET H == V("h", "F:III") IN
  N("ite", "", <<Len1(XS), K(0), CallV(H, <<At0(XS), Call("vred", Par(gf, Rest(XS), H), "I")>>, "I")>>, "IteI"))
(* two function parameters; own parameter and a fixed function in one body *)
Two(gf) == F("two", Par(gf, "xs", "g") \o <<"h">>, Par(gf, "L", FI) \o <<"F:III">>, "I", FALSE,
  CallV(V("h", "F:III"), <<CallV(G, <<At0(XS)>>, "I"), N("llen", "", <<XS>>, "o.len")>>, "I"))
Mix(gf) == F("mix", Par(gf, "xs", "g"), Par(gf, "L", FI), "L", FALSE,
  Call("vmap", Par(gf, Call("vmap", Par(gf, XS, Ref("sb", FI)), "L"), G), "L"))
Sa == F("sa", <<"x">>, <<"I">>, "I", FALSE, Add(<<N("mul", "", <<X, X>>, "Mul2"), K(1)>>))
Sb == F("sb", <<"x">>, <<"I">>, "I", FALSE, N("sub", "", <<K(1), X>>, "Sub"))
(* calls another target function *)
Sc == F("sa", <<"x">>, <<"I">>, "I", FALSE, Add(<<Call("aux", <<X>>, "I"), K(1)>>))
Aux == F("aux", <<"x">>, <<"I">>, "I", FALSE, N("mul", "", <<X, K(3)>>, "Mul2"))
Ra == F("ra", <<"x", "y">>, <<"I", "I">>, "I", FALSE, N("sub", "", <<X, N("mul", "", <<K(2), Y>>, "Mul2")>>, "Sub"))
Open(f) == [f EXCEPT !.body = None]

Uses == {"ap", "vmap", "mmap", "twice", "fixed", "redmap", "vred", "two", "mix"}
Needs(u) == CASE u = "mmap" -> {"vmap", "mmap"} [] u = "twice" -> {"vmap", "twice"} [] u = "fixed" -> {"vmap", "fixed"}
             [] u = "redmap" -> {"vmap", "vred"} [] u = "mix" -> {"vmap", "mix"} [] OTHER -> {u}
UseTerm(u, gf, s) ==
  CASE u = "ap" -> Eq(Call("ap", Par(gf, Y, s), "I"), Z, "EqI")
    [] u = "vmap" -> Eq(Call("vmap", Par(gf, XS, s), "L"), V("ys", "L"), "EqL")
    [] u = "mmap" -> Eq(Call("mmap", Par(gf, M, s), "M"), V("n", "M"), "EqM")
    [] u = "twice" -> Eq(N("llen", "", <<Call("twice", Par(gf, XS, s), "L")>>, "o.len"), At0(Call("twice", Par(gf, V("ys", "L"), s), "L")), "EqI")
    [] u = "fixed" -> Eq(Call("fixed", <<XS>>, "L"), V("ys", "L"), "EqL")
    [] u = "redmap" -> N("lt", "", <<Call("vred", Par(gf, Call("vmap", Par(gf, XS, s), "L"), Ref("ra", "F:III")), "I"), Z>>, "Lt")
    [] u = "two" -> N("ge", "", <<Call("two", Par(gf, XS, s) \o <<Ref("ra", "F:III")>>, "I"), Z>>, "Ge")
    [] u = "mix" -> Eq(Call("mix", Par(gf, XS, s), "L"), V("ys", "L"), "EqL")
    [] u = "vred" -> N("lt", "", <<Call("vred", Par(gf, XS, Ref("ra", "F:III")), "I"), Z>>, "Lt")
HoPs == <<"x", "y", "z", "xs", "ys", "m", "n">>
HoTs == <<"I", "I", "I", "L", "L", "M", "M">>
HoArgs == [i \in 1..7 |-> V(HoPs[i], HoTs[i])]
HoSpace == [ uses : {U \in SUBSET Uses : Cardinality(U) \in 1..2}, extra : {U \in SUBSET Uses : Cardinality(U) <= 1}, gf : BOOLEAN,
             syn : {"no", "sa", "ra"}, sel : {"sa", "sb", "both"}, auxed : BOOLEAN, order : 0..3, incond : 0..2, ax : 0..3 ]
RECURSIVE Conj(_)
Conj(ts) == IF Len(ts) = 1 THEN ts[1] ELSE And2(ts[1], Conj(Tail(ts)))
Rot(s, n) == IF n = 0 THEN s ELSE IF n = 1 THEN Reverse(s) ELSE IF n = 2 THEN SubSeq(s, 3, Len(s)) \o SubSeq(s, 1, 2) ELSE Reverse(SubSeq(s, 3, Len(s)) \o SubSeq(s, 1, 2))
HoProblem(s) ==
  LET need == UNION {Needs(u) : u \in s.uses \cup s.extra} \cup (IF s.ax > 1 \/ s.incond = 2 THEN {"vmap"} ELSE {})
      sa == IF s.auxed THEN Sc ELSE Sa
      all == <<Sb, Ra>> \o (IF s.syn = "sa" THEN <<Open(sa)>> ELSE <<sa>>)
             \o SelectSeq(<<Map(s.gf), Ap0(s.gf), MMap(s.gf), Twice(s.gf), Fixed(s.gf), Red(s.gf), Two(s.gf), Mix(s.gf)>>, LAMBDA f : f.name \in need)
             \o (IF s.auxed THEN <<Aux>> ELSE <<>>)
      lang == Rot([i \in DOMAIN all |-> IF s.syn = "ra" /\ all[i].name = "ra" THEN Open(all[i]) ELSE all[i]], s.order)
      us == SetToSeq(s.uses)
      s1 == Ref(IF s.sel = "sb" THEN "sb" ELSE "sa", FI)
      s2 == Ref(IF s.sel = "both" THEN "sb" ELSE IF s.sel = "sb" THEN "sb" ELSE "sa", FI)
      body == Conj([i \in DOMAIN us |-> UseTerm(us[i], s.gf, IF i = 1 THEN s1 ELSE s2)]
                   \o (IF s.sel = "both" THEN <<UseTerm(us[1], s.gf, s2)>> ELSE <<>>))
      ps == F("main_ps", HoPs, HoTs, "B", TRUE, body)
      syns == (IF s.syn = "sa" THEN <<[sa EXCEPT !.rec = TRUE]>> ELSE IF s.syn = "ra" THEN <<[Ra EXCEPT !.rec = TRUE]>> ELSE <<>>)
  IN [ lang |-> lang,
       cands |-> IF s.order % 2 = 0 THEN <<ps>> \o syns ELSE syns \o <<ps>>,
       axioms |-> IF s.ax = 1 THEN << [vars |-> <<"x">>, ts |-> <<"I">>, body |-> N("ge", "", <<Call("sb", <<X>>, "I"), X>>, "Ge")] >>
                  ELSE IF s.ax = 2 THEN << [vars |-> <<"x", "ys">>, ts |-> <<"I", "L">>, body |->
                         Imp(N("lt", "", <<K(0), N("llen", "", <<V("ys", "L")>>, "o.len")>>, "Lt"),
                             N("gt", "", <<At0(Call("vmap", Par(s.gf, V("ys", "L"), s1), "L")), X>>, "Gt"))] >>
                  (* leaves out the function to pass: stands for every copy *)
                  ELSE IF s.ax = 3 THEN << [vars |-> <<"xs", "y", "ys">>, ts |-> <<"L", "I", "L">>,
                         full |-> Eq(Prep(Y, Call("vmap", Par(s.gf, XS, G), "L")), V("ys", "L"), "EqL"),
                         body |-> Eq(Prep(Y, Call("vmap", <<XS>>, "L")), V("ys", "L"), "EqL")] >>
                  ELSE <<>>,
       cond |-> IF s.incond = 1 THEN Imp(V("p", "B"), Call("main_ps", HoArgs, "B"))
                ELSE IF s.incond = 2 THEN Imp(Eq(Call("vmap", Par(s.gf, V("zs", "L"), s2), "L"), XS, "EqL"), Call("main_ps", HoArgs, "B"))
                ELSE N("or", "", <<Call("main_ps", HoArgs, "B"), V("q", "B")>>, "Or2") ]

VARIABLES pick, kind
Init == \/ kind = "fo" /\ pick \in RandomSubset(Num, FoSpace)
        \/ kind = "ho" /\ pick \in RandomSubset(Num, HoSpace)
Next == FALSE /\ UNCHANGED <<pick, kind>>
Spec == Init /\ [][Next]_<<pick, kind>>
Emit == PrintT("PROBLEM " \o ToJson(IF kind = "fo" THEN FoProblem(pick) ELSE HoProblem(pick)))
=============================================================================
