------------------------------ MODULE ProgGen -------------------------------
(* Source programs, one for every seed: two functions and a scenario of calls. *)
EXTENDS Prog, Json, IOUtils

Lang == IOEnv.P_LANG                  \* "py", "c" (lists as pointers) or "cv" (lists as vectors)
From == atoi(IOEnv.P_FROM)
To == atoi(IOEnv.P_TO)
MaxVars == atoi(IOEnv.P_MAXVARS)      \* bound on quantified variables per function

Mix(y) == (y + (y \div 7) * 13 + (y % 127) * 331 + (y % 64) * 977) % 65521
H(s, k) == Mix((s * 30029 + k * 1117 + 12345) % 65521)
R(s, k, n) == (H(H(s, k), 5) \div 11) % n
Of(s, k, q) == q[1 + R(s, k, Len(q))]
V(x) == <<"var", x, <<>>>>
K(n) == <<"int", n, <<>>>>
Nd(k, as) == <<k, "", as>>

(* scopes: [I, L, S: sequences of names] *)
Has(sc, t) == Len(sc[t]) > 0
InSc(sc, x) == \E t \in DOMAIN sc : x \in ToSet(sc[t])
Plus(sc, t, x) == IF InSc(sc, x) THEN sc ELSE [sc EXCEPT ![t] = Append(@, x)]

RECURSIVE IntE(_, _, _), BoolE(_, _, _)
Leaf(s, sc) == IF Has(sc, "I") /\ R(s, 1, 4) # 0 THEN V(Of(s, 2, sc["I"])) ELSE K(R(s, 3, 3))
IntE(s, sc, d) ==
  LET r == R(s, 4, IF d = 0 THEN 3 ELSE 13)  a == IntE(H(s, 11), sc, d - 1)  b == IntE(H(s, 12), sc, d - 1) IN
  CASE d = 0 \/ r <= 2 -> Leaf(s, sc)
    [] r <= 5 -> Nd("add", <<a, b>>)
    [] r = 6 /\ R(s, 6, 4) = 0 -> IF Lang = "py" THEN Nd("div", <<a, b>>)
                                  ELSE Nd(IF R(s, 9, 2) = 0 THEN "div" ELSE "mod", <<Leaf(H(s, 14), sc), IF Has(sc, "I") /\ R(s, 10, 2) = 0 THEN V(Of(s, 2, sc["I"])) ELSE K(1 + R(s, 3, 2))>>)
    [] r <= 7 -> Nd("sub", <<a, b>>)
    [] r = 8 -> Nd("mul", <<a, b>>)
    [] r = 9 -> IF Lang = "py" /\ R(s, 7, 3) = 0 THEN <<"tget", R(s, 8, 2), <<Nd("tuple", <<a, b>>)>>>> ELSE Nd("neg", <<a>>)
    [] r = 10 -> <<"call", "g", <<a>>>>
    [] r = 11 /\ Has(sc, "L") -> Nd("llen", <<V(Of(s, 5, sc["L"]))>>)
    [] r = 12 /\ Has(sc, "L") -> Nd("lget", <<V(Of(s, 5, sc["L"])), Leaf(H(s, 13), sc)>>)
    [] OTHER -> Leaf(s, sc)
Cmp == <<"lt", "gt", "le", "ge", "eq">>
(* C compilers fold conditions over literals *)
Dyn(e, s, sc) == IF Lang = "py" \/ VarsOf(e) # {} THEN e ELSE V(Of(s, 20, sc["I"]))
BoolE(s, sc, d) ==
  LET r == R(s, 21, IF d = 0 THEN 7 ELSE 12)
      x == Dyn(IntE(H(s, 22), sc, IF R(s, 23, 2) = 0 THEN 0 ELSE 1), s, sc)  y == IntE(H(s, 24), sc, IF R(s, 25, 3) = 0 THEN 1 ELSE 0) IN
  CASE r <= 5 -> Nd(Of(s, 26, Cmp), <<x, y>>)
    [] r = 6 -> IF Lang = "py" THEN <<"chain", <<Of(s, 27, Cmp), Of(s, 28, Cmp)>>, <<x, y, Leaf(H(s, 29), sc)>>>> ELSE IF R(s, 17, 2) = 0 THEN Nd("not", << Nd("eq", <<x, y>>) >>)
              ELSE IF d > 0 THEN Nd("not", <<BoolE(H(s, 18), sc, d - 1)>>) ELSE Nd(Of(s, 26, Cmp), <<y, x>>)
    [] r \in {7, 8, 9} -> Nd("and", <<BoolE(H(s, 31), sc, d - 1), BoolE(H(s, 32), sc, d - 1)>>)
    [] OTHER -> Nd("or", <<BoolE(H(s, 31), sc, d - 1), BoolE(H(s, 32), sc, d - 1)>>)

Locals == [I |-> <<"i", "j", "t">>, L |-> <<"ys", "t">>, S |-> <<>>]
(* a block: [b: statements, sc: scope after, ret: always returns] *)
Blk(b, sc, ret) == [b |-> b, sc |-> sc, ret |-> ret]
(* res = "V": no return but the last one *)
RetE(s, sc, res) == CASE res = "I" -> IntE(s, sc, 2) [] OTHER -> V(Of(s, 41, sc[res]))
CanRet(sc, res) == res # "V" /\ (res = "I" \/ Has(sc, res))

RECURSIVE Stmts(_, _, _, _, _, _)
(* s: seed, sc: scope (with loop "yes" inside a loop), n: how many statements, d: nesting, path: loop numbers, res *)
RECURSIVE Stmt(_, _, _, _, _)
Stmt(s, sc, d, path, res) ==
  LET r == IF Lang # "py" /\ Len(sc["B"]) = 1 /\ R(s, 50, 2) = 0 THEN 7 ELSE R(s, 51, IF d >= 2 THEN 7 ELSE 14)
      (* inside a loop, the branches of an if may leave it or go round *)
      scb == IF Lang # "py" /\ Len(sc["B"]) = 1 THEN [sc EXCEPT !.B = <<"in", "if">>] ELSE sc
      top == d = 0
      newI == SelectSeq(Locals["I"], LAMBDA x : ~InSc(sc, x))
      newL == SelectSeq(Locals["L"], LAMBDA x : ~InSc(sc, x))
      asg == <<"assign", IF Has(sc, "I") THEN Of(s, 52, sc["I"]) ELSE "i", IntE(H(s, 53), sc, 2)>>
      new == <<"assign", Of(s, 54, newI), IntE(H(s, 55), sc, 1)>> IN
  CASE ~Has(sc, "I") \/ (r = 0 /\ (top \/ R(s, 56, 3) = 0)) ->
         IF newI = <<>> \/ (~top /\ Has(sc, "I") /\ TRUE) THEN Blk(<<asg>>, Plus(sc, "I", asg[2]), FALSE)
         ELSE Blk(<<new>>, Plus(sc, "I", new[2]), FALSE)
    [] r \in {1, 2} /\ Has(sc, "L") /\ Lang = "cv" ->
         (* a vector element is given as a variable or an element *)
         IF "ys" \in ToSet(sc["L"]) THEN Blk(<< <<"append", "ys", IF R(s, 58, 3) = 0 THEN Nd("lget", <<V(Of(s, 57, sc["L"])), Leaf(H(s, 58), sc)>>) ELSE V(Of(s, 58, sc["I"]))>> >>, sc, FALSE)
         ELSE Blk(<<asg>>, sc, FALSE)
    [] r \in {1, 2} /\ Has(sc, "L") /\ Lang = "c" /\ R(s, 99, 3) = 0 ->
         (* lists are values: what another variable holds stays *)
         Blk(<< <<"assign", Of(s, 57, sc["L"]), IF R(s, 100, 3) = 0 THEN V(Of(s, 101, sc["L"])) ELSE Nd("lappend", <<V(Of(s, 101, sc["L"])), IntE(H(s, 58), sc, 1)>>)>> >>, sc, FALSE)
    [] r \in {1, 2} /\ Has(sc, "L") -> Blk(<< <<"append", Of(s, 57, sc["L"]), IntE(H(s, 58), sc, 1)>> >>, sc, FALSE)
    [] r = 3 /\ top /\ newL # <<>> /\ Lang # "cv" -> Blk(<< <<"assign", Of(s, 59, newL), Nd("lempty", <<>>)>> >>, Plus(sc, "L", Of(s, 59, newL)), FALSE)
    [] r \in {1, 2, 4} /\ Has(sc, "S") -> Blk(<< <<IF R(s, 60, 2) = 0 THEN "sadd" ELSE "sremove", Of(s, 61, sc["S"]), IntE(H(s, 62), sc, 1)>> >>, sc, FALSE)
    [] r \in {7, 8, 9, 10} ->
         LET c == BoolE(H(s, 63), sc, 1)
             t == Stmts(H(s, 64), scb, 1 + R(s, 65, 2), d + 1, path * 8 + 1, res)
             e == IF R(s, 66, 5) < 2 THEN Blk(<<>>, sc, FALSE) ELSE Stmts(H(s, 67), scb, 1 + R(s, 68, 2), d + 1, path * 8 + 2, res)
         IN Blk(<< <<"if", c, t.b, e.b>> >>, sc, t.ret /\ e.ret)
    [] r \in {11, 12, 13} ->
         LET c == BoolE(H(s, 69), sc, IF R(s, 70, 3) = 0 /\ Lang = "py" THEN 1 ELSE 0)
             b == Stmts(H(s, 71), IF Lang = "py" THEN sc ELSE [sc EXCEPT !.B = <<"in">>], 1 + R(s, 72, 2), d + 1, path * 8 + 3, res)
             kind == IF Lang = "py" THEN "while" ELSE Of(s, 77, <<"while", "while", "for", "for", "do">>)
             inc == LET x == Of(s, 78, sc["I"]) IN << <<"assign", x, Nd(IF R(s, 79, 3) = 0 THEN "sub" ELSE "add", <<V(x), K(1)>>)>> >>
             brk == << <<"if", BoolE(H(s, 80), sc, 0), << <<"break">> >>, <<>> >> >>
             forever == R(s, 96, 6) = 0
         IN IF Lang = "py" THEN Blk(<< <<"while", path, c, b.b>> >>, sc, FALSE)
            (* a body that never goes round is no loop *)
            ELSE IF b.ret THEN Blk(<< <<"if", c, <<asg>>, <<>> >> >>, sc, FALSE)
            ELSE IF kind = "for" THEN Blk(<< <<"for", path, IF forever THEN <<"bool", TRUE, <<>> >> ELSE c, IF forever THEN b.b \o brk ELSE b.b, inc>> >>, sc, FALSE)
            ELSE IF kind = "while" /\ forever THEN Blk(<< <<"while", path, <<"bool", TRUE, <<>> >>, brk \o b.b>> >>, sc, FALSE)
            ELSE Blk(<< <<kind, path, c, b.b>> >>, sc, FALSE)
    [] OTHER -> Blk(<<asg>>, sc, FALSE)
Stmts(s, sc, n, d, path, res) ==
  IF n = 0 THEN
    (* a nested block sometimes ends by returning *)
    IF d > 0 /\ Lang # "py" /\ Len(sc["B"]) = 2 /\ R(s, 97, 2) = 0 THEN Blk(<< <<IF R(s, 98, 2) = 0 THEN "break" ELSE "cont">> >>, sc, TRUE)
    ELSE IF d > 0 /\ R(s, 73, 4) = 0 /\ CanRet(sc, res) THEN Blk(<< <<"return", RetE(H(s, 74), sc, res)>> >>, sc, TRUE) ELSE Blk(<<>>, sc, FALSE)
  ELSE LET h == Stmt(H(s, 75), sc, d, path * 8 + 4 + (n % 4), res) IN
       IF h.ret THEN h ELSE LET t == Stmts(H(s, 76), h.sc, n - 1, d, path, res) IN Blk(h.b \o t.b, t.sc, t.ret)

Sigs == <<[ps |-> <<"n">>, ts |-> <<"I">>], [ps |-> <<"n", "k">>, ts |-> <<"I", "I">>], [ps |-> <<"xs">>, ts |-> <<"L">>],
          [ps |-> <<"xs", "n">>, ts |-> <<"L", "I">>], [ps |-> <<"s", "n">>, ts |-> <<"S", "I">>], [ps |-> <<"k", "n">>, ts |-> <<"I", "I">>]>>
ScOf(g, q) == SelectSeq(g.ps, LAMBDA x : \E i \in DOMAIN g.ps : g.ps[i] = x /\ g.ts[i] = q)
PyFn(s, nm, path) ==
  LET g == Of(s, 81, Sigs)
      sc0 == [I |-> ScOf(g, "I"), L |-> ScOf(g, "L"), S |-> ScOf(g, "S")]
      res == IF sc0["L"] # <<>> /\ R(s, 82, 2) = 0 THEN "L" ELSE IF sc0["S"] # <<>> /\ R(s, 82, 2) = 0 THEN "S" ELSE "I"
      b0 == Stmts(H(s, 83), IF Has(sc0, "I") THEN sc0 ELSE Plus(sc0, "I", "i"), 2 + R(s, 84, 3), 0, path, res)
      b == IF Has(sc0, "I") THEN b0 ELSE [b0 EXCEPT !.b = << <<"assign", "i", K(R(s, 86, 3))>> >> \o @]
  IN [name |-> nm, ps |-> g.ps, ts |-> g.ts, res |-> res, types |-> b.sc,
      body |-> IF b.ret THEN b.b ELSE Append(b.b, <<"return", RetE(H(s, 85), b.sc, res)>>)]

(* what the C compiler makes of the variables: a parameter is copied into a     *)
(* local "p.addr" (vectors, which are passed by reference, stay), the vector    *)
(* returned is "agg.result", locals exist from the start                       *)
RECURSIVE RenE(_, _), RenB(_, _)
To1(m, x) == IF x \in DOMAIN m THEN m[x] ELSE x
RenE(e, m) == IF e[1] = "var" THEN V(To1(m, e[2])) ELSE <<e[1], e[2], [i \in DOMAIN e[3] |-> RenE(e[3][i], m)]>>
RenS(t, m) == CASE t[1] \in {"assign", "append", "sadd", "sremove"} -> <<t[1], To1(m, t[2]), RenE(t[3], m)>>
                [] t[1] = "if" -> <<"if", RenE(t[2], m), RenB(t[3], m), RenB(t[4], m)>>
                [] t[1] \in {"while", "do"} -> <<t[1], t[2], RenE(t[3], m), RenB(t[4], m)>>
                [] t[1] = "for" -> <<t[1], t[2], RenE(t[3], m), RenB(t[4], m), RenB(t[5], m)>>
                [] t[1] = "return" -> <<"return", RenE(t[2], m)>>
                [] OTHER -> t
RenB(S, m) == [i \in DOMAIN S |-> RenS(S[i], m)]
CFn(s, nm, path) ==
  LET vec == Lang = "cv"
      g == Of(s, 81, Sigs)
      sc0 == [I |-> ScOf(g, "I"), L |-> ScOf(g, "L") \o (IF vec THEN <<"ys">> ELSE <<>>), S |-> ScOf(g, "S"), B |-> <<>>]
      res == IF sc0["L"] # <<>> /\ R(s, 82, 2) = 0 THEN "L" ELSE IF sc0["S"] # <<>> /\ R(s, 82, 2) = 0 THEN "S" ELSE "I"
      b == Stmts(H(s, 83), IF Has(sc0, "I") THEN sc0 ELSE Plus(sc0, "I", "i"), 2 + R(s, 84, 3), 0, path, IF vec THEN "V" ELSE res)
      last == IF b.ret THEN <<>> ELSE << <<"return", IF vec /\ res = "L" THEN V("ys") ELSE RetE(H(s, 85), b.sc, res)>> >>
      ren == [x \in {y \in ToSet(g.ps) : ~(vec /\ y \in ToSet(sc0["L"]))} \cup (IF vec /\ res = "L" THEN {"ys"} ELSE {}) |->
               IF x = "ys" THEN "agg.result" ELSE x \o ".addr"]
      params == SetToSeq(ToSet(g.ps) \cap DOMAIN ren)
      locals(t) == SelectSeq(b.sc[t], LAMBDA x : x \notin ToSet(g.ps))
      decl(t, e) == [j \in DOMAIN locals(t) |-> <<"assign", To1(ren, locals(t)[j]), e>>]
      seen(t) == [j \in DOMAIN b.sc[t] |-> To1(ren, b.sc[t][j])] \o SelectSeq(ScOf(g, t), LAMBDA x : x \in DOMAIN ren)
  IN [name |-> nm, ps |-> g.ps, ts |-> g.ts, res |-> res, types |-> [I |-> seen("I"), L |-> seen("L"), S |-> seen("S")],
      ndecl |-> Len(params) + Len(locals("I")) + Len(locals("L")),
      locals |-> [I |-> locals("I"), L |-> locals("L")],
      body |-> [j \in DOMAIN params |-> <<"assign", ren[params[j]], V(params[j])>>] \o decl("I", K(0)) \o decl("L", Nd("lempty", <<>>))
               \o RenB(b.b \o last, ren)]
Fn(s, nm, path) == IF Lang = "py" THEN PyFn(s, nm, path) ELSE CFn(s, nm, path)

(* bound on what is enumerated *)
RECURSIVE Havocs(_)
Havocs(S) == LET h(s) == CASE s[1] \in LoopKinds -> Cardinality(WritesOf(s)) + Havocs(s[4])
                            [] s[1] = "if" -> Havocs(s[3]) + Havocs(s[4]) [] OTHER -> 0
             IN FoldLeft(LAMBDA a, x : a + h(x), 0, S)
RECURSIVE Size(_)
Size(S) == FoldLeft(LAMBDA a, x : a + (CASE x[1] \in LoopKinds -> 1 + Size(x[4]) [] x[1] = "if" -> 1 + Size(x[3]) + Size(x[4]) [] OTHER -> 1), 0, S)

(* scenarios *)
Arg(s, k, i, t) == t \o ToString(k) \o ToString(i)
Program(s) ==
  LET f == Fn(H(s, 91), "f" \o ToString(s), 1)
      g == Fn(H(s, 92), "h" \o ToString(s), 2)
      kind == R(s, 93, 10)
      own(q) == [i \in DOMAIN q.ps |-> <<q.ps[i], q.ts[i]>>]
      other(q, k) == [i \in DOMAIN q.ps |-> <<"v" \o ToString(k) \o ToString(i), q.ts[i]>>]
      nm(q) == [i \in DOMAIN q |-> q[i][1]]
      callOf(q, args, r) == [fn |-> q.name, args |-> args, res |-> r]
      (* the second call takes the first one's result where it fits *)
      fed(q, vs, t) == [i \in DOMAIN q.ps |-> IF q.ts[i] = t THEN "R1" ELSE vs[i][1]]
      pre(vs) == LET sc == [I |-> nm(SelectSeq(vs, LAMBDA x : x[2] = "I")), L |-> nm(SelectSeq(vs, LAMBDA x : x[2] = "L")), S |-> <<>>] IN
                 IF R(s, 94, 3) = 0 /\ Has(sc, "I") THEN BoolE(H(s, 95), sc, 1) ELSE <<"none", "", <<>>>>
      one(vs) == [seq |-> TRUE, fns |-> <<f>>, vars |-> vs, calls |-> <<callOf(f, nm(vs), "R1")>>, pre |-> pre(vs)]
      needed(q, vs, t) == SelectSeq(vs, LAMBDA x : x[2] # t)
      both == own(f) \o SelectSeq(own(g), LAMBDA x : x[1] \notin ToSet(f.ps))
  IN CASE Lang # "py" /\ kind <= 6 -> one(own(f))
       [] Lang # "py" -> [seq |-> FALSE, fns |-> <<f, g>>, vars |-> both, calls |-> <<callOf(f, f.ps, "R1"), callOf(g, g.ps, "R2")>>, pre |-> pre(both)]
       [] kind <= 4 -> one(own(f))
       [] kind \in {5, 6} -> one(other(f, 1))
       [] kind \in {7, 8} -> LET vs == own(f)  ws == other(g, 2) IN
            [seq |-> TRUE, fns |-> <<f, g>>, vars |-> vs \o needed(g, ws, f.res), calls |-> <<callOf(f, nm(vs), "R1"), callOf(g, fed(g, ws, f.res), "R2")>>, pre |-> pre(vs)]
       [] kind = 9 -> LET vs == own(f)  ws == other(f, 2) IN
            [seq |-> TRUE, fns |-> <<f>>, vars |-> vs \o needed(f, ws, f.res), calls |-> <<callOf(f, nm(vs), "R1"), callOf(f, fed(f, ws, f.res), "R2")>>, pre |-> pre(vs)]
Load(p) == Len(p.vars) + FoldLeft(LAMBDA a, f : a + Havocs(f.body), 0, p.fns) + Len(p.calls) - 1
Fits(p) == Load(p) <= MaxVars /\ \A f \in ToSet(p.fns) : Size(f.body) <= 9 + (IF Lang = "py" THEN 0 ELSE f.ndecl)

VARIABLE s
Init == s \in From..To
Next == FALSE /\ UNCHANGED s
Spec == Init /\ [][Next]_s
(* fewer of the programs without loops *)
Keep(p) == (\E f \in ToSet(p.fns) : Loops(f.body) # {}) \/ R(s, 48, 4) = 0
Emit == LET p == Program(s) IN Fits(p) /\ Keep(p) => PrintT("PROG " \o ToJson([seed |-> s] @@ p))
=============================================================================
