-------------------------------- MODULE Cfg ---------------------------------
(* Functions as control-flow graphs in static single assignment form, as in    *)
(* LLVM: what they do, and when they are well formed.                          *)
(*   function: [ps: names, blocks: sequence]                                   *)
(*   block: [name, phis: <<x, << <<value, predecessor>>, ..>> >>,               *)
(*           ins: <<x, operation, values>>, term]                              *)
(*   value: <<"c", n>> or <<"v", name>>; truth values are 0 and 1              *)
(*   term: <<"br", l>>, <<"cbr", v, l, m>>, <<"ret", v>>,                      *)
(*         <<"switch", v, l, << <<n, m>>, .. >> >>                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

(* ---- edges ---- *)
Targets(t) == CASE t[1] = "br" -> <<t[2]>> [] t[1] = "cbr" -> <<t[3], t[4]>>
                [] t[1] = "switch" -> <<t[3]>> \o [i \in DOMAIN t[4] |-> t[4][i][2]] [] OTHER -> <<>>
Names(f) == {f.blocks[i].name : i \in DOMAIN f.blocks}
Block(f, n) == f.blocks[CHOOSE i \in DOMAIN f.blocks : f.blocks[i].name = n]
Count(q, x) == Cardinality({i \in DOMAIN q : q[i] = x})
(* how many edges lead from a to b *)
Edges(f, a, b) == Count(Targets(Block(f, a).term), b)

(* ---- being well formed ---- *)
DefsOf(b) == [i \in DOMAIN b.phis |-> b.phis[i][1]] \o SelectSeq([i \in DOMAIN b.ins |-> b.ins[i][1]], LAMBDA x : x # "")
Ill(f) ==
  LET ns == Names(f)
      defs == FoldLeft(LAMBDA a, b : a \o DefsOf(b), f.ps, f.blocks)
      badPhi(b) == \E i \in DOMAIN b.phis : LET es == b.phis[i][2] IN
        \E p \in ns \cup {es[j][2] : j \in DOMAIN es} :
          \/ p \notin ns
          \/ Cardinality({j \in DOMAIN es : es[j][2] = p}) # Edges(f, p, b.name)
          \/ \E j, k \in DOMAIN es : es[j][2] = p /\ es[k][2] = p /\ es[j][1] # es[k][1]
  IN CASE Cardinality(ns) # Len(f.blocks) -> "two blocks share a name"
       [] \E i \in DOMAIN f.blocks : ToSet(Targets(f.blocks[i].term)) \ ns # {} -> "a branch leads to a block that does not exist"
       [] Cardinality(ToSet(defs)) # Len(defs) -> "a value is defined twice"
       [] \E i \in DOMAIN f.blocks : Edges(f, f.blocks[i].name, f.blocks[1].name) # 0 -> "an edge leads to the entry"
       [] \E i \in DOMAIN f.blocks : badPhi(f.blocks[i]) -> "a value merge does not have one entry for every incoming edge"
       [] \E i \in DOMAIN f.blocks : f.blocks[i].term[1] \notin {"br", "cbr", "ret", "switch", "unreachable"} -> "a block does not end in a known terminator"
       [] OTHER -> ""

(* every edge of a conditional branch passes through an empty block of its own *)
Unsplit(f) ==
  LET own(l) == LET b == Block(f, l) IN
        /\ b.phis = <<>> /\ b.ins = <<>> /\ b.term[1] = "br"
        /\ Cardinality({i \in DOMAIN f.blocks : Count(Targets(f.blocks[i].term), l) > 0}) = 1
  IN {f.blocks[i].name : i \in {j \in DOMAIN f.blocks : LET t == f.blocks[j].term IN
        t[1] = "cbr" /\ (t[3] = t[4] \/ ~own(t[3]) \/ ~own(t[4]))}}

(* ---- running ---- *)
Trunc(a, b) == LET n == IF a < 0 THEN -a ELSE a  m == IF b < 0 THEN -b ELSE b IN IF (a < 0) = (b < 0) THEN n \div m ELSE -(n \div m)
B2(c) == IF c THEN 1 ELSE 0
Val(v, env) == IF v[1] = "c" THEN v[2] ELSE IF v[2] \in DOMAIN env THEN env[v[2]] ELSE -999
Apply(op, a) ==
  CASE op = "add" -> a[1] + a[2] [] op = "sub" -> a[1] - a[2] [] op = "srem" -> (IF a[2] = 0 THEN -998 ELSE a[1] - a[2] * Trunc(a[1], a[2]))
    [] op = "eq" -> B2(a[1] = a[2]) [] op = "ne" -> B2(a[1] # a[2]) [] op = "slt" -> B2(a[1] < a[2]) [] op = "sle" -> B2(a[1] <= a[2])
    [] op = "sgt" -> B2(a[1] > a[2]) [] op = "sge" -> B2(a[1] >= a[2])
    [] op = "select" -> (IF a[1] = 1 THEN a[2] ELSE a[3])
    [] OTHER -> -997
(* state: [env, mem: cell -> value, out: values observed] *)
RECURSIVE Ins(_, _)
Ins(q, st) ==
  IF q = <<>> THEN st
  ELSE LET x == q[1][1]  op == q[1][2]  as == [i \in DOMAIN q[1][3] |-> Val(q[1][3][i], st.env)]
           cell(i) == q[1][3][i][2] IN
       Ins(Tail(q),
         CASE op = "alloca" -> [st EXCEPT !.mem = (x :> -996) @@ @]
           [] op = "store" -> [st EXCEPT !.mem = (cell(2) :> as[1]) @@ @]
           [] op = "load" -> [st EXCEPT !.env = (x :> (IF cell(1) \in DOMAIN st.mem THEN st.mem[cell(1)] ELSE -995)) @@ @]
           [] op = "obs" -> [st EXCEPT !.out = Append(@, as[1])]
           [] OTHER -> [st EXCEPT !.env = (x :> Apply(op, as)) @@ @])
Next1(t, env) == CASE t[1] = "br" -> t[2]
                   [] t[1] = "cbr" -> (IF Val(t[2], env) = 1 THEN t[3] ELSE t[4])
                   [] t[1] = "switch" -> (LET m == {i \in DOMAIN t[4] : t[4][i][1] = Val(t[2], env)} IN IF m = {} THEN t[3] ELSE t[4][Min(m)][2])
(* merges read the values their predecessor left, all at once *)
RECURSIVE Go(_, _, _, _, _)
Go(f, n, from, st, fuel) ==
  LET b == Block(f, n)
      src(p) == LET js == {j \in DOMAIN p[2] : p[2][j][2] = from} IN IF js = {} THEN -994 ELSE Val(p[2][Min(js)][1], st.env)
      env1 == [x \in {b.phis[i][1] : i \in DOMAIN b.phis} |-> src(b.phis[CHOOSE i \in DOMAIN b.phis : b.phis[i][1] = x])] @@ st.env
      st1 == Ins(b.ins, [st EXCEPT !.env = env1])
  IN IF fuel = 0 THEN [end |-> "out", out |-> st.out]
     ELSE IF b.term[1] = "ret" THEN [end |-> "ret", out |-> Append(st1.out, Val(b.term[2], st1.env))]
     ELSE IF b.term[1] = "unreachable" THEN [end |-> "trap", out |-> st1.out]
     ELSE Go(f, Next1(b.term, st1.env), n, st1, fuel - 1)
Run(f, as, fuel) == Go(f, f.blocks[1].name, "", [env |-> [x \in ToSet(f.ps) |-> as[CHOOSE i \in DOMAIN f.ps : f.ps[i] = x]], mem |-> <<>>, out |-> <<>>], fuel)

Prefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
(* the same behaviour, as far as it was followed *)
Same(r, q) == CASE r.end # "out" /\ q.end # "out" -> r = q
                [] r.end # "out" -> Prefix(q.out, r.out)
                [] q.end # "out" -> Prefix(r.out, q.out)
                [] OTHER -> Prefix(r.out, q.out) \/ Prefix(q.out, r.out)
=============================================================================
