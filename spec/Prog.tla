-------------------------------- MODULE Prog --------------------------------
(* Imperative source programs and what a verification condition for them     *)
(* must say (P01, P02).                                                      *)
(*                                                                           *)
(* A program is a list of functions [name, ps (names), ts (types), res,      *)
(* body] and a scenario: declared variables, calls of functions and a         *)
(* precondition.  Statements:                                                *)
(*   <<"assign", v, e>>  <<"append", v, e>>  <<"sadd", v, e>>  <<"sremove", v, e>> *)
(*   <<"if", c, S1, S2>>  <<"while", id, c, S>>  <<"return", e>>               *)
(* and for C  <<"for", id, c, S, I>> (I: what ends each round),                *)
(*   <<"do", id, c, S>>  <<"break">>  <<"cont">>                               *)
(* Expressions are nodes <<kind, payload, args>> as in MLSem.                *)
(*                                                                           *)
(* The meaning is the cut-point machine: execution is cut at every loop head. *)
(* Reaching a loop head, ending a loop body, and returning give rise to an    *)
(* obligation (B, h): whenever the predicate facts B assumed so far on this    *)
(* path hold, fact h holds.  At a loop head the variables the loop writes     *)
(* take arbitrary values satisfying the invariant.                           *)
(* A condition is right iff, for every meaning of the predicates, it is valid *)
(* exactly when all obligations hold.                                        *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

----------------------------------------------------------------------------
(* Values here are plain: integers, Booleans, sequences, sets.  Every          *)
(* operation is total; outside its domain it gives some fixed value, as the    *)
(* obligations and the condition must agree under every such completion.      *)
Get(l, i) == IF 0 <= i /\ i < Len(l) THEN l[i + 1] ELSE 3
DivT(a, b) == IF b = 0 THEN 1 ELSE IF b > 0 THEN a \div b ELSE (-a) \div (-b)
ModT(a, b) == IF b = 0 THEN a ELSE IF b > 0 THEN a % b ELSE a % (-b)
(* the uninterpreted function of the source programs *)
Unint(as) == (3 * as[1] + 1) % 4
Clip(n) == IF n > 100000000 \/ n < -100000000 THEN 7 ELSE n

RECURSIVE Ev(_, _), EvAll(_, _, _)
EvAll(es, env, acc) == IF Len(acc) = Len(es) THEN acc ELSE EvAll(es, env, Append(acc, Ev(es[Len(acc) + 1], env)))
RECURSIVE SumS(_), ProdS(_)
SumS(s) == IF s = <<>> THEN 0 ELSE Clip(Head(s) + SumS(Tail(s)))
ProdS(s) == IF s = <<>> THEN 1 ELSE LET q == ProdS(Tail(s)) IN IF Head(s) > 10000 \/ Head(s) < -10000 \/ q > 10000 \/ q < -10000 THEN 7 ELSE Head(s) * q
Ev(e, env) ==
  CASE e[1] = "var" -> env[e[2]]
    [] e[1] = "int" -> e[2]
    [] e[1] = "bool" -> e[2]
    [] e[1] = "ite" -> IF Ev(e[3][1], env) THEN Ev(e[3][2], env) ELSE Ev(e[3][3], env)
    [] e[1] = "and" -> \A i \in DOMAIN e[3] : Ev(e[3][i], env)
    [] e[1] = "or" -> \E i \in DOMAIN e[3] : Ev(e[3][i], env)
    [] e[1] = "chain" -> \A i \in DOMAIN e[2] :
         LET a == Ev(e[3][i], env)  b == Ev(e[3][i + 1], env) IN
           (CASE e[2][i] = "lt" -> a < b [] e[2][i] = "le" -> a <= b [] e[2][i] = "gt" -> a > b [] e[2][i] = "ge" -> a >= b [] e[2][i] = "eq" -> a = b)
    [] OTHER ->
       LET as == EvAll(e[3], env, <<>>) IN
       CASE e[1] = "add" -> SumS(as)
         [] e[1] = "mul" -> ProdS(as)
         [] e[1] = "sub" -> Clip(as[1] - as[2])
         [] e[1] = "neg" -> 0 - as[1]
         [] e[1] = "div" -> DivT(as[1], as[2])
         [] e[1] = "mod" -> ModT(as[1], as[2])
         [] e[1] = "lt" -> as[1] < as[2]
         [] e[1] = "le" -> as[1] <= as[2]
         [] e[1] = "gt" -> as[1] > as[2]
         [] e[1] = "ge" -> as[1] >= as[2]
         [] e[1] = "eq" -> as[1] = as[2]
         [] e[1] = "not" -> ~as[1]
         [] e[1] = "implies" -> as[1] => as[2]
         [] e[1] = "llen" -> Len(as[1])
         [] e[1] = "lget" -> Get(as[1], as[2])
         [] e[1] = "lempty" -> <<>>
         [] e[1] = "lappend" -> Append(as[1], as[2])
         [] e[1] = "lprepend" -> <<as[1]>> \o as[2]
         [] e[1] = "lconcat" -> as[1] \o as[2]
         [] e[1] = "sempty" -> {}
         [] e[1] = "ssingleton" -> {as[1]}
         [] e[1] = "sunion" -> as[1] \cup as[2]
         [] e[1] = "sminus" -> as[1] \ as[2]
         [] e[1] = "sinsert" -> as[2] \cup {as[1]}
         [] e[1] = "sremove" -> as[1] \ {as[2]}
         [] e[1] = "smember" -> as[1] \in as[2]
         [] e[1] = "tuple" -> as
         [] e[1] = "tget" -> as[1][e[2] + 1]
         [] e[1] = "call" /\ e[2] = "g" -> Unint(as)

----------------------------------------------------------------------------
(* the domain the quantified values range over *)
CONSTANTS IntDom, ListDom, SetDom
IntDom3 == {0, 1, 2}
ListDom3 == {<<>>, <<1>>, <<2, 0>>}
SetDom3 == {{}, {1}, {0, 2}}
IntDom4 == {-1, 0, 1, 2}
ListDom4 == {<<>>, <<1>>, <<2, 0>>, <<0, 0>>}
SetDom4 == {{}, {1}, {0, 2}, {0, 1, 2}}
Dom(t) == CASE t = "I" -> IntDom [] t = "L" -> ListDom [] t = "S" -> SetDom [] t = "B" -> BOOLEAN

RECURSIVE Vals(_)       \* all valuations of a sequence of <<name, type>>
Vals(vs) == IF vs = <<>> THEN {<<>>}
            ELSE LET rest == Vals(Tail(vs)) IN {(Head(vs)[1] :> x) @@ f : x \in Dom(Head(vs)[2]), f \in rest}

----------------------------------------------------------------------------
LoopKinds == {"while", "for", "do"}
(* variables a statement list writes *)
RECURSIVE Writes(_)
WritesOf(s) == CASE s[1] \in {"assign", "append", "sadd", "sremove"} -> {s[2]}
                 [] s[1] = "if" -> Writes(s[3]) \cup Writes(s[4])
                 [] s[1] \in {"while", "do"} -> Writes(s[4])
                 [] s[1] = "for" -> Writes(s[4]) \cup Writes(s[5])
                 [] OTHER -> {}
Writes(S) == UNION {WritesOf(S[i]) : i \in DOMAIN S}
LoopWrites(l) == WritesOf(l)

(* of these, the ones written on a way that comes round to the loop head       *)
(* again; f, b, k: whether falling off the end, break and continue do          *)
RECURSIVE Leads(_, _, _, _), RoundWritesIn(_, _, _, _)
Leads(S, f, b, k) ==
  IF S = <<>> THEN f
  ELSE LET s == Head(S)  t == Leads(Tail(S), f, b, k) IN
  CASE s[1] = "return" -> FALSE
    [] s[1] = "break" -> b
    [] s[1] = "cont" -> k
    [] s[1] = "if" -> Leads(s[3], t, b, k) \/ Leads(s[4], t, b, k)
    [] s[1] = "do" -> Leads(s[4], t, t, t)
    [] s[1] \in {"while", "for"} /\ s[3][1] = "bool" -> Leads(s[4], FALSE, t, FALSE)
    [] OTHER -> t
RoundWritesIn(S, f, b, k) ==
  IF S = <<>> THEN {}
  ELSE LET s == Head(S)  t == Leads(Tail(S), f, b, k)  all == Leads(S, f, b, k) IN
       (CASE s[1] \in {"assign", "append", "sadd", "sremove"} -> IF t THEN {s[2]} ELSE {}
          [] s[1] = "if" -> RoundWritesIn(s[3], t, b, k) \cup RoundWritesIn(s[4], t, b, k)
          [] s[1] \in LoopKinds -> RoundWritesIn(s[4], all, t, all) \cup (IF s[1] = "for" /\ all THEN Writes(s[5]) ELSE {})
          [] OTHER -> {}) \cup RoundWritesIn(Tail(S), f, b, k)
RoundWrites(l) == RoundWritesIn(l[4], TRUE, FALSE, TRUE) \cup (IF l[1] = "for" THEN Writes(l[5]) ELSE {})
(* a front end that works on the control-flow graph sees only these *)
Modified(cx, l) == IF cx.graph THEN RoundWrites(l) ELSE WritesOf(l)

RECURSIVE VarsOf(_)
VarsOf(e) == IF e[1] = "var" THEN {e[2]} ELSE UNION {VarsOf(e[3][i]) : i \in DOMAIN e[3]}
RECURSIVE Reads(_)       \* in expressions
ReadsOf(s) == CASE s[1] \in {"assign", "append", "sadd", "sremove"} -> VarsOf(s[3])
                [] s[1] = "if" -> VarsOf(s[2]) \cup Reads(s[3]) \cup Reads(s[4])
                [] s[1] \in {"while", "do"} -> VarsOf(s[3]) \cup Reads(s[4])
                [] s[1] = "for" -> VarsOf(s[3]) \cup Reads(s[4]) \cup Reads(s[5])
                [] s[1] = "return" -> VarsOf(s[2])
                [] OTHER -> {}
Reads(S) == UNION {ReadsOf(S[i]) : i \in DOMAIN S}
RECURSIVE Changed(_)     \* variables modified in place
ChangedOf(s) == CASE s[1] \in {"append", "sadd", "sremove"} -> {s[2]} [] s[1] = "if" -> Changed(s[3]) \cup Changed(s[4])
                  [] s[1] \in LoopKinds -> Changed(s[4]) [] OTHER -> {}
Changed(S) == UNION {ChangedOf(S[i]) : i \in DOMAIN S}
RECURSIVE Loops(_)
LoopsOf(s) == CASE s[1] = "if" -> Loops(s[3]) \cup Loops(s[4]) [] s[1] \in LoopKinds -> {s} \cup Loops(s[4]) [] OTHER -> {}
Loops(S) == UNION {LoopsOf(S[i]) : i \in DOMAIN S}

----------------------------------------------------------------------------
(* The machine.  A state is                                                   *)
(*   k: what remains (<<"s", statement>> or <<"end", loop id, exit condition of  *)
(*   a do loop or none, what follows the loop, what ends the round>>), B: facts *)
(*   assumed, fn: the function run, a0: its arguments, rest: remaining calls,  *)
(*   genv: the caller's variables                                            *)
(* cx: [ inv: loop id -> argument names of its predicate, types: function     *)
(*   name -> variable -> type, fns ]                                         *)
Items(S) == [i \in DOMAIN S |-> <<"s", S[i]>>]
InvAtom(cx, id, env) == <<"inv" \o ToString(id), [i \in DOMAIN cx.inv[id] |-> env[cx.inv[id][i]]]>>
Ob(st, h) == <<st.B, h>>
Go(nxt) == [ob |-> {}, nxt |-> nxt]

(* the rest of the round of the innermost loop *)
RECURSIVE InnerEnd(_)
InnerEnd(k) == IF k[1][1] = "end" THEN k ELSE InnerEnd(Tail(k))

(* start of call number st.c of the scenario: p.seq says that later calls may   *)
(* use what earlier ones returned                                            *)
Enter(cx, p, st) ==
  IF st.c > Len(p.calls) THEN Go({})
  ELSE LET cl == p.calls[st.c]  f == CHOOSE g \in ToSet(p.fns) : g.name = cl.fn
           as == [i \in DOMAIN cl.args |-> st.genv[cl.args[i]]]
           env == [n \in ToSet(f.ps) |-> as[CHOOSE i \in DOMAIN f.ps : f.ps[i] = n]]
           after(r) == [c |-> st.c + 1, genv |-> (cl.res :> r) @@ st.genv, k |-> <<>>, env |-> <<>>, a0 |-> <<>>, fn |-> "",
                        B |-> st.B \cup {<<"ps:" \o f.name, Append(as, r)>>}]
           apart == [st EXCEPT !.c = @ + 1, !.k = <<>>, !.env = <<>>, !.a0 = <<>>, !.fn = ""]
       IN Go({[st EXCEPT !.k = Items(f.body), !.env = env, !.a0 = as, !.fn = f.name]}
             \cup (IF st.c = Len(p.calls) THEN {} ELSE IF ~p.seq THEN {apart} ELSE {after(r) : r \in Dom(f.res)}))

Step(cx, p, st) ==
  IF st.fn = "" THEN Enter(cx, p, st)
  ELSE IF st.k = <<>> THEN Go({})
  ELSE LET it == Head(st.k)  k == Tail(st.k) IN
  IF it[1] = "end" THEN
    IF it[5] # <<>> THEN Go({[st EXCEPT !.k = Items(it[5]) \o << <<"end", it[2], it[3], it[4], <<>> >> >>]})
    ELSE IF it[3][1] # "none" /\ ~Ev(it[3], st.env) THEN Go({[st EXCEPT !.k = it[4]]})
    ELSE [ob |-> {Ob(st, InvAtom(cx, it[2], st.env))}, nxt |-> {}]
  ELSE LET s == it[2] IN
  CASE s[1] = "assign" -> Go({[st EXCEPT !.k = k, !.env = (s[2] :> Ev(s[3], st.env)) @@ st.env]})
    [] s[1] = "append" -> Go({[st EXCEPT !.k = k, !.env = [st.env EXCEPT ![s[2]] = Append(@, Ev(s[3], st.env))]]})
    [] s[1] = "sadd" -> Go({[st EXCEPT !.k = k, !.env = [st.env EXCEPT ![s[2]] = @ \cup {Ev(s[3], st.env)}]]})
    [] s[1] = "sremove" -> Go({[st EXCEPT !.k = k, !.env = [st.env EXCEPT ![s[2]] = @ \ {Ev(s[3], st.env)}]]})
    [] s[1] = "if" -> Go({[st EXCEPT !.k = Items(IF Ev(s[2], st.env) THEN s[3] ELSE s[4]) \o k]})
    [] s[1] = "return" -> [ob |-> {Ob(st, <<"ps:" \o st.fn, Append(st.a0, Ev(s[2], st.env))>>)}, nxt |-> {}]
    [] s[1] = "break" -> Go({[st EXCEPT !.k = InnerEnd(k)[1][4]]})
    [] s[1] = "cont" -> Go({[st EXCEPT !.k = InnerEnd(k)]})
    [] s[1] \in LoopKinds ->
         LET ws == SetToSeq(Modified(cx, s))
             hs == Vals([i \in DOMAIN ws |-> <<ws[i], cx.types[st.fn][ws[i]]>>])
             there(h) == LET env == h @@ st.env IN [st EXCEPT !.env = env, !.B = @ \cup {InvAtom(cx, s[2], env)}]
             round == Items(s[4]) \o << <<"end", s[2], IF s[1] = "do" THEN s[3] ELSE <<"none", "", <<>> >>, k, IF s[1] = "for" THEN s[5] ELSE <<>> >> >>
         IN [ob |-> {Ob(st, InvAtom(cx, s[2], st.env))},
             nxt |-> {LET t == there(h) IN
                        IF s[1] = "do" \/ Ev(s[3], t.env) THEN [t EXCEPT !.k = round] ELSE [t EXCEPT !.k = k] : h \in hs}]

Starts(p) == {[c |-> 1, genv |-> v, k |-> <<>>, env |-> <<>>, a0 |-> <<>>, fn |-> "", B |-> {}] :
              v \in {w \in Vals(p.vars) : p.pre[1] = "none" \/ Ev(p.pre, w)}}

RECURSIVE ObligationsFrom(_, _, _)
ObligationsFrom(cx, p, st) == LET d == Step(cx, p, st) IN d.ob \cup UNION {ObligationsFrom(cx, p, t) : t \in d.nxt}
Obligations(cx, p) == {o \in UNION {ObligationsFrom(cx, p, st) : st \in Starts(p)} : o[2] \notin o[1]}

----------------------------------------------------------------------------
(* a condition as a set of residual formulas over predicate facts *)
RECURSIVE HasAtom(_)
HasAtom(e) == (e[1] = "call" /\ e[2] # "g") \/ \E i \in DOMAIN e[3] : HasAtom(e[3][i])
Cst(b) == <<"c", b>>
NotR(r) == IF r[1] = "c" THEN Cst(~r[2]) ELSE <<"n", r>>
RAnd(rs) == IF Cst(FALSE) \in rs THEN Cst(FALSE) ELSE LET q == rs \ {Cst(TRUE)} IN IF q = {} THEN Cst(TRUE) ELSE IF Cardinality(q) = 1 THEN CHOOSE r \in q : TRUE ELSE <<"and", q>>
ROr(rs) == IF Cst(TRUE) \in rs THEN Cst(TRUE) ELSE LET q == rs \ {Cst(FALSE)} IN IF q = {} THEN Cst(FALSE) ELSE IF Cardinality(q) = 1 THEN CHOOSE r \in q : TRUE ELSE <<"or", q>>
(* a value that depends on which facts hold is a set of guarded values *)
RECURSIVE Res(_, _), GV(_, _), GVs(_, _, _)
GVs(es, env, i) == IF i > Len(es) THEN {<<Cst(TRUE), <<>> >>}
                   ELSE LET rest == GVs(es, env, i + 1) IN {<<RAnd({g[1], r[1]}), <<g[2]>> \o r[2]>> : g \in GV(es[i], env), r \in rest}
Slot(i) == "#" \o ToString(i)
GV(e, env) ==
  IF ~HasAtom(e) THEN {<<Cst(TRUE), Ev(e, env)>>}
  ELSE {g \in
     (CASE e[1] = "ite" -> LET c == Res(e[3][1], env) IN
            {<<RAnd({c, g[1]}), g[2]>> : g \in GV(e[3][2], env)} \cup {<<RAnd({NotR(c), g[1]}), g[2]>> : g \in GV(e[3][3], env)}
       [] OTHER -> {<<g[1], Ev(<<e[1], e[2], [i \in DOMAIN e[3] |-> <<"var", Slot(i), <<>> >>]>>, [n \in {Slot(i) : i \in DOMAIN e[3]} |-> g[2][CHOOSE i \in DOMAIN e[3] : Slot(i) = n]])>>
                     : g \in GVs(e[3], env, 1)}) : g[1] # Cst(FALSE)}
Res(e, env) ==
  IF ~HasAtom(e) THEN Cst(Ev(e, env))
  ELSE CASE e[1] = "call" /\ e[2] # "g" -> ROr({RAnd({g[1], <<"a", <<e[2], g[2]>> >>}) : g \in GVs(e[3], env, 1)})
         [] e[1] = "not" -> NotR(Res(e[3][1], env))
         [] e[1] = "and" -> LET c == {i \in DOMAIN e[3] : ~HasAtom(e[3][i])} IN
              IF \E i \in c : ~Ev(e[3][i], env) THEN Cst(FALSE) ELSE RAnd({Res(e[3][i], env) : i \in (DOMAIN e[3]) \ c})
         [] e[1] = "or" -> ROr({Res(e[3][i], env) : i \in DOMAIN e[3]})
         [] e[1] = "implies" -> LET l == Res(e[3][1], env) IN IF l = Cst(FALSE) THEN Cst(TRUE) ELSE ROr({NotR(l), Res(e[3][2], env)})
         [] e[1] = "ite" -> LET c == Res(e[3][1], env) IN
              ROr({RAnd({c, Res(e[3][2], env)}), RAnd({NotR(c), Res(e[3][3], env)})})
         [] OTHER -> ROr({RAnd({g[1], Cst(g[2])}) : g \in GV(e, env)})
RECURSIVE Holds(_, _)
Holds(r, pi) == CASE r[1] = "c" -> r[2] [] r[1] = "a" -> r[2] \in pi [] r[1] = "n" -> ~Holds(r[2], pi)
                  [] r[1] = "and" -> \A q \in r[2] : Holds(q, pi) [] r[1] = "or" -> \E q \in r[2] : Holds(q, pi)

RECURSIVE FreeVars(_)
FreeVars(e) == IF e[1] = "var" THEN {e[2]} ELSE UNION {FreeVars(e[3][i]) : i \in DOMAIN e[3]}
(* ty: variable -> type *)
Residuals(e, ty) ==
  LET vs == SetToSeq(FreeVars(e)) IN
  {Res(e, v) : v \in Vals([i \in DOMAIN vs |-> <<vs[i], ty[vs[i]]>>])} \ {Cst(TRUE)}
(* the top-level conjuncts, each over its own variables *)
RECURSIVE Conjuncts(_)
Conjuncts(e) == IF e[1] = "and" THEN UNION {Conjuncts(e[3][i]) : i \in DOMAIN e[3]} ELSE {e}

----------------------------------------------------------------------------
(* Meanings of the predicates the two sides are compared under.  A meaning    *)
(* is the set of facts that hold.                                            *)
RECURSIVE Close(_, _)
Close(obs, pi) == LET new == {o[2] : o \in {q \in obs : q[1] \subseteq pi}} IN IF new \subseteq pi THEN pi ELSE Close(obs, pi \cup new)
Ok(obs, pi) == \A o \in obs : o[1] \subseteq pi => o[2] \in pi
Valid(rs, pi) == \A r \in rs : Holds(r, pi)
=============================================================================
