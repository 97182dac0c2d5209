------------------------------- MODULE Driver --------------------------------
(* A front end's driver: functions are analysed and called, helpers and          *)
(* preconditions are added, the problem is handed to synthesis (which answers or *)
(* fails), and code is taken for functions.  A history is a sequence of steps;   *)
(* Step gives the next state and what has to be observed.                        *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC, Json, IOUtils

(* the functions: parameters, type of result, number of loops *)
Py == << [n |-> "f", ps |-> <<"p", "q">>, ret |-> "I", loops |-> 0], [n |-> "x", ps |-> <<"n">>, ret |-> "I", loops |-> 0],
         [n |-> "x_ps", ps |-> <<"n">>, ret |-> "I", loops |-> 1], [n |-> "mk", ps |-> <<"xs">>, ret |-> "L", loops |-> 1],
         [n |-> "x_inv0", ps |-> <<"q">>, ret |-> "I", loops |-> 1], [n |-> "st", ps |-> <<"n", "s">>, ret |-> "S", loops |-> 0],
         [n |-> "mk_inv0", ps |-> <<"p", "n">>, ret |-> "I", loops |-> 0] >>
C == << [n |-> "f", ps |-> <<"p", "q">>, ret |-> "I", loops |-> 0], [n |-> "x", ps |-> <<"n">>, ret |-> "I", loops |-> 0],
        [n |-> "x_ps", ps |-> <<"n">>, ret |-> "I", loops |-> 1], [n |-> "mk", ps |-> <<"xs">>, ret |-> "L", loops |-> 1],
        [n |-> "bp", ps |-> <<"n">>, ret |-> "B", loops |-> 0], [n |-> "mk_psl", ps |-> <<"xs">>, ret |-> "L", loops |-> 0],
        (* the LLVM front end orders arguments by name *)
        [n |-> "mk_inv0", ps |-> <<"n", "p">>, ret |-> "I", loops |-> 0] >>
Fn(lang, i) == IF lang = "py" THEN Py[i] ELSE C[i]
NumFns == 7
Helpers == <<"helper", "f_psum">>
Dsl == <<"d1", "d2", "d3">>

Empty == [fns |-> <<>>, called |-> <<>>, synths |-> <<>>, unint |-> <<>>, sol |-> <<>>]
Find(q, i) == CHOOSE j \in DOMAIN q : q[j].i = i

(* what the function computes, for the answer with marker m *)
V(n) == <<"var", n, <<>> >>
K(m) == <<"int", m, <<>> >>
Answer(f, m) ==
  CASE f.ret = "I" -> <<"add", "", <<V(f.ps[1]), K(m)>> >>
    [] f.ret = "L" -> <<"lappend", "", <<V(f.ps[1]), K(m)>> >>
    [] f.ret = "S" -> <<"sinsert", "", <<K(m), V(f.ps[2])>> >>
    [] f.ret = "B" -> <<"lt", "", <<V(f.ps[1]), K(m)>> >>
Mark(m, i) == m * 10 + i

(* step: <<"analyze", i, k, set of dsl functions as a sequence>>, <<"call", i>>, <<"helper", n>>, <<"unint", names>>,       *)
(*       <<"solve", relaxed, "ok" | "fail", m>>, <<"code", i>>, <<"decl">>                                                *)
Step(lang, d, s) ==
  CASE s[1] = "analyze" -> [d EXCEPT !.fns = Append(@, [i |-> s[2], k |-> s[3], dsl |-> s[4]])]
    [] s[1] = "call" -> IF s[2] \in ToSet(d.called) THEN d ELSE [d EXCEPT !.called = Append(@, s[2])]
    [] s[1] = "helper" -> [d EXCEPT !.synths = Append(@, s[2])]
    [] s[1] = "unint" -> [d EXCEPT !.unint = s[2]]
    [] s[1] = "solve" -> IF s[3] = "fail" THEN d
                         ELSE [d EXCEPT !.sol = [j \in DOMAIN d.called |-> [i |-> d.called[j], e |-> Answer(Fn(lang, d.called[j]), Mark(s[4], d.called[j]))]]]
    [] OTHER -> d
Solved(d) == {d.sol[j].i : j \in DOMAIN d.sol}
Enabled(lang, d, s) ==
  LET an == {d.fns[j].i : j \in DOMAIN d.fns} IN
  CASE s[1] = "analyze" -> s[2] \notin an
    [] s[1] = "call" -> s[2] \in an /\ (lang = "py" \/ s[2] \notin ToSet(d.called))
    [] s[1] = "helper" -> s[2] \notin ToSet(d.synths)
    [] s[1] = "unint" -> lang = "py"
    [] s[1] = "solve" -> d.called # <<>> /\ (s[2] => lang = "c")
    [] s[1] = "code" -> s[2] \in an
    [] s[1] = "decl" -> lang = "c" /\ (d.sol = <<>> \/ Len(d.called) = 1)
    [] OTHER -> TRUE

----------------------------------------------------------------------------
(* generation: seeded histories *)
Mix(y) == (y + (y \div 7) * 13 + (y % 127) * 331 + (y % 64) * 977) % 65521
H(s, k) == Mix((s * 30029 + k * 1117 + 12345) % 65521)
R(s, k, n) == (H(H(s, k), 5) \div 11) % n
Of(s, k, q) == q[1 + R(s, k, Len(q))]
Kinds == <<"analyze", "analyze", "call", "call", "call", "helper", "unint", "solve", "solve", "code", "code", "code", "decl">>
Cand(s, lang) ==
  LET k == Of(s, 1, Kinds) IN
  CASE k = "analyze" -> <<k, 1 + R(s, 2, NumFns), 8 * (100 + R(s, 3, 100)) + R(s, 2, NumFns), SelectSeq(Dsl, LAMBDA x : R(s, 10 + (CHOOSE j \in DOMAIN Dsl : Dsl[j] = x), 2) = 0)>>
    [] k \in {"call", "code"} -> <<k, 1 + R(s, 2, NumFns)>>
    [] k = "helper" -> <<k, Of(s, 2, Helpers)>>
    [] k = "unint" -> <<k, Of(s, 2, << <<"d1">>, <<>>, <<"d2", "d3">> >>)>>
    [] k = "solve" -> <<k, R(s, 2, 2) = 0 /\ lang = "c", Of(s, 3, <<"ok", "ok", "fail">>), 1 + R(s, 4, 90)>>
    [] OTHER -> <<k>>
RECURSIVE Walk(_, _, _, _, _)
Walk(s, lang, d, n, acc) ==
  IF n = 0 THEN acc
  ELSE LET c == Cand(H(s, n), lang) IN
       IF Enabled(lang, d, c) THEN Walk(s, lang, Step(lang, d, c), n - 1, Append(acc, c)) ELSE Walk(s, lang, d, n - 1, acc)
RECURSIVE Fold(_, _, _, _)
Fold(lang, d, h, i) == IF i > Len(h) THEN d ELSE Fold(lang, Step(lang, d, h[i]), h, i + 1)
(* at the end: code for every function *)
History(n, lang) == LET h == Walk(H(n, IF lang = "py" THEN 1 ELSE 2), lang, Empty, 34, <<>>)
                        d == Fold(lang, Empty, h, 1) IN
                    h \o [j \in DOMAIN d.fns |-> <<"code", d.fns[j].i>>]

----------------------------------------------------------------------------
(* judging: obs = what was observed at every step *)

RECURSIVE Same(_, _)
Same(a, b) == a[1] = b[1] /\ ToString(a[2]) = ToString(b[2]) /\ Len(a[3]) = Len(b[3]) /\ \A i \in DOMAIN a[3] : Same(a[3][i], b[3][i])
RECURSIVE VarsOf(_)
VarsOf(e) == (IF e[1] = "var" THEN {e[2]} ELSE {}) \cup UNION {VarsOf(e[3][i]) : i \in DOMAIN e[3]}
NoDup(q) == Cardinality(ToSet(q)) = Len(q)
(* the body of a grammar: mark(k, relaxed, written.., -1, read.., -2, in scope..) *)
MarkBody(k, relaxed, g) == <<"call", "mark", <<K(k), K(IF relaxed THEN 1 ELSE 0)>> \o [i \in DOMAIN g.w |-> V(g.w[i])] \o <<K(-1)>>
                             \o [i \in DOMAIN g.r |-> V(g.r[i])] \o <<K(-2)>> \o [i \in DOMAIN g.s |-> V(g.s[i])]>>
Problem(lang, d, s, o) ==
  LET an(i) == d.fns[Find(d.fns, i)]
      want == UNION {ToSet(d.fns[j].dsl) : j \in DOMAIN d.fns}
      preds == {Fn(lang, d.called[j]).n \o "_ps" : j \in DOMAIN d.called}
      isInv(x, i) == LET p == Fn(lang, i).n \o "_inv" IN Len(x) = Len(p) + 1 /\ SubSeq(x, 1, Len(p)) = p
      names == [j \in DOMAIN o.synths |-> o.synths[j].n]
      invs(i) == {x \in ToSet(names) : isInv(x, i)}
      known == preds \cup UNION {invs(d.called[j]) : j \in DOMAIN d.called}
      owner(x) == CHOOSE i \in ToSet(d.called) : x = Fn(lang, i).n \o "_ps" \/ isInv(x, i)
      bad(y) == LET i == owner(y.n)  f == Fn(lang, i)  ps == y.n = f.n \o "_ps"
                    k == 2 * an(i).k + (IF ps THEN 1 ELSE 0)  g == y.given IN
                IF ~Same(y.body, MarkBody(k, s[2], g)) THEN "the body of " \o y.n \o " is not what its grammar gave"
                ELSE IF ~NoDup(y.ps) \/ ~(VarsOf(y.body) \subseteq ToSet(y.ps)) THEN "the grammar of " \o y.n \o " was offered variables that are no parameters"
                ELSE IF ps /\ (SubSeq(y.ps, 1, Len(f.ps)) # f.ps \/ Len(y.ps) # Len(f.ps) + 1 \/ g.r # f.ps \/ g.w # <<y.ps[Len(y.ps)]>>)
                     THEN "the summary " \o y.n \o " is not over the arguments and the result"
                ELSE IF ~ps /\ lang = "c" /\ ((an(i).k \div 8) % 2 = 1) # (g.s # <<>>)
                     THEN "the grammar of " \o y.n \o " is not offered the variables it names"
                ELSE IF ~ps /\ lang = "c" /\ ~(ToSet(g.s) \subseteq {"n", "xs", "i", "out"} /\ (g.s = <<>> \/ ToSet(f.ps) \subseteq ToSet(g.s)))
                     THEN "the grammar of " \o y.n \o " is offered other variables than it names"
                ELSE IF ~ps /\ (ToSet(g.w) \cap ToSet(f.ps) # {} \/ g.w = <<>> \/ ~(ToSet(f.ps) \subseteq ToSet(g.r)))
                     THEN "the grammar of " \o y.n \o " is not offered what the loop writes and reads"
                ELSE ""
      bads == {bad(o.synths[j]) : j \in {x \in DOMAIN o.synths : o.synths[x].n \in known}} \ {""}
  IN CASE ToSet(o.target) # want -> "other target language functions than the ones given"
       [] ~NoDup(o.target) -> "a target language function is handed over twice"
       [] ~NoDup(names) \/ ToSet(names) # known \cup ToSet(d.synths) \/ ~(preds \subseteq ToSet(names)) -> "other functions to synthesise than summaries, invariants and helpers"
       [] \E j \in DOMAIN d.called : Cardinality(invs(d.called[j])) # Fn(lang, d.called[j]).loops -> "not one invariant for every loop"
       [] \E j \in DOMAIN o.synths : o.synths[j].n \in ToSet(d.synths) /\ ~Same(o.synths[j].body, <<"call", "helps", <<V("h1")>> >>) -> "the body of a helper changed"
       [] ToSet(o.info) # known \/ ~NoDup(o.info) -> "the declared predicates are other functions than summaries and invariants"
       [] ~(ToSet(o.guess) \subseteq known) -> "other functions are taken for guessed ones than summaries and invariants"
       [] lang = "py" /\ ToSet(o.unint) # ToSet(d.unint) -> "other uninterpreted functions than the ones given"
       [] \E f \in known : f \notin ToSet(o.vcpreds) -> "a summary or invariant that no condition mentions"
       [] bads # {} -> CHOOSE b \in bads : TRUE
       [] OTHER -> ""
At(lang, d, s, o) ==
  CASE s[1] \in {"analyze", "call", "helper", "unint"} -> IF o.err = "" THEN "" ELSE s[1] \o " fails: " \o o.err
    [] s[1] = "solve" ->
         IF ~o.asked THEN "synthesis is not asked: " \o o.err
         ELSE LET p == Problem(lang, d, s, o) IN
              IF p # "" THEN p
              ELSE IF s[3] = "fail" /\ o.err # "synthesis failed" THEN "a failure of synthesis is not reported: " \o o.err
              ELSE IF s[3] = "ok" /\ o.err # "" THEN "an answer is not accepted: " \o o.err ELSE ""
    [] s[1] = "code" ->
         IF s[2] \notin Solved(d) THEN (IF o.err = "" THEN "code is generated for a function without an answer" ELSE "")
         ELSE IF o.err # "" THEN "no code for an answered function: " \o o.err
         ELSE IF ~Same(o.e, d.sol[Find(d.sol, s[2])].e) THEN "code is generated for another expression than the function's answer"
         ELSE IF ~o.passed THEN "the result of the code generator is lost" ELSE ""
    [] s[1] = "decl" ->
         IF d.sol = <<>> THEN (IF o.err = "" THEN "a declaration without an answer" ELSE "")
         ELSE LET f == Fn(lang, d.sol[1].i) IN
              IF o.err # "" THEN "no declaration for the answered function: " \o o.err
              ELSE IF ~Same(o.e, d.sol[1].e) THEN "the declaration's body is not the function's answer"
              ELSE IF o.ps # f.ps \/ o.ret # f.ret THEN "the declaration's arguments or result are not the function's" ELSE ""
RECURSIVE Judge(_, _, _, _)
Judge(lang, d, c, i) ==
  IF i > Len(c.h) THEN "ok"
  ELSE LET v == At(lang, d, c.h[i], c.obs[i]) IN
       IF v # "" THEN "step " \o ToString(i) \o " (" \o ToString(c.h[i]) \o "): " \o v
       ELSE Judge(lang, Step(lang, d, c.h[i]), c, i + 1)

----------------------------------------------------------------------------
(* the machine itself, over all histories of two functions *)
VARIABLES d, last
Small(lang) == {<<"analyze", i, i, <<"d1">> >> : i \in 2..4} \cup {<<"call", i>> : i \in 2..4} \cup {<<"code", i>> : i \in 2..4}
               \cup {<<"solve", FALSE, r, m>> : r \in {"ok", "fail"}, m \in 1..2} \cup {<<"helper", "f_psum">>}
MInit == d = Empty /\ last = 0
MNext == \E s \in Small("py") : Enabled("py", d, s) /\ d' = Step("py", d, s) /\ last' = (IF s[1] = "solve" /\ s[3] = "ok" THEN s[4] ELSE last)
(* every answer kept is the function's own, of the latest successful synthesis *)
OwnAnswer == \A j \in DOMAIN d.sol : d.sol[j].e = Answer(Py[d.sol[j].i], Mark(last, d.sol[j].i))
OnlyCalled == Solved(d) \subseteq ToSet(d.called)
NotTooLong == Len(d.fns) <= 3

=============================================================================
