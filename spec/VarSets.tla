------------------------------ MODULE VarSets -------------------------------
(* P19.  Two small machines.                                                 *)
(*  "track": histories of name requests made to the analysis' variable        *)
(*    tracker -- plain names, groups, variables of a group.                   *)
(*  "sets": histories of operations on registers holding object sets; an      *)
(*    object is a number of the pool, Class[o] its structure.                 *)
(* GEN_MODE=gen: TLC enumerates histories.  GEN_MODE=check: TLC runs the same *)
(* machine over the recorded answers of the real code and judges every step.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, Randomization

Mode == IOEnv.GEN_MODE
What == IOEnv.GEN_WHAT
MaxLen == atoi(IOEnv.GEN_LEN)
J == IF Mode = "check" THEN JsonDeserialize(IOEnv.CASES) ELSE [cases |-> <<>>]

----------------------------------------------------------------------------
(* tracker *)
PlainNames == {"a", "a_1", "a_x"}
GroupNames == {"a", "a_1"}
VarNames == {"x", "1", "1_x", "x_1"}
Tys == {"Int", "Bool"}
TrackOps(ng) == {<<"plain", n, t>> : n \in PlainNames, t \in Tys}
           \cup {<<"group", n, "">> : n \in GroupNames}
           \cup {<<"gvar", n, t, g>> : n \in VarNames, t \in {"Int"}, g \in 1..ng}

----------------------------------------------------------------------------
(* object sets: pool objects 1..Len(Class); equal class = equal structure.   *)
(* a name has one type within an analysis, so the pool has one type per name *)
Class == <<"x", "x", "x+1", "x+1", "1", "True", "y", "xs", "xs", "t", "0", "False">>
Pool == DOMAIN Class
Regs == 1..3
SetOps == {<<"new", r, <<a, b>>>> : r \in Regs, a \in Pool, b \in Pool}
     \cup {<<"empty", r>> : r \in Regs}
     \cup {<<"add", r, o>> : r \in Regs, o \in Pool}
     \cup {<<"sub", r, a, b>> : r \in Regs, a \in Regs, b \in Regs}
     \cup {<<"union", r, a, b>> : r \in Regs, a \in Regs, b \in Regs}
     \cup {<<"copy", r, a>> : r \in Regs, a \in Regs}
     \cup {<<"in", a, o>> : a \in Regs, o \in Pool}
Cls(s) == {Class[o] : o \in ToSet(s)}

----------------------------------------------------------------------------
VARIABLES hist, ngroups
Ops == IF What = "track" THEN TrackOps(ngroups) ELSE SetOps
Init == hist = <<>> /\ ngroups = 0
Next == /\ Mode = "gen" /\ Len(hist) < MaxLen
        /\ \E o \in IF IOEnv.GEN_RANDOM = "1" THEN RandomSubset(1, Ops) ELSE Ops :
             hist' = Append(hist, o) /\ ngroups' = IF o[1] = "group" THEN ngroups + 1 ELSE ngroups
Spec == Init /\ [][Next]_<<hist, ngroups>>
Emit == (Mode = "gen" /\ Len(hist) = MaxLen) => PrintT("HIST " \o ToJson(hist))

----------------------------------------------------------------------------
(* judging tracker histories.  Answer of step i: [name, type, err];          *)
(* c.all: the variables (name, type) the tracker lists at the end.            *)
RECURSIVE JudgeT(_, _, _)
(* issued: set of [name, type, how] *)
JudgeT(c, i, issued) ==
  IF i > Len(c.hist) THEN
    IF {<<v[1], v[2]>> : v \in ToSet(c.all)} # {<<v.name, v.type>> : v \in issued} THEN "the tracker lists other variables than it gave out"
    ELSE IF Len(c.all) # Cardinality(issued) THEN "the tracker lists a variable twice" ELSE "ok"
  ELSE LET o == c.hist[i]  a == c.ans[i]  taken == {v.name : v \in issued}
           new == issued \cup {[name |-> a.name, type |-> a.type, how |-> o[1]]}
       IN CASE o[1] = "group" -> IF a.err # "" THEN "a group is refused" ELSE JudgeT(c, i + 1, issued)
          [] o[1] = "gvar" ->
               IF a.err # "" THEN "a variable of a group is refused"
               ELSE IF a.type # o[3] THEN "a variable gets another type than requested"
               ELSE IF a.name \in taken THEN "a variable of a group gets the name of another variable"
               ELSE JudgeT(c, i + 1, new)
          [] o[1] = "plain" ->
               LET old == {v \in issued : v.name = o[2]}
               IN IF old = {} THEN
                    IF a.err # "" \/ a.name # o[2] THEN "a new variable does not keep its name"
                    ELSE IF a.type # o[3] THEN "a variable gets another type than requested" ELSE JudgeT(c, i + 1, new)
                  ELSE IF a.err # "" THEN
                    IF \E v \in old : v.type = o[3] /\ v.how = "plain" THEN "asking again for a variable is refused" ELSE JudgeT(c, i + 1, issued)
                  ELSE IF a.type # o[3] THEN "a variable gets another type than requested"
                  ELSE IF a.name \notin taken THEN JudgeT(c, i + 1, new)
                  ELSE IF \E v \in old : v.type = o[3] /\ v.how = "plain" /\ a.name = o[2] THEN JudgeT(c, i + 1, issued)
                  ELSE "two different variables share a name"

(* judging set histories.  Answer of step i: [regs: per register the objects   *)
(* held in iteration order, member, count of objects(), err]                 *)
Distinct(s) == Len(s) = Cardinality(Cls(s))
RECURSIVE JudgeS(_, _, _)
JudgeS(c, i, R) ==
  IF i > Len(c.hist) THEN "ok"
  ELSE LET o == c.hist[i]  a == c.ans[i]
           R2 == CASE o[1] = "new" -> [R EXCEPT ![o[2]] = Cls(o[3])]
                   [] o[1] = "empty" -> [R EXCEPT ![o[2]] = {}]
                   [] o[1] = "add" -> [R EXCEPT ![o[2]] = @ \cup {Class[o[3]]}]
                   [] o[1] = "sub" -> [R EXCEPT ![o[2]] = R[o[3]] \ R[o[4]]]
                   [] o[1] = "union" -> [R EXCEPT ![o[2]] = R[o[3]] \cup R[o[4]]]
                   [] o[1] = "copy" -> [R EXCEPT ![o[2]] = R[o[3]]]
                   [] o[1] = "in" -> R
       IN IF a.err # "" THEN "operation " \o o[1] \o " raises an error"
          ELSE IF \E r \in Regs : ~Distinct(a.regs[r]) THEN "after " \o o[1] \o " a set holds an object twice"
          ELSE IF \E r \in Regs : Cls(a.regs[r]) # R2[r] THEN "after " \o o[1] \o " a set holds other objects than it should"
          ELSE IF \E r \in Regs : a.regs[r] # a.objects[r] THEN "after " \o o[1] \o " iteration and object list differ"
          ELSE IF o[1] = "in" /\ a.member # (Class[o[3]] \in R[o[2]]) THEN "membership is wrong"
          ELSE JudgeS(c, i + 1, R2)

(* one collection of pool objects as a Python set of wrappers, of expressions, *)
(* and as a conjunction/disjunction                                           *)
JudgeC(c) == IF c.err # "" THEN "collecting objects raises an error"
             ELSE IF c.wrapped # Cardinality(Cls(c.objs)) THEN "a set of wrapped objects counts wrongly"
             ELSE IF c.exprs # Cardinality(Cls(c.objs)) THEN "a set of expressions counts wrongly"
             ELSE IF \E o \in Pool : (Class[o] \in Cls(c.objs)) # c.member[o] THEN "membership in a set of wrapped objects is wrong"
             ELSE "ok"

Judge(c) == CASE c.what = "track" -> JudgeT(c, 1, {}) [] c.what = "sets" -> JudgeS(c, 1, [r \in Regs |-> {}]) [] c.what = "coll" -> JudgeC(c)
ASSUME Mode = "gen" \/ \A i \in DOMAIN J.cases : PrintT("VERDICT " \o ToJson(<<i - 1, Judge(J.cases[i])>>))
=============================================================================
