------------------------------ MODULE InPlace -------------------------------
(* Histories of in-place operations on list objects held in three slots.     *)
(* append, prepend and item assignment change the object they are called on   *)
(* (and give that object back); slicing, concatenation and copying make new   *)
(* objects.  Two slots may hold the same object.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Kind == IOEnv.GEN_KIND            \* "L", "M" or "N"
Len0 == 4
Slots == 1..3
VARIABLES slot, heap, hist, taken
(* slot: slot -> object number; heap: object -> content term; taken: terms    *)
(* read off earlier (they never change)                                      *)
vars == <<slot, heap, hist, taken>>
N(k, pl, as) == <<k, pl, as>>
Var(n) == N("var", n, <<>>)
El(j) == Var("e" \o ToString(j))
Ki(n) == N("int", n, <<>>)

Init == /\ slot = <<1, 2, 3>>
        /\ heap = <<Var("b1"), Var("b2"), N("lempty", "", <<>>)>>
        /\ hist = <<>> /\ taken = <<>>
Update(s, t, h) == /\ heap' = [heap EXCEPT ![slot[s]] = t] /\ hist' = Append(hist, h) /\ UNCHANGED slot
New(s, t, h) == /\ heap' = Append(heap, t) /\ slot' = [slot EXCEPT ![s] = Len(heap) + 1] /\ hist' = Append(hist, h)
C(s) == heap[slot[s]]
Ap == \E s \in Slots, j \in 1..2 : Update(s, N("lappend", "", <<C(s), El(j)>>), <<"append", s, j, 0>>)
Pr == \E s \in Slots, j \in 1..2 : Update(s, N("lprepend", "", <<El(j), C(s)>>), <<"prepend", s, j, 0>>)
(* the result of an in-place operation is the object itself *)
ApTo == \E s, d \in Slots : s # d /\ heap' = [heap EXCEPT ![slot[s]] = N("lappend", "", <<C(s), El(1)>>)]
          /\ slot' = [slot EXCEPT ![d] = slot[s]] /\ hist' = Append(hist, <<"append_to", s, d, 1>>)
St == Kind = "L" /\ \E s \in Slots : Update(s, N("call", "list_set", <<C(s), Ki(0), El(2)>>), <<"set", s, 0, 2>>)
Sl == \E s, d \in Slots : New(d, N("ltail", "", <<C(s), Ki(1)>>), <<"tail", s, d, 0>>)
Tk == \E s, d \in Slots : New(d, N("ltake", "", <<C(s), Ki(2)>>), <<"take", s, d, 0>>)
Ct == Kind = "L" /\ \E s, t, d \in Slots : New(d, N("lconcat", "", <<C(s), C(t)>>), <<"concat", s, t, d>>)
Al == \E s, d \in Slots : s # d /\ slot' = [slot EXCEPT ![d] = slot[s]] /\ UNCHANGED heap /\ hist' = Append(hist, <<"alias", s, d, 0>>)
Next == /\ Len(hist) < Len0
        /\ taken' = Append(taken, C(1))
        /\ (Ap \/ Pr \/ ApTo \/ St \/ Sl \/ Tk \/ Ct \/ Al)
Spec == Init /\ [][Next]_vars
Emit == Len(hist) = Len0 =>
   PrintT("HIST " \o ToJson([hist |-> hist, now |-> [s \in Slots |-> C(s)], taken |-> taken]))
=============================================================================
