------------------------------- MODULE SolGen -------------------------------
(* The synthesiser's printer: of the functions to be synthesised it prints   *)
(* those in which a choice had to be made, one form at a time, in any order; *)
(* each form is a source position line and a definition that the pretty      *)
(* printer may break over lines.  A behaviour ends with the solution file's  *)
(* layout; TLC walks the behaviours and the harness fills the forms with     *)
(* terms.                                                                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

Pools == { <<"inv", "inv1", "inv10", "inv_1">>, <<"ps", "ps_inv", "f_ps", "p">>, <<"f_inv0", "f_inv1", "f_ps", "f">>,
           <<"define_it", "a", "inv0_gram", "test">> }

VARIABLES declared, missing, printed, wrap, quoted, renamed
vars == <<declared, missing, printed, wrap, quoted, renamed>>

Init == /\ declared \in Pools
        /\ missing \in {m \in SUBSET (1..4) : Cardinality(m) <= 2}
        /\ printed = <<>>
        /\ wrap \in {"no", "header", "all", "some"}
        /\ quoted \in BOOLEAN
        /\ renamed \in {{}, {1, 3}, {2}}

Left == ((1..4) \ missing) \ {printed[i] : i \in DOMAIN printed}
PrintForm == \E f \in Left : printed' = Append(printed, f) /\ UNCHANGED <<declared, missing, wrap, quoted, renamed>>
Next == PrintForm
Spec == Init /\ [][Next]_vars

Seq01(S) == [i \in 1..4 |-> IF i \in S THEN 1 ELSE 0]
Report == Left = {} => PrintT("LAYOUT " \o ToJson([names |-> declared, printed |-> printed, wrap |-> wrap, quoted |-> IF quoted THEN 1 ELSE 0, renamed |-> Seq01(renamed)]))
=============================================================================
