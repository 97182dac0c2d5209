------------------------------ MODULE DriverGen ------------------------------
(* Histories of the driver, two (one for each front end) for every seed. *)
EXTENDS Driver
VARIABLE n
Init == n = atoi(IOEnv.P_FROM) /\ MInit
Next == n < atoi(IOEnv.P_TO) /\ n' = n + 1 /\ UNCHANGED <<d, last>>
Emit == /\ PrintT("HIST " \o ToJson([id |-> 2 * n, lang |-> "py", h |-> History(n, "py")]))
        /\ PrintT("HIST " \o ToJson([id |-> 2 * n + 1, lang |-> "c", h |-> History(n, "c")]))
=============================================================================
