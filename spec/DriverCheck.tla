----------------------------- MODULE DriverCheck -----------------------------
(* Recorded histories of the real drivers against the machine. *)
EXTENDS Driver
J == JsonDeserialize(IOEnv.CASES)
VARIABLE i
Init == i \in 1..Len(J) /\ MInit
Next == FALSE /\ UNCHANGED <<i, d, last>>
Verdict == LET c == J[i] IN PrintT("VERDICT " \o ToJson(<<c.id, Judge(c.lang, Empty, c, 1)>>))
=============================================================================
