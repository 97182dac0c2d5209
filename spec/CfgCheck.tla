------------------------------ MODULE CfgCheck ------------------------------
(* Conformance of the block-splitting pass: the function it made of each       *)
(* generated function is well formed, has every edge of a conditional branch   *)
(* pass through an empty block of its own, and does what the original did.     *)
EXTENDS Cfg, Json, IOUtils

J == JsonDeserialize(IOEnv.CASES)
Ints == {-1, 0, 1, 2}
Fuel == 24
Judge(c) ==
  LET f == c.before  g == c.after IN
  IF Ill(f) # "" THEN "SPECERROR the original: " \o Ill(f)
  ELSE IF c.err # "" THEN c.err
  ELSE IF Ill(g) # "" THEN Ill(g)
  ELSE IF g.ps # f.ps THEN "the parameters changed"
  ELSE IF Unsplit(g) # {} THEN "an edge of a conditional branch has no empty block of its own"
  ELSE LET bad == {x \in Ints \X Ints \X {0, 1} : ~Same(Run(f, x, Fuel), Run(g, x, 2 * Fuel))} IN
       IF bad # {} THEN "the function behaves differently for " \o ToString(CHOOSE x \in bad : TRUE) ELSE "ok"

VARIABLE i
Init == i \in DOMAIN J.cases
Next == FALSE /\ UNCHANGED i
Spec == Init /\ [][Next]_i
Verdict == PrintT("VERDICT " \o ToJson(<<i - 1, Judge(J.cases[i])>>))
=============================================================================
