------------------------------ MODULE CvcLoop -------------------------------
(* P11.  The loop around CVC5's synthesiser, with its environment: the        *)
(* synthesiser prints a line for every term it enumerates and for every       *)
(* candidate it considers, at last a solution or that there is none, and ends *)
(* or dies at any moment; the verifier answers the query in any way.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, Randomization

Mode == IOEnv.GEN_MODE               \* "model", "gen", "check"
MaxLines == atoi(IOEnv.C_LINES)
J == IF Mode = "check" THEN JsonDeserialize(IOEnv.CASES) ELSE [cases |-> <<>>]

Answers == {"proved", "sat", "unknown", "timeout", "killed", "error", "empty"}
Running == -1
Noise == {"enum", "note", "blank"}
Final == {"solution", "infeasible", "fail", "error"}

VARIABLES cfg,      \* [ans: the verifier's answer, late: polls until the end of the process is seen]
          buf, pos, exited, cands, last, queries, out
vars == <<cfg, buf, pos, exited, cands, last, queries, out>>

(* w: behaviours with a verifier that proves are drawn more often *)
Init == /\ cfg \in {c \in [ans : Answers, late : IF Mode = "model" THEN {0} ELSE 0..2, w : IF Mode = "model" THEN {0} ELSE 0..9] : c.w > 0 => c.ans = "proved"}
        /\ buf = <<>> /\ pos = 0 /\ exited = Running /\ cands = 0 /\ last = 0 /\ queries = <<>> /\ out = "run"

Closed == buf # <<>> /\ buf[Len(buf)][1] \in Final
(* the synthesiser: candidates are numbered; a solution is the last of them *)
Emits(l) == /\ exited = Running /\ ~Closed
            /\ buf' = Append(buf, l)
            /\ UNCHANGED <<cfg, pos, exited, last, queries, out>>
Say(k) == Len(buf) < MaxLines /\ Emits(<<k, cands>>) /\ UNCHANGED cands
Cand == Len(buf) < MaxLines /\ Emits(<<"cand", cands + 1>>) /\ cands' = cands + 1
Close(k) == Emits(<<k, cands>>) /\ UNCHANGED cands
Exit(c) == /\ exited = Running /\ (c = 0 => Closed /\ buf[Len(buf)][1] # "error") /\ (c = 1 /\ Closed => buf[Len(buf)][1] = "error")
           /\ exited' = c /\ UNCHANGED <<cfg, buf, pos, cands, last, queries, out>>
(* the loop: it reads the next line, or waits for one, or sees that none comes *)
Read == /\ out = "run" /\ pos < Len(buf) /\ pos' = pos + 1
        /\ LET l == buf[pos + 1] IN
           IF l[1] = "cand" THEN last' = l[2] /\ UNCHANGED <<queries, out>>
           ELSE IF l[1] \in {"infeasible", "fail"} THEN out' = "fail" /\ UNCHANGED <<queries, last>>
           ELSE IF l[1] = "solution" /\ last > 0
           THEN queries' = Append(queries, last) /\ out' = (IF cfg.ans = "proved" THEN "ret" ELSE "fail") /\ UNCHANGED last
           ELSE UNCHANGED <<queries, last, out>>
        /\ UNCHANGED <<cfg, buf, exited, cands>>
End == /\ out = "run" /\ pos = Len(buf) /\ exited # Running /\ out' = "fail"
       /\ UNCHANGED <<cfg, buf, pos, exited, cands, last, queries>>
Env == (\E k \in Noise : Say(k)) \/ Cand \/ \E k \in Final : Close(k)
Ending == \E c \in {0, 1, -9} : Exit(c)
Loop == Read \/ End
Next == Env \/ Ending \/ Loop
Spec == Init /\ [][Next]_vars /\ WF_vars(Loop) /\ WF_vars(Env) /\ WF_vars(Ending)

ReturnedOnlyProved == out = "ret" => cfg.ans = "proved" /\ queries = <<last>> /\ last = cands /\ Closed
OneQuery == Len(queries) <= 1
(* the outcome depends on what was printed, not on when *)
Expected(b, ans) == IF b # <<>> /\ b[Len(b)][1] = "solution" /\ b[Len(b)][2] > 0 /\ ans = "proved" THEN <<"ret", b[Len(b)][2]>> ELSE <<"fail", 0>>
Confluent == out # "run" /\ Closed => <<out, IF out = "ret" THEN last ELSE 0>> = Expected(buf, cfg.ans)
Ends == <>(out # "run")
Safety == ReturnedOnlyProved /\ OneQuery /\ Confluent

(* behaviours to replay: what was printed and how the process ended *)
Emit == (Mode = "gen" /\ exited # Running /\ out = "run" /\ pos = 0) => PrintT("RUN " \o ToJson([cfg |-> cfg, lines |-> buf, code |-> exited]))
(* generation: the synthesiser alone, unlikely ends rarer *)
Rare(k) == RandomElement(1..k) = 1
GenNext == \/ \E k \in Noise : Rare(2) /\ Say(k)
           \/ Cand \/ (cands > 0 /\ Close("solution")) \/ \E k \in Final : Rare(6) /\ Close(k)
           \/ Exit(0) \/ (\E c \in {1, -9} : Rare(8) /\ Exit(c))

(* judging a replay: c.res = [out, got, queries, hung, bad] *)
Judge(c) ==
  LET w == Expected(c.lines, c.cfg.ans)  r == c.res  died == c.code # 0 IN
  IF r.hung THEN "the loop never ends"
  ELSE IF r.bad # "" THEN r.bad
  ELSE IF \E i \in DOMAIN r.queries : r.queries[i] < 0 THEN "a query does not hold exactly the candidate's functions"
  ELSE IF r.out = "ret" /\ (r.got < 0 \/ r.queries = <<>> \/ r.queries[Len(r.queries)] # r.got \/ c.cfg.ans # "proved") THEN "an unproved candidate is returned"
  ELSE IF r.out = "ret" /\ c.lines # <<>> /\ c.lines[Len(c.lines)] = <<"solution", 0>> /\ r.got = 0 THEN "ok"
  ELSE IF r.out = "ret" /\ w[1] = "fail" THEN "returns although there is no verified solution"
  ELSE IF r.out = "ret" /\ r.got # w[2] THEN "another candidate than the solution is returned"
  ELSE IF r.out = "fail" /\ w[1] = "ret" /\ ~died THEN "fails although the solution is verified"
  ELSE "ok"
ASSUME \A i \in DOMAIN J.cases : PrintT("VERDICT " \o ToJson(<<i - 1, Judge(J.cases[i])>>))
=============================================================================
