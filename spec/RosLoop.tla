------------------------------ MODULE RosLoop -------------------------------
(* P10.  The guess-and-verify loop around Rosette, with its environment: the  *)
(* synthesiser process, which writes one answer per round and ends (or dies)  *)
(* at any moment, and the verifier, which answers each query in any way.      *)
(* The machine is checked for the property; its behaviours are replayed into  *)
(* the real loop.                                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, Randomization

Mode == IOEnv.GEN_MODE               \* "model", "gen", "check"
MaxRounds == atoi(IOEnv.R_ROUNDS)
MaxPolls == 4
J == IF Mode = "check" THEN JsonDeserialize(IOEnv.CASES) ELSE [cases |-> <<>>]

Answers == {"proved", "sat", "unknown", "timeout", "killed", "error", "empty"}
Running == -1
Died == 1
Killed == -9

VARIABLES cfg,      \* [rounds, ans: seq of answers, noverify, unsupported, stale]
          pc, idx, n, written, exited, polled, queries, out, trace
vars == <<cfg, pc, idx, n, written, exited, polled, queries, out, trace>>

Cfgs == UNION {[rounds : {r}, ans : [1..(r + 1) -> IF r > 3 THEN {"proved", "sat"} ELSE IF Mode = "model" \/ r > 2 THEN {"proved", "sat", "unknown"} ELSE Answers], noverify : {FALSE, TRUE}, unsupported : {FALSE, TRUE}, stale : {0, 1, 2}] : r \in 0..MaxRounds}
Pick == IF Mode = "model" THEN {c \in Cfgs : c.stale = 0 /\ ~c.unsupported} ELSE IF Mode = "gen" THEN {c \in Cfgs : (c.noverify \/ \A i \in DOMAIN c.ans : c.ans[i] # "proved") => (c.stale = 0 /\ ~c.unsupported)} ELSE {}
Init == /\ cfg \in Pick
        /\ pc = "poll" /\ idx = 0 /\ n = 0 /\ written = <<>> /\ exited = Running /\ polled = Running
        /\ queries = <<>> /\ out = "run" /\ trace = <<>>

At == <<pc, n>>
(* the synthesiser *)
EnvWrite(k) == /\ exited = Running /\ Len(written) <= cfg.rounds /\ out = "run"
               /\ written' = Append(written, k)
               /\ trace' = Append(trace, <<pc, n, k, 0>>)
               /\ UNCHANGED <<cfg, pc, idx, n, exited, polled, queries, out>>
EnvExit(c) == /\ exited = Running /\ out = "run" /\ (c = 0 => Len(written) = cfg.rounds + 1)
              /\ exited' = c
              /\ trace' = Append(trace, <<pc, n, "exit", c>>)
              /\ UNCHANGED <<cfg, pc, idx, n, written, polled, queries, out>>
(* the loop: the process is looked at before the answer is looked for *)
Poll == /\ pc = "poll" /\ out = "run" /\ polled' = exited /\ pc' = "look"
        /\ UNCHANGED <<cfg, idx, n, written, exited, queries, out, trace>>
Look == /\ pc = "look" /\ out = "run"
        /\ IF idx < Len(written)
           THEN IF written[idx + 1] = "unsat" THEN out' = "fail" /\ pc' = "done" ELSE pc' = "verify" /\ UNCHANGED out
           ELSE IF polled # Running THEN out' = "fail" /\ pc' = "done"
           ELSE pc' = "sleep" /\ UNCHANGED out
        /\ UNCHANGED <<cfg, idx, n, written, exited, polled, queries, trace>>
Sleep == /\ pc = "sleep" /\ (n < MaxPolls \/ exited # Running) /\ pc' = "poll" /\ n' = n + 1
         /\ UNCHANGED <<cfg, idx, written, exited, polled, queries, out, trace>>
Verify == /\ pc = "verify" /\ out = "run"
          /\ queries' = IF cfg.noverify THEN queries ELSE Append(queries, idx)
          /\ IF cfg.noverify \/ cfg.ans[idx + 1] = "proved" THEN out' = "ret" /\ pc' = "done" /\ UNCHANGED <<idx, n>>
             ELSE IF idx = cfg.rounds THEN out' = "fail" /\ pc' = "done" /\ UNCHANGED <<idx, n>>
             ELSE idx' = idx + 1 /\ pc' = "poll" /\ n' = n + 1 /\ UNCHANGED out
          /\ UNCHANGED <<cfg, written, exited, polled, trace>>
(* generated behaviours: bad ends are rarer *)
Rare(k) == Mode # "gen" \/ RandomElement(1..k) = 1
Env == \E k \in {"sat", "unsat"} : (k = "unsat" => Rare(6)) /\ EnvWrite(k)
EnvEnd == \E c \in {0, Died, Killed} : (c # 0 => Rare(12)) /\ EnvExit(c)
Loop == Poll \/ Look \/ Sleep \/ Verify
Next == Env \/ EnvEnd \/ Loop
Spec == Init /\ [][Next]_vars /\ WF_vars(Loop) /\ WF_vars(Env \/ EnvEnd)

----------------------------------------------------------------------------
(* the property, on the machine *)
ReturnedOnlyProved == out = "ret" => (cfg.noverify \/ (queries # <<>> /\ queries[Len(queries)] = idx /\ cfg.ans[idx + 1] = "proved"))
NeverAgain == \A i, j \in DOMAIN queries : i # j => queries[i] # queries[j]
FirstProved == out = "ret" => \A i \in 1..idx : cfg.ans[i] # "proved"
(* the outcome depends on what the synthesiser wrote and the verifier         *)
(* answered, not on when                                                      *)
RECURSIVE Walk(_, _, _)
Walk(c, w, i) == IF i > Len(w) THEN <<"fail", 0>>
                 ELSE IF w[i] = "unsat" THEN <<"fail", 0>>
                 ELSE IF c.noverify \/ c.ans[i] = "proved" THEN <<"ret", i - 1>>
                 ELSE IF i = c.rounds + 1 THEN <<"fail", 0>> ELSE Walk(c, w, i + 1)
Confluent == out # "run" => <<out, IF out = "ret" THEN idx ELSE 0>> = Walk(cfg, written, 1)
Ends == <>(out # "run")
Safety == ReturnedOnlyProved /\ NeverAgain /\ FirstProved /\ Confluent

----------------------------------------------------------------------------
(* behaviours to replay *)
Emit == (Mode = "gen" /\ out # "run") => PrintT("RUN " \o ToJson([cfg |-> cfg, trace |-> trace, written |-> written, exited |-> exited, out |-> out, idx |-> idx]))

----------------------------------------------------------------------------
(* judging a replay: c.res = [out, got: candidate numbers of the functions    *)
(* returned, queries: candidate numbers found in each query, hung, query      *)
(* defects]                                                                   *)
Judge(c) ==
  LET w == Walk(c.cfg, c.written, 1)  r == c.res
      died == c.exited \notin {Running, 0} IN
  IF r.hung THEN "the loop never ends"
  ELSE IF r.bad # "" THEN r.bad
  ELSE IF \E i \in DOMAIN r.queries : r.queries[i] < 0 THEN "a query does not hold exactly the candidate's functions"
  ELSE IF \E i, j \in DOMAIN r.queries : i # j /\ r.queries[i] = r.queries[j] THEN "a candidate is verified again"
  ELSE IF r.out = "ret" /\ \E i \in DOMAIN r.got : r.got[i] # r.got[1] THEN "functions of different candidates are returned together"
  ELSE IF r.out = "ret" /\ r.got = <<>> THEN "returns without any function"
  ELSE IF r.out = "ret" /\ ~c.cfg.noverify /\ (r.queries = <<>> \/ r.queries[Len(r.queries)] # r.got[1]
                                                 \/ r.got[1] + 1 \notin DOMAIN c.cfg.ans \/ c.cfg.ans[r.got[1] + 1] # "proved") THEN "an unproved candidate is returned"
  ELSE IF r.out = "ret" /\ w[1] = "fail" THEN "returns although there is no verified candidate"
  ELSE IF r.out = "fail" /\ w[1] = "ret" /\ ~died THEN "fails although a later candidate is verified"
  ELSE IF r.out = "ret" /\ r.got[1] # w[2] THEN "another candidate than the first verified one is returned"
  ELSE "ok"
ASSUME \A i \in DOMAIN J.cases : PrintT("VERDICT " \o ToJson(<<i - 1, Judge(J.cases[i])>>))
=============================================================================
