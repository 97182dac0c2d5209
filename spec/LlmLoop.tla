------------------------------ MODULE LlmLoop -------------------------------
(* P17.  The loop that asks a language model for a summary, then for          *)
(* invariants, and has each proposal verified -- with its environment: the    *)
(* model's answers (readable, not readable, functions of other names, no      *)
(* code) and the verifier's answers.                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, Randomization

Mode == IOEnv.GEN_MODE               \* "model", "gen", "check"
MaxTries == atoi(IOEnv.L_TRIES)
J == IF Mode = "check" THEN JsonDeserialize(IOEnv.CASES) ELSE [cases |-> <<>>]

Crashes == {"timeout", "killed", "error", "empty"}
Answers == {"proved", "sat", "unknown"} \cup (IF Mode = "model" THEN {"error"} ELSE Crashes)
Proposals == {"good", "unreadable"} \cup (IF Mode = "model" THEN {} ELSE {"nocode", "misnamed"})

(* in random walks most proposals are good *)
Offered == IF Mode = "model" THEN Proposals ELSE {"good", RandomElement({"good", "unreadable", "unreadable", RandomElement(Proposals)})}
(* cfg: limits, single or double loop, the verifier, the model asked; tab:    *)
(* what the verifier says to summary p with invariants q (models repeat       *)
(* themselves: there are fewer texts than requests)                           *)
VARIABLES cfg, tab, pc, i, j, asks, queries, out, accepted
vars == <<cfg, tab, pc, i, j, asks, queries, out, accepted>>

Texts == 1..2
Cfgs == [mps : 1..MaxTries, minv : 1..MaxTries, loops : {1, 2}, how : {"smt", "rosette"}, llm : IF Mode = "model" THEN {"gpt"} ELSE {"gpt", "claude", "gemini"}]
(* most tables prove little, so that runs are long *)
Tabs == IF Mode = "model" THEN [Texts \X Texts -> Answers]
        ELSE {[x \in Texts \X Texts |-> RandomElement({"proved", "sat", RandomElement(Answers), RandomElement(Answers \ {"proved"})})] : n \in 1..40}
Init == /\ cfg \in (IF Mode = "model" THEN {c \in Cfgs : c.loops = 1 /\ c.how = "smt"} ELSE {RandomElement(Cfgs) : n \in 1..100}) /\ tab \in Tabs
        /\ pc = "ps" /\ i = 1 /\ j = 0 /\ asks = <<>> /\ queries = <<>> /\ out = "run" /\ accepted = <<0, 0>>

AskPs == /\ pc = "ps" /\ out = "run"
         /\ IF i > cfg.mps THEN out' = "fail" /\ UNCHANGED <<pc, i, j, asks, accepted>>
            ELSE \E p \in Offered, t \in Texts :
                   /\ (p # "good") => t = 1
                   /\ asks' = Append(asks, <<"ps", p, t>>)
                   /\ IF p = "good" THEN pc' = "inv" /\ j' = 1 /\ UNCHANGED <<i, out>> /\ accepted' = <<t, 0>>
                      ELSE i' = i + 1 /\ UNCHANGED <<pc, j, out, accepted>>
         /\ UNCHANGED <<cfg, tab, queries>>
AskInv == /\ pc = "inv" /\ out = "run"
          /\ IF j > cfg.minv THEN pc' = "ps" /\ i' = i + 1 /\ UNCHANGED <<j, asks, accepted>>
             ELSE \E p \in Offered, t \in Texts :
                    /\ (p # "good") => t = 1
                    /\ asks' = Append(asks, <<"inv", p, t>>)
                    /\ IF p = "good" THEN pc' = "verify" /\ accepted' = <<accepted[1], t>> /\ UNCHANGED j ELSE j' = j + 1 /\ UNCHANGED <<pc, accepted>>
                    /\ UNCHANGED i
          /\ UNCHANGED <<cfg, tab, queries, out>>
Verify == /\ pc = "verify" /\ out = "run"
          /\ queries' = Append(queries, accepted)
          /\ IF tab[accepted] = "proved" THEN out' = "ret" /\ UNCHANGED <<pc, j>>
             ELSE pc' = "inv" /\ j' = j + 1 /\ UNCHANGED out
          /\ UNCHANGED <<cfg, tab, i, asks, accepted>>
Next == AskPs \/ AskInv \/ Verify
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

----------------------------------------------------------------------------
AcceptedProved == out = "ret" => /\ queries # <<>> /\ queries[Len(queries)] = accepted /\ tab[accepted] = "proved"
                                 /\ Last(asks) = <<"inv", "good", accepted[2]>>
Count(s, P(_)) == Cardinality({x \in DOMAIN s : P(s[x])})
(* requests for summaries, and for invariants of one summary, within limits *)
IsPs(x) == x[1] = "ps"
Within(s, c) == /\ Count(s, IsPs) <= c.mps
                /\ \A x \in DOMAIN s : s[x][1] = "inv" => \E y \in DOMAIN s : y < x /\ IsPs(s[y]) /\ x - y <= c.minv /\ \A z \in (y + 1)..x : ~IsPs(s[z])
Safety == AcceptedProved /\ Within(asks, cfg)
Ends == <>(out # "run")
Grid(f) == <<<<f[<<1, 1>>], f[<<1, 2>>]>>, <<f[<<2, 1>>], f[<<2, 2>>]>>>>
Emit == (Mode = "gen" /\ out # "run") => PrintT("RUN " \o ToJson([cfg |-> cfg, tab |-> Grid(tab), asks |-> asks, out |-> out, accepted |-> accepted, queries |-> queries]))

----------------------------------------------------------------------------
(* judging a replay: res = [out, shown, asks: kinds of the requests, queries: *)
(* proposals each query holds, crashed, bad].  A run may also end with a      *)
(* failure where a verifier or a proposal broke down.                         *)
Prefix(s, t) == Len(s) <= Len(t) /\ s = SubSeq(t, 1, Len(s))
(* a query asked before need not be asked again *)
RECURSIVE Once(_, _)
Once(s, seen) == IF s = <<>> THEN <<>> ELSE IF s[1] \in seen THEN Once(Tail(s), seen) ELSE <<s[1]>> \o Once(Tail(s), seen \cup {s[1]})
Judge(c) ==
  LET r == c.res  ks == [x \in DOMAIN c.asks |-> c.asks[x][1]]
      qs == Once(r.queries, {})
      Known(q) == q[1] \in Texts /\ q[2] \in Texts
      broke == r.crashed /\ r.asks # <<>> /\ Prefix(r.asks, ks) /\ Prefix(qs, Once(c.queries, {}))
                 /\ LET l == c.asks[Len(r.asks)] IN l[2] \in {"nocode", "misnamed"} \/ (qs # <<>> /\ LET q == Last(r.queries) IN l[3] = q[2] /\ c.tab[q[1]][q[2]] \in Crashes) IN
  IF r.bad # "" THEN r.bad
  ELSE IF ~Within([x \in DOMAIN r.asks |-> <<r.asks[x]>>], c.cfg) THEN "more requests than the limits allow"
  ELSE IF \E x \in DOMAIN r.queries : ~Known(r.queries[x]) THEN "a query does not hold exactly the functions of one proposal"
  ELSE IF r.out = "ret" /\ c.out = "fail" THEN "reported as verified although nothing was proved"
  ELSE IF r.out = "ret" /\ ~Prefix(r.asks, ks) THEN "another proposal is accepted"
  ELSE IF r.out = "ret" /\ r.asks # ks THEN "reported as verified although it was not proved"
  ELSE IF r.out = "ret" /\ c.accepted \notin Range(qs) THEN "the proposal reported was never verified"
  ELSE IF r.out = "ret" /\ r.shown >= 0 /\ r.shown # c.accepted[1] THEN "another summary is reported than the one proved"
  ELSE IF r.out = "fail" /\ c.out = "ret" /\ ~broke THEN "fails although a proposal is proved"
  ELSE IF ~broke /\ (r.asks # ks \/ qs # Once(c.queries, {})) THEN "the requests or queries are not those of the attempts allowed"
  ELSE "ok"
ASSUME \A x \in DOMAIN J.cases : PrintT("VERDICT " \o ToJson(<<x - 1, Judge(J.cases[x])>>))
=============================================================================
