----------------------------- MODULE FrontCheck -----------------------------
(* Conformance of a front end: the verification conditions it collected for a *)
(* program against the program's obligations (Prog.tla), under every meaning   *)
(* of a family of meanings of the predicates derived from the obligations.    *)
EXTENDS Prog, Json, IOUtils

J == JsonDeserialize(IOEnv.CASES)
CONSTANT NumPicks

(* JSON gives trees with a fourth field; records of types as functions *)
Pick(q, n) == IF Len(q) <= n THEN ToSet(q) ELSE {q[1 + ((i * Len(q)) \div n)] : i \in 0..(n - 1)}
Meanings(obs) ==
  LET s == SetToSeq(obs)
      ps == Pick(s, NumPicks)
      heads == {o[2] : o \in obs}
      atoms == heads \cup UNION {o[1] : o \in obs}
      base == Close(obs, {})
  IN {base, atoms}
     \cup {Close(obs, o[1]) : o \in ps}
     \cup {Close({q \in obs : q[2] # o[2]}, o[1]) : o \in ps}
     \cup {atoms \ {o[2]} : o \in ps}
     \cup {base \ {a} : a \in Pick(SetToSeq(base), 4)}
     \cup {Close(obs, {a}) : a \in Pick(SetToSeq(atoms \ base), 4)}

RECURSIVE ScopesOf(_, _, _)
(* the variables in scope at each loop: <<loop id, set of names>> *)
After(s, sc) == sc \cup WritesOf(s)
ScopesOf(S, i, sc) ==
  IF i > Len(S) THEN {}
  ELSE LET s == S[i] IN
    (CASE s[1] \in LoopKinds -> {<<s[2], sc>>} \cup ScopesOf(s[4], 1, sc \cup Writes(s[4]))
       [] s[1] = "if" -> ScopesOf(s[3], 1, sc) \cup ScopesOf(s[4], 1, sc)
       [] OTHER -> {}) \cup ScopesOf(S, i + 1, After(s, sc))
Scopes(f) == ScopesOf(f.body, 1, ToSet(f.ps))

NoDup(q) == Cardinality(ToSet(q)) = Len(q)
IdKey(id) == ToString(id)
Offered(c, p) ==
  LET loops == UNION {Loops(f.body) : f \in ToSet(p.fns)}
      scopes == UNION {Scopes(f) : f \in ToSet(p.fns)}
      sc(id) == (CHOOSE x \in scopes : x[1] = id)[2]
      bad(l) == LET o == c.loops[IdKey(l[2])] IN
        CASE ~NoDup(o.args) \/ ToSet(o.args) # sc(l[2]) -> "the invariant is over other variables than those in scope"
          [] ~NoDup(o.writes) \/ ToSet(o.writes) # Writes(l[4]) -> "the invariant's grammar is offered other written variables"
          [] ~NoDup(o.reads) \/ ~((VarsOf(l[3]) \cup Reads(l[4])) \subseteq ToSet(o.reads))
                \/ ~(ToSet(o.reads) \subseteq (VarsOf(l[3]) \cup Reads(l[4]) \cup Changed(l[4]))) -> "the invariant's grammar is offered other read variables"
          [] ~NoDup(o.scope) \/ ToSet(o.scope) # sc(l[2]) -> "the invariant's grammar is offered other variables in scope"
          [] OTHER -> ""
      (* the LLVM front end offers what it was asked for: the arguments, or the  *)
      (* ones given instead, then what was named in scope                       *)
      fnOf(l) == CHOOSE f \in ToSet(p.fns) : l \in Loops(f.body)
      badC(l) == LET o == c.loops[IdKey(l[2])]  f == fnOf(l) IN
        CASE ~NoDup(o.args) \/ ToSet(o.args) # ToSet(o.named) \cup (IF o.over # <<>> THEN ToSet(o.over) ELSE RoundWrites(l) \cup ToSet(f.ps)) ->
               "the invariant is over other variables than asked for"
          [] ~NoDup(o.writes) \/ ToSet(o.writes) # RoundWrites(l) -> "the invariant's grammar is offered other written variables"
          [] ~NoDup(o.reads) \/ ToSet(o.reads) # ToSet(f.ps) -> "the invariant's grammar is offered other arguments"
          [] ~NoDup(o.scope) \/ ToSet(o.scope) # ToSet(o.named) -> "the invariant's grammar is offered other variables in scope"
          [] OTHER -> ""
      miss == {l \in loops : IdKey(l[2]) \notin DOMAIN c.loops}
      bads == {IF c.lang = "py" THEN bad(l) ELSE badC(l) : l \in loops} \ {""}
  IN IF miss # {} THEN "a loop has no invariant" ELSE IF bads # {} THEN CHOOSE b \in bads : TRUE ELSE ""

(* the obligations themselves are sound: a run of the program (at most 40 loop  *)
(* rounds) that stays inside the domain at loop heads returns a value the       *)
(* strongest meaning allows                                                    *)
RECURSIVE Exec(_, _, _, _)
(* <<"ret", value>>, <<"env", env>> or <<"out">> *)
RECURSIVE ToMark(_)
ToMark(k) == IF k[1][1] = "mark" THEN k ELSE ToMark(Tail(k))
Exec(k, env, ty, fuel) ==
  IF k = <<>> THEN <<"env", env, 0>>
  ELSE IF fuel = 0 THEN <<"out">>
  ELSE LET s == k[1]  r == Tail(k)  go(q, e) == Exec(q, e, ty, fuel - 1) IN
  CASE s[1] = "return" -> <<"ret", Ev(s[2], env)>>
    [] s[1] = "if" -> go((IF Ev(s[2], env) THEN s[3] ELSE s[4]) \o r, env)
    [] s[1] \in LoopKinds -> IF \E v \in WritesOf(s) : v \notin DOMAIN env \/ env[v] \notin Dom(ty[v]) THEN <<"out">>
                         ELSE IF s[1] = "do" \/ Ev(s[3], env) THEN go(s[4] \o << <<"mark", s>> >> \o r, env) ELSE go(r, env)
    [] s[1] = "mark" -> LET l == s[2] IN
                         IF l[1] = "while" THEN go(<<l>> \o r, env)
                         ELSE IF l[1] = "for" THEN go(l[5] \o <<l>> \o r, env)
                         ELSE IF Ev(l[3], env) THEN go(<<l>> \o r, env) ELSE go(r, env)
    [] s[1] = "break" -> go(Tail(ToMark(r)), env)
    [] s[1] = "cont" -> go(ToMark(r), env)
    [] s[1] = "assign" -> go(r, (s[2] :> Ev(s[3], env)) @@ env)
    [] s[1] = "append" -> go(r, [env EXCEPT ![s[2]] = Append(@, Ev(s[3], env))])
    [] s[1] = "sadd" -> go(r, [env EXCEPT ![s[2]] = @ \cup {Ev(s[3], env)}])
    [] s[1] = "sremove" -> go(r, [env EXCEPT ![s[2]] = @ \ {Ev(s[3], env)}])
Unsound(c, p, obs) ==
  LET f == p.fns[1]  base == Close(obs, {})
      run(v) == LET as == [i \in DOMAIN f.ps |-> v[p.vars[i][1]]] IN
                LET e == Exec(f.body, [n \in ToSet(f.ps) |-> as[CHOOSE i \in DOMAIN f.ps : f.ps[i] = n]], c.ptypes[f.name], 60) IN
                e[1] = "ret" /\ <<"ps:" \o f.name, Append(as, e[2])>> \notin base
  IN Len(p.calls) = 1 /\ p.pre[1] = "none" /\ \E v \in Vals(p.vars) : run(v)

Known == {"var", "int", "bool", "ite", "and", "or", "add", "mul", "sub", "div", "mod", "lt", "le", "gt", "ge", "eq", "not", "implies", "llen", "lget",
          "lempty", "lappend", "lprepend", "lconcat", "sempty", "ssingleton", "sunion", "sminus", "sinsert", "sremove", "smember", "tuple", "tget", "call"}
RECURSIVE Odd(_)          \* operations no program gives rise to
Odd(e) == (IF e[1] \notin Known \/ (e[1] = "call" /\ e[2] # "g" /\ \A q \in {"inv", "ps:"} : SubSeq(e[2], 1, 3) # q) THEN {e[1] \o " " \o ToString(e[2])} ELSE {})
          \cup UNION {Odd(e[3][i]) : i \in DOMAIN e[3]}

Judge(c) ==
  LET p == c.prog
      off == Offered(c, p)
  IN IF c.err # "" THEN "the front end rejects the program: " \o c.err
     ELSE IF off # "" THEN off
     ELSE
     LET ids == {l[2] : l \in UNION {Loops(f.body) : f \in ToSet(p.fns)}}
         cx == [inv |-> [id \in ids |-> c.loops[IdKey(id)].args], types |-> c.ptypes, graph |-> c.lang # "py"]
         obs == Obligations(cx, p)
         vcs == UNION {Conjuncts(c.asserts[i]) : i \in DOMAIN c.asserts}
         unk == UNION {FreeVars(v) : v \in vcs} \ DOMAIN c.vars
     IN IF Unsound(c, p, obs) THEN "SPECERROR a run of the program violates the strongest meaning"
        ELSE IF UNION {Odd(v) : v \in vcs} # {} THEN "the conditions use an unknown operation: " \o ToString(UNION {Odd(v) : v \in vcs})
        ELSE IF unk # {} THEN "the conditions mention a variable that is not declared"
        ELSE LET rs == UNION {Residuals(v, c.vars) : v \in vcs}
                 bad == {m \in Meanings(obs) : Ok(obs, m) # Valid(rs, m)}
             IN IF bad = {} THEN "ok"
                ELSE IF \E m \in bad : Ok(obs, m) THEN "the conditions fail under a meaning of the predicates that meets every obligation"
                ELSE "the conditions hold under a meaning of the predicates that misses an obligation"

VARIABLE i
Init == i \in DOMAIN J.cases
Next == FALSE /\ UNCHANGED i
Spec == Init /\ [][Next]_i
Verdict == PrintT("VERDICT " \o ToJson(<<i - 1, Judge(J.cases[i])>>))
=============================================================================
