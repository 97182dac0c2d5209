--------------------------------- MODULE Ops --------------------------------
(* The construction operations the library offers to its users, with their   *)
(* types and the meaning (kind of MLSem) of the term they build.             *)
(*   [op: name, k: kind, pl: payload, args: argument types, res: type]       *)
(* Types: I Int, B Bool, L List[Int], M Matrix[Int], N List[List[Int]],      *)
(*        X Tensor3D[Int], S Set[Int], T Tuple[Int, Int],                    *)
(*        U Tuple[Int, Bool, Int];  "#" is a plain Python integer.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Op(o, k, pl, as, r) == [op |-> o, k |-> k, pl |-> pl, args |-> as, res |-> r]

(* operators available as raw expression classes *)
RawOps == {
  Op("Add1", "add", "", <<"I">>, "I"), Op("Add2", "add", "", <<"I", "I">>, "I"),
  Op("Add3", "add", "", <<"I", "I", "I">>, "I"),
  Op("Sub", "sub", "", <<"I", "I">>, "I"),
  Op("Mul1", "mul", "", <<"I">>, "I"), Op("Mul2", "mul", "", <<"I", "I">>, "I"),
  Op("Mul3", "mul", "", <<"I", "I", "I">>, "I"),
  Op("Div", "div", "", <<"I", "I">>, "I"), Op("Mod", "mod", "", <<"I", "I">>, "I"),
  Op("EqI", "eq", "", <<"I", "I">>, "B"), Op("EqB", "eq", "", <<"B", "B">>, "B"),
  Op("EqS", "eq", "", <<"S", "S">>, "B"), Op("EqL", "eq", "", <<"L", "L">>, "B"),
  Op("EqT", "eq", "", <<"T", "T">>, "B"), Op("EqM", "eq", "", <<"M", "M">>, "B"),
  Op("Lt", "lt", "", <<"I", "I">>, "B"), Op("Le", "le", "", <<"I", "I">>, "B"),
  Op("Gt", "gt", "", <<"I", "I">>, "B"), Op("Ge", "ge", "", <<"I", "I">>, "B"),
  Op("And1", "and", "", <<"B">>, "B"), Op("And2", "and", "", <<"B", "B">>, "B"),
  Op("And3", "and", "", <<"B", "B", "B">>, "B"),
  Op("Or1", "or", "", <<"B">>, "B"), Op("Or2", "or", "", <<"B", "B">>, "B"),
  Op("Or3", "or", "", <<"B", "B", "B">>, "B"),
  Op("Not", "not", "", <<"B">>, "B"), Op("Implies", "implies", "", <<"B", "B">>, "B"),
  Op("IteI", "ite", "", <<"B", "I", "I">>, "I"), Op("IteB", "ite", "", <<"B", "B", "B">>, "B"),
  Op("IteL", "ite", "", <<"B", "L", "L">>, "L"), Op("IteM", "ite", "", <<"B", "M", "M">>, "M"),
  Op("IteS", "ite", "", <<"B", "S", "S">>, "S"), Op("IteT", "ite", "", <<"B", "T", "T">>, "T"),
  Op("LetI", "let", "z", <<"I", "I">>, "I"), Op("LetIB", "let", "z", <<"I", "B">>, "B"),
  Op("LetL", "let", "zs", <<"L", "I">>, "I"), Op("LetIL", "let", "z", <<"I", "L">>, "L"),
  Op("Tuple2", "tuple", "", <<"I", "I">>, "T"), Op("Tuple3", "tuple", "", <<"I", "B", "I">>, "U"),
  Op("CallTupleGet0", "tget", 0, <<"T">>, "I"), Op("CallTupleGet1", "tget", 1, <<"T">>, "I"),
  Op("CallTupleGet3B", "tget", 1, <<"U">>, "B"), Op("CallTupleGet3I", "tget", 2, <<"U">>, "I"),
  Op("TupleGet0", "tget", 0, <<"T">>, "I"), Op("TupleGet1", "tget", 1, <<"T">>, "I"),
  Op("CallF", "call", "fsub", <<"I", "I">>, "I"), Op("CallP", "call", "pgt", <<"I", "L">>, "B"),
  Op("CallC", "call", "czero", <<>>, "I"), Op("CallR", "call", "rsum", <<"L">>, "I"),
  Op("CallLT", "call", "mklist", <<"I", "B">>, "L"), Op("CallTup", "call", "mkpair", <<"I", "I">>, "T"),
  Op("IntExp", "iexp", "", <<"I">>, "I"),
  Op("CallMember", "smember", "", <<"I", "S">>, "B"), Op("CallSubset", "ssubset", "", <<"S", "S">>, "B")
}

(* operators of the wrapper objects *)
ObjOps == {
  Op("o.add", "add", "", <<"I", "I">>, "I"), Op("o.add.r#", "add", "", <<"I", "#">>, "I"), Op("o.add.l#", "add", "", <<"#", "I">>, "I"),
  Op("o.sub", "sub", "", <<"I", "I">>, "I"), Op("o.sub.r#", "sub", "", <<"I", "#">>, "I"), Op("o.sub.l#", "sub", "", <<"#", "I">>, "I"),
  Op("o.mul", "mul", "", <<"I", "I">>, "I"), Op("o.mul.r#", "mul", "", <<"I", "#">>, "I"), Op("o.mul.l#", "mul", "", <<"#", "I">>, "I"),
  Op("o.div", "div", "", <<"I", "I">>, "I"), Op("o.div.r#", "div", "", <<"I", "#">>, "I"), Op("o.div.l#", "div", "", <<"#", "I">>, "I"),
  Op("o.mod", "mod", "", <<"I", "I">>, "I"), Op("o.mod.r#", "mod", "", <<"I", "#">>, "I"), Op("o.mod.l#", "mod", "", <<"#", "I">>, "I"),
  Op("o.eq", "eq", "", <<"I", "I">>, "B"), Op("o.eq.r#", "eq", "", <<"I", "#">>, "B"), Op("o.eq.l#", "eq", "", <<"#", "I">>, "B"),
  Op("o.ne", "ne", "", <<"I", "I">>, "B"), Op("o.ne.r#", "ne", "", <<"I", "#">>, "B"), Op("o.ne.l#", "ne", "", <<"#", "I">>, "B"),
  Op("o.lt", "lt", "", <<"I", "I">>, "B"), Op("o.lt.r#", "lt", "", <<"I", "#">>, "B"), Op("o.lt.l#", "lt", "", <<"#", "I">>, "B"),
  Op("o.le", "le", "", <<"I", "I">>, "B"), Op("o.le.r#", "le", "", <<"I", "#">>, "B"), Op("o.le.l#", "le", "", <<"#", "I">>, "B"),
  Op("o.gt", "gt", "", <<"I", "I">>, "B"), Op("o.gt.r#", "gt", "", <<"I", "#">>, "B"), Op("o.gt.l#", "gt", "", <<"#", "I">>, "B"),
  Op("o.ge", "ge", "", <<"I", "I">>, "B"), Op("o.ge.r#", "ge", "", <<"I", "#">>, "B"), Op("o.ge.l#", "ge", "", <<"#", "I">>, "B"),
  Op("o.And2", "and", "", <<"B", "B">>, "B"), Op("o.And3", "and", "", <<"B", "B", "B">>, "B"),
  Op("o.Or2", "or", "", <<"B", "B">>, "B"), Op("o.Or3", "or", "", <<"B", "B", "B">>, "B"),
  Op("o.Not", "not", "", <<"B">>, "B"), Op("o.Beq", "eq", "", <<"B", "B">>, "B"), Op("o.Bne", "ne", "", <<"B", "B">>, "B"),
  Op("o.implies", "implies", "", <<"B", "B">>, "B"),
  Op("o.iteI", "ite", "", <<"B", "I", "I">>, "I"), Op("o.iteL", "ite", "", <<"B", "L", "L">>, "L"),
  Op("o.make_tuple", "tuple", "", <<"I", "I">>, "T"), Op("o.make_tuple3", "tuple", "", <<"I", "B", "I">>, "U"),
  Op("o.tget0", "tget", 0, <<"T">>, "I"), Op("o.tget1", "tget", 1, <<"T">>, "I"), Op("o.tget3B", "tget", 1, <<"U">>, "B")
}

ListOps(t, e) == {
  Op("o.len", "llen", "", <<t>>, "I"), Op("o.get", "lget", "", <<t, "I">>, e), Op("o.get#", "lget", "", <<t, "#">>, e),
  Op("o.tail", "ltail", "", <<t, "I">>, t), Op("o.tail#", "ltail", "", <<t, "#">>, t),
  Op("o.take", "ltake", "", <<t, "I">>, t), Op("o.take#", "ltake", "", <<t, "#">>, t),
  Op("o.slice", "lslice", "", <<t, "I", "I">>, t), Op("o.slice##", "lslice", "", <<t, "#", "#">>, t),
  Op("o.slicelen", "lslicelen", "", <<t, "I", "I">>, t), Op("o.slicelen##", "lslicelen", "", <<t, "#", "#">>, t),
  Op("o.append", "lappend", "", <<t, e>>, t), Op("o.prepend", "lprepend", "", <<e, t>>, t) }

VecOps == ListOps("L", "I") \cup {
  Op("o.concat", "lconcat", "", <<"L", "L">>, "L"), Op("o.leq", "eq", "", <<"L", "L">>, "B"),
  Op("o.L.empty", "lempty", "", <<>>, "L") }

MatOps == ListOps("M", "L") \cup {
  Op("o.M.empty", "lempty", "", <<>>, "M"), Op("o.leq", "eq", "", <<"M", "M">>, "B"),
  Op("o.col_slice", "mcolslice", "", <<"M", "I", "I">>, "M"), Op("o.col_slice##", "mcolslice", "", <<"M", "#", "#">>, "M"),
  Op("o.col_slicelen", "mcolslicelen", "", <<"M", "I", "I">>, "M"), Op("o.col_slicelen##", "mcolslicelen", "", <<"M", "#", "#">>, "M"),
  Op("o.col_vec", "mcolvec", "", <<"M", "I">>, "L"), Op("o.transpose", "mtranspose", "", <<"M">>, "M") }

NestOps == ListOps("N", "L") \cup { Op("o.N.empty", "lempty", "", <<>>, "N"), Op("o.leq", "eq", "", <<"N", "N">>, "B") }

TensorOps == (ListOps("X", "M")) \cup { Op("o.X.empty", "lempty", "", <<>>, "X") }

SetOps == {
  Op("o.S.empty", "sempty", "", <<>>, "S"), Op("o.S.singleton", "ssingleton", "", <<"I">>, "S"),
  Op("o.S.add", "sinsert", "", <<"I", "S">>, "S"), Op("o.S.remove", "sremove", "", <<"S", "I">>, "S"),
  Op("o.S.union", "sunion", "", <<"S", "S">>, "S"), Op("o.S.difference", "sminus", "", <<"S", "S">>, "S"),
  Op("o.S.contains", "smember", "", <<"I", "S">>, "B"), Op("o.S.eq", "eq", "", <<"S", "S">>, "B") }

AllOps == RawOps \cup ObjOps \cup VecOps \cup MatOps \cup NestOps \cup TensorOps \cup SetOps

VarL(n, t) == [t |-> t, e |-> <<"var", n, <<>>, t>>]
IntL(n) == [t |-> "I", e |-> <<"int", n, <<>>, "">>]
BoolL(b) == [t |-> "B", e |-> <<"bool", b, <<>>, "">>]

Leaves == { VarL("x", "I"), VarL("y", "I"), VarL("z", "I"), VarL("p", "B"), VarL("q", "B"),
            VarL("xs", "L"), VarL("ys", "L"), VarL("zs", "L"), VarL("m", "M"), VarL("n", "M"),
            VarL("w", "N"), VarL("u", "X"), VarL("s", "S"), VarL("r", "S"), VarL("t", "T"), VarL("v", "U"),
            IntL(0), IntL(1), IntL(2), IntL(3), IntL(-1), IntL(-7), BoolL(TRUE), BoolL(FALSE) }

(* user functions: params with types, result type, recursive?, body *)
V(n, t) == <<"var", n, <<>>, t>>
N(k, pl, as, how) == <<k, pl, as, how>>
K(n) == <<"int", n, <<>>, "">>
Fn(ps, ts, r, rec, body) == [ps |-> ps, ts |-> ts, res |-> r, rec |-> rec, body |-> body]
UserFns == [
  fsub |-> Fn(<<"a", "b">>, <<"I", "I">>, "I", FALSE,
              N("sub", "", <<V("a", "I"), N("mul", "", <<K(2), V("b", "I")>>, "Mul2")>>, "Sub")),
  pgt |-> Fn(<<"k", "l">>, <<"I", "L">>, "B", FALSE,
              N("gt", "", <<N("llen", "", <<V("l", "L")>>, "o.len"), V("k", "I")>>, "Gt")),
  czero |-> Fn(<<>>, <<>>, "I", FALSE, K(5)),
  rsum |-> Fn(<<"l">>, <<"L">>, "I", TRUE,
              N("ite", "", <<N("eq", "", <<N("llen", "", <<V("l", "L")>>, "o.len"), K(0)>>, "EqI"), K(0),
                  N("add", "", <<N("lget", "", <<V("l", "L"), K(0)>>, "o.get"),
                     N("call", "rsum", <<N("ltail", "", <<V("l", "L"), K(1)>>, "o.tail")>>, "CallR")>>, "Add2")>>, "IteI")),
  mklist |-> Fn(<<"a", "c">>, <<"I", "B">>, "L", FALSE,
              N("ite", "", <<V("c", "B"), N("lappend", "", <<N("lempty", "", <<>>, "o.L.empty"), V("a", "I")>>, "o.append"),
                  N("lempty", "", <<>>, "o.L.empty")>>, "IteL")),
  mkpair |-> Fn(<<"a", "b">>, <<"I", "I">>, "T", FALSE, N("tuple", "", <<V("b", "I"), V("a", "I")>>, "Tuple2"))
]
(* substitutions: sequences of <<variable, term>>; all applied at once *)
Substs == <<
  << <<"x", N("add", "", <<V("y", "I"), K(1)>>, "Add2")>>, <<"p", N("not", "", <<V("q", "B")>>, "Not")>> >>,
  << <<"x", V("y", "I")>>, <<"y", V("x", "I")>>, <<"p", V("q", "B")>>, <<"q", V("p", "B")>>, <<"xs", V("ys", "L")>>, <<"ys", V("xs", "L")>> >>,
  << <<"y", K(3)>>, <<"z", N("sub", "", <<V("x", "I"), V("y", "I")>>, "Sub")>>,
     <<"xs", N("lappend", "", <<V("ys", "L"), V("x", "I")>>, "o.append")>>, <<"q", <<"bool", TRUE, <<>>, "">>>>,
     <<"ys", N("lconcat", "", <<V("xs", "L"), V("zs", "L")>>, "o.concat")>>, <<"s", N("sinsert", "", <<V("y", "I"), V("r", "S")>>, "o.S.add")>>,
     <<"m", V("n", "M")>>, <<"t", N("tuple", "", <<V("y", "I"), V("x", "I")>>, "Tuple2")>> >>
>>
=============================================================================
