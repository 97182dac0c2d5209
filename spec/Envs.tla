-------------------------------- MODULE Envs --------------------------------
(* Variable assignments the emitted texts are evaluated under.               *)
EXTENDS Values

Li(s) == L([i \in DOMAIN s |-> I(s[i])])
Ma(rows) == L([i \in DOMAIN rows |-> Li(rows[i])])
Te(ms) == L([i \in DOMAIN ms |-> Ma(ms[i])])
Si(s) == S({I(n) : n \in s})

Env(x, y, z, p, q, xs, ys, zs, m, n, w, u, s, r, t, v) ==
  [x |-> I(x), y |-> I(y), z |-> I(z), p |-> B(p), q |-> B(q), xs |-> Li(xs), ys |-> Li(ys), zs |-> Li(zs),
   m |-> Ma(m), n |-> Ma(n), w |-> Ma(w), u |-> Te(u), s |-> Si(s), r |-> Si(r),
   t |-> T(<<I(t[1]), I(t[2])>>), v |-> T(<<I(v[1]), B(v[2] = 1), I(v[3])>>)]

EnvSeq == <<
  Env(0, 1, 2, TRUE, FALSE, <<5, 7, 9>>, <<4>>, <<>>, <<<<1, 2, 3>>, <<4, 5, 6>>>>, <<<<7>>, <<8>>, <<9>>>>, <<<<3>>, <<5, 6>>>>,
      << <<<<1, 2>>>>, <<<<3>>, <<4>>>> >>, {3, 5}, {5, 1}, <<7, 2>>, <<4, 1, 6>>),
  Env(2, 1, 3, FALSE, TRUE, <<3, 1, 2, 8>>, <<6, 5, 4>>, <<2, 0>>, <<<<1>>, <<2>>, <<3>>>>, <<<<4, 5>>>>, <<<<1, 2>>, <<3>>, <<4>>>>,
      << <<<<5>>>>, <<<<6>>>>, <<<<7>>>> >>, {1, 2}, {2}, <<1, 0>>, <<1, 0, 9>>),
  Env(1, 2, 1, TRUE, TRUE, <<2, 4>>, <<2, 4>>, <<1, 2, 3>>, <<<<1, 2>>, <<3, 4>>>>, <<<<1, 2>>, <<3, 4>>>>, <<<<2, 4>>>>,
      << <<<<1, 2>>, <<3, 4>>>> >>, {2}, {2}, <<3, 3>>, <<0, 1, 2>>),
  Env(-3, 2, 5, FALSE, FALSE, <<>>, <<8>>, <<7>>, <<>>, <<<<1, 0>>, <<0, 1>>>>, <<>>, <<>>, {}, {4}, <<-1, 4>>, <<-5, 0, 5>>),
  Env(7, -4, 0, TRUE, FALSE, <<1, -2, 3, 0, 5>>, <<>>, <<9, 8>>, <<<<5, 6, 7, 8>>>>, <<<<1>>>>, <<<<1>>, <<2>>, <<3>>, <<4>>>>,
      << <<<<1>>, <<2>>>>, <<<<3>>, <<4>>>> >>, {1, 4, 7}, {4}, <<0, 5>>, <<2, 1, 1>>),
  Env(1, 3, 6, FALSE, TRUE, <<6, 6>>, <<0, 1, 2>>, <<4>>, <<<<9, 8, 7>>, <<6, 5, 4>>, <<3, 2, 1>>>>, <<>>, <<<<>>, <<1, 2, 3>>>>,
      << <<<<2>>>> >>, {6}, {}, <<6, 1>>, <<3, 0, 3>>)
>>

VarSorts == [x |-> "Int", y |-> "Int", z |-> "Int", p |-> "Bool", q |-> "Bool",
  xs |-> "(MLList Int)", ys |-> "(MLList Int)", zs |-> "(MLList Int)", m |-> "(MLList (MLList Int))", n |-> "(MLList (MLList Int))",
  w |-> "(MLList (MLList Int))", u |-> "(MLList (MLList (MLList Int)))", s |-> "(Set Int)", r |-> "(Set Int)",
  t |-> "(Tuple2 Int Int)", v |-> "(Tuple3 Int Bool Int)"]
SortOfType == [I |-> "Int", B |-> "Bool", L |-> "(MLList Int)", M |-> "(MLList (MLList Int))", N |-> "(MLList (MLList Int))",
  X |-> "(MLList (MLList (MLList Int)))", S |-> "(Set Int)", T |-> "(Tuple2 Int Int)", U |-> "(Tuple3 Int Bool Int)"]
=============================================================================
