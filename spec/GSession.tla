------------------------------ MODULE GSession ------------------------------
(* A session: a client creates objects of the library and operates on them.  *)
(* The state is the heap, a sequence of entries                              *)
(*   [live, kind, e]                                                         *)
(* where kind says what the object is to the client and e is what it means:  *)
(*   "elem"   an object of a concrete function class      e: expression tree *)
(*   "expr"   a FunctionExpression                        e: expression tree *)
(*   "gs"     a GSpline                                   e: spline tree     *)
(*   "gll"    a Gauss-Lobatto-Lagrange spline             e: spline tree     *)
(*   "basis"  a basis                                     e: [name,dim,pars] *)
(*   "interp" an interpolator                             e: [b, n, ni]      *)
(*   "sob"    a Sobolev functional                        e: [b, wp, w]      *)
(*   "lin"    a linear functional on collocation splines  e: functional tree *)
(*   "sd"     the Sobolev distance to a function          e: [f, ng, ni]     *)
(*   "opts"   the options given to the solver             e: [n, t, v] each  *)
(*   "arr"    an array that a query returned              e: its numbers     *)
(* Every operation is deterministic: Expect(heap, st) is the set of outcomes *)
(* allowed for the step st ("ok" or exception classes) and After(heap,st,ev) *)
(* the heap after it succeeded.  An operand passed as a temporary ("r") does *)
(* not exist after the call, whatever its outcome; one passed by name ("l")  *)
(* is unchanged.                                                             *)
EXTENDS GFun

Entry(kind, e) == [live |-> TRUE, kind |-> kind, e |-> e]
Has(r, f) == f \in DOMAIN r
Kill(h, S) == [i \in 1..Len(h) |-> IF i \in S THEN [h[i] EXCEPT !.live = FALSE] ELSE h[i]]
(* objects that cease to exist by being passed as temporaries *)
Consumed(st) == (IF Has(st, "ca") /\ st.ca = "r" THEN {st.a} ELSE {})
                \cup (IF Has(st, "cb") /\ st.cb = "r" THEN {st.b} ELSE {})
                \cup (IF st.op = "drop" THEN {st.a} ELSE {})
(* a rejected step consumes its temporaries all the same; the target of a    *)
(* rejected element-wise assignment is left valid but unspecified            *)
AfterReject(h, st) == Kill(h, Consumed(st) \cup (IF st.op = "gllset" THEN {st.a} ELSE {}))

(* objects that a step changes in place *)
Target(st) == IF st.op \in {"addeq", "muleq", "gsaeq", "gllasg", "gllasgf", "gllset", "fupd", "optset"} THEN {st.a} ELSE {}

Ok == {"ok"}
Invalid == {"invalid_argument"}
Refused == {"runtime_error", "invalid_argument"}
MatShape(m, r, c) == Len(m) = r /\ \A i \in 1..r : Len(m[i]) = c
Need(c) == IF c THEN Ok ELSE Invalid

(* ---- shapes (static facts needed to say what is rejected) *)
GsShapeOk(e) == Len(e.c) = e.n * e.b.dim * Len(e.tau)
BinResult(f) == IF f = "dot" THEN "elem" ELSE "expr"

(* interpolation arguments *)
GoodTaus(taus) == \A i \in 1..Len(taus) : ~RLt(R(taus[i]), R("1e-6"))
InterpExpect(b, n, ni, taus, wp) ==
  IF b.dim % 2 = 1 THEN Invalid
  ELSE IF ~GoodTaus(taus) THEN Invalid
  ELSE IF Len(taus) # ni THEN {"invalid_argument", "logic_error"}
  ELSE IF Len(wp) # ni + 1 \/ \E i \in 1..Len(wp) : Len(wp[i]) # n THEN Invalid
  ELSE Ok

(* ---- optimal paths.  The interval lengths that an optimizer finds (the    *)
(* solver is a stand-in that answers what the session says) for a path       *)
(* through waypoints: which basis, cost and execution time each path has     *)
DefaultOptions == <<
  [n |-> "linear_solver", t |-> "s", v |-> "mumps"], [n |-> "jacobian_approximation", t |-> "s", v |-> "exact"],
  [n |-> "fast_step_computation", t |-> "s", v |-> "yes"], [n |-> "derivative_test", t |-> "s", v |-> "none"],
  [n |-> "hessian_approximation", t |-> "s", v |-> "limited-memory"], [n |-> "jac_c_constant", t |-> "s", v |-> "yes"],
  [n |-> "print_timing_statistics", t |-> "s", v |-> "no"], [n |-> "dependency_detector", t |-> "s", v |-> "none"],
  [n |-> "dependency_detection_with_rhs", t |-> "s", v |-> "no"], [n |-> "print_level", t |-> "i", v |-> "0"],
  [n |-> "tol", t |-> "d", v |-> "0.001"] >>
SetOpt(o, st) ==
  LET new == [n |-> st.n, t |-> st.t, v |-> st.v] IN
  IF \E i \in 1..Len(o) : o[i].n = st.n THEN [i \in 1..Len(o) |-> IF o[i].n = st.n THEN new ELSE o[i]] ELSE Append(o, new)
OrderOf(fn) == CASE fn = "broken" -> 1 [] fn = "acc" -> 2 [] fn = "jerk" -> 3 [] fn = "snap" -> 4 [] fn = "crackle" -> 5
RojasAlpha(k) == LET q == RMul(R(k), R(k)) IN RStr(RDiv(R(1), RAdd(R(1), RDiv(R(1), RMul(q, q)))))
OptBasis(fn, k) == IF fn = "rojas" THEN [name |-> "basis0101", dim |-> 6, pars |-> << RojasAlpha(k) >>]
                   ELSE [name |-> "legendre", dim |-> 2 * OrderOf(fn), pars |-> <<>>]
OptWeights(fn, k) == IF fn = "rojas" THEN LET a == RojasAlpha(k) IN << <<1, a>>, <<3, RStr(RSub(R(1), R(a)))>> >>
                     ELSE << << OrderOf(fn), "1" >> >>
OptTime(fn, ni) == RStr(IF fn = "rojas" THEN RDiv(R(4 * ni), RSqrt(R(2))) ELSE R(ni))
(* the named paths are run through in one second *)
OptScaled(st, taus) ==
  LET f == RDiv(R(1), RSumLits(taus)) IN
  IF st.fn = "sobolev" THEN [b |-> st.b1, taus |-> taus]
  ELSE [b |-> IF st.fn = "rojas" THEN [st.b1 EXCEPT !.pars = << Alpha0101(st.b1.pars[1], f) >>] ELSE st.b1,
        taus |-> [i \in 1..Len(taus) |-> RMul(f, R(taus[i]))]]

(* ---- outcomes *)
Expect(h, st) ==
  LET A == h[st.a].e B == h[st.b].e IN
  CASE st.op = "new" -> IF st.t = "gs" THEN Need(GsShapeOk(st.e)) ELSE Ok
    [] st.op = "bin" -> Need(OkBin(st.f, A, B))
    [] st.op = "addeq" -> Need(OkAddEq(A, B))
    [] st.op = "muleq" -> Need(OkMulEq(A, B))
    [] st.op \in {"neg", "scal", "deriv", "copy", "drop"} -> Ok
    (* splines *)
    [] st.op \in {"gsbin", "gsaeq"} -> Need(SameSpace(Spl(A), Spl(B)))
    [] st.op \in {"gsneg", "gsscal", "gseq", "gsrand"} -> Ok
    [] st.op = "gsscale" -> Need(~RLt(R(st.T), R("1e-8")))
    [] st.op = "gsbound" ->
         LET n == Spl(A).n IN
         Need(/\ Len(st.v) + Len(st.ac) > 0
              /\ ~RLt(R(st.dt), R("1e-8"))
              /\ st.mode = "num" \/ (Len(st.v) \in {0, n} /\ Len(st.ac) \in {0, n}))
    (* collocation splines *)
    [] st.op = "gllnew" -> IF st.t = "coef" THEN Need(Len(st.c) = st.n * st.ng * Len(st.tau)) ELSE Ok
    [] st.op = "gllapp" -> Ok
    [] st.op = "gllid" -> Ok
    [] st.op = "gllbin" ->
         LET x == Spl(A) y == Spl(B) IN
         IF st.f = "mul"
         THEN Need(/\ x.b.dim = y.b.dim /\ Len(x.tau) = Len(y.tau)
                   /\ SameNum(x.d[1], y.d[1]) /\ SameNum(x.d[2], y.d[2]) /\ SameLits(x.tau, y.tau)
                   /\ (x.n = 1 \/ y.n = 1))
         ELSE Need(SameSpace(x, y))
    [] st.op \in {"gllscal", "gllneg", "gllnorm", "gllvalat"} ->
         IF st.op = "gllvalat" THEN Need(st.i < Spl(A).b.dim * Len(Spl(A).tau)) ELSE Ok
    [] st.op = "gllinv" -> Need(Spl(A).n = 1)
    [] st.op = "gllpow" -> Need(Spl(A).n = 1)
    [] st.op = "glladdv" -> Need(Len(st.v) = Spl(A).n)
    [] st.op = "gllasg" ->
         LET x == Spl(A) y == Spl(B) IN
         Need(x.b.dim = y.b.dim /\ Len(x.tau) = Len(y.tau) /\ x.n = y.n)
    [] st.op = "gllasgf" -> Need(Spl(A).n = Cod(B))
    [] st.op = "gllset" ->
         LET x == Spl(A) IN
         IF Len(st.v) # x.b.dim * Len(x.tau) THEN {"runtime_error", "invalid_argument"}
         ELSE Need(\A i \in 1..Len(st.v) : Len(st.v[i]) = x.n)
    [] st.op = "gllfromgs" -> Ok
    (* functionals on collocation splines *)
    [] st.op \in {"fnew", "fneg", "fscal", "fcopy", "fapp", "fmul", "fbin", "sdnew", "wrap"} -> Ok
    [] st.op = "fupd" ->
         CASE st.t \in {"tras", "trasf"} -> Need(Cod(B) = A.n)
           [] st.t = "inttau" -> Need(Len(st.tau) = Len(A.tau))
           [] st.t = "mats" -> IF Len(st.M) = A.ng * A.ni /\ \A i \in 1..Len(st.M) : MatShape(st.M[i], A.rows, A.cols) THEN Ok ELSE Refused
           [] st.t = "matc" -> IF MatShape(st.M, A.rows, A.cols) THEN Ok ELSE Refused
           [] OTHER -> Ok
    [] st.op = "sdval" -> Need(SameSpace(Spl([k |-> "gapp", a |-> A.f, ng |-> A.ng, ni |-> A.ni]), Spl(B)))
    [] st.op \in {"optnew", "optset"} -> Ok
    [] st.op = "opt" -> InterpExpect(st.b1, Len(st.wp[1]), Len(st.wp) - 1, st.ans, st.wp)
    (* saving and restoring (Python) *)
    [] st.op = "ser" -> Ok
    [] st.op = "serbad" -> IF st.how = "len" THEN Invalid ELSE {"TypeError"}
    (* bases *)
    [] st.op = "bnew" -> IF st.how = "get" /\ st.b1.name = "basis0101" /\ Len(st.b1.pars) # 1 THEN Invalid
                         ELSE IF st.b1.name \notin {"legendre", "lagrange", "basis0101"} THEN Invalid ELSE Ok
    [] st.op \in {"bcopy", "beq", "beval", "bevaltau", "bder", "bcont", "bgsd"} -> Ok
    [] st.op = "bgram" -> IF A.name = "basis0101" /\ st.m > 3 THEN Invalid ELSE Ok
    [] st.op = "bgramtau" -> IF A.name = "basis0101" /\ st.m \notin {1, 3} THEN Invalid ELSE Ok
    (* interpolation *)
    [] st.op = "inew" -> Need(h[st.a].e.dim % 2 = 0)
    [] st.op \in {"isolve", "iinterp", "icoefd"} -> InterpExpect(A.b, A.n, A.ni, st.taus, st.wp)
    [] st.op = "finterp" -> InterpExpect(A, Len(st.wp[1]), Len(st.wp) - 1, st.taus, st.wp)
    [] st.op = "fpw" -> InterpExpect([dim |-> st.nc], Len(st.wp[1]), Len(st.wp) - 1, st.taus, st.wp)
    [] st.op = "snew" -> Need(h[st.a].e.dim % 2 = 0)
    [] st.op \in {"sval", "sgrad"} -> InterpExpect(A.b, Len(A.wp[1]), Len(A.wp) - 1, st.taus, A.wp)
    (* quadrature *)
    [] st.op \in {"qpw", "qcomp", "qdom", "integ"} -> Ok
    [] st.op = "ip" -> Need(SameDom(A, B) /\ Cod(A) = Cod(B))

(* ---- effect of a step that succeeded *)
Push(h, kind, e) == Append(h, Entry(kind, e))
(* a spline as reported by the implementation (used only where what the      *)
(* result must satisfy is stated as conditions on it, in CheckRet)           *)
Reported(ev) ==
  IF Has(ev, "gs") THEN [k |-> "gs", d |-> ev.gs.d, n |-> ev.gs.n, b |-> ev.gs.b, c |-> ev.gs.c, tau |-> ev.gs.tau]
  ELSE [k |-> "gs", d |-> <<"0", "1">>, n |-> 1, b |-> [name |-> "legendre", dim |-> 1, pars |-> <<>>], c |-> <<"0">>, tau |-> <<"1">>]

BoundFactor(x, st, nseg) ==
  LET v == DerSpl(x, 1) a == DerSpl(x, 2)
      At(y, i) == JetOf(y, GridPoint(x.d, nseg, i), 0)
      Bnd(q, c) == R(IF st.mode = "num" THEN q[1] ELSE q[c])
      Vr(c) == RMaxSeq([i \in 1..(nseg + 1) |-> RDiv(RAbs(At(v, i - 1)[c][1]), Bnd(st.v, c))])
      Ar(c) == RSqrt(RMaxSeq([i \in 1..(nseg + 1) |-> RDiv(RAbs(At(a, i - 1)[c][1]), Bnd(st.ac, c))]))
      mv == IF st.v = <<>> THEN R(0) ELSE RMaxSeq([c \in 1..x.n |-> Vr(c)])
      ma == IF st.ac = <<>> THEN R(0) ELSE RMaxSeq([c \in 1..x.n |-> Ar(c)])
  IN RMax(mv, ma)

EqualTaus(d, ni) == LET x == RStr(RDiv(RSub(R(d[2]), R(d[1])), R(ni))) IN [i \in 1..ni |-> x]
NewLin(h, st) ==
  CASE st.t = "der1" -> [k |-> "fder", b |-> GLBasis(st.ng), n |-> st.n, tau |-> st.tau, m |-> st.m]
    [] st.t = "der2" -> [k |-> "fder", b |-> GLBasis(st.ng), n |-> st.n, tau |-> EqualTaus(st.d, st.ni), m |-> st.m]
    [] st.t = "der3" -> FDerOf(Spl(h[st.a].e), 1)
    [] st.t = "tr0" -> [k |-> "ftr", z |-> TRUE, a |-> 0, n |-> st.n, ng |-> st.ng, ni |-> st.ni]
    [] st.t = "tr" -> FTrOf(h[st.a].e, Spl(h[st.a].e))
    [] st.t = "mat" -> [k |-> "fmat", ng |-> st.ng, ni |-> st.ni, rows |-> st.rows, cols |-> st.cols, M |-> <<>>]
    [] st.t = "cont1" -> LET x == Spl(h[st.a].e) IN [k |-> "fcont", b |-> x.b, n |-> x.n, tau |-> x.tau, m |-> st.m]
    [] st.t = "cont2" -> [k |-> "fcont", b |-> GLBasis(st.ng), n |-> st.n, tau |-> st.tau, m |-> st.m]
    [] st.t = "int1" -> [k |-> "fint", b |-> GLBasis(st.ng), tau |-> EqualTaus(st.d, st.ni)]
    [] st.t = "int2" -> FIntOf(Spl(h[st.a].e))
UpdLin(A, st, B) ==
  CASE st.t \in {"dertau", "conttau", "inttau"} -> [A EXCEPT !.tau = st.tau]
    [] st.t = "derlen" -> [A EXCEPT !.tau = [i \in 1..Len(A.tau) |-> st.len]]
    [] st.t = "intdom" -> [k |-> "fint", b |-> GLBasis(st.ng), tau |-> EqualTaus(st.d, st.ni)]
    [] st.t = "tras" -> [A EXCEPT !.z = FALSE, !.a = B]
    [] st.t = "trasf" -> [A EXCEPT !.z = FALSE, !.a = [k |-> "gapp", a |-> B, ng |-> A.ng, ni |-> A.ni]]
    [] st.t = "mats" -> [A EXCEPT !.M = st.M]
    [] st.t = "matc" -> [A EXCEPT !.M = [i \in 1..(A.ng * A.ni) |-> st.M]]
BinLin(f, A, B) ==
  LET x == FShape(A) y == FShape(B) IN
  [k |-> "f" \o f, a |-> A, b |-> B, sh |-> IF f = "comp" THEN << x[1], y[2] >> ELSE x]

After(h, st, ev) ==
  LET A == h[st.a].e B == h[st.b].e k == h[st.a].kind
      g == Kill(h, Consumed(st)) IN
  CASE st.op = "new" -> Push(g, IF st.t = "gs" THEN "gs" ELSE IF st.t = "zero" THEN "expr" ELSE "elem", st.e)
    [] st.op = "bin" -> Push(g, BinResult(st.f), EBin(st.f, A, B))
    [] st.op = "addeq" -> [g EXCEPT ![st.a].e = EBin("sum", A, B)]
    [] st.op = "muleq" -> [g EXCEPT ![st.a].e = EBin("mul", A, B)]
    [] st.op = "neg" -> Push(g, "expr", ENeg(A))
    [] st.op = "scal" -> Push(g, "expr", EScal(st.c, A))
    [] st.op = "deriv" ->
         IF k \in SplKinds
         THEN IF st.how = "base" THEN Push(g, "expr", EDer(A, st.m))
              ELSE Push(g, k, EDer(A, st.m))
         ELSE Push(g, IF st.how = "deriv" THEN k ELSE "expr", EDer(A, st.m))
    [] st.op = "copy" ->
         LET moved == st.how \in {"move", "mclone", "toexprm", "convm"}
             g1 == IF moved THEN Kill(g, {st.a}) ELSE g
         IN IF st.how \in {"toexpr", "toexprm", "conv", "convm"}
            THEN Push(g1, "expr", A) ELSE Push(g1, k, A)
    [] st.op = "drop" -> g
    [] st.op = "gsbin" -> Push(g, "gs", EBin(st.f, A, B))
    [] st.op = "gsaeq" -> [g EXCEPT ![st.a].e = EBin(st.f, A, B)]
    [] st.op = "gsneg" -> Push(g, "gs", ENeg(A))
    [] st.op = "gsscal" -> Push(g, "gs", EScal(st.c, A))
    [] st.op = "gsscale" -> Push(g, "gs", EResc(A, << Dom(A)[1], RStr(RAdd(R(Dom(A)[1]), R(st.T))) >>))
    [] st.op \in {"gsbound", "gsrand", "iinterp", "finterp", "fpw"} -> Push(g, "gs", Reported(ev))
    [] st.op = "gllnew" ->
         Push(g, "gll", IF st.t = "coef" THEN EGs(st.d, st.n, GLBasis(st.ng), st.c, st.tau)
              ELSE LET h1 == RDiv(RSub(R(st.d[2]), R(st.d[1])), R(st.ni))
                   IN EGs(st.d, st.n, GLBasis(st.ng), [i \in 1..(st.n * st.ng * st.ni) |-> "0"],
                          [i \in 1..st.ni |-> RStr(h1)]))
    [] st.op = "gllapp" -> Push(g, "gll", [k |-> "gapp", a |-> A, ng |-> st.ng, ni |-> st.ni])
    [] st.op = "gllid" -> Push(g, "gll", [k |-> "gapp", a |-> EDil(st.d, "1"), ng |-> st.ng, ni |-> st.ni])
    [] st.op = "gllbin" -> Push(g, "gll", EBin(IF st.f = "mul" THEN "gmul" ELSE st.f, A, B))
    [] st.op = "gllscal" -> Push(g, "gll", EScal(st.c, A))
    [] st.op = "gllneg" -> Push(g, "gll", ENeg(A))
    [] st.op = "gllnorm" -> Push(g, "gll", [k |-> "gnorm", a |-> A])
    [] st.op = "gllinv" -> Push(g, "gll", [k |-> "ginv", a |-> A, c |-> st.c])
    [] st.op = "gllpow" -> Push(g, "gll", [k |-> "gpow", a |-> A, c |-> st.c])
    [] st.op = "glladdv" -> Push(g, "gll", [k |-> "gaddv", a |-> A, v |-> st.v,
                                            sa |-> IF st.f = "vsub" THEN "-1" ELSE "1",
                                            sv |-> IF st.f = "sub" THEN "-1" ELSE "1"])
    [] st.op = "gllasg" -> [g EXCEPT ![st.a].e = B]
    [] st.op = "gllasgf" -> [g EXCEPT ![st.a].e = [k |-> "gasg", a |-> A, f |-> B]]
    [] st.op = "gllset" -> [g EXCEPT ![st.a].e = [k |-> "gset", a |-> A, d |-> st.d, v |-> st.v]]
    [] st.op = "gllfromgs" -> Push(g, "gll", A)
    [] st.op = "fnew" -> Push(g, "lin", NewLin(h, st))
    [] st.op = "fupd" -> [g EXCEPT ![st.a].e = UpdLin(A, st, B)]
    [] st.op = "fbin" -> Push(g, "lin", BinLin(st.f, A, B))
    [] st.op = "fneg" -> Push(g, "lin", [k |-> "fneg", a |-> A, sh |-> FShape(A)])
    [] st.op = "fscal" -> Push(g, "lin", [k |-> "fscal", a |-> A, c |-> st.c, sh |-> FShape(A)])
    [] st.op = "fcopy" -> Push(g, "lin", A)
    [] st.op = "fmul" -> LET x == Spl(B) IN
         Push(g, "gll", [k |-> "fimg", f |-> A, a |-> B, n |-> FShape(A)[1] \div (x.b.dim * Len(x.tau))])
    [] st.op = "sdnew" -> Push(g, "sd", [f |-> A, ng |-> st.ng, ni |-> st.ni])
    [] st.op = "ser" -> Push(g, k, A)
    [] st.op = "optnew" -> Push(g, "opts", DefaultOptions)
    [] st.op = "optset" -> [g EXCEPT ![st.a].e = SetOpt(A, st)]
    (* an answer that the client keeps *)
    [] st.op \in {"isolve", "icoefd"} ->
         IF ~Has(st, "keep") THEN g
         ELSE Push(g, "arr", IF ~Has(ev, "ret") THEN <<>> ELSE IF st.op = "isolve" THEN ev.ret.y ELSE ev.ret.dy)
    [] st.op = "bnew" -> Push(g, "basis", st.b1)
    [] st.op = "bcopy" -> Push(g, "basis", A)
    [] st.op = "inew" -> Push(g, "interp", [b |-> A, n |-> st.n, ni |-> st.ni])
    [] st.op = "snew" -> Push(g, "sob", [b |-> A, wp |-> st.wp, w |-> st.w])
    [] OTHER -> g
=============================================================================
