------------------------------- MODULE GCheck -------------------------------
(* What an observation of the implementation must satisfy, given the state.  *)
(* Every operator returns the set of ways in which it does not.              *)
EXTENDS GSession, FiniteSets

SolveTol == R("1e-7")
CloseT(spec, obs, tol) == Len(spec) = Len(obs) /\ \A c \in 1..Len(spec) : RClose(R(spec[c]), R(obs[c]), tol)
Close(spec, obs) == CloseT(spec, obs, Tol)
CloseMatT(spec, obs, tol) == Len(spec) = Len(obs) /\ \A i \in 1..Len(spec) : CloseT(spec[i], obs[i], tol)
CloseMat(spec, obs) == CloseMatT(spec, obs, Tol)
Flag(c, why) == IF c THEN {} ELSE {why}

(* ---- functions: domain, codomain dimension, values at the session's points *)
Inside(e, p) == /\ RLe(RAdd(R(Dom(e)[1]), R("1e-8")), R(p))
                /\ RLe(R(p), RSub(R(Dom(e)[2]), R("1e-8")))
Reaches(e, p) == /\ RLe(RSub(R(Dom(e)[1]), R("1e-8")), R(p))
                 /\ RLe(R(p), RAdd(R(Dom(e)[2]), R("1e-8")))
ValueOk(kind, e, x, t, v) ==
  IF kind \in SplKinds
  THEN LET S == GsIntervals(x, t) IN
       \/ S = {}
       \/ \E i \in S : Close(SplValueIn(x, i, t), v)
  ELSE Close(Value(e, t), v)
(* evaluation of a function may refuse a point only where the function is    *)
(* not determined (an inner function leaving the outer's domain)             *)
CheckValues(kind, e, x, pts, o) ==
  (IF o.x = "ok"
   THEN Flag(\A j \in 1..Len(o.i) : ValueOk(kind, e, x, pts[o.i[j]], o.v[j]), "value")
        \cup (IF Has(o, "w") THEN Flag(\A j \in 1..Len(o.i) : ValueOk(kind, e, x, pts[o.i[j]], o.w[j]), "value1") ELSE {})
        (* far: of many points asked at once, in another order, or again, those whose value differs *)
        \cup (IF Has(o, "far") THEN Flag(o.far = 0 \/ (kind \notin SplKinds /\ \E j \in 1..Len(o.i) : Undet(e, pts[o.i[j]])), "batch") ELSE {})
   ELSE Flag(kind \notin SplKinds /\ \E j \in 1..Len(o.i) : Undet(e, pts[o.i[j]]), "evalexc"))

CheckSpl(kind, x, o) ==
  LET bp == Breakpoints(x.d[1], x.tau) N == Len(x.tau) IN
  Flag(CloseT(x.tau, o.tau, R("1e-11")), "tau")
  \cup Flag(o.b.name = x.b.name /\ o.b.dim = x.b.dim /\ CloseT(x.b.pars, o.b.pars, R("1e-11")), "basis")
  \cup Flag(o.ni = N, "intervals")
  \cup Flag(Close(x.c, o.c), "coef")
  \cup Flag(Close(bp, o.bp), "breakpoints")
  \cup Flag(Len(o.wp) = N + 1 /\ \A i \in 1..(N + 1) :
              \E j \in {IF i = 1 THEN 1 ELSE i - 1, IF i > N THEN N ELSE i} :
                 Close(SplValueIn(x, j, bp[i]), o.wp[i]), "waypoints")
  \cup (IF kind = "gll" /\ Has(o, "disc")
        THEN Flag(Close(Flatten3(N, 1, LAMBDA i, c : CollPoints(x, i)), o.disc), "discretization") ELSE {})

CheckFun(en, pts, o) ==
  LET e == en.e
      x == Spl(e) IN
  Flag(CloseT(IF en.kind \in SplKinds THEN x.d ELSE Dom(e), o.d, R("1e-8")), "domain")
  \cup Flag(o.n = Cod(e), "codom")
  \cup Flag(\A p \in 1..Len(pts) : Inside(e, pts[p]) => \E j \in 1..Len(o.i) : o.i[j] = p, "points")
  \cup (IF ~Has(o, "len") THEN {}
        ELSE Flag(RClose(RSub(R(Dom(e)[2]), R(Dom(e)[1])), R(o.len), R("1e-8"))
                  /\ \A p \in 1..Len(pts) : /\ Inside(e, pts[p]) => \E j \in 1..Len(o.in) : o.in[j] = p
                                           /\ (\E j \in 1..Len(o.in) : o.in[j] = p) => Reaches(e, pts[p]), "domain"))
  \cup (IF o.n # Cod(e) THEN {} ELSE CheckValues(en.kind, e, x, pts, o))
  \cup (IF en.kind \in SplKinds /\ o.n = Cod(e) THEN CheckSpl(en.kind, x, o) ELSE {})

CheckBasisObs(e, o) == Flag(o.name = e.name /\ o.dim = e.dim /\ CloseT(e.pars, o.pars, R("1e-12")), "basis")

CheckObs(en, pts, o) ==
  IF ~en.live THEN Flag(o.s = "-", "lifetime")
  ELSE IF o.s = "-" THEN {"lifetime"}
  ELSE IF en.kind \in {"elem", "expr", "gs", "gll"} THEN CheckFun(en, pts, o)
  ELSE IF en.kind = "basis" THEN CheckBasisObs(en.e, o)
  ELSE IF en.kind = "lin" THEN
    LET M == FMatrix(en.e) IN
    Flag(o.rows = Len(M), "functional-codomain")
    \cup Flag(CloseMat(M, o.m), "functional-matrix") \cup Flag(CloseMat(M, o.sp), "functional-sparse")
  ELSE IF en.kind = "arr" THEN Flag(CloseT(en.e, o.v, R("1e-14")), "kept")
  ELSE {}

(* ---- interpolation *)
SplOf(b, n, taus, c) == EGs(<<"0", "1">>, n, b, c, taus)
(* m-th derivative at window point s of interval i, component c *)
EndDer(x, i, c, s, m) ==
  RDot([j \in 1..x.b.dim |-> R(Coefs(x, i, c)[j])], BDer(x.b, s, x.tau[i], m))
(* ... which the solution of one linear system for all y knows up to the     *)
(* size of y                                                                 *)
EndOf(x, i, c, s, m, y) ==
  LET v == BDer(x.b, s, x.tau[i], m) co == Coefs(x, i, c)
  IN RBlur(RDot([j \in 1..x.b.dim |-> R(co[j])], v), RMul(y, RSum([j \in 1..x.b.dim |-> RAbs(v[j])])))
InterpRows(b, n, taus, wp, E(_, _, _, _), W(_, _)) ==
  (* E(i, c, s, m): the derivative; W(i, c): waypoint component.             *)
  (* <<observed side, target>> pairs of all conditions, with reasons         *)
  LET N == Len(taus) h == b.dim \div 2 IN
     [ pos |-> [ i \in 1..N |-> [ c \in 1..n |-> << E(i, c, -1, 0), W(i, c), E(i, c, 1, 0), W(i + 1, c) >> ] ],
       cont |-> [ i \in 1..(N - 1) |-> [ c \in 1..n |-> [ m \in 1..(b.dim - 2) |->
                   RSub(E(i, c, 1, m), E(i + 1, c, -1, m)) ] ] ],
       ends |-> [ c \in 1..n |-> [ m \in 1..(h - 1) |-> << E(1, c, -1, m), E(N, c, 1, m) >> ] ] ]
RowsOk(r, N, n, tol) ==
  Flag(\A i \in 1..N : \A c \in 1..n : LET q == r.pos[i][c] IN
         RClose(q[1], q[2], tol) /\ RClose(q[3], q[4], tol), "interp-waypoints")
  \cup Flag(\A i \in 1..(N - 1) : \A c \in 1..n : \A m \in 1..Len(r.cont[i][c]) : RClose(r.cont[i][c][m], R(0), tol), "interp-continuity")
  \cup Flag(\A c \in 1..n : \A m \in 1..Len(r.ends[c]) :
         RClose(r.ends[c][m][1], R(0), tol) /\ RClose(r.ends[c][m][2], R(0), tol), "interp-ends")
CheckInterpCoef(b, n, taus, wp, coef) ==
  IF Len(coef) # b.dim * n * Len(taus) THEN {"interp-size"}
  ELSE LET x == SplOf(b, n, taus, coef) y == MaxAbs(coef, R(0)) IN
       RowsOk(InterpRows(b, n, taus, wp, LAMBDA i, c, s, m : EndOf(x, i, c, s, m, y),
                         LAMBDA i, c : R(wp[i][c])), Len(taus), n, SolveTol)
(* linearised conditions: dy is the derivative of y with respect to tau_k *)
CheckCoefDer(b, n, taus, wp, y, dy, kk) ==
  IF Len(dy) # b.dim * n * Len(taus) \/ Len(y) # Len(dy) THEN {"interp-size"}
  ELSE LET x == SplOf(b, n, taus, y) z == SplOf(b, n, taus, dy)
           ym == MaxAbs(y, R(0))
           E(i, c, s, m) == LET d == EndOf(z, i, c, s, m, ym) IN
              IF i # kk THEN d
              ELSE RAdd(d, RDot([j \in 1..b.dim |-> R(Coefs(x, i, c)[j])], BDerTau(b, s, taus[i], m)))
       IN { "d" \o w : w \in RowsOk(InterpRows(b, n, taus, wp, E, LAMBDA i, c : R(0)), Len(taus), n, SolveTol) }

CheckInterpGs(b, n, taus, wp, g) ==
  LET T == RSumLits(taus) IN
  Flag(CloseT(<< R(0), T >>, g.d, R("1e-11")), "interp-domain")
  \cup Flag(g.n = n /\ g.b.name = b.name /\ g.b.dim = b.dim /\ CloseT(b.pars, g.b.pars, R("1e-11")), "interp-basis")
  \cup Flag(CloseT(taus, g.tau, R("1e-11")), "interp-tau")
  \cup (IF g.n = n THEN CheckInterpCoef(b, n, taus, wp, g.c) ELSE {})

(* ---- Sobolev functional: quadratic form in the coefficients *)
SumOver(F(_), i0, N) == LET RECURSIVE go(_)
                            go(i) == IF i > N THEN R(0) ELSE RAdd(F(i), go(i + 1))
                        IN go(i0)
Quad(G, u, v) == RDot(u, MatVec(G, v))
Exactly(M) == RVec([i \in 1..Len(M) |-> RVec([j \in 1..Len(M[i]) |-> RExact(M[i][j])])])
RSeq(s) == [i \in 1..Len(s) |-> R(s[i])]
(* the form applied to the coefficients of x, by order, interval, component   *)
SobImage(b, n, taus, w, x) ==
  RVec([q \in 1..Len(w) |-> RVec([i \in 1..Len(taus) |->
     LET G == Exactly(Gram(b, taus[i], w[q][1])) IN RVec([c \in 1..n |-> MatVec(G, RSeq(Coefs(x, i, c)))])])])
SobWith(img, n, taus, w, z) ==
  SumOver(LAMBDA q : RMul(R(w[q][2]), SumOver(LAMBDA i :
     SumOver(LAMBDA c : RDot(img[q][i][c], RSeq(Coefs(z, i, c))), 1, n), 1, Len(taus))), 1, Len(w))
SobForm(b, n, taus, w, x, z) == SobWith(SobImage(b, n, taus, w, x), n, taus, w, z)
(* its derivative with respect to the k-th length, z: that of the coefficients *)
SobGradAt(b, n, taus, w, img, x, z, k) ==
  RAdd(SumOver(LAMBDA q : RMul(R(w[q][2]),
         IF b.name = "basis0101"
         THEN LET G == Exactly(GramTau(b, taus[k], w[q][1])) IN
              SumOver(LAMBDA c : Quad(G, RSeq(Coefs(x, k, c)), RSeq(Coefs(x, k, c))), 1, n)
         ELSE RMul(RDiv(R(1 - 2 * w[q][1]), R(taus[k])),
                   SumOver(LAMBDA c : RDot(img[q][k][c], RSeq(Coefs(x, k, c))), 1, n))), 1, Len(w)),
       RMul(R(2), SobWith(img, n, taus, w, z)))

(* ---- integrals of functions that are polynomials on each of ni equal      *)
(* pieces of their domain: from the Taylor series at the middle of a piece   *)
IntegralDeg(ng) == IF ng > 20 THEN 38 ELSE 2 * ng - 3    \* what ng nodes integrate exactly; no session goes beyond 38
PieceIntegral(J(_, _), l, h, deg) ==     \* J(t, k): jet at t; piece [l, l + h]; degree deg
  LET j0 == J(RAdd(l, RDiv(h, R(2))), deg)
      j == RVec([i \in 1..Len(j0) |-> IF i = 1 THEN j0[i] ELSE RExact(j0[i])])
      RECURSIVE S(_)
      S(i) == IF i > Len(j) THEN R(0)
              ELSE RAdd(IF i % 2 = 1 THEN RMul(j[i], RDiv(RMul(R(2), RPow(RDiv(h, R(2)), i)), R(i))) ELSE R(0), S(i + 1))
      (* the size of the integrand as it is computed *)
      z == RMul(h, RMaxOf(<< RMag(J(l, 0)[1]), RMag(j[1]), RMag(J(RAdd(l, h), 0)[1]) >>))
  IN RBlur(S(1), z)
IntegralOf(J(_, _), d, ni, deg) ==
  LET h == RDiv(RSub(R(d[2]), R(d[1])), R(ni)) IN
  SumOver(LAMBDA i : PieceIntegral(J, RAdd(R(d[1]), RMul(R(i - 1), h)), h, deg), 1, ni)
InnerJet(a, b, m, t, k) ==
  LET x == JetOf(EDer(a, m), t, k) y == JetOf(EDer(b, m), t, k)
      RECURSIVE S(_)
      S(c) == IF c > Len(x) THEN JConst(0, k) ELSE JAdd(JMul(x[c], y[c]), S(c + 1))
  IN S(1)

(* ---- results of queries *)
SplFromReport(g) == EGs(g.d, g.n, g.b, g.c, g.tau)
BoundOk(x, st, g) ==
  LET L == RSub(R(x.d[2]), R(x.d[1]))
      q == RDiv(L, R(st.dt))
      n0 == CHOOSE k \in 0..500 : RLe(R(k), q) /\ RLt(q, R(k + 1))
      N == {n0} \cup (IF RLe(RSub(q, R(n0)), R("1e-9")) /\ n0 > 0 THEN {n0 - 1} ELSE {})
               \cup (IF RLe(RSub(R(n0 + 1), q), R("1e-9")) THEN {n0 + 1} ELSE {})
  IN \E n \in N :
       LET f == BoundFactor(x, st, n) y == ScaleSpl(x, f) IN
       /\ CloseT(y.d, g.d, R("1e-8")) /\ Close(y.tau, g.tau) /\ Close(y.c, g.c)
       /\ g.n = y.n /\ g.b.name = y.b.name /\ CloseT(y.b.pars, g.b.pars, R("1e-8"))

CheckRet(h, st, ev) ==
  LET A == h[st.a].e r == ev.ret IN
  CASE st.op = "gseq" -> LET q == SplEq(Spl(A), Spl(h[st.b].e))
                         IN Flag(r.eq = q, "equality") \cup Flag(r.ne = ~q, "inequality")
    [] st.op = "gsbound" -> Flag(BoundOk(Spl(A), st, ev.gs), "bound")
    [] st.op = "gsrand" -> LET g == ev.gs IN
         Flag(/\ CloseT(st.d, g.d, R("1e-11")) /\ g.n = st.n
              /\ Len(g.c) = g.n * g.b.dim * Len(g.tau) /\ Len(g.tau) > 0
              /\ \A i \in 1..Len(g.tau) : RLt(R(0), R(g.tau[i]))
              /\ RClose(RSub(R(st.d[2]), R(st.d[1])), RSumLits(g.tau), R("1e-9")), "random")
         \cup (IF Has(st, "a") THEN Flag(g.b.name = A.name /\ g.b.dim = A.dim, "random") ELSE {})
    [] st.op = "iinterp" -> CheckInterpGs(A.b, A.n, st.taus, st.wp, ev.gs)
    [] st.op = "finterp" -> CheckInterpGs(A, Len(st.wp[1]), st.taus, st.wp, ev.gs)
    [] st.op = "fpw" -> CheckInterpGs([name |-> "legendre", dim |-> st.nc, pars |-> <<>>], Len(st.wp[1]), st.taus, st.wp, ev.gs)
    [] st.op = "isolve" -> CheckInterpCoef(A.b, A.n, st.taus, st.wp, r.y)
    [] st.op = "icoefd" -> CheckInterpCoef(A.b, A.n, st.taus, st.wp, r.y)
                           \cup CheckCoefDer(A.b, A.n, st.taus, st.wp, r.y, r.dy, st.i + 1)
    [] st.op = "sval" ->
         LET n == Len(A.wp[1]) x == SplOf(A.b, n, st.taus, r.y) IN
         CheckInterpCoef(A.b, n, st.taus, A.wp, r.y)
         \cup Flag(Len(r.y) # A.b.dim * n * Len(st.taus) \/ RClose(SobForm(A.b, n, st.taus, A.w, x, x), R(r.v), R("1e-6")), "sobolev-value")
    [] st.op = "sgrad" ->
         LET n == Len(A.wp[1]) N == Len(st.taus) x == SplOf(A.b, n, st.taus, r.y) img == SobImage(A.b, n, st.taus, A.w, x) IN
         CheckInterpCoef(A.b, n, st.taus, A.wp, r.y)
         \cup UNION { CheckCoefDer(A.b, n, st.taus, A.wp, r.y, r.dy[k], k) : k \in 1..N }
         \cup Flag(Len(r.y) # A.b.dim * n * N \/ (Len(r.v) = N /\ \A k \in 1..N :
                RClose(SobGradAt(A.b, n, st.taus, A.w, img, x, SplOf(A.b, n, st.taus, r.dy[k]), k), R(r.v[k]), R("1e-6"))), "sobolev-gradient")
    [] st.op = "beq" -> LET q == SameBasis(A, h[st.b].e) IN Flag(r.eq = q, "equality") \cup Flag(r.ne = ~q, "inequality")
    [] st.op = "beval" -> Flag(Close(BDer(A, st.s, st.tau, st.m), r.v), "basis-derivative")
                          \cup (IF Has(r, "v0") THEN Flag(Close(BDer(A, st.s, st.tau, 0), r.v0), "basis-value") ELSE {})
    [] st.op = "bevaltau" -> Flag(Close(BDerTau(A, st.s, st.tau, st.m), r.v), "basis-derivative-tau")
    [] st.op = "bder" -> Flag(CloseMat(DerMat(A, st.m), r.m), "derivative-matrix")
    [] st.op = "bgsd" ->
         LET D == DerMat(A, st.m) sz == A.dim * st.n IN
         Flag(/\ Len(r.m) = sz * st.ni
              /\ \A i \in 1..Len(r.m) : Len(r.m[i]) = sz * st.ni
              /\ \A i \in 1..Len(r.m) : \A j \in 1..Len(r.m) :
                   LET iv == (i - 1) \div sz + 1 IN
                   IF (i - 1) \div A.dim = (j - 1) \div A.dim
                   THEN RClose(RMul(DerScale(A, st.taus[iv], st.m), D[((i - 1) % A.dim) + 1][((j - 1) % A.dim) + 1]), R(r.m[i][j]), Tol)
                   ELSE RClose(R(0), R(r.m[i][j]), Tol), "spline-derivative-matrix")
    [] st.op = "bcont" ->
         LET rows == (st.ni - 1) * st.n sz == A.dim * st.n IN
         Flag(/\ Len(r.m) = rows * (st.m + 1)
              /\ \A i \in 1..Len(r.m) : Len(r.m[i]) = sz * st.ni
              /\ \A q \in 0..st.m : \A iv \in 1..(st.ni - 1) :
                   LET R1 == BDer(A, 1, st.taus[iv], q) L1 == BDer(A, -1, st.taus[iv + 1], q) IN
                   \A c \in 1..st.n :
                     LET row == r.m[q * rows + (iv - 1) * st.n + c] IN
                     \A j \in 1..Len(row) :
                       LET blk == (j - 1) \div A.dim      \* interval and component of the column
                           bi == ((j - 1) % A.dim) + 1
                           want == IF blk = (iv - 1) * st.n + c - 1 THEN R1[bi]
                                   ELSE IF blk = iv * st.n + c - 1 THEN RNeg(L1[bi]) ELSE R(0)
                       IN RClose(want, R(row[j]), Tol), "continuity-matrix")
    [] st.op = "bgram" -> Flag(CloseMatT(Gram(A, st.tau, st.m), r.m, R("1e-8")), "gram")
    [] st.op = "bgramtau" -> Flag(CloseMatT(GramTau(A, st.tau, st.m), r.m, R("1e-8")), "gram-tau")
    [] st.op = "ser" ->
         Flag(r.eq, "restored-equal")
         \cup Flag(CloseT(r.p, r.q, R("1e-14")), "restored-numbers")
    [] st.op = "gllvalat" ->
         LET x == Spl(A) iv == st.i \div x.b.dim + 1 j == (st.i % x.b.dim) + 1 IN
         Flag(Close([c \in 1..x.n |-> Coefs(x, iv, c)[j]], r.v), "value-at")
    [] st.op = "fapp" ->
         LET M == FMatrix(A) IN
         Flag(Close(MatVec(M, RSeq(Spl(h[st.b].e).c)), r.v), "functional-value")
         \cup Flag(CloseMat(M, r.dm), "functional-differential")
    [] st.op = "sdval" ->
         LET y == Spl(h[st.b].e) IN
         Flag(RClose(SobDistance(A, y), R(r.v), Tol), "sobolev-distance")
         \cup Flag(CloseMat(<< SobDifferential(A, y) >>, r.dm), "sobolev-differential")
    [] st.op = "opt" ->      \* y, dy: the interpolation and its derivatives (C10, C11)
         LET ni == Len(st.wp) - 1 n == Len(st.wp[1]) fails == ni > 1 /\ st.status # 0
             q == OptScaled(st, IF ni = 1 THEN << st.T >> ELSE st.ans)
             At(x, y, dy, g, gj, c, j, who) ==
               IF Len(x) # ni \/ Len(y) # st.b1.dim * n * ni THEN {"opt-shape"}
               ELSE LET s == SplOf(st.b1, n, x, y) img == SobImage(st.b1, n, x, st.w, s) IN
                    Flag(Len(g) = 1 /\ RClose(RSumLits(x), R(g[1]), Tol), "opt-constraint")
                    \cup Flag(CloseMat(<< [i \in 1..ni |-> R(1)] >>, gj), "opt-constraint-jacobian")
                    \cup Flag(RClose(SobWith(img, n, x, st.w, s), R(c), R("1e-6")), "opt-cost")
                    \cup Flag(Len(j) = 1 /\ Len(j[1]) = ni /\ \A i \in 1..ni :
                         RClose(SobGradAt(st.b1, n, x, st.w, img, s, SplOf(st.b1, n, x, dy[i]), i), R(j[1][i]), R("1e-6")), "opt-gradient")
             SameOpt(o, p) == o.n = p.n /\ o.t = p.t /\ (IF o.t = "d" THEN RClose(R(o.v), R(p.v), R("1e-14")) ELSE o.v = p.v) IN
         Flag(r.none = fails, "opt-result")
         \cup (IF r.none \/ fails THEN {} ELSE CheckInterpGs(q.b, n, q.taus, st.wp, ev.gs))
         \cup (IF ni = 1 THEN {} ELSE IF ~r.called THEN {"opt-solver"} ELSE
               Flag(Len(r.x0) = ni /\ RClose(R(st.T), RSumLits(r.x0), Tol) /\ \A i \in 1..Len(r.x0) : RLt(R(0), R(r.x0[i])), "opt-start")
               \cup Flag(Len(r.lo) = ni /\ Len(r.hi) = ni
                         /\ \A i \in 1..Len(r.lo) : RLe(R(0), R(r.lo[i])) /\ RLe(R(r.lo[i]), R("1e-3")) /\ RLe(R(st.T), R(r.hi[i])), "opt-bounds")
               \cup Flag(CloseT(<< st.T >>, r.glo, Tol) /\ CloseT(<< st.T >>, r.ghi, Tol), "opt-time")
               \cup Flag(Close(st.ans, r.x1), "opt-variables")
               \cup At(r.x0, r.y0, r.dy0, r.g0, r.gj0, r.c0, r.j0, "0")
               \cup At(r.x1, r.y1, r.dy1, r.g1, r.gj1, r.c1, r.j1, "1")
               \cup UNION { LET q2 == r.near[k] big == RMaxOf([i \in 1..ni |-> RAbs(R(q2.fj[1][i]))]) IN      \* as a fresh functional says (C12)
                             Flag(RLe(RAbs(RSub(R(q2.c), R(q2.fc))), RMul(R("1e-7"), RAdd(R("1e-3"), RAbs(R(q2.fc))))), "opt-cost")
                             \cup Flag(Len(q2.j) = 1 /\ Len(q2.j[1]) = ni /\ \A i \in 1..ni :
                                  RLe(RAbs(RSub(R(q2.j[1][i]), R(q2.fj[1][i]))), RMul(R("1e-7"), RAdd(R("1e-3"), big))), "opt-gradient") : k \in 1..Len(r.near) }
               \cup Flag(Len(r.opts) = Len(A) /\ \A i \in 1..Len(A) : \E p \in 1..Len(r.opts) : SameOpt(A[i], r.opts[p]), "opt-options"))
    [] st.op = "wrap" ->      \* as constraint (st.t: cont) or cost (st.t: sd) of an optimization problem
         LET x == Spl(h[st.b].e) y == [x EXCEPT !.c = st.c]
             F == [k |-> "fcont", b |-> x.b, n |-> x.n, tau |-> x.tau, m |-> st.m]
             D == [f |-> A, ng |-> x.b.dim, ni |-> Len(x.tau)] IN
         Flag(Close(x.c, r.x0) /\ Close(st.c, r.x1), "variables")
         \cup (IF st.t = "cont"
               THEN LET M == FMatrix(F) IN
                    Flag(Close(MatVec(M, RSeq(x.c)), r.v0) /\ Close(MatVec(M, RSeq(st.c)), r.v1), "constraint-values")
                    \cup Flag(CloseMat(M, r.j0) /\ CloseMat(M, r.j1), "constraint-jacobian")
                    \cup Flag(Len(r.lo) = Len(M) /\ CloseT([i \in 1..Len(M) |-> st.lo], r.lo, R("1e-15"))
                              /\ CloseT([i \in 1..Len(M) |-> st.hi], r.hi, R("1e-15")), "constraint-bounds")
               ELSE Flag(Close(<< SobDistance(D, x) >>, r.v0) /\ Close(<< SobDistance(D, y) >>, r.v1), "cost-values")
                    \cup Flag(CloseMat(<< SobDifferential(D, x) >>, r.j0) /\ CloseMat(<< SobDifferential(D, y) >>, r.j1), "cost-jacobian"))
    [] st.op = "qpw" ->
         Flag(Close(GNodes(st.n), r.p), "nodes") \cup Flag(Close([i \in 1..st.n |-> GWeight(st.n, i)], r.w), "weights")
    [] st.op \in {"qcomp", "qdom"} ->
         LET d0 == IF st.op = "qcomp" THEN st.t0 ELSE st.d[1]
             taus == IF st.op = "qcomp" THEN [i \in 1..Len(st.taus) |-> R(st.taus[i])]
                     ELSE [i \in 1..st.ni |-> RDiv(RSub(R(st.d[2]), R(st.d[1])), R(st.ni))]
             x == [d |-> << d0 >>, tau |-> taus, b |-> GLBasis(st.n)] IN
         Flag(Close(Flatten3(Len(taus), 1, LAMBDA i, c : CollPoints(x, i)), r.p), "nodes")
         \cup Flag(Close(Flatten3(Len(taus), 1, LAMBDA i, c : [j \in 1..st.n |->
                 RMul(RDiv(taus[i], R(2)), GWeight(st.n, j))]), r.w), "weights")
    [] st.op = "integ" ->
         Flag(RClose(IntegralOf(LAMBDA t, k : JetOf(A, t, k)[1], Dom(A), st.ni, IntegralDeg(st.ng)), R(r.v), Tol), "integral")
    [] st.op = "ip" ->
         LET B == h[st.b].e IN
         Flag(RClose(SumOver(LAMBDA q : RMul(R(st.w[q][2]),
                 IntegralOf(LAMBDA t, k : InnerJet(A, B, st.w[q][1], t, k), Dom(A), st.ni, IntegralDeg(st.ng))), 1, Len(st.w)),
              R(r.v), Tol), "inner-product")
    [] OTHER -> {}
=============================================================================
