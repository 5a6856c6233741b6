-------------------------------- MODULE GFun --------------------------------
(* What a function is.  A function is an expression tree e; Dom(e) and       *)
(* Cod(e) are the domain and codomain dimension its construction implies and *)
(* JetOf(e, t, k) is the denotation: the jets of order k of its components   *)
(* at the point t.  Trees hold number literals only.                         *)
EXTENDS GBasis

Tol == R("1e-9")
DomTol == R("1e-9")

(* ---- constructors *)
EConst(d, c) == [k |-> "const", d |-> d, c |-> c]
EDil(d, c) == [k |-> "dil", d |-> d, c |-> c]
EExp(d) == [k |-> "exp", d |-> d]
ECos(d) == [k |-> "cos", d |-> d]
ESin(d) == [k |-> "sin", d |-> d]
EPoly(d, c) == [k |-> "poly", d |-> d, c |-> c]
EGs(d, n, b, c, tau) == [k |-> "gs", d |-> d, n |-> n, b |-> b, c |-> c, tau |-> tau]
EBin(op, a, b) == [k |-> op, a |-> a, b |-> b]     \* sum sub mul dot comp cat
ENeg(a) == [k |-> "neg", a |-> a]
EScal(c, a) == [k |-> "scal", c |-> c, a |-> a]
EDer(a, m) == [k |-> "der", a |-> a, m |-> m]
(* the spline a run through in a different time: same values at the same     *)
(* fraction of the domain                                                    *)
EResc(a, d) == [k |-> "resc", a |-> a, d |-> d]

(* collocation splines: [k |-> "gapp", a, ng, ni] takes the values of a at   *)
(* the collocation points of ni equal intervals; the others are pointwise    *)
(* operations on collocation values                                          *)
CollKinds == {"gapp", "gasg", "gset", "gmul", "ginv", "gpow", "gnorm", "gaddv", "fimg"}

(* ---- domain and codomain dimension *)
RECURSIVE Dom(_)
Dom(e) == CASE e.k \in {"sum", "sub", "mul", "dot"} -> Dom(e.a)
            [] e.k \in {"neg", "scal", "der", "gapp", "gmul", "ginv", "gpow", "gnorm", "gaddv", "fimg"} -> Dom(e.a)
            [] e.k = "gasg" -> Dom(e.f)
            [] e.k = "comp" -> Dom(e.b)
            [] e.k = "cat" -> << Dom(e.a)[1], Dom(e.b)[2] >>
            [] OTHER -> e.d
RECURSIVE Cod(_)
Cod(e) == CASE e.k \in {"sum", "sub", "cat", "neg", "scal", "der", "comp", "resc",
                        "gapp", "gasg", "gset", "gaddv"} -> Cod(e.a)
            [] e.k \in {"mul", "gmul"} -> IF Cod(e.a) > Cod(e.b) THEN Cod(e.a) ELSE Cod(e.b)
            [] e.k = "dot" -> 1
            [] e.k = "const" -> Len(e.c)
            [] e.k \in {"gs", "fimg"} -> e.n
            [] OTHER -> 1

SameNum(x, y) == RLe(RAbs(RSub(R(x), R(y))), DomTol)
SameDom(a, b) == SameNum(Dom(a)[1], Dom(b)[1]) /\ SameNum(Dom(a)[2], Dom(b)[2])
Adjacent(a, b) == SameNum(Dom(a)[2], Dom(b)[1])

(* ---- what operands an operation accepts *)
OkBin(op, a, b) ==
  CASE op \in {"sum", "sub", "dot"} -> SameDom(a, b) /\ Cod(a) = Cod(b)
    [] op = "mul" -> SameDom(a, b) /\ (Cod(a) = 1 \/ Cod(b) = 1)
    [] op = "comp" -> Cod(b) = 1
    [] op = "cat" -> Adjacent(a, b) /\ Cod(a) = Cod(b)
OkAddEq(a, b) == OkBin("sum", a, b)
OkMulEq(a, b) == SameDom(a, b) /\ Cod(b) = 1

(* ---- splines *)
RECURSIVE PartialSums(_, _)
PartialSums(acc, tau) ==
  IF tau = <<>> THEN acc
  ELSE PartialSums(Append(acc, RAdd(acc[Len(acc)], R(Head(tau)))), Tail(tau))
Breakpoints(t0, tau) == PartialSums(<< R(t0) >>, tau)

NumIntervals(e) == Len(e.tau)
Coefs(e, i, c) == LET i0 == (i - 1) * e.n * e.b.dim + (c - 1) * e.b.dim
                  IN SubSeq(e.c, i0 + 1, i0 + e.b.dim)
RECURSIVE JComb(_, _, _, _)
JComb(co, bj, i, k) == IF i > Len(co) THEN JConst(0, k)
                       ELSE JAdd(JScale(R(co[i]), bj[i]), JComb(co, bj, i + 1, k))
RECURSIVE MaxAbs(_, _)
MaxAbs(s, acc) == IF s = <<>> THEN acc
                  ELSE MaxAbs(Tail(s), IF RLe(RAbs(R(Head(s))), acc) THEN acc ELSE RAbs(R(Head(s))))
(* Derivatives of Lagrange polynomials beyond their degree are zero, but are *)
(* computed as sums of terms of this size                                    *)
Noise(b, s, tau, co, j) ==
  LET norm == LagNorm(b)
      f == RMul(norm, RDiv(R(2), R(tau)))
      g == MaxAbs(co, R(0))
      P == RVec([i \in 1..Len(j) |-> RMul(g, RDiv(RPow(f, i - 1), RFact(i - 1)))])
      at == AtNode(b, s)
  IN RVec([i \in 1..Len(j) |-> IF at THEN RBlur(j[i], Snap(b, P[i])) ELSE IF i > b.dim THEN RBlur(j[i], P[i]) ELSE j[i]])
(* jets using the functions of interval i: the basis functions are computed  *)
(* at an exact window point; that the point is itself computed counts as     *)
(* the derivative times the magnitude of the point                           *)
GsJetIn(e, i, t, k) ==
  LET bp == Breakpoints(e.d[1], SubSeq(e.tau, 1, i - 1))
      s == RSub(RDiv(RMul(R(2), RSub(R(t), bp[i])), R(e.tau[i])), R(1))
      f == RDiv(R(2), R(e.tau[i]))
      u == RDiv(RMag(s), f)
      bj == BJetsAt(e.b, JAffine(RExact(s), f, k + 1), e.tau[i])
  IN RVec([c \in 1..e.n |->
       LET co == Coefs(e, i, c) j1 == JComb(co, bj, 1, k + 1)
           j == RVec([q \in 1..(k + 1) |-> RBlur(j1[q], RMul(RMul(R(q), RMag(j1[q + 1])), u))])
       IN IF e.b.name = "lagrange" /\ (k >= e.b.dim \/ AtNode(e.b, s)) THEN Noise(e.b, s, e.tau[i], co, j) ELSE j])

(* the intervals a point may be attributed to *)
NearEq(x, y) == RCmp(x, y) = 0 \/ RBlurred(x, y)
GsIntervals(e, t) ==
  LET bp == Breakpoints(e.d[1], e.tau) tt == R(t) N == NumIntervals(e)
  IN { i \in 1..N : (RLe(bp[i], tt) \/ NearEq(tt, bp[i]))
                 /\ (RLe(tt, bp[i + 1]) \/ NearEq(tt, bp[i + 1])) }
AllUndef(n, k) == RVec([c \in 1..n |-> JUndef(k)])
Merge(a, b) == RVec([c \in 1..Len(a) |-> JAgree(a[c], b[c])])

(* ---- splines as concrete objects *)
(* Matrix of the m-th derivative acting on coefficients, over one interval:  *)
(* with respect to the window variable for the polynomial bases, to time for *)
(* basis0101 (whose matrix does not depend on the interval).                 *)
Id(n) == RVec([i \in 1..n |-> RVec([j \in 1..n |-> IF i = j THEN R(1) ELSE R(0)])])
MatMul(a, b) == LET bt == RVec([j \in 1..Len(b[1]) |-> RVec([i \in 1..Len(b) |-> b[i][j]])])
                IN RVec([i \in 1..Len(a) |-> RVec([j \in 1..Len(bt) |-> RDot(a[i], bt[j])])])
MatVec(a, v) == RVec([i \in 1..Len(a) |-> RDot(a[i], v)])
Der1(b) ==
  CASE b.name = "legendre" ->      \* P_j' = sum of (2i+1) P_i over i < j, j-i odd
         RVec([i \in 1..b.dim |-> RVec([j \in 1..b.dim |->
            IF i < j /\ (j - i) % 2 = 1 THEN R(2 * i - 1) ELSE R(0)])])
    [] b.name = "lagrange" ->      \* values at the nodes of the derivatives
         LET d == RVec([i \in 1..b.dim |-> BJetsAt(b, JVar(b.pars[i], 1), "2")])
         IN RVec([i \in 1..b.dim |-> RVec([j \in 1..b.dim |-> d[i][j][2]])])
    [] b.name = "basis0101" ->
         LET w == RMul(R(2), K0101(b.pars[1])) n == RNeg(w) z == R(0) IN
         (* columns: derivatives of e^p cos p, e^p sin p, e^-p cos p, e^-p sin p, p, 1 *)
         << << w, w, z, z, z, z >>,
            << n, w, z, z, z, z >>,
            << z, z, n, w, z, z >>,
            << z, z, n, n, z, z >>,
            << z, z, z, z, z, z >>,
            << z, z, z, z, w, z >> >>
RECURSIVE DerMat(_, _)
DerMat(b, m) == IF m = 0 THEN Id(b.dim) ELSE MatMul(Der1(b), DerMat(b, m - 1))
DerScale(b, tau, m) == IF b.name = "basis0101" THEN R(1) ELSE RPow(RDiv(R(2), R(tau)), m)

Flatten3(ni, n, F(_, _)) ==         \* F(interval, component) gives the dim coefficients
  LET RECURSIVE go(_, _)
      go(i, c) == IF i > ni THEN <<>>
                  ELSE IF c > n THEN go(i + 1, 1)
                  ELSE RVec(F(i, c)) \o go(i, c + 1)
  IN go(1, 1)

GLBasis(ng) == [name |-> "lagrange", dim |-> ng, pars |-> GNodes(ng)]
(* collocation points of interval i of a spline with Lagrange basis *)
CollPoints(x, i) ==
  LET bp == Breakpoints(x.d[1], x.tau) IN
  RVec([j \in 1..x.b.dim |-> RAdd(bp[i], RMul(RDiv(RAdd(R(x.b.pars[j]), R(1)), R(2)), R(x.tau[i])))])

(* ---- denotation *)
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y

(* Everything outside a spline's or a concatenation's own domain is          *)
(* undetermined; elementary functions extend beyond theirs.  At a breakpoint *)
(* only what both sides agree on is determined.                              *)
RECURSIVE JetOf(_, _, _)
RECURSIVE Spl(_)
RECURSIVE FMatrix(_)
JetOf(e, t, k) ==
  CASE e.k = "const" -> RVec([c \in 1..Len(e.c) |-> JConst(e.c[c], k)])
    [] e.k = "dil" -> << JAffine(RMul(R(e.c), R(t)), R(e.c), k) >>
    [] e.k = "exp" -> << JExpAt(t, k) >>
    [] e.k = "sin" -> << JSinAt(t, k) >>
    [] e.k = "cos" -> << JCosAt(t, k) >>
    [] e.k = "poly" -> << JPolyAt(e.c, t, k) >>
    [] e.k = "gs" ->
         LET S == GsIntervals(e, t) IN
         IF RIsUndef(R(t)) \/ S = {} THEN AllUndef(e.n, k)
         ELSE IF SetMin(S) = SetMax(S) THEN GsJetIn(e, SetMin(S), t, k)
         ELSE Merge(GsJetIn(e, SetMin(S), t, k), GsJetIn(e, SetMax(S), t, k))
    [] e.k = "sum" -> LET x == JetOf(e.a, t, k) y == JetOf(e.b, t, k)
                      IN RVec([c \in 1..Len(x) |-> JAdd(x[c], y[c])])
    [] e.k = "sub" -> LET x == JetOf(e.a, t, k) y == JetOf(e.b, t, k)
                      IN RVec([c \in 1..Len(x) |-> JSub(x[c], y[c])])
    [] e.k = "neg" -> LET x == JetOf(e.a, t, k) IN RVec([c \in 1..Len(x) |-> JNeg(x[c])])
    [] e.k = "scal" -> LET x == JetOf(e.a, t, k) IN RVec([c \in 1..Len(x) |-> JScale(R(e.c), x[c])])
    [] e.k = "mul" -> LET x == JetOf(e.a, t, k) y == JetOf(e.b, t, k)
                      IN IF Len(x) >= Len(y)
                         THEN RVec([c \in 1..Len(x) |-> JMul(x[c], y[1])])
                         ELSE RVec([c \in 1..Len(y) |-> JMul(x[1], y[c])])
    [] e.k = "dot" -> LET x == JetOf(e.a, t, k) y == JetOf(e.b, t, k)
                          RECURSIVE S(_)
                          S(c) == IF c > Len(x) THEN JConst(0, k) ELSE JAdd(JMul(x[c], y[c]), S(c + 1))
                      IN << S(1) >>
    [] e.k = "comp" -> LET g == JetOf(e.b, t, k)[1] IN
                       IF RIsUndef(g[1]) THEN AllUndef(Cod(e.a), k)
                       ELSE LET f == JetOf(e.a, g[1], k)
                            IN RVec([c \in 1..Len(f) |-> JComp(f[c], g)])
    [] e.k = "cat" ->
         LET tt == R(t) l == R(Dom(e)[1]) r == R(Dom(e)[2]) m == R(Dom(e.b)[1]) z == R(Dom(e.a)[2]) IN
         IF RIsUndef(tt) \/ (RLt(tt, l) /\ ~NearEq(tt, l)) \/ (RLt(r, tt) /\ ~NearEq(tt, r))
         THEN AllUndef(Cod(e.a), k)
         ELSE IF RBlurred(tt, m) \/ (RLe(z, tt) /\ RLt(tt, m)) \/ (RLe(m, tt) /\ RLt(tt, z))    \* in the tolerated gap
         THEN Merge(JetOf(e.a, t, k), JetOf(e.b, t, k))
         ELSE IF RLe(m, tt) THEN JetOf(e.b, t, k) ELSE JetOf(e.a, t, k)
    [] e.k = "der" -> LET x == JetOf(e.a, t, k + e.m) IN RVec([c \in 1..Len(x) |-> JShift(x[c], e.m)])
    [] e.k = "resc" ->
         LET o == Dom(e.a)
             f == RDiv(RSub(R(o[2]), R(o[1])), RSub(R(e.d[2]), R(e.d[1])))
             x == JetOf(e.a, RAdd(R(o[1]), RMul(f, RSub(R(t), R(e.d[1])))), k)
         IN RVec([c \in 1..Len(x) |-> JCompAffine(x[c], f)])

    [] e.k \in CollKinds -> JetOf(Spl(e), t, k)

Value(e, t) == LET j == JetOf(e, t, 0) IN RVec([c \in 1..Len(j) |-> j[c][1]])

(* may evaluation at t leave the domain of a spline or concatenation inside? *)
Undet(e, t) == LET v == Value(e, t) IN \E c \in 1..Len(v) : RIsUndef(v[c])

(* spline of the given shape that takes the values of f at the collocation points *)
Collocate(f, d, n, b, tau) ==
  LET x == [d |-> d, tau |-> tau, b |-> b]
      v == RVec([i \in 1..Len(tau) |-> LET p == CollPoints(x, i) IN RVec([j \in 1..b.dim |-> Value(f, p[j])])])
  IN [k |-> "gs", d |-> d, n |-> n, b |-> b, tau |-> tau,
      c |-> Flatten3(Len(tau), n, LAMBDA i, c : [j \in 1..b.dim |-> v[i][j][c]])]

RECURSIVE RSumLits(_)
RSumLits(s) == IF s = <<>> THEN R(0) ELSE RAdd(R(Head(s)), RSumLits(Tail(s)))

Alpha0101(al, f) ==      \* parameter whose frequency is that of al divided by f
  LET x == K0101(al) y == RDiv(x, f) y2 == RMul(y, y) q == RMul(R(64), RMul(y2, y2))
  IN RStr(RDiv(q, RAdd(R(1), q)))      \* a literal: the parameter is stored
ScaleSpl(x, f) ==        \* run through in f times the time
  LET r == RAdd(R(x.d[1]), RMul(f, RSub(R(x.d[2]), R(x.d[1])))) IN
  [x EXCEPT !.d = << x.d[1], r >>, !.tau = [i \in 1..Len(x.tau) |-> RMul(f, R(x.tau[i]))],
            !.b = IF x.b.name = "basis0101" THEN [x.b EXCEPT !.pars = << Alpha0101(x.b.pars[1], f) >>] ELSE x.b]

DerSpl(x, m) ==
  LET D == DerMat(x.b, m) IN
  [x EXCEPT !.c = Flatten3(Len(x.tau), x.n, LAMBDA i, c :
     LET y == MatVec(D, Coefs(x, i, c)) s == DerScale(x.b, x.tau[i], m)
     IN RVScale(s, y))]

(* Largest ratios over the samples of the velocity (acceleration) to its     *)
(* bound; the samples are the points of the uniform grid that a step dt      *)
(* gives.  NumSegs may be one of two when the division is not exact.         *)
RMax(a, b) == IF RIsUndef(a) \/ RIsUndef(b) THEN RUndef ELSE IF RLe(a, b) THEN b ELSE a
RECURSIVE RMaxSeq(_)
RMaxSeq(s) == IF Len(s) = 1 THEN s[1] ELSE RMax(s[1], RMaxSeq(Tail(s)))
GridPoint(d, n, i) == IF n = 0 THEN R(d[2])
                      ELSE RAdd(R(d[1]), RMul(RDiv(R(i), R(n)), RSub(R(d[2]), R(d[1]))))

(* either-interval value: values of the spline at t using interval i *)
SplValueIn(x, i, t) == LET j == GsJetIn(x, i, t, 0) IN RVec([c \in 1..x.n |-> j[c][1]])

RPowReal(v, e) ==        \* v^e for the exponents used: integers and halves
  CASE e = "2" -> RMul(v, v)
    [] e = "1" -> v
    [] e = "3" -> RMul(v, RMul(v, v))
    [] e = "0.5" -> RSqrt(v)
    [] e = "-1" -> RDiv(R(1), v)
    [] e = "-0.5" -> RDiv(R(1), RSqrt(v))
    [] e = "1.5" -> RMul(v, RSqrt(v))

(* Spl(e) is the spline [d, n, b, c, tau] that a spline-valued tree denotes *)
Spl(e) ==
  CASE e.k = "gs" -> e
    [] e.k \in {"sum", "sub"} ->
         LET x == Spl(e.a) y == Spl(e.b) IN
         [x EXCEPT !.c = IF e.k = "sum" THEN RVAdd(x.c, y.c) ELSE RVSub(x.c, y.c)]
    [] e.k = "neg" -> LET x == Spl(e.a) IN [x EXCEPT !.c = RVScale(R(-1), x.c)]
    [] e.k = "scal" -> LET x == Spl(e.a) IN [x EXCEPT !.c = RVScale(R(e.c), x.c)]
    [] e.k = "der" -> DerSpl(Spl(e.a), e.m)
    [] e.k = "resc" -> LET x == Spl(e.a) IN
         LET y == ScaleSpl(x, RDiv(RSub(R(e.d[2]), R(e.d[1])), RSub(R(x.d[2]), R(x.d[1]))))
         IN [y EXCEPT !.d = e.d]
    (* collocation splines *)
    [] e.k = "gapp" -> LET d == Dom(e.a) h == RDiv(RSub(R(d[2]), R(d[1])), R(e.ni)) IN
         Collocate(e.a, d, Cod(e.a), GLBasis(e.ng), [i \in 1..e.ni |-> h])
    [] e.k = "gasg" -> LET x == Spl(e.a) d == Dom(e.f)
                           f == RDiv(RSub(R(d[2]), R(d[1])), RSumLits(x.tau)) IN
         Collocate(e.f, d, x.n, x.b, [i \in 1..Len(x.tau) |-> RMul(f, R(x.tau[i]))])
    [] e.k = "gset" -> LET x == Spl(e.a)
                           f == RDiv(RSub(R(e.d[2]), R(e.d[1])), RSumLits(x.tau)) IN
         [x EXCEPT !.d = e.d, !.tau = [i \in 1..Len(x.tau) |-> RMul(f, R(x.tau[i]))],
                   !.c = Flatten3(Len(x.tau), x.n, LAMBDA i, c :
                      [j \in 1..x.b.dim |-> R(e.v[(i - 1) * x.b.dim + j][c])])]
    [] e.k = "gmul" -> LET x == Spl(e.a) y == Spl(e.b)
                           s == IF y.n = 1 THEN y ELSE x
                           v == IF y.n = 1 THEN x ELSE y IN
         [v EXCEPT !.c = Flatten3(Len(v.tau), v.n, LAMBDA i, c :
            LET p == Coefs(v, i, c) q == Coefs(s, i, 1)
            IN [j \in 1..v.b.dim |-> RMul(R(p[j]), R(q[j]))])]
    [] e.k = "ginv" -> LET x == Spl(e.a) IN
         [x EXCEPT !.c = RVec([i \in 1..Len(x.c) |-> RDiv(R(e.c), R(x.c[i]))])]
    [] e.k = "gpow" -> LET x == Spl(e.a) IN
         [x EXCEPT !.c = RVec([i \in 1..Len(x.c) |-> RPowReal(R(x.c[i]), e.c)])]
    [] e.k = "gnorm" -> LET x == Spl(e.a) IN
         [x EXCEPT !.n = 1, !.c = Flatten3(Len(x.tau), 1, LAMBDA i, c1 :
            [j \in 1..x.b.dim |->
               RSqrt(RSum([c \in 1..x.n |-> LET v == R(Coefs(x, i, c)[j]) IN RMul(v, v)]))])]
    [] e.k = "gaddv" ->  \* sa * spline + sv * vector at every point
         LET x == Spl(e.a) IN
         [x EXCEPT !.c = Flatten3(Len(x.tau), x.n, LAMBDA i, c :
            LET p == Coefs(x, i, c) IN
            [j \in 1..x.b.dim |-> RAdd(RMul(R(e.sa), R(p[j])), RMul(R(e.sv), R(e.v[c])))])]
    [] e.k = "fimg" -> LET x == Spl(e.a) IN      \* the image under a linear functional
         [x EXCEPT !.n = e.n, !.c = MatVec(FMatrix(e.f), RVec([i \in 1..Len(x.c) |-> R(x.c[i])]))]

SplKinds == {"gs", "gll"}

(* ---- linear functionals on collocation splines of one shape: the matrix   *)
(* that takes coefficients (collocation values: interval, component, point)  *)
(* to the result.  b: basis, n: components, tau: interval lengths.           *)
(*   fder   coefficients of the m-th derivative                              *)
(*   fcont  jumps at the interior breakpoints of derivatives 0..m            *)
(*   fint   the integral (of a scalar spline)                                *)
(*   ftr    pointwise scalar product with the spline a                       *)
(*   fmat   pointwise product with the matrices M (one for each point)       *)
FShape(e) ==      \* << rows, columns >>
  CASE e.k = "fder" -> LET s == e.b.dim * e.n * Len(e.tau) IN << s, s >>
    [] e.k = "fcont" -> << (Len(e.tau) - 1) * e.n * (e.m + 1), e.b.dim * e.n * Len(e.tau) >>
    [] e.k = "fint" -> << 1, e.b.dim * Len(e.tau) >>
    [] e.k = "ftr" -> LET p == e.ng * e.ni IN << p, p * e.n >>
    [] e.k = "fmat" -> LET p == e.ng * e.ni IN << p * e.rows, p * e.cols >>
    [] OTHER -> e.sh
FMatrix(e) ==
  LET Rows(F(_, _)) == LET s == FShape(e) IN RVec([i \in 1..s[1] |-> RVec([j \in 1..s[2] |-> F(i - 1, j - 1)])]) IN
  CASE e.k = "fder" ->
         LET D == DerMat(e.b, e.m) q == e.b.dim
             sc == RVec([i \in 1..Len(e.tau) |-> DerScale(e.b, e.tau[i], e.m)]) IN
         Rows(LAMBDA i, j : IF i \div q # j \div q THEN R(0)
                            ELSE RMul(sc[i \div (q * e.n) + 1], D[(i % q) + 1][(j % q) + 1]))
    [] e.k = "fcont" ->
         LET q == e.b.dim N == Len(e.tau) rows == (N - 1) * e.n
             P == [d \in 0..e.m |-> [v \in 1..N |-> BDer(e.b, 1, e.tau[v], d)]]
             M == [d \in 0..e.m |-> [v \in 1..N |-> BDer(e.b, -1, e.tau[v], d)]] IN
         Rows(LAMBDA i, j : LET d == i \div rows v == (i % rows) \div e.n c == i % e.n blk == j \div q IN
              IF blk = v * e.n + c THEN P[d][v + 1][(j % q) + 1]
              ELSE IF blk = (v + 1) * e.n + c THEN RNeg(M[d][v + 2][(j % q) + 1]) ELSE R(0))
    [] e.k = "fint" ->
         LET q == e.b.dim w == RVec([i \in 1..q |-> GWeight(q, i)]) IN
         Rows(LAMBDA i, j : RMul(RDiv(R(e.tau[j \div q + 1]), R(2)), w[(j % q) + 1]))
    [] e.k = "ftr" ->
         LET q == e.ng c == IF e.z THEN <<>> ELSE Spl(e.a).c IN
         Rows(LAMBDA i, j : IF ~e.z /\ (j \div q) \div e.n = i \div q /\ j % q = i % q THEN R(c[j + 1]) ELSE R(0))
    [] e.k = "fmat" ->
         LET q == e.ng IN
         Rows(LAMBDA i, j : LET v == i \div (q * e.rows) IN
              IF e.M # <<>> /\ j \div (q * e.cols) = v /\ i % q = j % q
              THEN R(e.M[v * q + (i % q) + 1][((i \div q) % e.rows) + 1][((j \div q) % e.cols) + 1]) ELSE R(0))
    [] e.k = "fsum" -> LET x == FMatrix(e.a) y == FMatrix(e.b) IN RVec([i \in 1..Len(x) |-> RVAdd(x[i], y[i])])
    [] e.k = "fsub" -> LET x == FMatrix(e.a) y == FMatrix(e.b) IN RVec([i \in 1..Len(x) |-> RVSub(x[i], y[i])])
    [] e.k = "fneg" -> LET x == FMatrix(e.a) IN RVec([i \in 1..Len(x) |-> RVScale(R(-1), x[i])])
    [] e.k = "fscal" -> LET x == FMatrix(e.a) IN RVec([i \in 1..Len(x) |-> RVScale(R(e.c), x[i])])
    [] e.k = "fcomp" -> MatMul(FMatrix(e.a), FMatrix(e.b))
(* how its matrix is stored, which decides with what it combines *)
RECURSIVE FStore(_)
FStore(e) == CASE e.k = "fint" -> "d" [] e.k = "fcont" -> "r" [] e.k \in {"fder", "ftr", "fmat"} -> "c" [] OTHER -> FStore(e.a)
FDerOf(x, m) == [k |-> "fder", b |-> x.b, n |-> x.n, tau |-> x.tau, m |-> m]
FIntOf(x) == [k |-> "fint", b |-> x.b, tau |-> x.tau]
FTrOf(a, x) == [k |-> "ftr", z |-> FALSE, a |-> a, n |-> x.n, ng |-> x.b.dim, ni |-> Len(x.tau)]

(* distance of a collocation spline y to a function: with d and v the        *)
(* collocation values of the differences of values and of first derivatives, *)
(* the quadrature of |d|^2 + |v|^2                                           *)
SobDiffs(e, y) ==
  LET x == Spl([k |-> "gapp", a |-> e.f, ng |-> e.ng, ni |-> e.ni])
      xd == Spl([k |-> "gapp", a |-> EDer(e.f, 1), ng |-> e.ng, ni |-> e.ni])
      D == FMatrix(FDerOf(x, 1))
      yc == RVec([i \in 1..Len(y.c) |-> R(y.c[i])])
  IN [x |-> x, D |-> D, d |-> RVSub(x.c, yc), v |-> RVSub(xd.c, MatVec(D, yc))]
SobDistance(e, y) ==
  LET q == SobDiffs(e, y)
      Tr(c) == FMatrix(FTrOf([q.x EXCEPT !.c = c], q.x)) IN
  RDot(FMatrix(FIntOf(q.x))[1], RVAdd(MatVec(Tr(q.d), q.d), MatVec(Tr(q.v), q.v)))
SobDifferential(e, y) ==
  LET q == SobDiffs(e, y)
      T1 == FMatrix(FTrOf([q.x EXCEPT !.c = q.d], q.x))
      T2 == MatMul(FMatrix(FTrOf([q.x EXCEPT !.c = q.v], q.x)), q.D)
      S == RVec([i \in 1..Len(T1) |-> RVAdd(T1[i], T2[i])])
  IN RVScale(R(-2), MatMul(FMatrix(FIntOf(q.x)), S)[1])

SameLits(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : RLe(RAbs(RSub(R(a[i]), R(b[i]))), R("1e-8"))
SameBasis(a, b) == a.name = b.name /\ a.dim = b.dim /\ SameLits(a.pars, b.pars)
SameSpace(x, y) == /\ SameNum(x.d[1], y.d[1]) /\ SameNum(x.d[2], y.d[2])
                   /\ x.n = y.n /\ SameBasis(x.b, y.b) /\ SameLits(x.tau, y.tau)
SplEq(x, y) == SameSpace(x, y) /\ SameLits(x.c, y.c)
=============================================================================
