------------------------------- MODULE GLaws --------------------------------
(* Laws of the specification itself: instances that TLC checks, so that what *)
(* the implementation is compared with is not one formula written once.      *)
(* A state is one instance of one law.                                       *)
EXTENDS GPlans, GCheck
CONSTANT Stride
VARIABLES law, i

Eps == R("1e-18")
Near(a, b) == (RIsUndef(a) /\ RIsUndef(b)) \/ (~RIsUndef(a) /\ ~RIsUndef(b) /\ (RClose(a, b, Eps) \/ RClose(b, a, Eps)))
NearV(a, b) == Len(a) = Len(b) /\ \A c \in 1..Len(a) : Near(R(a[c]), R(b[c]))
NearM(a, b) == Len(a) = Len(b) /\ \A c \in 1..Len(a) : NearV(a[c], b[c])

(* ---- material *)
(* a function of n components on d, of some depth: by index                  *)
RECURSIVE Fn(_, _, _, _)
Fn(n, d, z, depth) ==
  IF depth = 0
  THEN LET s == IF z % 3 = 0 THEN Gs(n, d, z \div 3) ELSE Elem(n, d, z \div 3) IN s.e
  ELSE LET m == z \div 8 IN
       CASE z % 8 = 0 -> EBin("sum", Fn(n, d, m, depth - 1), Fn(n, d, m + 5, depth - 1))
         [] z % 8 = 1 -> EBin("sub", Fn(n, d, m, depth - 1), Fn(n, d, m + 7, depth - 1))
         [] z % 8 = 2 -> EBin("mul", Fn(n, d, m, depth - 1), Fn(1, d, m + 3, depth - 1))
         [] z % 8 = 3 -> IF n = 1 THEN EBin("dot", Fn(2, d, m, depth - 1), Fn(2, d, m + 3, depth - 1))
                         ELSE EBin("mul", Fn(1, d, m + 1, depth - 1), Fn(n, d, m, depth - 1))
         [] z % 8 = 4 -> ENeg(Fn(n, d, m, depth - 1))
         [] z % 8 = 5 -> EScal(Cf(m), Fn(n, d, m, depth - 1))
         [] z % 8 = 6 -> EBin("comp", Elem(n, d, m).e, Fn(1, d, m + 1, depth - 1))
         [] z % 8 = 7 -> EDer(Fn(n, d, m, depth - 1), 1 + (m % 2))
D0(z) == Nth(Doms, z)
(* a point inside, away from breakpoints *)
At(d, z) == RStr(RAdd(R(d[1]), RMul(RSub(R(d[2]), R(d[1])), R(Nth(<<"0.0371", "0.2083", "0.4417", "0.6133", "0.8731", "0.9619">>, z)))))
Bas(z) == Nth(BasisPool \o BigBases, z)
Sp(n, z) == LET d == D0(z) IN SplineOn(d, n, Bas(z \div 5), 1 + (z % 3), z)

(* ---- functions *)
(* the jet at t is the Taylor series of the value near t                     *)
TaylorLaw(z) ==
  LET d == D0(z) n == 1 + (z % 2) e == Fn(n, d, z \div 2, z % 3) t == At(d, z)
      h == R("1e-8") j == JetOf(e, t, 4) v == Value(e, RAdd(R(t), h))
      Sum(c) == RSum([q \in 1..5 |-> RMul(j[c][q], RPow(h, q - 1))]) IN
  \A c \in 1..n : Near(v[c], Sum(c))
SameJets(e, f, t, k) == LET a == JetOf(e, t, k) b == JetOf(f, t, k) IN Len(a) = Len(b) /\ \A c \in 1..Len(a) : NearV(a[c], b[c])
Leibniz(a, b) == EBin("sum", EBin("mul", EDer(a, 1), b), EBin("mul", a, EDer(b, 1)))
(* derivative rules as identities of trees *)
RulesLaw(z) ==
  LET d == D0(z) t == At(d, z) a == Fn(1, d, z \div 3, z % 2) b == Fn(2, d, z \div 7, z % 2) g == Fn(1, d, z \div 5, 0)
      f == Elem(1, d, z).e IN
  /\ SameJets(EDer(EBin("mul", a, b), 1), Leibniz(a, b), t, 2)
  /\ SameJets(EDer(EBin("dot", b, b), 1), EScal("2", EBin("dot", b, EDer(b, 1))), t, 2)
  /\ SameJets(EDer(EBin("comp", f, g), 1), EBin("mul", EBin("comp", EDer(f, 1), g), EDer(g, 1)), t, 2)
  /\ SameJets(EDer(EDer(a, 1), 2), EDer(a, 3), t, 1)
  /\ SameJets(EDer(a, 0), a, t, 2)
  /\ SameJets(EDer(EBin("sum", b, b), 2), EScal("2", EDer(b, 2)), t, 1)
(* algebra *)
AlgebraLaw(z) ==
  LET d == D0(z) t == At(d, z) n == 1 + (z % 2)
      a == Fn(n, d, z \div 2, 1) b == Fn(n, d, z \div 3, 1) s == Fn(1, d, z \div 5, 0) f == Elem(1, d, z).e IN
  /\ SameJets(EBin("sum", a, b), EBin("sum", b, a), t, 2)
  /\ SameJets(EBin("sub", a, b), EBin("sum", a, ENeg(b)), t, 2)
  /\ SameJets(EBin("mul", s, EBin("sum", a, b)), EBin("sum", EBin("mul", a, s), EBin("mul", b, s)), t, 2)
  /\ SameJets(EBin("dot", a, b), EBin("dot", b, a), t, 2)
  /\ SameJets(EBin("comp", f, EBin("comp", ESin(d), s)), EBin("comp", EBin("comp", f, ESin(d)), s), t, 2)
  /\ SameJets(EScal("0.5", EScal("2", a)), a, t, 2)
  /\ OkBin("sum", a, b) = OkBin("sum", b, a) /\ OkBin("mul", a, s) = OkBin("mul", s, a)
(* concatenation: by pieces, however grouped *)
CatLaw(z) ==
  LET n == 1 + (z % 2) f(q) == Fn(n, << ToString(q), ToString(q + 1) >>, z + q * 5, z % 2)
      l == EBin("cat", EBin("cat", f(0), f(1)), f(2)) r == EBin("cat", f(0), EBin("cat", f(1), f(2)))
      t == Nth(<<"0", "0.25", "0.999", "1", "1.5", "2", "2.625", "3">>, z)
      p == CASE z % 8 <= 2 -> 0 [] z % 8 \in {3, 4} -> 1 [] OTHER -> 2 IN
  /\ SameJets(l, r, t, 2) /\ SameJets(l, f(p), t, 2)
  /\ Dom(l) = Dom(r) /\ Dom(l) = << "0", "3" >> /\ Cod(l) = n

(* ---- splines *)
SplineLaw(z) ==
  LET n == 1 + (z % 2) x == Sp(n, z) y == [x EXCEPT !.c = Cfs(Len(x.c), z + 3)] t == At(x.d, z) m == z % 4
      IvOf == SetMin(GsIntervals(x, t)) IN
  /\ (x.b.name = "lagrange" /\ m >= x.b.dim) \/ SameJets(DerSpl(x, m), EDer(x, m), t, 1)
  /\ NearV(SplValueIn(x, IvOf, t), Value(x, t))
  /\ SameJets(Spl(EBin("sub", x, y)), EBin("sub", x, y), t, 1)
  /\ SameJets(Spl(ENeg(x)), ENeg(x), t, 1)
  /\ LET r == EResc(x, << x.d[1], RStr(RAdd(R(x.d[1]), R(Nth(<<"0.5", "3", "1.75">>, z)))) >>) s == Spl(r) u == At(r.d, z) IN
     SameJets(s, r, u, IF x.b.name = "lagrange" /\ x.b.dim < 3 THEN 0 ELSE 2)
  /\ NearV(<< R(x.d[2]) >>, << Breakpoints(x.d[1], x.tau)[Len(x.tau) + 1] >>)
  /\ SplEq(x, x) /\ (SplEq(x, y) = SplEq(y, x))

(* ---- bases *)
Nodes20 == GNodes(24)
Weights20 == RVec([q \in 1..24 |-> GWeight(24, q)])
WinIntegral(F(_)) == RSum([q \in 1..24 |-> RMul(Weights20[q], F(Nodes20[q]))])
BasisLaw(z) ==
  LET b == Bas(z) tau == Nth(TauPool, z \div 3) m == z % 4 s == Nth(<<"-1", "-0.3", "0", "0.45", "1">>, z)
      h == R("1e-12") up == RStr(RAdd(R(tau), h)) dn == RStr(RSub(R(tau), h))
      loose(x, y) == RLe(RAbs(RSub(x, y)), RMul(R("1e-15"), RAdd(RMag(x), RAdd(RMag(y), R(1)))))
      G == Gram(b, tau, m) GT == GramTau(b, tau, m) GU == Gram(b, up, m) GD == Gram(b, dn, m)
      BU == BDer(b, s, up, m) BD == BDer(b, s, dn, m) BT == BDerTau(b, s, tau, m)
      two == RMul(R(2), h) p == 1 + (z % b.dim) q == 1 + ((z \div 7) % b.dim)
      far(q1, q2) == RLe(RAbs(RSub(q1, q2)), RMul(R("1e-9"), RAdd(R(1), RAbs(q2)))) IN
  /\ loose(G[p][q], RMul(RDiv(R(tau), R(2)), WinIntegral(LAMBDA x : RMul(BDer(b, x, tau, m)[p], BDer(b, x, tau, m)[q]))))
  /\ NearV(<< G[p][q] >>, << G[q][p] >>)
  /\ far(RDiv(RSub(GU[p][q], GD[p][q]), two), GT[p][q])
  /\ \A c \in 1..b.dim : far(RDiv(RSub(BU[c], BD[c]), two), BT[c])
  (* the derivative matrix: derivatives of the basis functions are combinations of them *)
  /\ (b.name = "lagrange" /\ m >= b.dim) \/
     LET D == DerMat(b, m) v == BDer(b, s, tau, 0) w == BDer(b, s, tau, m) IN
     \A c \in 1..b.dim : loose(w[c], RMul(DerScale(b, tau, m), RSum([r \in 1..b.dim |-> RMul(D[r][c], v[r])])))
(* Lagrange: partition of unity, cardinal *)
LagrangeLaw(z) ==
  LET b == Nth(<<BGll(2), BGll(3), BGll(5), BGll(8), BLag(<<"-1", "0.25", "1">>), BLag(<<"-0.75", "-0.25", "0.5", "1">>), BigBases[4]>>, z)
      s == Nth(<<"-1", "-0.3", "0", "0.45", "1">>, z) IN
  /\ Near(RSum(BDer(b, s, "2", 0)), R(1))
  /\ \A q \in 1..b.dim : NearV(BDer(b, b.pars[q], "2", 0), [c \in 1..b.dim |-> IF c = q THEN R(1) ELSE R(0)])

(* ---- quadrature *)
NodeLaw(n) ==
  /\ GNodesOK(n)
  /\ LET w == RVec([q \in 1..n |-> GWeight(n, q)]) g == GNodes(n) IN
     \A k \in 0..(2 * n - 3) :
       Near(RSum([q \in 1..n |-> RMul(w[q], RPow(R(g[q]), k))]), IF k % 2 = 1 THEN R(0) ELSE RDiv(R(2), R(k + 1)))
IntegralLaw(z) ==      \* the integral of a derivative
  LET d == D0(z) p == EPoly(d, Cfs(2 + (z % 6), z)) v(t) == Value(p, t)[1] IN
  Near(IntegralOf(LAMBDA t, k : JetOf(EDer(p, 1), t, k)[1], d, 1 + (z % 3), 16), RSub(v(d[2]), v(d[1])))

(* ---- functionals *)
Coll(n, z) == LET d == D0(z) ng == 2 + (z % 5) ni == 1 + (z % 3) IN EGs(d, n, GLBasis(ng), Cfs(n * ng * ni, z), TausOn(d, ni, z))
FunctionalLaw(z) ==
  LET n == 1 + (z % 2) x == Coll(n, z) y == Coll(n, z + 30) c == RSeq(x.c) N == Len(x.tau)
      bp == Breakpoints(x.d[1], x.tau)
      F == [k |-> "fcont", b |-> x.b, n |-> n, tau |-> x.tau, m |-> 1] jmp == MatVec(FMatrix(F), c)
      x1 == [x EXCEPT !.n = 1, !.c = Flatten3(N, 1, LAMBDA v, q : Coefs(x, v, 1))] IN
  /\ NearV(MatVec(FMatrix(FDerOf(x, 1)), c), DerSpl(x, 1).c)
  /\ \A v \in 1..(N - 1) : \A q \in 1..n : \A m \in 0..(IF x.b.dim > 2 THEN 1 ELSE 0) :
       Near(jmp[m * (N - 1) * n + (v - 1) * n + q],
            RMul(RFact(m), RSub(GsJetIn(x, v, bp[v + 1], 2)[q][m + 1], GsJetIn(x, v + 1, bp[v + 1], 2)[q][m + 1])))
  /\ (x.b.dim < 3) \/
     Near(RDot(FMatrix(FIntOf(x1))[1], RSeq(x1.c)),
          SumOver(LAMBDA v : PieceIntegral(LAMBDA t, k : GsJetIn(x1, v, t, k)[1], bp[v], R(x.tau[v]), 16), 1, N))
  /\ n # 1 \/ NearV(MatVec(FMatrix(FTrOf(x, x)), c), Spl([k |-> "gmul", a |-> x, b |-> x]).c)
SobolevDistanceLaw(z) ==      \* a quadratic function: central differences are exact
  LET n == 1 + (z % 2) y == Coll(n, z) e == [f |-> Fn(n, y.d, z, 0), ng |-> y.b.dim, ni |-> Len(y.tau)]
      w == [y EXCEPT !.tau = Spl([k |-> "gapp", a |-> e.f, ng |-> e.ng, ni |-> e.ni]).tau]
      p == 1 + (z % Len(y.c)) bump(s) == [w EXCEPT !.c[p] = RStr(RAdd(R(w.c[p]), R(s)))] IN
  Near(RDiv(RSub(SobDistance(e, bump("0.5")), SobDistance(e, bump("-0.5"))), R(1)), SobDifferential(e, w)[p])

Size0 == [taylor |-> 400, rules |-> 120, algebra |-> 120, cat |-> 80, spline |-> 270, basis |-> 216, lagrange |-> 35,
          nodes |-> 26, integral |-> 30, functional |-> 60, distance |-> 40]
Count(l) == Size0[l]
Init == /\ law \in DOMAIN Size0
        /\ i \in { q \in 0..(Count(law) - 1) : q % Stride = 0 }
Next == FALSE /\ UNCHANGED << law, i >>
Holds ==
  CASE law = "taylor" -> TaylorLaw(i * 7) [] law = "rules" -> RulesLaw(i * 11) [] law = "algebra" -> AlgebraLaw(i * 13)
    [] law = "cat" -> CatLaw(i) [] law = "spline" -> SplineLaw(i) [] law = "basis" -> BasisLaw(i * 5)
    [] law = "lagrange" -> LagrangeLaw(i) [] law = "nodes" -> i < 2 \/ i \notin GNodeCounts \/ NodeLaw(i)
    [] law = "integral" -> IntegralLaw(i) [] law = "functional" -> FunctionalLaw(i) [] law = "distance" -> SobolevDistanceLaw(i)
=============================================================================
