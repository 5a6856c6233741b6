------------------------------- MODULE GPlans -------------------------------
(* Pieces of sessions: what a client may do next.                            *)
(* Everything a plan contains is a function of the heap and of z, a vector   *)
(* of numbers: drawn at random for simulation, enumerated for exhaustive     *)
(* generation.                                                               *)
EXTENDS GSession, TLC, Json, IOUtils, SequencesExt, FiniteSets

Env(k, d) == IF k \in DOMAIN IOEnv THEN IOEnv[k] ELSE d

(* ---- choices *)
Nth(s, i) == s[(i % Len(s)) + 1]
SeqOfSet(S) == SetToSortSeq(S, LAMBDA x, y : x < y)
Has1(S) == S # {}
PickIdx(S, i) == Nth(SeqOfSet(S), i)

CoefPool == << "0.5", "-1", "2", "0.75", "-0.25", "1.5", "-0.125", "1", "-2", "0.375" >>
Cf(i) == Nth(CoefPool, i)
Cfs(n, i) == [k \in 1..n |-> Cf(i * 7 + k * 3 + ((i * k) % 5))]
TauPool == << "1", "0.5", "2", "0.75", "1.25", "0.25", "1.5", "1.001", "3.5" >>
(* lengths of ni intervals covering [l, r], in fractions of 1024: different, *)
(* equal, nearly equal, partly equal, very different                         *)
Fr(ni, i) ==
  CASE ni = 1 -> << 1024 >>
    [] ni = 2 -> Nth(<< <<384, 640>>, <<512, 512>>, <<768, 256>>, <<511, 513>>, <<640, 384>>, <<32, 992>> >>, i)
    [] ni = 3 -> Nth(<< <<256, 128, 640>>, <<384, 384, 256>>, <<512, 256, 256>>, <<341, 342, 341>>, <<128, 640, 256>>,
                        <<16, 504, 504>>, <<640, 256, 128>> >>, i)
    [] ni = 4 -> Nth(<< <<256, 256, 256, 256>>, <<128, 384, 256, 256>>, <<384, 128, 128, 384>>, <<255, 257, 256, 256>>,
                        <<64, 448, 64, 448>> >>, i)
    [] ni = 5 -> Nth(<< <<128, 256, 128, 384, 128>>, <<204, 205, 205, 205, 205>>, <<64, 320, 256, 128, 256>> >>, i)
    [] OTHER -> [k \in 1..ni |-> IF k = ni THEN 1024 - (ni - 1) * (1024 \div (2 * ni)) - (ni - 1) * (ni - 2)
                                 ELSE (1024 \div (2 * ni)) + 2 * (k - 1)]
TausOn(d, ni, i) == [k \in 1..ni |-> RStr(RDiv(RMul(R(Fr(ni, i)[k]), RSub(R(d[2]), R(d[1]))), R(1024)))]

Rel(x, k) == RStr(RMul(R(x), R(k)))
Close(t, v) ==       \* t with a small or a permuting difference
  LET N == Len(t) IN
  CASE v = 0 -> [j \in 1..N |-> t[N + 1 - j]]
    [] v = 1 -> [j \in 1..N |-> t[(j % N) + 1]]
    [] v = 2 -> [t EXCEPT ![1] = Rel(t[1], "1.002")]
    [] v = 3 -> [t EXCEPT ![N] = Rel(t[N], "1.0001")]
    [] v = 4 -> [t EXCEPT ![(N + 1) \div 2] = Rel(t[(N + 1) \div 2], "1.000005")]
    [] v = 5 -> [j \in 1..N |-> Rel(t[j], "2")]
    [] v = 6 -> [j \in 1..N |-> Rel(t[j], "1.0004")]
    [] v = 7 -> [t EXCEPT ![1] = RStr(RAdd(R(t[1]), R("0.0005"))), ![N] = RStr(RSub(R(t[N]), R("0.0005")))]
    [] v = 8 -> [j \in 1..N |-> RStr(RDiv(RSum([k \in 1..N |-> R(t[k])]), R(N)))]
    [] OTHER -> [t EXCEPT ![(N + 1) \div 2] = Rel(t[(N + 1) \div 2], "1.5")]
CloseWp(w, v) ==
  LET N == Len(w) IN
  CASE v = 0 -> [j \in 1..N |-> w[N + 1 - j]]
    [] v = 1 -> [j \in 1..N |-> w[(j % N) + 1]]
    [] v = 2 -> [w EXCEPT ![1] = Close(w[1], 2)]
    [] v = 3 -> [w EXCEPT ![N] = Close(w[N], 3)]
    [] v = 4 -> [w EXCEPT ![2] = Close(w[2], 4)]
    [] v = 5 -> [j \in 1..N |-> [c \in 1..Len(w[j]) |-> Rel(w[j][c], "-1")]]
    [] v = 6 -> [j \in 1..N |-> [c \in 1..Len(w[j]) |-> RStr(RAdd(R(w[j][c]), R("0.5")))]]
    [] v = 7 -> [j \in 1..N |-> [c \in 1..Len(w[j]) |-> w[j][Len(w[j]) + 1 - c]]]
    [] v = 8 -> [j \in 1..N |-> w[1]]
    [] OTHER -> [w EXCEPT ![N] = Close(w[N], 5)]

Doms == << <<"0", "1">>, <<"-0.5", "1.5">>, <<"1", "2">>, <<"-1", "0">>, <<"0.5", "4.5">> >>
Pts == << "0.625", "0", "1", "0.25", "0.25", "0.5", "-0.5", "1.5", "-0.125", "1.375", "2",
          "0.8125", "-1", "-0.6875", "3.125", "4.5" >>

(* close to breakpoints and ends, on either side *)
NearPts == << "0.5000001", "0.3749999", "0.3750001", "0.4999999", "0.2500001", "0.2499999", "0.7499999", "0.0000001",
              "0.9999999", "1.0000001", "1.4999999", "0.9990234375", "1.999999", "-0.499999", "4.499999", "1", "0.75", "0.75" >>
CompPts == << "2.5", "0", "1", "1", "0.25", "4", "1.5", "0.625", "2", "1.25", "3.125", "0.8125", "1.6875", "0.125", "4.0625", "5.5", "4.125" >>

(* ---- bases *)
BLeg(n) == [name |-> "legendre", dim |-> n, pars |-> <<>>]
BGll(n) == GLBasis(n)
B01(a) == [name |-> "basis0101", dim |-> 6, pars |-> << a >>]
BLag(p) == [name |-> "lagrange", dim |-> Len(p), pars |-> p]
(* shapes larger than usual *)
BigBases == << BLeg(10), BGll(10), BLeg(12), BLag(<<"0.75", "-1", "0", "0.5", "-0.25", "1", "-0.625">>) >>
BasisPool == << BLeg(4), BLeg(6), BLeg(3), BLeg(2), BLeg(1), BLeg(5),
                BGll(4), BGll(3), BGll(6), BLag(<<"-1", "0.25", "1">>), BLag(<<"-0.75", "-0.25", "0.5", "1">>),
                B01("0.5"), B01("0.25"), B01("0.9375") >>

SplineOn(d, n, b, ni, i) == EGs(d, n, b, Cfs(n * b.dim * ni, i), TausOn(d, ni, i))

(* ---- steps *)
SNew(t, e) == [op |-> "new", t |-> t, e |-> e]
SBin(f, a, b, ca, cb) == [op |-> "bin", f |-> f, a |-> a, b |-> b, ca |-> ca, cb |-> cb]
Cat2(i) == IF i % 2 = 0 THEN "l" ELSE "r"

(* ---- operands, by representation.  n: codomain dimension, d: domain.      *)
(* A sequence of steps that starts with an empty place at base + 1 and whose *)
(* last step creates the operand                                             *)
Elem(n, d, i) ==
  IF n = 1
  THEN CASE i % 7 = 0 -> SNew("poly", EPoly(d, Cfs(3, i)))
         [] i % 7 = 1 -> SNew("sin", ESin(d))
         [] i % 7 = 2 -> SNew("exp", EExp(d))
         [] i % 7 = 3 -> SNew("cos", ECos(d))
         [] i % 7 = 4 -> SNew("dil", EDil(d, Cf(i)))
         [] i % 7 = 5 -> SNew("id", EDil(d, "1"))
         [] i % 7 = 6 -> SNew("poly", EPoly(d, [k \in 1..(1 + ((i \div 7) % 6)) |-> IF (i + k) % 5 = 0 THEN "0" ELSE Cf(i + 3 * k)]))
  ELSE IF i % 3 = 0 THEN SNew("const1", EConst(d, [k \in 1..n |-> Cf(i)]))
       ELSE SNew("constv", EConst(d, Cfs(n, i)))
Gs(n, d, i) == LET b == Nth(BasisPool, i) IN SNew("gs", SplineOn(d, n, b, 1 + (i % 3), i \div 2))
Mid(d) == RStr(RAdd(R(d[1]), RMul(R(Nth(<<"0.5", "0.25", "0.625">>, Len(d[1]) + Len(d[2]))), RSub(R(d[2]), R(d[1])))))
Reps == << "elem", "uniq", "sum", "mul", "neg", "comp", "cat", "dot", "gs", "der", "zero", "ugs", "upd" >>
(* a non constant function of dimension n made of at most two objects *)
Fun(n, d, i, base) == IF n = 1 THEN << Elem(1, d, i) >> ELSE << Gs(n, d, i) >>
Operand(r, n, d, i, base) ==
  CASE r = "elem" -> << Elem(n, d, i) >>
    [] r = "gs" -> << Gs(n, d, i) >>
    [] r = "zero" -> << SNew("zero", EConst(d, [k \in 1..n |-> "0"])) >>
    [] r = "uniq" -> Fun(n, d, i, base) \o << [op |-> "copy", a |-> base + 1, how |-> Nth(<<"toexpr", "toexprm", "conv", "convm">>, i)] >>
    [] r = "ugs" -> << Gs(n, d, i) >> \o << [op |-> "copy", a |-> base + 1, how |-> Nth(<<"toexpr", "convm">>, i)] >>
    [] r = "neg" -> Fun(n, d, i, base) \o << [op |-> "neg", a |-> base + 1, ca |-> Cat2(i)] >>
    [] r = "sum" -> Fun(n, d, i, base) \o << Elem(n, d, i + 3), SBin(Nth(<<"sum", "sub">>, i), base + 1, base + 2, Cat2(i), Cat2(i \div 2)) >>
    [] r = "mul" -> << Elem(1, d, i) >> \o << Elem(n, d, i + 2),
                       IF i % 2 = 0 THEN SBin("mul", base + 1, base + 2, Cat2(i \div 2), Cat2(i \div 4))
                                    ELSE SBin("mul", base + 2, base + 1, Cat2(i \div 2), Cat2(i \div 4)) >>
    [] r = "dot" -> LET m == IF n > 1 THEN n ELSE 1 + (i % 3) IN
                    (IF m = 1 THEN << Elem(1, d, i), Elem(1, d, i + 1) >> ELSE << Gs(m, d, i), Elem(m, d, i) >>)
                    \o << SBin("dot", base + 1, base + 2, Cat2(i), Cat2(i \div 2)) >>
    [] r = "comp" -> Fun(n, d, i, base) \o << Elem(1, d, i * 3 + 4),
                     SBin("comp", base + 1, base + 2, Cat2(i), Cat2(i \div 2)) >>
    [] r = "cat" -> LET m == Mid(d) IN
                    Fun(n, << d[1], m >>, i, base) \o << Elem(n, << m, d[2] >>, i + 1),
                    SBin("cat", base + 1, base + 2, Cat2(i), Cat2(i \div 2)) >>
    [] r = "der" -> Fun(n, d, i, base) \o << [op |-> "deriv", a |-> base + 1, m |-> 1 + (i % 2), how |-> Nth(<<"derivate", "deriv", "base">>, i)] >>
    [] r = "upd" -> Fun(n, d, i, base) \o << [op |-> "copy", a |-> base + 1, how |-> "toexprm"], Elem(n, d, i + 5),
                       [op |-> "addeq", a |-> base + 2, b |-> base + 3, cb |-> Cat2(i)],
                       Elem(1, d, i + 1), [op |-> "muleq", a |-> base + 2, b |-> base + 4, cb |-> Cat2(i \div 2)] >>
(* where the operand ends up *)
RECURSIVE Creates(_)
Creates(s) == IF s = <<>> THEN 0
              ELSE (IF Head(s).op \in {"addeq", "muleq", "drop"} THEN 0 ELSE 1) + Creates(Tail(s))
OperandAt(r, base, steps) == IF r = "upd" THEN base + 2 ELSE base + Creates(steps)

(* ---- measures that keep generated expressions moderate *)
RECURSIVE Size(_)
Size(e) == CASE e.k \in {"sum", "sub", "mul", "dot", "comp", "cat", "gmul"} -> 1 + Size(e.a) + Size(e.b)
             [] e.k \in {"neg", "scal", "der", "resc", "gapp", "gnorm", "ginv", "gpow", "gaddv", "gset"} -> 1 + Size(e.a)
             [] e.k = "gasg" -> 1 + Size(e.a) + Size(e.f)
             [] OTHER -> 1
RECURSIVE Exps(_)
Exps(e) == CASE e.k \in {"sum", "sub", "mul", "dot", "cat"} -> LET x == Exps(e.a) y == Exps(e.b) IN IF x > y THEN x ELSE y
             [] e.k = "comp" -> Exps(e.a) + Exps(e.b)
             [] e.k \in {"neg", "scal", "der"} -> Exps(e.a)
             [] e.k = "exp" -> 1
             [] e.k = "gs" -> IF e.b.name = "basis0101" THEN 1 ELSE 0
             [] OTHER -> 0
RECURSIVE Growth(_)
Growth(e) == CASE e.k \in {"sum", "sub", "cat"} -> LET x == Growth(e.a) y == Growth(e.b) IN IF x > y THEN x ELSE y
               [] e.k \in {"mul", "dot"} -> Growth(e.a) + Growth(e.b)
               [] e.k = "comp" -> Growth(e.a) * Growth(e.b)
               [] e.k \in {"neg", "scal", "der"} -> Growth(e.a)
               [] e.k = "exp" -> 4
               [] e.k = "gs" -> e.b.dim
               [] e.k = "poly" -> Len(e.c)
               [] OTHER -> 1
RECURSIVE Ders(_)
Ders(e) == CASE e.k \in {"sum", "sub", "cat", "mul", "dot", "comp"} -> LET x == Ders(e.a) y == Ders(e.b) IN IF x > y THEN x ELSE y
             [] e.k \in {"neg", "scal"} -> Ders(e.a)
             [] e.k = "der" -> e.m + Ders(e.a)
             [] OTHER -> 0
Moderate(e) == Size(e) <= 24 /\ Growth(e) <= 40 /\ Exps(e) <= 2

(* ---- picking objects of a heap *)
Live(h, K) == { i \in 1..Len(h) : h[i].live /\ h[i].kind \in K }
FunKinds == {"elem", "expr", "gs"}
Funs(h) == Live(h, FunKinds)

(* the step is acceptable as part of a generated session *)
Fits(h, st) ==
  CASE st.op = "bin" -> LET e == EBin(st.f, h[st.a].e, h[st.b].e) IN
         /\ st.a # st.b \/ (st.ca = "l" /\ st.cb = "l")
         /\ OkBin(st.f, h[st.a].e, h[st.b].e) => Moderate(e)
    [] st.op = "addeq" -> (st.a # st.b \/ st.cb = "l") /\ Moderate(EBin("sum", h[st.a].e, h[st.b].e))
    [] st.op = "muleq" -> (st.a # st.b \/ st.cb = "l") /\ Moderate(EBin("mul", h[st.a].e, h[st.b].e))
    [] st.op = "deriv" -> st.m + Ders(h[st.a].e) <= 5 /\ (st.m < 3 \/ Size(h[st.a].e) < 12) /\ Size(h[st.a].e) < 18
    [] OTHER -> TRUE

(* prefer a partner that op accepts; three times in four insist on it *)
Partner(h, f, a, z) ==
  LET ok == { b \in Funs(h) : OkBin(f, h[a].e, h[b].e) /\ Fits(h, SBin(f, a, b, "l", "l")) }
      S == IF z % 4 # 3 /\ ok # {} THEN ok ELSE Funs(h)
  IN PickIdx(S, z \div 4)

OneStep(h, st) == IF Fits(h, st) THEN << st >> ELSE <<>>

PlanOperand(h, doms, z) ==
  Operand(Nth(Reps, z[2]), Nth(<<1, 2, 1, 3>>, z[3]), Nth(doms, z[4]), z[5], Len(h))
PlanBin(h, fs, z) ==
  LET f == Nth(fs, z[2]) a == PickIdx(Funs(h), z[3]) IN
  OneStep(h, SBin(f, a, Partner(h, f, a, z[4]), Cat2(z[5]), Cat2(z[6])))
PlanUpdate(h, z) ==
  LET E == Live(h, {"expr"}) IN
  IF E = {} THEN <<>>
  ELSE LET a == PickIdx(E, z[3]) f == IF z[2] % 2 = 0 THEN "sum" ELSE "mul" IN
       OneStep(h, [op |-> IF f = "sum" THEN "addeq" ELSE "muleq", a |-> a, b |-> Partner(h, f, a, z[4]), cb |-> Cat2(z[5])])
PlanUnary(h, z) ==
  LET a == PickIdx(Funs(h), z[3]) IN
  CASE z[2] % 2 = 0 -> << [op |-> "neg", a |-> a, ca |-> Cat2(z[5])] >>
    [] OTHER -> << [op |-> "scal", c |-> Nth(<<"0">> \o CoefPool, z[4]), a |-> a, ca |-> Cat2(z[5])] >>
CopyHows == << "clone", "copy", "move", "mclone", "toexpr", "toexprm", "conv", "convm" >>
PlanCopy(h, z) == << [op |-> "copy", a |-> PickIdx(Funs(h), z[3]), how |-> Nth(CopyHows, z[2])] >>
PlanDrop(h, z) == IF Cardinality(Funs(h)) < 3 THEN <<>> ELSE << [op |-> "drop", a |-> PickIdx(Funs(h), z[3])] >>
PlanDeriv(h, z) ==
  OneStep(h, [op |-> "deriv", a |-> PickIdx(Funs(h), z[3]), m |-> Nth(<<1, 2, 1, 3, 0, 4>>, z[2]),
              how |-> Nth(<<"derivate", "deriv", "base">>, z[4])])

AlgDoms == << Doms[1], Doms[1], Doms[1], Doms[2] >>
PlanAlg(h, k, z) ==
  IF k <= 2 \/ Funs(h) = {} THEN PlanOperand(h, AlgDoms, z)
  ELSE CASE z[1] % 12 \in {0, 1, 2, 3} -> PlanBin(h, <<"sum", "sub", "mul", "dot">>, z)
         [] z[1] % 12 \in {4, 5} -> PlanUpdate(h, z)
         [] z[1] % 12 = 6 -> PlanUnary(h, z)
         [] z[1] % 12 = 7 -> PlanCopy(h, z)
         [] z[1] % 12 = 8 -> PlanDrop(h, z)
         [] z[1] % 12 = 9 -> PlanOperand(h, AlgDoms, z)
         [] z[1] % 12 = 10 -> PlanBin(h, <<"comp", "cat">>, z)
         [] OTHER -> PlanDeriv(h, z)

(* ---- composition and concatenation.  Pieces lie on segments of [0, 4];    *)
(* inner functions map [0, 1] into itself, so that anything may be outside.  *)
Segs == << <<"0", "1">>, <<"1", "1.5">>, <<"1.5", "2">>, <<"2", "4">>, <<"1", "2">> >>
InnerOn(d, i) ==   \* scalar functions whose values stay within [0, 1] when d does
  CASE i % 6 = 0 -> SNew("dil", EDil(d, "0.5"))
    [] i % 6 = 1 -> SNew("poly", EPoly(d, <<"0.25", "0.5">>))
    [] i % 6 = 2 -> SNew("poly", EPoly(d, <<"1", "-1">>))
    [] i % 6 = 3 -> SNew("poly", EPoly(d, <<"0", "0.5", "0.25">>))
    [] i % 6 = 4 -> SNew("sin", ESin(d))
    [] i % 6 = 5 -> SNew("id", EDil(d, "1"))
PiecePlan(h, z) == Operand(Nth(<<"elem", "gs", "uniq", "sum", "mul", "cat", "comp", "ugs", "neg", "der">>, z[2]),
                           Nth(<<1, 2, 1>>, z[3]), Nth(Segs, z[4]), z[5], Len(h))
PlanComp(h, k, z) ==
  IF k <= 1 \/ Funs(h) = {} THEN << InnerOn(Segs[1], z[2]) >>
  ELSE IF k <= 3 THEN PiecePlan(h, z)
  ELSE CASE z[1] % 14 \in {0, 1, 2} -> PlanBin(h, <<"cat">>, z)
         [] z[1] % 14 \in {3, 4, 5} -> PlanBin(h, <<"comp">>, z)
         [] z[1] % 14 \in {6, 7} -> PiecePlan(h, z)
         [] z[1] % 14 = 8 -> << InnerOn(Segs[1], z[2]) >>
         [] z[1] % 14 = 9 -> PlanBin(h, <<"sum", "mul">>, z)
         [] z[1] % 14 = 10 -> PlanCopy(h, z)
         [] z[1] % 14 = 11 -> PlanDrop(h, z)
         [] z[1] % 14 = 12 -> PlanDeriv(h, z)
         [] OTHER -> PlanUnary(h, z)

PlanDer(h, k, z) ==
  IF k <= 2 \/ Funs(h) = {} THEN PlanOperand(h, << Doms[1] >>, z)
  ELSE CASE z[1] % 10 \in {0, 1, 2} -> PlanBin(h, <<"sum", "mul", "dot", "comp", "sub">>, z)
         [] z[1] % 10 \in {3, 4, 5, 6} -> PlanDeriv(h, z)
         [] z[1] % 10 = 7 -> PlanOperand(h, << Doms[1], Segs[5] >>, z)
         [] z[1] % 10 = 8 -> PlanUnary(h, z)
         [] OTHER -> PlanBin(h, <<"cat">>, z)

(* ---- splines *)
Gss(h) == Live(h, {"gs"})
Shift(d, q) == << RStr(RAdd(R(d[1]), R(q))), RStr(RAdd(R(d[2]), R(q))) >>
OtherBasis(b, i) ==
  CASE b.name = "legendre" -> IF b.dim = 6 THEN Nth(<<B01("0.5"), BGll(6), BLeg(4)>>, i)
                              ELSE IF b.dim > 1 THEN Nth(<<BGll(b.dim), BLeg(b.dim + 1)>>, i) ELSE BLeg(b.dim + 1)
    [] b.name = "lagrange" -> IF b.dim = 4 THEN Nth(<<BLag(<<"-1", "-0.25", "0.5", "1">>), BLeg(4)>>, i)
                              ELSE Nth(<<BLeg(b.dim), BGll(b.dim + 1)>>, i)
    [] OTHER -> Nth(<<B01("0.75"), BLeg(6)>>, i)
Variations == << "same", "coef", "domain", "right", "taus", "n", "basis", "ni", "tiny", "equal", "near", "swap", "shift", "last", "pars" >>
(* a spline like x but for the given aspect *)
Vary(x, v, i) ==
  CASE v \in {"same", "coef"} -> [x EXCEPT !.c = Cfs(Len(x.c), i + 1)]
    [] v = "domain" -> [x EXCEPT !.d = Shift(x.d, "0.5")]
    [] v = "right" ->                                      \* longer last interval
         [x EXCEPT !.d = << x.d[1], RStr(RAdd(R(x.d[2]), R("0.5"))) >>,
                   !.tau = [j \in 1..Len(x.tau) |-> IF j = Len(x.tau) THEN RStr(RAdd(R(x.tau[j]), R("0.5"))) ELSE x.tau[j]]]
    [] v = "taus" -> IF Len(x.tau) = 1 THEN [x EXCEPT !.c = Cfs(Len(x.c), i + 2)]
                     ELSE [x EXCEPT !.tau = TausOn(x.d, Len(x.tau), i + 1)]
    [] v = "n" -> LET n == IF x.n = 1 THEN 2 ELSE x.n - 1 IN
                  [x EXCEPT !.n = n, !.c = Cfs(n * x.b.dim * Len(x.tau), i)]
    [] v = "basis" -> LET b == OtherBasis(x.b, i) IN [x EXCEPT !.b = b, !.c = Cfs(x.n * b.dim * Len(x.tau), i)]
    [] v = "ni" -> LET ni == IF Len(x.tau) = 1 THEN 2 ELSE Len(x.tau) - 1 IN
                   [x EXCEPT !.tau = TausOn(x.d, ni, i), !.c = Cfs(x.n * x.b.dim * ni, i)]
    [] v = "tiny" -> [x EXCEPT !.c = [j \in 1..Len(x.c) |-> IF j = 1 + (i % Len(x.c)) THEN RStr(RAdd(R(x.c[j]), R("0.001"))) ELSE x.c[j]]]
    [] v = "equal" -> x
    [] v = "near" ->                                       \* interval lengths that hardly differ
         IF Len(x.tau) = 1 THEN [x EXCEPT !.d = Shift(x.d, "0.0001")]
         ELSE [x EXCEPT !.tau = [j \in 1..Len(x.tau) |-> IF j = 1 THEN RStr(RAdd(R(x.tau[j]), R("0.0001")))
                                 ELSE IF j = Len(x.tau) THEN RStr(RSub(R(x.tau[j]), R("0.0001"))) ELSE x.tau[j]]]
    [] v = "swap" -> [x EXCEPT !.tau = Reverse(x.tau)]
    [] v = "shift" -> [x EXCEPT !.d = Shift(x.d, RStr(RSub(R(x.d[2]), R(x.d[1]))))]
    [] v = "last" -> [x EXCEPT !.c[Len(x.c)] = RStr(RAdd(R(x.c[Len(x.c)]), R("0.00001")))]
    [] v = "pars" -> IF x.b.pars = <<>> THEN [x EXCEPT !.c = Reverse(x.c)]
                     ELSE [x EXCEPT !.b.pars[Len(x.b.pars)] = RStr(RSub(R(x.b.pars[Len(x.b.pars)]), R("0.0005")))]
NewGs(x, i) == [op |-> "new", t |-> "gs", e |-> x, how |-> Nth(<<"ref", "move">>, i)]
SplineAny(z) == IF z[9] % 12 = 0 THEN SplineOn(Nth(Doms, z[4]), 4 + (z[3] % 4), Nth(<<BLeg(4), BGll(5), B01("0.5"), BLeg(2)>>, z[5]), 5 + (z[6] % 3), z[7])
                ELSE IF z[9] % 12 = 1 THEN SplineOn(Nth(Doms, z[4]), 1 + (z[3] % 2), Nth(BigBases, z[5]), 1 + (z[6] % 2), z[7])
                ELSE SplineOn(Nth(Doms, z[4]), 1 + (z[3] % 3), Nth(BasisPool, z[5]), 1 + (z[6] % 4), z[7])
Literal(e) == e.k = "gs"
Bnds(n, i, mode) == IF mode = "num" THEN << Nth(<<"0.5", "2", "1.25">>, i) >>
                    ELSE [c \in 1..n |-> Nth(<<"0.5", "2", "1.25", "0.75">>, i + c)]
DtFor(d, i) == LET L == RSub(R(d[2]), R(d[1])) q == Nth(<<"5.5", "7.25", "9.5", "13.5", "3.75", "1.5", "0.5", "21.5">>, i)
               IN RStr(RDiv(L, R(q)))
PlanBound(h, a, z) ==
  LET x == Spl(h[a].e) n == x.n
      mode == Nth(<<"num", "vec">>, z[5])
      bad == z[6] % 8
      v == IF z[7] % 3 = 0 THEN <<>> ELSE Bnds(IF bad = 0 /\ mode = "vec" THEN n + 1 ELSE n, z[8], mode)
      ac == IF z[7] % 3 = 1 THEN <<>> ELSE IF bad = 1 THEN <<>> ELSE Bnds(n, z[9], mode)
  IN << [op |-> "gsbound", a |-> a, v |-> v, ac |-> ac, mode |-> mode,
         dt |-> IF bad = 2 THEN Nth(<<"0", "-0.5", "1e-9">>, z[10]) ELSE DtFor(x.d, z[10])] >>
(* velocity and acceleration do not both vanish identically *)
Moving(x) == x.b.dim > 3 \/ (x.b.dim > 1 /\ x.b.name = "legendre")
PlanSpl(h, k, z) ==
  IF k = 1 \/ Gss(h) = {} THEN << NewGs(SplineAny(z), z[8]) >>
  ELSE LET a == PickIdx(Gss(h), z[2]) x == h[a].e
           mates == { b \in Gss(h) : SameSpace(Spl(x), Spl(h[b].e)) }
           b == IF z[3] % 4 = 3 THEN PickIdx(Gss(h), z[4]) ELSE PickIdx(mates, z[4])
           ca == IF a = b THEN "l" ELSE Cat2(z[5])
           cb == IF a = b THEN "l" ELSE Cat2(z[6])
           small == Size(x) <= 8 IN
       CASE k <= 3 \/ z[1] % 16 \in {0, 1} ->
              << NewGs(IF Literal(x) THEN Vary(x, Nth(Variations, z[4]), z[5]) ELSE SplineAny(z), z[8]) >>
         [] z[1] % 16 \in {2, 3, 4} -> IF small THEN << [op |-> "gsbin", f |-> Nth(<<"sum", "sub">>, z[7]), a |-> a, b |-> b, ca |-> ca, cb |-> cb] >> ELSE <<>>
         [] z[1] % 16 \in {5, 6} -> IF small THEN << [op |-> "gsaeq", f |-> Nth(<<"sum", "sub">>, z[7]), a |-> a, b |-> b] >> ELSE <<>>
         [] z[1] % 16 = 7 -> << [op |-> "gsneg", a |-> a, ca |-> Cat2(z[5])] >>
         [] z[1] % 16 = 8 -> << [op |-> "gsscal", c |-> Cf(z[4]), a |-> a, ca |-> Cat2(z[5]), side |-> Nth(<<"l", "r">>, z[6])] >>
         [] z[1] % 16 = 9 -> << [op |-> "deriv", a |-> a, m |-> z[4] % 4, how |-> Nth(<<"derivate", "deriv", "base">>, z[5])] >>
         [] z[1] % 16 = 10 -> << [op |-> "gsscale", a |-> a, T |-> Nth(<<"1", "2.5", "0.75", "4", "0", "-1", "0.3", "1.0005", "9.75">> \o (IF ~Literal(x) \/ Spl(x).b.name = "basis0101" THEN <<>> ELSE << "0.0004", "0.000001", "350" >>), z[4])] >>
         [] z[1] % 16 = 11 -> IF Literal(x) /\ Moving(x) THEN PlanBound(h, a, z) ELSE <<>>
         [] z[1] % 16 = 12 -> << [op |-> "gseq", a |-> a, b |-> b] >>
         [] z[1] % 16 = 13 -> << [op |-> "copy", a |-> a, how |-> Nth(<<"clone", "copy", "move", "mclone", "toexpr">>, z[4])] >>
         [] z[1] % 16 = 14 -> IF z[5] % 4 = 0 THEN << [op |-> "gsrand", d |-> Nth(Doms, z[6]), n |-> 1 + (z[7] % 3)] >>
                            ELSE << [op |-> "gseq", a |-> a, b |-> PickIdx(Gss(h), z[4])] >>
         [] OTHER -> << [op |-> "drop", a |-> a] >>

(* ---- bases *)
Bases(h) == Live(h, {"basis"})
MoreBases == BasisPool \o << BLeg(8), BGll(2), BGll(5), BGll(8), BLeg(7), BLeg(11), B01("0.125"), BLag(<<"-0.5", "0.75">>), BLag(<<"0.25">>), BLag(<<"1", "-1", "0.5">>), BLag(<<"0.75", "-1", "0", "0.5", "-0.25", "1", "-0.625">>) >>
WinPts == << "-1", "1", "0", "0.25", "-0.5", "0.8125", "-0.9375", "0.250001", "-0.999999", "0.9999999", "0.0000008", "0.447213595" >>
(* interval lengths: mixed, all equal, pairs of equal ones, nearly equal,    *)
(* the mixed ones in reverse order (the same sum)                            *)
MixSeq(ni, i) == [j \in 1..ni |-> Nth(<< "1", "0.5", "2", "0.75", "1.25", "0.25", "1.5" >>, i + 2 * j)]
TauSeq(ni, i) ==
  CASE i % 9 = 5 -> [j \in 1..ni |-> Nth(<<"1", "0.75", "1.5">>, i \div 9)]
    [] i % 9 = 6 -> [j \in 1..ni |-> Nth(<<"1", "0.5", "1.25">>, (i \div 9) + (j \div 2))]
    [] i % 9 = 7 -> [j \in 1..ni |-> Nth(<<"1", "1.001", "0.9995", "1.00002">>, (i \div 9) + j)]
    [] i % 9 = 8 -> [j \in 1..ni |-> MixSeq(ni, (i \div 9) % 3)[ni + 1 - j]]
    [] OTHER -> MixSeq(ni, i)
NewBasis(b, i) == [op |-> "bnew", b1 |-> b, how |-> Nth(<<"ctor", "ctorv", "get">>, i)]
Gramable(b, m) == b.name # "basis0101" \/ m <= 4
QueryBasis(a, b, z) ==
  LET m == z[4] % 7 IN
  CASE z[3] % 9 \in {0, 1} -> [op |-> "beval", a |-> a, s |-> Nth(WinPts, z[5]), tau |-> Nth(TauPool, z[6]), m |-> m]
    [] z[3] % 9 = 2 -> [op |-> "bevaltau", a |-> a, s |-> Nth(WinPts, z[5]), tau |-> Nth(TauPool, z[6]), m |-> m]
    [] z[3] % 9 \in {3, 4} -> [op |-> "bder", a |-> a, m |-> m]
    [] z[3] % 9 = 5 -> LET ni == 1 + (z[5] % 3) n == 1 + (z[6] % 2) IN
                       [op |-> "bgsd", a |-> a, ni |-> ni, n |-> n, m |-> m % 4, taus |-> TauSeq(ni, z[7])]
    [] z[3] % 9 = 6 -> LET ni == 1 + (z[5] % 3) n == 1 + (z[6] % 2) IN
                       [op |-> "bcont", a |-> a, ni |-> ni, n |-> n, m |-> m % 4, taus |-> TauSeq(ni, z[7])]
    [] z[3] % 9 = 7 -> [op |-> "bgram", a |-> a, tau |-> Nth(TauPool, z[6]), m |-> m % 5]
    [] OTHER -> [op |-> "bgramtau", a |-> a, tau |-> Nth(TauPool, z[6]), m |-> m % 5]
PlanBas(h, k, z) ==
  IF k = 1 \/ Bases(h) = {} THEN << NewBasis(Nth(MoreBases, z[2]), z[3]) >>
  ELSE LET a == PickIdx(Bases(h), z[2]) IN
       CASE z[1] % 12 = 0 -> << NewBasis(Nth(MoreBases, z[2]), z[3]) >>
         [] z[1] % 12 = 1 -> << NewBasis(IF z[4] % 2 = 0 THEN OtherBasis(h[a].e, z[4] \div 2) ELSE h[a].e, z[3]) >>
         [] z[1] % 12 = 2 -> << [op |-> "bcopy", a |-> a, ca |-> Cat2(z[3])] >>
         [] z[1] % 12 = 3 -> << [op |-> "beq", a |-> a, b |-> PickIdx(Bases(h), z[3])] >>
         [] z[1] % 12 = 4 -> IF Cardinality(Bases(h)) > 1 THEN << [op |-> "drop", a |-> a] >> ELSE <<>>
         [] OTHER -> << QueryBasis(a, h[a].e, z) >>

(* ---- interpolation *)
EvenBases == << BLeg(4), BLeg(6), BLeg(2), BGll(4), BGll(6), B01("0.5"), B01("0.25"), BLeg(8), BLag(<<"-1", "-0.25", "0.5", "1">>) >>
OddBases == << BLeg(3), BLeg(5), BGll(3) >>
WpOf(ni, n, i) == [r \in 1..(ni + 1) |-> [c \in 1..n |-> Cf(i * 3 + r * 7 + c * 5 + ((i * r * c) % 4))]]
BadWp(ni, n, i) == CASE i % 3 = 0 -> WpOf(ni + 1, n, i)
                     [] i % 3 = 1 -> WpOf(ni, n + 1, i)
                     [] OTHER -> IF ni > 1 THEN WpOf(ni - 1, n, i) ELSE WpOf(ni + 2, n, i)
TausFor(ni, i, bad) == IF bad % 12 = 5 THEN [j \in 1..ni |-> IF j = 1 + (i % ni) THEN Nth(<<"0", "1e-7", "-1">>, i) ELSE "1"]
                       ELSE IF bad % 12 = 6 THEN TauSeq(ni + 1, i)
                       ELSE TauSeq(ni, i)
WpFor(ni, n, i, bad) == IF bad % 12 = 7 THEN BadWp(ni, n, i) ELSE WpOf(ni, n, i)
WeightsFor(b, i) == IF b.name = "basis0101" THEN Nth(<< << <<1, "0.5">>, <<3, "0.5">> >>, << <<3, "2">> >>, << <<1, "1">> >>, << <<3, "-0.5">>, <<1, "2">> >>, << <<1, "0.5">>, <<1, "0.25">>, <<3, "1">> >> >>, i)
                    ELSE IF b.dim = 2 THEN Nth(<< << <<1, "1">> >>, << <<0, "0.5">>, <<1, "2">> >>, << <<0, "-0.5">>, <<1, "1">>, <<0, "0.25">> >> >>, i)
                    ELSE Nth(<< << <<1, "0.5">>, <<2, "2">> >>, << <<3, "0.25">> >>, << <<0, "1">>, <<2, "0.5">> >>, << <<1, "1">> >>,
                                << <<2, "1.5">>, <<0, "0.25">>, <<1, "0.5">> >>, << <<1, "1">>, <<2, "-0.125">> >>,
                                << <<2, "0.5">>, <<1, "0">>, <<2, "0.25">>, <<3, "0.01">> >> >>, i)
Interps(h) == Live(h, {"interp"})
Sobs(h) == Live(h, {"sob"})
QueryInterp(h, a, z) ==
  LET e == h[a].e t == TausFor(e.ni, z[4], z[5]) w == WpFor(e.ni, e.n, z[6], z[5]) IN
  CASE z[3] % 4 = 0 -> [op |-> "isolve", a |-> a, taus |-> t, wp |-> w]
    [] z[3] % 4 \in {1, 2} -> IF z[7] % 2 = 0 THEN [op |-> "icoefd", a |-> a, taus |-> t, wp |-> w, i |-> z[8] % e.ni, ot |-> TauSeq(e.ni, z[10])]
                              ELSE [op |-> "icoefd", a |-> a, taus |-> t, wp |-> w, i |-> z[8] % e.ni, j |-> z[9] % e.ni]
    [] OTHER -> [op |-> "iinterp", a |-> a, taus |-> t, wp |-> w]
QuerySob(h, a, z) ==
  LET e == h[a].e IN
  [op |-> IF z[3] % 2 = 0 THEN "sval" ELSE "sgrad", a |-> a, taus |-> TausFor(Len(e.wp) - 1, z[4], z[5])]
NewInterp(h, z) == LET a == PickIdx(Bases(h), z[2]) IN
  [op |-> "inew", a |-> a, n |-> 1 + (z[3] % 3), ni |-> 1 + (z[4] % 4)]
NewSob(h, z) == LET a == PickIdx(Bases(h), z[2]) IN
  [op |-> "snew", a |-> a, wp |-> WpOf(1 + (z[3] % 3), 1 + (z[4] % 2), z[5]), w |-> WeightsFor(h[a].e, z[6])]
PlanInt(h, k, z) ==
  IF k = 1 \/ Bases(h) = {} THEN << NewBasis(Nth(EvenBases, z[2]), z[3]) >>
  ELSE IF k = 2 \/ Interps(h) = {} THEN << NewInterp(h, z) >>
  ELSE IF k = 3 \/ Sobs(h) = {} THEN << NewSob(h, z) >>
  ELSE CASE z[1] % 12 \in {0, 1, 2, 3} -> << QueryInterp(h, PickIdx(Interps(h), z[2]), z) >>
         [] z[1] % 12 \in {4, 5, 6} -> << QuerySob(h, PickIdx(Sobs(h), z[2]), z) >>
         [] z[1] % 12 = 7 -> LET ni == 1 + (z[3] % 3) n == 1 + (z[4] % 3) IN
              << [op |-> "finterp", a |-> PickIdx(Bases(h), z[2]), taus |-> TausFor(ni, z[5], z[6]), wp |-> WpOf(ni, n, z[7])] >>
         [] z[1] % 12 = 8 -> LET ni == 1 + (z[3] % 3) n == 1 + (z[4] % 3) IN
              << [op |-> "fpw", nc |-> Nth(<<4, 6, 2, 5, 8>>, z[2]), taus |-> TausFor(ni, z[5], z[6]), wp |-> WpOf(ni, n, z[7])] >>
         [] z[1] % 12 = 9 -> << NewBasis(IF z[2] % 5 = 0 THEN Nth(OddBases, z[3]) ELSE Nth(EvenBases, z[3]), z[4]) >>
         [] z[1] % 12 = 10 -> << NewInterp(h, z) >>
         [] OTHER -> << QueryBasis(PickIdx(Bases(h), z[2]), h[PickIdx(Bases(h), z[2])].e, z) >>

(* ---- quadrature and integrals.  Integrands are polynomials, for which the *)
(* quadrature is exact                                                       *)
RECURSIVE Deg(_)
NoDeg == 99
Deg(e) == CASE e.k = "const" -> 0
            [] e.k = "dil" -> 1
            [] e.k = "poly" -> Len(e.c) - 1
            [] e.k = "gs" -> IF e.b.name \in {"legendre", "lagrange"} /\ Len(e.tau) = 1 THEN e.b.dim - 1 ELSE NoDeg
            [] e.k \in {"sum", "sub"} -> LET x == Deg(e.a) y == Deg(e.b) IN IF x > y THEN x ELSE y
            [] e.k \in {"mul", "dot"} -> Deg(e.a) + Deg(e.b)
            [] e.k = "comp" -> IF Deg(e.a) >= NoDeg \/ Deg(e.b) >= NoDeg THEN NoDeg ELSE Deg(e.a) * Deg(e.b)
            [] e.k \in {"neg", "scal", "der"} -> Deg(e.a)
            [] OTHER -> NoDeg
Polys(h) == { i \in Funs(h) : Deg(h[i].e) <= 8 }
NgFor(deg, i) == LET lo == IF deg <= 1 THEN 2 ELSE (deg + 4) \div 2 IN lo + (i % 3)
QuadElem(n, d, i) ==
  IF n = 1 THEN CASE i % 3 = 0 -> SNew("poly", EPoly(d, Cfs(1 + ((i \div 3) % 4), i)))
                  [] i % 3 = 1 -> SNew("dil", EDil(d, Cf(i)))
                  [] OTHER -> SNew("gs", SplineOn(d, 1, Nth(<<BLeg(3), BLeg(4), BGll(3), BLeg(2)>>, i), 1, i))
  ELSE SNew("gs", SplineOn(d, n, Nth(<<BLeg(3), BLeg(4), BGll(3), BLeg(2)>>, i), 1, i))
(* the weights say which inner product: plain ones for the named norms *)
Plain(k) == [q \in 1..(k + 1) |-> << q - 1, "1" >>]
SemiW == << << <<1, "1">>, <<2, "0.5">> >>, << <<0, "2">>, <<1, "0.25">> >>, << <<2, "1">> >>, << <<1, "1.5">> >> >>
PlanIp(h, a, b, z) ==
  LET fn == Nth(<<"l2", "l2n", "sob", "sobn", "semi", "semin">>, z[5])
      bb == IF fn \in {"l2n", "sobn", "semin"} THEN a ELSE b
      deg == Deg(h[a].e) + Deg(h[bb].e) IN
  << [op |-> "ip", a |-> a, b |-> bb, fn |-> fn, ng |-> NgFor(deg, z[6]), ni |-> 1 + (z[7] % 3),
      w |-> CASE fn \in {"l2", "l2n"} -> Plain(0) [] fn \in {"sob", "sobn"} -> Plain(z[8] % 3) [] OTHER -> Nth(SemiW, z[8])] >>
PlanQuad(h, k, z) ==
  IF k <= 2 \/ Polys(h) = {} THEN << QuadElem(1 + (z[2] % 2), Nth(Doms, z[3]), z[4]) >>
  ELSE LET a == PickIdx(Polys(h), z[2]) IN
       CASE z[1] % 12 = 0 -> << [op |-> "qpw", n |-> 2 + (z[2] % 23), how |-> Nth(<<"sep", "pair">>, z[3])] >>
         [] z[1] % 12 = 1 -> LET ni == 1 + (z[3] % 4) IN << [op |-> "qcomp", t0 |-> Nth(<<"0", "-0.5", "1.25">>, z[4]), n |-> 2 + (z[2] % 17), taus |-> TauSeq(ni, z[5])] >>
         [] z[1] % 12 = 2 -> << [op |-> "qdom", d |-> Nth(Doms, z[3]), n |-> 2 + (z[2] % 8), ni |-> 1 + (z[4] % 4)] >>
         [] z[1] % 12 \in {3, 4} -> IF Cod(h[a].e) = 1 /\ Deg(h[a].e) <= 8
              THEN << [op |-> "integ", a |-> a, ng |-> NgFor(Deg(h[a].e), z[5]), ni |-> 1 + (z[6] % 3)] >> ELSE <<>>
         [] z[1] % 12 \in {5, 6, 7} ->
              LET C == { b \in Polys(h) : SameDom(h[a].e, h[b].e) /\ Cod(h[a].e) = Cod(h[b].e) }
                  b == IF z[3] % 4 = 3 THEN PickIdx(Polys(h), z[4]) ELSE PickIdx(C, z[4])
              IN IF Deg(h[a].e) + Deg(h[b].e) <= 12 THEN PlanIp(h, a, b, z) ELSE <<>>
         [] z[1] % 12 = 8 -> IF Size(h[a].e) < 6 THEN PlanBin([h EXCEPT ![1] = h[1]], <<"sum", "mul", "dot">>, z) ELSE <<>>
         [] z[1] % 12 = 9 -> IF Size(h[a].e) < 6 THEN PlanUnary(h, z) ELSE <<>>
         [] OTHER -> << QuadElem(1 + (z[2] % 2), Nth(Doms, z[3]), z[4]) >>

(* ---- collocation splines *)
Glls(h) == Live(h, {"gll"})
GllDoms == << Doms[1], Doms[2], Doms[5], Doms[3], Doms[4] >>
NewGll(d, n, ng, ni, i) ==
  [op |-> "gllnew", t |-> "coef", d |-> d, n |-> n, ng |-> ng, c |-> Cfs(n * ng * ni, i), tau |-> TausOn(d, ni, i),
   how |-> Nth(<<"ref", "move">>, i)]
(* mostly compatible: shapes from a small set *)
PlanNewGll(h, z) ==
  LET d == Nth(<<Doms[1], Doms[1], Doms[2], Doms[3]>>, z[2]) n == Nth(<<1, 2, 1, 3>>, z[3]) ng == Nth(<<3, 3, 4, 2>>, z[4])
      ni == Nth(<<2, 2, 1, 3>>, z[5]) IN
  CASE z[6] % 5 \in {0, 1} -> << NewGll(d, n, ng, ni, z[7] % 4) >>
    [] z[6] % 5 = 2 -> << [op |-> "gllnew", t |-> "zero", d |-> d, n |-> n, ng |-> ng, ni |-> ni] >>
    [] z[6] % 5 = 3 -> << [op |-> "gllid", d |-> d, ng |-> ng, ni |-> ni] >>
    [] OTHER -> IF Funs(h) = {} THEN << Gs(n, d, z[7]) >>
                ELSE << [op |-> "gllapp", a |-> PickIdx(Funs(h), z[8]), ng |-> ng, ni |-> ni, how |-> Nth(<<"app", "ctor">>, z[9])] >>
(* all collocation values at least 1/16 away from zero (negative powers)     *)
SureSign(x, pos) == \A i \in 1..Len(x.c) : LET v == R(x.c[i]) IN RLt(R("0.0625"), IF pos THEN v ELSE RAbs(v))
GllMate(h, a, f, z) ==
  LET x == Spl(h[a].e)
      C == { b \in Glls(h) : LET y == Spl(h[b].e) IN
             /\ x.b.dim = y.b.dim /\ Len(x.tau) = Len(y.tau)
             /\ SameNum(x.d[1], y.d[1]) /\ SameNum(x.d[2], y.d[2]) /\ SameLits(x.tau, y.tau)
             /\ IF f = "mul" THEN x.n = 1 \/ y.n = 1 ELSE x.n = y.n }
  IN IF z % 4 = 3 \/ C = {} THEN PickIdx(Glls(h), z \div 4) ELSE PickIdx(C, z \div 4)
PlanGll(h, k, z) ==
  IF k <= 3 \/ Glls(h) = {} THEN PlanNewGll(h, z)
  ELSE LET a == PickIdx(Glls(h), z[2]) x == Spl(h[a].e) small == Size(h[a].e) <= 6 IN
       CASE z[1] % 20 \in {0, 1, 2, 3} ->
              LET f == Nth(<<"mul", "mul", "sum", "sub">>, z[3]) b == GllMate(h, a, f, z[4]) IN
              IF small /\ Size(h[b].e) <= 6
              THEN << [op |-> "gllbin", f |-> f, a |-> a, b |-> b, ca |-> IF a = b THEN "l" ELSE Cat2(z[5]), cb |-> IF a = b THEN "l" ELSE Cat2(z[6])] >> ELSE <<>>
         [] z[1] % 20 = 4 -> << [op |-> "gllscal", c |-> Cf(z[3]), a |-> a, ca |-> Cat2(z[4]), side |-> Nth(<<"l", "r">>, z[5])] >>
         [] z[1] % 20 = 5 -> << [op |-> "gllneg", a |-> a, ca |-> Cat2(z[4])] >>
         [] z[1] % 20 = 6 -> << [op |-> "gllnorm", a |-> a] >>
         [] z[1] % 20 = 7 -> IF x.n > 1 \/ SureSign(x, FALSE) THEN << [op |-> "gllinv", c |-> Cf(z[3]), a |-> a, ca |-> Cat2(z[4])] >> ELSE <<>>
         [] z[1] % 20 = 8 -> IF x.n > 1 \/ SureSign(x, TRUE) THEN << [op |-> "gllpow", c |-> Nth(<<"2", "0.5", "-1", "1.5", "3", "-0.5">>, z[3]), a |-> a, ca |-> Cat2(z[4])] >>
                             ELSE << [op |-> "gllpow", c |-> Nth(<<"2", "3", "1">>, z[3]), a |-> a, ca |-> Cat2(z[4])] >>
         [] z[1] % 20 \in {9, 10} -> << [op |-> "glladdv", f |-> Nth(<<"add", "vadd", "sub", "vsub">>, z[3]),
                 v |-> Cfs(IF z[5] % 8 = 0 THEN x.n + 1 ELSE x.n, z[6]), a |-> a, ca |-> Cat2(z[4])] >>
         [] z[1] % 20 = 11 -> << [op |-> "gllvalat", a |-> a, i |-> z[3] % (x.b.dim * Len(x.tau))] >>
         [] z[1] % 20 \in {12, 13} -> LET b == PickIdx(Glls(h), z[3]) IN
              IF Size(h[b].e) <= 6 /\ (a # b \/ TRUE) THEN << [op |-> "gllasg", a |-> a, b |-> b, cb |-> IF a = b THEN "l" ELSE Cat2(z[5])] >> ELSE <<>>
         [] z[1] % 20 = 14 -> LET C == Funs(h) IN
              IF C = {} THEN << Elem(x.n, Nth(GllDoms, z[3]), z[4]) >>
              ELSE LET b == PickIdx(C, z[3]) IN IF small THEN << [op |-> "gllasgf", a |-> a, b |-> b] >> ELSE <<>>
         [] z[1] % 20 = 15 -> LET np == x.b.dim * Len(x.tau) IN
              << [op |-> "gllset", a |-> a, d |-> Nth(GllDoms, z[3]),
                  v |-> [j \in 1..(IF z[4] % 6 = 0 THEN np + 1 ELSE np) |-> Cfs(IF z[4] % 6 = 1 /\ j = np THEN x.n + 1 ELSE x.n, z[5] + j)]] >>
         [] z[1] % 20 = 16 -> IF small THEN << [op |-> "deriv", a |-> a, m |-> z[3] % 3, how |-> Nth(<<"derivate", "deriv", "base">>, z[4])] >> ELSE <<>>
         [] z[1] % 20 = 17 -> << [op |-> "copy", a |-> a, how |-> Nth(<<"clone", "copy", "move", "mclone", "toexpr">>, z[4])] >>
         [] z[1] % 20 = 18 -> PlanNewGll(h, z)
         [] OTHER -> << Elem(Nth(<<1, 2>>, z[2]), Nth(GllDoms, z[3]), z[4]) >>

(* ---- queries asked again.  scr: the script so far                         *)
IsQuery(st) == st.op \in {"beval", "bevaltau", "bder", "bgsd", "bcont", "bgram", "bgramtau",
                          "isolve", "iinterp", "icoefd", "finterp", "fpw", "sval", "sgrad", "integ", "ip", "qpw"}
Asked(h, scr) == { i \in 1..Len(scr) :
  /\ IsQuery(scr[i])
  /\ (Has(scr[i], "a") => h[scr[i].a].live)
  /\ (Has(scr[i], "b") => h[scr[i].b].live) }
(* the same question to the same object or to one that should not differ     *)
AskAgain(h, scr, z) ==
  LET st == scr[PickIdx(Asked(h, scr), z[2])] IN
  IF ~Has(st, "a") THEN << st >>
  ELSE LET T == { i \in 1..Len(h) : h[i].live /\ h[i].kind = h[st.a].kind /\ ToString(h[i].e) = ToString(h[st.a].e) }
       IN << [st EXCEPT !.a = PickIdx(T, z[3])] >>
PlanHist(h, k, z, scr) ==
  IF k > 4 /\ z[16] % 5 \in {0, 1} /\ Asked(h, scr) # {} THEN AskAgain(h, scr, z)
  ELSE IF z[15] % 2 = 0 \/ k <= 3 THEN PlanInt(h, k, z)
  ELSE IF z[14] % 4 = 0 THEN << [op |-> "bcopy", a |-> PickIdx(Bases(h), z[2]), ca |-> "l"] >>
  ELSE << QueryBasis(PickIdx(Bases(h), z[2]), h[PickIdx(Bases(h), z[2])].e, z) >>

(* ---- the Python interface.  Operands have no value category; vector      *)
(* constants have equal components; sums and products are of functions and   *)
(* expressions only.                                                         *)
PyClasses == << "poly", "exp", "sin", "cos", "dil", "id", "const1", "dot", "expr", "zero", "gs", "comp", "cat", "der", "neg" >>
PyElem(n, d, i) == IF n > 1 THEN SNew("const1", EConst(d, [k \in 1..n |-> Cf(i)])) ELSE Elem(1, d, i)
PyBin(f, a, b) == SBin(f, a, b, "l", "l")
PyFun(n, d, i) == IF n = 1 THEN Elem(1, d, i) ELSE Gs(n, d, i)
(* an object of the class, of codomain dimension n where the class allows it *)
PyOperand(cl, n, d, i, base) ==
  CASE cl = "poly" -> << SNew("poly", EPoly(d, Cfs(1 + (i % 5), i))) >>
    [] cl = "exp" -> << SNew("exp", EExp(d)) >>
    [] cl = "sin" -> << SNew("sin", ESin(d)) >>
    [] cl = "cos" -> << SNew("cos", ECos(d)) >>
    [] cl = "dil" -> << SNew("dil", EDil(d, Cf(i))) >>
    [] cl = "id" -> << SNew("id", EDil(d, "1")) >>
    [] cl = "const1" -> << SNew("const1", EConst(d, [k \in 1..n |-> Cf(i)])) >>
    [] cl = "zero" -> << SNew("zero", EConst(d, [k \in 1..n |-> "0"])) >>
    [] cl = "gs" -> << Gs(n, d, i) >>
    [] cl = "dot" -> << PyFun(1 + (i % 2), d, i), PyElem(1 + (i % 2), d, i + 1), PyBin("dot", base + 1, base + 2) >>
    [] cl = "expr" -> << PyElem(n, d, i), PyElem(1, d, i + 2), PyBin(Nth(<<"mul">>, i), base + 1, base + 2) >>
    [] cl = "neg" -> << PyElem(n, d, i), [op |-> "neg", a |-> base + 1, ca |-> "l"] >>
    [] cl = "der" -> << PyElem(n, d, i), [op |-> "deriv", a |-> base + 1, m |-> 1 + (i % 2), how |-> "derivate"] >>
    [] cl = "comp" -> << PyFun(n, d, i), InnerOn(d, i + 1), PyBin("comp", base + 1, base + 2) >>
    [] cl = "cat" -> LET m == Mid(d) IN << PyFun(n, << d[1], m >>, i), PyElem(n, << m, d[2] >>, i + 1), PyBin("cat", base + 1, base + 2) >>
PyDoms == << Doms[1], Doms[1], Doms[1], Segs[5] >>
PyArith == {"sum", "sub", "mul"}
PyFuns(h, f) == IF f \in PyArith THEN Live(h, {"elem", "expr"}) ELSE Funs(h)
(* a spline composes or concatenates with a spline, not with something else;
   it does not add or multiply *)
PyTakes(f, ka, kb) == \/ kb # "gs" \/ f = "dot" \/ (f \in {"comp", "cat"} /\ ka = "gs")
PyPartner(h, f, a, z) ==
  LET all == { b \in PyFuns(h, f) : PyTakes(f, h[a].kind, h[b].kind) }
      ok == { b \in all : OkBin(f, h[a].e, h[b].e) /\ Fits(h, PyBin(f, a, b)) }
      S == IF z % 4 # 3 /\ ok # {} THEN ok ELSE IF all # {} THEN all ELSE PyFuns(h, "sum")
  IN PickIdx(S, z \div 4)
PlanPyBin(h, fs, z) ==
  LET f == Nth(fs, z[2]) IN
  IF PyFuns(h, f) = {} THEN <<>>
  ELSE LET a == PickIdx(PyFuns(h, f), z[3])
       IN IF { b \in PyFuns(h, f) : PyTakes(f, h[a].kind, h[b].kind) } = {} THEN <<>>
          ELSE OneStep(h, PyBin(f, a, PyPartner(h, f, a, z[4])))
PlanPyOperand(h, z) == PyOperand(Nth(PyClasses, z[2]), Nth(<<1, 1, 2, 3>>, z[3]), Nth(PyDoms, z[4]), z[5], Len(h))
PlanPyIp(h, z) ==
  IF Polys(h) = {} THEN << QuadElem(1, Doms[1], z[4]) >>
  ELSE LET a == PickIdx(Polys(h), z[2])
           C == { b \in Polys(h) : SameDom(h[a].e, h[b].e) /\ Cod(h[a].e) = Cod(h[b].e) }
           b == IF z[3] % 4 = 3 THEN PickIdx(Polys(h), z[4]) ELSE PickIdx(C, z[4])
           st == PlanIp(h, a, b, z)[1]
       IN IF Deg(h[a].e) + Deg(h[b].e) > 12 THEN <<>>
          ELSE IF z[9] % 3 = 0 THEN << [op |-> "ip", a |-> st.a, b |-> st.b, fn |-> st.fn, w |-> st.w, ng |-> 10, ni |-> 1, dflt |-> TRUE] >>
          ELSE << st >>
PlanPy(h, k, z) ==
  IF k <= 2 \/ Funs(h) = {} THEN PlanPyOperand(h, z)
  ELSE CASE z[1] % 20 \in {0, 1, 2, 3} -> PlanPyBin(h, <<"sum", "sub", "mul", "dot">>, z)
         [] z[1] % 20 \in {4, 5, 6} -> PlanPyBin(h, <<"comp", "cat">>, z)
         [] z[1] % 20 = 7 -> IF PyFuns(h, "sum") = {} THEN <<>> ELSE << [op |-> "neg", a |-> PickIdx(PyFuns(h, "sum"), z[3]), ca |-> "l"] >>
         [] z[1] % 20 \in {8, 9, 10} -> OneStep(h, [op |-> "deriv", a |-> PickIdx(Funs(h), z[3]), m |-> Nth(<<1, 2, 0, 3>>, z[4]), how |-> "derivate"])
         [] z[1] % 20 = 11 -> PlanDrop(h, z)
         [] z[1] % 20 = 12 -> << NewGs(SplineAny(z), 0) >>
         [] z[1] % 20 = 13 -> IF Gss(h) = {} THEN << NewGs(SplineAny(z), 0) >>
                              ELSE LET x == h[PickIdx(Gss(h), z[2])].e IN
                                   IF Literal(x) THEN << NewGs(Vary(x, Nth(Variations, z[4]), z[5]), 0),
                                                         [op |-> "gseq", a |-> PickIdx(Gss(h), z[2]), b |-> Len(h) + 1] >> ELSE <<>>
         [] z[1] % 20 = 14 -> IF Gss(h) = {} THEN <<>>
                              ELSE << [op |-> "gsscale", a |-> PickIdx(Gss(h), z[3]), T |-> Nth(<<"1", "2.5", "0.75", "0", "-1", "0.3">>, z[4])] >>
         [] z[1] % 20 = 15 -> IF Gss(h) = {} THEN <<>> ELSE << [op |-> "gseq", a |-> PickIdx(Gss(h), z[3]), b |-> PickIdx(Gss(h), z[4])] >>
         [] z[1] % 20 \in {16, 17} -> PlanPyIp(h, z)
         [] OTHER -> PlanPyOperand(h, z)
PyBasisQ(a, z) == [op |-> Nth(<<"beval", "bevaltau">>, z[3]), a |-> a, s |-> Nth(WinPts, z[5]), tau |-> Nth(TauPool, z[6]), m |-> z[4] % 6]
Keeping(st, z) == IF st.op \in {"isolve", "icoefd"} /\ z % 3 # 0
                  THEN [f \in (DOMAIN st) \cup {"keep"} |-> IF f = "keep" THEN TRUE ELSE st[f]] ELSE st
PlanPyInt(h, k, z) ==
  IF k = 1 \/ Bases(h) = {} THEN << NewBasis(Nth(EvenBases, z[2]), z[3]) >>
  ELSE IF k = 2 \/ Interps(h) = {} THEN << NewInterp(h, z) >>
  ELSE IF k = 3 \/ Sobs(h) = {} THEN << NewSob(h, z) >>
  ELSE CASE z[1] % 16 \in {0, 1, 2, 3} -> << Keeping(QueryInterp(h, PickIdx(Interps(h), z[2]), z), z[11]) >>
         [] z[1] % 16 \in {4, 5} -> << QuerySob(h, PickIdx(Sobs(h), z[2]), z) >>
         [] z[1] % 16 = 6 -> LET ni == 1 + (z[3] % 3) n == 1 + (z[4] % 3) IN
              << [op |-> "finterp", a |-> PickIdx(Bases(h), z[2]), taus |-> TausFor(ni, z[5], z[6]), wp |-> WpOf(ni, n, z[7])] >>
         [] z[1] % 16 = 7 -> LET ni == 1 + (z[3] % 3) n == 1 + (z[4] % 3) IN
              << [op |-> "fpw", nc |-> Nth(<<4, 6, 2, 5, 8>>, z[2]), taus |-> TausFor(ni, z[5], z[6]), wp |-> WpOf(ni, n, z[7])] >>
         [] z[1] % 16 = 8 -> << NewBasis(IF z[2] % 5 = 0 THEN Nth(OddBases, z[3]) ELSE Nth(MoreBases, z[3]), z[4]) >>
         [] z[1] % 16 = 9 -> << NewInterp(h, z) >>
         [] z[1] % 16 = 10 -> << [op |-> "beq", a |-> PickIdx(Bases(h), z[2]), b |-> PickIdx(Bases(h), z[3])] >>
         [] z[1] % 16 = 11 -> << [op |-> "drop", a |-> PickIdx(Interps(h), z[2])] >>
         [] z[1] % 16 = 12 -> IF Cardinality(Bases(h)) > 1 THEN << [op |-> "drop", a |-> PickIdx(Bases(h), z[2])] >> ELSE <<>>
         [] z[1] % 16 = 13 -> << [op |-> "qpw", n |-> 2 + (z[2] % 23), how |-> "pair"] >>
         [] OTHER -> << PyBasisQ(PickIdx(Bases(h), z[2]), z) >>

(* ---- saving and restoring *)
LongCoefs == << "0.12345678901234", "-1.9876543210987", "0.33333333333333331", "1234.5678901234", "-0.000012345678", "2", "-0.5", "1e-9", "0" >>
SerKeys == << "domain_left_boundary", "domain_right_boundary", "codom_dim", "number_of_intervals", "basis", "coefficients", "interval_lengths" >>
SerBasisKeys == << "name", "dim", "parameters" >>
LongSpline(d, n, b, ni, i) == [SplineOn(d, n, b, ni, i) EXCEPT !.c = [k \in 1..(n * b.dim * ni) |-> Nth(LongCoefs, i + k * k)]]
PlanSer(h, k, z) ==
  LET sh == SplineAny(z) IN
  IF k = 1 \/ Gss(h) = {} THEN << NewGs(IF z[11] % 2 = 0 THEN LongSpline(sh.d, sh.n, sh.b, Len(sh.tau), z[12]) ELSE sh, 0) >>
  ELSE IF k = 2 \/ Bases(h) = {} THEN << NewBasis(Nth(MoreBases, z[2]), z[3]) >>
  ELSE LET a == PickIdx(Gss(h), z[2]) b == PickIdx(Bases(h), z[3]) IN
       CASE z[1] % 12 \in {0, 1, 2} -> << [op |-> "ser", a |-> a, via |-> Nth(<<"dict", "json">>, z[4])] >>
         [] z[1] % 12 \in {3, 4} -> << [op |-> "ser", a |-> b, via |-> Nth(<<"dict", "json">>, z[4])] >>
         [] z[1] % 12 = 5 -> << [op |-> "serbad", a |-> a, key |-> Nth(SerKeys, z[4]), how |-> Nth(<<"missing", "type", "none">>, z[5])] >>
         [] z[1] % 12 = 6 -> IF z[4] % 2 = 0 THEN << [op |-> "serbad", a |-> a, key |-> "coefficients", how |-> "len"] >>
                             ELSE << [op |-> "serbad", a |-> b, key |-> Nth(SerBasisKeys, z[5]), how |-> Nth(<<"missing", "type", "none">>, z[6])] >>
         [] z[1] % 12 = 7 -> << [op |-> "gsscale", a |-> a, T |-> Nth(<<"1", "2.5", "0.7", "0.3">>, z[4])] >>
         [] z[1] % 12 = 8 -> << [op |-> "deriv", a |-> a, m |-> z[4] % 3, how |-> "derivate"] >>
         [] z[1] % 12 = 9 -> << [op |-> "gseq", a |-> a, b |-> PickIdx(Gss(h), z[4])] >>
         [] z[1] % 12 = 10 -> << PyBasisQ(b, z) >>
         [] OTHER -> << NewGs(LongSpline(sh.d, sh.n, sh.b, Len(sh.tau), z[12]), 0) >>

(* ---- functionals on collocation splines *)
FMatLit(r, c, i) == [x \in 1..r |-> Cfs(c, i + x)]
Lins(h) == Live(h, {"lin"})
LinOf(h, K) == { i \in Lins(h) : h[i].e.k \in K }
FNew(t) == [op |-> "fnew", t |-> t]
FUpd(a, t) == [op |-> "fupd", a |-> a, t |-> t]
FApp(a, b) == [op |-> "fapp", a |-> a, b |-> b]
FMul(a, b) == [op |-> "fmul", a |-> a, b |-> b]
FBin(f, a, b) == [op |-> "fbin", f |-> f, a |-> a, b |-> b]
NCoef(h, b) == LET x == Spl(h[b].e) IN x.n * x.b.dim * Len(x.tau)
FArgs(h, a) == { b \in Glls(h) : NCoef(h, b) = FShape(h[a].e)[2] /\ Size(h[b].e) <= 5 }
(* a functional gives a spline again if its rows are whole components *)
FGives(h, a, b) == LET x == Spl(h[b].e) r == FShape(h[a].e)[1] IN r > 0 /\ r % (x.b.dim * Len(x.tau)) = 0
RECURSIVE FSize(_)
FSize(e) == CASE e.k \in {"fsum", "fsub", "fcomp"} -> 1 + FSize(e.a) + FSize(e.b)
              [] e.k \in {"fneg", "fscal"} -> 1 + FSize(e.a) [] OTHER -> 1
PlanFunNew(h, z) ==
  LET d == Nth(GllDoms, z[2]) n == 1 + (z[3] % 2) ng == 2 + (z[4] % 4) ni == 1 + (z[5] % 3) i == z[6] m == 1 + (z[7] % 2)
      G == Glls(h) a == PickIdx(G, z[8]) IN
  CASE z[9] % 10 = 0 -> << FNew("der1") @@ [n |-> n, ng |-> ng, tau |-> TausOn(d, ni, i), m |-> m] >>
    [] z[9] % 10 = 1 -> << FNew("der2") @@ [d |-> d, n |-> n, ng |-> ng, ni |-> ni, m |-> m] >>
    [] z[9] % 10 = 2 -> << FNew("der3") @@ [a |-> a] >>
    [] z[9] % 10 = 3 -> << FNew("tr0") @@ [n |-> n, ng |-> ng, ni |-> ni] >>
    [] z[9] % 10 = 4 -> << FNew("tr") @@ [a |-> a] >>
    [] z[9] % 10 = 5 -> << FNew("mat") @@ [rows |-> 1 + (z[10] % 2), cols |-> n, ng |-> ng, ni |-> ni] >>
    [] z[9] % 10 = 6 -> << FNew("cont1") @@ [a |-> a, m |-> m] >>
    [] z[9] % 10 = 7 -> << FNew("cont2") @@ [ng |-> ng, tau |-> TausOn(d, ni, i), n |-> n, m |-> m - 1] >>
    [] z[9] % 10 = 8 -> << FNew("int1") @@ [d |-> d, ng |-> ng, ni |-> ni] >>
    [] OTHER -> << FNew("int2") @@ [a |-> a] >>
PlanFunUpd(h, z) ==
  LET U == LinOf(h, {"fder", "fcont", "fint", "ftr", "fmat"}) IN
  IF U = {} THEN <<>> ELSE
  LET a == PickIdx(U, z[2]) e == h[a].e d == Nth(GllDoms, z[3]) i == z[4] IN
  CASE e.k = "fder" -> IF z[5] % 2 = 0 THEN << FUpd(a, "dertau") @@ [tau |-> TausOn(d, Len(e.tau), i)] >>
                       ELSE << FUpd(a, "derlen") @@ [len |-> Nth(TauPool, i)] >>
    [] e.k = "fcont" -> << FUpd(a, "conttau") @@ [tau |-> TausOn(d, Len(e.tau), i)] >>
    [] e.k = "fint" -> CASE z[5] % 4 \in {0, 1} -> << FUpd(a, "inttau") @@ [tau |-> TausOn(d, Len(e.tau), i)] >>
                         [] z[5] % 4 = 2 -> << FUpd(a, "inttau") @@ [tau |-> TausOn(d, Len(e.tau) + 1, i)] >>
                         [] OTHER -> << FUpd(a, "intdom") @@ [d |-> d, ng |-> 2 + (i % 4), ni |-> 1 + (z[6] % 3)] >>
    [] e.k = "ftr" ->
         LET G == { b \in Glls(h) : LET x == Spl(h[b].e) IN x.n # e.n \/ (x.b.dim = e.ng /\ Len(x.tau) = e.ni) }
             S == { b \in Live(h, {"elem"}) : TRUE } IN
         IF z[5] % 2 = 0 /\ G # {} THEN << FUpd(a, "tras") @@ [b |-> PickIdx(G, z[6])] >>
         ELSE IF S # {} THEN << FUpd(a, "trasf") @@ [b |-> PickIdx(S, z[6])] >> ELSE << Elem(e.n, d, i) >>
    [] e.k = "fmat" ->
         LET N == e.ng * e.ni IN
         CASE z[5] % 5 \in {0, 1} -> << FUpd(a, "mats") @@ [M |-> [j \in 1..N |-> FMatLit(e.rows, e.cols, i + j)], how |-> Nth(<<"it", "fun">>, z[6])] >>
           [] z[5] % 5 = 2 -> << FUpd(a, "mats") @@ [M |-> [j \in 1..(N + 1) |-> FMatLit(e.rows, e.cols, i + j)], how |-> Nth(<<"it", "fun">>, z[6])] >>
           [] z[5] % 5 = 3 -> << FUpd(a, "matc") @@ [M |-> FMatLit(e.rows, e.cols, i)] >>
           [] OTHER -> << FUpd(a, "matc") @@ [M |-> FMatLit(e.rows, e.cols + 1, i)] >>
PlanFunBin(h, z) ==
  IF Lins(h) = {} THEN <<>> ELSE
  LET a == PickIdx(Lins(h), z[2]) A == h[a].e
      S == { b \in Lins(h) : FSize(h[b].e) <= 3 /\ FStore(h[b].e) = FStore(A) /\ FShape(h[b].e) = FShape(A) }
      C == { b \in Lins(h) : FSize(h[b].e) <= 3 /\ FStore(h[b].e) = "c" /\ FShape(h[b].e)[1] = FShape(A)[2] } IN
  IF FSize(A) > 4 THEN <<>>
  ELSE CASE z[3] % 8 \in {0, 1} -> IF S = {} THEN <<>> ELSE << FBin(Nth(<<"sum", "sub">>, z[3] \div 8), a, PickIdx(S, z[4])) >>
         [] z[3] % 8 \in {2, 3, 4} -> IF C = {} THEN <<>> ELSE << FBin("comp", a, PickIdx(C, z[4])) >>
         [] z[3] % 8 = 5 -> << [op |-> "fneg", a |-> a] >>
         [] z[3] % 8 = 6 -> << [op |-> "fscal", a |-> a, c |-> Cf(z[4]), ca |-> Cat2(z[5])] >>
         [] OTHER -> << [op |-> "fcopy", a |-> a, ca |-> Cat2(z[5])] >>
(* smooth functions: the distance samples the derivative too *)
PlanFunDist(h, z) ==
  LET D == Live(h, {"sd"}) S == { b \in Live(h, {"elem"}) : Size(h[b].e) = 1 } IN
  IF S = {} THEN << Elem(1, Nth(GllDoms, z[2]), z[3]) >>
  ELSE IF D = {} \/ z[4] % 4 = 0
  THEN LET f == PickIdx(S, z[5]) ng == 2 + (z[6] % 4) ni == 1 + (z[7] % 3) q == Dom(h[f].e) IN
       << [op |-> "sdnew", a |-> f, ng |-> ng, ni |-> ni],
          [NewGll(q, Cod(h[f].e), ng, ni, z[8] % 4) EXCEPT !.tau = EqualTaus(q, ni)] >>
  ELSE LET a == PickIdx(D, z[5]) e == h[a].e
           G == { b \in Glls(h) : SameSpace(Spl([k |-> "gapp", a |-> e.f, ng |-> e.ng, ni |-> e.ni]), Spl(h[b].e)) } IN
       CASE z[4] % 4 = 1 /\ Glls(h) # {} ->
              << [op |-> "sdval", a |-> a, b |-> IF G # {} /\ z[6] % 4 # 0 THEN PickIdx(G, z[7]) ELSE PickIdx(Glls(h), z[7])] @@ [df |-> 1] >>
         [] z[4] % 4 = 2 /\ G # {} -> << [op |-> "sdval", a |-> a, b |-> PickIdx(G, z[7])] >>
         [] OTHER -> << [NewGll(Dom(e.f), Cod(e.f), e.ng, e.ni, z[8] % 4) EXCEPT !.tau = EqualTaus(Dom(e.f), e.ni)] >>
PlanFun(h, k, z) ==
  IF k <= 2 \/ Glls(h) = {} THEN PlanNewGll(h, z)
  ELSE CASE z[1] % 16 \in {0, 1, 2} -> PlanFunNew(h, z)
         [] z[1] % 16 \in {3, 4, 5} -> PlanFunUpd(h, z)
         [] z[1] % 16 \in {6, 7, 8} -> PlanFunBin(h, z)
         [] z[1] % 16 \in {9, 10, 11} ->
              LET P == { a \in Lins(h) : FArgs(h, a) # {} } IN
              IF P = {} THEN
                LET b == PickIdx(Glls(h), z[2]) IN << FNew("der3") @@ [a |-> b], FApp(Len(h) + 1, b) >>
              ELSE LET a == PickIdx(P, z[2]) b == PickIdx(FArgs(h, a), z[3]) IN
                   IF z[4] % 2 = 0 /\ FGives(h, a, b) /\ FSize(h[a].e) <= 3 THEN << FMul(a, b) >> ELSE << FApp(a, b) >>
         [] z[1] % 16 \in {12, 13} -> PlanFunDist(h, z)
         [] z[1] % 16 = 14 -> << Elem(Nth(<<1, 2>>, z[2]), Nth(GllDoms, z[3]), z[4]) >>
         [] OTHER -> PlanNewGll(h, z)
(* ---- optimal paths *)
OptFns == <<"sobolev", "broken", "acc", "sobolev", "jerk", "snap", "rojas", "crackle">>
OptOptions == << [n |-> "tol", t |-> "d", v |-> "0.0625"], [n |-> "print_level", t |-> "i", v |-> "3"],
                 [n |-> "linear_solver", t |-> "s", v |-> "ma27"], [n |-> "max_iter", t |-> "i", v |-> "50"],
                 [n |-> "derivative_test", t |-> "s", v |-> "first-order"], [n |-> "acceptable_tol", t |-> "d", v |-> "0.25"],
                 [n |-> "max_iter", t |-> "i", v |-> "70"], [n |-> "tol", t |-> "d", v |-> "0.5"],
                 [n |-> "nlp_scaling_method", t |-> "s", v |-> "none"] >>
OptSet(a, i) == LET o == Nth(OptOptions, i) IN [op |-> "optset", a |-> a] @@ o
Statuses == << 0, 0, 1, 0, -1, 0, 2, 6, 0, -10 >>
(* answers: fractions of the execution time *)
OptStep(a, fn, b, wt, T0, k, n, ni, status, i) ==
  LET T == IF fn = "sobolev" THEN T0 ELSE OptTime(fn, ni) IN
  [op |-> "opt", a |-> a, fn |-> fn, b1 |-> IF fn = "sobolev" THEN b ELSE OptBasis(fn, k),
   w |-> IF fn = "sobolev" THEN wt ELSE OptWeights(fn, k), T |-> T, k |-> k, wp |-> WpOf(ni, n, i),
   ans |-> IF ni = 1 THEN << T >> ELSE TausOn(<< "0", T >>, ni, i), status |-> status]
OptBases == << BLeg(4), BLeg(6), BLeg(2), BGll(4), B01("0.5"), BLeg(8), BLag(<<"-1", "-0.25", "0.5", "1">>), BLeg(3) >>
PlanOpt(h, k, z) ==
  IF h = <<>> THEN << [op |-> "optnew"] >>
  ELSE IF z[1] % 4 = 0 THEN << OptSet(1, z[2]) >>
  ELSE LET b == Nth(OptBases, z[3]) IN
       << OptStep(1, Nth(OptFns, z[2]), b, WeightsFor(b, z[4]), Nth(<<"3", "1.5", "5", "0.75">>, z[5]), Nth(<<"1", "0.75", "1.25", "0.5">>, z[6]),
                  1 + (z[7] % 3), 1 + (z[8] % 4), Nth(Statuses, z[9]), z[10]) >>

PlanOf(p, h, k, z, scr) ==
  CASE p = "alg" -> PlanAlg(h, k, z)
    [] p = "comp" -> PlanComp(h, k, z)
    [] p = "der" -> PlanDer(h, k, z)
    [] p = "spl" -> PlanSpl(h, k, z)
    [] p = "bas" -> PlanBas(h, k, z)
    [] p = "int" -> PlanInt(h, k, z)
    [] p = "quad" -> PlanQuad(h, k, z)
    [] p = "gll" -> PlanGll(h, k, z)
    [] p = "fun" -> PlanFun(h, k, z)
    [] p = "hist" -> PlanHist(h, k, z, scr)
    [] p = "py" -> PlanPy(h, k, z)
    [] p = "pyint" -> PlanPyInt(h, k, z)
    [] p = "ser" -> PlanSer(h, k, z)
    [] p = "opt" -> PlanOpt(h, k, z)
(* the points at which functions are observed, in one of several orders      *)
PtsVar(L, i) == CASE i % 5 \in {0, 1} -> L
                  [] i % 5 = 2 -> Reverse(L)
                  [] i % 5 = 3 -> NearPts
                  [] OTHER -> IF i % 2 = 0 THEN << L[1] >> ELSE Tail(L)
PtsOf(p, i) == PtsVar(IF p = "comp" THEN CompPts ELSE Pts, i)
=============================================================================
