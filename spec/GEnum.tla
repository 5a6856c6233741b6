------------------------------- MODULE GEnum --------------------------------
(* Systematic generation: all cases of a family, each a short session.       *)
(* Cases(p) is the set of cases of family p and Session(p, c) the script.    *)
EXTENDS GPlans
CONSTANTS Profile, Stride, Offset    \* every Stride-th case from Offset on
VARIABLE case, out

(* details that a family does not enumerate vary with the case *)
H(c) == LET RECURSIVE go(_, _)
            go(i, a) == IF i > Len(c) THEN a ELSE go(i + 1, (a * 31 + c[i] * 17 + 7) % 99991)
        IN go(1, 5 + Offset)

DropAll(S) == LET s == SeqOfSet(S) IN [i \in 1..Len(s) |-> [op |-> "drop", a |-> s[i]]]
LastOf(base, steps) == base + Creates(steps)
Copying == << "clone", "copy", "move", "mclone", "toexpr", "toexprm", "conv", "convm" >>

(* what remains of operands passed in categories ca, cb *)
Left2(a, b, ca, cb) == (IF ca = "l" THEN {a} ELSE {}) \cup (IF cb = "l" /\ b # a THEN {b} ELSE {})

NReps == Len(Reps)
CatA(k) == IF k % 2 = 0 THEN "l" ELSE "r"
CatB(k) == IF (k \div 2) % 2 = 0 THEN "l" ELSE "r"

(* ---- binary operations and updates over pairs of representations *)
AlgOps == << "sum", "sub", "mul", "dot", "addeq", "muleq" >>
AlgCases == { << f, x, y, q >> : f \in 1..6, x \in 1..NReps, y \in 1..NReps, q \in 0..3 }
ExprReps == {"uniq", "sum", "mul", "neg", "comp", "cat", "zero", "ugs", "upd"}
AlgSession(c) ==
  LET f == AlgOps[c[1]] i == H(c)
      d == Nth(<< Doms[1], Doms[2], Doms[1] >>, i \div 3)
      m == 1 + ((i \div 7) % 2)
      na == IF f = "mul" THEN (IF (i \div 11) % 3 = 0 THEN 2 ELSE 1) ELSE m
      nb == IF f = "mul" THEN (IF (i \div 11) % 3 = 1 THEN 2 ELSE 1) ELSE IF f = "muleq" THEN 1 ELSE m
      ra == Reps[c[2]] rb == Reps[c[3]]
      na1 == IF ra = "dot" \/ (rb = "dot" /\ f \notin {"mul", "muleq"}) THEN 1 ELSE na
      s1 == Operand(ra, na1, d, i \div 2, 0)
      up == f \in {"addeq", "muleq"}
      a0 == OperandAt(ra, 0, s1)
      s1b == IF up /\ ra \notin ExprReps THEN << [op |-> "copy", a |-> a0, how |-> "toexpr"] >> ELSE <<>>
      a == IF s1b = <<>> THEN a0 ELSE Creates(s1) + 1
      B0 == Creates(s1) + Len(s1b)
      nb1 == IF rb = "dot" THEN 1 ELSE IF f \in {"mul", "muleq"} THEN nb ELSE na1
      s2 == Operand(rb, nb1, d, i \div 5, B0)
      b == OperandAt(rb, B0, s2)
      B1 == B0 + Creates(s2)
  IN IF up
     THEN s1 \o s1b \o s2 \o << [op |-> f, a |-> a, b |-> b, cb |-> CatB(c[4])],
                                [op |-> "copy", a |-> a, how |-> Nth(Copying, i)],
                                [op |-> "neg", a |-> B1 + 1, ca |-> CatA(c[4])] >>
          \o DropAll(IF CatB(c[4]) = "l" THEN {b} ELSE {})
     ELSE s1 \o s1b \o s2 \o << SBin(f, a, b, CatA(c[4]), CatB(c[4])) >>
          \o DropAll(Left2(a, b, CatA(c[4]), CatB(c[4])))
          \o << [op |-> "copy", a |-> B1 + 1, how |-> Nth(<<"clone", "move", "toexpr", "convm">>, i)],
                [op |-> "scal", c |-> Cf(i), a |-> B1 + 2, ca |-> CatA(i)] >>

(* the same object as both operands, and three operands in a row *)
SelfCases == { << f, x, q >> : f \in 1..6, x \in 1..NReps, q \in 0..7 }
SelfSession(c) ==
  LET f == AlgOps[c[1]] i == H(c) ra == Reps[c[2]]
      n == IF ra = "dot" THEN 1 ELSE IF f \in {"mul", "muleq"} THEN 1 ELSE 1 + (c[3] % 2)
      s1 == Operand(ra, n, Doms[1], i, 0) a0 == OperandAt(ra, 0, s1)
      up == f \in {"addeq", "muleq"}
      s1b == IF up /\ ra \notin ExprReps THEN << [op |-> "copy", a |-> a0, how |-> "toexpr"] >> ELSE <<>>
      a == IF s1b = <<>> THEN a0 ELSE Creates(s1) + 1
      B == Creates(s1) + Len(s1b)
  IN IF up THEN s1 \o s1b \o << [op |-> f, a |-> a, b |-> a, cb |-> "l"], [op |-> f, a |-> a, b |-> a, cb |-> "l"] >>
     ELSE s1 \o << SBin(f, a, a, "l", "l"),
                   Elem(n, Doms[1], i + 1),
                   SBin(IF f = "dot" THEN "mul" ELSE f, B + 1, IF f = "dot" THEN a ELSE B + 2, CatA(c[3]), IF f = "dot" THEN "l" ELSE CatB(c[3])),
                   SBin(IF f = "dot" THEN "sum" ELSE f, B + 3, B + 3, "l", "l") >>

(* ---- unary operations, copies, derivatives of every representation *)
UnOps == << <<"neg", "">>, <<"scal", "">> >> \o [k \in 1..8 |-> <<"copy", Copying[k]>>]
UnCases == { << o, x, j, q >> : o \in 1..10, x \in 1..NReps, j \in 0..6, q \in 0..1 }
UnSession(c) ==
  LET o == UnOps[c[1]] ra == Reps[c[2]] n == IF ra = "dot" THEN 1 ELSE 1 + ((c[3] + c[4]) % 2)
      s1 == Operand(ra, n, Doms[1], c[3] + 7 * (H(c) % 5), 0)
      a == OperandAt(ra, 0, s1) B == Creates(s1)
      ca == CatA(c[4])
      moved == o[1] = "copy" /\ o[2] \in {"move", "mclone", "toexprm", "convm"}
      st == CASE o[1] = "neg" -> [op |-> "neg", a |-> a, ca |-> ca]
              [] o[1] = "scal" -> [op |-> "scal", c |-> Cf(c[3]), a |-> a, ca |-> ca]
              [] OTHER -> [op |-> "copy", a |-> a, how |-> o[2]]
      gone == moved \/ (o[1] # "copy" /\ ca = "r")
  IN s1 \o << st, [op |-> "neg", a |-> B + 1, ca |-> "l"] >>
     \o (IF gone THEN <<>> ELSE << [op |-> "drop", a |-> a] >>)
     \o << [op |-> "copy", a |-> B + 1, how |-> Nth(<<"toexpr", "clone", "convm">>, H(c))],
           [op |-> "neg", a |-> B + 2, ca |-> "r"], [op |-> "neg", a |-> B + 4, ca |-> "r"] >>

(* ---- operands that do not match *)
Mism == << "left", "right", "shift", "grow", "dim", "dims", "nearl", "nearr" >>
DomCases == { << f, x, y, v, q >> : f \in 1..8, x \in {1, 2, 3, 4, 5, 7, 8, 9}, y \in {1, 3, 4, 9}, v \in 1..8, q \in {0, 3} }
DomOps == AlgOps \o << "cat", "comp" >>
DomSession(c) ==
  LET f == DomOps[c[1]] i == H(c) v == Mism[c[4]] ra == Reps[c[2]] rb == Reps[c[3]]
      d == Doms[1]
      e == IF f = "cat" THEN CASE v = "left" -> <<"1.25", "2">> [] v = "right" -> <<"0.75", "2">>
                                 [] v = "shift" -> <<"0", "1">> [] v = "grow" -> <<"2", "3">> [] v = "nearl" -> <<"1.0001", "2">> [] v = "nearr" -> <<"0.99999", "2">> [] OTHER -> <<"1", "2">>
           ELSE CASE v = "left" -> <<"-0.5", "1">> [] v = "right" -> <<"0", "1.5">>
                  [] v = "shift" -> <<"0.25", "1.25">> [] v = "grow" -> <<"0", "2">> [] v = "nearl" -> <<"0.0001", "1">> [] v = "nearr" -> <<"0", "1.00001">> [] OTHER -> d
      vec == f \in {"sum", "sub", "dot", "addeq", "cat"} /\ i % 2 = 0
      n1 == IF ra = "dot" THEN 1 ELSE CASE f \in {"mul", "muleq"} /\ v = "dim" -> 2 [] v = "dims" -> 3 [] f = "muleq" /\ v = "dim" -> 2
              [] OTHER -> IF vec THEN 2 ELSE 1
      n2 == CASE v \in {"dim", "dims"} -> IF n1 = 2 THEN 3 ELSE 2
              [] f = "comp" -> 1 + (i % 2)
              [] f \in {"mul", "muleq"} -> 1
              [] OTHER -> n1
      s1 == Operand(ra, n1, d, i \div 3, 0)
      up == f \in {"addeq", "muleq"}
      a0 == OperandAt(ra, 0, s1)
      s1b == IF up /\ ra \notin ExprReps THEN << [op |-> "copy", a |-> a0, how |-> "toexpr"] >> ELSE <<>>
      a == IF s1b = <<>> THEN a0 ELSE Creates(s1) + 1
      B0 == Creates(s1) + Len(s1b)
      s2 == Operand(rb, n2, e, i \div 5, B0)
      b == OperandAt(rb, B0, s2)
  IN s1 \o s1b \o s2 \o
     (IF up THEN << [op |-> f, a |-> a, b |-> b, cb |-> CatB(c[5])] >>
      ELSE << SBin(f, a, b, CatA(c[5]), CatB(c[5])) >>)
     \o (IF c[5] = 0 THEN (IF up THEN <<>> ELSE << SBin(f, b, a, "l", "l") >>) ELSE <<>>)

(* ---- chains: concatenations and compositions in every grouping            *)
(* a grouping is a postfix word: p pushes the next piece, c joins            *)
Words == << <<"p", "p", "c">>,
            <<"p", "p", "c", "p", "c">>, <<"p", "p", "p", "c", "c">>,
            <<"p", "p", "c", "p", "c", "p", "c">>, <<"p", "p", "c", "p", "p", "c", "c">>,
            <<"p", "p", "p", "c", "c", "p", "c">>, <<"p", "p", "p", "c", "p", "c", "c">>,
            <<"p", "p", "p", "p", "c", "c", "c">>,
            <<"p", "p", "c", "p", "p", "c", "c", "p", "c">>, <<"p", "p", "p", "p", "p", "p", "c", "c", "c", "c", "c">>,
            <<"p", "p", "c", "p", "c", "p", "p", "p", "c", "c", "c">> >>
ChainReps == << "elem", "gs", "uniq", "sum", "mul", "ugs", "neg", "der", "comp", "cat", "upd", "zero" >>
InnerReps == << "elem", "uniq", "elem", "neg2", "sum2" >>
(* a scalar function [0, 1] -> [0, 1] as an object of several representations *)
InnerOp(d, i, base) ==
  CASE i % 5 \in {0, 2} -> << InnerOn(d, i \div 5) >>
    [] i % 5 = 1 -> << InnerOn(d, i \div 5), [op |-> "copy", a |-> base + 1, how |-> Nth(<<"toexpr", "toexprm">>, i \div 5)] >>
    [] i % 5 = 3 -> << InnerOn(d, i \div 5), InnerOn(d, i \div 7), SBin("mul", base + 1, base + 2, Cat2(i \div 3), Cat2(i \div 2)) >>
    [] OTHER -> << InnerOn(d, 1 + (i \div 5)), InnerOn(d, i \div 7), SBin("comp", base + 1, base + 2, Cat2(i \div 3), Cat2(i \div 2)) >>
CatSegs == << <<"0", "1">>, <<"1", "1.5">>, <<"1.5", "2">>, <<"2", "4">>, <<"4", "4.125">>, <<"4.125", "6">> >>
RECURSIVE Build(_, _, _, _, _, _, _, _)
Build(f, w, k, i, n, steps, stack, piece) ==
  (* k: objects so far; piece: number of pieces pushed *)
  IF w = <<>> THEN << steps, stack[Len(stack)], k >>
  ELSE IF Head(w) = "p"
  THEN LET j == i \div (piece * piece + 1)
           s == IF f = "cat" THEN Operand(Nth(ChainReps, j), n, Nth(CatSegs, piece), i + piece, k)
                ELSE IF piece = 0 THEN Operand(Nth(ChainReps, j), n, Segs[1], i, k)
                ELSE InnerOp(Segs[1], i + piece * 3, k)
           a == IF (f = "cat" \/ piece = 0) /\ Nth(ChainReps, j) = "upd" THEN k + 2 ELSE k + Creates(s)
       IN Build(f, Tail(w), k + Creates(s), i, n, steps \o s, Append(stack, a), piece + 1)
  ELSE LET a == stack[Len(stack) - 1] b == stack[Len(stack)]
           q == i \div (3 + Len(steps))
       IN Build(f, Tail(w), k + 1, i, n, Append(steps, SBin(f, a, b, CatA(q), CatB(q))),
                Append(SubSeq(stack, 1, Len(stack) - 2), k + 1), piece)
CatCases == { << w, j, q >> : w \in 1..Len(Words), j \in 0..23, q \in 0..9 }
ChainSession(f, c) ==
  LET i == H(c) r == Build(f, Words[c[1]], 0, i + c[2] * 41 + c[3] * 977, 1 + (i % 2), <<>>, <<>>, 0) IN
  r[1] \o << [op |-> "copy", a |-> r[2], how |-> Nth(Copying, c[2])],
             [op |-> "deriv", a |-> r[3] + 1, m |-> 1 + (c[3] % 2), how |-> Nth(<<"derivate", "deriv", "base">>, i)],
             [op |-> "neg", a |-> r[3] + 1, ca |-> CatA(c[3])] >>

(* ---- derivatives of combinations of two representations *)
DerOps == << "sum", "sub", "mul", "dot", "comp", "cat" >>
DerCases == { << f, x, y, m >> : f \in 1..6, x \in 1..NReps, y \in 1..NReps, m \in 1..3 }
DerSession(c) ==
  LET f == DerOps[c[1]] i == H(c) ra == Reps[c[2]] rb == Reps[c[3]]
      d == Doms[1]
      n == IF ra = "dot" \/ rb = "dot" THEN 1 ELSE 1 + ((i \div 7) % 2)
      s1 == Operand(ra, n, d, i \div 2, 0) a == OperandAt(ra, 0, s1) B == Creates(s1)
      s2 == IF f = "comp" THEN InnerOp(d, i \div 5, B)
            ELSE Operand(rb, IF f = "mul" /\ n = 2 THEN 1 ELSE n, IF f = "cat" THEN Segs[5] ELSE d, i \div 5, B)
      b == IF f # "comp" /\ rb = "upd" THEN B + 2 ELSE B + Creates(s2)
      C == B + Creates(s2)
      how == Nth(<<"derivate", "deriv", "base">>, i)
      how2 == Nth(<<"deriv", "base", "derivate">>, i \div 3)
      m == IF c[4] = 3 THEN Nth(<<3, 0, 4>>, i) ELSE c[4]
  IN s1 \o s2 \o << SBin(f, a, b, CatA(i \div 11), CatB(i \div 11)),
                    [op |-> "deriv", a |-> C + 1, m |-> m, how |-> how] >>
     \o (IF c[4] = 1 THEN << [op |-> "deriv", a |-> C + 2, m |-> 1 + (i % 2), how |-> how2] >>
         ELSE << [op |-> "copy", a |-> C + 2, how |-> Nth(Copying, i)] >>)

(* derivatives of elementary functions and splines, every order *)
ElemDerCases == { << j, n, m, w >> : j \in 0..20, n \in 1..3, m \in 0..5, w \in 1..3 }
ElemDerSession(c) ==
  LET new == IF c[1] < 7 THEN Elem(c[2], Doms[1], c[1]) ELSE Gs(c[2], Nth(Doms, c[1]), c[1]) IN
  << new, [op |-> "deriv", a |-> 1, m |-> c[3], how |-> Nth(<<"derivate", "deriv", "base">>, c[4])],
     [op |-> "deriv", a |-> 2, m |-> c[4] % 3, how |-> "derivate"] >>

(* ---- splines *)
SplCases == { << b, ni, n >> : b \in 1..Len(MoreBases), ni \in 1..5, n \in 1..3 }
SplSession(c) ==
  LET b == MoreBases[c[1]] i == H(c) d == Nth(Doms, i) x == SplineOn(d, c[3], b, c[2], i)
      wrong(k) == [x EXCEPT !.c = IF k > 0 THEN x.c \o Cfs(k, i) ELSE SubSeq(x.c, 1, Len(x.c) + k)] IN
  << NewGs(x, 0), NewGs(x, 1), [op |-> "gseq", a |-> 1, b |-> 2],
     NewGs(wrong(1), i), NewGs(wrong(-1), i), NewGs(wrong(b.dim), i),
     [op |-> "copy", a |-> 1, how |-> "clone"],
     [op |-> "deriv", a |-> 1, m |-> 0, how |-> "derivate"],
     [op |-> "deriv", a |-> 1, m |-> 1, how |-> "deriv"],
     [op |-> "deriv", a |-> 1, m |-> 2, how |-> "derivate"],
     [op |-> "deriv", a |-> 1, m |-> 3, how |-> "base"],
     [op |-> "deriv", a |-> 5, m |-> 1, how |-> "derivate"],
     [op |-> "gsneg", a |-> 2, ca |-> "r"],
     [op |-> "gsscal", c |-> Cf(i), a |-> 3, ca |-> "r", side |-> Nth(<<"l", "r">>, i)] >>
VarCases == { << b, v, s >> : b \in 1..Len(BasisPool), v \in 1..Len(Variations), s \in 0..2 }
VarSession(c) ==
  LET b == BasisPool[c[1]] v == Variations[c[2]] i == H(c)
      x == SplineOn(Nth(Doms, i), 1 + (c[3] % 3), b, 1 + ((c[3] + 1) % 3), i)
      y == Vary(x, v, i \div 3)
      g(f, p, q, cp, cq) == [op |-> "gsbin", f |-> f, a |-> p, b |-> q, ca |-> cp, cb |-> cq]
      u(f, p, q) == [op |-> "gsaeq", f |-> f, a |-> p, b |-> q] IN
  << NewGs(x, 0), NewGs(y, 1),
     [op |-> "gseq", a |-> 1, b |-> 2], [op |-> "gseq", a |-> 2, b |-> 1], [op |-> "gseq", a |-> 1, b |-> 1],
     u("sub", 2, 1), u("sum", 1, 2), u("sum", 1, 1), g("sub", 1, 2, "l", "l"), g("sum", 2, 1, "l", "l"),
     NewGs(x, 1) >>
  \o (IF SameSpace(x, y)
      THEN << NewGs(y, 0), g(IF c[3] = 0 THEN "sum" ELSE "sub", 5, 2, "r", "l"),
              g(IF c[3] = 1 THEN "sum" ELSE "sub", 1, 6, "l", "r"),
              g(IF c[3] = 2 THEN "sum" ELSE "sub", 7, 8, "r", "r") >>
      ELSE << NewGs(y, 0), g(IF c[3] = 0 THEN "sum" ELSE "sub", 3, 2, "r", "l"),
              g(IF c[3] = 1 THEN "sum" ELSE "sub", 1, 4, "l", "r") >>)

(* time scaling *)
ScaleCases == { << b, ni, n, t >> : b \in 1..Len(BasisPool), ni \in 1..3, n \in 1..3, t \in 1..3 }
ScaleSession(c) ==
  LET b == BasisPool[c[1]] i == H(c) d == Nth(Doms, i) x == SplineOn(d, c[3], b, c[2], i)
      T == IF b.name = "basis0101" THEN Nth(<<"1", "2.5", "0.75", "4", "0.3", "7">>, i \div 3)
           ELSE Nth(<<"1", "2.5", "0.75", "0.0004", "4", "0.3", "7", "0.000001", "350">>, i \div 3)
      mode(k) == Nth(<<"num", "vec">>, i + k)
      q(v, ac, dt, mo) == [op |-> "gsbound", a |-> 1, v |-> v, ac |-> ac, dt |-> dt, mode |-> mo]
      B(k) == Bnds(c[3], i + k, mode(k))
      dt == DtFor(d, i \div 5)
  IN << NewGs(x, i), [op |-> "gsscale", a |-> 1, T |-> T],
        [op |-> "gsscale", a |-> 2, T |-> Nth(<<"2", "0.5", "1.25">>, i)],
        [op |-> "gsscale", a |-> 1, T |-> Nth(<<"0", "-1", "-0.001">>, i)],
        [op |-> "deriv", a |-> 2, m |-> 1, how |-> "derivate"] >>
     \o (IF ~Moving(x) THEN <<>>
         ELSE CASE c[4] = 1 -> << q(B(1), B(1), dt, mode(1)), q(B(2), B(2), DtFor(d, i), mode(2)) >>
                [] c[4] = 2 -> << q(B(1), <<>>, dt, mode(1)), q(<<>>, B(2), dt, mode(2)), q(B(3), <<>>, IF i % 4 = 0 THEN "0.01" ELSE DtFor(d, i), mode(3)) >>
                [] OTHER -> << q(<<>>, <<>>, dt, mode(1)), q(B(1), B(1), Nth(<<"0", "-0.25">>, i), mode(1)),
                               q(Bnds(c[3] + 1, i, "vec"), <<>>, dt, "vec"), q(<<>>, Bnds(c[3] + 1, i, "vec"), dt, "vec"),
                               q(Bnds(c[3], i, "vec"), Bnds(c[3] + 2, i, "vec"), dt, "vec") >>)

(* ---- bases *)
BasCases == { << b, t, g >> : b \in 1..Len(MoreBases), t \in 1..Len(TauPool), g \in 0..3 }
BasSession(c) ==
  LET b == MoreBases[c[1]] tau == TauPool[c[2]] i == H(c)
      two == << NewBasis(b, i), NewBasis(b, i + 1), [op |-> "bcopy", a |-> 1, ca |-> "l"], [op |-> "beq", a |-> 1, b |-> 2] >>
      ni == 1 + (i % 3) n == 1 + ((i \div 3) % 2)
      up(m) == IF c[2] % 2 = 0 THEN m ELSE 5 - m IN
  two \o
  (CASE c[3] = 0 -> [k \in 1..21 |-> [op |-> "beval", a |-> 1 + (k % 3), s |-> WinPts[((k + c[2] - 1) % 12) + 1], tau |-> tau, m |-> (k + (k \div 7) * 2) % 7]]
     [] c[3] = 1 -> [k \in 1..14 |-> [op |-> "bevaltau", a |-> 1 + (k % 3), s |-> WinPts[((k + c[2] - 1) % 12) + 1], tau |-> tau, m |-> (k + c[2]) % 7]]
     [] c[3] = 2 -> [k \in 1..6 |-> [op |-> "bder", a |-> 1 + (k % 2), m |-> up(k - 1)]]
                    \o << [op |-> "bcopy", a |-> 1, ca |-> "r"] >>
                    \o [k \in 1..4 |-> [op |-> "bder", a |-> 4, m |-> up(5 - k)]]
                    \o [k \in 1..4 |-> [op |-> "bgsd", a |-> 3, ni |-> ni, n |-> n, m |-> k - 1, taus |-> TauSeq(ni, c[2] + k)]]
     [] OTHER -> [k \in 1..3 |-> [op |-> "bcont", a |-> 1, ni |-> 1 + ((i + k) % 3), n |-> n, m |-> up(k) % 4, taus |-> TauSeq(1 + ((i + k) % 3), c[2] + k)]]
                 \o [k \in 1..5 |-> [op |-> "bgram", a |-> 2, tau |-> tau, m |-> k - 1]]
                 \o [k \in 1..5 |-> [op |-> "bgramtau", a |-> 1, tau |-> tau, m |-> k - 1]])
BadBases == << [name |-> "nobasis", dim |-> 4, pars |-> <<>>], [name |-> "basis0101", dim |-> 6, pars |-> <<>>],
               [name |-> "basis0101", dim |-> 6, pars |-> <<"0.5", "0.25">>] >>
BasEqCases == { << x, y >> : x \in 1..Len(MoreBases), y \in 1..Len(MoreBases) }
BasEqSession(c) == << NewBasis(MoreBases[c[1]], c[2]), NewBasis(MoreBases[c[2]], c[1]),
                      [op |-> "beq", a |-> 1, b |-> 2], [op |-> "beq", a |-> 2, b |-> 1],
                      [op |-> "bnew", b1 |-> BadBases[1 + (c[1] % 3)], how |-> "get"] >>

(* ---- interpolation *)
IntCases == { << b, ni, n, v >> : b \in 1..Len(EvenBases), ni \in 1..4, n \in 1..3, v \in 0..1 }
IntSession(c) ==
  LET b == EvenBases[c[1]] ni == c[2] n == c[3] i == H(c)
      t1 == TauSeq(ni, i) t2 == TauSeq(ni, i + 1) w1 == WpOf(ni, n, i) w2 == WpOf(ni, n, i + 3)
      nw == << NewBasis(b, i), [op |-> "inew", a |-> 1, n |-> n, ni |-> ni] >> IN
  nw \o
  (IF c[4] = 0
   THEN << [op |-> "isolve", a |-> 2, taus |-> t1, wp |-> w1],
           [op |-> "iinterp", a |-> 2, taus |-> t2, wp |-> w2],
           [op |-> "isolve", a |-> 2, taus |-> t1, wp |-> w1],
           [op |-> "finterp", a |-> 1, taus |-> t1, wp |-> w2],
           [op |-> "isolve", a |-> 2, taus |-> TauSeq(ni + 1, i), wp |-> w1],
           [op |-> "iinterp", a |-> 2, taus |-> t1, wp |-> BadWp(ni, n, i)],
           [op |-> "isolve", a |-> 2, taus |-> [j \in 1..ni |-> IF j = 1 + (i % ni) THEN "1e-7" ELSE "1"], wp |-> w1],
           [op |-> "bnew", b1 |-> Nth(OddBases, i), how |-> "ctor"],
           [op |-> "inew", a |-> 5, n |-> n, ni |-> ni],
           [op |-> "finterp", a |-> 5, taus |-> t1, wp |-> w1],
           [op |-> "fpw", nc |-> Nth(<<4, 6, 3, 8, 2>>, i), taus |-> t2, wp |-> w1],
           [op |-> "iinterp", a |-> 2, taus |-> t1, wp |-> w1] >>
   ELSE [k \in 1..ni |-> [op |-> "icoefd", a |-> 2, taus |-> t1, wp |-> w1, i |-> k - 1]]
        \o << [op |-> "icoefd", a |-> 2, taus |-> t2, wp |-> w2, i |-> (i % ni), j |-> ((i \div 3) % ni)],
              [op |-> "isolve", a |-> 2, taus |-> t2, wp |-> w1],
              [op |-> "icoefd", a |-> 2, taus |-> t1, wp |-> w1, i |-> ni - 1, ot |-> t2],
              [op |-> "icoefd", a |-> 2, taus |-> t1, wp |-> w1, i |-> 0] >>)
SobCases == { << b, ni, n, w >> : b \in 1..Len(EvenBases), ni \in 1..3, n \in 1..2, w \in 0..6 }
SobSession(c) ==
  LET b == EvenBases[c[1]] ni == c[2] i == H(c) t1 == TauSeq(ni, i) t2 == TauSeq(ni, i + 1) w1 == WpOf(ni, c[3], i) IN
  << NewBasis(b, i), [op |-> "snew", a |-> 1, wp |-> w1, w |-> WeightsFor(b, c[4])],
     [op |-> "sval", a |-> 2, taus |-> t1], [op |-> "sgrad", a |-> 2, taus |-> t1],
     [op |-> "sval", a |-> 2, taus |-> t2], [op |-> "sval", a |-> 2, taus |-> t1] >>
  \o (IF c[4] % 2 = 0 THEN << [op |-> "sgrad", a |-> 2, taus |-> t2], [op |-> "sgrad", a |-> 2, taus |-> t1] >>
      ELSE << [op |-> "sval", a |-> 2, taus |-> TauSeq(ni + 1, i)], [op |-> "sgrad", a |-> 2, taus |-> t2] >>)

(* ---- quadrature *)
QuadCases == { << n, ni, d >> : n \in 2..12, ni \in 1..4, d \in 1..Len(Doms) }
             \cup { << n, 1 + (n % 3), 1 + (n % Len(Doms)) >> : n \in (13..24) \cup {32, 33, 40, 47, 50, 64, 65} }
             \cup { << n, ni, 1 >> : n \in {3, 10, 15, 20, 27}, ni \in {6, 9, 17} }
QuadSession(c) ==
  LET n == c[1] i == H(c) d == Doms[c[3]]
      top == IF c[3] = 1 THEN 37 ELSE 15                   \* [0, 1] bears higher degrees
      deg == IF 2 * n - 3 > top THEN top ELSE 2 * n - 3
      half == IF n - 2 > top \div 2 THEN top \div 2 ELSE n - 2 IN
  << [op |-> "qpw", n |-> n, how |-> Nth(<<"sep", "pair">>, i)],
     [op |-> "qcomp", t0 |-> d[1], n |-> n, taus |-> TauSeq(c[2], i)],
     [op |-> "qdom", d |-> d, n |-> n, ni |-> c[2]],
     SNew("poly", EPoly(d, Cfs(deg + 1, i))),
     SNew("poly", EPoly(d, Cfs(half + 1, i))),
     SNew("gs", SplineOn(d, 2, BLeg(half + 1), 1, i)),
     SNew("gs", SplineOn(d, 2, BLeg(half + 1), 1, i + 3)),
     [op |-> "integ", a |-> 1, ng |-> n, ni |-> c[2]],
     [op |-> "ip", a |-> 2, b |-> 2, fn |-> "l2n", w |-> Plain(0), ng |-> n, ni |-> c[2]],
     [op |-> "ip", a |-> 3, b |-> 4, fn |-> "l2", w |-> Plain(0), ng |-> n, ni |-> c[2]],
     [op |-> "ip", a |-> 3, b |-> 4, fn |-> "sob", w |-> Plain(i % 3), ng |-> n, ni |-> c[2]],
     [op |-> "ip", a |-> 4, b |-> 4, fn |-> "sobn", w |-> Plain(i % 3), ng |-> n, ni |-> c[2]],
     [op |-> "ip", a |-> 4, b |-> 3, fn |-> "semi", w |-> Nth(SemiW, i), ng |-> n, ni |-> c[2]],
     [op |-> "ip", a |-> 3, b |-> 3, fn |-> "semin", w |-> Nth(SemiW, i \div 3), ng |-> n, ni |-> c[2]],
     [op |-> "ip", a |-> 2, b |-> 4, fn |-> Nth(<<"l2", "sob", "semi">>, i), w |-> Plain(0), ng |-> n, ni |-> c[2]],
     SNew("gs", SplineOn(<< d[1], RStr(RAdd(R(d[2]), R("0.5"))) >>, 2, BLeg(2), 1, i)),
     [op |-> "ip", a |-> 3, b |-> 5, fn |-> Nth(<<"sob", "l2", "semi">>, i), w |-> Plain(0), ng |-> n, ni |-> c[2]] >>
  \o (IF half = 0 THEN <<>>                                \* continuous splines of as many pieces
      ELSE LET w == IF half > 4 THEN 4 ELSE half       \* degree
               q(k, z, m) == Cf(k + 3 * z + m)           \* m-th coefficient of piece z; the first makes it continuous
               RECURSIVE sm(_, _, _, _)
               sm(k, z, m, odd) == IF m > w THEN R(0) ELSE RAdd(IF m % 2 = 1 THEN RMul(R(odd), R(q(k, z, m))) ELSE IF odd = 2 THEN R(0) ELSE R(q(k, z, m)), sm(k, z, m + 1, odd))
               RECURSIVE st(_, _)
               st(k, z) == IF z = 1 THEN R(Cf(k)) ELSE RAdd(st(k, z - 1), sm(k, z - 1, 1, 2))
               p(k, m) == SNew("gs", [SplineOn(d, m, BLeg(w + 1), c[2], k) EXCEPT !.tau = [z \in 1..c[2] |-> RStr(RDiv(RSub(R(d[2]), R(d[1])), R(c[2])))],
                            !.c = [z \in 1..Len(@) |-> LET pc == 1 + (z - 1) \div (w + 1) m1 == (z - 1) % (w + 1) IN
                                     IF m1 = 0 THEN RStr(RSub(st(k, pc), sm(k, pc, 1, -1))) ELSE q(k, pc, m1)]]) IN
      << p(i + 1, 1), p(i + 2, 1), [op |-> "integ", a |-> 6, ng |-> n, ni |-> c[2]],
         [op |-> "ip", a |-> 6, b |-> 7, fn |-> Nth(<<"l2", "semi", "sob">>, i), w |-> Plain(0), ng |-> n, ni |-> c[2]],
         [op |-> "ip", a |-> 7, b |-> 7, fn |-> Nth(<<"semin", "l2n", "sobn">>, i), w |-> Plain(0), ng |-> n, ni |-> c[2]] >>)

(* ---- collocation splines *)
GllShapes == { << ng, ni, n >> : ng \in {2, 3, 5}, ni \in 1..3, n \in 1..3 }
GllCases == { << ng, ni, n, g, d >> : ng \in {2, 3, 4, 5}, ni \in 1..3, n \in 1..3, g \in 0..3, d \in 1..2 }
PosGll(d, ng, ni, i) ==  \* a scalar one with values away from zero
  [op |-> "gllnew", t |-> "coef", d |-> d, n |-> 1, ng |-> ng,
   c |-> [k \in 1..(ng * ni) |-> Nth(<<"0.5", "1.5", "2", "0.75", "1">>, i + k * k)], tau |-> TausOn(d, ni, i % 3)]
GllSession(c) ==
  LET ng == c[1] ni == c[2] n == c[3] d == Doms[c[5]] i == H(c) k == i % 5
      x == [NewGll(d, n, ng, ni, i) EXCEPT !.tau = TausOn(d, ni, k)]
      y == [NewGll(d, n, ng, ni, i + 1) EXCEPT !.tau = TausOn(d, ni, k)]
      p == [PosGll(d, ng, ni, i) EXCEPT !.tau = TausOn(d, ni, k)]
      g(f, a, b, ca, cb) == [op |-> "gllbin", f |-> f, a |-> a, b |-> b, ca |-> ca, cb |-> cb] IN
  CASE c[4] = 0 ->
    << x, y, p, g("sum", 1, 2, "l", "l"), g("mul", 1, 3, "l", "l"), g("mul", 3, 2, "l", "l"), g("sub", 4, 1, "r", "l"),
       g("mul", 5, 3, "r", "l"), g("mul", 3, 6, "l", "r"), g("mul", 3, 3, "l", "l"), g("sum", 8, 9, "r", "r"),
       g("mul", 11, 10, "r", "r"),
       [op |-> "gllinv", c |-> Cf(i), a |-> 3, ca |-> "l"], [op |-> "gllpow", c |-> Nth(<<"2", "0.5", "-1", "1.5", "3", "-0.5">>, i), a |-> 3, ca |-> "l"],
       [op |-> "gllpow", c |-> Nth(<<"2", "0.5", "-1", "1.5">>, i \div 5), a |-> 13, ca |-> IF n = 1 THEN "l" ELSE "l"],
       [op |-> "gllinv", c |-> Cf(i), a |-> 3, ca |-> "r"] >>
    [] c[4] = 1 ->
    << x, [op |-> "gllneg", a |-> 1, ca |-> "l"], [op |-> "gllscal", c |-> Cf(i), a |-> 1, ca |-> "l", side |-> "l"],
       [op |-> "gllscal", c |-> Cf(i + 1), a |-> 2, ca |-> "r", side |-> "r"], [op |-> "gllneg", a |-> 3, ca |-> "r"],
       [op |-> "gllnorm", a |-> 1],
       [op |-> "glladdv", f |-> "add", v |-> Cfs(n, i), a |-> 1, ca |-> "l"],
       [op |-> "glladdv", f |-> "vsub", v |-> Cfs(n, i), a |-> 1, ca |-> "l"],
       [op |-> "glladdv", f |-> "sub", v |-> Cfs(n, i), a |-> 7, ca |-> "r"],
       [op |-> "glladdv", f |-> "vadd", v |-> Cfs(n, i + 1), a |-> 8, ca |-> "r"],
       [op |-> "glladdv", f |-> Nth(<<"add", "vadd", "sub", "vsub">>, i), v |-> Cfs(n + 1, i), a |-> 1, ca |-> "l"],
       [op |-> "gllvalat", a |-> 1, i |-> 0], [op |-> "gllvalat", a |-> 1, i |-> ng * ni - 1], [op |-> "gllvalat", a |-> 1, i |-> (ng * ni) \div 2],
       [op |-> "gllinv", c |-> "2", a |-> IF n = 1 THEN 6 ELSE 1, ca |-> "l"] >>
    [] c[4] = 2 ->
    << x, Elem(n, d, i), Gs(n, Nth(Doms, i), i), [op |-> "gllapp", a |-> 2, ng |-> ng, ni |-> ni, how |-> "app"],
       [op |-> "gllapp", a |-> 3, ng |-> ng, ni |-> ni, how |-> "ctor"], [op |-> "gllid", d |-> d, ng |-> ng, ni |-> ni],
       [op |-> "gllasg", a |-> 4, b |-> 1, cb |-> "l"], [op |-> "gllasgf", a |-> 1, b |-> 3], [op |-> "gllasgf", a |-> 4, b |-> 2],
       [op |-> "gllasg", a |-> 1, b |-> 1, cb |-> "l"],
       [op |-> "gllset", a |-> 5, d |-> Nth(GllDoms, i), v |-> [j \in 1..(ng * ni) |-> Cfs(n, i + j)]],
       [op |-> "gllasg", a |-> 5, b |-> 4, cb |-> "r"], [op |-> "deriv", a |-> 5, m |-> 1 + (i % 2), how |-> Nth(<<"derivate", "deriv", "base">>, i)],
       [op |-> "copy", a |-> 5, how |-> Nth(<<"clone", "copy", "move", "mclone", "toexpr">>, i)],
       [op |-> "gllnew", t |-> "zero", d |-> d, n |-> n, ng |-> ng, ni |-> ni],
       [op |-> "new", t |-> "gs", e |-> SplineOn(d, n, BGll(ng), ni, i)], [op |-> "gllfromgs", a |-> 9, ca |-> CatA(i)] >>
    [] OTHER ->        \* things that do not fit
    << x, p, NewGll(d, n, ng + 1, ni, i), NewGll(d, n, ng, ni + 1, i), NewGll(Shift(d, Nth(<<"0.5", "1", "0.0001">>, i)), n, ng, ni, i),
       NewGll(d, n + 1, ng, ni, i), [NewGll(d, n, ng, ni, i) EXCEPT !.tau = TausOn(d, ni, k + 1)],
       NewGll(d, n, ng, ni, i + 2), [op |-> "gllasg", a |-> 8, b |-> 5, cb |-> "l"] >>
    \o [j \in 1..10 |-> g(IF j <= 5 THEN "mul" ELSE Nth(<<"sum", "sub">>, i + j), IF j <= 5 THEN 2 ELSE 1, 3 + ((j - 1) % 5), "l", "l")]
    \o [j \in 1..5 |-> g("mul", 2 + j, 2, IF j = 3 THEN "r" ELSE "l", "l")]
    \o << [op |-> "gllasg", a |-> 1, b |-> 3, cb |-> "l"], [op |-> "gllasg", a |-> 1, b |-> 4, cb |-> "l"], [op |-> "gllasg", a |-> 1, b |-> 6, cb |-> "l"],
          g("mul", 6, 6, "l", "l"), [op |-> "gllinv", c |-> "2", a |-> 6, ca |-> "l"], [op |-> "gllpow", c |-> "2", a |-> 6, ca |-> "l"],
          [op |-> "gllasg", a |-> 1, b |-> 7, cb |-> "l"],
          [op |-> "gllasg", a |-> 1, b |-> 8, cb |-> "r"],
          [NewGll(d, n, ng, ni, i) EXCEPT !.c = Cfs(n * ng * ni + 1, i)],
          [op |-> "gllset", a |-> 2, d |-> d, v |-> [j \in 1..(ng * ni + (IF i % 2 = 0 THEN 1 ELSE -1)) |-> Cfs(1, i + j)]],
          [op |-> "gllset", a |-> 1, d |-> d, v |-> [j \in 1..(ng * ni) |-> Cfs(IF j = ng * ni THEN n + 1 ELSE n, i + j)]] >>

(* ---- the Python interface: every operation on every pair of classes *)
NPy == Len(PyClasses)
PyOps == << "sum", "sub", "mul", "dot", "comp", "cat" >>
PyCases == { << f, x, y, v >> : f \in 1..6, x \in 1..NPy, y \in 1..NPy, v \in 0..2 }
PySession(c) ==
  LET f == PyOps[c[1]] i == H(c) v == c[4]
      ra0 == PyClasses[c[2]] rb0 == PyClasses[c[3]]
      (* no sums and products of splines in Python *)
      ra == IF f \in PyArith /\ ra0 = "gs" THEN "comp" ELSE ra0
      rb == IF rb0 = "gs" /\ (f \in PyArith \/ (f \in {"comp", "cat"} /\ ra0 # "gs")) THEN "cat" ELSE rb0
      vec == {"const1", "zero", "gs", "expr", "neg", "der", "comp", "cat"}
      n == IF ra \in vec /\ rb \in vec /\ f # "mul" THEN 1 + (i % 2) ELSE 1
      na == IF f = "mul" /\ i % 3 = 1 THEN 2 ELSE n
      nb == IF f = "mul" /\ i % 3 = 2 THEN 2 ELSE IF f = "comp" THEN 1 ELSE n
      d == Doms[1]
      e == IF f = "cat" THEN IF v = 2 THEN <<"1.5", "2">> ELSE <<"1", "2">>
           ELSE IF v = 2 /\ f # "comp" THEN Nth(<< <<"0", "1.25">>, <<"-0.25", "1">>, <<"0.0001", "1">> >>, i \div 3) ELSE d
      s1 == PyOperand(ra, na, d, i \div 2, 0) a == Creates(s1)
      s2 == IF f = "comp" /\ v = 0 THEN << InnerOn(d, i \div 5) >> ELSE PyOperand(rb, IF v = 2 /\ f = "comp" THEN 2 ELSE nb, e, i \div 5, a)
      b == a + Creates(s2)
      ok == "ok"
  IN s1 \o s2 \o << PyBin(f, a, b), PyBin(IF f \in PyArith /\ v = 1 THEN Nth(<<"dot", "sum", "comp">>, i) ELSE f, a, b) >>
     \o << [op |-> "deriv", a |-> a, m |-> 1 + (i % 2), how |-> "derivate"], [op |-> "drop", a |-> b] >>
PyChain(s) ==          \* derive and negate what the first operation gave, if it gave something
  LET RECURSIVE go(_, _)
      go(h, j) == IF j > Len(s) THEN h ELSE go(IF "ok" \in Expect(h, s[j]) THEN After(h, s[j], [x |-> "ok"]) ELSE AfterReject(h, s[j]), j + 1)
      h == go(<<>>, 1)
      E == Live(h, {"elem", "expr"})
  IN IF E = {} THEN s ELSE LET a == PickIdx(E, Cardinality(E) - 1) IN
     IF Ders(h[a].e) > 3 \/ Size(h[a].e) > 16 THEN s
     ELSE s \o << [op |-> "deriv", a |-> a, m |-> 1, how |-> "derivate"], [op |-> "neg", a |-> a, ca |-> "l"] >>

SerCases == { << b, ni, n, v >> : b \in 1..Len(MoreBases), ni \in 1..3, n \in 1..2, v \in 0..2 }
SerSession(c) ==
  LET b == MoreBases[c[1]] i == H(c) d == Nth(Doms, i)
      x == IF c[4] = 0 THEN SplineOn(d, c[3], b, c[2], i) ELSE LongSpline(d, c[3], b, c[2], i)
      k == i \div 3 IN
  << NewGs(x, 0), NewBasis(b, i), [op |-> "ser", a |-> 1, via |-> "dict"], [op |-> "ser", a |-> 1, via |-> "json"],
     [op |-> "ser", a |-> 2, via |-> Nth(<<"json", "dict">>, i)], [op |-> "gseq", a |-> 1, b |-> 4], [op |-> "beq", a |-> 2, b |-> 5],
     [op |-> "beval", a |-> 5, s |-> Nth(WinPts, i), tau |-> "0.75", m |-> i % 3],
     [op |-> "gsscale", a |-> 4, T |-> Nth(<<"2.5", "0.7", "1.3">>, i)], [op |-> "ser", a |-> 6, via |-> Nth(<<"dict", "json">>, i)],
     [op |-> "deriv", a |-> 3, m |-> 1, how |-> "derivate"], [op |-> "ser", a |-> 8, via |-> "json"],
     [op |-> "serbad", a |-> 1, key |-> "coefficients", how |-> "len"] >>
  \o [j \in 1..3 |-> [op |-> "serbad", a |-> 1, key |-> Nth(SerKeys, j + c[1] + 3 * c[4]), how |-> Nth(<<"missing", "type", "none">>, k + j)]]
  \o [j \in 1..2 |-> [op |-> "serbad", a |-> 2, key |-> Nth(SerBasisKeys, j + c[1] + c[4]), how |-> Nth(<<"missing", "type", "none">>, k + j)]]

(* ---- functionals on collocation splines *)
FunCases == { c \in { << ng, ni, n, g, v >> : ng \in 2..6, ni \in 1..4, n \in 1..3, g \in 0..6, v \in 0..1 } :
               c[1] * c[2] * c[3] <= (IF c[4] \in {0, 3} THEN 30 ELSE 24) }
FunSession(c) ==
  LET ng == c[1] ni == c[2] n == c[3] v == c[5] i == H(c) d == Nth(GllDoms, i) d2 == Nth(GllDoms, i \div 7)
      x == [NewGll(d, n, ng, ni, i % 97) EXCEPT !.tau = TausOn(d, ni, i + 2 * v)]
      y == [NewGll(d, n, ng, ni, (i + 1) % 97) EXCEPT !.tau = TausOn(d, ni, i + 2 * v)]
      p == [NewGll(d, 1, ng, ni, (i + 3) % 97) EXCEPT !.tau = TausOn(d, ni, i + 2 * v)]
      t2 == IF i % 5 = 2 THEN Close(EqualTaus(d2, ni), 2 + (i % 3)) ELSE TausOn(d2, ni, i \div 3) m == 1 + (i % 3) r == 1 + ((i \div 5) % 3)
      E1 == Elem(n, d, i \div 2) E2 == Elem(n + 1, d, i)
      W(t, k) == FNew(t) @@ k IN
  CASE c[4] = 0 ->
    << x, y, W("der1", [n |-> n, ng |-> ng, tau |-> x.tau, m |-> m]), W("der2", [d |-> d2, n |-> n, ng |-> ng, ni |-> ni, m |-> m]),
       W("der3", [a |-> 1]), FApp(3, 1), FApp(4, 2), FMul(5, 1), [op |-> "fcopy", a |-> 5, ca |-> "l"],
       FUpd(5, "dertau") @@ [tau |-> t2], FApp(5, 2), FApp(7, 2), FUpd(7, "derlen") @@ [len |-> Nth(TauPool, i)], FMul(3, 2),
       [op |-> "fcopy", a |-> 3, ca |-> "r"], FApp(9, 1), FUpd(9, "dertau") @@ [tau |-> t2] >>
    [] c[4] = 1 ->
    << x, y, W("tr", [a |-> 1]), FApp(3, 2), FMul(3, 2), FApp(3, 1), W("tr0", [n |-> n, ng |-> ng, ni |-> ni]), FApp(5, 1),
       FUpd(5, "tras") @@ [b |-> 2], FApp(5, 1), E1, FUpd(5, "trasf") @@ [b |-> 6], FApp(5, 1), E2, FUpd(5, "trasf") @@ [b |-> 7],
       FBin("sum", 3, 5), FBin("sub", 5, 3), [op |-> "fneg", a |-> 3], FApp(8, 1), [op |-> "fcopy", a |-> 5, ca |-> "l"],
       FUpd(5, "tras") @@ [b |-> 1], NewGll(d, n + 1, ng, ni, i % 97), FUpd(3, "tras") @@ [b |-> 12], FMul(5, 1), [op |-> "drop", a |-> 1], FApp(3, 2) >>
    [] c[4] = 2 ->
    << x, y, W("mat", [rows |-> r, cols |-> n, ng |-> ng, ni |-> ni]), FApp(3, 1),
       FUpd(3, "mats") @@ [M |-> [j \in 1..(ng * ni) |-> FMatLit(r, n, i + j)], how |-> Nth(<<"it", "fun">>, i)], FApp(3, 1), FMul(3, 2),
       [op |-> "fcopy", a |-> 3, ca |-> "l"],
       FUpd(3, "matc") @@ [M |-> FMatLit(r, n, i)], FApp(3, 1), FMul(3, 1),
       FUpd(3, "matc") @@ [M |-> FMatLit(r + 1, n, i)], FUpd(3, "matc") @@ [M |-> FMatLit(r, n + 1, i)],
       FUpd(3, "mats") @@ [M |-> [j \in 1..(ng * ni - 1) |-> FMatLit(r, n, i + j)], how |-> "it"],
       FUpd(3, "mats") @@ [M |-> [j \in 1..(ng * ni) |-> FMatLit(n, r + 1, i + j)], how |-> Nth(<<"fun", "it">>, i)],
       FUpd(3, "mats") @@ [M |-> [j \in 1..(ng * ni) |-> FMatLit(r, n, i + 3 * j)], how |-> Nth(<<"fun", "it">>, i)], FApp(3, 2) >>
    [] c[4] = 3 ->
    << x, p, W("cont1", [a |-> 1, m |-> m]), W("cont2", [ng |-> ng, tau |-> t2, n |-> n, m |-> m - 1]), FApp(3, 1), FApp(4, 1),
       FUpd(3, "conttau") @@ [tau |-> t2], FApp(3, 1),
       W("int1", [d |-> d2, ng |-> ng, ni |-> ni]), W("int2", [a |-> 2]), FApp(5, 2), FApp(6, 2), FUpd(6, "inttau") @@ [tau |-> t2], FApp(6, 2),
       FUpd(5, "inttau") @@ [tau |-> TausOn(d, ni + 1, i)], FUpd(5, "intdom") @@ [d |-> d, ng |-> ng + 1, ni |-> ni],
       FUpd(5, "inttau") @@ [tau |-> t2], FUpd(5, "inttau") @@ [tau |-> TausOn(d, IF ni = 1 THEN 2 ELSE ni - 1, i)],
       [op |-> "fcopy", a |-> 6, ca |-> "l"], FUpd(6, "intdom") @@ [d |-> d2, ng |-> ng, ni |-> ni], FApp(7, 2), FApp(6, 2) >>
    [] c[4] = 4 ->
    << x, y, W("der3", [a |-> 1]), W("tr", [a |-> 2]), FBin("comp", 4, 3), FApp(5, 1), FBin("sum", 4, 5), W("int2", [a |-> 1]),
       FBin("comp", 7, 6), FApp(8, 1), [op |-> "fscal", a |-> 8, c |-> Cf(i), ca |-> Cat2(v)], FApp(9, 1),
       [op |-> "fneg", a |-> 9], FBin("sub", 9, 10), W("cont1", [a |-> 1, m |-> 1]), FBin("comp", 12, 3), FApp(13, 2),
       [op |-> "fscal", a |-> 6, c |-> Cf(i \div 3), ca |-> "l"], FMul(6, 2), FBin("sub", 13, 13), FApp(10, 2) >>
    [] c[4] = 5 ->
    LET q == Elem(n, d, i \div 2) e == EqualTaus(d, ni)
        a1 == [x EXCEPT !.tau = e] a2 == [y EXCEPT !.tau = e] IN
    << q, [op |-> "sdnew", a |-> 1, ng |-> ng, ni |-> ni], a1, a2, [op |-> "sdval", a |-> 2, b |-> 3], [op |-> "sdval", a |-> 2, b |-> 4, df |-> 1],
       [op |-> "gllapp", a |-> 1, ng |-> ng, ni |-> ni, how |-> "app"], [op |-> "sdval", a |-> 2, b |-> 5],
       [op |-> "sdval", a |-> 2, b |-> 3], NewGll(d, n, ng + 1, ni, i % 97), [op |-> "sdval", a |-> 2, b |-> 6],
       NewGll(Shift(d, "0.5"), n, ng, ni, i % 97), [op |-> "sdval", a |-> 2, b |-> 7], [op |-> "drop", a |-> 1], [op |-> "sdval", a |-> 2, b |-> 4] >>
    [] OTHER ->
    LET q == Elem(n, d, i \div 2) e == EqualTaus(d, ni) IN
    << q, [x EXCEPT !.tau = e], [op |-> "wrap", t |-> "sd", a |-> 1, b |-> 2, c |-> y.c, m |-> 1, lo |-> "0", hi |-> "0"],
       y, [op |-> "wrap", t |-> "cont", a |-> 1, b |-> 3, c |-> x.c, m |-> m, lo |-> Nth(<<"0", "-0.5">>, i), hi |-> Nth(<<"0", "0.25">>, i \div 2)] >>

(* ---- optimal paths: << path, intervals, components, status, variant >> *)
OptCases == { << f, ni, n, s, v >> : f \in 1..7, ni \in 1..4, n \in 1..2, s \in 1..3, v \in 0..3 }
OptSession(c) ==
  LET fn == <<"sobolev", "broken", "acc", "jerk", "snap", "rojas", "crackle">>[c[1]] i == H(c) b == Nth(OptBases, c[5] + c[3])
      st == << 0, 1, -1 >>[c[4]] Step(s, j) == OptStep(1, fn, b, WeightsFor(b, j), Nth(<<"3", "1.5", "0.75">>, j), Nth(<<"1", "0.75", "1.25">>, j), c[3], c[2], s, j) IN
  << [op |-> "optnew"], Step(st, i), OptSet(1, i), OptSet(1, i + 1 + (i % 4)), Step(0, i + 1) >>

(* ---- shapes larger than usual: << kind, variant >>.  Many intervals,       *)
(* components, basis functions, terms; high orders                           *)
BigPts == [k \in 1..37 |-> RStr(RSub(RDiv(R((k * 17) % 64), R(32)), R("0.5")))]
BigSpline(i) ==
  LET ni == Nth(<<7, 9, 12, 17, 6>>, i) n == Nth(<<4, 1, 6, 2, 5, 3, 7>>, i \div 2)
      b == Nth(<<BLeg(4), BLeg(6), BGll(6), B01("0.5"), BLeg(3), BGll(4), BLeg(9), BLag(<<"-1", "0.25", "1">>)>>, i \div 3)
  IN << b, ni, n, Nth(<< Doms[1], Doms[2], Doms[3] >>, i) >>
BSplCases == { << 1, v >> : v \in 0..39 }
BSplSession(c) ==
  LET q == BigSpline(c[2]) b == q[1] ni == q[2] n == q[3] d == q[4] i == H(c) x == SplineOn(d, n, b, ni, i)
      y == [x EXCEPT !.c = Cfs(Len(x.c), i + 2)]
      far == [x EXCEPT !.c[Len(x.c)] = "0.0625"] IN     \* differs in the last coefficient only
  << NewGs(x, i), NewGs(y, i + 1), NewGs(far, i), [op |-> "gseq", a |-> 1, b |-> 3], [op |-> "gseq", a |-> 1, b |-> 2],
     [op |-> "gsbin", f |-> Nth(<<"sum", "sub">>, i), a |-> 1, b |-> 2, ca |-> "l", cb |-> Cat2(i)],
     [op |-> "deriv", a |-> 1, m |-> 1, how |-> Nth(<<"deriv", "derivate">>, i)],
     [op |-> "deriv", a |-> 1, m |-> 2 + (i % 5), how |-> "base"],
     [op |-> "gsscale", a |-> 1, T |-> Nth(<<"2.5", "0.75", "7">>, i)], [op |-> "gsaeq", f |-> "sum", a |-> 3, b |-> 1],
     [op |-> "gsaeq", f |-> "sub", a |-> 4, b |-> 3] >>
  \o (IF Moving(x) THEN << [op |-> "gsbound", a |-> 1, v |-> Bnds(n, i, "vec"), ac |-> IF i % 2 = 0 THEN <<>> ELSE Bnds(n, i + 1, "vec"), dt |-> DtFor(d, i), mode |-> "vec"] >> ELSE <<>>)
BIntCases == { << 1, v >> : v \in 0..23 } \cup { << 2, v >> : v \in 0..17 }
BIntSession(c) ==
  LET v == c[2] i == H(c) b == Nth(<<BLeg(4), BLeg(6), BGll(4), B01("0.5"), BLeg(2), BGll(6), BLeg(8)>>, v)
      ni == Nth(<<6, 5, 8, 11, 7>>, v) n == Nth(<<5, 2, 4, 1>>, v \div 2)
      t1 == TauSeq(ni, i) t2 == TauSeq(ni, i + 1) w1 == WpOf(ni, n, i) w2 == WpOf(ni, n, i + 3) nn == IF b.dim > 4 \/ ni > 7 THEN 1 ELSE 2 IN
  IF c[1] = 1
  THEN << NewBasis(b, i), [op |-> "inew", a |-> 1, n |-> n, ni |-> ni], [op |-> "isolve", a |-> 2, taus |-> t1, wp |-> w1],
          [op |-> "iinterp", a |-> 2, taus |-> t2, wp |-> w2], [op |-> "isolve", a |-> 2, taus |-> t1, wp |-> w1],
          [op |-> "icoefd", a |-> 2, taus |-> t2, wp |-> w1, i |-> ni - 1], [op |-> "icoefd", a |-> 2, taus |-> t1, wp |-> w1, i |-> i % ni] >>
  ELSE << NewBasis(b, i), [op |-> "snew", a |-> 1, wp |-> WpOf(ni, nn, i), w |-> WeightsFor(b, i)],
          [op |-> "sval", a |-> 2, taus |-> t1], [op |-> "sgrad", a |-> 2, taus |-> t2], [op |-> "sval", a |-> 2, taus |-> t1] >>
BBasCases == { << b, g >> : b \in 1..8, g \in 0..3 } \cup { << b, g >> : b \in 1..6, g \in 4..7 }
HighSession(c) ==       \* high dimensions, orders up to beyond the dimension
  LET b == << BLeg(13), BLeg(16), BLeg(20), BLeg(12), BGll(10), BGll(13) >>[c[1]] i == H(c) tau == Nth(<<"2", "1.5", "3">>, i)
      top == IF b.name = "lagrange" THEN b.dim - 4 ELSE b.dim + 2 m(k) == IF c[2] = 4 THEN top - k ELSE IF c[2] = 5 THEN k ELSE 6 + k IN
  << NewBasis(b, i), NewBasis(b, i + 1) >> \o
  (IF c[2] = 7 THEN [k \in 1..3 |-> [op |-> "bder", a |-> 1 + (k % 2), m |-> IF b.name = "lagrange" THEN k ELSE top - 2 * k]]
                    \o (IF b.name = "lagrange" THEN <<>> ELSE << [op |-> "bgram", a |-> 1, tau |-> tau, m |-> 3 + (i % 5)], [op |-> "bgramtau", a |-> 2, tau |-> tau, m |-> 3 + (i % 4)] >>)
   ELSE [k \in 1..6 |-> [op |-> "beval", a |-> 1 + (k % 2), s |-> Nth(WinPts, i + k), tau |-> tau, m |-> IF m(k) > top THEN top ELSE m(k)]]
        \o [k \in 1..4 |-> [op |-> "bevaltau", a |-> 1 + (k % 2), s |-> Nth(WinPts, i + k), tau |-> tau, m |-> IF m(k) > top THEN top ELSE m(k)]])
BBasSession(c) ==
  IF c[2] > 3 THEN HighSession(c) ELSE
  LET b == << BLeg(9), BLeg(14), BGll(8), BGll(7), BLag(<<"0.75", "-1", "0", "0.5", "-0.25", "1", "-0.625">>), B01("0.5"), BLeg(17), BLeg(5) >>[c[1]]
      i == H(c) top == IF b.name = "lagrange" THEN 5 ELSE 11 ni == 5 + (i % 3) n == 3 + (i % 3) tau == Nth(TauPool, i) IN
  << NewBasis(b, i), NewBasis(b, i + 1) >> \o
  (CASE c[2] = 0 -> [k \in 1..12 |-> [op |-> "beval", a |-> 1 + (k % 2), s |-> Nth(WinPts, i + k), tau |-> tau, m |-> (k * 5) % top]]
     [] c[2] = 1 -> [k \in 1..12 |-> [op |-> "bevaltau", a |-> 1 + (k % 2), s |-> Nth(WinPts, i + k), tau |-> tau, m |-> (k * 5) % top]]
     [] c[2] = 2 -> [k \in 1..5 |-> [op |-> "bder", a |-> 1 + (k % 2), m |-> (k * 5 + i) % (IF b.name = "lagrange" THEN 5 ELSE 9)]]
                    \o << [op |-> "bgsd", a |-> 1, ni |-> 5, n |-> 3, m |-> 1 + (i % 3), taus |-> TauSeq(5, i)] >>
     [] OTHER -> << [op |-> "bcont", a |-> 1, ni |-> ni, n |-> n, m |-> i % 4, taus |-> TauSeq(ni, i)],
                    [op |-> "bcont", a |-> 1, ni |-> 3, n |-> 4, m |-> (i \div 3) % 4, taus |-> TauSeq(3, i + 1)],
                    [op |-> "bcont", a |-> 2, ni |-> ni, n |-> n, m |-> 1 + (i % 2), taus |-> TauSeq(ni, i + 2)] >>
                 \o (IF b.name = "basis0101" THEN <<>> ELSE
                     << [op |-> "bgram", a |-> 1, tau |-> tau, m |-> i % 5], [op |-> "bgramtau", a |-> 2, tau |-> tau, m |-> (i \div 5) % 5] >>))
BGllCases == { << ng, ni, n, g >> : ng \in {6, 8, 11}, ni \in {4, 7}, n \in {1, 2, 5}, g \in 0..2 }
BGllSession(c) == GllSession(<< c[1], c[2], c[3], c[4], 1 + (c[1] % 2) >>)
(* long expressions: << operation, variant >> *)
LongOps == << "sum", "mul", "cat", "comp", "dot" >>
LongExp(f, N, i) ==
  LET n == IF f = "sum" /\ i % 2 = 0 THEN 3 ELSE 1
      pc(j) == IF f = "cat" THEN Elem(n, << ToString(j - 1), ToString(j) >>, (i + j * j) % 5)
               ELSE IF f = "comp" THEN (CASE (i + j) % 4 = 0 -> SNew("sin", ESin(<<"-9", "9">>))
                                          [] (i + j) % 4 = 1 -> SNew("poly", EPoly(<<"-9", "9">>, <<"0.5", "0.25">>))
                                          [] (i + j) % 4 = 2 -> SNew("dil", EDil(<<"-9", "9">>, Nth(<<"0.75", "-0.5", "1.25">>, i)))
                                          [] OTHER -> SNew("cos", ECos(<<"-9", "9">>)))
               ELSE Elem(n, Doms[1], (IF f = "mul" THEN << 1, 3, 4, 0, 5 >>[1 + ((i + j) % 5)] ELSE i + j * j))
      inplace == i % 3 = 0 /\ f \in {"sum", "mul"}
      RECURSIVE go(_, _, _, _)      \* acc: the result so far, of k objects
      go(j, steps, acc, k) ==
        IF j > N THEN << steps, acc, k >>
        ELSE IF inplace
        THEN go(j + 1, steps \o << pc(j), [op |-> IF f = "sum" THEN "addeq" ELSE "muleq", a |-> acc, b |-> k + 1, cb |-> Cat2(i + j)] >>, acc, k + 1)
        ELSE go(j + 1, steps \o << pc(j), IF f \in {"sum", "mul"} /\ i % 5 = 1 THEN SBin(f, k + 1, acc, Cat2(i + j), Cat2((i \div 2) + j))
                                          ELSE SBin(f, acc, k + 1, Cat2((i \div 2) + j), Cat2(i + j)) >>, k + 2, k + 2)
  IN go(2, << pc(1), [op |-> "copy", a |-> 1, how |-> "toexpr"] >>, 2, 2)
BExpCases == { << f, v >> : f \in 1..4, v \in 0..11 } \cup { << 6, v >> : v \in 0..17 }
BExpSession(c) ==
  IF c[1] = 6
  THEN LET N == Nth(<< 21, 14, 9, 17, 6, 12 >>, c[2]) M == << N - 1, 7 + (c[2] % 3), N + 1 >>[1 + (c[2] \div 6)] h == Nth(<<"derivate", "deriv", "base">>, c[2]) IN
       << SNew("poly", EPoly(Doms[1], Cfs(N, c[2]))), [op |-> "deriv", a |-> 1, m |-> M, how |-> h], [op |-> "deriv", a |-> 1, m |-> N \div 2, how |-> h],
          [op |-> "copy", a |-> 1, how |-> "toexpr"], [op |-> "deriv", a |-> 4, m |-> 8, how |-> h], [op |-> "deriv", a |-> 3, m |-> N - 1 - (N \div 2), how |-> h],
          SNew(Nth(<<"sin", "cos", "exp">>, c[2]), Nth(<< ESin(Doms[1]), ECos(Doms[1]), EExp(Doms[1]) >>, c[2])), [op |-> "deriv", a |-> 7, m |-> 6 + (c[2] % 9), how |-> h],
          SBin(Nth(<<"sum", "sub">>, c[2]), 7, 1, "l", "l"), [op |-> "deriv", a |-> 9, m |-> 6 + (c[2] % 4), how |-> h] >>
  ELSE
  LET f == LongOps[c[1]] N == Nth(<< 7, 9, 12 >>, c[2]) r == LongExp(f, IF f \in {"mul", "comp"} THEN N - 3 ELSE N, H(c)) IN
  r[1] \o << [op |-> "deriv", a |-> r[2], m |-> 1 + (IF f = "mul" THEN 0 ELSE c[2] % 2), how |-> Nth(<<"derivate", "deriv", "base">>, c[2])],
             [op |-> "copy", a |-> r[2], how |-> Nth(<<"clone", "copy", "move">>, c[2])],
             [op |-> "neg", a |-> r[3] + 2, ca |-> Cat2(c[2])] >>
BFunCases == { << g, v >> : g \in 0..5, v \in 0..3 }
BFunSession(c) == LET q == << << 8, 3, 1 >>, << 3, 6, 2 >>, << 5, 2, 4 >>, << 2, 9, 2 >> >>[c[2] + 1] IN FunSession(<< q[1], q[2], q[3], c[1], c[2] % 2 >>)
BOptCases == { << f, v >> : f \in 1..7, v \in 0..2 }
BOptSession(c) ==
  LET fn == <<"sobolev", "broken", "acc", "jerk", "snap", "rojas", "crackle">>[c[1]] ni == << 6, 8, 11 >>[c[2] + 1] b == Nth(OptBases, c[2]) IN
  << [op |-> "optnew"], OptStep(1, fn, b, WeightsFor(b, c[2]), "5", "0.75", IF ni = 6 THEN 4 ELSE 1, IF fn \in {"crackle", "snap"} THEN 5 ELSE ni, 0, H(c)) >>

(* ---- magnitudes: domains far from the origin, very short or long; tiny and *)
(* huge coefficients; extreme interval lengths and parameters                 *)
(* << what, which magnitude, which operands >>                                *)
MagDoms == << <<"100", "101.5">>, <<"-1000", "-998">>, <<"0.5", "0.5009765625">>, <<"0", "0.0009765625">>, <<"0", "512">>, <<"-0.5", "0">> >>
MagPtsOn(d) == LET L == RSub(R(d[2]), R(d[1])) f == << "0.625", "0", "1", "0.25", "0.5", "0.25", "0.8125", "0.375", "0.9990234375", "0.0625", "1.25", "1.625" >> IN
               [k \in 1..Len(f) |-> RStr(RAdd(R(d[1]), RMul(L, R(f[k]))))]
Times(cs, k) == [j \in 1..Len(cs) |-> Rel(cs[j], k)]
MagTaus == << "0.001", "0.02", "50", "0.00002", "1000", "9.75" >>
MagBases == << BLeg(4), BLeg(6), BGll(4), BGll(6), BLag(<<"-0.75", "-0.25", "0.5", "1">>), BLeg(9) >>
MagCases == { << q, v, j >> : q \in 1..3, v \in 1..6, j \in 0..11 } \cup { << 4, v, j >> : v \in 1..6, j \in 0..5 }
            \cup { << 5, v, j >> : v \in 1..9, j \in 0..8 } \cup { << 6, v, j >> : v \in 1..6, j \in 0..5 }
            \cup { << 7, v, j >> : v \in 1..6, j \in 0..3 } \cup { << 8, v, j >> : v \in 1..6, j \in 0..5 }
            \cup { << 9, v, j >> : v \in 1..3, j \in 0..5 } \cup { << 10, v, j >> : v \in 1..6, j \in 0..14 }
MagParts == [mag |-> 1..10, magf |-> {1, 2}, magd |-> {10}, mags |-> {3}, magb |-> {4, 9}, magi |-> {5, 6}, magq |-> {8}, magg |-> {7}]
MagDom(c) == IF c[1] \in {2, 4, 5, 6, 9} THEN Doms[1] ELSE MagDoms[c[2]]
MagSession(c) ==
  LET q == c[1] v == c[2] j == c[3] i == H(c) d == MagDom(c) n == 1 + (i % 2)
      big == <<"1e7", "1e-9", "1e12", "1e-13", "1e5", "1e-4">>[v] inv == <<"1e-7", "1e9", "1e-12", "1e13", "1e-5", "1e4">>[v] IN
  CASE q = 1 ->      \* expressions on such a domain; no exponentials where they overflow
    LET el(k) == IF k % 3 = 0 THEN SNew("sin", ESin(d)) ELSE IF k % 3 = 1 THEN SNew("cos", ECos(d)) ELSE SNew("dil", EDil(d, Cf(k)))
        sp(k) == SNew("gs", SplineOn(d, n, IF v = 5 THEN Nth(MagBases, k) ELSE Nth(BasisPool, k), 1 + (k % 3), k))
        e == Shift(d, RStr(RSub(R(d[2]), R(d[1]))))
        L == RSub(R(d[2]), R(d[1]))
        off == << d[1], RStr(RAdd(R(d[2]), RMul(L, R(Nth(<<"0.25", "0.0078125">>, i))))) >> IN
    << el(j), sp(i), el(j + 1), SBin("mul", 1, 2, Cat2(j), Cat2(j \div 2)) >>
    \o (IF j % 4 = 0 THEN << SBin(Nth(<<"sum", "sub">>, i), 4, 4, "l", "l"), [op |-> "deriv", a |-> 5, m |-> 1, how |-> "derivate"], SNew("dil", EDil(e, "0.5")),
                             SBin("cat", 3, 7, "l", "l"), [op |-> "deriv", a |-> 8, m |-> 1, how |-> "base"] >>
        ELSE IF j % 4 = 1 THEN << SNew("sin", ESin(off)), SBin("mul", 3, 5, "l", "l"), [op |-> "copy", a |-> 3, how |-> "toexpr"], [op |-> "muleq", a |-> 6, b |-> 3, cb |-> "l"],
                                  [op |-> "addeq", a |-> 6, b |-> 5, cb |-> "r"] >>
        ELSE IF j % 4 = 2 THEN << SBin("dot", 4, 4, "l", "l"), SNew("sin", ESin(Shift(off, RStr(RSub(R(off[2]), R(off[1])))))), SBin("cat", 3, 6, "l", "r"), [op |-> "neg", a |-> 4, ca |-> "r"] >>
        ELSE << SBin("comp", 3, 3, "l", "l"), [op |-> "deriv", a |-> 5, m |-> 2, how |-> "deriv"], [op |-> "scal", c |-> Cf(i), a |-> 5, ca |-> "l"] >>)
    [] q = 2 ->      \* tiny and huge factors that cancel
    LET small == Nth(<< SNew("poly", EPoly(d, Times(Cfs(3, i), big))), SNew("dil", EDil(d, big)), SNew("gs", [SplineOn(d, 1, Nth(BasisPool, i), 2, i) EXCEPT !.c = Times(@, big)]),
                        SNew("const1", EConst(d, << big >>)) >>, j)
        large == Nth(<< SNew("poly", EPoly(d, Times(Cfs(2, i + 1), inv))), SNew("gs", [SplineOn(d, n, Nth(BasisPool, j), 2, i) EXCEPT !.c = Times(@, inv)]),
                        SNew("constv", EConst(d, Times(Cfs(2, i), inv))) >>, j \div 4) IN
    << small, large, SBin("mul", 1, 2, "l", "l"), SBin("mul", 2, 1, "l", "l"), [op |-> "scal", c |-> inv, a |-> 1, ca |-> "l"], SNew("sin", ESin(d)),
       SBin("mul", 1, 6, "l", "l"), SBin("mul", 7, 2, Cat2(j), "l"), [op |-> "deriv", a |-> 3, m |-> 1, how |-> "derivate"], [op |-> "neg", a |-> 5, ca |-> "l"],
       [op |-> "copy", a |-> 1, how |-> "toexpr"], [op |-> "muleq", a |-> 11, b |-> 6, cb |-> "l"],
       IF (j \div 4) % 3 = 0 THEN [op |-> "muleq", a |-> 11, b |-> 2, cb |-> "l"] ELSE [op |-> "scal", c |-> inv, a |-> 11, ca |-> "l"] >>
    [] q = 3 ->      \* splines
    LET b == IF j < 6 THEN MagBases[j + 1] ELSE Nth(BasisPool, i) ni == 1 + (i % 4)
        b1 == IF b.name = "basis0101" /\ v = 5 THEN BLeg(5) ELSE b
        x == SplineOn(d, n, b1, ni, i) y == [x EXCEPT !.c = Cfs(Len(x.c), i + 2)] IN
    << NewGs(x, 0), NewGs(y, 1), NewGs(x, 1), [op |-> "gseq", a |-> 1, b |-> 3], [op |-> "gseq", a |-> 1, b |-> 2],
       [op |-> "deriv", a |-> 1, m |-> 1, how |-> "derivate"], [op |-> "deriv", a |-> 1, m |-> 2, how |-> "deriv"],
       [op |-> "gsbin", f |-> Nth(<<"sum", "sub">>, i), a |-> 1, b |-> 2, ca |-> "l", cb |-> Cat2(i)],
       [op |-> "gsaeq", f |-> Nth(<<"sub", "sum">>, i), a |-> 3, b |-> 1] >>
    \o (IF b1.name = "basis0101" THEN <<>> ELSE << [op |-> "gsscale", a |-> 1, T |-> Nth(<<"2.5", "0.75", "400", "0.002">>, i)] >>)
    [] q = 4 ->      \* bases on extreme intervals
    LET b == MagBases[j + 1] t == MagTaus[v] t3 == << t, "1", t >> IN
    << NewBasis(b, i) >>
    \o [k \in 1..6 |-> [op |-> "beval", a |-> 1, s |-> WinPts[((k * 2 + i) % 12) + 1], tau |-> t, m |-> k - 1]]
    \o [k \in 1..4 |-> [op |-> "bevaltau", a |-> 1, s |-> WinPts[((k * 2 + i) % 12) + 1], tau |-> t, m |-> k - 1]]
    \o [k \in 1..3 |-> [op |-> "bgram", a |-> 1, tau |-> t, m |-> k - 1]] \o [k \in 1..3 |-> [op |-> "bgramtau", a |-> 1, tau |-> t, m |-> k - 1]]
    \o << [op |-> "bgsd", a |-> 1, ni |-> 3, n |-> n, m |-> 1 + (i % 2), taus |-> t3], [op |-> "bcont", a |-> 1, ni |-> 3, n |-> n, m |-> 2, taus |-> t3] >>
    [] q = 5 ->      \* interpolation: all intervals short or long; very different ones
    LET b == EvenBases[j + 1] ni == 2 + (i % 3)
        k == IF v > 6 THEN "1" ELSE IF b.name = "basis0101" THEN <<"0.5", "2", "1", "1", "4", "0.25">>[v] ELSE <<"0.001", "40", "1", "1", "0.0625", "300">>[v]
        t1 == [z \in 1..ni |-> Rel(TauSeq(ni, i)[z], k)]
        t2 == IF v = 3 THEN [z \in 1..ni |-> IF z % 2 = 1 THEN "0.125" ELSE "4"] ELSE t1
        w0 == WpOf(ni, n, i)
        w == CASE v = 4 -> [r \in 1..(ni + 1) |-> Times(w0[r], "1e6")] [] v = 7 -> [r \in 1..(ni + 1) |-> Times(w0[r], "1e-10")]
               [] v = 8 -> [r \in 1..(ni + 1) |-> IF j % 2 = 0 THEN w0[1] ELSE [z \in 1..n |-> "0"]]       \* at rest
               [] v = 9 -> [r \in 1..(ni + 1) |-> IF r = 1 + (j % (ni + 1)) THEN [z \in 1..n |-> IF z = 1 THEN "0" ELSE w0[1][z]] ELSE w0[1 + (r \div 2)]]
               [] OTHER -> w0 IN
    << NewBasis(b, i), [op |-> "inew", a |-> 1, n |-> n, ni |-> ni], [op |-> "isolve", a |-> 2, taus |-> t1, wp |-> w],
       [op |-> "iinterp", a |-> 2, taus |-> t2, wp |-> w], [op |-> "finterp", a |-> 1, taus |-> t1, wp |-> w],
       [op |-> "icoefd", a |-> 2, taus |-> t1, wp |-> w, i |-> i % ni] >>
    [] q = 6 ->      \* the Sobolev functional there
    LET b == Nth(<< BLeg(4), BGll(4), B01("0.5"), BLeg(6), BGll(6), BLeg(2) >>, j) ni == 1 + (i % 3)
        k == IF b.name = "basis0101" THEN <<"0.5", "2", "1", "1", "4", "0.25">>[v] ELSE <<"0.03125", "40", "1", "1", "0.0625", "300">>[v]
        t1 == [z \in 1..ni |-> Rel(TauSeq(ni, i)[z], k)]
        w == IF v = 4 THEN [r \in 1..(ni + 1) |-> Times(WpOf(ni, n, i)[r], "1000")] ELSE WpOf(ni, n, i) IN
    << NewBasis(b, i), [op |-> "snew", a |-> 1, wp |-> w, w |-> WeightsFor(b, i)], [op |-> "sval", a |-> 2, taus |-> t1], [op |-> "sgrad", a |-> 2, taus |-> t1],
       [op |-> "sval", a |-> 2, taus |-> TauSeq(ni, i)], [op |-> "sgrad", a |-> 2, taus |-> t1] >>
    [] q = 7 ->      \* collocation splines
    LET ng == 3 + (j % 3) ni == 1 + (i % 3) x == [NewGll(d, n, ng, ni, i) EXCEPT !.tau = TausOn(d, ni, 1)] y == [NewGll(d, n, ng, ni, i + 1) EXCEPT !.tau = TausOn(d, ni, 1)]
        p1 == [PosGll(d, ng, ni, i) EXCEPT !.tau = TausOn(d, ni, 1)] g(f, a, b, ca, cb) == [op |-> "gllbin", f |-> f, a |-> a, b |-> b, ca |-> ca, cb |-> cb] IN
    << x, y, p1, g("mul", 1, 3, "l", "l"), g("sum", 1, 2, "l", "l"), [op |-> "gllnorm", a |-> 1], [op |-> "gllinv", c |-> "2", a |-> 3, ca |-> "l"],
       [op |-> "gllid", d |-> d, ng |-> ng, ni |-> ni], SNew("dil", EDil(d, "0.5")), [op |-> "gllapp", a |-> 9, ng |-> ng, ni |-> ni, how |-> Nth(<<"app", "ctor">>, i)],
       [op |-> "deriv", a |-> 1, m |-> 1, how |-> "derivate"], Elem(n, Doms[1], 3 * i), [op |-> "gllasgf", a |-> 2, b |-> 12], [op |-> "gllasg", a |-> 2, b |-> 1, cb |-> "l"] >>
    [] q = 8 ->      \* quadrature
    LET ng == 2 + (j % 4) * 2 ni == 1 + (i % 3) IN
    << [op |-> "qcomp", t0 |-> d[1], n |-> ng, taus |-> TausOn(d, ni, i)], [op |-> "qdom", d |-> d, n |-> ng, ni |-> ni],
       SNew("gs", SplineOn(d, 2, BLeg(IF ng = 2 THEN 1 ELSE 2), 1, i)), SNew("gs", SplineOn(d, 2, BLeg(1), 1, i + 1)), SNew("gs", SplineOn(d, 1, BLeg(2), 1, i)),
       [op |-> "integ", a |-> 3, ng |-> ng, ni |-> ni],
       [op |-> "ip", a |-> 1, b |-> 2, fn |-> "l2", w |-> Plain(0), ng |-> ng, ni |-> ni], [op |-> "ip", a |-> 1, b |-> 1, fn |-> "sobn", w |-> Plain(1), ng |-> ng + 2, ni |-> ni],
       [op |-> "ip", a |-> 2, b |-> 1, fn |-> "semi", w |-> Nth(SemiW, i), ng |-> ng + 2, ni |-> ni] >>
    [] q = 10 ->     \* domains that differ by little
    LET e0 == Nth(<<"1e-2", "1e-3", "1e-4", "1e-5", "1e-6", "1e-7", "-1e-3", "-1e-4", "-1e-5", "-1e-6", "1e-8", "-1e-8", "0.03", "1e-12", "-1e-12">>, j + 3 * (v - 1))
        e == IF v \in {3, 4} /\ e0 = "-1e-3" THEN "-3e-4" ELSE e0
        off == IF i % 2 = 0 THEN << d[1], RStr(RAdd(R(d[2]), R(e))) >> ELSE << RStr(RSub(R(d[1]), RAbs(R(e)))), d[2] >>
        nx == << RStr(RAdd(R(d[2]), R(e))), RStr(RAdd(R(d[2]), R("2"))) >> IN
    << SNew("sin", ESin(d)), SNew("cos", ECos(off)), SNew("dil", EDil(d, "0.5")), SBin("sum", 1, 3, "l", "l"), SNew("cos", ECos(nx)), SBin("cat", 4, 5, "l", "l"),
       SBin("cat", 1, 5, "l", "l"), SBin("sub", 4, 2, "l", "l"), SBin("mul", 2, 1, "l", "l"), SBin("dot", 1, 2, "l", "l"), SBin("dot", 4, 2, "l", "l"), SBin("sum", 2, 4, "l", "l"),
       [op |-> "addeq", a |-> 4, b |-> 2, cb |-> "l"], [op |-> "muleq", a |-> 4, b |-> 2, cb |-> "l"] >>
    [] OTHER ->      \* the mixed basis with parameters near its ends
    LET al == <<"0.0078125", "0.99", "0.999">>[v] b == B01(al) t == Nth(<< "1", "0.25", "2", "0.5", "3.5", "1.25" >>, j) IN
    << NewBasis(b, i) >>
    \o [k \in 1..5 |-> [op |-> "beval", a |-> 1, s |-> WinPts[((k * 2 + i) % 12) + 1], tau |-> t, m |-> k - 1]]
    \o [k \in 1..4 |-> [op |-> "bevaltau", a |-> 1, s |-> WinPts[((k * 2 + i) % 12) + 1], tau |-> t, m |-> k - 1]]
    \o [k \in 1..3 |-> [op |-> "bder", a |-> 1, m |-> k]] \o << [op |-> "bgram", a |-> 1, tau |-> t, m |-> 1], [op |-> "bgram", a |-> 1, tau |-> t, m |-> 3] >>

(* ---- questions that are almost the same, asked of one object, and again of *)
(* another: << what is asked, difference, basis >>                            *)
NearBases == << BLeg(4), BGll(4), B01("0.5"), BLeg(6) >>
NearCases == { << q, v, b >> : q \in 0..8, v \in 0..9, b \in 1..4 }
NearSession(c) ==
  LET q == c[1] v == c[2] b == NearBases[c[3]] i == H(c) ni == IF q >= 6 THEN 2 ELSE 2 + (i % 2) n == IF q >= 7 THEN 1 ELSE 1 + (i % 2)
      t == Nth(<< TauSeq(ni, 1), <<"0.5", "2", "0.75">>, <<"1", "1", "1">> >>, IF v \in {0, 1, 8} THEN 1 ELSE i) t1 == SubSeq(t, 1, ni) t2 == Close(t1, v)
      w1 == WpOf(ni, n, i) w2 == CloseWp(w1, v) m == 1 + (i % 3) tau == Nth(<<"0.75", "2", "1.25">>, i) tau2 == Close(<< tau, "1" >>, v)[1]
      sp == Nth(<<"0.25", "-0.5", "0.8125">>, i) s2 == Nth(<< "-0.25", "0.2501", "0.250001", "0.5" >>, v)
      (* the first question, the second, the first again; then of the other object, in the other order *)
      five(f1(_), f2(_)) == << f1(1), f2(1), f1(1), f2(2), f1(2), f2(2) >>
      five2(f1(_), f2(_)) == << f1(3), f2(3), f1(3), f2(4), f1(4), f2(4) >>
      I2 == << NewBasis(b, i), NewBasis(b, i + 1), [op |-> "inew", a |-> 1, n |-> n, ni |-> ni], [op |-> "inew", a |-> 2, n |-> n, ni |-> ni] >>
      wgt == WeightsFor(b, i)
      S2 == << NewBasis(b, i), NewBasis(b, i + 1), [op |-> "snew", a |-> 1, wp |-> w1, w |-> wgt], [op |-> "snew", a |-> 2, wp |-> w1, w |-> wgt] >> IN
  CASE q = 0 -> << NewBasis(b, i), NewBasis(b, i + 1) >>
                \o five(LAMBDA a : [op |-> "bgsd", a |-> a, ni |-> ni, n |-> n, m |-> m, taus |-> t1],
                        LAMBDA a : [op |-> "bgsd", a |-> a, ni |-> ni, n |-> n, m |-> m, taus |-> t2])
    [] q = 1 -> << NewBasis(b, i), NewBasis(b, i + 1) >>
                \o five(LAMBDA a : [op |-> "bcont", a |-> a, ni |-> ni, n |-> n, m |-> m, taus |-> t1],
                        LAMBDA a : [op |-> "bcont", a |-> a, ni |-> ni, n |-> n, m |-> m, taus |-> t2])
    [] q = 2 -> << NewBasis(b, i), NewBasis(b, i + 1) >>
                \o five(LAMBDA a : [op |-> "bgram", a |-> a, tau |-> tau, m |-> m], LAMBDA a : [op |-> "bgram", a |-> a, tau |-> tau2, m |-> m])
                \o five(LAMBDA a : [op |-> "bgramtau", a |-> a, tau |-> tau, m |-> 1 + 2 * (i % 2)],
                        LAMBDA a : [op |-> "bgramtau", a |-> a, tau |-> tau2, m |-> 1 + 2 * (i % 2)])
    [] q = 3 -> << NewBasis(b, i), NewBasis(b, i + 1) >>
                \o five(LAMBDA a : [op |-> "beval", a |-> a, s |-> sp, tau |-> tau, m |-> m], LAMBDA a : [op |-> "beval", a |-> a, s |-> sp, tau |-> tau2, m |-> m])
                \o five(LAMBDA a : [op |-> "beval", a |-> a, s |-> sp, tau |-> tau, m |-> m], LAMBDA a : [op |-> "beval", a |-> a, s |-> s2, tau |-> tau, m |-> m])
                \o five(LAMBDA a : [op |-> "bevaltau", a |-> a, s |-> sp, tau |-> tau, m |-> m - 1],
                        LAMBDA a : [op |-> "bevaltau", a |-> a, s |-> s2, tau |-> tau2, m |-> m - 1])
    [] q = 4 -> I2 \o five2(LAMBDA a : [op |-> "isolve", a |-> a, taus |-> t1, wp |-> w1], LAMBDA a : [op |-> "isolve", a |-> a, taus |-> t2, wp |-> w1])
    [] q = 5 -> I2 \o five2(LAMBDA a : [op |-> "isolve", a |-> a, taus |-> t1, wp |-> w1], LAMBDA a : [op |-> "iinterp", a |-> a, taus |-> t1, wp |-> w2])
    [] q = 6 -> I2 \o five2(LAMBDA a : [op |-> "icoefd", a |-> a, taus |-> t1, wp |-> w1, i |-> 0],
                           LAMBDA a : [op |-> "icoefd", a |-> a, taus |-> t2, wp |-> IF i % 2 = 0 THEN w1 ELSE w2, i |-> (i \div 2) % 2])
    [] q = 7 -> S2 \o five2(LAMBDA a : [op |-> "sval", a |-> a, taus |-> t1], LAMBDA a : [op |-> "sval", a |-> a, taus |-> t2])
    [] OTHER -> S2 \o five2(LAMBDA a : [op |-> "sval", a |-> a, taus |-> t1], LAMBDA a : [op |-> "sgrad", a |-> a, taus |-> t2])

(* ---- the families *)
Cases ==
  CASE Profile = "alg" -> AlgCases [] Profile = "self" -> SelfCases [] Profile = "un" -> UnCases
    [] Profile = "dom" -> DomCases [] Profile = "cat" -> CatCases [] Profile = "comp" -> CatCases
    [] Profile = "der" -> DerCases [] Profile = "elemder" -> ElemDerCases
    [] Profile = "spl" -> SplCases [] Profile = "var" -> VarCases [] Profile = "scale" -> ScaleCases
    [] Profile = "bas" -> BasCases [] Profile = "baseq" -> BasEqCases
    [] Profile = "int" -> IntCases [] Profile = "sob" -> SobCases
    [] Profile = "quad" -> QuadCases [] Profile = "gll" -> GllCases
    [] Profile = "py" -> PyCases [] Profile = "ser" -> SerCases [] Profile = "fun" -> FunCases [] Profile = "opt" -> OptCases
    [] Profile = "bspl" -> BSplCases [] Profile = "bint" -> BIntCases [] Profile = "bbas" -> BBasCases [] Profile = "bgll" -> BGllCases
    [] Profile \in DOMAIN MagParts -> { c \in MagCases : c[1] \in MagParts[Profile] } [] Profile = "near" -> NearCases [] Profile = "bexp" -> BExpCases [] Profile = "bfun" -> BFunCases [] Profile = "bopt" -> BOptCases
Session(c) ==
  CASE Profile = "alg" -> AlgSession(c) [] Profile = "self" -> SelfSession(c) [] Profile = "un" -> UnSession(c)
    [] Profile = "dom" -> DomSession(c) [] Profile = "cat" -> ChainSession("cat", c) [] Profile = "comp" -> ChainSession("comp", c)
    [] Profile = "der" -> DerSession(c) [] Profile = "elemder" -> ElemDerSession(c)
    [] Profile = "spl" -> SplSession(c) [] Profile = "var" -> VarSession(c) [] Profile = "scale" -> ScaleSession(c)
    [] Profile = "bas" -> BasSession(c) [] Profile = "baseq" -> BasEqSession(c)
    [] Profile = "int" -> IntSession(c) [] Profile = "sob" -> SobSession(c)
    [] Profile = "quad" -> QuadSession(c) [] Profile = "gll" -> GllSession(c)
    [] Profile = "py" -> PyChain(PySession(c)) [] Profile = "ser" -> SerSession(c) [] Profile = "fun" -> FunSession(c) [] Profile = "opt" -> OptSession(c)
    [] Profile = "bspl" -> BSplSession(c) [] Profile = "bint" -> BIntSession(c) [] Profile = "bbas" -> BBasSession(c) [] Profile = "bgll" -> BGllSession(c)
    [] Profile \in DOMAIN MagParts -> MagSession(c) [] Profile = "near" -> NearSession(c) [] Profile = "bexp" -> BExpSession(c) [] Profile = "bfun" -> BFunSession(c) [] Profile = "bopt" -> BOptSession(c)

Pts1(c) == IF Profile \in {"bspl", "bgll"} THEN BigPts
           ELSE IF Profile \in DOMAIN MagParts THEN MagPtsOn(MagDom(c))
           ELSE IF Profile = "bexp" THEN (IF c[1] = 3 THEN [k \in 1..24 |-> RStr(RDiv(R((k * 29) % 96), R(8)))] ELSE SubSeq(BigPts, 1, 9) \o << "0.25", "1", "0" >>)
           ELSE PtsVar(IF Profile \in {"cat", "der"} THEN CompPts ELSE Pts, H(c) \div 13)
(* which cases: spread by a hash that does not follow the enumeration order  *)
Spread(c) == LET RECURSIVE go(_, _)
                 go(i, a) == IF i > Len(c) THEN a ELSE go(i + 1, (a * 37 + c[i] * 101 + 3) % 30011)
             IN go(1, 1)
Init == case \in { c \in Cases : (Spread(c) + Offset) % Stride = 0 } /\ out = FALSE
(* every session is one of the specification: no step on what does not exist *)
Legal(steps) ==
  LET RECURSIVE go(_, _)
      go(h, i) == IF i > Len(steps) THEN TRUE
                  ELSE LET st == steps[i] IN
                       /\ (Has(st, "a") => st.a \in 1..Len(h) /\ h[st.a].live)
                       /\ (Has(st, "b") => st.b \in 1..Len(h) /\ h[st.b].live)
                       /\ go(IF "ok" \in Expect(h, st) THEN After(h, st, [x |-> "ok"]) ELSE AfterReject(h, st), i + 1)
  IN go(<<>>, 1)
Next == /\ ~out /\ out' = TRUE /\ case' = case
        /\ Assert(Legal(Session(case)), << "illegal session", case, Session(case) >>)
        /\ PrintT(ToJson([p |-> Profile, pts |-> Pts1(case), steps |-> Session(case)]))
=============================================================================
