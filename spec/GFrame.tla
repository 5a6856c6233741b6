------------------------------- MODULE GFrame -------------------------------
(* Random behaviours (GGen), every step checked: it changes only its target, *)
(* ends only the objects passed as temporaries, creates at most one object,  *)
(* and a rejected step changes nothing else.                                 *)
EXTENDS GGen

Moved(st) == IF st.op = "copy" /\ st.how \in {"move", "mclone", "toexprm", "convm"} THEN {st.a} ELSE {}
Kinds == {"elem", "expr", "gs", "gll", "basis", "interp", "sob", "lin", "sd", "opts", "arr"}
WellFormed(en) ==
  /\ en.kind \in Kinds
  /\ en.kind \in FunKinds => RLt(R(Dom(en.e)[1]), R(Dom(en.e)[2])) /\ Cod(en.e) >= 1
  /\ en.kind \in {"gs", "gll"} => LET x == Spl(en.e) IN
       /\ Len(x.c) = x.n * x.b.dim * Len(x.tau)
       /\ RClose(RSub(R(x.d[2]), R(x.d[1])), RSumLits(x.tau), R("1e-9"))
       /\ \A i \in 1..Len(x.tau) : RLt(R(0), R(x.tau[i]))
FrameOk(h, st, g) ==
  LET ok == "ok" \in Expect(h, st) IN
  /\ Expect(h, st) # {} /\ (ok => Expect(h, st) = {"ok"})
  /\ Len(g) - Len(h) \in (IF ok THEN {0, 1} ELSE {0})
  /\ \A i \in 1..Len(h) :
       /\ h[i].kind = g[i].kind
       /\ i \in Consumed(st) => ~g[i].live
       /\ g[i].live => h[i].live
       /\ i \notin Consumed(st) \cup Moved(st) \cup Target(st) => g[i] = h[i]
       /\ ~ok /\ i \notin Consumed(st) => g[i].e = h[i].e
  /\ \A i \in 1..Len(g) : g[i].live /\ (i > Len(h) \/ i \in Target(st)) => WellFormed(g[i])
NextChecked == /\ Next
               /\ (todo # <<>>) => Assert(FrameOk(heap, Head(todo), heap'), << "frame", heap, Head(todo) >>)
=============================================================================
