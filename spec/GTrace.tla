------------------------------- MODULE GTrace -------------------------------
(* Trace validation: is what the implementation did a behaviour of GSession? *)
(* The file named by the environment variable TRACE holds the sessions that  *)
(* were replayed, each with its script and the recorded events.              *)
EXTENDS GProps, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE)

VARIABLES sid, l, heap, memo, bad
vars == << sid, l, heap, memo, bad >>

Init == /\ sid \in 1..Len(Traces)
        /\ l = 1 /\ heap = <<>> /\ memo = <<>> /\ bad = FALSE

T == Traces[sid]
F(c, k, W) == { [c |-> c, k |-> k, w |-> w] : w \in W }

(* An observation "=" stands for "bit for bit what this object showed last"; *)
(* objects a step changes are observed anew.                                 *)
StepFaults(st, ev, exp, h2) ==
  IF ev.x \notin exp THEN F("outcome", "", { ev.x })
  ELSE IF Len(ev.obs) # Len(h2) THEN F("shape", "", { "objects" })
  ELSE (IF ev.x = "ok" THEN F("ret", "", CheckRet(heap, st, ev)) ELSE {})
       \cup UNION { LET en == h2[i] o == ev.obs[i]
                        same == i <= Len(heap) /\ (ev.x # "ok" \/ i \notin Target(st)) /\ heap[i].live = en.live
                    IN IF o.s = "=" THEN F("shape", "", Flag(same \/ en.kind = "opts", "stale"))
                       ELSE F(IF same /\ en.live THEN "frame" ELSE "obs", en.kind, CheckObs(en, T.pts, o))
                    : i \in 1..Len(h2) }
AgainFaults(st, ev, q) ==
  IF st.op \in Asking /\ ev.x = "ok" /\ q \in DOMAIN memo
  THEN F("again", "", Flag(SameAnswer(st, memo[q], Answer(st, ev)), "differs from the answer before")) ELSE {}

Say(st, f) == PrintT(<<"MISMATCH", sid, l, ToString(UNION { Breaks(heap, st, x) : x \in f }),
                       ToString({ x.c \o " " \o x.w : x \in f }) >>)
Step == /\ ~bad /\ l <= Len(T.steps)
        /\ sid' = sid
        /\ IF l > Len(T.evs)
           THEN /\ bad' = TRUE /\ Say(T.steps[l], F("shape", "", {"missing"}))
                /\ UNCHANGED << l, heap, memo >>
           ELSE LET st == T.steps[l]
                    ev == T.evs[l]
                    exp == Expect(heap, st)
                    h2 == IF ev.x = "ok" /\ "ok" \in exp THEN After(heap, st, ev) ELSE AfterReject(heap, st)
                    q == IF st.op \in Asking THEN Question(heap, st) ELSE ""
                    f == StepFaults(st, ev, exp, h2)
                    g == IF \E x \in f : x.c \in {"outcome", "shape"} THEN {} ELSE AgainFaults(st, ev, q)
                IN /\ IF f \cup g = {} THEN TRUE ELSE Say(st, f \cup g)
                   (* after a wrong answer the state is still known *)
                   /\ bad' = (\E x \in f : x.c # "ret")
                   /\ heap' = h2
                   /\ memo' = IF st.op \in Asking /\ ev.x = "ok" /\ q \notin DOMAIN memo
                              THEN (q :> Answer(st, ev)) @@ memo ELSE memo
                   /\ l' = l + 1
Spec == Init /\ [][Step]_vars

View == << sid, l, bad >>
=============================================================================
