-------------------------------- MODULE GGen --------------------------------
(* Random behaviours of the specification: sessions whose scripts are        *)
(* printed for replay into the implementation.                               *)
EXTENDS GPlans
CONSTANTS Profile, MaxPlans
VARIABLES heap, script, todo, k
vars == << heap, script, todo, k >>

(* results that the specification only constrains are not used further      *)
Opaque == {"gsbound", "gsrand", "iinterp", "finterp", "fpw"}   \* except for saving
GenAfter(h, st) == LET g == After(h, st, [x |-> "ok"]) IN
                   IF st.op \in Opaque THEN Kill(g, {Len(g)}) ELSE g
Perform(h, st) == IF "ok" \in Expect(h, st) THEN GenAfter(h, st) ELSE AfterReject(h, st)

Init == heap = <<>> /\ script = <<>> /\ todo = <<>> /\ k = 1
Emit == PrintT(ToJson([p |-> Profile, pts |-> PtsOf(Profile, Len(script) + Len(ToString(script))), steps |-> script]))
Do == /\ todo # <<>>
      /\ heap' = Perform(heap, Head(todo))
      /\ script' = Append(script, Head(todo))
      /\ todo' = Tail(todo)
      /\ UNCHANGED k
Draw == \E z \in { TLCEval([i \in 1..16 |-> RandomElement(0..(99999 + k))]) } :
      /\ todo = <<>> /\ k <= MaxPlans
      /\ todo' = PlanOf(Profile, heap, k, z, script)
      /\ k' = k + 1
      /\ UNCHANGED << heap, script >>
Finish == /\ todo = <<>> /\ k = MaxPlans + 1
          /\ Emit
          /\ k' = k + 1
          /\ UNCHANGED << heap, script, todo >>
Next == Do \/ Draw \/ Finish
=============================================================================
