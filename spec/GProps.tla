------------------------------- MODULE GProps -------------------------------
(* Which listed property a deviation from the specification breaks.          *)
EXTENDS GCheck, TLC

All == {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13",
        "C14", "C15", "C16", "C17", "C18", "C19", "C20"}

(* the property a step exercises *)
OpProps(h, st) ==
  CASE st.op = "new" -> IF st.t = "gs" THEN {"C06"} ELSE {"C01"}
    [] st.op = "bin" -> IF st.f \in {"comp", "cat"} THEN {"C04"} ELSE {"C01"}
    [] st.op \in {"addeq", "muleq", "neg", "scal"} -> {"C01"}
    [] st.op = "deriv" -> IF h[st.a].kind = "gs" THEN {"C05", "C07"}
                          ELSE IF h[st.a].kind = "gll" THEN {"C05", "C15"} ELSE {"C05"}
    [] st.op \in {"copy", "drop"} -> {"C02"}
    [] st.op \in {"gsbin", "gsaeq", "gsneg", "gsscal", "gseq"} -> {"C07"}
    [] st.op \in {"gsscale", "gsbound"} -> {"C14"}
    [] st.op = "gsrand" -> {"C06"}
    [] st.op \in {"gllnew", "gllapp", "gllid", "gllbin", "gllscal", "gllneg", "gllnorm", "gllinv", "gllpow",
                  "glladdv", "gllvalat", "gllasg", "gllasgf", "gllset", "gllfromgs"} -> {"C15"}
    [] st.op \in {"bnew", "bcopy", "beq", "beval", "bevaltau"} -> {"C08"}
    [] st.op \in {"bder", "bgsd", "bcont", "bgram", "bgramtau"} -> {"C09"}
    [] st.op \in {"inew", "isolve", "iinterp", "finterp", "fpw"} -> {"C10"}
    [] st.op = "icoefd" -> {"C10", "C11"}
    [] st.op \in {"snew", "sval", "sgrad"} -> {"C12"}
    [] st.op \in {"qpw", "qcomp", "qdom", "integ", "ip"} -> {"C13"}
    [] st.op \in {"ser", "serbad"} -> {"C17"}
    [] st.op \in {"fnew", "fupd", "fbin", "fneg", "fscal", "fcopy", "fapp", "fmul", "sdnew", "sdval", "wrap"} -> {"C19"}
    [] st.op \in {"optnew", "optset", "opt"} -> {"C20"}
    [] OTHER -> All

Temps(st) == (Has(st, "ca") /\ st.ca = "r") \/ (Has(st, "cb") /\ st.cb = "r")
             \/ (st.op = "copy" /\ st.how \in {"move", "mclone", "toexprm", "convm"})
Combining == {"bin", "addeq", "muleq"}
Reading == {"value", "value1", "batch", "evalexc", "breakpoints", "waypoints"}

(* f.c is the class of the deviation: outcome (of a step), ret (answer of a  *)
(* query), obs (of an object made or changed by the step), frame (of an      *)
(* object that the step must leave alone), again (an answer that differs     *)
(* from the one given before), shape (of the trace)                          *)
Breaks(h, st, f) ==
  CASE f.c = "shape" -> All
    [] f.c = "outcome" ->
         IF f.w = "crash" THEN All
         ELSE IF "ok" \in Expect(h, st)        \* refused what is allowed
         THEN OpProps(h, st) \cup (IF st.op \in Combining THEN {"C03"} ELSE {})
              \cup (IF Temps(st) THEN {"C02"} ELSE {})
         ELSE IF st.op \in Combining THEN {"C03"} ELSE OpProps(h, st)
    [] f.c = "ret" -> IF f.w \in {"dinterp-waypoints", "dinterp-continuity", "dinterp-ends"}
                      THEN {"C11"} \cup (IF st.op = "sgrad" THEN {"C12"} ELSE {})
                      ELSE IF f.w \in {"interp-waypoints", "interp-continuity", "interp-ends", "interp-size"}
                      THEN {"C10"} \cup OpProps(h, st)
                      ELSE OpProps(h, st) \ (IF st.op = "icoefd" THEN {"C10"} ELSE {})
    [] f.c = "obs" ->
         (IF f.w \in {"domain", "codom", "points"} THEN {"C03"} ELSE {})
         \cup OpProps(h, st)
         \cup (IF Temps(st) THEN {"C02"} ELSE {})
         \cup (IF f.k = "gs" /\ f.w \in Reading THEN {"C06"} ELSE {})
         \cup (IF f.w = "batch" THEN {"C18"} ELSE {})
    [] f.c = "frame" -> {"C02", "C18"} \cup (OpProps(h, st) \cap {"C05", "C15", "C19"}) \cup (IF f.k = "lin" THEN {"C19"} ELSE {})
    [] f.c = "again" -> {"C18"}

(* ---- answers to the same question *)
Biggest(s) == RMaxOf([i \in 1..Len(s) |-> RAbs(R(s[i]))])
NearSeq(a, b) == \/ a = b
                 \/ /\ Len(a) = Len(b)
                    /\ LET t == RMul(R("1e-9"), RAdd(R(1), Biggest(a)))
                       IN \A i \in 1..Len(a) : RLe(RAbs(RSub(R(a[i]), R(b[i]))), t)
NearMat(a, b) == a = b \/ (Len(a) = Len(b) /\ \A i \in 1..Len(a) : NearSeq(a[i], b[i]))
Asking == {"beval", "bevaltau", "bder", "bgsd", "bcont", "bgram", "bgramtau", "isolve", "iinterp", "icoefd",
           "finterp", "fpw", "sval", "sgrad", "integ", "ip", "qpw", "beq", "gseq", "gllvalat"}
(* what is asked, whichever object it is asked of *)
Question(h, st) ==
  ToString(<< IF Has(st, "a") THEN h[st.a].e ELSE "", IF Has(st, "b") THEN h[st.b].e ELSE "",
              IF Has(st, "a") THEN [st EXCEPT !.a = 0] ELSE st >>)
Answer(st, ev) == IF st.op \in {"iinterp", "finterp", "fpw"} THEN [c |-> ev.gs.c, tau |-> ev.gs.tau] ELSE ev.ret
SameAnswer(st, x, y) ==
  CASE st.op = "beval" -> NearSeq(x.v, y.v) /\ NearSeq(x.v0, y.v0)
    [] st.op \in {"bevaltau", "gllvalat"} -> NearSeq(x.v, y.v)
    [] st.op \in {"bder", "bgsd", "bcont", "bgram", "bgramtau"} -> NearMat(x.m, y.m)
    [] st.op = "isolve" -> NearSeq(x.y, y.y)
    [] st.op = "icoefd" -> NearSeq(x.y, y.y) /\ NearSeq(x.dy, y.dy)
    [] st.op \in {"iinterp", "finterp", "fpw"} -> NearSeq(x.c, y.c) /\ NearSeq(x.tau, y.tau)
    [] st.op = "sval" -> NearSeq(<< x.v >>, << y.v >>)
    [] st.op = "sgrad" -> NearSeq(x.v, y.v)
    [] st.op \in {"integ", "ip"} -> NearSeq(<< x.v >>, << y.v >>)
    [] st.op = "qpw" -> NearSeq(x.p, y.p) /\ NearSeq(x.w, y.w)
    [] OTHER -> x = y
=============================================================================
