---------------------------- MODULE BuilderTrace ----------------------------
(***************************************************************************)
(* Judges recorded executions of the real builder: every recorded call     *)
(* must be a transition of Builder, and every recorded observation must    *)
(* equal the projection of the resulting abstract state.                   *)
(***************************************************************************)
EXTENDS Builder, TLC, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.TRACE)      \* a sequence of runs, each a sequence of events

Focus == IOEnv.FOCUS                        \* the property being decided
Chk(p, c) == Focus = p => c

VARIABLES r, l,
          taint      \* the code's admissions diverged (C01's business): nothing more to say
tvars == <<t, spends, outputs, phase, acts, r, l, taint>>
E == Runs[r][l]
Has(f) == f \in DOMAIN E

Init == /\ r \in 1..Len(Runs) /\ l = 2 /\ Runs[r][1].op = "new" /\ taint = FALSE
        /\ New(Runs[r][1].type)

\* A call that panicked is recorded with a field "panic" and matches no transition.
IsOp(op) == l <= Len(Runs[r]) /\ ~taint /\ E.op = op /\ ~Has("panic") /\ l' = l + 1 /\ r' = r
Clean == taint' = FALSE
TSkip == taint /\ l <= Len(Runs[r]) /\ l' = l + 1 /\ UNCHANGED <<t, spends, outputs, phase, acts, r, taint>>

\* What the builder shows about itself after each request.
Shown(ss, os) ==
  /\ Chk("C01", E.spends = ValuesOf(ss) /\ E.outputs = ValuesOf(os))
  /\ Chk("C03", \A vt \in {"i64", "amt", "nonneg"} :
       LET b == E.balance[vt] IN
       /\ b.res \in BalanceResults(vt, ss, os)
       /\ b.res = "ok" => b.v = Net(ss, os))

Diverges == taint' = TRUE /\ UNCHANGED bvars
TAddSpend  == IsOp("add_spend") /\
  IF E.res \in SpendResults(t, E.req) THEN AddSpend(E.req, E.res) /\ Shown(spends', outputs') /\ Clean
  ELSE Focus # "C01" /\ Diverges
TAddOutput == IsOp("add_output") /\
  IF E.res \in OutputResults(t) THEN AddOutput(E.req, E.res) /\ Shown(spends', outputs') /\ Clean
  ELSE Focus # "C01" /\ Diverges

\* Contents of the built bundle.  Action a of the record shows
\*   nf  : the nid of the requested note whose nullifier it reveals, or 0
\*   out : the output it decrypts to under some party's key, or nobody
OutShown(o) == [to |-> o.to, scope |-> o.scope, idx |-> o.idx, v |-> o.v, memo |-> o.memo]
NoOut == [to |-> "-", scope |-> "-", idx |-> 0, v |-> W0, memo |-> "-"]

Plus1(s) == [i \in 1..Len(s) |-> s[i] + 1]

TBuilt ==
  /\ IsOp("build") /\ E.res = "bundle" /\ Clean
  /\ IF Focus = "C02"
     THEN /\ BuildBundle("any", Plus1(E.meta_s), Plus1(E.meta_o))
          /\ E.n = Len(acts')
          /\ E.flags = t.flags
          /\ E.anchor = "given"
          /\ \A a \in 1..E.n :
               /\ E.acts[a].nf = (IF acts'[a].s = 0 THEN 0 ELSE spends[acts'[a].s].nid)
               /\ E.acts[a].out = (IF acts'[a].o = 0 THEN NoOut ELSE OutShown(outputs[acts'[a].o]))
               /\ E.acts[a].recov = (IF acts'[a].o = 0 THEN "none" ELSE outputs[acts'[a].o].ovk)
               /\ E.acts[a].rho = "own"
          /\ E.meta_past = "none"           \* no index is reported beyond the requests
     ELSE /\ Chk("C03", "ok" \in BalanceResults(E.vt, spends, outputs) /\ E.v = Net(spends, outputs))
          /\ UNCHANGED bvars

TBuildOther ==
  /\ IsOp("build") /\ Clean
  /\ \/ E.res = "none" /\ IF Focus = "C02" THEN BuildNone(E.vt) ELSE UNCHANGED bvars
     \/ E.res = "overflow" /\ IF Focus = "C03" THEN BuildOverflow(E.vt) ELSE UNCHANGED bvars

\* The one-shot constructor, given lists of spends and outputs.
Reasons1(ss, os) ==
  UNION {SpendReasons(t, ss[i]) : i \in 1..Len(ss)}
    \cup (IF os # <<>> /\ ~OutputsOn(t) THEN {"OutputsDisabled"} ELSE {})
    \cup (IF NumActions(t, Len(ss), Len(os)) = -1 THEN {"BundleTypeNotSatisfiable"} ELSE {})
TOneShot ==
  /\ IsOp("load")
  /\ phase = "open" /\ spends = <<>> /\ outputs = <<>>
  /\ LET rs == Reasons1(E.spends, E.outputs) IN
     IF E.res = "Ok" /\ rs = {}
     THEN spends' = E.spends /\ outputs' = E.outputs /\ UNCHANGED <<t, phase, acts>> /\ Clean
     ELSE IF E.res \in rs
     THEN phase' = "failed" /\ UNCHANGED <<t, spends, outputs, acts>> /\ Clean
     ELSE Focus # "C01" /\ Diverges

TCount ==
  /\ IsOp("count") /\ Clean
  /\ Chk("C01", (E.res = -1) = (NumActions(t, E.ns, E.no) = -1))
  /\ Chk("C02", E.res = NumActions(t, E.ns, E.no))
  /\ Chk("C01", E.tflags = t.flags)
  /\ UNCHANGED bvars

\* A dummy output offered by the library is worth nothing.
TDummy == /\ IsOp("dummy_output") /\ Chk("C02", E.v = W0) /\ UNCHANGED bvars /\ Clean

Done == l = Len(Runs[r]) + 1 /\ UNCHANGED tvars

Next == TAddSpend \/ TAddOutput \/ TBuilt \/ TBuildOther \/ TOneShot \/ TCount \/ TDummy \/ TSkip \/ Done
Spec == Init /\ [][Next]_tvars
=============================================================================
