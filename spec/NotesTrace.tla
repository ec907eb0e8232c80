----------------------------- MODULE NotesTrace -----------------------------
(* Judges recorded uses of real notes, and recorded chains of real actions. *)
EXTENDS Notes, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES known, r, l
tvars == <<known, r, l, notes, seen, spent>>
E == Runs[r][l]
Has(f) == f \in DOMAIN E
Init == /\ r \in 1..Len(Runs) /\ l = 1 /\ known = [k \in {} |-> ""]
        /\ notes = <<>> /\ seen = {} /\ spent = {}
Step == l <= Len(Runs[r]) /\ ~Has("panic") /\ l' = l + 1 /\ r' = r

\* A note: exact commitment and nullifiers; everything read back is what was put in; equal
\* exactly to the notes of the same name; commitments and nullifiers a function of the name.
TNote == /\ Step /\ E.op = "note" /\ E.got = E.want
         /\ \A k \in 1..Len(E.eq) : E.eq[k].same = (E.eq[k].id = E.id)
         /\ \A k \in DOMAIN known : (k = E.id) = (known[k][1] = E.got.cmx) /\ (k = E.id) = (known[k][2] = E.got.nf["A"])
         /\ E.got.nf["A"] = E.got.nf["M"] /\ E.got.nf["A"] # E.got.nf["B"]
         /\ E.readback = "same"
         /\ known' = (E.id :> <<E.got.cmx, E.got.nf["A"]>>) @@ known
         /\ UNCHANGED nvars
\* An action of a chain.  The note it creates has the revealed nullifier as its rho, and the
\* recipient and the sender find the same note, with the protocol's commitment and nullifier.
TAct == /\ Step /\ E.op = "act"
        /\ E.rho = E.nf
        /\ E.created = "yes" => /\ E.found.rho = E.nf /\ E.found.cmx = E.cmx /\ E.want.cmx = E.cmx
                                /\ E.found.nf = E.want.nf
                                /\ (Has("sender") => E.sender = E.found)
        /\ Action1(E.spend, E.nf, IF E.created = "yes" THEN [cm |-> E.cmx, nf |-> E.found.nf] ELSE [cm |-> "none", nf |-> "none"])
        /\ E.cmx \notin {notes[k].cm : k \in 1..Len(notes)}
        /\ UNCHANGED known
\* A note given at the start.
TGiven == /\ Step /\ E.op = "given" /\ E.got = E.want
          /\ notes' = Append(notes, [cm |-> E.got.cmx, nf |-> E.got.nf]) /\ UNCHANGED <<seen, spent, known>>
Done == l = Len(Runs[r]) + 1 /\ UNCHANGED tvars
Next == TNote \/ TAct \/ TGiven \/ Done
Spec == Init /\ [][Next]_tvars
=============================================================================
