------------------------------ MODULE NotesGen ------------------------------
EXTENDS Notes, Json, CSV, IOUtils
VARIABLES id, hist
gvars == <<id, hist, notes, seen, spent>>
View == <<id, Len(hist), notes, seen, spent>>

T(x) == V("t." \o x)
TNote == [d |-> T("d"), pkd |-> T("pkd"), v |-> T("v"), rho |-> T("rho"), rseed |-> T("rseed")]
Template == << [op |-> "template", cmx |-> Repr(Cmx(TNote)), nf |-> Repr(Nf(TNote, T("nk")))] >>
ASSUME CSVWrite("%1$s", <<ToJson(Template)>>, IOEnv.OUT)

Base == [own |-> "A", scope |-> "ext", d |-> "d1", v |-> "v1", rho |-> "rho1", rs |-> "rs1"]
Alternatives == [own |-> {"A", "B", "M", "X"}, scope |-> {"ext", "int"}, d |-> {"d1", "d2"},
                 v |-> {"v1", "v2", "v3"}, rho |-> {"rho1", "rho2"}, rs |-> {"rs1", "rs2"}]
Valid(x) == x.own = "X" => x.scope = "ext"
Event(x) == [op |-> "note", id |-> x, pkd |-> Repr(PkdOf(x)), cmx |-> Repr(Cmx(NoteOf(x))),
             nf |-> [k \in Owners |-> Repr(Nf(NoteOf(x), FvkNamed[k].nk))]]
\* Two notes of the chain world: small histories over symbolic nullifiers.
Init == /\ id = Base /\ hist = << Event(Base) >> /\ notes = <<>> /\ seen = {} /\ spent = {}
Alter == /\ notes = <<>> /\ seen = {}
         /\ \E f \in DOMAIN Base : \E x \in Alternatives[f] :
              /\ x # id[f] /\ id' = [id EXCEPT ![f] = x] /\ Valid(id')
         /\ hist' = << Event(id') >> /\ UNCHANGED <<notes, seen, spent>>
\* The nullifier of a note is determined by it; rho makes every created note new.
Chain == /\ id = Base /\ Len(notes) < 3 /\ Cardinality(seen) < 4
         /\ \E i \in 0..Len(notes), new \in BOOLEAN :
              LET nf == IF i = 0 THEN "dummy" \o ToString(Cardinality(seen)) ELSE notes[i].nf IN
              Action1(i, nf, IF new THEN [cm |-> "cm of " \o nf, nf |-> "nf of " \o nf] ELSE [cm |-> "none", nf |-> "none"])
         /\ UNCHANGED <<id, hist>>
Next == Alter \/ Chain
Spec == Init /\ [][Next]_gvars
Emit == hist' # hist => CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.OUT)

---------------------------------------------------------------------------
\* Differing in any component means different commitments and nullifiers, under every key.
Single(x) == UNION {{[x EXCEPT ![f] = w] : w \in Alternatives[f] \ {x[f]}} : f \in DOMAIN Base}
Injective == \A y \in Single(id) : Valid(y) =>
   /\ Cmx(NoteOf(y)) # Cmx(NoteOf(id))
   /\ \A k \in Owners : Nf(NoteOf(y), FvkNamed[k].nk) # Nf(NoteOf(id), FvkNamed[k].nk)
\* The nullifier depends on the key only through its nullifier key.
SameNk == Nf(NoteOf(id), FvkNamed["A"].nk) = Nf(NoteOf(id), FvkNamed["M"].nk)
OtherNk == Nf(NoteOf(id), FvkNamed["A"].nk) # Nf(NoteOf(id), FvkNamed["B"].nk)
=============================================================================
