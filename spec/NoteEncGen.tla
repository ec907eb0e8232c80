----------------------------- MODULE NoteEncGen -----------------------------
EXTENDS NoteEnc, TLC, Json, CSV, IOUtils
CONSTANTS Adversary      \* FALSE: honest bundles; TRUE: dishonest senders and altered actions
VARIABLES acts, sent, step, hist
gvars == <<acts, sent, step, hist>>
View == <<acts, sent, step>>

Desc(res, withMemo) == IF res = None THEN None
   ELSE Cat(<<res.n.d, Repr(res.n.pkd), res.n.v, Repr(res.n.rho), res.n.rseed>> \o (IF withMemo THEN <<res.memo>> ELSE <<>>))
Wants(b) == [i \in 1..Len(b) |-> [how \in Hows |-> [kn \in HoldersOf(how) |-> Desc(Reads(how, kn, b[i]), how # "compact")]]]
Event(b, s, t) == << [op |-> "case", tampered |-> t, acts |-> b, sent |-> s, want |-> Wants(b)] >>

\* The exact contents of an honest output, as functions of its note.
T(x) == V("t." \o x)
TNote == [d |-> T("d"), pkd |-> T("pkd"), v |-> T("v"), rho |-> T("rho"), rseed |-> T("rseed")]
Template == << [op |-> "template", cmx |-> Repr(Cmx(TNote)), epk |-> Repr(Epk(TNote)),
                enc |-> EncCiphertext(TNote, T("memo")), out |-> OutCiphertext(TNote, T("ovk"), T("cv"))] >>
ASSUME CSVWrite("%1$s", <<ToJson(Template)>>, IOEnv.OUT)

Init == acts = <<>> /\ sent = <<>> /\ step = "send" /\ hist = <<>>
Send(to, ovk, memo, c) ==
  LET i == ToString(Len(acts) + 1) IN
  /\ acts' = Append(acts, Output(i, to, ovk, memo, c))
  /\ sent' = Append(sent, [to |-> to, ovk |-> ovk, memo |-> memo, c |-> c])
  /\ hist' = Event(acts', sent', FALSE)
Ovks == {"none"} \cup KeyNames \cup (IF Len(acts) = 0 THEN OddOvks ELSE {})
Memos == {"none", "m1"}

\* Among honest actions, one whose ephemeral key is no usable point: nobody reads it, and
\* what is read of the others does not depend on it.
Stray(w) == LET i == ToString(Len(acts) + 1) IN
  /\ acts' = Append(acts, Unparse(Output(i, "A.ext", "A.ext", "m1", Honest), w))
  /\ sent' = Append(sent, [to |-> "A.ext", ovk |-> "A.ext", memo |-> "m1", c |-> [Honest EXCEPT !.epk = w]])
  /\ hist' = Event(acts', sent', FALSE)
IsStray(i) == sent[i].c.epk \in {"badpoint", "idpoint"}
Strays == Cardinality({i \in 1..Len(sent) : IsStray(i)})
SendStray == /\ ~Adversary /\ step = "send" /\ Len(acts) < 3 /\ Strays < 2
             /\ (Len(acts) = 2 => Strays > 0 \/ (sent[1].to = "A.ext" /\ sent[2].to = "B.int"))
             /\ \E w \in {"badpoint", "idpoint"} : Stray(w)
             /\ step' = step
SendHonest == /\ step = "send" /\ Len(acts) < 2
              /\ IF Adversary THEN Send("A.ext", "A.ext", "m1", Honest)
                 ELSE \E to \in KeyNames, o \in Ovks, m \in Memos :
                       /\ (o \in OddOvks => to \in {"A.ext", "B.int"})
                       /\ ((Len(acts) = 1 /\ sent[1].ovk \in OddOvks) => m = "m1" /\ o \in {"none", "A.ext"})
                       /\ Send(to, o, m, Honest)
              /\ step' = step
\* At most two dishonest choices.
Dishonest == {c \in [ver : {2} \cup Dishonesty.ver, com : {"same"} \cup Dishonesty.com, esk : {"derived"} \cup Dishonesty.esk,
                     epk : {"match"} \cup Dishonesty.epk, ptd : {"same"} \cup Dishonesty.ptd, outp : {"right"} \cup Dishonesty.outp] :
                Cardinality({f \in DOMAIN Honest : c[f] # Honest[f]}) \in 1..2}
             \cup {[Honest EXCEPT !.ver = x] : x \in 0..255 \ {Honest.ver}}
SendDishonest == /\ Adversary /\ step = "send" /\ Len(acts) = 0
                 /\ \E c \in Dishonest : Send("A.ext", "A.ext", "m1", c)
                 /\ step' = "done"
Tamper(x) == /\ acts' = [acts EXCEPT ![1] = x] /\ sent' = sent /\ step' = "done" /\ hist' = Event(acts', sent', TRUE)
Alterations == Adversary /\ step = "send" /\ Len(acts) = 2 /\
  \/ \E ps \in SUBSET Parts : ps # {} /\ Tamper(Mixed(acts[1], acts[2], ps))
  \/ \E p, q \in Parts : Tamper(IF p = q THEN Alter(acts[1], p) ELSE Alter(Alter(acts[1], p), q))
  \/ \E w \in {"badpoint", "idpoint"} : Tamper(Unparse(acts[1], w))
\* A third honest action, after a stray one.
SendThird == /\ ~Adversary /\ step = "send" /\ Len(acts) = 2 /\ Strays > 0
             /\ \E to \in KeyNames : Send(to, "B.ext", "m1", Honest)
             /\ step' = step
Next == SendHonest \/ SendStray \/ SendThird \/ SendDishonest \/ Alterations
Spec == Init /\ [][Next]_gvars
Emit == CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.OUT)

---------------------------------------------------------------------------
HonestOne(i) == sent[i].c = Honest /\ acts[i] = Output(ToString(i), sent[i].to, sent[i].ovk, sent[i].memo, Honest)
StrayUnread == \A i \in 1..Len(acts) : IsStray(i) => \A how \in Hows : \A kn \in HoldersOf(how) : Reads(how, kn, acts[i]) = None
SentNote(i) == [f |-> "note", n |-> TheNote(ToString(i), sent[i].to, V("rho" \o ToString(i))), memo |-> V("memo." \o sent[i].memo)]
\* Honest outputs are exactly the protocol's.
Exact == \A i \in 1..Len(acts) : HonestOne(i) =>
   LET n == SentNote(i).n IN
   /\ acts[i].encC = Slice(EncCiphertext(n, SentNote(i).memo), 0, 52)
   /\ acts[i].epk = Repr(Epk(n)) /\ acts[i].cmx = Repr(Cmx(n))
   /\ sent[i].ovk # "none" => acts[i].out = OutCiphertext(n, OvkV(sent[i].ovk), V("cv" \o ToString(i)))
\* C12: the recipient and nobody else reads what was sent.
Recipient == \A i \in 1..Len(acts) : HonestOne(i) => \A kn \in KeyNames :
   /\ Incoming(kn, acts[i], FALSE) = (IF kn = sent[i].to THEN SentNote(i) ELSE None)
   /\ Incoming(kn, acts[i], TRUE) = (IF kn = sent[i].to THEN [SentNote(i) EXCEPT !.memo = Empty] ELSE None)
\* C13: so does the sender with the outgoing viewing key used.
Sender == \A i \in 1..Len(acts) : HonestOne(i) => \A kn \in OvkNames :
   Outgoing(kn, acts[i]) = (IF kn = sent[i].ovk THEN SentNote(i) ELSE None)
\* C14: an action altered in anything the reader depends on is read by nobody, unless it
\* agrees in all of that with another honest action; and nothing read is inconsistent.
Agrees(how, x, y) == \A p \in DependsOn(how) : x[p] = y[p]
Originals == [i \in 1..Len(acts) |-> Output(ToString(i), sent[i].to, sent[i].ovk, sent[i].memo, Honest)]
Tampered == (step = "done" /\ Len(acts) = 2) => \A how \in Hows : \A kn \in HoldersOf(how) :
   (Reads(how, kn, acts[1]) # None) =>
      \E i \in 1..2 : Agrees(how, acts[1], Originals[i]) /\ Reads(how, kn, acts[1]) = Reads(how, kn, Originals[i])
Consistent == \A i \in 1..Len(acts), how \in Hows : \A kn \in HoldersOf(how) :
   LET res == Reads(how, kn, acts[i]) IN res # None =>
      /\ Repr(Cmx(res.n)) = acts[i].cmx /\ Repr(Epk(res.n)) = acts[i].epk /\ Repr(res.n.rho) = acts[i].nf
      /\ how # "out" => res.n.pkd = PkD(IvkV(kn), res.n.d)
\* The dishonest choices that a recipient and a sender must notice (encrypting to another
\* of the recipient's addresses in every respect is not one).
Noticed == (step = "done" /\ Len(acts) = 1 /\ ~(sent[1].c.ptd = "otherd" /\ sent[1].c.epk = "otherbase")) => LET c == sent[1].c IN
   /\ (c.ver # 2 \/ c.com # "same" \/ c.esk # "derived" \/ c.epk # "match" \/ c.ptd # "same")
         => Incoming("A.ext", acts[1], FALSE) = None /\ Incoming("A.ext", acts[1], TRUE) = None
   /\ (c.ver # 2 \/ c.com # "same" \/ c.esk # "derived" \/ c.epk # "match" \/ c.ptd = "otherd" \/ c.outp # "right")
         => Outgoing("A.ext", acts[1]) = None
=============================================================================
