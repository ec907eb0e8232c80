------------------------------ MODULE KeysGen ------------------------------
(* Explores chains of key methods.  `want` is what the reached object must show. *)
EXTENDS Keys, TLC, Json, CSV, IOUtils
CONSTANTS MaxLen, Xs, Js, Ds, Queries, Resers
VARIABLES obj, len, hist
gvars == <<obj, len, hist>>
View == <<obj, len>>
X == {V(x) : x \in Xs}
J == {V(j) : j \in Js}
D == {V(d) : d \in Ds}
Alphas == {V("alpha")}
Fld(o, f) == f \in DOMAIN o

Init == \E x \in X : /\ obj = OSk(x) /\ len = 0
                     /\ hist = << [op |-> "sk", x |-> x.s] >>
Go(o, c) == /\ len < MaxLen /\ obj' = o /\ len' = len + 1
            /\ hist' = Append(hist, IF Queries THEN c ELSE c @@ ("want" :> Shows(o)))
Is(k) == obj.k = k
Is2 == \E i \in 1..Len(hist) : hist[i].op \in {"mix", "flip"}
\* A question changes nothing.
Ask1(c) == len < 100 /\ obj' = obj /\ len' = 100 /\ hist' = Append(hist, c)

NFvk == Is("sk") /\ Go(MFvk(obj), [op |-> "fvk"])
NAsk == Is("sk") /\ Go(MAsk(obj), [op |-> "ask"])
NAk1 == Is("ask") /\ Go(MAkOfAsk(obj), [op |-> "ak"])
NAk2 == Is("fvk") /\ Go(MAkOfFvk(obj), [op |-> "ak"])
NIvk == Is("fvk") /\ \E sc \in Scopes : Go(MIvk(obj, sc), [op |-> "ivk", scope |-> sc])
NOvk == Is("fvk") /\ \E sc \in Scopes : Go(MOvk(obj, sc), [op |-> "ovk", scope |-> sc])
NAddr1 == Is("fvk") /\ \E sc \in Scopes, j \in J : Go(MFvkAddrAt(obj, sc, j), [op |-> "addr_at", scope |-> sc, j |-> j.s])
NAddr2 == Is("ivk") /\ \E j \in J : Go(MAddrAt(obj, j), [op |-> "addr_at", scope |-> "-", j |-> j.s])
NAddr3 == Is("fvk") /\ \E sc \in Scopes, d \in D : Go(MFvkAddrD(obj, sc, d), [op |-> "addr_d", scope |-> sc, d |-> d.s])
NAddr4 == Is("ivk") /\ \E d \in D : Go(MAddrD(obj, d), [op |-> "addr_d", scope |-> "-", d |-> d.s])
NDiv == Is("addr") /\ ~Is2 /\ Go(MDiv(obj), [op |-> "div"])
\* An address again, from its own diversifier.
NReaddr == Is("addr") /\ ~Is2 /\ Go(obj, [op |-> "readdress"])
NRand == \E al \in Alphas :
   \/ Is("ask") /\ Go(MRsk(obj, al), [op |-> "randomize", alpha |-> al.s])
   \/ Is("rsk") /\ Go(MRkOfRsk(obj), [op |-> "vk"])
   \/ Is("ak") /\ Go(MRkOfAk(obj, al), [op |-> "randomize", alpha |-> al.s])
\* Writing an object out and reading it back changes nothing.
NReser == Resers /\ obj.k \in {"sk", "fvk", "ivk", "ovk", "addr", "ak", "div", "rsk", "rk"}
          /\ \E how \in (IF Is("fvk") THEN {"bytes", "io"} ELSE {"bytes"}) : Go(obj, [op |-> "reser", how |-> how])

\* Altered addresses.
NAlter == Queries /\ Is("addr") /\ ~Is2 /\
   \/ \E x \in X, sc \in Scopes, j \in J :
        Go(MMix(obj, CanonIvk(x, sc), j), [op |-> "mix", x |-> x.s, scope |-> sc, j |-> j.s])
   \/ Go(MFlip(obj), [op |-> "flip"])
\* Who does this address belong to, and what is its index?
NQuery == Queries /\ Is("addr") /\ \E x \in X :
   \/ Ask1([op |-> "scope_of", x |-> x.s])
   \/ \E sc \in Scopes : LET i == CanonIvk(x, sc) IN
        Ask1([op |-> "index_of", x |-> x.s, scope |-> sc, want |-> IndexOf(i, obj)])

Next == NAlter \/ NQuery \/ NFvk \/ NAsk \/ NAk1 \/ NAk2 \/ NIvk \/ NOvk \/ NAddr1 \/ NAddr2 \/ NAddr3 \/ NAddr4 \/ NDiv \/ NReaddr \/ NRand \/ NReser
Spec == Init /\ [][Next]_gvars
Emit == CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.OUT)

---------------------------------------------------------------------------
\* C15: every object reached is the one the protocol derives from the seed.
Canonical ==
  LET xs == {x \in X : x.s = hist[1].x} IN \A x \in xs :
  CASE obj.k = "fvk" -> obj.fvk = FvkOf(x)
    [] obj.k = "ak"  -> obj.ak = AkOf(Ask(x))
    [] obj.k = "ivk" -> obj \in {CanonIvk(x, sc) : sc \in Scopes}
    [] obj.k = "ovk" -> obj.ovk \in {OvkOf(Scoped(FvkOf(x), sc)) : sc \in Scopes}
    [] obj.k = "addr" -> Is2 \/ \E sc \in Scopes : obj.pk = PkD(CanonIvk(x, sc).ivk, obj.d)
    [] obj.k = "rk" -> \E al \in Alphas : obj.p \in CanonRk(x, al)
    [] OTHER -> TRUE
\* Scopes and seeds never share a viewing key.
Separate == \A x, y \in X, a, b \in Scopes :
  (x # y \/ a # b) => /\ CanonIvk(x, a) # CanonIvk(y, b)
                      /\ CanonIvk(x, a).ivk # CanonIvk(y, b).ivk
                      /\ CanonIvk(x, a).dk # CanonIvk(y, b).dk
                      /\ OvkOf(Scoped(FvkOf(x), a)) # OvkOf(Scoped(FvkOf(y), b))
\* Capabilities only go down.
Downward == [][Level(obj') <= Level(obj)]_gvars
\* C17: recognition finds the scope and index that made an address.
RecognizedBack ==
  (obj.k = "addr" /\ len # 100) => \A x \in X : LET f == OFvk(FvkOf(x)) IN
     /\ x.s # hist[1].x => ScopeOf(f, obj) = "none"
     /\ (x.s = hist[1].x /\ ~Is2) => ScopeOf(f, obj) # "none"
     /\ \A sc \in Scopes, j \in J :
          LET i == CanonIvk(x, sc) IN
          obj = MAddrAt(i, j) => ScopeOf(f, obj) = sc /\ IndexOf(i, obj) = j
=============================================================================
