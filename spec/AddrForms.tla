------------------------------ MODULE AddrForms ------------------------------
(***************************************************************************)
(* Accounts with addresses of 32 bytes in the EVM, whose addresses have 20 *)
(* bytes. The short form of an address is its last 20 bytes; addresses may *)
(* share it. Who first acts under a short form owns it.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Accounts, Ids, Acts, MaxSteps, Record

VARIABLES
  own,             \* own[s]: the account that acts under short form s
  bal,             \* bal[s]: coins
  nft,             \* nft[id]: short form of the holder
  n, out, hist
vars == <<own, bal, nft, n, out, hist>>

\* short forms: x is that of the users S1, L1 and L2, y of L3, z of U1; m is the address of a module, p of a contract, k of a contract that U1 may create
ShortOf(a) == CASE a \in {"S1", "L1", "L2"} -> "x" [] a = "L3" -> "y" [] a = "U1" -> "z" [] a \in {"M", "LM"} -> "m" [] a \in {"P", "LP"} -> "p" [] a \in {"K", "LK"} -> "k"
Long(a) == a \in {"L1", "L2", "L3", "LM", "LP", "LK"}
Users == Accounts \ {"M", "P", "K"}
Shorts == {ShortOf(a) : a \in Accounts}
Free == "free"

Pick(S) == IF Record THEN {RandomElement(S)} ELSE S

Init ==
  /\ own = [s \in Shorts |-> CASE s = "m" -> "M" [] s = "p" -> "P" [] OTHER -> Free]
  /\ bal = [s \in Shorts |-> IF s \in {"x", "y", "z"} THEN 9 ELSE 0]
  /\ nft = <<>> /\ n = 0 /\ out = [op |-> [a |-> "none"], ok |-> TRUE] /\ hist = <<>>

\* may account a be known under its short form?
Fits(O, a) == ~Long(a) \/ O[ShortOf(a)] \in {Free, a}
\* a signs: afterwards the short form is its own
Sign(O, a) == [O EXCEPT ![ShortOf(a)] = a]
\* an account with a short address can sign only if the address is not another's
MaySign(a) == Long(a) \/ own[ShortOf(a)] \in {Free, a}

---------------------------------------------------------------------------

View0(a) == [fits |-> Fits(own, a), n |-> bal[ShortOf(a)]]
Views == [a \in Accounts |-> View0(a)]
State == [own |-> own, bal |-> bal, nft |-> nft, views |-> Views]
Log(o, ok) == /\ out' = [op |-> o, ok |-> ok] /\ n' = n + 1
              /\ hist' = IF Record THEN Append(hist, [op |-> o, ok |-> ok, post |-> State']) ELSE hist
Go(a) == a \in Acts /\ n < MaxSteps

\* a transaction of a with one message: mine is the owner of the short forms if the message goes through. A signer of a short address has used it in any case
Tx(o, a, good, O, B, N) ==
  IF ~MaySign(a) THEN UNCHANGED <<own, bal, nft>> /\ Log(o, FALSE)
  ELSE /\ IF good THEN own' = O /\ bal' = B /\ nft' = N /\ Log(o, TRUE)
          ELSE own' = (IF Long(a) THEN own ELSE Sign(own, a)) /\ UNCHANGED <<bal, nft>> /\ Log(o, FALSE)

Moved(B, f, t, v) == [s \in Shorts |-> B[s] - (IF s = f THEN v ELSE 0) + (IF s = t THEN v ELSE 0)]

Amounts == IF Record THEN {1, 2, 5} ELSE {5}

\* coins, by the bank; modules are not given coins this way
Send ==
  /\ Go("send") /\ \E f \in Pick(Users), t \in Pick(Accounts \ {"M"}), v \in Pick(Amounts) :
       LET O == Sign(own, f) IN
       Tx([a |-> "send", f |-> f, t |-> t, v |-> v], f,
          Fits(own, f) /\ Fits(O, t) /\ bal[ShortOf(f)] >= v, O, Moved(bal, ShortOf(f), ShortOf(t), v), nft)
\* coins, as the value of a call of an address without code
Pay ==
  /\ Go("pay") /\ \E f \in Pick(Users), s \in Pick(Shorts \ {"m", "p"}), v \in Pick(Amounts) :
       /\ ~(s = "k" /\ own["k"] = "K")
       /\ Tx([a |-> "pay", f |-> f, s |-> s, v |-> v], f,
          Fits(own, f) /\ bal[ShortOf(f)] >= v, Sign(own, f), Moved(bal, ShortOf(f), s, v), nft)
\* a contract tells whom it sees
Call ==
  /\ Go("call") /\ \E f \in Pick(Users) : Tx([a |-> "call", f |-> f, s |-> ShortOf(f)], f, Fits(own, f), Sign(own, f), bal, nft)
\* f creates contracts; short forms then have counts of their own
Create ==
  /\ Go("create") /\ \E f \in Pick(Users) : Tx([a |-> "create", f |-> f], f, Fits(own, f), Sign(own, f), bal, nft)
\* f calls the chain's own contract to have coins sent by account g
Ask ==
  /\ Go("ask") /\ \E f \in Pick(Users) : \E g \in IF Record /\ RandomElement(1..(2 + n - n)) = 1 THEN {f} ELSE Pick(Users), t \in Pick(Accounts \ {"M"}), v \in Pick(Amounts) :
       LET O == Sign(own, f) IN
       Tx([a |-> "ask", f |-> f, g |-> g, t |-> t, v |-> v], f,
          Fits(own, f) /\ g = f /\ Fits(O, t) /\ bal[ShortOf(f)] >= v, O, Moved(bal, ShortOf(f), ShortOf(t), v), nft)
\* U1 creates the contract at k
Deploy ==
  /\ Go("deploy") /\ Tx([a |-> "deploy"], "U1", own["k"] = Free, [Sign(own, "U1") EXCEPT !["k"] = "K"], bal, nft)
\* coins come from a module
Gift ==
  /\ Go("gift") /\ \E t \in Pick(Accounts \ {"M"}), v \in Pick(Amounts) :
       LET o == [a |-> "gift", t |-> t, v |-> v] IN
       /\ bal["z"] < 40
       /\ IF Fits(own, t) THEN bal' = Moved(bal, "", ShortOf(t), v) /\ UNCHANGED <<own, nft>> /\ Log(o, TRUE)
          ELSE UNCHANGED <<own, bal, nft>> /\ Log(o, FALSE)
\* tokens that are not alike; contracts are not offered any
Plain == {t \in Accounts : ShortOf(t) \notin {"m", "p", "k"}}
NftMint ==
  /\ Go("nft") /\ \E i \in Pick(Ids), t \in Pick(Plain) :
       LET o == [a |-> "nftmint", i |-> i, t |-> t] IN
       IF i \notin DOMAIN nft /\ Fits(own, t) THEN nft' = (i :> ShortOf(t)) @@ nft /\ UNCHANGED <<own, bal>> /\ Log(o, TRUE)
       ELSE UNCHANGED <<own, bal, nft>> /\ Log(o, FALSE)
NftMove ==
  /\ Go("nft") /\ \E i \in Pick(Ids), f \in Pick(Users \cap Plain), t \in Pick(Plain) :
       LET O == Sign(own, f) IN
       Tx([a |-> "nftmove", i |-> i, f |-> f, t |-> t], f,
          Fits(own, f) /\ Fits(O, t) /\ i \in DOMAIN nft /\ nft[i] = ShortOf(f), O, bal, (i :> ShortOf(t)) @@ nft)
Reimport == Go("reimport") /\ (Record => RandomElement(1..(3 + n - n)) = 1) /\ UNCHANGED <<own, bal, nft>> /\ Log([a |-> "reimport"], TRUE)

Finish == n = MaxSteps /\ n' = n + 1 /\ (Record => PrintT(ToJson(hist))) /\ UNCHANGED <<own, bal, nft, out, hist>>
Next == Send \/ Send \/ Pay \/ Call \/ Create \/ Ask \/ Deploy \/ Gift \/ NftMint \/ NftMove \/ NftMove \/ Reimport \/ Finish
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* Properties *)
Now == n < MaxSteps
\* a short form is of one account for ever
OwnerForEver == [][\A s \in Shorts : own[s] # Free => own'[s] = own[s]]_vars
OwnersFit == \A s \in Shorts : own[s] = Free \/ ShortOf(own[s]) = s
\* only acting makes an owner
ByActing == [][Now => \A s \in Shorts : own'[s] # own[s] =>
    (LET o == out'.op IN IF s = "k" /\ own'[s] = "K" THEN o.a = "deploy" ELSE o.a = "deploy" \/ (o.a \notin {"gift", "nftmint", "reimport"} /\ own'[s] = o.f))]_vars
\* nobody loses coins or tokens but by acting under the address that holds them
Mine(s) == LET o == out'.op IN o.a \in {"send", "pay", "ask", "nftmove"} /\ own'[s] = o.f /\ ShortOf(o.f) = s
Loses == [][Now => \A s \in Shorts : (bal'[s] < bal[s] => (out'.ok /\ Mine(s)))]_vars
LosesNft == [][Now => \A i \in DOMAIN nft : i \in DOMAIN nft' /\ (nft'[i] # nft[i] => out'.ok /\ Mine(nft[i]))]_vars
\* what arrives arrives under the short form of the account it was sent to, and that account is not kept out
Arrives == [][(Now /\ out'.ok /\ out'.op.a \in {"send", "ask", "gift", "nftmint", "nftmove"}) => Fits(own', out'.op.t)]_vars
NoNegative == \A s \in Shorts : bal[s] >= 0
View == <<own, bal, nft, n>>
=============================================================================
