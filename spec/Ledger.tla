------------------------------ MODULE Ledger ------------------------------
(***************************************************************************)
(* Coins of minievm (x/bank on top of ERC20 contracts): module mint/burn,  *)
(* bank sends, send restrictions, direct use of the ERC20 contracts by     *)
(* their holders, creation of tokens by the chain, the factory and users,  *)
(* and the registry that decides which contracts are coins.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
  Users,      \* externally owned accounts
  Mods,       \* module accounts (all of them blocked recipients)
  Minters, Burners,   \* module accounts with these permissions
  Chain,      \* chain denoms that may be minted by modules
  Created0,   \* those of them that exist at the start
  Customs,    \* contracts users may deploy: "K1" registers itself, "K2" does not
  Amts,
  MaxSteps, MaxTok,
  Acts,       \* enabled actions
  Rich,       \* start with a token that users and modules hold
  Record

VARIABLES bal, sup, con, owner, allw, se, dflt, allowCustom, allowed, reg, listed, deployed, nfac, rules, steps, hist

vars == <<bal, sup, con, owner, allw, se, dflt, allowCustom, allowed, reg, listed, deployed, nfac, rules, steps, hist>>
AllwList == {[o |-> k[1], s |-> k[2], d |-> k[3], n |-> allw[k]] : k \in DOMAIN allw}
state == [bal |-> bal, sup |-> sup, con |-> con, owner |-> owner, allw |-> AllwList, se |-> se, dflt |-> dflt, allowCustom |-> allowCustom,
          allowed |-> allowed, reg |-> reg, listed |-> listed, deployed |-> deployed, nfac |-> nfac]

FC == "FC"                 \* the fee collector, which also is the community pool
P == "P"                   \* a contract that holds coins and acts on request
Actors == Users \cup {P}
Accts == Actors \cup Mods
CHAIN == "CHAIN"           \* the owner of chain created tokens

Get(f, a, d) == IF a \in DOMAIN f THEN f[a] ELSE d
Put(f, a, v) == (a :> v) @@ f
Bal(b, a, d) == Get(Get(b, a, <<>>), d, 0)
Set(b, a, d, v) == Put(b, a, Put(Get(b, a, <<>>), d, v))

RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumOver(f, S \ {x})

Tname(k) == "T." \o ToString(k)
Toks == {Tname(k) : k \in 0..(MaxTok - 1)}
EvmDenoms == Toks \cup Customs                \* denoms derived from contract addresses
Exists(d) == d \in DOMAIN con                 \* the denom has a deployed contract
Denoms == Chain \cup (EvmDenoms \cap DOMAIN con)

Holders == {"U1", "U2", "P", "OP"} \cap Accts
T0 == Tname(0)
TokHolders == {"U1", "P", "OP", "TR"} \cap Accts
\* how the real chain gets into the rich start
Prefix ==
  << [a |-> "newtoken", f |-> "U1"],
     [a |-> "tokmint", f |-> "U1", t |-> "U1", d |-> T0, n |-> 15],
     [a |-> "tokmint", f |-> "U1", t |-> "P", d |-> T0, n |-> 5],
     [a |-> "acctomod", f |-> "U1", t |-> "OP", c |-> (T0 :> 5)],
     [a |-> "acctomod", f |-> "U1", t |-> "TR", c |-> (T0 :> 5)] >>

Init ==
  /\ bal = IF Rich THEN [a \in Holders \cup TokHolders |-> [d \in (IF a \in Holders THEN Created0 ELSE {}) \cup (IF a \in TokHolders THEN {T0} ELSE {}) |-> 5]]
            ELSE [a \in Holders |-> [d \in Created0 |-> 5]]
  /\ sup = [d \in Created0 |-> 5 * Cardinality(Holders)] @@ (IF Rich THEN (T0 :> 5 * Cardinality(TokHolders)) ELSE <<>>)
  /\ con = [d \in Created0 |-> "G"] @@ (IF Rich THEN (T0 :> T0) ELSE <<>>)          \* G: created before
  /\ owner = [d \in Created0 |-> CHAIN] @@ (IF Rich THEN (T0 :> "U1") ELSE <<>>)
  /\ allw = <<>> /\ se = <<>> /\ dflt = TRUE
  /\ allowCustom = TRUE /\ allowed = {}
  /\ reg = DOMAIN con
  /\ listed = UNION {{<<a, d>> : d \in DOMAIN bal[a]} : a \in DOMAIN bal}
  /\ deployed = {} /\ rules = <<>>
  /\ nfac = (IF Rich THEN 1 ELSE 0) /\ steps = 0
  /\ hist = IF Rich /\ Record THEN [i \in 1..Len(Prefix) |-> [op |-> Prefix[i], ok |-> TRUE, skip |-> TRUE]] ELSE <<>>

---------------------------------------------------------------------------
(* coins: a non-empty function from denoms to positive amounts *)

One(d, a) == (d :> a)
Coins(S) ==
  {One(d, a) : d \in S, a \in Amts} \cup
  (IF "multi" \in Acts THEN {One(d, a) @@ One(e, a) : d \in S, e \in S, a \in Amts} ELSE {})

RECURSIVE MoveAll(_, _, _, _, _)
\* <<ok, balances>> after moving coins c of the denoms in S
MoveAll(b, f, t, c, S) ==
  IF S = {} THEN <<TRUE, b>>
  ELSE LET d == CHOOSE x \in S : TRUE IN
    IF ~Exists(d) \/ Bal(b, f, d) < c[d] THEN <<FALSE, b>>
    ELSE LET b1 == Set(b, f, d, Bal(b, f, d) - c[d])
             b2 == Set(b1, t, d, Bal(b1, t, d) + c[d])
         IN MoveAll(b2, f, t, c, S \ {d})

Receive(l, t, c) == l \cup {<<t, d>> : d \in {x \in DOMAIN c : x \in reg}}

Log(op, ok) == /\ steps' = steps + 1
               /\ hist' = IF Record THEN Append(hist, [op |-> op, ok |-> ok, post |-> state']) ELSE hist

Keep == UNCHANGED <<bal, sup, con, owner, allw, se, dflt, allowCustom, allowed, reg, listed, deployed, nfac, rules>>
Refused(op) == /\ Record => RandomElement(1..4) = 1      \* fewer of them when generating
               /\ Keep /\ Log(op, FALSE)
Go == steps < MaxSteps
On(a) == a \in Acts /\ Go
G(S) == IF Go THEN S ELSE {}

TransferOp(op, f, t, c) ==
  LET m == MoveAll(bal, f, t, c, DOMAIN c) IN
  IF m[1] THEN /\ bal' = m[2]
               /\ listed' = Receive(listed, t, c)
               /\ UNCHANGED <<sup, con, owner, allw, se, dflt, allowCustom, allowed, reg, deployed, nfac, rules>>
               /\ Log(op, TRUE)
  ELSE Refused(op)

SendEnabled(d) == Get(se, d, dflt)

\* the restrictions that modules hang before (B) and after (A) the bank's own: each names, for a recipient, who receives instead,
\* or "no" when nobody may; the one before is asked first
Rule(k, t) == Get(rules, <<k, t>>, t)
Target(t) == IF Rule("B", t) = "no" THEN "no" ELSE Rule("A", Rule("B", t))
\* what the bank sends obeys them; what contracts move, is minted, or is delegated does not
BankOp(op, f, t, c) ==
  IF Target(t) = "no" THEN Keep /\ Log(op @@ [r |-> "no"], FALSE) ELSE TransferOp(op @@ [r |-> Target(t)], f, Target(t), c)

SetRule ==
  /\ On("rules")
  /\ \E k \in {"B", "A"}, t \in G(Accts), v \in G(Accts) \cup {"no"} :
       /\ rules' = IF v = t THEN [x \in DOMAIN rules \ {<<k, t>>} |-> rules[x]] ELSE Put(rules, <<k, t>>, v)
       /\ UNCHANGED <<bal, sup, con, owner, allw, se, dflt, allowCustom, allowed, reg, listed, deployed, nfac>>
       /\ Log([a |-> "rule", k |-> k, t |-> t, v |-> v], TRUE)

\* denoms that a message may name: chain denoms and existing contract denoms
Named == Chain \cup (EvmDenoms \cap DOMAIN con)

Send ==
  /\ On("send")
  /\ \E f \in G(Actors), t \in G(Accts), c \in G(Coins(Named)) :
       LET op == [a |-> "send", f |-> f, t |-> t, c |-> c] IN
       IF (\E d \in DOMAIN c : ~SendEnabled(d)) \/ t \in Mods
       THEN Refused(op) ELSE BankOp(op, f, t, c)

\* transfers made by modules
ModToAcc ==
  /\ On("modsend")
  /\ \E m \in G(Mods), t \in G(Accts), c \in G(Coins(Named)) :
       LET op == [a |-> "modtoacc", f |-> m, t |-> t, c |-> c] IN
       IF t \in Mods THEN Refused(op) ELSE BankOp(op, m, t, c)
AccToMod ==
  /\ On("modsend")
  /\ \E f \in G(Actors), m \in G(Mods), c \in G(Coins(Named)) :
       BankOp([a |-> "acctomod", f |-> f, t |-> m, c |-> c], f, m, c)
ModToMod ==
  /\ On("modsend")
  /\ \E m \in G(Mods), n \in G(Mods), c \in G(Coins(Named)) :
       BankOp([a |-> "modtomod", f |-> m, t |-> n, c |-> c], m, n, c)

\* coins go to a module and come back for staking: neither restrictions nor the list of blocked accounts matter
Delegate ==
  /\ On("delegate")
  /\ \E f \in G(Actors), m \in G(Mods), c \in G(Coins(Named)) :
       TransferOp([a |-> "delegate", f |-> f, t |-> m, c |-> c], f, m, c)
Undelegate ==
  /\ On("delegate")
  /\ \E m \in G(Mods), t \in G(Accts), c \in G(Coins(Named)) :
       TransferOp([a |-> "undelegate", f |-> m, t |-> t, c |-> c], m, t, c)

---------------------------------------------------------------------------
(* module mint and burn *)

\* chain denoms in their lexical order, in which coins are processed
Rank == [d \in Chain |-> IF d = "stake" THEN 1 ELSE IF d = "ubar" THEN 2 ELSE 3]

RECURSIVE MintAll(_, _, _, _)
\* world W = [bal, sup, con, owner, reg, listed, nfac]; coins in denom order do not matter
MintAll(W, m, c, S) ==
  IF S = {} THEN W
  ELSE LET d == CHOOSE x \in S : \A y \in S : Rank[x] <= Rank[y]
           new == d \notin DOMAIN W.con
           W1 == IF new THEN [W EXCEPT !.con = Put(@, d, Tname(W.nfac)), !.owner = Put(@, d, CHAIN), !.reg = @ \cup {d}, !.nfac = @ + 1,
                                       !.sup = Put(@, d, 0)] ELSE W
           W2 == [W1 EXCEPT !.bal = Set(@, m, d, Bal(@, m, d) + c[d]), !.sup = Put(@, d, @[d] + c[d]),
                            !.listed = @ \cup {<<m, d>>}]
       IN MintAll(W2, m, c, S \ {d})

Mint ==
  /\ On("mint")
  /\ \E m \in G(Mods), c \in G(Coins(Named)) :
       LET op == [a |-> "mint", f |-> m, t |-> m, c |-> c] IN
       IF m \notin Minters \/ (DOMAIN c) \cap EvmDenoms # {}
       THEN Refused(op)
       ELSE LET W == MintAll([bal |-> bal, sup |-> sup, con |-> con, owner |-> owner, reg |-> reg, listed |-> listed, nfac |-> nfac], m, c, DOMAIN c) IN
            /\ W.nfac <= MaxTok
            /\ bal' = W.bal /\ sup' = W.sup /\ con' = W.con /\ owner' = W.owner /\ reg' = W.reg /\ listed' = W.listed /\ nfac' = W.nfac
            /\ UNCHANGED <<allw, se, dflt, allowCustom, allowed, deployed, rules>>
            /\ Log(op, TRUE)

\* contract derived coins cannot be burned by the chain: they go to the pool
Burn ==
  /\ On("burn")
  /\ \E m \in G(Mods), c \in G(Coins(Named)) :
       LET op == [a |-> "burn", f |-> m, t |-> m, c |-> c]
           ev == (DOMAIN c) \cap EvmDenoms
           pool == Target(FC)
           ok == m \in Burners /\ (\A d \in DOMAIN c : Exists(d) /\ Bal(bal, m, d) >= c[d]) /\ (ev # {} => pool # "no")
           mv == MoveAll(bal, m, IF ev = {} THEN FC ELSE pool, c, ev)
           nat == (DOMAIN c) \ ev
       IN IF ~ok THEN Refused(op)
          ELSE /\ bal' = Put(mv[2], m, [d \in DOMAIN mv[2][m] |-> IF d \in nat THEN mv[2][m][d] - c[d] ELSE mv[2][m][d]])
               /\ sup' = [d \in DOMAIN sup |-> IF d \in nat THEN sup[d] - c[d] ELSE sup[d]]
               /\ listed' = Receive(listed, IF ev = {} THEN FC ELSE pool, [d \in ev |-> c[d]])
               /\ UNCHANGED <<con, owner, allw, se, dflt, allowCustom, allowed, reg, deployed, nfac, rules>>
               /\ Log(op, TRUE)

---------------------------------------------------------------------------
(* send restrictions, by the authority only *)

SetSend ==
  /\ On("setsend")
  /\ \E d \in G(Named), v \in {"on", "off", "default", "dup"}, auth \in BOOLEAN :
       LET op == [a |-> "setsend", d |-> d, v |-> v, auth |-> auth] IN
       IF ~auth \/ v = "dup" THEN Refused(op)
       ELSE /\ se' = IF v = "default" THEN [x \in DOMAIN se \ {d} |-> se[x]] ELSE Put(se, d, v = "on")
            /\ UNCHANGED <<bal, sup, con, owner, allw, dflt, allowCustom, allowed, reg, listed, deployed, nfac, rules>>
            /\ Log(op, TRUE)
SetDefault ==
  /\ On("setsend")
  /\ \E v \in BOOLEAN, auth \in BOOLEAN :
       LET op == [a |-> "setdefault", v |-> IF v THEN "on" ELSE "off", auth |-> auth] IN
       IF ~auth THEN Refused(op)
       ELSE /\ dflt' = v
            /\ UNCHANGED <<bal, sup, con, owner, allw, se, allowCustom, allowed, reg, listed, deployed, nfac, rules>>
            /\ Log(op, TRUE)

---------------------------------------------------------------------------
(* the ERC20 contracts, used by their holders *)

Allw(o, s, d) == Get(allw, <<o, s, d>>, 0)
ExistD == DOMAIN con

TokTransfer ==
  /\ On("erc20")
  /\ \E f \in G(Actors), t \in G(Accts), d \in G(ExistD), n \in G(Amts \cup {0}) :
       LET op == [a |-> "transfer", f |-> f, t |-> t, d |-> d, n |-> n] IN
       IF t \in Mods THEN Refused(op) ELSE TransferOp(op, f, t, One(d, n))

TokApprove ==
  /\ On("allow")
  /\ \E f \in G(Actors), t \in G(Actors), d \in G(ExistD), n \in G(Amts \cup {0}) :
       /\ allw' = Put(allw, <<f, t, d>>, n)
       /\ UNCHANGED <<bal, sup, con, owner, se, dflt, allowCustom, allowed, reg, listed, deployed, nfac, rules>>
       /\ Log([a |-> "approve", f |-> f, t |-> t, d |-> d, n |-> n], TRUE)

TokTransferFrom ==
  /\ On("allow")
  /\ \E s \in G(Actors), f \in G(Actors), t \in G(Accts), d \in G(ExistD), n \in G(Amts) :
       LET op == [a |-> "transferfrom", s |-> s, f |-> f, t |-> t, d |-> d, n |-> n]
           m == MoveAll(bal, f, t, One(d, n), {d}) IN
       IF t \in Mods \/ Allw(f, s, d) < n \/ ~m[1] THEN Refused(op)
       ELSE /\ allw' = Put(allw, <<f, s, d>>, Allw(f, s, d) - n)
            /\ bal' = m[2] /\ listed' = Receive(listed, t, One(d, n))
            /\ UNCHANGED <<sup, con, owner, se, dflt, allowCustom, allowed, reg, deployed, nfac, rules>>
            /\ Log(op, TRUE)

TokMint ==
  /\ On("erc20")
  /\ \E f \in G(Actors), t \in G(Accts), d \in G(ExistD), n \in G(Amts) :
       LET op == [a |-> "tokmint", f |-> f, t |-> t, d |-> d, n |-> n] IN
       IF owner[d] # f \/ t \in Mods THEN Refused(op)
       ELSE /\ bal' = Set(bal, t, d, Bal(bal, t, d) + n)
            /\ sup' = Put(sup, d, sup[d] + n)
            /\ listed' = Receive(listed, t, One(d, n))
            /\ UNCHANGED <<con, owner, allw, se, dflt, allowCustom, allowed, reg, deployed, nfac, rules>>
            /\ Log(op, TRUE)

TokBurn ==
  /\ On("tokburn")
  /\ \E f \in G(Actors), d \in G(ExistD), n \in G(Amts) :
       LET op == [a |-> "tokburn", f |-> f, d |-> d, n |-> n] IN
       IF Bal(bal, f, d) < n THEN Refused(op)
       ELSE /\ bal' = Set(bal, f, d, Bal(bal, f, d) - n) /\ sup' = Put(sup, d, sup[d] - n)
            /\ UNCHANGED <<con, owner, allw, se, dflt, allowCustom, allowed, reg, listed, deployed, nfac, rules>>
            /\ Log(op, TRUE)

TokBurnFrom ==
  /\ On("allow")
  /\ \E s \in G(Actors), f \in G(Actors), d \in G(ExistD), n \in G(Amts) :
       LET op == [a |-> "burnfrom", s |-> s, f |-> f, d |-> d, n |-> n] IN
       IF Allw(f, s, d) < n \/ Bal(bal, f, d) < n THEN Refused(op)
       ELSE /\ allw' = Put(allw, <<f, s, d>>, Allw(f, s, d) - n)
            /\ bal' = Set(bal, f, d, Bal(bal, f, d) - n) /\ sup' = Put(sup, d, sup[d] - n)
            /\ UNCHANGED <<con, owner, se, dflt, allowCustom, allowed, reg, listed, deployed, nfac, rules>>
            /\ Log(op, TRUE)

\* the privileged entry points are for the chain only
TokSudo ==
  /\ On("sudo")
  /\ \E f \in G(Actors), t \in G(Actors), d \in G(ExistD), k \in {"sudoMint", "sudoBurn", "sudoTransfer"} :
       Refused([a |-> "sudo", k |-> k, f |-> f, t |-> t, d |-> d, n |-> 1])

TokOwner ==
  /\ On("owner")
  /\ \E f \in G(Actors), t \in G(Actors), d \in G(ExistD) :
       LET op == [a |-> "setowner", f |-> f, t |-> t, d |-> d] IN
       IF owner[d] # f THEN Refused(op)
       ELSE /\ owner' = Put(owner, d, t)
            /\ UNCHANGED <<bal, sup, con, allw, se, dflt, allowCustom, allowed, reg, listed, deployed, nfac, rules>>
            /\ Log(op, TRUE)

---------------------------------------------------------------------------
(* where tokens come from *)

NewToken ==
  /\ On("factory") /\ nfac < MaxTok
  /\ \E f \in G(Actors) :
       LET d == Tname(nfac) IN
       /\ con' = Put(con, d, d) /\ owner' = Put(owner, d, f) /\ reg' = reg \cup {d} /\ sup' = Put(sup, d, 0) /\ nfac' = nfac + 1
       /\ UNCHANGED <<bal, allw, se, dflt, allowCustom, allowed, listed, deployed, rules>>
       /\ Log([a |-> "newtoken", f |-> f], TRUE)

MayRegister(x) == allowCustom /\ (allowed = {} \/ x \in allowed)

Deploy ==
  /\ On("custom")
  /\ \E x \in G(Customs) :
       LET op == [a |-> "deploy", d |-> x, f |-> "U1"] IN
       IF x \in deployed \/ (x = "K1" /\ ~MayRegister("K1"))
       THEN Refused(op)
       ELSE /\ deployed' = deployed \cup {x}
            /\ con' = Put(con, x, x) /\ owner' = Put(owner, x, "U1") /\ sup' = Put(sup, x, 0)
            /\ reg' = IF x = "K1" THEN reg \cup {x} ELSE reg
            /\ UNCHANGED <<bal, allw, se, dflt, allowCustom, allowed, listed, nfac, rules>>
            /\ Log(op, TRUE)

CustomParams ==
  /\ On("custom")
  /\ \E v \in BOOLEAN, S \in SUBSET {"K1", "P"} :
       /\ allowCustom' = v /\ allowed' = S
       /\ UNCHANGED <<bal, sup, con, owner, allw, se, dflt, reg, listed, deployed, nfac, rules>>
       /\ Log([a |-> "params", v |-> IF v THEN "on" ELSE "off", s |-> S], TRUE)

\* an arbitrary contract asks for itself
Register ==
  /\ On("custom")
  /\ LET op == [a |-> "register"] IN
     IF ~allowCustom \/ (P \notin reg /\ ~MayRegister(P)) THEN Refused(op)
     ELSE /\ reg' = reg \cup {P}
          /\ UNCHANGED <<bal, sup, con, owner, allw, se, dflt, allowCustom, allowed, listed, deployed, nfac, rules>>
          /\ Log(op, TRUE)
\* only the factory may register another contract
RegisterOther ==
  /\ On("custom")
  /\ \E d \in G(Customs \cup {P}) : Refused([a |-> "registerother", d |-> d])
\* a contract announces an account as its holder: taken only from registered ones
RegisterStore ==
  /\ On("custom")
  /\ \E t \in G(Accts) :
       /\ listed' = IF P \in reg THEN listed \cup {<<t, P>>} ELSE listed
       /\ UNCHANGED <<bal, sup, con, owner, allw, se, dflt, allowCustom, allowed, reg, deployed, nfac, rules>>
       /\ Log([a |-> "registerstore", t |-> t], TRUE)

---------------------------------------------------------------------------
\* the whole state is exported and another chain goes on from the export
Reimport ==
  /\ On("reimport")
  /\ Keep /\ Log([a |-> "reimport"], TRUE)

Finish == /\ steps = MaxSteps /\ steps' = steps + 1
          /\ (Record => PrintT(ToJson(hist)))
          /\ Keep /\ hist' = hist

Next == \/ Send \/ ModToAcc \/ AccToMod \/ ModToMod \/ SetRule \/ Delegate \/ Undelegate \/ Mint \/ Burn \/ SetSend \/ SetDefault
        \/ TokTransfer \/ TokApprove \/ TokTransferFrom \/ TokMint \/ TokBurn \/ TokBurnFrom \/ TokSudo \/ TokOwner
        \/ NewToken \/ Deploy \/ CustomParams \/ Register \/ RegisterOther \/ RegisterStore
        \/ Reimport \/ Finish
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* Properties *)

Total(d) == SumOver([a \in DOMAIN bal |-> Bal(bal, a, d)], DOMAIN bal)
\* B01
SupplyIsSum == \A d \in DOMAIN sup : Total(d) = sup[d]
NoNegative == \A a \in DOMAIN bal : \A d \in DOMAIN bal[a] : bal[a][d] >= 0
OnlyKnown == \A a \in DOMAIN bal : \A d \in DOMAIN bal[a] : bal[a][d] > 0 => Exists(d)
\* B02: what is held of a registered coin is listed
HeldIsListed == \A a \in DOMAIN bal : \A d \in DOMAIN bal[a] : (d \in reg /\ bal[a][d] > 0) => <<a, d>> \in listed
\* B04
OneToOne == \A d, e \in DOMAIN con : (con[d] = con[e] /\ d # e) => con[d] = "G"
ConStable == [][\A d \in DOMAIN con : d \in DOMAIN con' /\ con'[d] = con[d]]_vars
\* foreign tokens: the supply grows only when their owner mints
ForeignSupply == [][\A d \in (DOMAIN sup) \cap EvmDenoms : sup'[d] > sup[d] => owner[d] \in Actors]_vars
\* B05
ListedIsRegistered == \A x \in listed : x[2] \in reg
RegStable == [][reg \subseteq reg']_vars
RegOnly == [][\A d \in reg' \ reg : d \in Chain \cup Toks \/ MayRegister(d)]_vars
\* blocked accounts never receive from bank messages or contract transfers
View == <<bal, sup, con, owner, allw, se, dflt, allowCustom, allowed, reg, listed, deployed, nfac, rules, steps>>
=============================================================================
