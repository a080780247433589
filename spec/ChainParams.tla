----------------------------- MODULE ChainParams -----------------------------
(***************************************************************************)
(* The parameters of the EVM module, who may change them, and what they    *)
(* govern: who may publish contracts, in which coin value moves, which     *)
(* block hashes are kept; and what contracts see of the chain and of the   *)
(* transaction they run in.                                                *)
(*                                                                         *)
(* At height h the hash that the application is told is kept under h - 1.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
  Coins,           \* names of coins with a working contract
  Window,          \* how far back contracts can look (256)
  Retains, Jumps,
  Acts, MaxSteps, Record

VARIABLES
  h, now,          \* height and time of the running block
  par,             \* parameters
  bal,             \* bal[coin][account]
  kept,            \* heights whose hashes are stored
  price,           \* least gas price of each coin: [m, e] is m * 10^-e units
  made,            \* number of contracts created by each actor
  meta,            \* meta[coin]: which description it was given, zero if none
  n, out, hist

vars == <<h, now, par, bal, kept, price, made, meta, n, out, hist>>

\* LO has an address of 32 bytes; P is a contract that sends messages when asked; AU is the authority
Actors == {"U1", "U2", "LO", "P"}
Auths == {"AU", "U1", "P"}
\* decimals of the coins' contracts
Dec(c) == CASE c = "K6" -> 6 [] c = "K17" -> 17 [] c = "stake" -> 18 [] OTHER -> 0

\* spellings of addresses: of an account in lower and upper case, and things that are not account addresses
Good == {[a |-> a, s |-> s] : a \in Actors, s \in {"low", "up"}}
Bad == {[a |-> a, s |-> s] : a \in {"U1"}, s \in {"hex", "text", "mixed", "none"}}
\* contracts may be given in hexadecimal as well
GoodC == {[a |-> a, s |-> s] : a \in {"U1", "P"}, s \in {"low", "hex"}}
BadC == {[a |-> "U1", s |-> s] : s \in {"text", "short"}}
\* fee coins that are refused: none, unknown, a contract address without contract, a contract that reverts, a token that does not let the chain mint, not an address
BadCoins == IF ~Record THEN {"unknown"} ELSE {"", "unknown", "evm.none", "evm.revert", "evm.plain", "evm.text", "evm.puppet"}
GoodRatios == IF ~Record THEN {500} ELSE {0, 1, 500, 1000}     \* in thousandths
BadRatios == IF ~Record THEN {1001} ELSE {-1, 1001, 5000, 7777} \* 7777: left out

\* what descriptions are given to: the coins and a name without contract. Descriptions up to Valids are valid, the others each break a rule
Described == Coins \cup {"unknown"}
Valids == 3
Descriptions == IF Record THEN 1..9 ELSE {1, 4}

Pick(S) == IF Record THEN {RandomElement(S)} ELSE S
Often(k, S, T) == IF Record THEN IF RandomElement(1..(100 + n - n)) <= k THEN {RandomElement(S)} ELSE {RandomElement(T)} ELSE S \cup T

RetainOk(r) == r = 0 \/ r >= Window
Valid(p) == /\ p.denom \in Coins /\ p.ratio \in GoodRatios /\ RetainOk(p.retain)
            /\ \A i \in 1..Len(p.pubs) : p.pubs[i] \in Good
            /\ \A i \in 1..Len(p.ercs) : p.ercs[i] \in GoodC

Init ==
  /\ h = 1 /\ now = 100 /\ kept = {} /\ n = 0 /\ out = [op |-> [a |-> "none"], ok |-> TRUE] /\ hist = <<>>
  /\ par = [pubs |-> <<>>, allow |-> TRUE, ercs |-> <<>>, denom |-> "stake", ratio |-> 500, retain |-> Window, eips |-> <<>>]
  /\ bal = [c \in Coins |-> [a \in Actors |-> 5]]
  /\ price = [c \in Coins |-> [m |-> 0, e |-> 3]]
  /\ made = [a \in Actors |-> 0]
  /\ meta = [c \in Described |-> 0]

---------------------------------------------------------------------------
(* hashes *)

\* what BLOCKHASH answers for i: the hash of i or zero
Visible(i) == i >= 1 /\ i < h /\ i + Window >= h /\ i \in kept

\* heights worth asking for
Probes == {i \in {0, 1, h, h + 1, h - 1, h - 2, h - Window - 1, h - Window, h - Window + 1, h - (Window \div 2)} : i >= 0}
          \cup (IF Record /\ h > 2 THEN {RandomElement(0..h), RandomElement(0..h)} ELSE {})

RECURSIVE Ten(_)
Ten(k) == IF k = 0 THEN 1 ELSE 10 * Ten(k - 1)
\* a price in units of 10^-18 of a coin: <<m, e>> is m * 10^e
Scaled(c, p) == IF Dec(c) + p.e <= 18 THEN [m |-> p.m, e |-> 18 - p.e - Dec(c)] ELSE [m |-> p.m \div Ten(Dec(c) + p.e - 18), e |-> 0]

State == [h |-> h, now |-> now, par |-> par, bal |-> bal, made |-> made, meta |-> meta, price |-> price, base |-> Scaled(par.denom, price[par.denom])]
Log(o, ok, x) == /\ out' = [op |-> o, ok |-> ok] /\ n' = n + 1
                 /\ hist' = IF Record THEN Append(hist, [op |-> o, ok |-> ok, post |-> State', x |-> x]) ELSE hist
None == [none |-> TRUE]
Refuse(o) == UNCHANGED <<h, now, par, bal, kept, price, made, meta>> /\ Log(o, FALSE, None)
Go(a) == a \in Acts /\ n < MaxSteps

---------------------------------------------------------------------------

\* k blocks pass
Blocks ==
  /\ Go("blocks") /\ \E k \in Pick(Jumps), dt \in Pick({1, 7}) :
       LET new == h..(h + k - 1) r == par.retain IN
       /\ kept' = (kept \cup new) \ (IF r = 0 THEN {} ELSE {j - r : j \in {i \in new : i > r}})
       /\ h' = h + k /\ now' = now + k * dt
       /\ UNCHANGED <<par, bal, price, made, meta>> /\ Log([a |-> "blocks", k |-> k, dt |-> dt], TRUE, None)

Prices == IF Record THEN [m : {0, 1, 15, 999, 1500, 20000}, e : {3}] \cup [m : {1, 7, 1234567}, e : {9}] ELSE {[m |-> 0, e |-> 3], [m |-> 1500, e |-> 3], [m |-> 7, e |-> 9]}
\* contracts look at the hashes and at what they run in
Look ==
  /\ Go("look") /\ \E w \in Pick(Actors \ {"P"}), via \in Pick({"call", "nested", "static"}), gp \in Pick(Prices) :
     \E asked \in {Probes} :
       /\ UNCHANGED <<h, now, par, bal, kept, price, made, meta>>
       /\ Log([a |-> "look", w |-> w, via |-> via, gp |-> gp], TRUE,
              [asked |-> [i \in asked |-> Visible(i)], gasprice |-> Scaled(par.denom, IF via = "static" THEN [m |-> 0, e |-> 3] ELSE gp)])

Lists(G, B) ==
  IF Record THEN
    LET k == RandomElement(1..(100 + n - n)) IN
    IF k <= 22 THEN {<<>>}
    ELSE IF k <= 55 THEN {<<RandomElement(G)>>}
    ELSE IF k <= 90 THEN {<<RandomElement(G), RandomElement(G), RandomElement(G)>>}
    ELSE IF k <= 95 THEN {<<RandomElement(B)>>} ELSE {<<RandomElement(G), RandomElement(B)>>}
  ELSE {<<>>} \cup {<<x>> : x \in {y \in G : y.a = "U1"}} \cup {<<x, [a |-> "U1", s |-> "text"]>> : x \in {y \in G : y.a = "U1"}}

Update ==
  /\ Go("update") /\ \E auth \in Often(85, {"AU"}, Auths), pubs \in Lists(Good, Bad), ercs \in IF Record THEN Lists(GoodC, BadC) ELSE {<<>>} :
     \E d \in Often(90, Coins, BadCoins), ra \in Often(93, GoodRatios, BadRatios), re \in Pick(Retains), al \in IF Record THEN {RandomElement(BOOLEAN)} ELSE {TRUE}, ei \in IF Record THEN {RandomElement({<<>>, <<3855>>, <<3855, 9999>>})} ELSE {<<>>} :
       LET p == [pubs |-> pubs, allow |-> al, ercs |-> ercs, denom |-> d, ratio |-> ra, retain |-> re, eips |-> ei]
           o == [a |-> "update", w |-> auth, p |-> p] IN
       IF auth = "AU" /\ Valid(p) THEN par' = p /\ UNCHANGED <<h, now, bal, kept, price, made, meta>> /\ Log(o, TRUE, None)
       ELSE Refuse(o)

Listed(a) == \E i \in 1..Len(par.pubs) : par.pubs[i].a = a
\* how: as a creation with or without salt; s: how the sender is spelled. P's creation is requested by its call
Create ==
  /\ Go("create") /\ \E w \in Often(40, IF par.pubs = <<>> THEN Actors ELSE {par.pubs[i].a : i \in 1..Len(par.pubs)} \cap Actors, Actors) :
     \E how \in Pick({"create", "create2"}), s \in Pick({"low", "up"}) :
       LET o == [a |-> "create", w |-> w, how |-> how, s |-> s, z |-> n] IN
       IF par.pubs = <<>> \/ Listed(w) THEN /\ made' = [made EXCEPT ![w] = @ + 1]
                                            /\ UNCHANGED <<h, now, par, bal, kept, price, meta>> /\ Log(o, TRUE, None)
       ELSE Refuse(o)

\* value moves in the coin of the parameters
Pay ==
  /\ Go("pay") /\ \E f \in Pick(Actors \ {"P"}), t \in Pick(Actors), v \in Pick({0, 1, 3, 9}) :
       LET o == [a |-> "pay", w |-> f, t |-> t, v |-> v] d == par.denom IN
       IF v > bal[d][f] THEN Refuse(o)
       ELSE /\ bal' = [bal EXCEPT ![d] = [x \in Actors |-> @[x] - (IF x = f THEN v ELSE 0) + (IF x = t THEN v ELSE 0)]]
            /\ UNCHANGED <<h, now, par, kept, price, made, meta>> /\ Log(o, TRUE, None)

Price ==
  /\ Go("price") /\ \E c \in Pick(Coins), p \in Pick(Prices) :
       /\ price' = [price EXCEPT ![c] = p]
       /\ UNCHANGED <<h, now, par, bal, kept, made, meta>> /\ Log([a |-> "price", c |-> c, p |-> p], TRUE, None)

\* the authority describes a coin
Describe ==
  /\ Go("describe") /\ \E auth \in Often(80, {"AU"}, Auths), c \in Pick(Described), m \in Often(75, Descriptions \cap 1..Valids, Descriptions) :
       LET o == [a |-> "describe", w |-> auth, c |-> c, m |-> m] IN
       IF auth = "AU" /\ m <= Valids THEN meta' = [meta EXCEPT ![c] = m] /\ UNCHANGED <<h, now, par, bal, kept, price, made>> /\ Log(o, TRUE, None)
       ELSE Refuse(o)

\* the whole state is exported and another chain goes on from the export
Reimport == Go("reimport") /\ (Record => RandomElement(1..(4 + n - n)) = 1) /\ UNCHANGED <<h, now, par, bal, kept, price, made, meta>> /\ Log([a |-> "reimport"], TRUE, None)

Finish == n = MaxSteps /\ n' = n + 1 /\ (Record => PrintT(ToJson(hist))) /\ UNCHANGED <<h, now, par, bal, kept, price, made, meta, out, hist>>
Next == Blocks \/ Blocks \/ Look \/ Update \/ Update \/ Create \/ Create \/ Pay \/ Price \/ Describe \/ Reimport \/ Finish
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* Properties *)

Now == n < MaxSteps
\* P01
ParamsValid == Valid(par)
ByAuthority == [][Now /\ par' # par => out'.op.a = "update" /\ out'.op.w = "AU" /\ par' = out'.op.p]_vars
MetaByAuthority == [][Now /\ meta' # meta => /\ out'.op.a = "describe" /\ out'.op.w = "AU" /\ meta' = [meta EXCEPT ![out'.op.c] = out'.op.m]]_vars
MetaValid == \A c \in Described : meta[c] <= Valids
RefusedNothing == [][Now /\ ~out'.ok => UNCHANGED <<h, now, par, bal, kept, price, made, meta>>]_vars
UpdateOnlyParams == [][Now /\ out'.op.a = "update" => UNCHANGED <<h, now, bal, kept, price, made, meta>>]_vars
Conserved == \A c \in Coins : \A a \in Actors : bal[c][a] >= 0
\* P02
PublishersOnly == [][Now => \A a \in Actors : made'[a] # made[a] => par.pubs = <<>> \/ \E i \in 1..Len(par.pubs) : par.pubs[i].a = a]_vars
\* W01: whatever happened to the window, exactly the last hashes are seen
WindowSeen == \A i \in 0..(h + 1) : Visible(i) = (i >= 1 /\ i < h /\ i + Window >= h)
NeverLost == [][Now => \A i \in kept : i + Window >= h' => i \in kept']_vars
View == <<h, par, bal, kept, price, made, meta, n>>
=============================================================================
