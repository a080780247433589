------------------------------ MODULE FeeView ------------------------------
(***************************************************************************)
(* What the JSON-RPC interface says about fees: the gas price, the history *)
(* of base fees and rewards, balances in the fee coin; and what the pool   *)
(* admits.  Prices are thousandths of a unit of the fee coin.              *)
(*                                                                         *)
(* The fee coin and the least prices change in blocks; the base fee of a   *)
(* block is the one in force after it.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
  Coins, Users,
  MaxTxs,          \* in a block
  CapBlocks, CapHeaders, \* the longest history that is told, with rewards and without
  Tips, Acts, MaxSteps, Record

VARIABLES
  den,             \* the fee coin
  price,           \* least prices of coins
  blocks,          \* [den, base, txs: the prices that transactions offer, [cap, tip]]
  paid,            \* paid[u]: what u paid so far in each coin, in transactions at each price
  n, out, hist

vars == <<den, price, blocks, paid, n, out, hist>>

Pick(S) == IF Record THEN {RandomElement(S)} ELSE S
Dec(c) == CASE c = "D0" -> 0 [] c = "D6" -> 6 [] c = "D18" -> 18
\* prices that Ethereum's unit can express
PricesOf(c) == IF c = "D18" THEN {0, 1000, 3000, 20000} ELSE {0, 15, 1000, 1500, 20000}
RECURSIVE Ten(_)
Ten(k) == IF k = 0 THEN 1 ELSE 10 * Ten(k - 1)
Min(a, b) == IF a < b THEN a ELSE b
\* in Ethereum's unit: m * 10^e
Wei(c, m) == IF Dec(c) <= 15 THEN [m |-> m, e |-> 15 - Dec(c)] ELSE [m |-> m \div 1000, e |-> 18 - Dec(c)]

H == Len(blocks)
Block(d, b, xs) == [den |-> d, base |-> b, txs |-> xs]

\* the rewards of a block's transactions, in rising order; all of them use the same gas
RECURSIVE Sorted(_)
Sorted(s) == IF s = <<>> THEN <<>>
             ELSE LET i == CHOOSE i \in 1..Len(s) : \A j \in 1..Len(s) : s[i] <= s[j] IN
                  <<s[i]>> \o Sorted([k \in 1..(Len(s) - 1) |-> IF k < i THEN s[k] ELSE s[k + 1]])
Rewards(b) == Sorted([i \in 1..Len(b.txs) |-> Min(b.txs[i].tip, b.txs[i].cap - b.base)])
\* the reward that p percent of the gas do not exceed
At(b, p) == LET r == Rewards(b) k == Len(r) need == {j \in 1..k : 100 * j >= k * p} IN
            IF k = 0 THEN 0 ELSE r[CHOOSE j \in need : \A i \in need : j <= i]

Init ==
  /\ den = "D18" /\ price = [c \in Coins |-> 0] /\ blocks = <<Block("D18", 0, <<>>)>>
  /\ paid = [u \in Users |-> [c \in Coins |-> 0]]
  /\ n = 0 /\ out = [a |-> "none", ok |-> TRUE] /\ hist = <<>>

Go(a) == a \in Acts /\ n < MaxSteps
Log(r) == /\ n' = n + 1 /\ out' = [a |-> r.a, ok |-> r.ok] /\ hist' = IF Record THEN Append(hist, r) ELSE hist
Same == UNCHANGED <<den, price, blocks, paid>>

---------------------------------------------------------------------------

\* a block of transactions that offer at least the base fee
Offers == {[u |-> u, t |-> t, bad |-> bad, cap |-> price[den] + o, tip |-> IF t = "dyn" THEN tip ELSE price[den] + o] :
             u \in Pick(Users), t \in Pick({"dyn", "legacy", "acl"}), bad \in Pick({TRUE, FALSE}), o \in Pick({k \in Tips : den # "D18" \/ k % 1000 = 0}), tip \in Pick({k \in Tips : den # "D18" \/ k % 1000 = 0})}
RECURSIVE Draw(_)
Draw(k) == IF k = 0 THEN {<<>>} ELSE {<<x>> \o y : x \in Offers, y \in Draw(k - 1)}
Txs ==
  /\ Go("block")
  /\ \E k \in Pick(0..MaxTxs) : \E xs \in Draw(k) :
       /\ blocks' = Append(blocks, Block(den, price[den], xs))
       /\ paid' = [u \in Users |-> [paid[u] EXCEPT ![den] = @ + Cardinality({i \in 1..k : xs[i].u = u})]]
       /\ UNCHANGED <<den, price>> /\ Log([a |-> "block", ok |-> TRUE, txs |-> xs, den |-> den, base |-> Wei(den, price[den])])

\* prices, or the fee coin, change
Change ==
  /\ Go("change")
  /\ \E d \in Pick(Coins), c \in Pick(Coins) : \E m \in Pick(PricesOf(c)) :
       /\ den' = d /\ price' = [price EXCEPT ![c] = m]
       /\ blocks' = Append(blocks, Block(d, price'[d], <<>>))
       /\ UNCHANGED paid /\ Log([a |-> "change", ok |-> TRUE, den |-> d, price |-> price', base |-> Wei(d, price'[d])])

\* reads
Price == Go("read") /\ Same /\ Log([a |-> "price", ok |-> TRUE, wei |-> Wei(den, price[den])])

\* the history of k blocks up to block l; l = 0: the latest, l = H + 1: none yet
Percents == {<<>>, <<0>>, <<35, 85>>, <<0, 15, 55, 100>>, <<100>>, <<50, 20>>, <<10, 101>>}
Fine(ps) == \A i \in 1..Len(ps) : ps[i] <= 100 /\ (i > 1 => ps[i - 1] < ps[i])
History ==
  /\ Go("read")
  /\ \E asked \in Pick({0, 1, 2, 3, 5, 9}), l \in Pick(0..(H + 1)), ps \in (IF Record /\ RandomElement(1..(5 + n - n)) = 1 THEN {RandomElement(Percents)} ELSE {p \in Percents : Fine(p)}) :
       LET last == IF l = 0 THEN H ELSE l
           cap == IF ps = <<>> THEN CapHeaders ELSE CapBlocks
           k == Min(asked, cap)
           first == last - k + 1
           ok == k = 0 \/ (last <= H /\ Fine(ps)) IN
       /\ first >= 1 /\ Same
       /\ Log([a |-> "history", ok |-> ok, k |-> k, asked |-> asked, l |-> l, ps |-> ps, first |-> first,
               base |-> IF ~ok \/ k = 0 THEN <<>> ELSE [i \in 1..(k + 1) |-> LET b == blocks[Min(first + i - 1, H)] IN Wei(b.den, b.base)],
               reward |-> IF ~ok \/ k = 0 \/ ps = <<>> THEN <<>>
                          ELSE [i \in 1..k |-> [j \in 1..Len(ps) |-> Wei(blocks[first + i - 1].den, At(blocks[first + i - 1], ps[j]))]]])

\* what a user has after block h, in the coin of that block, and what a contract sees there
Balance ==
  /\ Go("read")
  /\ \E u \in Pick(Users), h \in Pick(1..H) :
       Same /\ Log([a |-> "balance", ok |-> TRUE, u |-> u, h |-> h, den |-> blocks[h].den, dec |-> Dec(blocks[h].den), base |-> Wei(blocks[h].den, blocks[h].base)])

\* the pool admits a transaction that pays the announced price, and none that pays half of it
Clear == price[den] > 0 \/ \A c \in Coins : price[c] = 0
Submit ==
  /\ Go("submit") /\ Clear
  /\ \E u \in Pick(Users), part \in Pick({"full", "more", "half"}) :
       LET ok == part # "half" \/ price[den] = 0 IN
       Same /\ Log([a |-> "submit", ok |-> ok, u |-> u, part |-> part, wei |-> Wei(den, IF part = "half" THEN (price[den] \div 2000) * 1000 + (IF den = "D18" THEN 0 ELSE (price[den] % 2000) \div 2)
                                                                                       ELSE IF part = "more" THEN price[den] + 1000 ELSE price[den])])

Finish == n = MaxSteps /\ n' = n + 1 /\ (Record => PrintT(ToJson(hist))) /\ UNCHANGED <<den, price, blocks, paid, out, hist>>
Next == Txs \/ Change \/ Price \/ History \/ History \/ Balance \/ Submit \/ Finish
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* Properties *)

\* a block's fees never change afterwards
Fixed == [][Len(blocks') >= Len(blocks) /\ SubSeq(blocks', 1, Len(blocks)) = blocks]_vars
\* what is announced now is the base fee of the last block
Announced == blocks[H].den = den /\ blocks[H].base = price[den]
\* a higher share of the gas has no lower reward, and no reward is more than a transaction offers above the base fee
Rising == \A h \in 1..H : \A p, q \in {0, 15, 35, 55, 85, 100} : p <= q => At(blocks[h], p) <= At(blocks[h], q)
Offered == \A h \in 1..H : \A p \in {0, 35, 100} : At(blocks[h], p) >= 0 /\
              (blocks[h].txs # <<>> => \E i \in 1..Len(blocks[h].txs) : At(blocks[h], p) + blocks[h].base <= blocks[h].txs[i].cap)
\* reads change nothing
ReadOnly == [][out'.a \in {"price", "history", "balance", "submit"} => UNCHANGED <<den, price, blocks, paid>>]_vars
View == <<den, price, blocks, n>>
=============================================================================
