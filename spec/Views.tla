------------------------------- MODULE Views -------------------------------
(***************************************************************************)
(* What contracts ask of the chain through the cosmos precompile: kinds of *)
(* accounts, forms of addresses, coins and their contracts, and prices of  *)
(* the oracle. The answer depends on the state that the asking program     *)
(* runs on and on the request; on nothing else that was asked, before or   *)
(* at the same time.                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
  Pairs,           \* that the oracle may come to know
  Denoms,          \* of the chain
  MaxAsks,         \* in a program
  MaxStorm,        \* programs at the same time
  Acts, MaxSteps, Record

VARIABLES
  px,              \* px[p]: [st: "none", "new" or "set", v, nonce, id]
  np,              \* pairs known
  made,            \* denoms whose contract exists
  past,            \* the worlds before, and this one
  n, out, hist
vars == <<px, np, made, past, n, out, hist>>

Pick(S) == IF Record THEN {RandomElement(S)} ELSE S
World == [px |-> px, np |-> np, made |-> made]

Init ==
  /\ px = [p \in Pairs |-> [st |-> "none", v |-> 0, nonce |-> 0, id |-> 0]] /\ np = 0 /\ made = {}
  /\ past = <<World>> /\ n = 0 /\ out = [a |-> "none", ok |-> TRUE] /\ hist = <<>>

---------------------------------------------------------------------------
(* Requests and their answers *)

\* user, contract, module, short form of a long address, nobody, the precompile
Who == {"U", "P", "M", "S", "N", "F1"}
\* ways to write an address: of a user, in capitals, of 32 bytes, with the prefix of validators, with a wrong checksum, nothing
Forms == {"plain", "upper", "long", "valoper", "typo", "empty"}
None == [e |-> "", ok |-> FALSE]
Yes(x) == [e |-> x, ok |-> TRUE]

\* requests of prices: lists of pairs, single pairs, all; and malformed ones, some of which name pairs
Lists == UNION {[1..k -> Pairs \cup {"Z/ZZZ"}] : k \in 0..2}
Bad == {"unlisted", "noroute", "cut", "extra", "type", "one", "nopair"}

Ask(k, x) == [k |-> k, x |-> x, l |-> <<>>]
Requests ==
  UNION {{Ask("blocked", w), Ask("module", w), Ask("tocosmos", w)} : w \in Who} \cup
  {Ask("toevm", f) : f \in Forms} \cup
  {Ask("todenom", x) : x \in Denoms \cup {"U", "P", "N"}} \cup
  {Ask("toerc20", x) : x \in Denoms \cup {"evm.P", "evm.N", "evm.bad", "none"}} \cup
  {Ask("price", p) : p \in Pairs \cup {"Z/ZZZ"}} \cup
  {[k |-> "prices", x |-> "", l |-> l] : l \in Lists} \cup
  {Ask("pairs", "")} \cup
  {[k |-> "bad", x |-> b, l |-> <<p>>] : b \in Bad, p \in Pairs} \cup
  {Ask("unknown", "")}

Known(w) == {p \in Pairs : w.px[p].st # "none"}
RECURSIVE Order(_, _)
Order(w, S) == IF S = {} THEN <<>> ELSE LET p == CHOOSE x \in S : \A y \in S : w.px[x].id <= w.px[y].id IN <<p>> \o Order(w, S \ {p})
PriceOf(w, p) == [p |-> p, v |-> w.px[p].v, nonce |-> w.px[p].nonce, id |-> w.px[p].id]
\* of a pair that is known; zero before its first price
Set(w, p) == p \in Pairs /\ w.px[p].st # "none"

\* answers: ok, a word, prices, names
A(ok, x, ps, ns) == [ok |-> ok, x |-> x, ps |-> ps, ns |-> ns]
Fail == A(FALSE, "", <<>>, {})
Answer(w, r) ==
  CASE r.k = "blocked"  -> A(TRUE, IF r.x = "M" THEN "true" ELSE "false", <<>>, {})
    [] r.k = "module"   -> A(TRUE, IF r.x = "M" THEN "true" ELSE "false", <<>>, {})
    [] r.k = "tocosmos" -> A(TRUE, r.x, <<>>, {})
    [] r.k = "toevm"    -> IF r.x \in {"plain", "upper"} THEN A(TRUE, "U", <<>>, {}) ELSE Fail
    [] r.k = "todenom"  -> A(TRUE, IF r.x \in Denoms THEN r.x ELSE "evm." \o r.x, <<>>, {})
    [] r.k = "toerc20"  -> CASE r.x \in Denoms -> IF r.x \in w.made THEN A(TRUE, "tok." \o r.x, <<>>, {}) ELSE Fail
                             [] r.x = "evm.P" -> A(TRUE, "P", <<>>, {})
                             [] r.x = "evm.N" -> A(TRUE, "N", <<>>, {})
                             [] OTHER -> Fail
    [] r.k = "price"    -> IF Set(w, r.x) THEN A(TRUE, "", <<PriceOf(w, r.x)>>, {}) ELSE Fail
    [] r.k = "prices"   -> IF \A i \in 1..Len(r.l) : Set(w, r.l[i]) THEN A(TRUE, "", [i \in 1..Len(r.l) |-> PriceOf(w, r.l[i])], {}) ELSE Fail
    [] r.k = "pairs"    -> A(TRUE, "", <<>>, Known(w))
    [] OTHER -> Fail

\* how: called, statically called, called from a frame that then reverts, given too little gas
How == {"call", "static", "frame", "poor"}
Asked(w, r, h) == [r |-> r, how |-> h, ans |-> IF h = "poor" THEN Fail ELSE Answer(w, r)]

\* a request of a family, so that all families are as likely
Kinds == {"blocked", "module", "tocosmos", "toevm", "todenom", "toerc20", "price", "prices", "pairs", "bad", "unknown"}
\* the contract of a coin has no address before it is made
OfKind(w, k) == {r \in Requests : r.k = k /\ (k = "todenom" => r.x \notin Denoms \ w.made)}
RECURSIVE Programs(_, _)
Programs(w, k) == IF k = 0 THEN {<<>>}
  ELSE {<<Asked(w, r, h)>> \o q : r \in UNION {Pick(OfKind(w, x)) : x \in Pick(Kinds)}, h \in Pick(How), q \in Programs(w, k - 1)}

---------------------------------------------------------------------------

Go(a) == a \in Acts /\ n < MaxSteps
Log(r) == /\ n' = n + 1 /\ out' = [a |-> r.a, ok |-> r.ok] /\ hist' = IF Record THEN Append(hist, r) ELSE hist

\* the oracle learns of a pair, or of a price
Price ==
  /\ Go("world")
  /\ \E p \in Pick(Pairs), v \in Pick({1, 7, 1000000}) :
       /\ IF px[p].st = "none" THEN px' = [px EXCEPT ![p] = [st |-> "new", v |-> 0, nonce |-> 0, id |-> np]] /\ np' = np + 1
          ELSE px' = [px EXCEPT ![p] = [st |-> "set", v |-> v, nonce |-> @.nonce + 1, id |-> @.id]] /\ UNCHANGED np
       /\ UNCHANGED made /\ past' = Append(past, World') /\ Log([a |-> "price", ok |-> TRUE, p |-> p, new |-> px[p].st = "none", v |-> v])

\* a coin of the chain is minted
Mint ==
  /\ Go("world")
  /\ \E d \in Pick(Denoms) : made' = made \cup {d} /\ UNCHANGED <<px, np>> /\ past' = Append(past, World') /\ Log([a |-> "mint", ok |-> TRUE, d |-> d])

\* a program runs in a transaction or in a query of the present state, or of the state some blocks ago
Run ==
  /\ Go("run")
  /\ \E by \in Pick({"tx", "query"}), k \in Pick(1..MaxAsks) : \E i \in IF by = "tx" THEN {Len(past)} ELSE Pick(1..Len(past)) : \E prog \in Programs(past[i], k) :
       UNCHANGED <<px, np, made, past>> /\ Log([a |-> "run", ok |-> TRUE, by |-> by, i |-> i, prog |-> prog])

\* many programs at the same time, in queries and in a block
RECURSIVE Some(_, _)
Some(w, k) == IF k = 0 THEN {<<>>} ELSE {<<prog>> \o q : prog \in UNION {Programs(w, j) : j \in Pick(1..MaxAsks)}, q \in Some(w, k - 1)}
Storm ==
  /\ Go("storm")
  /\ \E k \in Pick(2..MaxStorm) : \E progs \in Some(World, k) :
       UNCHANGED <<px, np, made, past>> /\ Log([a |-> "storm", ok |-> TRUE, progs |-> progs])

Finish == n = MaxSteps /\ n' = n + 1 /\ (Record => PrintT(ToJson(hist))) /\ UNCHANGED <<px, np, made, past, out, hist>>
Next == Price \/ Mint \/ Run \/ Run \/ Run \/ Storm \/ Finish
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* Properties *)

ReadOnly == [][out'.a \in {"run", "storm"} => UNCHANGED <<px, np, made, past>>]_vars
\* the forms of a coin belong together
RoundTrip == \A d \in made : Answer(World, Ask("toerc20", d)).x = "tok." \o d /\ Answer(World, Ask("todenom", d)).x = d
\* a list of prices is answered as each of them is
Pointwise == \A p, q \in Pairs :
  LET l == Answer(World, [k |-> "prices", x |-> "", l |-> <<p, q>>]) IN
  /\ l.ok = (Answer(World, Ask("price", p)).ok /\ Answer(World, Ask("price", q)).ok)
  /\ l.ok => l.ps = Answer(World, Ask("price", p)).ps \o Answer(World, Ask("price", q)).ps
Listed == \A p \in Pairs : Answer(World, Ask("price", p)).ok <=> p \in Answer(World, Ask("pairs", "")).ns
\* what was answered once about a price has changed only by a new price, and ids never
Ids == [][\A p \in Pairs : px[p].st # "none" => px'[p].id = px[p].id /\ px'[p].nonce >= px[p].nonce /\ (px'[p].v # px[p].v => px'[p].nonce > px[p].nonce)]_vars
OneId == \A p, q \in Known(World) : p # q => px[p].id # px[q].id
\* what was is not changed by what is
Kept == [][Len(past') >= Len(past) /\ SubSeq(past', 1, Len(past)) = past /\ past'[Len(past')] = World']_vars
View == <<past, n>>
=============================================================================
