----------------------------- MODULE TxConvert -----------------------------
(***************************************************************************)
(* Ethereum transactions on a chain whose fee token has any number of      *)
(* decimals: their conversion to the cosmos form and back, what they are   *)
(* charged and what contracts see when they are executed.                  *)
(*                                                                         *)
(* TLC computes with 32 bits, so an amount is a pair m * 10^e, in normal   *)
(* form (m is no multiple of ten, or zero with e = 0). Ethereum amounts    *)
(* are in wei (10^-18), amounts of the fee token in its own unit           *)
(* (10^-decimals).                                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
  Decs,             \* decimals of the fee tokens
  ValM, ValE,       \* values: m, and e relative to the unit of the fee token, plus ten
  CapM, CapE,       \* gas prices: the same
  Gases,            \* gas limits
  MaxSteps,
  Record

VARIABLES
  dec,              \* decimals of the present fee token
  used,             \* used[u]: transactions of u that used up its nonce
  seen,             \* the last execution of contract A: [val |-> amount, from |-> user], value zero at first
  out,              \* the last step
  n, hist

vars == <<dec, used, seen, out, n, hist>>
Users == {"U1", "U2"}
Zero == [m |-> 0, e |-> 0]
RichE == 30         \* every user starts with 10^30 of every fee token

Pick(S) == IF Record THEN {RandomElement(S)} ELSE S
Often(k, x, y) == IF Record /\ RandomElement(1..100) <= k THEN x ELSE y

---------------------------------------------------------------------------
(* arithmetic *)

RECURSIVE Norm(_, _)
Norm(m, e) == IF m = 0 THEN Zero ELSE IF m % 10 = 0 THEN Norm(m \div 10, e + 1) ELSE [m |-> m, e |-> e]
RECURSIVE P10(_)
P10(k) == IF k = 0 THEN 1 ELSE 10 * P10(k - 1)
RECURSIVE Digits(_)
Digits(m) == IF m < 10 THEN 1 ELSE 1 + Digits(m \div 10)
Scale(a) == IF a.m = 0 THEN 0 ELSE Digits(a.m) + a.e  \* a < 10^Scale(a)

\* wei to token units, rounded down; Exact: without loss
ToToken(d, a) ==
  LET s == a.e + d - 18 IN
  IF a.m = 0 THEN Zero
  ELSE IF s >= 0 THEN [m |-> a.m, e |-> s]
  ELSE IF -s > 9 THEN Zero
  ELSE Norm(a.m \div P10(-s), 0)
Exact(d, a) == a.m = 0 \/ a.e + d - 18 >= 0

\* the fee: gas * price, rounded down, plus one; plus tells that one is to be added
FeeOf(d, gas, cap) ==
  IF cap.m = 0 THEN [m |-> 0, e |-> 0, plus |-> 0]
  ELSE LET t == ToToken(d, Norm(cap.m * gas, cap.e)) IN [m |-> t.m, e |-> t.e, plus |-> 1]

---------------------------------------------------------------------------

Kinds == {"legacy", "acl", "dyn"}
\* what a third party may change in the cosmos form; the chain must not take it
Muts == {"valueup", "valuedown", "feeup", "feedown", "nofee", "nilvalue", "typo"}
\* signatures that are no valid ones for this chain
Chains == {"ok", "other", "unprotected", "blob"}

Amount(M, E) == {Norm(m, LET f == 8 - dec + e IN IF f < 0 THEN 0 ELSE f) : m \in M, e \in E}
Caps == Amount(Pick(CapM), Pick(CapE))
Vals == Amount(Pick(ValM), Pick(ValE))

Txs(k) ==
  {[u |-> u, t |-> t, to |-> to, val |-> v, cap |-> c, tip |-> tip, gas |-> g, al |-> al, data |-> da, off |-> o, chain |-> ch, mut |-> mu] :
     u \in (IF Record THEN Pick(Users) ELSE {"U1"}), t \in Pick(Kinds), to \in Pick({"A", "E", "NEW"}), v \in Often(20, {Zero}, Vals), c \in Often(30, {Zero}, Caps),
     tip \in Pick({0, 1}), g \in Pick(Gases), al \in (IF Record THEN Pick({0, 1, 2}) ELSE {0}), da \in (IF Record THEN Often(85, {"ok"}, {"revert"}) ELSE {"ok"}),
     o \in (IF Record THEN Often(94, {0}, {1}) ELSE {0}),
     ch \in (IF Record THEN Often(92, {"ok"}, Pick(Chains)) ELSE {"ok"}), mu \in (IF Record THEN Often(85, {"none"}, Pick(Muts)) ELSE {"none"})}

\* comparisons with the balance of the payer must not depend on what was paid before
Clear(a) == Scale(a) <= RichE - 2 \/ Scale(a) >= RichE + 1
Sane(d, x) ==
  /\ x.chain = "unprotected" => x.t = "legacy"
  /\ x.mut = "valuedown" => x.val.m # 0
  /\ x.mut \in {"feedown", "nofee"} => x.cap.m # 0
  /\ Clear(ToToken(d, x.val)) /\ Clear(FeeOf(d, x.gas, x.cap))
  /\ Scale(x.val) <= 70 /\ Scale(ToToken(d, x.val)) <= 70

Converts(d, x) == Exact(d, x.val) /\ x.chain = "ok"
Affords(a) == Scale(a) <= RichE - 2

\* refused: no cosmos form; rejected: not admitted; failed: fee and nonce are gone
Result(d, x) ==
  IF ~Converts(d, x) THEN "refused"
  ELSE IF x.mut # "none" \/ x.off # 0 \/ ~Affords(FeeOf(d, x.gas, x.cap)) THEN "rejected"
  ELSE IF ~Affords(ToToken(d, x.val)) \/ (x.data # "ok") THEN "failed"
  ELSE "ok"

Init == dec \in Pick(Decs) /\ used = [u \in Users |-> 0] /\ seen = [val |-> Zero, from |-> "U1", by |-> 0] /\ out = [k |-> "none"] /\ n = 0
        /\ hist = <<>>

Rec(s) == hist' = IF Record THEN Append(hist, s) ELSE hist

Denom ==
  /\ n < MaxSteps /\ (Record /\ n > 0 => RandomElement(1..4) = 1)
  /\ \E d \in Pick(IF n = 0 THEN Decs ELSE Decs \ {dec}) :
       /\ dec' = d /\ out' = [k |-> "denom", d |-> d, ok |-> TRUE] /\ Rec(out')
  /\ n' = n + 1 /\ UNCHANGED <<used, seen>>

Tx ==
  /\ n < MaxSteps /\ (Record => n > 0)
  /\ \E y \in Txs(n) :
       LET x == [y EXCEPT !.data = IF y.to = "E" THEN "ok" ELSE @, !.al = IF y.t = "legacy" THEN 0 ELSE @,
                          !.tip = IF y.t = "dyn" /\ y.cap.m # 0 THEN @ ELSE 0]
           r == Result(dec, x) v == ToToken(dec, x.val) f == FeeOf(dec, x.gas, x.cap) IN
       /\ Sane(dec, x)
       /\ out' = [k |-> "tx", tx |-> x, seq |-> used[x.u], r |-> r, ok |-> r = "ok", value |-> v, fee |-> f, dec |-> dec,
                  seen |-> IF r = "ok" /\ x.to = "A" THEN [val |-> v, from |-> x.u, by |-> n + 1] ELSE seen]
       /\ Rec(out')
       /\ used' = IF r \in {"ok", "failed"} THEN [used EXCEPT ![x.u] = @ + 1] ELSE used
       /\ seen' = out'.seen
  /\ n' = n + 1 /\ UNCHANGED dec

Finish == /\ n = MaxSteps /\ n' = n + 1 /\ (Record => PrintT(ToJson(hist))) /\ UNCHANGED <<dec, used, seen, out, hist>>
Next == Denom \/ Tx \/ Tx \/ Tx \/ Tx \/ Tx \/ Finish
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* Properties, by plain integer arithmetic (small amounts only) *)

IsTx == out.k = "tx"
Num(a) == a.m * P10(a.e)
\* the value charged is worth exactly the value signed
ValueExact == IsTx /\ out.r # "refused" =>
   IF out.dec >= 18 THEN Num(out.value) = Num(out.tx.val) * P10(out.dec - 18)
   ELSE Num(out.value) * P10(18 - out.dec) = Num(out.tx.val)
\* it is refused only if there is no such value
RefusedRight == IsTx /\ out.r = "refused" /\ out.tx.chain = "ok" => out.dec < 18 /\ Num(out.tx.val) % P10(18 - out.dec) # 0
\* the fee covers gas * price, and by less than two units
FeeNum == Num(out.fee) + out.fee.plus
FeeCovers == IsTx =>
   LET p == out.tx.gas * Num(out.tx.cap) IN
   IF p = 0 THEN FeeNum = 0
   ELSE IF out.dec >= 18 THEN FeeNum = p * P10(out.dec - 18) + 1
   ELSE FeeNum * P10(18 - out.dec) >= p /\ (FeeNum - 1) * P10(18 - out.dec) <= p
NonceUsed == [][n < MaxSteps /\ out'.k = "tx" => \A u \in Users : used'[u] - used[u] = IF u = out'.tx.u /\ out'.r \in {"ok", "failed"} THEN 1 ELSE 0]_<<n, used>>
SeenOnlyOk == [][n < MaxSteps /\ out'.k = "tx" /\ out'.r # "ok" => seen' = seen]_<<n, seen>>
View == <<dec, out, n>>
=============================================================================
