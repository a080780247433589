----------------------------- MODULE CacheStore -----------------------------
(***************************************************************************)
(* The store under the Ethereum index: a database, writes not yet written  *)
(* to it, and a cache in front that may forget anything at any time and    *)
(* takes no large values.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
  Keys,            \* 1..n
  Vals,            \* values; those above 2 are too large for the cache
  MaxSteps,
  Record

VARIABLES db, over, cache, n, hist
vars == <<db, over, cache, n, hist>>

Pick(S) == IF Record THEN {RandomElement(S)} ELSE S
None == 0          \* no value
Large(v) == v > 2

\* what is stored, whatever the cache holds
Stored(k) == IF k \in DOMAIN over THEN over[k] ELSE db[k]
Read(k) == IF k \in DOMAIN cache THEN cache[k] ELSE Stored(k)
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Put(f, k, v) == (k :> v) @@ f

Init == /\ db = [k \in Keys |-> None] /\ over = <<>> /\ cache = <<>> /\ n = 0 /\ hist = <<>>

Go == n < MaxSteps
Note(r) == hist' = (IF Record THEN Append(hist, r) ELSE hist) /\ n' = n + 1

Set == /\ Go
       /\ \E k \in Pick(Keys), v \in Pick(Vals) :
            /\ over' = Put(over, k, v)
            /\ cache' = IF Large(v) THEN Drop(cache, k) ELSE Put(cache, k, v)
            /\ Note([a |-> "set", k |-> k, v |-> v])
       /\ UNCHANGED db
Delete == /\ Go
          /\ \E k \in Pick(Keys) : over' = Put(over, k, None) /\ cache' = Drop(cache, k) /\ Note([a |-> "delete", k |-> k, v |-> None])
          /\ UNCHANGED db
\* reading fills the cache
Get == /\ Go
       /\ \E k \in Pick(Keys), a \in Pick({"get", "has"}) :
            /\ cache' = IF Read(k) = None \/ Large(Read(k)) THEN cache ELSE Put(cache, k, Read(k))
            /\ Note([a |-> a, k |-> k, v |-> Read(k)])
       /\ UNCHANGED <<db, over>>
All(lo, hi) == SelectSeq([i \in 1..(IF hi > lo THEN hi - lo ELSE 0) |-> <<lo + i - 1, Stored(lo + i - 1)>>], LAMBDA e : e[2] # None)
List == /\ Go
        /\ \E lo \in Pick(Keys), hi \in Pick(Keys), a \in Pick({"list", "back"}) :
             /\ lo < hi
             /\ Note([a |-> a, k |-> lo, v |-> hi, all |-> All(lo, hi)])
        /\ UNCHANGED <<db, over, cache>>
Rare(k) == Record => RandomElement(1..(10 + n - n)) <= k
Write == /\ Go /\ Rare(4) /\ db' = [k \in Keys |-> Stored(k)] /\ over' = <<>> /\ Note([a |-> "write", k |-> 0, v |-> 0]) /\ UNCHANGED cache
\* the node stops and starts: what was not written is gone
Restart == /\ Go /\ Rare(3) /\ over' = <<>> /\ cache' = <<>> /\ Note([a |-> "restart", k |-> 0, v |-> 0]) /\ UNCHANGED db
Forget == /\ ~Record /\ \E k \in DOMAIN cache : cache' = Drop(cache, k) /\ UNCHANGED <<db, over, n, hist>>

Finish == Record /\ n = MaxSteps /\ PrintT(ToJson(hist)) /\ n' = n + 1 /\ UNCHANGED <<db, over, cache, hist>>
Next == Set \/ Delete \/ Get \/ List \/ Write \/ Restart \/ Forget \/ Finish
Spec == Init /\ [][Next]_vars

\* the cache never shows
Coherent == \A k \in Keys : Read(k) = Stored(k)
\* writing changes nothing that can be read; only a restart loses anything
Kept == [][\A k \in Keys : Read(k)' # Read(k) => (over' # over)]_vars
View == <<db, over, cache, n>>
=============================================================================
