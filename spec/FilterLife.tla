----------------------------- MODULE FilterLife -----------------------------
(***************************************************************************)
(* The filters a client has installed over JSON-RPC: they last as long as  *)
(* they are asked for changes within the filter timeout, and answer each   *)
(* change once.                                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
  Kinds,
  T,               \* the timeout, in ticks; a filter goes between T and 2 T
  MaxFilters, MaxBlocks,
  MaxSteps, Record

VARIABLES
  fs,              \* installed filters, in the order of their installation: [kind, age, new, up]
  blocks,
  n, hist

vars == <<fs, blocks, n, hist>>
Pick(S) == IF Record THEN {RandomElement(S)} ELSE S

Init == fs = <<>> /\ blocks = 0 /\ n = 0 /\ hist = <<>>
Go == n < MaxSteps /\ n' = n + 1
Note(r) == hist' = IF Record THEN Append(hist, r) ELSE hist

\* when the client can rely on a filter, and when it cannot any longer
There(f) == f.up /\ f.age < T - 1
Gone(f) == ~f.up \/ f.age > 2 * T + 1

Create == Go /\ Len(fs) < MaxFilters /\ \E k \in Pick(Kinds) :
  fs' = Append(fs, [kind |-> k, age |-> 0, new |-> 0, up |-> TRUE]) /\ UNCHANGED blocks /\ Note([a |-> "create", kind |-> k])
Tick == Go /\ fs # <<>>
  /\ fs' = [i \in 1..Len(fs) |-> [fs[i] EXCEPT !.age = IF @ > 2 * T + 1 THEN @ ELSE @ + 1]] /\ UNCHANGED blocks /\ Note([a |-> "tick"])
Block == Go /\ blocks < MaxBlocks
  /\ fs' = [i \in 1..Len(fs) |-> [fs[i] EXCEPT !.new = @ + 1]] /\ blocks' = blocks + 1 /\ Note([a |-> "block"])
Poll == Go /\ fs # <<>> /\ \E i \in Pick(1..Len(fs)) :
  /\ There(fs[i])
  /\ fs' = [fs EXCEPT ![i].age = 0, ![i].new = 0] /\ UNCHANGED blocks
  /\ Note([a |-> "poll", i |-> i, ok |-> TRUE, new |-> IF fs[i].kind = "blocks" THEN fs[i].new ELSE 0])
Remove == Go /\ fs # <<>> /\ (Record => RandomElement(1..(10 + n - n)) <= 3) /\ \E i \in Pick(1..Len(fs)) :
  /\ There(fs[i]) \/ ~fs[i].up
  /\ fs' = [fs EXCEPT ![i].up = FALSE] /\ UNCHANGED blocks /\ Note([a |-> "remove", i |-> i, ok |-> fs[i].up])
\* what is removed is not answered
Ask == Go /\ fs # <<>> /\ \E i \in Pick(1..Len(fs)) : ~fs[i].up /\ UNCHANGED <<fs, blocks>> /\ Note([a |-> "poll", i |-> i, ok |-> FALSE, new |-> 0])
\* after a long time, only what was removed or forgotten is gone
Long == Record /\ n = MaxSteps /\ n' = n + 1
        /\ fs' = [i \in 1..Len(fs) |-> [fs[i] EXCEPT !.up = FALSE]] /\ UNCHANGED blocks /\ Note([a |-> "long"])
Out == Record /\ n = MaxSteps + 1 /\ PrintT(ToJson(hist)) /\ n' = n + 1 /\ UNCHANGED <<fs, blocks, hist>>
Next == Create \/ Tick \/ Block \/ Poll \/ Remove \/ Ask \/ Long \/ Out
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
\* nothing is there and gone at once, and filters do not affect each other
Apart == \A i \in 1..Len(fs) : ~(There(fs[i]) /\ Gone(fs[i]))
News == \A i \in 1..Len(fs) : fs[i].new <= blocks
Others == [][\A i \in 1..Len(fs) : (fs[i].up /\ ~fs'[i].up) => \A j \in 1..Len(fs) : j # i => fs'[j] = fs[j]]_vars
OnceEach == [][\A i \in 1..Len(fs) : fs'[i].new < fs[i].new => fs'[i].new = 0 /\ fs'[i].age = 0]_vars
View == <<fs, blocks, n>>
=============================================================================
