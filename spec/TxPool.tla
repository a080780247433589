------------------------------- MODULE TxPool -------------------------------
(***************************************************************************)
(* The JSON-RPC transaction pool in front of the node: submissions of      *)
(* several senders, which the node accepts or refuses one by one, a queue  *)
(* for transactions with a nonce gap, and the blocks that take            *)
(* transactions out of the node's mempool.                                 *)
(*                                                                         *)
(* One submission of a sender is worked on at a time; others of the same   *)
(* sender wait.  While it talks to the node, other senders go on.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
  Senders,
  Cap,             \* capacity of the queue
  MaxGap,
  MaxWait,         \* waiting submissions of a sender
  MaxPool,
  Acts, MaxSteps, Record

VARIABLES
  acc,             \* nonce in the committed state
  chk,             \* nonce after the transactions in the mempool
  pool,            \* the node's mempool, by sender
  queue,           \* oldest first
  busy,            \* sender -> <<>> or <<[sub, tx]>>: submission worked on, and its transaction at the node
  wait,            \* sender -> waiting submissions
  sent,            \* all that was handed to the node, with the nonce due then
  news,            \* accepted since the pending filter was asked last, by sender
  ended,           \* submissions that ended in the last step: [id, r]
  nid, n, hist

vars == <<acc, chk, pool, queue, busy, wait, sent, news, ended, nid, n, hist>>

Pick(S) == IF Record THEN {RandomElement(S)} ELSE S
Often(k, x, y) == IF Record /\ RandomElement(1..100) <= k THEN x ELSE y

\* a world: the variables a submission touches
W == [chk |-> chk, pool |-> pool, queue |-> queue, busy |-> busy, wait |-> wait, sent |-> sent, news |-> news, ended |-> <<>>]

Without(q, s, k) == SelectSeq(q, LAMBDA t : ~(t.s = s /\ t.n = k))
\* a newer transaction replaces one with its nonce; the oldest is dropped when there is no place
Enqueue(q, t) == LET a == Append(Without(q, t.s, t.n), t) IN IF Len(a) > Cap THEN Tail(a) ELSE a
Held(q, s, k) == SelectSeq(q, LAMBDA t : t.s = s /\ t.n = k)

End(w, id, r) == [w EXCEPT !.ended = Append(@, [id |-> id, r |-> r])]

RECURSIVE Start(_, _), Forward(_, _, _, _), Finish(_, _)
\* work on a submission, as far as it goes without the node
Start(w, t) ==
  IF t.n < w.chk[t.s] THEN Finish(End(w, t.id, "low"), t.s)
  ELSE Forward([w EXCEPT !.queue = Enqueue(@, t)], t.s, t, w.chk[t.s])
\* k: the nonce due
Forward(w, s, sub, k) ==
  LET h == Held(w.queue, s, k) IN
  IF h = <<>> THEN Finish(End(w, sub.id, "ok"), s)
  ELSE [w EXCEPT !.queue = Without(@, s, k), !.busy[s] = <<[sub |-> sub, tx |-> h[1], k |-> k]>>, !.sent = Append(@, [tx |-> h[1], due |-> w.chk[s]])]
Finish(w, s) ==
  LET v == [w EXCEPT !.busy[s] = <<>>] IN
  IF v.wait[s] = <<>> THEN v ELSE Start([v EXCEPT !.wait[s] = Tail(@)], Head(v.wait[s]))

\* the node answers
Accepts(w, t) == t.k = "good" /\ t.n = w.chk[t.s]
Answer(w, s, o) ==
  LET b == w.busy[s][1] t == b.tx IN
  IF o = "lost" \/ ~Accepts(w, t)
  \* a failure of another transaction is none of the submission
  THEN Finish(End(w, b.sub.id, IF b.sub.id = t.id THEN (IF o = "lost" THEN "lost" ELSE "rejected") ELSE "ok"), s)
  ELSE Forward([w EXCEPT !.chk[s] = @ + 1, !.pool[s] = Append(@, t), !.news[s] = Append(@, t.id)], s, b.sub, b.k + 1)

Become(w) == /\ chk' = w.chk /\ pool' = w.pool /\ queue' = w.queue /\ busy' = w.busy /\ wait' = w.wait
             /\ sent' = IF Record THEN <<>> ELSE w.sent
             /\ news' = w.news /\ ended' = w.ended

Init == /\ acc = [s \in Senders |-> 0] /\ chk = acc /\ pool = [s \in Senders |-> <<>>] /\ queue = <<>>
        /\ busy = [s \in Senders |-> <<>>] /\ wait = [s \in Senders |-> <<>>] /\ sent = <<>> /\ news = [s \in Senders |-> <<>>]
        /\ ended = <<>> /\ nid = 0 /\ n = 0 /\ hist = <<>>

Go(a) == a \in Acts /\ n < MaxSteps /\ n' = n + 1
Idle == \A s \in Senders : busy[s] = <<>>
Note(r) == hist' = IF Record THEN Append(hist, r @@ [ends |-> ended', chk |-> chk', queue |-> [i \in 1..Len(queue') |-> queue'[i].id],
                                                     at |-> [s \in Senders |-> IF busy'[s] = <<>> THEN -1 ELSE busy'[s][1].tx.id],
                                                     pool |-> [s \in Senders |-> [i \in 1..Len(pool'[s]) |-> pool'[s][i].id]]]) ELSE hist

Submit ==
  /\ Go("submit")
  /\ \E s \in Pick(Senders), k \in Often(85, {"good"}, {"good", "poor"}) :
     \E d \in (IF Record THEN {RandomElement(0..MaxGap)} \cup (IF RandomElement(1..(12 + n - n)) = 1 THEN {-1} ELSE {}) ELSE -1..MaxGap) :
       LET t == [s |-> s, n |-> chk[s] + Len(wait[s]) + d, k |-> k, id |-> nid] IN
       /\ t.n >= 0 /\ Len(pool[s]) < MaxPool
       /\ Record => Len(queue) + Cardinality({x \in Senders : wait[x] # <<>>}) < Cap  \* what is dropped for want of place is not compared
       /\ IF busy[s] = <<>> THEN Become(Start(W, t))
          ELSE Len(wait[s]) < MaxWait /\ Become([W EXCEPT !.wait[s] = Append(@, t)])
       /\ nid' = nid + 1 /\ UNCHANGED acc
       /\ Note([a |-> "submit", tx |-> t])
Reply ==
  /\ Go("submit")
  /\ \E s \in Senders : busy[s] # <<>> /\ \E o \in Often(90, {"go"}, {"go", "lost"}) :
       /\ Become(Answer(W, s, o)) /\ UNCHANGED <<acc, nid>> /\ Note([a |-> "reply", s |-> s, o |-> o])

\* a transaction that reaches the node on another way
Direct ==
  /\ Go("direct") /\ (Record => RandomElement(1..(10 + n - n)) <= 3)
  /\ \E s \in Pick({s \in Senders : busy[s] = <<>> /\ Len(pool[s]) < MaxPool} \cup {"none"}) : s # "none" /\
       LET t == [s |-> s, n |-> chk[s], k |-> "good", id |-> nid] IN
       /\ Become([W EXCEPT !.chk[s] = @ + 1, !.pool[s] = Append(@, t), !.news[s] = Append(@, t.id)])
       /\ nid' = nid + 1 /\ UNCHANGED acc /\ Note([a |-> "direct", tx |-> t])

\* a block takes the first transactions of some senders, and the mempool loses others
Block ==
  /\ Go("block") /\ Idle /\ (Record => RandomElement(1..(10 + n - n)) <= 4)
  /\ \E take \in Pick([Senders -> 0..MaxPool]), lose \in (IF Record THEN {[s \in Senders |-> IF RandomElement(1..(8 + n - n)) = 1 THEN 1 ELSE 0]} ELSE [Senders -> 0..1]) :
       LET k(s) == IF take[s] > Len(pool[s]) THEN Len(pool[s]) ELSE take[s]
           left(s) == SubSeq(pool[s], k(s) + 1, Len(pool[s]))
           \* what is lost is the first one left: the others are then refused
           kept(s) == IF lose[s] = 1 THEN <<>> ELSE left(s)
       IN /\ Record \/ \A s \in Senders : take[s] <= Len(pool[s])
          /\ acc' = [s \in Senders |-> acc[s] + k(s)]
          /\ Become([W EXCEPT !.pool = [s \in Senders |-> kept(s)], !.chk = [s \in Senders |-> acc[s] + k(s) + Len(kept(s))]])
          /\ UNCHANGED nid /\ Note([a |-> "block", take |-> [s \in Senders |-> k(s)], lose |-> lose])

\* many submissions at once: whatever the schedule, the outcome is the same
RECURSIVE Flush(_, _), FlushAll(_, _)
Flush(w, s) == LET h == Held(w.queue, s, w.chk[s]) IN
  IF h = <<>> THEN w
  ELSE Flush([w EXCEPT !.queue = Without(@, s, w.chk[s]), !.chk[s] = @ + 1, !.pool[s] = Append(@, h[1]), !.news[s] = Append(@, h[1].id)], s)
FlushAll(w, S) == IF S = {} THEN w ELSE LET s == CHOOSE s \in S : TRUE IN FlushAll(Flush(w, s), S \ {s})
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
StormTxs(ks) ==
  LET ss == SetSeq(Senders)
      cell == [j \in 1..(Len(ss) * (MaxGap + 3)) |-> [s |-> ss[1 + ((j - 1) % Len(ss))], n |-> chk[ss[1 + ((j - 1) % Len(ss))]] + ((j - 1) \div Len(ss))]]
      pickd == SelectSeq(cell, LAMBDA c : c.n < chk[c.s] + ks[c.s] /\ c.n # chk[c.s] + ks[c.s] - 2)
      filled == SelectSeq(cell, LAMBDA c : c.n < chk[c.s] + ks[c.s])
      full == IF RandomElement(1..(4 + n - n)) = 1 THEN pickd ELSE filled
      new == SelectSeq(full, LAMBDA c : Held(queue, c.s, c.n) = <<>>)
  IN [j \in 1..Len(new) |-> [s |-> new[j].s, n |-> new[j].n, k |-> "good", id |-> nid + j - 1]]
Storm ==
  /\ Record /\ Go("storm") /\ Idle /\ RandomElement(1..(10 + n - n)) <= IF Cap > 20 THEN 8 ELSE 3
  /\ \A i \in 1..Len(queue) : queue[i].k = "good"
  /\ \E ks \in Pick([Senders -> 0..(MaxGap + 3)]) : \E ts \in {StormTxs(ks)} :
       /\ Len(ts) > 0 /\ Len(queue) + Len(ts) <= Cap /\ \A s \in Senders : Len(pool[s]) + ks[s] + 3 <= 2 * MaxPool
       /\ LET touched == {ts[j].s : j \in 1..Len(ts)} IN
          Become([FlushAll([W EXCEPT !.queue = @ \o ts], touched) EXCEPT !.ended = [j \in 1..Len(ts) |-> [id |-> ts[j].id, r |-> "ok"]]])
       /\ nid' = nid + Len(ts) /\ UNCHANGED acc
       /\ Note([a |-> "storm", txs |-> ts])

Poll ==
  /\ Record /\ Go("poll")
  /\ Become([W EXCEPT !.news = [s \in Senders |-> <<>>]]) /\ UNCHANGED <<acc, nid>> /\ Note([a |-> "poll", news |-> news])

\* a flood of transactions with nonces used already
Flood ==
  /\ Record /\ Go("flood") /\ Idle /\ RandomElement(1..(40 + n - n)) = 1 /\ \E s \in Senders : chk[s] > 0
  /\ Become(W) /\ UNCHANGED <<acc, nid>> /\ Note([a |-> "flood", ss |-> {s \in Senders : chk[s] > 0}])

Out == Record /\ n = MaxSteps /\ Idle /\ PrintT(ToJson(hist)) /\ n' = n + 1 /\ UNCHANGED <<acc, chk, pool, queue, busy, wait, sent, news, ended, nid, hist>>
\* the last steps answer what is open
Close == Record /\ n = MaxSteps /\ ~Idle /\ UNCHANGED n
         /\ \E s \in Senders : busy[s] # <<>> /\ Become(Answer(W, s, "go")) /\ UNCHANGED <<acc, nid>> /\ Note([a |-> "reply", s |-> s, o |-> "go"])
Next == Submit \/ Reply \/ Direct \/ Block \/ Storm \/ Poll \/ Flood \/ Out \/ Close
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* Properties *)

\* the node gets what is due, and each transaction once
InOrder == \A i \in 1..Len(sent) : sent[i].tx.n <= sent[i].due
OnceOnly == \A i, j \in 1..Len(sent) : i # j => sent[i].tx.id # sent[j].tx.id
Contiguous == \A s \in Senders : /\ chk[s] = acc[s] + Len(pool[s])
                                 /\ \A i \in 1..Len(pool[s]) : pool[s][i].n = acc[s] + i - 1
\* queued transactions are above the account's nonce when their sender is at rest
OneEach == /\ Len(queue) <= Cap
           /\ \A i, j \in 1..Len(queue) : i # j => <<queue[i].s, queue[i].n>> # <<queue[j].s, queue[j].n>>
\* a submission that ends well leaves nothing behind that is due, unless its transaction or another was refused in between
\* (refused transactions are gone, too): nothing due is ever left to wait
NothingDue == [][\A i \in 1..Len(ended') : ended'[i].r = "ok" =>
   \A s \in Senders : (busy[s] # <<>> /\ busy'[s] = <<>>) => Held(queue', s, chk'[s]) = <<>>]_vars
\* what a sender does changes nothing for others, while there is place
Apart == [][\A s \in Senders :
   (Len(queue) < Cap /\ busy'[s] = busy[s] /\ wait'[s] = wait[s] /\ chk'[s] = chk[s]) =>
      \A i \in 1..Len(queue) : (queue[i].s = s) => (\E j \in 1..Len(queue') : queue'[j].s = s /\ queue'[j].n = queue[i].n)]_vars
\* what is too low is refused at once, everything else is not
Refused == [][\A i \in 1..Len(ended') : ended'[i].r = "low" => queue' = queue \/ \E s \in Senders : busy[s] # <<>>]_vars
View == <<acc, chk, pool, queue, busy, wait, sent, n>>
=============================================================================
