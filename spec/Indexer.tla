------------------------------ MODULE Indexer ------------------------------
(***************************************************************************)
(* The Ethereum index of the chain: what it says about each block, what    *)
(* is left of it after a stop, and what the JSON-RPC reads answer.         *)
(*                                                                         *)
(* A block is finalized (executed and indexed) and then committed; the     *)
(* node may stop in between, losing everything that was not committed.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
  Users, Keys, Vals, Pays, Topics,
  Odd,             \* kinds of transactions that are not Ethereum's
  Acts,
  MaxTxs,          \* in a block
  MaxLogs,
  MaxSteps,
  MaxBlocks,
  Record

VARIABLES
  blocks,          \* committed blocks: [txs, res, post]
  pend,            \* the finalized block, if any
  st,              \* state after the committed blocks
  db, mem,         \* the index: durable, and as the running node sees it
  watch,           \* an installed filter: [by, ts, from]
  redo,            \* transactions of a finalized block that was lost
  nid, n, hist

vars == <<blocks, pend, st, db, mem, watch, redo, nid, n, hist>>

Pick(S) == IF Record THEN {RandomElement(S)} ELSE S
Often(k, x, y) == IF Record /\ RandomElement(1..100) <= k THEN x ELSE y
Put(f, k, v) == (k :> v) @@ f
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))

---------------------------------------------------------------------------
(* transactions *)

IsEth(x) == x.k \in {"call", "create"}
Accepted == {"cos", "memo", "two"}   \* valid transactions that are not Ethereum's

\* <<state, result>>; the state of a block: nonces, cells and balance of contract A
Exec(s, x) ==
  LET k == IF x.k = "two" THEN 2 ELSE 1
      up == [s EXCEPT !.nonce[x.from] = @ + k]
      write == [up EXCEPT !.cell[x.key] = x.v, !.bal = @ + k * x.val]
  IN
  IF IsEth(x) /\ x.off # 0 THEN <<s, "rejected">>
  ELSE IF ~IsEth(x) /\ x.k \notin Accepted THEN <<s, "rejected">>
  ELSE IF IsEth(x) /\ x.how = "revert" THEN <<up, "failed">>
  ELSE IF x.k = "create" THEN <<up, "ok">>
  ELSE <<write, "ok">>

RECURSIVE Run(_, _)
Run(s, xs) == IF xs = <<>> THEN <<s, <<>>>>
              ELSE LET a == Exec(s, Head(xs)) b == Run(a[1], Tail(xs)) IN <<b[1], <<a[2]>> \o b[2]>>

\* topics of the logs that can be told apart; 0: the transfer of the value, logged by the token (90: Transfer, 91: sender, 92: receiver)
TopicsOf(t) == CASE t = 0 -> <<90, 91, 92>> [] t \in {1, 2} -> <<t>> [] t = 3 -> <<1, 2>> [] t = 4 -> <<1, 3, 2, 1>> [] t = 5 -> <<1, 3, 2, 2>> [] t = 6 -> <<2, 3, 2, 1>> [] t = 7 -> <<>>
\* ts: for each place the topics that may be there, or nothing if it does not matter
Fitting(t, ts) == Len(ts) <= Len(TopicsOf(t)) /\ \A i \in 1..Len(ts) : ts[i] = {} \/ TopicsOf(t)[i] \in ts[i]
\* its logs
Logs(x, r) == IF r # "ok" THEN <<>> ELSE (IF x.val > 0 THEN <<0>> ELSE <<>>) \o x.logs

---------------------------------------------------------------------------
(* the index as it is built *)

NoIndex == [tx |-> <<>>, pos |-> <<>>, hdr |-> <<>>, cos |-> <<>>, eth |-> <<>>]

RECURSIVE Add(_, _, _, _, _, _)
\* I: index, h: height, p: next position, cum: gas so far
Add(I, h, p, cum, xs, rs) ==
  IF xs = <<>> THEN I
  ELSE IF ~IsEth(Head(xs)) THEN Add(I, h, p, cum, Tail(xs), Tail(rs))
  ELSE LET x == Head(xs) r == Head(rs)
           rec == [h |-> h, p |-> p, st |-> IF r = "ok" THEN 1 ELSE 0, gas |-> x.g, cum |-> cum + x.g, logs |-> Logs(x, r)]
           J == [I EXCEPT !.tx = Put(@, x.id, rec), !.pos = Put(@, <<h, p>>, x.id), !.cos = Put(@, x.id, x.id), !.eth = Put(@, x.id, x.id)]
       IN Add(J, h, p + 1, cum + x.g, Tail(xs), Tail(rs))

EthOf(b) == SelectSeq([i \in 1..Len(b.txs) |-> [x |-> b.txs[i], r |-> b.res[i]]], LAMBDA e : IsEth(e.x))
Header(I, h, b) ==
  LET es == EthOf(b) IN
  [txs |-> [i \in 1..Len(es) |-> es[i].x.id],
   bloom |-> UNION {{Logs(es[i].x, es[i].r)[j] : j \in 1..Len(Logs(es[i].x, es[i].r))} : i \in 1..Len(es)},
   parent |-> IF h - 1 \in DOMAIN I.hdr THEN h - 1 ELSE 0]
IndexBlock(I, h, b) == [Add(I, h, 0, 0, b.txs, b.res) EXCEPT !.hdr = Put(@, h, Header(I, h, b))]

---------------------------------------------------------------------------

Init ==
  /\ blocks = <<>> /\ pend = <<>> /\ db = NoIndex /\ mem = NoIndex /\ watch = <<>> /\ redo = <<>> /\ nid = 0 /\ n = 0 /\ hist = <<>>
  /\ st = [nonce |-> [u \in Users |-> 0], cell |-> [k \in Keys |-> 0], bal |-> 0]

Go(a) == a \in Acts /\ n < MaxSteps
Count(k) == n' = k
H == Len(blocks) + 1

LogSeqs(id) == IF Record THEN {[i \in 1..RandomElement(0..(MaxLogs + id - id)) |-> RandomElement(Topics)]} ELSE UNION {[1..k -> Topics] : k \in 0..MaxLogs}

\* one transaction; d: transactions of the user so far in this block
Tx(id) ==
  LET kinds == Often(65, Pick({"call", "create"}), Pick({"call", "create"} \cup Odd)) IN
  {[k |-> k, from |-> u, t |-> t, how |-> h, logs |-> l, key |-> c, v |-> v, val |-> a, off |-> o, big |-> b, g |-> (id % 2) + 1, id |-> id] :
     k \in kinds, u \in Pick(Users), t \in (IF Record THEN Pick({"legacy", "acl", "dyn"}) ELSE {"dyn"}),
     h \in Often(70, {"ok"}, Pick({"ok", "revert", "caught"})), l \in LogSeqs(id), c \in Pick(Keys), v \in Pick(Vals), a \in Pick(Pays),
     o \in Often(88, {0}, Pick({0, 1})), b \in Often(94, {FALSE}, Pick(BOOLEAN))}
\* equivalent transactions are told apart by nothing else
Sane(x) == /\ (x.k = "create" => x.how # "caught") /\ (~IsEth(x) => x.how = "ok" /\ x.off = 0)
           /\ (~Record => x.big = FALSE /\ x.how # "caught" /\ (x.k # "call" => x.logs = <<>> /\ x.how = "ok" /\ x.off = 0) /\ (x.off = 1 => x.how = "ok"))
Fix(x) == IF ~IsEth(x) THEN [x EXCEPT !.how = "ok", !.off = 0, !.big = FALSE]
          ELSE IF x.k = "create" /\ x.how = "caught" THEN [x EXCEPT !.how = "revert"] ELSE x

RECURSIVE Draw(_, _)
Draw(k, id) ==
  IF k = 0 THEN {<<>>}
  ELSE {<<x>> \o y : x \in (IF Record THEN {Fix(x) : x \in Tx(id)} ELSE {x \in Tx(id) : Sane(x)}), y \in Draw(k - 1, id + 1)}

Block(xs) == LET r == Run(st, xs) IN [txs |-> xs, res |-> r[2], post |-> r[1]]

\* the transactions of a lost block are executed again, or others are
Contents == IF redo # <<>> THEN Often(70, {redo[1]}, UNION {Draw(k, nid) : k \in Pick(0..MaxTxs)}) \cup (IF Record THEN {} ELSE {redo[1]})
            ELSE UNION {Draw(k, nid) : k \in Pick(0..MaxTxs)}

Finalize ==
  /\ Go("block") /\ pend = <<>> /\ Len(blocks) < MaxBlocks
  /\ \E xs \in Contents :
       /\ pend' = <<Block(xs)>> /\ mem' = IndexBlock(mem, H, Block(xs)) /\ nid' = nid + Len(xs)
       /\ hist' = IF Record THEN Append(hist, [a |-> "finalize", txs |-> xs, res |-> Block(xs).res, post |-> st]) ELSE hist
  /\ UNCHANGED <<blocks, st, db, watch, redo>> /\ Count(n + 1)
Commit ==
  /\ Go("block") /\ pend # <<>> /\ (Record /\ "stop" \in Acts => RandomElement(1..(10 + n - n)) > 2)
  /\ blocks' = Append(blocks, pend[1]) /\ st' = pend[1].post /\ pend' = <<>> /\ db' = mem /\ redo' = <<>>
  /\ hist' = IF Record THEN Append(hist, [a |-> "commit", post |-> st']) ELSE hist
  /\ UNCHANGED <<mem, watch, nid>> /\ Count(n + 1)
Stop ==
  /\ Go("stop") /\ (Record => pend # <<>> \/ RandomElement(1..(10 + n - n)) <= 2)
  /\ redo' = IF pend # <<>> THEN <<pend[1].txs>> ELSE redo
  /\ pend' = <<>> /\ mem' = db /\ watch' = <<>>
  /\ hist' = IF Record THEN Append(hist, [a |-> "stop", post |-> st]) ELSE hist
  /\ UNCHANGED <<blocks, st, db, nid>> /\ Count(n + 1)

\* logs by range, emitter and topics; A: by calls, NEW: by created contracts
LogList(h) == LET es == EthOf(blocks[h]) IN
  Flat([i \in 1..Len(es) |-> [j \in 1..Len(Logs(es[i].x, es[i].r)) |-> [h |-> h, p |-> i - 1, i |-> j - 1, t |-> Logs(es[i].x, es[i].r)[j], by |-> IF Logs(es[i].x, es[i].r)[j] = 0 THEN "TOKEN" ELSE IF es[i].x.k = "create" THEN "NEW" ELSE "A"]]])
Found(lo, hi, by, ts) == Flat([k \in 1..(IF hi >= lo THEN hi - lo + 1 ELSE 0) |-> SelectSeq(LogList(lo + k - 1), LAMBDA l : (by = "any" \/ l.by = by \/ (by = "both" /\ l.by \in {"A", "TOKEN"})) /\ Fitting(l.t, ts))])
Wanted ==
  IF ~Record THEN {<<>>, <<{1}>>}
  ELSE {[i \in 1..k |-> CASE RandomElement(1..(10 + nid - nid)) <= 3 -> {}
                           [] RandomElement(1..(10 + nid - nid)) <= 8 /\ i <= Len(TopicsOf(t)) -> IF TopicsOf(t)[i] > 90 THEN {} ELSE {TopicsOf(t)[i]}
                           [] OTHER -> RandomElement(SUBSET {1, 2, 3})] : k \in {RandomElement(0..4)}, t \in {RandomElement(Topics \cup {nid - nid})}}
Emitters == {"any", "A", "TOKEN", "both"}
Query ==
  /\ Go("query") /\ pend = <<>> /\ Len(blocks) > 0 /\ (Record => RandomElement(1..(10 + n - n)) <= 4)
  /\ \E lo \in Pick(1..Len(blocks)), by \in Pick(Emitters), ts \in Wanted : \E hi \in Pick(lo..Len(blocks)) :
       hist' = IF Record THEN Append(hist, [a |-> "query", lo |-> lo, hi |-> hi, by |-> by, ts |-> ts, found |-> Found(lo, hi, by, ts)]) ELSE hist
  /\ UNCHANGED <<blocks, pend, st, db, mem, watch, redo, nid>> /\ Count(n + 1)

\* a filter and a subscription for new logs, and the news since it was asked last; lo, hi: the blocks it is for, 0: not limited
Watch ==
  /\ Go("query") /\ pend = <<>> /\ watch = <<>> /\ Record /\ RandomElement(1..(10 + n - n)) <= 6
  /\ \E by \in Pick(Emitters), ts \in Wanted, lo \in Often(50, {0}, Pick(1..(H + 2))) : \E hi \in Often(50, {0}, IF lo = 0 THEN {0} ELSE Pick(lo..(H + 4))) :
       /\ watch' = <<[by |-> by, ts |-> ts, from |-> H, lo |-> lo, hi |-> hi]>>
       /\ hist' = Append(hist, [a |-> "watch", by |-> by, ts |-> ts, lo |-> lo, hi |-> hi])
  /\ UNCHANGED <<blocks, pend, st, db, mem, redo, nid>> /\ Count(n + 1)
Max2(a, b) == IF a > b THEN a ELSE b
UpTo(hi) == IF hi = 0 \/ hi > H - 1 THEN H - 1 ELSE hi
Poll ==
  /\ Go("query") /\ pend = <<>> /\ watch # <<>> /\ Record /\ RandomElement(1..(10 + n - n)) <= 4
  /\ watch' = <<[watch[1] EXCEPT !.from = H]>>
  /\ hist' = Append(hist, [a |-> "poll", lo |-> watch[1].from, hi |-> H - 1, found |-> Found(Max2(watch[1].from, watch[1].lo), UpTo(watch[1].hi), watch[1].by, watch[1].ts)])
  /\ UNCHANGED <<blocks, pend, st, db, mem, redo, nid>> /\ Count(n + 1)
\* everything the filter is for: of the latest block if it is not limited
All ==
  /\ Go("query") /\ pend = <<>> /\ watch # <<>> /\ Record /\ RandomElement(1..(10 + n - n)) <= 3
  /\ Len(blocks) > 0 /\ watch[1].lo < H /\ watch[1].hi < H
  /\ LET lo == IF watch[1].lo = 0 THEN H - 1 ELSE watch[1].lo IN
     hist' = Append(hist, [a |-> "all", lo |-> lo, hi |-> UpTo(watch[1].hi), found |-> Found(lo, UpTo(watch[1].hi), watch[1].by, watch[1].ts)])
  /\ UNCHANGED <<blocks, pend, st, db, mem, watch, redo, nid>> /\ Count(n + 1)

\* a call or creation that is only asked for, on the state after block h: what it would do, and nothing of it happens;
\* "gas": how much gas it would need, on the latest state
Poor == "nobody"   \* owns nothing
Ask ==
  /\ Go("query") /\ pend = <<>> /\ Len(blocks) > 0 /\ Record /\ RandomElement(1..(10 + n - n)) <= 6
  /\ \E k \in Pick({"call", "create", "gas", "gascreate"}), how \in Pick({"ok", "ok", "revert"}), c \in Pick(Keys), v \in Pick(Vals), a \in Pick(Pays) :
       \E h \in (IF k \in {"gas", "gascreate"} THEN {Len(blocks)} ELSE Pick(1..Len(blocks))),
          u \in (IF k \in {"gas", "gascreate"} THEN Pick(Users) ELSE Pick(Users \cup {Poor, "zero"})) :
         hist' = Append(hist, [a |-> "ask", k |-> k, h |-> h, from |-> u, key |-> c, v |-> v, val |-> a, how |-> how,
                               ok |-> how = "ok" /\ (a = 0 \/ u \in Users), sees |-> [bal |-> blocks[h].post.bal + a, was |-> blocks[h].post.cell[c], now |-> v]])
  /\ UNCHANGED <<blocks, pend, st, db, mem, watch, redo, nid>> /\ Count(n + 1)

Finish == Record /\ n >= MaxSteps /\ n < MaxSteps + 1 /\ PrintT(ToJson(hist)) /\ Count(n + 1) /\ UNCHANGED <<blocks, pend, st, db, mem, watch, redo, nid, hist>>
Next == Finalize \/ Commit \/ Stop \/ Query \/ Watch \/ Poll \/ All \/ Ask \/ Finish
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* Properties *)

\* an index describes a chain of blocks exactly
Exactly(I, bs) ==
  /\ DOMAIN I.hdr = 1..Len(bs)
  /\ DOMAIN I.tx = UNION {{EthOf(bs[h])[i].x.id : i \in 1..Len(EthOf(bs[h]))} : h \in 1..Len(bs)}
  /\ DOMAIN I.pos = UNION {{<<h, i - 1>> : i \in 1..Len(EthOf(bs[h]))} : h \in 1..Len(bs)}
  /\ \A h \in 1..Len(bs) : LET es == EthOf(bs[h]) IN
       /\ I.hdr[h].txs = [i \in 1..Len(es) |-> es[i].x.id] /\ I.hdr[h].parent = h - 1
       /\ \A i \in 1..Len(es) :
            /\ I.pos[<<h, i - 1>>] = es[i].x.id
            /\ LET t == I.tx[es[i].x.id] IN
               /\ t.h = h /\ t.p = i - 1 /\ t.st = (IF es[i].r = "ok" THEN 1 ELSE 0)
               /\ t.cum = Sum([j \in 1..i |-> es[j].x.g])
               /\ t.logs = Logs(es[i].x, es[i].r)
               /\ \A j \in 1..Len(t.logs) : t.logs[j] \in I.hdr[h].bloom
Committed == Exactly(db, blocks)
Running == Exactly(mem, IF pend = <<>> THEN blocks ELSE Append(blocks, pend[1]))
Inverse == \A I \in {db, mem} : /\ DOMAIN I.cos = DOMAIN I.tx /\ DOMAIN I.eth = DOMAIN I.cos
                                /\ \A x \in DOMAIN I.cos : I.eth[I.cos[x]] = x
\* what was committed stays, through stops
Durable == [][\A h \in DOMAIN db.hdr : h \in DOMAIN db'.hdr /\ db'.hdr[h] = db.hdr[h]]_vars
\* a transaction takes effect if it succeeds, and only then
Effects == [][Len(blocks') > Len(blocks) =>
   LET b == blocks'[Len(blocks')] IN
   (\A i \in 1..Len(b.txs) : b.res[i] # "ok") => st'.cell = st.cell /\ st'.bal = st.bal]_vars
View == <<blocks, pend, st, db, mem, redo, n>>
=============================================================================
