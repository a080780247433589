---------------------------- MODULE TxLifecycle ----------------------------
(***************************************************************************)
(* The life of a transaction: admission by nonce, signature and fee,       *)
(* execution in a block, the effects of success and of failure, the refund *)
(* of unused gas, and admission to the pool (CheckTx) against the state of *)
(* the last block.                                                         *)
(*                                                                         *)
(* Gas used is not predicted: a refund is the name of the transaction that *)
(* received it, and stands for                                             *)
(*     price * floor(ratio * (gas limit - gas used)).                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
  Rich,         \* accounts that can pay
  Long,         \* those of Rich with an address of 32 bytes: they sign no Ethereum transactions
  Multi,        \* those of Rich that are keys of three members, two of whom must sign: they sign no Ethereum transactions
  Feats,        \* enabled features
  Prices,       \* gas prices
  Keys, Vals, Pays, \* storage slots and values, amounts sent along
  Ratios,       \* refund ratios, in percent
  MaxBlocks, MaxTxs,
  Record

VARIABLES
  seq, bal,     \* account sequences, balances without refunds
  refs,         \* refs[a]: the transactions whose refund a received
  stor, abal,   \* the storage and the balance of contract A
  made,         \* contracts created
  snon,         \* contracts created by an account with a long address, which has a nonce of its own for that
  fees,         \* all fees paid
  cseq, cbal,   \* the pool's view
  ratio,
  open,         \* results of the transactions of the open block
  chk,          \* admissions to the pool since the last block
  nblk, ntx, hist

vars == <<seq, bal, refs, stor, abal, made, snon, fees, cseq, cbal, ratio, open, chk, nblk, ntx, hist>>

Poor == "PO"          \* owns a single coin
Granter == "G"        \* lets U1 use its coins for fees
Users == Rich \cup {Poor}
Accts == Users \cup {Granter}
Big == 1000000        \* gas limits
Small == 300000
Tiny == 1000
RichCoins == 100000000

Pick(S) == IF Record THEN {RandomElement(S)} ELSE S
\* in generation, x rather than y with n chances in 100
Often(n, x, y) == IF Record /\ RandomElement(1..100) <= n THEN x ELSE y

Init ==
  /\ seq = [a \in Users |-> 0] /\ bal = [a \in Accts |-> IF a = Poor THEN 1 ELSE RichCoins]
  /\ refs = [a \in Accts |-> {}]
  /\ stor = [k \in Keys |-> 0] /\ abal = 0 /\ made = {} /\ snon = [a \in Long |-> 0] /\ fees = 0
  /\ cseq = seq /\ cbal = bal /\ ratio \in Pick(Ratios)
  /\ open = <<>> /\ chk = <<>> /\ nblk = 0 /\ ntx = 0 /\ hist = <<>>

---------------------------------------------------------------------------
(* messages and transactions *)

CallHow == {"ok"} \cup (Feats \cap {"revert", "invalid", "heavy", "request", "caught"})
CreateHow == {"ok"} \cup (Feats \cap {"revert", "invalid"})
\* up: the sender is spelled in upper case, which names the same account
Calls(u) == {[m |-> "call", from |-> u, how |-> h, k |-> k, v |-> v, val |-> x, up |-> FALSE] : h \in Pick(CallHow), k \in Pick(Keys), v \in Pick(Vals), x \in Pick(Pays)}
Creates(u) == {[m |-> "create", from |-> u, how |-> h, k |-> 1, v |-> 0, val |-> x, up |-> FALSE] : h \in Pick(CreateHow), x \in Pick(Pays \ {2})}
Creates2(u) == {[m |-> "create2", from |-> u, how |-> h, k |-> k, v |-> 0, val |-> x, up |-> FALSE] : h \in Pick(CreateHow), k \in Pick(Keys), x \in Pick(Pays \ {2})}
Sends(u) == {[m |-> "send", from |-> u, how |-> t, k |-> 1, v |-> 0, val |-> x, up |-> FALSE] : t \in Pick(Users), x \in Pick(Pays \ {0})}
BadCalls(u) == {[m |-> "badhex", from |-> u, how |-> "ok", k |-> 1, v |-> 0, val |-> 0, up |-> FALSE]}
EthMsgs(u) == IF Record THEN Often(25, Creates(u), Calls(u)) ELSE Calls(u) \cup Creates(u)
CosMsgs(u) == IF Record THEN Often(30, Sends(u), Often(10, BadCalls(u), Often(15, Creates2(u), EthMsgs(u))))
              ELSE Calls(u) \cup Creates(u) \cup Creates2(u) \cup Sends(u) \cup BadCalls(u)

Spelled(S) == IF "upper" \in Feats THEN {[x EXCEPT !.up = b] : x \in S, b \in Pick(BOOLEAN)} ELSE S

Short == Users \ (Long \cup Multi)
EthTypes == {"legacy", "acl", "dyn"}
\* what a third party may change in an Ethereum transaction
EthMuts(t, m) == {"gas", "feeup", "feedown", "feeother", "value", "data", "aclist", "nonce", "cap", "type", "sigv", "sigr", "malleate", "sender", "pubkey",
                  "chain", "kind", "nomemo", "extramemo", "msgs", "othermsg"}
                 \cup (IF m.m = "call" THEN {"to"} ELSE {}) \cup (IF t = "dyn" THEN {"tip"} ELSE {})
\* sigbit: a bit of a signature; mode: what the signature claims to sign; who: the members, or the key, it is said to come from
CosMuts == {"fee", "gas", "memo", "msg", "chain", "accnum", "sigseq", "sigbit", "mode", "who"}
\* what a signature of a cosmos transaction is made of
Modes == IF "modes" \in Feats THEN {"direct", "amino", "eip191"} ELSE {"direct"}

\* sq: makes TLC choose anew each time
Offsets(sq) == IF Record THEN IF RandomElement(1..100) <= 80 THEN {0} ELSE {RandomElement({-1, 1})} ELSE {-1, 0, 1}

EthTxs(sq) ==
  {[k |-> "eth", from |-> u, t |-> t, off |-> o, gl |-> g, price |-> p, granter |-> gr, msgs |-> <<m>>, mut |-> "none", sg |-> {}] :
     u \in Pick(Short), t \in (IF Record THEN Pick(EthTypes) ELSE {"dyn"}), o \in Offsets(sq), g \in (IF Record THEN Often(88, {Big}, {Small, Tiny}) ELSE {Big}),
     p \in Pick(Prices), gr \in (IF "granter" \in Feats THEN Often(85, {FALSE}, BOOLEAN) ELSE {FALSE}),
     m \in UNION {EthMsgs(x) : x \in Short}}
\* the heavy message is the one that runs out of a small limit
Sane(t) == /\ \A i \in 1..Len(t.msgs) : t.msgs[i].how = "heavy" => t.gl # Big
           /\ t.gl = Small => \A i \in 1..Len(t.msgs) : t.msgs[i].how \in {"heavy", "revert", "invalid"}
           /\ t.granter => (t.from = "U1" /\ t.price > 0)
Mutated(t) ==
  IF "mut" \notin Feats \/ t.gl = Tiny THEN {t}
  ELSE IF Record THEN Often(70, {t}, {[t EXCEPT !.mut = x] : x \in Pick(IF t.k = "eth" THEN EthMuts(t.t, t.msgs[1]) ELSE CosMuts)})
  ELSE {t} \cup {[t EXCEPT !.mut = x] : x \in {"gas"}}

\* the sets of members that may sign for a key of several
Quorums == {{1, 2}, {1, 3}, {2, 3}, {1, 2, 3}}
Signed(t) ==
  IF \E i \in 1..Len(t.msgs) : t.msgs[i].from \in Multi
  THEN {[t EXCEPT !.sg = S] : S \in Often(85, Pick(Quorums), Pick(SUBSET {1, 2, 3}))}
  ELSE {t}
SigOK(t) == t.mut = "none" /\ ((\E i \in 1..Len(t.msgs) : t.msgs[i].from \in Multi) => t.sg \in Quorums)
Signers(t) == {t.msgs[i].from : i \in 1..Len(t.msgs)}
Payer(t) == IF t.granter THEN Granter ELSE t.msgs[1].from
Fee(t) == IF t.price = 0 THEN 0 ELSE t.gl * t.price + (IF t.k = "eth" THEN 1 ELSE 0)

\* admitted, given sequences and balances; refunds cannot matter: who has some can pay
Admitted(t, sq, bl) ==
  /\ SigOK(t) /\ t.off = 0 /\ t.gl # Tiny
  /\ Fee(t) <= bl[Payer(t)]

---------------------------------------------------------------------------
(* execution *)

\* world: [ok, seq, bal, stor, abal, made, snon]
\* the nonce that decides the address of what u creates
CreateNonce(w, u) == IF u \in Long THEN w.snon[u] ELSE w.seq[u]
Created(w, m, salt) ==
  LET u == m.from IN
  [w EXCEPT !.seq[u] = @ + 1, !.bal[u] = @ - m.val,
            !.snon = IF u \in Long THEN [@ EXCEPT ![u] = @ + 1] ELSE @,
            !.made = @ \cup {[by |-> u, n |-> CreateNonce(w, u), salt |-> salt, val |-> m.val]}]
Exec1(w, m) ==
  LET u == m.from IN
  CASE m.m = "send" ->
        IF w.bal[u] < m.val THEN [w EXCEPT !.ok = FALSE]
        ELSE [w EXCEPT !.bal = [[@ EXCEPT ![u] = @ - m.val] EXCEPT ![m.how] = @ + m.val]]
    [] m.m = "badhex" -> [w EXCEPT !.ok = FALSE]
    [] m.m = "call" ->
        IF m.how \notin {"ok", "caught"} \/ w.bal[u] < m.val THEN [w EXCEPT !.ok = FALSE]
        ELSE [w EXCEPT !.seq[u] = @ + 1, !.bal[u] = @ - m.val, !.abal = @ + m.val,
                       !.stor = IF m.how = "ok" THEN [@ EXCEPT ![m.k] = m.v] ELSE @]
    [] m.m = "create" ->
        IF m.how # "ok" \/ w.bal[u] < m.val THEN [w EXCEPT !.ok = FALSE]
        ELSE Created(w, m, 0)
    [] m.m = "create2" ->
        \* a second contract of the same creator, salt and code is refused
        IF m.how # "ok" \/ w.bal[u] < m.val \/ \E c \in w.made : c.by = u /\ c.salt = m.k THEN [w EXCEPT !.ok = FALSE]
        ELSE Created(w, m, m.k)

RECURSIVE Exec(_, _)
Exec(w, ms) == IF ms = <<>> \/ ~w.ok THEN w ELSE Exec(Exec1(w, Head(ms)), Tail(ms))

IsEvm(m) == m.m \in {"call", "create", "create2", "badhex"}
EvmBy(t, u) == \E i \in 1..Len(t.msgs) : t.msgs[i].from = u /\ IsEvm(t.msgs[i])

Result(t, r) == Append(open, [tx |-> t, id |-> ntx, seqs |-> [u \in Signers(t) |-> seq[u] + t.off], r |-> r, ok |-> r = "ok"])

Deliver(t) ==
  /\ ntx' = ntx + 1
  /\ IF ~Admitted(t, seq, bal)
     THEN /\ open' = Result(t, "rejected")
          /\ UNCHANGED <<seq, bal, refs, stor, abal, made, snon, fees>>
     ELSE
       LET paid == [bal EXCEPT ![Payer(t)] = @ - Fee(t)]
           \* the signer's own increment is left to its executions
           start == [u \in Users |-> seq[u] + (IF u \in Signers(t) /\ ~EvmBy(t, u) THEN 1 ELSE 0)]
           w == Exec([ok |-> TRUE, seq |-> start, bal |-> paid, stor |-> stor, abal |-> abal, made |-> made, snon |-> snon], t.msgs)
       IN /\ fees' = fees + Fee(t)
          /\ IF w.ok
             THEN /\ seq' = w.seq /\ bal' = w.bal /\ stor' = w.stor /\ abal' = w.abal /\ made' = w.made /\ snon' = w.snon
                  /\ refs' = IF t.k = "eth" /\ t.price > 0 /\ ratio > 0 THEN [refs EXCEPT ![Payer(t)] = @ \cup {ntx}] ELSE refs
                  /\ open' = Result(t, "ok")
             ELSE /\ seq' = [u \in Users |-> seq[u] + (IF u \in Signers(t) THEN 1 ELSE 0)]
                  /\ bal' = paid
                  /\ UNCHANGED <<stor, abal, made, snon, refs>>
                  /\ open' = Result(t, "failed")
  /\ UNCHANGED <<cseq, cbal, ratio, chk, nblk, hist>>

MoreTx == nblk < MaxBlocks /\ ntx < MaxTxs

EthTx ==
  /\ MoreTx
  /\ \E t0 \in EthTxs(seq) : \E t \in Mutated(t0) :
       /\ t.from = t.msgs[1].from /\ Sane(t)
       /\ Deliver(t)

CosTxs(sq) ==
  {[k |-> "cos", from |-> ms[1].from, t |-> md, off |-> o, gl |-> g, price |-> p, granter |-> gr, msgs |-> ms, mut |-> "none", sg |-> {}] :
     md \in Pick(Modes),
     o \in Offsets(sq), g \in (IF Record THEN Often(88, {Big}, {Small, Tiny}) ELSE {Big}), p \in Pick(Prices),
     gr \in (IF "granter" \in Feats THEN Often(85, {FALSE}, BOOLEAN) ELSE {FALSE}),
     ms \in LET u == RandomElement(Users) v == RandomElement(Users) n == RandomElement(1..4)
                M(x) == IF Record THEN Spelled(CosMsgs(x)) ELSE UNION {Spelled(CosMsgs(y)) : y \in Users} IN
            IF Record THEN IF n = 1 THEN {<<a>> : a \in M(u)}
                           ELSE IF n = 2 THEN {<<a, b>> : a \in M(u), b \in M(u)}
                           ELSE IF n = 3 THEN {<<a, b>> : a \in M(u), b \in M(v)}
                           ELSE {<<a, b, c>> : a \in M(u), b \in M(u), c \in M(v)}
            ELSE {<<a>> : a \in M(u)} \cup {<<a, b>> : a \in M(u), b \in M(u)}}

CosTx ==
  /\ "cosmos" \in Feats /\ MoreTx
  /\ \E t0 \in CosTxs(seq) : \E t1 \in Mutated(t0) : \E t \in Signed(t1) :
       /\ Sane(t) /\ (t.gl = Small => Len(t.msgs) = 1)
       /\ Deliver(t)

\* admission to the pool
Check ==
  /\ "check" \in Feats /\ nblk < MaxBlocks /\ Len(chk) < 4
  /\ \E t0 \in (IF Record THEN EthTxs(cseq) ELSE {}) : \E t \in Mutated(t0) :
       /\ t.from = t.msgs[1].from /\ Sane(t)
       \* a node refuses to relay what pays less than its minimum
       /\ LET a == Admitted(t, cseq, cbal) /\ t.price > 0 IN
          /\ cseq' = IF a THEN [cseq EXCEPT ![t.from] = @ + 1] ELSE cseq
          /\ cbal' = IF a THEN [cbal EXCEPT ![Payer(t)] = @ - Fee(t)] ELSE cbal
          /\ chk' = Append(chk, [tx |-> t, seqs |-> [u \in Signers(t) |-> cseq[u] + t.off], ok |-> a])
  /\ UNCHANGED <<seq, bal, refs, stor, abal, made, snon, fees, ratio, open, nblk, ntx, hist>>

EndBlock ==
  /\ nblk < MaxBlocks /\ (Record => (Len(open) >= 2 \/ ntx = MaxTxs))
  /\ nblk' = nblk + 1 /\ open' = <<>> /\ chk' = <<>> /\ cseq' = seq /\ cbal' = bal
  /\ hist' = IF Record THEN Append(hist, [checks |-> chk, txs |-> open, ratio |-> ratio,
                \* afterwards the state is exported and a chain that starts from the export goes on
                export |-> "export" \in Feats /\ RandomElement(1..(8 + nblk - nblk)) = 1,
                post |-> [seq |-> seq, bal |-> bal, refs |-> refs, stor |-> stor, abal |-> abal, made |-> made, snon |-> snon, fees |-> fees]]) ELSE hist
  /\ UNCHANGED <<seq, bal, refs, stor, abal, made, snon, fees, ratio, ntx>>

Finish ==
  /\ nblk = MaxBlocks /\ nblk' = nblk + 1
  /\ (Record => PrintT(ToJson(hist)))
  /\ UNCHANGED <<seq, bal, refs, stor, abal, made, snon, fees, cseq, cbal, ratio, open, chk, ntx, hist>>

Next == EthTx \/ CosTx \/ Check \/ EndBlock \/ Finish
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* Properties *)

Sum(f, S) == LET RECURSIVE R(_) R(X) == IF X = {} THEN 0 ELSE LET x == CHOOSE y \in X : TRUE IN f[x] + R(X \ {x}) IN R(S)
RECURSIVE MadeSum(_)
MadeSum(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN x.val + MadeSum(S \ {x})
\* T02: coins only move: what is missing from the accounts is in the fees, in A or in new contracts
Conserved == Sum(bal, Accts) + fees + abal + MadeSum(made) = RichCoins * Cardinality(Rich \cup {Granter}) + 1
NoDebt == \A a \in Accts : bal[a] >= 0
\* T01: sequences only rise, a created contract was made with a used nonce, and none twice
SeqMono == [][\A u \in Users : seq'[u] >= seq[u]]_vars
MadeUsed == \A c \in made : c.n < IF c.by \in Long THEN snon[c.by] ELSE seq[c.by]
MadeOnce == \A c, d \in made : (c.by = d.by /\ c.n = d.n) => c = d
\* T01/T05: what a delivered transaction did to the sequences
Last == open'[Len(open')]
Delivered == Len(open') > Len(open)
SeqExact == [][Delivered =>
   LET t == Last.tx r == Last.r n(u) == Cardinality({i \in 1..Len(t.msgs) : t.msgs[i].from = u /\ IsEvm(t.msgs[i])}) IN
   \A u \in Users : seq'[u] - seq[u] = IF r = "rejected" \/ u \notin Signers(t) THEN 0
                                       ELSE IF r = "failed" \/ n(u) = 0 THEN 1 ELSE n(u)]_vars
FailedClean == [][Delivered /\ Last.r # "ok" => UNCHANGED <<stor, abal, made, snon, refs>>]_vars
RejectedNothing == [][Delivered /\ Last.r = "rejected" => UNCHANGED <<seq, bal, fees>>]_vars
\* T03: what was changed by others is never admitted
MutNever == [][Delivered /\ Last.tx.mut # "none" => Last.r = "rejected"]_vars
\* T02: only the payer pays
FeesFromPayer == [][Delivered /\ Last.r = "failed" => \A a \in Accts : bal'[a] = bal[a] - (IF a = Payer(Last.tx) THEN Fee(Last.tx) ELSE 0)]_vars
RefundOnce == \A a, b \in Accts : a # b => refs[a] \cap refs[b] = {}
View == <<seq, bal, refs, stor, abal, made, snon, fees, ratio, Len(open), nblk, ntx>>
=============================================================================
