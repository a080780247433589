----------------------------- MODULE IbcHooks -----------------------------
(***************************************************************************)
(* Token and NFT transfers over IBC and the EVM hooks in their memos:      *)
(* calls requested by incoming packets, and callbacks on the outcome of    *)
(* outgoing packets.  The other chain is the environment: it sends any     *)
(* packet and acknowledges or lets expire any packet sent to it.           *)
(*                                                                         *)
(* Contracts: R records every call it gets and takes over tokens as told,  *)
(* X reverts, Z fails with an invalid instruction, L never ends,           *)
(* Q calls R and then requests a message that fails at the end,            *)
(* E is an address without code.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Functions

CONSTANTS
  Chans, Users,
  Strangers,       \* senders on the other chain; "L1" is spelled like the address of U1
  Amts, Ids, Vals, Kinds, Acts,
  Contracts, MaxOut, MaxSteps, Record

VARIABLES
  st,              \* [bal, nft, calls, and what calls were allowed to take: alw, app]
  acl, dflt,       \* permission of contracts ("yes", "no", "unset") and the default
  sent,            \* packets sent
  n, out, hist

vars == <<st, acl, dflt, sent, n, out, hist>>

Esc(ch) == "esc" \o ch
\* channels of tokens and of NFTs are different ones
Inter(nft, ch, s) == ch \o (IF nft THEN "n/" ELSE "/") \o s
Inters == {Inter(nft, ch, s) : nft \in BOOLEAN, ch \in Chans, s \in Strangers}
Holders == Users \cup Contracts \cup {Esc(ch) : ch \in Chans} \cup Inters
Voucher(ch) == "f" \o ch          \* what "foo" of the other chain is called here
NVoucher(ch) == "n" \o ch         \* the class "fcls" of the other chain
Local0 == {"stake", "C1"}          \* the native coin, and a token that a user of this chain made
Assets == Local0 \cup {Voucher(ch) : ch \in Chans}
Classes == {"X1"} \cup {NVoucher(ch) : ch \in Chans}
Failing == {"X", "Z", "L", "Q"}
NftRefused == {"R"} \cup Failing          \* contracts that do not take NFTs that are offered to them
Nobody == "nobody"

Pick(S) == IF Record THEN {RandomElement(S)} ELSE S
Often(k, x, y) == IF Record /\ RandomElement(1..100) <= k /\ x # {} THEN Pick(x) ELSE Pick(y)

Init ==
  /\ st = [bal |-> [a \in Assets |-> [h \in Holders |-> IF a \in Local0 /\ h \in Users THEN 20 ELSE 0]],
           nft |-> [c \in Classes |-> [i \in Ids |-> IF c = "X1" THEN "U1" ELSE Nobody]],
           alw |-> [a \in Assets |-> [i \in Inters |-> [c \in Contracts |-> 0]]],
           app |-> [c \in Classes |-> [i \in Ids |-> Nobody]],
           calls |-> <<>>]
  /\ acl \in Pick({[c \in Contracts |-> "unset"], [c \in Contracts |-> IF c \in Failing THEN "unset" ELSE "yes"]}) /\ dflt = FALSE
  /\ sent = <<>> /\ n = 0 /\ out = [op |-> "none"] /\ hist = <<>>

Allowed(c) == acl[c] = "yes" \/ (acl[c] = "unset" /\ dflt)

---------------------------------------------------------------------------
(* steps on the state: <<done, state>> *)

Move(S, a, x, y, v) ==
  IF S.bal[a][x] < v THEN <<FALSE, S>>
  ELSE <<TRUE, [S EXCEPT !.bal[a][x] = @ - v, !.bal[a][y] = @ + v]>>
RECURSIVE NMove(_, _, _, _, _, _)
NMove(S, c, x, y, ids, offered) ==
  IF ids = <<>> THEN <<TRUE, S>>
  ELSE IF S.nft[c][Head(ids)] # x \/ (offered /\ y \in NftRefused) THEN <<FALSE, S>>
  ELSE NMove([S EXCEPT !.nft[c][Head(ids)] = y, !.app[c][Head(ids)] = Nobody], c, x, y, Tail(ids), offered)
\* tokens go away for good; a contract that may take them may do that too
RECURSIVE NBurn(_, _, _, _)
NBurn(S, c, x, ids) ==
  IF ids = <<>> THEN <<TRUE, S>>
  ELSE IF S.nft[c][Head(ids)] = Nobody \/ (S.nft[c][Head(ids)] # x /\ S.app[c][Head(ids)] # x) THEN <<FALSE, S>>
  ELSE NBurn([S EXCEPT !.nft[c][Head(ids)] = Nobody, !.app[c][Head(ids)] = Nobody], c, x, Tail(ids))

\* coins arrive: d is "foo" or the name that an asset has here; to may be no address at all
Arrive(S, ch, d, v, to) ==
  IF to = "bad" \/ v = 0 THEN <<FALSE, S>>
  ELSE IF d = "foo" THEN <<TRUE, [S EXCEPT !.bal[Voucher(ch)][to] = @ + v]>>
  ELSE Move(S, d, Esc(ch), to, v)
NArrive(S, ch, c, ids, to) ==
  IF to = "bad" \/ ids = <<>> THEN <<FALSE, S>>
  ELSE NMove(S, IF c = "fcls" THEN NVoucher(ch) ELSE c, IF c = "fcls" THEN Nobody ELSE Esc(ch), to, ids, TRUE)
Local(ch, d) == IF d = "foo" THEN Voucher(ch) ELSE IF d = "fcls" THEN NVoucher(ch) ELSE d

\* who calls c with a value; R, if told so, takes over the tokens
Exec(S, c, who, val, rec, pulls(_)) ==
  LET a == Move(S, "stake", who, c, val) IN
  IF ~a[1] \/ c \in Failing THEN <<FALSE, S>>
  ELSE IF c = "E" THEN a
  ELSE pulls([a[2] EXCEPT !.calls = Append(@, rec)])
NoPull(S) == <<TRUE, S>>

\* kinds of memos that do not ask for a call
PlainKinds == {"none", "text", "json", "array", "cbonly"}
\* malformed requests
BadKinds == {"badmsg", "badfield", "badevm", "badaddr"}

\* the whole packet, of coins or NFTs: <<success, state>>
\* m = [k, c, style, recv, mode, val, to]
Receive(p) ==
  LET m == p.memo
      arrive(S, to) == IF p.nft THEN NArrive(S, p.ch, p.d, p.ids, to) ELSE Arrive(S, p.ch, p.d, p.v, to)
      me == Inter(p.nft, p.ch, p.from)
      a == arrive(st, me)
      rec == [k |-> "call", who |-> me, val |-> m.val, id |-> 0, ok |-> TRUE]
      pull(S) == IF m.mode = "note" THEN <<TRUE, S>>
                 ELSE IF p.nft THEN NMove(S, Local(p.ch, p.d), me, "R", p.ids, FALSE)
                 ELSE IF m.mode = "over" THEN <<FALSE, S>>
                 ELSE LET r == Move(S, Local(p.ch, p.d), me, "R", p.v) IN <<r[1], [r[2] EXCEPT !.alw[Local(p.ch, p.d)][me]["R"] = 0]>>
      \* the call may take what came
      allow(S) == IF p.nft THEN [S EXCEPT !.app[Local(p.ch, p.d)] = [i \in Ids |-> IF i \in Range(p.ids) THEN m.c ELSE @[i]]]
                  ELSE [S EXCEPT !.alw[Local(p.ch, p.d)][me][m.c] = p.v]
  IN IF m.k \in PlainKinds THEN arrive(st, m.to)
     ELSE IF m.k \in BadKinds THEN <<FALSE, st>>
     ELSE IF ~Allowed(m.c) \/ m.recv # "same" THEN <<FALSE, st>>
     ELSE IF ~a[1] \/ m.k = "badinput" THEN <<FALSE, st>>
     ELSE Exec(allow(a[2]), m.c, me, m.val, rec, pull)

---------------------------------------------------------------------------

State == [bal |-> st.bal, nft |-> st.nft, alw |-> st.alw, app |-> st.app, calls |-> st.calls, acl |-> acl, dflt |-> dflt]
Log(o, ok) == /\ out' = [op |-> o, ok |-> ok] /\ n' = n + 1
              /\ hist' = IF Record THEN Append(hist, [op |-> o, ok |-> ok, post |-> State']) ELSE hist
Go(a) == a \in Acts /\ n < MaxSteps

\* spellings of the address of the contract
Styles == IF Record /\ n >= 0 THEN Pick({"hex", "lower", "bech"}) ELSE {"hex"}
Modes(nft) == IF nft THEN {"note", "pull"} ELSE {"note", "pull", "over"}
\* to: the receiver of a packet without a request
Memos(nft) ==
  LET plain(k) == {[k |-> k, c |-> "R", style |-> "hex", recv |-> "same", mode |-> "note", val |-> 0, claim |-> FALSE, to |-> to] : to \in Often(80, Users \cup {"E"}, Users \cup {"R", "E", "bad"})}
      bad(k) == {[k |-> k, c |-> "R", style |-> s, recv |-> "same", mode |-> "note", val |-> 0, claim |-> FALSE, to |-> "R"] : s \in Styles}
      call(k) == {[k |-> k, c |-> c, style |-> s, recv |-> r, mode |-> mo, val |-> v, claim |-> cl, to |-> "R"] :
                    c \in Often(75, {d \in Contracts : Allowed(d)}, Contracts), s \in Styles, r \in Often(85, {"same"}, {"same", "other", "user"}),
                    mo \in Pick(Modes(nft)), v \in Often(80, {0}, Vals), cl \in IF Record THEN Pick(BOOLEAN) ELSE {FALSE}}
      of(k) == IF k \in PlainKinds THEN plain(k) ELSE IF k \in BadKinds THEN bad(k) ELSE call(k)
  IN UNION {of(k) : k \in Often(55, {"call"} \cap Kinds, Kinds)}
RECURSIVE Draw(_, _)
Draw(k, S) == IF k = 0 \/ S = {} THEN <<>> ELSE LET x == RandomElement(S) IN <<x>> \o Draw(k - 1, S \ {x})
IdSeqs(S) == IF Record THEN IF RandomElement(1..100) <= 80 /\ S # {} THEN {Draw(RandomElement(1..2), S)} ELSE {[i \in 1..RandomElement(0..2) |-> RandomElement(Ids)]}
             ELSE {<<i>> : i \in Ids}
Back(ch) == {a \in Assets : st.bal[a][Esc(ch)] > 0}
NBack(ch) == {c \in Classes : \E i \in Ids : st.nft[c][i] = Esc(ch)}

RecvCoin ==
  /\ Go("recv") /\ \E ch \in Pick(Chans), s \in Pick(Strangers) : \E d \in Often(80, {"foo"} \cup Back(ch), {"foo"} \cup Assets), v \in Often(85, Amts \ {0}, Amts) :
     \E m \in Memos(FALSE) :
       LET p == [a |-> "recv", nft |-> FALSE, ch |-> ch, from |-> s, d |-> d, v |-> v, ids |-> <<>>, memo |-> m] r == Receive(p) IN
       st' = (IF r[1] THEN r[2] ELSE st) /\ UNCHANGED <<acl, dflt, sent>> /\ Log(p, r[1])
RecvNft ==
  /\ Go("nrecv") /\ \E ch \in Pick(Chans), s \in Pick(Strangers) : \E d \in Often(80, {"fcls"} \cup NBack(ch), {"fcls"} \cup Classes) :
     \E ids \in IdSeqs({i \in Ids : st.nft[Local(ch, d)][i] = IF d = "fcls" THEN Nobody ELSE Esc(ch)}) : \E m \in Memos(TRUE) :
       LET p == [a |-> "recv", nft |-> TRUE, ch |-> ch, from |-> s, d |-> d, v |-> 0, ids |-> ids, memo |-> m] r == Receive(p) IN
       st' = (IF r[1] THEN r[2] ELSE st) /\ UNCHANGED <<acl, dflt, sent>> /\ Log(p, r[1])

\* memos of outgoing packets: a callback may be well formed or not; a request to the other chain means nothing here
OutKinds == IF Record /\ n >= 0 THEN {"none", "text", "cb", "both", "call", "cbbad"} ELSE {"none", "cb"}
OutMemos == IF n < 0 THEN {} ELSE {[k |-> k, c |-> c, style |-> s, id |-> id] : k \in Often(70, {"cb"}, OutKinds), c \in Often(60, {"R"}, Contracts),
                                                          s \in Styles, id \in IF Record THEN Pick({0, 7, 2000000000}) ELSE {7}}
Registers(m) == m.k \in {"cb", "both"}

SendCoin ==
  /\ Go("send") /\ Len(sent) < MaxOut /\ \E ch \in Pick(Chans) : \E w \in Pick(Users \cup {"R"}) :
     \E d \in Often(70, {a \in Assets : st.bal[a][w] > 0}, Assets), v \in Pick(Amts \ {0}), m \in OutMemos :
       LET r == IF d = Voucher(ch) THEN IF st.bal[d][w] < v THEN <<FALSE, st>> ELSE <<TRUE, [st EXCEPT !.bal[d][w] = @ - v]>> ELSE Move(st, d, w, Esc(ch), v)
           o == [a |-> "send", nft |-> FALSE, ch |-> ch, w |-> w, d |-> d, v |-> v, ids |-> <<>>, memo |-> m] IN
       /\ st' = (IF r[1] THEN r[2] ELSE st) /\ UNCHANGED <<acl, dflt>> /\ Log(o, r[1])
       /\ sent' = IF r[1] THEN Append(sent, [p |-> o, settled |-> FALSE]) ELSE sent
SendNft ==
  /\ Go("nsend") /\ Len(sent) < MaxOut /\ \E ch \in Pick(Chans) : \E w \in Pick(Users \cup {"R"}) :
     \E d \in Often(70, {c \in Classes : \E i \in Ids : st.nft[c][i] = w}, Classes) : \E ids \in IdSeqs({i \in Ids : st.nft[d][i] = w \/ st.app[d][i] = w}) : \E m \in OutMemos :
       LET r == IF ids = <<>> THEN <<FALSE, st>> ELSE IF d = NVoucher(ch) THEN NBurn(st, d, w, ids) ELSE NMove(st, d, w, Esc(ch), ids, FALSE)
           o == [a |-> "send", nft |-> TRUE, ch |-> ch, w |-> w, d |-> d, v |-> 0, ids |-> ids, memo |-> m] IN
       /\ st' = (IF r[1] THEN r[2] ELSE st) /\ UNCHANGED <<acl, dflt>> /\ Log(o, r[1])
       /\ sent' = IF r[1] THEN Append(sent, [p |-> o, settled |-> FALSE]) ELSE sent

\* give back what was sent
Refund(S, p) ==
  IF p.nft THEN NMove(S, p.d, IF p.d = NVoucher(p.ch) THEN Nobody ELSE Esc(p.ch), p.w, p.ids, TRUE)
  ELSE IF p.d = Voucher(p.ch) THEN <<TRUE, [S EXCEPT !.bal[p.d][p.w] = @ + p.v]>> ELSE Move(S, p.d, Esc(p.ch), p.w, p.v)
\* the callback; if it fails, it did not happen
Callback(S, p, k, ok) ==
  LET m == p.memo IN
  IF ~Registers(m) \/ ~Allowed(m.c) THEN S
  ELSE Exec(S, m.c, p.w, 0, [k |-> k, who |-> p.w, val |-> 0, id |-> m.id, ok |-> ok], NoPull)[2]
\* how: "ok", "error", "timeout"
Settle ==
  /\ Go("settle") /\ sent # <<>> /\ \E i \in Often(80, {j \in 1..Len(sent) : ~sent[j].settled}, 1..Len(sent)), how \in Pick({"ok", "error", "timeout"}) :
       LET p == sent[i].p
           r == IF how = "ok" THEN <<TRUE, st>> ELSE Refund(st, p)
           o == [a |-> "settle", i |-> i, how |-> how, again |-> sent[i].settled] IN
       IF sent[i].settled THEN UNCHANGED <<st, acl, dflt, sent>> /\ Log(o, TRUE)
       ELSE IF ~r[1] THEN UNCHANGED <<st, acl, dflt, sent>> /\ Log(o, FALSE)
       ELSE /\ st' = Callback(r[2], p, IF how = "timeout" THEN "timeout" ELSE "ack", how = "ok")
            /\ sent' = [sent EXCEPT ![i].settled = TRUE] /\ UNCHANGED <<acl, dflt>> /\ Log(o, TRUE)

\* the same packet is delivered again
Replay ==
  /\ Go("replay") /\ Record /\ RandomElement(1..3) = 1
  /\ UNCHANGED <<st, acl, dflt, sent>> /\ Log([a |-> "replay"], TRUE)

Permit ==
  /\ Go("acl") /\ \E w \in Often(85, {"gov"}, Users), c \in Pick(Contracts), v \in Often(70, {"yes"}, {"yes", "no"}) :
       /\ acl' = IF w = "gov" THEN [acl EXCEPT ![c] = v] ELSE acl
       /\ UNCHANGED <<st, dflt, sent>> /\ Log([a |-> "permit", w |-> w, c |-> c, v |-> v], w = "gov")
Default ==
  /\ Go("acl") /\ (Record => RandomElement(1..3) = 1) /\ \E w \in Often(70, {"gov"}, Users), v \in Pick(BOOLEAN) :
       /\ dflt' = IF w = "gov" THEN v ELSE dflt
       /\ UNCHANGED <<st, acl, sent>> /\ Log([a |-> "default", w |-> w, on |-> v], w = "gov")

Finish == n = MaxSteps /\ n' = n + 1 /\ (Record => PrintT(ToJson(hist))) /\ UNCHANGED <<st, acl, dflt, sent, out, hist>>
Next == RecvCoin \/ RecvCoin \/ RecvCoin \/ RecvNft \/ RecvNft \/ SendCoin \/ SendNft \/ Settle \/ Settle \/ Replay \/ Permit \/ Default \/ Finish
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* Properties *)

Now == n < MaxSteps
NewCalls == SubSeq(st'.calls, Len(st.calls) + 1, Len(st'.calls))
NoNegative == \A a \in Assets, h \in Holders : st.bal[a][h] >= 0
RECURSIVE SumOf(_, _)
SumOf(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumOf(f, S \ {x})
\* coins of this chain are never made or lost
NativeKept == \A a \in Local0 : SumOf(st.bal[a], Holders) = 20 * Cardinality(Users)
\* the calls of a packet run as the address of its channel and sender, and once
AsIntermediary == [][Now /\ out'.op.a = "recv" =>
    /\ Len(NewCalls) <= 1
    /\ \A i \in 1..Len(NewCalls) : NewCalls[i].k = "call" /\ NewCalls[i].who = Inter(out'.op.nft, out'.op.ch, out'.op.from)]_vars
\* refused packets leave nothing behind; users and other senders never lose anything to a packet
RefusedNothing == [][Now /\ ~out'.ok => st' = st]_vars
OnlyOwnFunds == [][Now /\ out'.op.a = "recv" =>
    \A a \in Assets, h \in Holders \ {Inter(out'.op.nft, out'.op.ch, out'.op.from), Esc(out'.op.ch)} : st'.bal[a][h] >= st.bal[a][h]]_vars
\* only the called contract is allowed to take anything, and only of what the packet brought
OnlyAllowance == [][Now =>
    \A a \in Assets, i \in Inters, c \in Contracts : st'.alw[a][i][c] > st.alw[a][i][c] =>
      LET o == out'.op IN o.a = "recv" /\ ~o.nft /\ o.memo.k \in {"call", "callcb"} /\ i = Inter(o.nft, o.ch, o.from) /\ c = o.memo.c /\ a = Local(o.ch, o.d) /\ st'.alw[a][i][c] = o.v]_vars
OnlyApproval == [][Now =>
    \A k \in Classes, i \in Ids : st'.app[k][i] # st.app[k][i] /\ st'.app[k][i] # Nobody =>
      LET o == out'.op IN o.a = "recv" /\ o.nft /\ o.memo.k \in {"call", "callcb"} /\ st'.nft[k][i] = Inter(o.nft, o.ch, o.from) /\ st'.app[k][i] = o.memo.c /\ i \in Range(o.ids)]_vars
\* no call without permission
OnlyAllowed == [][Now /\ NewCalls # <<>> => Allowed("R")]_vars
\* without a request in the memo the packet is only a transfer
PlainIsPlain == [][Now /\ out'.op.a = "recv" /\ out'.op.memo.k \in PlainKinds => st'.calls = st.calls]_vars
\* a callback comes only with the outcome of a packet that registered it, to its contract, on behalf of its sender, with the outcome
CallbackRight == [][Now =>
    \A i \in 1..Len(NewCalls) : NewCalls[i].k # "call" =>
      /\ Len(NewCalls) = 1 /\ out'.op.a = "settle" /\ ~out'.op.again
      /\ LET p == sent[out'.op.i].p IN /\ Registers(p.memo) /\ p.memo.c = "R" /\ NewCalls[1].who = p.w /\ NewCalls[1].id = p.memo.id
                                       /\ NewCalls[1].k = (IF out'.op.how = "timeout" THEN "timeout" ELSE "ack")
                                       /\ NewCalls[1].ok = (out'.op.how = "ok")]_vars
\* the outcome of a packet and the refund do not depend on the callback
RefundAlways == [][Now /\ out'.op.a = "settle" /\ ~out'.op.again =>
    LET p == sent[out'.op.i].p r == IF out'.op.how = "ok" THEN <<TRUE, st>> ELSE Refund(st, p) IN
    /\ out'.ok = r[1]
    /\ IF r[1] THEN st'.bal = r[2].bal /\ st'.nft = r[2].nft ELSE st' = st]_vars
SettledOnce == [][\A i \in 1..Len(sent) : sent[i].settled => sent'[i].settled]_vars
View == <<st, acl, dflt, sent, n, out>>
=============================================================================
