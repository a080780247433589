---------------------------- MODULE EVMFrames ----------------------------
(***************************************************************************)
(* Execution of EVM messages in minievm (x/evm): nested call frames over   *)
(* one world state, caught and uncaught failures, static and delegate      *)
(* calls, transient storage, logs, native value, creates, self-destructs,  *)
(* token operations through the ERC20 registry precompile, and cosmos      *)
(* messages requested through the cosmos precompile.                       *)
(*                                                                         *)
(* Every contract runs the same "puppet" program, an interpreter of the    *)
(* operations below, so a behaviour of this module is one real program.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
  EOAs,      \* externally owned accounts that send transactions
  Base,      \* contracts deployed beforehand
  Recs,      \* passive recipients
  Owner,     \* the base contract that owns the token
  Keys, Vals,
  MaxTx, MinOps, MaxOps, MaxDepth, MaxBad,
  InitBal,
  Ops,       \* names of enabled operations
  TxKinds,   \* subset of {"call", "create", "query", "qcreate"}
  Record     \* TRUE: keep and print the history (simulation only)

VARIABLES phase, w, stack, tx, ntx, nops, nbad, seen, gone, hist, cnt

vars == <<phase, w, stack, tx, ntx, nops, nbad, seen, gone, hist, cnt>>

Fee == "FEE"                      \* the contract of the native token

Get(f, a, d) == IF a \in DOMAIN f THEN f[a] ELSE d
Put(f, a, v) == (a :> v) @@ f
Del(f, S) == [a \in DOMAIN f \ S |-> f[a]]

ZeroSt == [k \in Keys |-> 0]
St(W, a) == Get(W.st, a, ZeroSt)
Tr(W, a) == Get(W.tr, a, ZeroSt)
Bal(W, a) == Get(W.bal, a, 0)
Nonce(W, a) == Get(W.nonce, a, 0)
Tok(W, a) == Get(W.tok, a, 0)

SetBal(W, a, v) == [W EXCEPT !.bal = Put(W.bal, a, v)]
Move(W, a, b, v) == IF v = 0 THEN W ELSE LET W1 == SetBal(W, a, Bal(W, a) - v) IN SetBal(W1, b, Bal(W1, b) + v)
SetNonce(W, a, v) == [W EXCEPT !.nonce = Put(W.nonce, a, v)]
BumpNonce(W, a) == SetNonce(W, a, Nonce(W, a) + 1)

RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumOver(f, S \ {x})

Child(a, n) == a \o "." \o ToString(n)
Salted(a, s) == a \o "@" \o ToString(s)

InitWorld ==
  [ st |-> <<>>, tr |-> <<>>,
    bal |-> [a \in EOAs \cup Base |-> InitBal],
    code |-> Base,
    nonce |-> [a \in Base |-> 1],
    created |-> {}, dead |-> {},
    logs |-> <<>>, msgs |-> <<>>,
    tok |-> [a \in Base |-> 1], ntok |-> 0, burnt |-> 0 ]

Init ==
  /\ phase = "idle" /\ w = InitWorld /\ stack = <<>>
  /\ tx = [pre |-> InitWorld, ops |-> <<>>, kind |-> "", from |-> "", to |-> "", value |-> 0]
  /\ ntx = 0 /\ nops = 0 /\ nbad = 0 /\ seen = {} /\ gone = {} /\ hist = <<>>
  /\ cnt = [fid |-> 0, failed |-> {}]

---------------------------------------------------------------------------
(* Frames *)

Top == stack[Len(stack)]
Depth == Len(stack)
Pool == Base \cup seen \cup Recs

\* one frame; path identifies it among all frames of the transaction
Frame(a, caller, static, create, W) ==
  [addr |-> a, caller |-> caller, static |-> static, create |-> create,
   snap |-> W, out |-> <<>>, path |-> (IF Depth = 0 THEN <<>> ELSE Top.path) \o <<cnt.fid + 1>>]

Note(op) == IF Record THEN [tx EXCEPT !.ops = Append(@, op)] ELSE tx
Emit(vs) == [stack EXCEPT ![Depth].out = @ \o vs]

\* a token transfer's log, and the factory's
TokLog(W, k, f, t) == [W EXCEPT !.logs = Append(@, [k |-> k, f |-> f, t |-> t, v |-> 1, p |-> Top.path])]

XferLog(f, t, v, p) == IF v = 0 THEN <<>> ELSE <<[k |-> "x", f |-> f, t |-> t, v |-> v, p |-> p]>>

\* value v moves from a to b, with its log
Pay(W, a, b, v, p) ==
  LET W1 == Move(W, a, b, v) IN [W1 EXCEPT !.logs = @ \o XferLog(a, b, v, p)]

Project(W) ==
  [ st |-> W.st, bal |-> W.bal, code |-> W.code, nonce |-> W.nonce,
    tok |-> W.tok, ntok |-> W.ntok, burnt |-> W.burnt, seen |-> seen ]

---------------------------------------------------------------------------
(* Ending a transaction *)

RECURSIVE Dispatch(_, _, _)
\* run the requested messages ms from index i; <<ok, world>>
Dispatch(W, ms, i) ==
  IF i > Len(ms) THEN <<TRUE, W>>
  ELSE LET m == ms[i] IN
    IF m.k = "send" THEN
      IF Bal(W, m.from) < m.v THEN <<FALSE, W>>
      ELSE Dispatch(Move(W, m.from, m.to, m.v), ms, i + 1)
    ELSE \* "call": a message call of contract m.to, storing m.v (or the transient slot) at key m.key
      LET W1 == BumpNonce(W, m.from)
          val == IF m.k = "tcall" THEN 0 ELSE m.v
          W2 == IF m.to \in W1.code
                THEN [W1 EXCEPT !.st = Put(W1.st, m.to, [St(W1, m.to) EXCEPT ![m.key] = val])]
                ELSE W1
      IN Dispatch(W2, ms, i + 1)

RECURSIVE DeadSum(_, _)
DeadSum(W, S) == IF S = {} THEN 0
                 ELSE LET x == CHOOSE y \in S : TRUE IN Bal(W, x) + DeadSum(W, S \ {x})

\* end-of-execution clean up
Commit(W) ==
  [W EXCEPT !.burnt = @ + DeadSum(W, W.dead),
            !.bal = Del(W.bal, W.dead), !.st = Del(W.st, W.dead),
            !.code = @ \ W.dead, !.nonce = Del(W.nonce, W.dead),
            !.tr = <<>>, !.created = {}, !.dead = {}, !.logs = <<>>, !.msgs = <<>>]

PubLogs(W) == [i \in 1..Len(W.logs) |->
                 LET l == W.logs[i] IN
                 [k |-> l.k, f |-> l.f, t |-> l.t, v |-> l.v]]

\* t: the transaction record including the final op; ok: the top frame succeeded
EndTx(t, ok, W, out) ==
  LET wm == IF t.kind \in {"call"} THEN BumpNonce(W, t.from) ELSE W
      d == IF ok THEN Dispatch(Commit(wm), W.msgs, 1) ELSE <<FALSE, W>>
      query == t.kind \in {"query", "qcreate"}
      fin == IF d[1] /\ ~query THEN d[2] ELSE t.pre
  IN /\ w' = fin
     /\ stack' = <<>>
     /\ phase' = "idle"
     /\ ntx' = ntx + 1
     /\ nops' = 0 /\ nbad' = 0
     /\ cnt' = [fid |-> 0, failed |-> {}]
     /\ gone' = IF d[1] /\ ~query THEN (gone \cup W.dead) \ fin.code ELSE gone
     /\ tx' = [pre |-> InitWorld, ops |-> <<>>, kind |-> "", from |-> "", to |-> "", value |-> 0]
     /\ hist' = IF ~Record THEN hist
                ELSE Append(hist,
                  [kind |-> t.kind, from |-> t.from, to |-> t.to, value |-> t.value,
                   ops |-> t.ops, ok |-> d[1], out |-> out,
                   logs |-> IF d[1] THEN PubLogs(W) ELSE <<>>,
                   nmsgs |-> Len(W.msgs),
                   post |-> Project(fin)])

\* the top frame fails: its world is dropped
Fail(t) ==
  LET f == Top
      W == f.snap IN
  IF Depth = 1 THEN EndTx(t, FALSE, W, <<>>)
  ELSE /\ w' = W
       /\ stack' = [i \in 1..(Depth - 1) |->
                      IF i = Depth - 1 THEN [stack[i] EXCEPT !.out = @ \o <<"0">>] ELSE stack[i]]
       /\ cnt' = [cnt EXCEPT !.failed = @ \cup {f.path}]
       /\ tx' = t
       /\ nops' = nops + 1
       /\ UNCHANGED <<phase, ntx, seen, gone, hist>>

\* the top frame ends well with world W and output out
Succeed(t, W, out, deploys) ==
  LET f == Top
      W1 == IF f.create /\ deploys THEN [W EXCEPT !.code = @ \cup {f.addr}] ELSE W
      word == IF f.create THEN <<f.addr>> ELSE <<"1">> \o out
  IN IF Depth = 1 THEN EndTx(t, TRUE, W1, out)
     ELSE /\ w' = W1
          /\ stack' = [i \in 1..(Depth - 1) |->
                         IF i = Depth - 1 THEN [stack[i] EXCEPT !.out = @ \o word] ELSE stack[i]]
          /\ tx' = t
          /\ nops' = nops + 1
          /\ UNCHANGED <<phase, ntx, seen, gone, hist, cnt>>

---------------------------------------------------------------------------
(* Starting a transaction *)

Idle == phase = "idle" /\ ntx < MaxTx
P(S) == IF phase = "run" THEN S ELSE {}
PI(S) == IF Idle THEN S ELSE {}

Begin(kind, from, to, v, W, newf) ==
  /\ phase' = "run"
  /\ w' = W
  /\ stack' = <<newf>>
  /\ cnt' = [cnt EXCEPT !.fid = 1]
  /\ tx' = [pre |-> w, ops |-> <<>>, kind |-> kind, from |-> from, to |-> to, value |-> v]
  /\ UNCHANGED <<ntx, nops, nbad, gone, hist>>

BeginCall ==
  \E from \in PI(EOAs), to \in PI(Base \cup (seen \cap w.code)), v \in PI({0, 0, 2}),
     kind \in PI(TxKinds \cap {"call", "query"}) :
    /\ Bal(w, from) >= v
    /\ Begin(kind, from, to, v, Pay(w, from, to, v, <<1>>), Frame(to, from, FALSE, FALSE, w))
    /\ seen' = seen

BeginCreate ==
  \E from \in PI(EOAs), v \in PI({0, 2}), kind \in PI(TxKinds \cap {"create", "qcreate"}) :
    LET a == Child(from, Nonce(w, from))
        W0 == BumpNonce(w, from)
        W1 == SetNonce(Pay(W0, from, a, v, <<1>>), a, 1)
        W2 == [W1 EXCEPT !.created = {a}] IN
    /\ Bal(w, from) >= v
    /\ Begin(kind, from, a, v, W2, Frame(a, from, FALSE, TRUE, w))
    /\ seen' = seen \cup {a}

---------------------------------------------------------------------------
(* Operations of the running frame *)

\* in simulation the outermost frame does not end before it did something
Long == (Record /\ Depth = 1) => nops >= MinOps
On(name) == name \in Ops /\ phase = "run" /\ nops < MaxOps
Same == UNCHANGED <<phase, ntx, gone, hist>>
Step == nops' = nops + 1 /\ Same /\ UNCHANGED <<nbad, cnt>>

\* an operation that the frame may not do in static mode: then the frame fails
Mutate(op, body) ==
  IF Top.static
  THEN /\ nbad < MaxBad
       /\ nbad' = nbad + 1
       /\ Fail(Note(op))
  ELSE body

\* a plain mutation of the world that continues the frame
Do(op, W, out) ==
  /\ w' = W /\ stack' = Emit(out) /\ tx' = Note(op)
  /\ Step

SStore == /\ On("sstore")
          /\ \E k \in P(Keys), v \in P(Vals) :
               /\ seen' = seen
               /\ Mutate([o |-> "sstore", k |-> k, v |-> v],
                    Do([o |-> "sstore", k |-> k, v |-> v],
                       [w EXCEPT !.st = Put(w.st, Top.addr, [St(w, Top.addr) EXCEPT ![k] = v])], <<>>))

TStore == /\ On("tstore")
          /\ \E k \in P(Keys), v \in P(Vals) :
               /\ seen' = seen
               /\ Mutate([o |-> "tstore", k |-> k, v |-> v],
                    Do([o |-> "tstore", k |-> k, v |-> v],
                       [w EXCEPT !.tr = Put(w.tr, Top.addr, [Tr(w, Top.addr) EXCEPT ![k] = v])], <<>>))

\* storage[k] := transient[k]
TCopy == /\ On("tcopy")
         /\ \E k \in P(Keys) :
              /\ seen' = seen
              /\ Mutate([o |-> "tcopy", k |-> k],
                   Do([o |-> "tcopy", k |-> k],
                      [w EXCEPT !.st = Put(w.st, Top.addr, [St(w, Top.addr) EXCEPT ![k] = Tr(w, Top.addr)[k]])], <<>>))

Log == /\ On("log")
       /\ \E v \in P(Vals) :
            /\ seen' = seen
            /\ Mutate([o |-> "log", v |-> v],
                 Do([o |-> "log", v |-> v],
                    [w EXCEPT !.logs = Append(@, [k |-> "l", f |-> Top.addr, t |-> "", v |-> v, p |-> Top.path])], <<>>))

SLoad == /\ On("sload")
         /\ \E k \in P(Keys) : Do([o |-> "sload", k |-> k], w, <<ToString(St(w, Top.addr)[k])>>) /\ seen' = seen
TLoad == /\ On("tload")
         /\ \E k \in P(Keys) : Do([o |-> "tload", k |-> k], w, <<ToString(Tr(w, Top.addr)[k])>>) /\ seen' = seen
Balance == /\ On("balance")
           /\ \E a \in P(Pool) : Do([o |-> "balance", t |-> a], w, <<ToString(Bal(w, a))>>) /\ seen' = seen
CodeSize == /\ On("codesize")
            /\ \E a \in P(Pool) : Do([o |-> "codesize", t |-> a], w, <<IF a \in w.code THEN "CODE" ELSE "0">>) /\ seen' = seen
Who == /\ On("who")
       /\ phase = "run"
       /\ Do([o |-> "who"], w, <<Top.addr, Top.caller>>) /\ seen' = seen

\* calls: kind plain / static / delegate
Call ==
  /\ On("call") /\ Depth < MaxDepth
  /\ \E kind \in P({"call", "call", "static", "delegate"} \cap (Ops \cup {"call"})),
        to \in P(Pool), v \in P({0, 0, 1, 3}) :
       LET op == [o |-> "call", kind |-> kind, t |-> to, v |-> v, body |-> FALSE]
           opb == [op EXCEPT !.body = TRUE]
           delegate == kind = "delegate"
           fr == IF delegate THEN Frame(Top.addr, Top.caller, Top.static, FALSE, w)
                 ELSE Frame(to, Top.addr, Top.static \/ kind = "static", FALSE, w)
       IN /\ (kind # "call" => v = 0)
          /\ (v # 0 => "value" \in Ops)
          /\ seen' = seen
          /\ IF v # 0 /\ Top.static
             THEN /\ nbad < MaxBad /\ nbad' = nbad + 1 /\ Fail(Note(op))
             ELSE IF v # 0 /\ Bal(w, Top.addr) < v
             THEN Do(op, w, <<"0">>)
             ELSE IF to \notin w.code
             THEN Do(op, IF delegate THEN w ELSE Pay(w, Top.addr, to, v, Top.path), <<"1">>)
             ELSE /\ w' = IF delegate THEN w ELSE Pay(w, Top.addr, to, v, fr.path)
                  /\ stack' = Append(stack, fr)
                  /\ tx' = Note(opb)
                  /\ cnt' = [cnt EXCEPT !.fid = @ + 1]
                  /\ nops' = nops + 1 /\ Same /\ UNCHANGED nbad

Create ==
  /\ On("create") /\ Depth < MaxDepth
  /\ \E v \in P({0, 0, 1}) :
       LET op == [o |-> "create", v |-> v, body |-> FALSE]
           a == Child(Top.addr, Nonce(w, Top.addr))
           W0 == BumpNonce(w, Top.addr)
           clash == a \in W0.code \/ Nonce(W0, a) > 0
           fr == Frame(a, Top.addr, FALSE, TRUE, W0)
           W1 == SetNonce(Pay(W0, Top.addr, a, v, fr.path), a, 1)
           W2 == [W1 EXCEPT !.created = @ \cup {a}]
       IN /\ (v # 0 => "value" \in Ops)
          /\ Mutate(op,
               IF Bal(w, Top.addr) < v THEN Do(op, w, <<"0">>)
               ELSE IF clash
               THEN /\ nbad < MaxBad /\ nbad' = nbad + 1
                    /\ w' = W0 /\ stack' = Emit(<<"0">>) /\ tx' = Note(op)
                    /\ nops' = nops + 1 /\ Same /\ UNCHANGED cnt
               ELSE /\ w' = W2
                    /\ stack' = Append(stack, fr)
                    /\ tx' = Note([op EXCEPT !.body = TRUE])
                    /\ cnt' = [cnt EXCEPT !.fid = @ + 1]
                    /\ nops' = nops + 1 /\ Same /\ UNCHANGED nbad)
          /\ seen' = IF ~Top.static /\ Bal(w, Top.addr) >= v /\ ~clash THEN seen \cup {a} ELSE seen

\* CREATE2 with the empty constructor
Create2 ==
  /\ On("create2")
  /\ \E s \in P({1, 2}), v \in P({0, 0, 1}) :
       LET op == [o |-> "create2", s |-> s, v |-> v]
           a == Salted(Top.addr, s)
           W0 == BumpNonce(w, Top.addr)
           clash == a \in W0.code \/ Nonce(W0, a) > 0
           W1 == SetNonce(Pay(W0, Top.addr, a, v, Top.path), a, 1)
           W2 == [W1 EXCEPT !.created = @ \cup {a}, !.code = @ \cup {a}]
       IN /\ (v # 0 => "value" \in Ops)
          /\ Mutate(op,
               IF Bal(w, Top.addr) < v THEN Do(op, w, <<"0">>)
               ELSE IF clash
               THEN /\ nbad < MaxBad /\ nbad' = nbad + 1
                    /\ w' = W0 /\ stack' = Emit(<<"0">>) /\ tx' = Note(op)
                    /\ nops' = nops + 1 /\ Same /\ UNCHANGED cnt
               ELSE Do(op, W2, <<a>>))
          /\ seen' = IF ~Top.static THEN seen \cup {a} ELSE seen

\* SELFDESTRUCT (EIP-6780): ends the frame successfully
Destruct ==
  /\ On("destruct") /\ Long
  /\ \E b \in P(Pool) :
       LET op == [o |-> "destruct", t |-> b]
           a == Top.addr
           W1 == Move(w, a, b, Bal(w, a))
           mine == Bal(W1, a)
           W2 == IF a \in w.created
                 THEN [SetBal(W1, a, 0) EXCEPT !.burnt = @ + mine, !.dead = @ \cup {a}]
                 ELSE W1
       IN /\ seen' = seen
          /\ Mutate(op, Succeed(Note(op), W2, <<>>, FALSE) /\ UNCHANGED nbad)

\* token operations (token owned by Owner; every base contract starts with one)
TokMint ==
  /\ On("tokmint")
  /\ \E b \in P(Pool) :
       LET op == [o |-> "tokmint", t |-> b] IN
       /\ seen' = seen
       /\ IF Top.static \/ Top.addr # Owner THEN Do(op, w, <<"0">>)
          ELSE Do(op, TokLog([w EXCEPT !.tok = Put(w.tok, b, Tok(w, b) + 1)], "t", "", b), <<"1">>)

TokSend ==
  /\ On("toksend")
  /\ \E b \in P(Pool) :
       LET op == [o |-> "toksend", t |-> b]
           W1 == [w EXCEPT !.tok = Put(w.tok, Top.addr, Tok(w, Top.addr) - 1)]
       IN
       /\ seen' = seen
       /\ IF Top.static \/ Tok(w, Top.addr) = 0 THEN Do(op, w, <<"0">>)
          ELSE Do(op, TokLog([W1 EXCEPT !.tok = Put(W1.tok, b, Tok(W1, b) + 1)], "t", Top.addr, b), <<"1", "1">>)

\* a new token from the factory
NewTok ==
  /\ On("newtok") /\ w.ntok < 3
  /\ LET op == [o |-> "newtok"] IN
       /\ seen' = seen
       /\ IF Top.static THEN Do(op, w, <<"0">>)
          ELSE Do(op, TokLog([w EXCEPT !.ntok = @ + 1], "n", "", ""), <<"1", "T." \o ToString(w.ntok)>>)

\* requests through the cosmos precompile; in static mode they are not generated
\* (see known-findings: the precompile is not told about the outer static call)
CanAsk == ~Top.static
ExecSend ==
  /\ On("execsend") /\ CanAsk
  /\ \E v \in P({1, 2}), t \in P(Recs) :
       LET op == [o |-> "execsend", v |-> v, t |-> t, from |-> Top.addr]
           m == [k |-> "send", from |-> Top.addr, to |-> t, v |-> v, key |-> 1, p |-> Top.path, r |-> Top.addr]
       IN Do(op, [w EXCEPT !.msgs = Append(@, m)], <<"1", "1">>) /\ seen' = seen

\* the message must be signed by somebody else: refused
ExecForeign ==
  /\ On("execforeign") /\ CanAsk
  /\ \E f \in P((Base \cup EOAs) \ {Top.addr}) :
       Do([o |-> "execforeign", v |-> 1, t |-> CHOOSE r \in Recs : TRUE, from |-> f], w, <<"0">>) /\ seen' = seen

\* delegatecall or staticcall to the precompile: refused
ExecWrongKind ==
  /\ On("execkind")
  /\ \E kind \in P({"static", "delegate"}) :
       Do([o |-> "execkind", kind |-> kind, v |-> 1, t |-> CHOOSE r \in Recs : TRUE, from |-> Top.addr], w, <<"0">>)
  /\ seen' = seen

\* a requested contract call; only from permanent contracts
ExecCall ==
  /\ On("execcall") /\ CanAsk
  /\ \E t \in P(Base), k \in P(Keys), v \in P(Vals), kk \in P({"call", "tcall"}) :
       LET op == [o |-> "execcall", kk |-> kk, t |-> t, k |-> k, v |-> v, from |-> Top.addr]
           m == [k |-> kk, from |-> Top.addr, to |-> t, v |-> v, key |-> k, p |-> Top.path, r |-> Top.addr]
       IN /\ Top.addr \in Base
          /\ Do(op, [w EXCEPT !.msgs = Append(@, m)], <<"1", "1">>) /\ seen' = seen

\* the frame ends
Return == /\ phase = "run" /\ Long /\ seen' = seen
          /\ Succeed(Note([o |-> "ret"]), w, Top.out, TRUE)
          /\ (Depth > 1 => UNCHANGED nbad)
Revert == /\ On("revert") /\ Long /\ seen' = seen
          /\ Fail(Note([o |-> "revert"]))
          /\ (Depth > 1 => UNCHANGED nbad)
Invalid == /\ On("invalid") /\ Long /\ nbad < MaxBad /\ seen' = seen
           /\ Fail(Note([o |-> "invalid"]))
           /\ (Depth > 1 => nbad' = nbad + 1)

\* the whole state is exported and another chain goes on from the export
Reimport ==
  /\ phase = "idle" /\ ntx > 0 /\ ntx < MaxTx /\ "reimport" \in TxKinds
  /\ ntx' = ntx + 1
  /\ hist' = IF ~Record THEN hist
             ELSE Append(hist, [kind |-> "reimport", from |-> "U", to |-> "U", value |-> 0, ops |-> <<>>, ok |-> TRUE, out |-> <<>>, logs |-> <<>>,
                                nmsgs |-> 0, post |-> Project(w)])
  /\ UNCHANGED <<phase, w, stack, tx, nops, nbad, seen, gone, cnt>>

Finish ==
  /\ phase = "idle" /\ ntx = MaxTx
  /\ phase' = "done"
  /\ (Record => PrintT(ToJson(hist)))
  /\ UNCHANGED <<w, stack, tx, ntx, nops, nbad, seen, gone, hist, cnt>>

Next ==
  \/ BeginCall \/ BeginCreate \/ Reimport
  \/ SStore \/ TStore \/ TCopy \/ Log \/ SLoad \/ TLoad \/ Balance \/ CodeSize \/ Who
  \/ Call \/ Create \/ Create2 \/ Destruct
  \/ TokMint \/ TokSend \/ NewTok
  \/ ExecSend \/ ExecForeign \/ ExecWrongKind \/ ExecCall
  \/ Return \/ Revert \/ Invalid
  \/ (Record /\ Call) \/ (Record /\ Call) \/ (Record /\ Call)   \* simulation favours nesting
  \/ Finish

Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* Properties *)

IsPrefix(p, q) == Len(p) <= Len(q) /\ \A i \in 1..Len(p) : p[i] = q[i]
Lost(p) == \E f \in cnt.failed : IsPrefix(f, p)

\* native coins: nothing but destruction changes the total
Conservation == SumOver(w.bal, DOMAIN w.bal) + w.burnt = InitBal * Cardinality(EOAs \cup Base)
\* token supply is what Owner minted: never negative anywhere
TokSane == \A a \in DOMAIN w.tok : w.tok[a] >= 0
NoNegative == \A a \in DOMAIN w.bal : w.bal[a] >= 0
\* pending logs and messages belong to frames none of whose callers failed
SurvivorsOnly == /\ \A i \in 1..Len(w.logs) : ~Lost(w.logs[i].p)
                 /\ \A i \in 1..Len(w.msgs) : ~Lost(w.msgs[i].p)
\* only the requesting contract signs
Authorised == \A i \in 1..Len(w.msgs) : w.msgs[i].from = w.msgs[i].r
\* a static frame and everything below it changes nothing
StaticPure == \A i \in 1..Len(stack) : stack[i].static => w = stack[i].snap
\* between executions nothing transient is left
CleanIdle == phase # "run" =>
               w.tr = <<>> /\ w.created = {} /\ w.dead = {} /\ w.logs = <<>> /\ w.msgs = <<>>
DeadIsNew == w.dead \subseteq w.created
\* what was destroyed has no code or storage left (unless created again)
GoneIsGone == phase # "run" => \A a \in gone : a \notin w.code /\ St(w, a) = ZeroSt
\* code exists only with a nonce
CodeHasNonce == \A a \in w.code : Nonce(w, a) >= 1
\* creation never decreases nonces; only destruction resets them
NonceMono == [][\A a \in EOAs \cup Base : phase = "run" /\ phase' = "idle" =>
                  Nonce(w', a) >= Nonce(tx.pre, a)]_vars
\* a query leaves the world alone
QueryPure == [][phase = "run" /\ phase' = "idle" /\ tx.kind \in {"query", "qcreate"} => w' = tx.pre]_vars
\* a frame that ends badly restores its world
FailRestores == [][phase = "run" /\ phase' = "run" /\ Len(stack') < Len(stack) /\ cnt'.failed # cnt.failed
                    => w' = Top.snap]_vars

View == <<phase, w, stack, [tx EXCEPT !.ops = <<>>], ntx, nops, nbad, seen, gone, cnt>>
=============================================================================
