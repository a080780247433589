---------------------------- MODULE Collections ----------------------------
(***************************************************************************)
(* NFT classes and tokens: the interface of the NFT keeper (used by IBC)   *)
(* and the ERC721 contracts behind it, used directly by their holders.     *)
(*                                                                         *)
(* Batches apply one token after the other; if one fails, the operation    *)
(* fails and, as every message does, leaves nothing behind.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
  Ibc, Plain,      \* classes that came over IBC, other classes
  Own,             \* contracts deployed by users, each of them a class (TRUE/FALSE: whether to include X1)
  Names,           \* names of tokens
  Uris,
  Acts,
  MaxLen,          \* of batches
  MaxSteps,
  Record

VARIABLES
  made,            \* made[c]: the number of the contract of a created class
  uri,             \* uri[c]
  tok,             \* tok[c][id] = [own, uri, appr]
  ops,             \* <<class, owner, operator>>: operators
  short,           \* accounts with a long address that have acted in the EVM
  n, out, hist

vars == <<made, uri, tok, ops, short, n, out, hist>>

\* LO has an address of 32 bytes; P is a contract that acts on request and refuses tokens that are offered to it; N is nobody
Actors == {"U1", "U2", "LO", "P"}
Nobody == "N"
X == "X1"                         \* a contract of U1
Classes == Ibc \cup Plain \cup (IF Own THEN {X} ELSE {})
Absent == "none"

Pick(S) == IF Record THEN {RandomElement(S)} ELSE S
Often(k, x, y) == IF Record /\ RandomElement(1..100) <= k THEN x ELSE y

\* what a name of a token denotes in a class: any text is a token of a class that came over IBC, elsewhere names are decimal numbers
Denotes(c, s) == IF c \in Ibc THEN s ELSE IF s \in {"1", "01", "+1"} THEN "1" ELSE IF s \in {"x", "x ", "X"} THEN Absent ELSE s

Exists(T, c, s) == Denotes(c, s) # Absent /\ Denotes(c, s) \in DOMAIN T[c]
Tok(T, c, s) == T[c][Denotes(c, s)]
Put(f, k, v) == (k :> v) @@ f
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

Init ==
  /\ made = (IF Own THEN (X :> 0) ELSE <<>>) /\ uri = <<>> /\ tok = [c \in Classes |-> <<>>] /\ ops = {} /\ short = {} /\ n = 0
  /\ out = [op |-> "none"] /\ hist = <<>>

Is(c) == c \in DOMAIN made

---------------------------------------------------------------------------
(* single tokens: <<ok, tokens>> *)

Auth(t, c, who) == t.own = who \/ t.appr = who \/ <<c, t.own, who>> \in ops

Mint1(T, c, to, s, u) ==
  IF Denotes(c, s) = Absent \/ Exists(T, c, s) \/ to = "P" THEN <<FALSE, T>>
  ELSE <<TRUE, [T EXCEPT ![c] = Put(@, Denotes(c, s), [own |-> to, uri |-> u, appr |-> Nobody])]>>
Move1(T, c, who, from, to, s, safe) ==
  IF ~Exists(T, c, s) THEN <<FALSE, T>>
  ELSE LET t == Tok(T, c, s) IN
       IF ~Auth(t, c, who) \/ t.own # from \/ (safe /\ to = "P") THEN <<FALSE, T>>
       ELSE <<TRUE, [T EXCEPT ![c] = Put(@, Denotes(c, s), [t EXCEPT !.own = to, !.appr = Nobody])]>>
Burn1(T, c, who, s) ==
  IF ~Exists(T, c, s) \/ ~Auth(Tok(T, c, s), c, who) THEN <<FALSE, T>>
  ELSE <<TRUE, [T EXCEPT ![c] = Del(@, Denotes(c, s))]>>

RECURSIVE Mint(_, _, _, _, _), Move(_, _, _, _, _), Burn(_, _, _, _)
Mint(T, c, to, ss, us) == IF ss = <<>> THEN <<TRUE, T>> ELSE LET r == Mint1(T, c, to, Head(ss), Head(us)) IN IF r[1] THEN Mint(r[2], c, to, Tail(ss), Tail(us)) ELSE r
Move(T, c, from, to, ss) == IF ss = <<>> THEN <<TRUE, T>> ELSE LET r == Move1(T, c, from, from, to, Head(ss), TRUE) IN IF r[1] THEN Move(r[2], c, from, to, Tail(ss)) ELSE r
Burn(T, c, who, ss) == IF ss = <<>> THEN <<TRUE, T>> ELSE LET r == Burn1(T, c, who, Head(ss)) IN IF r[1] THEN Burn(r[2], c, who, Tail(ss)) ELSE r

---------------------------------------------------------------------------

TokList == UNION {{[c |-> c, id |-> i, own |-> tok[c][i].own, uri |-> tok[c][i].uri, appr |-> tok[c][i].appr] : i \in DOMAIN tok[c]} : c \in Classes}
State == [made |-> made, uri |-> uri, toks |-> TokList, ops |-> ops]
Log(o, ok) == /\ out' = [op |-> o, ok |-> ok] /\ n' = n + 1
              /\ hist' = IF Record THEN Append(hist, [op |-> o, ok |-> ok, post |-> State']) ELSE hist
Refuse(o) == (Record => RandomElement(1..3) = 1) /\ UNCHANGED <<made, uri, tok, ops, short>> /\ Log(o, FALSE)
Go(a) == a \in Acts /\ n < MaxSteps
Become(o, r) == IF r[1] THEN tok' = r[2] /\ UNCHANGED <<made, uri, ops>> /\ Log(o, TRUE) ELSE Refuse(o)

RECURSIVE Draw(_, _)
Draw(k, S) == IF k = 0 \/ S = {} THEN <<>> ELSE LET x == RandomElement(S) IN <<x>> \o Draw(k - 1, S \ {x})
\* G: the names with which the operation works
Batches(G) == IF Record THEN IF RandomElement(1..100) <= 75 THEN {Draw(RandomElement(1..MaxLen), G)}
                             ELSE {[i \in 1..RandomElement(0..MaxLen) |-> RandomElement(Names)]}
              ELSE UNION {[1..k -> Names] : k \in 0..MaxLen}
Free(c) == {s \in Names : Denotes(c, s) # Absent /\ ~Exists(tok, c, s)}
Held(c, f) == {s \in Names : Exists(tok, c, s) /\ Tok(tok, c, s).own = f}
UriSeqs(k) == IF Record THEN {[i \in 1..k |-> RandomElement(Uris)]} ELSE {[i \in 1..k |-> CHOOSE u \in Uris : TRUE]}

Class ==
  /\ Go("class") /\ (Record => RandomElement(1..3) = 1 \/ n < 3) /\ \E c \in Pick(Ibc \cup Plain), u \in Pick(Uris) :
       /\ made' = IF Is(c) THEN made ELSE Put(made, c, Cardinality(DOMAIN made))
       /\ uri' = Put(uri, c, u)
       /\ UNCHANGED <<tok, ops, short>> /\ Log([a |-> "class", c |-> c, u |-> u], TRUE)

\* the NFT keeper
Mints ==
  /\ Go("mints") /\ \E c \in Pick(Classes), to \in Pick(Actors) : \E ss \in Batches(Free(c)) : \E us \in UriSeqs(Len(ss)) :
       LET o == [a |-> "mints", c |-> c, t |-> to, ids |-> ss, us |-> us] IN
       IF ~Is(c) \/ (c = X /\ ss # <<>>) THEN Refuse(o) ELSE short' = short /\ Become(o, Mint(tok, c, to, ss, us))
Transfers ==
  /\ Go("transfers") /\ \E c \in Pick(Classes), f \in Pick(Actors), to \in Pick(Actors) : \E ss \in Batches(Held(c, f)) :
       LET o == [a |-> "transfers", c |-> c, f |-> f, t |-> to, ids |-> ss] IN
       IF ~Is(c) THEN Refuse(o) ELSE short' = short /\ Become(o, Move(tok, c, f, to, ss))
Burns ==
  /\ Go("burns") /\ \E c \in Pick(Classes), f \in Pick(Actors) : \E ss \in Batches(Held(c, f)) :
       LET o == [a |-> "burns", c |-> c, f |-> f, ids |-> ss] IN
       IF ~Is(c) THEN Refuse(o) ELSE short' = short /\ Become(o, Burn(tok, c, f, ss))

\* the holders' own calls; numbers of tokens are given, not names
Direct(c) == Is(c)
Some(c) == IF Record /\ DOMAIN tok[c] # {} /\ RandomElement(1..100) <= 85 THEN {RandomElement(DOMAIN tok[c])} ELSE Pick({s \in Names : Denotes(c, s) # Absent})
\* who may handle the token
Near(c, s) == IF Record /\ Exists(tok, c, s) /\ RandomElement(1..100) <= 75 THEN {RandomElement({w \in Actors : Auth(Tok(tok, c, s), c, w)})} ELSE Pick(Actors)
From(c, s) == IF Record /\ Exists(tok, c, s) THEN Often(70, {Tok(tok, c, s).own}, Pick(Actors)) ELSE Pick(Actors)
\* P can receive tokens that are not offered to it
Move2 ==
  /\ Go("direct") /\ \E c \in Pick(Classes) : Direct(c) /\ \E s \in Some(c) : \E w \in Near(c, s), f \in From(c, s), to \in Pick(Actors), safe \in Pick(BOOLEAN) :
       LET o == [a |-> IF safe THEN "safetransfer" ELSE "transfer", c |-> c, w |-> w, f |-> f, t |-> to, id |-> Denotes(c, s)] IN
       short' = short /\ Become(o, Move1(tok, c, w, f, to, s, safe))
Burn2 ==
  /\ Go("direct") /\ \E c \in Pick(Classes) : Direct(c) /\ \E s \in Some(c) : \E w \in Near(c, s) :
       LET o == [a |-> "burn", c |-> c, w |-> w, id |-> Denotes(c, s)] IN short' = short /\ Become(o, Burn1(tok, c, w, s))
\* only U1's contract lets a user, its owner, mint
Mint2 ==
  /\ Go("direct") /\ \E c \in Pick(Classes) : Direct(c) /\ \E w \in Often(60, {"U1"}, Pick(Actors)), to \in Pick(Actors), s \in Some(c), u \in Pick(Uris) :
       LET o == [a |-> "mint", c |-> c, w |-> w, t |-> to, id |-> Denotes(c, s), u |-> u] IN
       IF c = X /\ w = "U1" THEN short' = short /\ Become(o, Mint1(tok, c, to, s, u)) ELSE Refuse(o)
Approve ==
  /\ Go("direct") /\ \E c \in Pick(Classes) : Direct(c) /\ \E s \in Some(c) : \E w \in Near(c, s), to \in Pick(Actors \cup {Nobody}) :
       LET o == [a |-> "approve", c |-> c, w |-> w, t |-> to, id |-> Denotes(c, s)] t == Tok(tok, c, s) IN
       IF Exists(tok, c, s) /\ (t.own = w \/ <<c, t.own, w>> \in ops)
       THEN /\ tok' = [tok EXCEPT ![c] = Put(@, Denotes(c, s), [t EXCEPT !.appr = to])]
            /\ UNCHANGED <<made, uri, ops, short>> /\ Log(o, TRUE)
       ELSE Refuse(o)
Operator ==
  /\ Go("direct") /\ (Record => RandomElement(1..3) = 1) /\ \E c \in Pick(Classes) : Direct(c) /\ \E w \in Pick(Actors), to \in Pick(Actors), on \in Pick(BOOLEAN) :
       /\ ops' = IF on THEN ops \cup {<<c, w, to>>} ELSE ops \ {<<c, w, to>>}
       /\ UNCHANGED <<made, uri, tok, short>> /\ Log([a |-> "operator", c |-> c, w |-> w, t |-> to, on |-> on], TRUE)

\* the whole state is exported and another chain goes on from the export
Reimport == Go("reimport") /\ (Record => RandomElement(1..(4 + n - n)) = 1) /\ UNCHANGED <<made, uri, tok, ops, short>> /\ Log([a |-> "reimport", c |-> ""], TRUE)

Finish == n = MaxSteps /\ n' = n + 1 /\ (Record => PrintT(ToJson(hist))) /\ UNCHANGED <<made, uri, tok, ops, short, out, hist>>
Next == Class \/ Mints \/ Mints \/ Mints \/ Transfers \/ Transfers \/ Burns \/ Move2 \/ Move2 \/ Burn2 \/ Mint2 \/ Approve \/ Operator \/ Reimport \/ Finish
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* Properties *)

\* classes and contracts correspond one to one, for ever
OneToOne == \A c, d \in DOMAIN made : c # d => made[c] # made[d]
MadeStable == [][\A c \in DOMAIN made : c \in DOMAIN made' /\ made'[c] = made[c]]_vars
\* tokens are in classes that exist, in the hands of actors
TokSane == \A c \in Classes : (DOMAIN tok[c] # {} => Is(c)) /\ \A i \in DOMAIN tok[c] : tok[c][i].own \in Actors
Now == n < MaxSteps
Changed(c) == {i \in DOMAIN tok[c] \cup DOMAIN tok'[c] : ~(i \in DOMAIN tok[c] /\ i \in DOMAIN tok'[c] /\ tok[c][i] = tok'[c][i])}
Listed(o) == IF o.a \in {"mints", "transfers", "burns"} THEN {Denotes(o.c, o.ids[i]) : i \in 1..Len(o.ids)}
             ELSE IF o.a \in {"class", "operator", "reimport"} THEN {} ELSE {o.id}
\* exactly the listed tokens change, in the listed class
OnlyListed == [][Now => \A c \in Classes : Changed(c) \subseteq IF out'.ok /\ out'.op.c = c THEN Listed(out'.op) ELSE {}]_vars
BatchDone == [][Now /\ out'.ok =>
   LET o == out'.op IN
   CASE o.a = "mints" -> \A i \in 1..Len(o.ids) : Exists(tok', o.c, o.ids[i]) /\ ~Exists(tok, o.c, o.ids[i]) /\ Tok(tok', o.c, o.ids[i]).own = o.t
     [] o.a = "transfers" -> \A i \in 1..Len(o.ids) : Exists(tok, o.c, o.ids[i]) /\ Tok(tok, o.c, o.ids[i]).own = o.f /\ Tok(tok', o.c, o.ids[i]).own = o.t
     [] o.a = "burns" -> \A i \in 1..Len(o.ids) : Exists(tok, o.c, o.ids[i]) /\ ~Exists(tok', o.c, o.ids[i]) /\ Auth(Tok(tok, o.c, o.ids[i]), o.c, o.f)
     [] OTHER -> TRUE]_vars
\* nobody loses a token but by the owner's own act or permission
Consent == [][Now => \A c \in Classes : \A i \in DOMAIN tok[c] :
    (i \notin DOMAIN tok'[c] \/ tok'[c][i].own # tok[c][i].own) =>
      LET o == out'.op w == IF o.a \in {"transfers", "burns"} THEN o.f ELSE o.w IN Auth(tok[c][i], c, w)]_vars
View == <<made, uri, tok, ops, out, n>>
=============================================================================
