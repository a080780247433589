------------------------------- MODULE Deploy -------------------------------
(***************************************************************************)
(* Deployments of contracts: where they land, what they put there, and     *)
(* what becomes of what was there before.                                  *)
(*                                                                         *)
(* Places: "c/w/k" is where the creation number k of w lands, "d/w/s/p"    *)
(* where program p of w with salt s lands, "k/x" is where the child lands  *)
(* that the constructor at x makes.                                        *)
(*                                                                         *)
(* Makers: U1, U2 are accounts, LO has an address of 32 bytes, M is a      *)
(* contract that requests messages, F one that creates by itself.          *)
(* W sends coins and calls, Z inherits.                                    *)
(*                                                                         *)
(* Programs: A, B, S leave a contract that keeps a number (S starts with   *)
(* 7), E leaves no code, O makes a child (A), D destructs itself, the rest *)
(* fail: revert, invalid, code that may not be (0xEF, too large).          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Makers, Progs, Salts, Vals, Acts, MaxSteps, Record

VARIABLES
  nonce,           \* creations of each maker so far
  at,              \* what is at the places heard of so far
  bal,             \* coins of makers, W, Z and places
  n, out, hist

vars == <<nonce, at, bal, n, out, hist>>

Works == {"A", "B", "S", "E", "O", "D"}
Nothing == [code |-> "", store |-> 0, nonce |-> 0]
Often(k, S, T) == IF Record THEN IF RandomElement(1..(100 + n - n)) <= k THEN {RandomElement(S)} ELSE {RandomElement(T)} ELSE S \cup T
Pick(S) == IF Record THEN {RandomElement(S)} ELSE S

CPlace(w, k) == "c/" \o w \o "/" \o ToString(k)
DPlace(w, s, p) == "d/" \o w \o "/" \o ToString(s) \o "/" \o p
Child(x) == "k/" \o x
At(x) == IF x \in DOMAIN at THEN at[x] ELSE Nothing
Has(x) == IF x \in DOMAIN bal THEN bal[x] ELSE 0
Vacant(x) == At(x).code = "" /\ At(x).nonce = 0
Moved(b, f, t, v) == LET c == (t :> IF t \in DOMAIN b THEN b[t] ELSE 0) @@ b IN [x \in DOMAIN c |-> c[x] - (IF x = f THEN v ELSE 0) + (IF x = t THEN v ELSE 0)]

Init == /\ nonce = [w \in Makers |-> 0] /\ at = <<>> /\ n = 0 /\ out = [op |-> [a |-> "none"], ok |-> TRUE, made |-> ""] /\ hist = <<>>
        /\ bal = [w \in Makers \cup {"W", "Z"} |-> CASE w = "W" -> 20 [] w = "Z" -> 0 [] OTHER -> 6]

State == [nonce |-> nonce, at |-> at, bal |-> bal]
Log(o, ok, made) == /\ out' = [op |-> o, ok |-> ok, made |-> made] /\ n' = n + 1
                    /\ hist' = IF Record THEN Append(hist, [op |-> o, ok |-> ok, made |-> made, post |-> State']) ELSE hist
Go(a) == a \in Acts /\ n < MaxSteps

\* how: as CREATE or CREATE2; acl: with a list of addresses and keys that the execution may touch, which makes no difference
Make ==
  /\ Go("make") /\ \E w \in Pick(Makers), how \in Pick({"create", "create2"}), p \in Often(75, Progs \cap Works, Progs), v \in Pick(Vals), s \in Pick(Salts), acl \in Pick(IF Record THEN BOOLEAN ELSE {FALSE}) :
     LET x == IF how = "create" THEN CPlace(w, nonce[w]) ELSE DPlace(w, s, p)
         o == [a |-> "make", w |-> w, how |-> how, p |-> p, v |-> v, s |-> s, acl |-> acl, x |-> x]
         paid == Moved(bal, w, x, v)
         kid == Child(x) IN
     IF p \in Works /\ Vacant(x) /\ v <= bal[w] THEN
       /\ nonce' = [nonce EXCEPT ![w] = @ + 1]
       /\ at' = CASE p = "D" -> (x :> Nothing) @@ at
                  [] p = "E" -> (x :> [code |-> "", store |-> 0, nonce |-> 1]) @@ at
                  [] p = "O" -> (x :> [code |-> "O", store |-> 0, nonce |-> 2]) @@ (kid :> [code |-> "A", store |-> 0, nonce |-> 1]) @@ at
                  [] OTHER -> (x :> [code |-> p, store |-> IF p = "S" THEN 7 ELSE 0, nonce |-> 1]) @@ at
       /\ bal' = CASE p = "D" -> Moved(paid, x, "Z", paid[x])
                   [] p = "O" -> Moved(paid, kid, kid, 0)
                   [] OTHER -> paid
       /\ Log(o, TRUE, x)
     ELSE IF w = "F" THEN \* the creation fails, F goes on
       /\ nonce' = [nonce EXCEPT ![w] = IF v <= bal[w] THEN @ + 1 ELSE @] /\ UNCHANGED <<at, bal>> /\ Log(o, TRUE, "")
     ELSE UNCHANGED <<nonce, at, bal>> /\ Log(o, FALSE, "")

\* places that coins are sent to: those that are known, those where the next deployments may land
Aims == DOMAIN at \cup {CPlace(w, nonce[w]) : w \in Makers} \cup (IF Record THEN {DPlace(RandomElement(Makers), RandomElement(Salts), RandomElement(Works)), Child(DPlace(RandomElement(Makers), RandomElement(Salts), "O"))} ELSE {})
Pay ==
  /\ Go("pay") /\ \E x \in Pick(Aims), v \in Pick(Vals), via \in Pick({"bank", "call"}) :
     LET o == [a |-> "pay", x |-> x, v |-> v, via |-> via] IN
     IF v > bal["W"] \/ (v = 0 /\ via = "bank") THEN UNCHANGED <<nonce, at, bal>> /\ Log(o, FALSE, "")
     ELSE /\ bal' = Moved(bal, "W", x, v) /\ at' = (x :> At(x)) @@ at /\ UNCHANGED nonce /\ Log(o, TRUE, "")

\* a contract is told a number to keep
Poke ==
  /\ Go("poke") /\ DOMAIN at # {} /\ \E x \in Pick(DOMAIN at), k \in Pick({0, 5, 9}) :
     /\ at' = [at EXCEPT ![x].store = IF at[x].code = "" THEN @ ELSE k]
     /\ UNCHANGED <<nonce, bal>> /\ Log([a |-> "poke", x |-> x, k |-> k], TRUE, "")

\* a contract that was made earlier destructs itself: only its coins go
Kill ==
  /\ Go("kill") /\ DOMAIN at # {} /\ \E x \in Pick(DOMAIN at) :
     /\ bal' = IF At(x).code = "" THEN bal ELSE Moved(bal, x, "Z", Has(x))
     /\ UNCHANGED <<nonce, at>> /\ Log([a |-> "kill", x |-> x], TRUE, "")

Reimport == Go("reimport") /\ (Record => RandomElement(1..(6 + n - n)) = 1) /\ UNCHANGED <<nonce, at, bal>> /\ Log([a |-> "reimport"], TRUE, "")

Finish == n = MaxSteps /\ n' = n + 1 /\ (Record => PrintT(ToJson(hist))) /\ UNCHANGED <<nonce, at, bal, out, hist>>
Next == Make \/ Make \/ Make \/ Pay \/ Poke \/ Kill \/ Reimport \/ Finish
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* Properties *)
Now == n < MaxSteps
\* code once deployed stays for ever
CodeForEver == [][\A x \in DOMAIN at : at[x].nonce > 0 => x \in DOMAIN at' /\ at'[x].code = at[x].code /\ at'[x].nonce = at[x].nonce]_vars
\* what comes to be comes to be at the place of its deployment, which was vacant
OwnPlace == [][Now => \A x \in DOMAIN at' : at'[x].nonce # At(x).nonce =>
                /\ out'.op.a = "make" /\ Vacant(x) /\ (x = out'.made \/ (out'.op.p = "O" /\ x = Child(out'.made)))]_vars
\* a contract starts with what its constructor wrote, and nobody else's number changes
Stores == [][Now => \A x \in DOMAIN at' : at'[x].store # At(x).store => out'.op.a \in {"make", "poke"} /\ out'.op.x = x]_vars
\* makers count one by one, and no place is used for two creations
Counts == [][Now => \A w \in Makers : nonce'[w] \in {nonce[w], nonce[w] + 1} /\ (nonce'[w] # nonce[w] => out'.op.a = "make" /\ out'.op.w = w)]_vars
RefusedNothing == [][Now /\ ~out'.ok => UNCHANGED <<nonce, at, bal>>]_vars
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + Sum(f, S \ {x})
Conserved == /\ \A x \in DOMAIN bal : bal[x] >= 0
             /\ Sum(bal, DOMAIN bal) = 20 + 6 * Cardinality(Makers)
View == <<nonce, at, bal, n>>
=============================================================================
