------------------------------ MODULE Channel ------------------------------
(* Authenticated encryption as its users see it: a channel on which an        *)
(* adversary has every packet ever sealed and puts together what is           *)
(* delivered.  Values are terms: contents are named, a tag names the four     *)
(* values it was made for, and an edited value is its origin plus the edits.  *)
(* This is the ideal against which the concrete algorithms (GCM, ChaCha) and  *)
(* the code are compared in Trace_Crypto.                                     *)
EXTENDS Integers, Sequences
CONSTANTS Keys, Nonces, Texts, Packets, Spots      \* text 0 is empty
VARIABLES sealed, wire, verdict
Fields == {"k", "n", "a", "c", "t"}

Whole(id) == [id |-> id, fl |-> {}, cut |-> 0, add |-> 0, pre |-> 0]
Empty == <<0, 0, 0>>
TextTerm(x) == Whole(IF x = 0 THEN Empty ELSE <<0, 0, x>>)
CipherTerm(k, n, m) == Whole(IF m = 0 THEN Empty ELSE <<k, n, m>>)
TagTerm(k, n, a, c) == [for |-> <<k, n, a, c>>, fl |-> {}]
Packet(s) == LET k == Whole(<<s[1], 0, 0>>)  n == Whole(<<0, s[2], 0>>)  a == TextTerm(s[3])  c == CipherTerm(s[1], s[2], s[4])
             IN  [k |-> k, n |-> n, a |-> a, c |-> c, t |-> TagTerm(k, n, a, c)]
NoWire == [k |-> 0]
HasWire == wire # NoWire

ChInit == sealed = <<>> /\ wire = NoWire /\ verdict = "none"
Seal(k, n, a, m) == /\ Len(sealed) < Packets
                    /\ sealed' = Append(sealed, <<k, n, a, m>>)
                    /\ UNCHANGED <<wire, verdict>>
Edit(w) == wire' = w /\ verdict' = "none" /\ UNCHANGED sealed
Take(i) == i \in DOMAIN sealed /\ Edit(Packet(sealed[i]))
Splice(f, i) == HasWire /\ i \in DOMAIN sealed /\ Edit([wire EXCEPT ![f] = Packet(sealed[i])[f]])
Toggle(s, x) == IF x \in s THEN s \ {x} ELSE s \cup {x}
\* flips stay clear of the ends, which Cut and Shift move
Flip(f, p) == /\ HasWire /\ (f \in {"a", "c"} => wire[f].id # Empty)
              /\ Edit([wire EXCEPT ![f].fl = Toggle(@, p)])
Cut(f) == /\ HasWire /\ f \in {"a", "c"}
          /\ \/ wire[f].add > 0 /\ Edit([wire EXCEPT ![f].add = 0])
             \/ wire[f].add = 0 /\ wire[f].cut = 0 /\ wire[f].id # Empty /\ Edit([wire EXCEPT ![f].cut = 1])
Extend(f) == /\ HasWire /\ f \in {"a", "c"} /\ wire[f].add = 0 /\ wire[f].cut = 0
             /\ Edit([wire EXCEPT ![f].add = 1])
\* move the last byte of the associated data to the front of the ciphertext
Shift == /\ HasWire /\ wire.a.id # Empty /\ wire.a.cut = 0 /\ wire.a.add = 0 /\ wire.c.pre = 0
         /\ Edit([wire EXCEPT !.a.cut = 1, !.c.pre = 1])
Verdict == IF wire.t = TagTerm(wire.k, wire.n, wire.a, wire.c) THEN 1 ELSE 0
Deliver == /\ HasWire /\ verdict = "none"
           /\ verdict' = (IF Verdict = 1 THEN "opened" ELSE "refused")
           /\ UNCHANGED <<sealed, wire>>

Authentic == verdict = "opened" => \E i \in DOMAIN sealed : wire = Packet(sealed[i])
Complete == (verdict = "refused") => \A i \in DOMAIN sealed : wire # Packet(sealed[i])
=============================================================================
