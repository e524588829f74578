------------------------------ MODULE Report ------------------------------
(***************************************************************************)
(* The directions a layer acts on, and therefore has to report: words over *)
(* the letters 1..3 in catalogue order (shorter words first, each length   *)
(* in lexicographic order), for a custom layer with the qubits, single     *)
(* qubits and pairs in lexicographic order after each word.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
\* k-letter words in order
Word(k, i) == [j \in 1..k |-> ((i \div Pow(3, k - j)) % 3) + 1]
Words(k) == [i \in 1..Pow(3, k) |-> Word(k, i - 1)]
\* subsets of qubits of size 1 and 2 in order
Sites(n, k) == IF k = 1 THEN [q \in 1..n |-> <<q - 1>>]
               ELSE LET all == [i \in 1..(n * n) |-> <<(i - 1) \div n, (i - 1) % n>>] IN SelectSeq(all, LAMBDA p : p[1] < p[2])
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Chosen(ws, sel) == IF sel = <<>> THEN ws ELSE SelectSeq(ws, LAMBDA w : \E i \in 1..Len(sel) : sel[i] = w)   \* <<>>: no selection
Entries(ws) == [i \in 1..Len(ws) |-> [w |-> ws[i], q |-> <<>>]]
OnSites(ws, n) == Flat([i \in 1..Len(ws) |-> LET ss == Sites(n, Len(ws[i])) IN [j \in 1..Len(ss) |-> [w |-> ws[i], q |-> ss[j]]]])
\* one list of entries per reported list
Expected(kind, n, sel, su2, su4) ==
  CASE kind = "local" -> <<Entries(Chosen(Words(1), sel))>>
    [] kind = "local2" -> <<Entries(Chosen(Words(2), sel))>>
    [] kind = "custom" -> <<OnSites(Chosen(Words(1) \o Words(2), sel), n)>>
    [] kind \in {"stochastic", "squared", "adapt"} -> <<Entries(Words(1) \o Words(2))>>
    [] kind = "su8" -> <<Entries((IF su2 THEN Words(1) ELSE <<>>) \o (IF su4 THEN Words(2) ELSE <<>>) \o Words(3))>>
    [] kind \in {"zassenhaus", "zassenhaus2"} -> <<Entries(Words(1)), Entries(Words(2)), Entries(Words(3))>>
\* the words a printed layer shows
Shown(kind, n, sel, su2, su4) == LET e == Expected(kind, n, sel, su2, su4)[1] IN [i \in 1..Len(e) |-> e[i].w]
Prints(kind) == kind \notin {"zassenhaus", "zassenhaus2"}
=============================================================================
