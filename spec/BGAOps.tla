------------------------------- MODULE BGAOps -------------------------------
(***************************************************************************)
(* The random operators of the binary genetic optimizer, one call at a     *)
(* time: what crossover, mutation, pairing and division may return.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
Traces == JsonDeserialize("traces.json")
VARIABLES i
Abs(x) == IF x < 0 THEN -x ELSE x

\* genes of the two children are those of the two parents, position by position; flipped if mutation is certain
CrossOK(r) ==
  LET n == Len(r.p1)
      want(b) == IF r.pm = 0 THEN r.p1[b] + r.p2[b] ELSE 2 - r.p1[b] - r.p2[b] IN
  /\ Len(r.c1) = n /\ Len(r.c2) = n
  /\ \A b \in 1..n : r.c1[b] \in {0, 1} /\ r.c2[b] \in {0, 1} /\ r.c1[b] + r.c2[b] = want(b)
\* of complementary parents, the cuts are visible: exactly ncut switches from one parent to the other
Switches(c, p) == Cardinality({b \in 2..Len(c) : (c[b] = p[b]) # (c[b - 1] = p[b - 1])})
CutsOK(r) == \/ r.ncut < 0 /\ (Len(r.p1) > 1 => Switches(r.c1, r.p1) >= 1)
             \/ r.ncut >= 0 /\ Switches(r.c1, r.p1) = r.ncut
Complementary(r) == \A b \in 1..Len(r.p1) : r.p1[b] + r.p2[b] = 1

\* observed frequency of k out of n, expected percentage pct, six standard deviations allowed
FreqOK(k, n, pct) == LET dev == k * 100 - n * pct IN Abs(dev) < 46000 /\ dev * dev <= 36 * n * pct * (100 - pct)

Disjoint(pairs, n) == /\ Len(pairs) = n \div 2
                      /\ \A x \in 1..Len(pairs) : Len(pairs[x]) = 2
                      /\ {pairs[x][1] : x \in 1..Len(pairs)} \cup {pairs[x][2] : x \in 1..Len(pairs)} = 1..n

Elite(r) == IF r.elit[2] = 0 THEN 0 ELSE IF r.elit[3] = "fraction" THEN (Len(r.rank) * r.elit[1]) \div r.elit[2] ELSE r.elit[1]
DivideOK(r) ==
  /\ Len(r.elite) = Elite(r) /\ Len(r.elite) + Len(r.others) = Len(r.rank)
  /\ {r.elite[x] : x \in 1..Len(r.elite)} \cup {r.others[x] : x \in 1..Len(r.others)} = 1..Len(r.rank)
  /\ \A x \in 1..Len(r.elite), y \in 1..Len(r.others) : r.rank[r.elite[x]] >= r.rank[r.others[y]]

Clause(r) ==
  CASE r.k = "cross" -> (IF ~CrossOK(r) THEN "crossover: genes" ELSE IF Complementary(r) /\ ~CutsOK(r) THEN "crossover: cuts" ELSE "")
    [] r.k = "crossfreq" -> (IF ~FreqOK(r.n - r.copies, r.n, r.pc) THEN "crossover: frequency"
                             ELSE IF \E x \in 1..Len(r.cutpos) : r.cutpos[x] = 0 THEN "crossover: a position is never cut" ELSE "")
    [] r.k = "mut" -> (IF \E x \in 1..Len(r.flips) : ~FreqOK(r.flips[x], r.n, r.pm) THEN "mutation: frequency" ELSE IF r.moved THEN "mutation: the argument was changed" ELSE "")
    [] r.k = "pairs" -> (IF ~Disjoint(r.pairs, r.n) THEN "pairing" ELSE "")
    [] r.k = "divide" -> (IF ~DivideOK(r) THEN "division" ELSE "")

Init == i = 1
Next == /\ i <= Len(Traces)
        /\ PrintT("@@" \o ToJson([i |-> i, clause |-> Clause(Traces[i])]))
        /\ i' = i + 1
Spec == Init /\ [][Next]_i
=============================================================================
