-------------------------------- MODULE BGA --------------------------------
(***************************************************************************)
(* Validation of recorded histories of the binary genetic optimizer.       *)
(* Every recorded generation must be a legal successor of the previous one *)
(* (selection, recombination, mutation are nondeterministic here), and the *)
(* reported champion must follow the evaluated generations.                *)
(* A history is [cfg, steps]; a step is a population with its codes, ranks *)
(* (larger = better in the chosen sense) and the champion reported after it*)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Focus      \* "population" or "champion"
Traces == JsonDeserialize("traces.json")
VARIABLES i,         \* history being validated
          g,         \* steps of it accepted so far
          best,      \* best rank evaluated since the last reset (-1: none)
          age,       \* steps since that rank was first reached
          dead       \* clause violated, or ""
vars == <<i, g, best, age, dead>>

Cfg == Traces[i].cfg
NP == Cfg.npop
NG == Cfg.dim * Cfg.length
Step(k) == Traces[i].steps[k]

RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
RECURSIVE SumTo(_, _)
SumTo(F(_), n) == IF n = 0 THEN 0 ELSE F(n) + SumTo(F, n - 1)
\* the number a chromosome part stands for, in words of 16 binary digits (the least significant one first)
Least(a, b) == IF a < b THEN a ELSE b
Word(row, d, w) == SumTo(LAMBDA b : row[(d - 1) * Cfg.length + 16 * (w - 1) + b] * Pow2(b - 1), Least(16, Cfg.length - 16 * (w - 1)))
Code(row, d) == [w \in 1..((Cfg.length + 15) \div 16) |-> Word(row, d, w)]

WellFormed(s) == /\ Len(s.pop) = NP
                 /\ \A r \in 1..NP : Len(s.pop[r]) = NG /\ \A b \in 1..NG : s.pop[r][b] \in {0, 1}
Decodes(s) == \A r \in 1..NP : \A d \in 1..Cfg.dim : s.code[r][d] = Code(s.pop[r], d)
\* members with equal chromosomes have equal value
Valued(s) == Len(s.rank) = NP /\ \A a, b \in 1..NP : s.pop[a] = s.pop[b] => s.rank[a] = s.rank[b]

\* number of elite members and of parents
Elite == IF Cfg.elit[2] = 0 THEN 0 ELSE (IF Cfg.elit[3] = "fraction" THEN (NP * Cfg.elit[1]) \div Cfg.elit[2] ELSE Cfg.elit[1])
NParents == LET m == IF Elite > NP \div 2 THEN Elite ELSE NP \div 2 IN m + (m % 2)

Count(rows, row) == Cardinality({r \in 1..Len(rows) : rows[r] = row})
NBetter(s, r) == Cardinality({q \in 1..NP : s.rank[q] > s.rank[r]})
NNotWorse(s, r) == Cardinality({q \in 1..NP : s.rank[q] >= s.rank[r]})
Parents(t) == SubSeq(t.pop, 1, NParents)
FromCurrent(s, t) == \A r \in 1..NParents : Count(s.pop, t.pop[r]) > 0
RankIn(s, row) == s.rank[CHOOSE q \in 1..NP : s.pop[q] = row]
\* members certainly in the elite survive with their multiplicity; ties at the border may be resolved in any way
EliteSurvives(s, t) == LET P == Parents(t) IN
  /\ \A r \in 1..NP : NNotWorse(s, r) <= Elite => Count(P, s.pop[r]) >= Count(s.pop, s.pop[r])
  /\ \A r \in 1..NP : NBetter(s, r) < Elite /\ NNotWorse(s, r) > Elite =>
        Cardinality({q \in 1..NParents : RankIn(s, P[q]) = s.rank[r]}) >= Elite - NBetter(s, r)
\* every parent which is not there as elite has won a tournament of three of the others
Tournament(s, t) == LET P == Parents(t)
                        n == NP - Elite
                        size == IF n < 3 THEN n ELSE 3
                        others(r) == {q \in 1..NP : s.rank[q] <= r} IN
  \A q \in 1..NParents : LET r == RankIn(s, P[q]) IN Cardinality(others(r)) >= size \/ Cardinality({x \in 1..NP : s.rank[x] > r}) < Elite

\* recombination: each offspring pair comes from its own pair of parents
Comp(row) == [b \in 1..NG |-> 1 - row[b]]
Fits(c1, c2, p1, p2) ==
  CASE Cfg.pc = 0 -> (c1 = p1 /\ c2 = p2) \/ (c1 = p2 /\ c2 = p1)
    [] Cfg.pc # 0 /\ Cfg.pm = 0 -> \A b \in 1..NG : c1[b] + c2[b] = p1[b] + p2[b]
    [] Cfg.pc = 1 /\ Cfg.pm = 1 -> \A b \in 1..NG : c1[b] + c2[b] = 2 - p1[b] - p2[b]
    [] OTHER -> TRUE
RECURSIVE Matched(_, _, _)
Matched(t, k, used) ==
  IF NParents + 2 * k > NP THEN TRUE
  ELSE LET c1 == t.pop[NParents + 2 * k - 1]
           c2 == t.pop[NParents + 2 * k] IN
       \E a \in 1..NParents : a \notin used /\ \E b \in (a + 1)..NParents : b \notin used /\ Fits(c1, c2, t.pop[a], t.pop[b]) /\ Matched(t, k + 1, used \cup {a, b})
\* the search for the pairing is only affordable for small populations
Strict == NP <= 20 /\ (Cfg.pc = 0 \/ Cfg.pm = 0 \/ (Cfg.pc = 1 /\ Cfg.pm = 1))
InitialParents == NP \div 2
RECURSIVE MatchedI(_, _, _)
MatchedI(t, k, used) ==
  IF InitialParents + 2 * k > NP THEN TRUE
  ELSE LET c1 == t.pop[InitialParents + 2 * k - 1]
           c2 == t.pop[InitialParents + 2 * k] IN
       \E a \in 1..InitialParents : a \notin used /\ \E b \in (a + 1)..InitialParents : b \notin used /\ Fits(c1, c2, t.pop[a], t.pop[b]) /\ MatchedI(t, k + 1, used \cup {a, b})

First(k) == k = 1 \/ Step(k).fresh            \* a newly drawn population
PopClause(k) == LET t == Step(k) IN
  IF ~WellFormed(t) THEN "population: size or genes"
  ELSE IF ~t.inrange THEN "population: outside the ranges"
  ELSE IF ~Decodes(t) THEN "population: decoding"
  ELSE IF ~Valued(t) THEN "population: values"
  ELSE IF First(k) THEN (IF Strict /\ ~MatchedI(t, 1, {}) THEN "population: recombination of the first generation" ELSE "")
  ELSE LET s == Step(k - 1) IN
       IF ~FromCurrent(s, t) THEN "population: a parent is not from the current population"
       ELSE IF ~EliteSurvives(s, t) THEN "population: elite lost"
       ELSE IF ~Tournament(s, t) THEN "population: a parent has not won a tournament"
       ELSE IF Strict /\ ~Matched(t, 1, {}) THEN "population: recombination"
       ELSE ""

MaxRank(t) == CHOOSE r \in {t.rank[q] : q \in 1..Len(t.rank)} : \A q \in 1..Len(t.rank) : t.rank[q] <= r
NewBest(k) == LET m == MaxRank(Step(k)) IN IF First(k) \/ m > best THEN m ELSE best
NewAge(k) == LET m == MaxRank(Step(k)) IN IF First(k) \/ m > best THEN 1 ELSE age + 1
ChampClause(k) == LET t == Step(k)
                      c == t.champ IN
  IF c.rank # NewBest(k) THEN "champion: not the best evaluated"
  ELSE IF c.age # NewAge(k) THEN "champion: age"
  ELSE IF Len(c.geno) # NG \/ \E d \in 1..Cfg.dim : c.code[d] # Code(c.geno, d) THEN "champion: point is not the decoding of the chromosome"
  ELSE IF ~\E h \in 1..k : (\A x \in (h + 1)..k : ~First(x)) /\ \E q \in 1..NP : Step(h).pop[q] = c.geno /\ Step(h).rank[q] = c.rank THEN "champion: never occurred"
  ELSE IF ~c.valok THEN "champion: value is not the objective at the point"
  ELSE IF ~c.stateok THEN "champion: the reported state differs"
  ELSE ""

Init == i = 1 /\ g = 0 /\ best = -1 /\ age = 0 /\ dead = ""
Clause(k) == IF Focus = "champion" THEN ChampClause(k) ELSE PopClause(k)
Accept == /\ i <= Len(Traces) /\ g < Len(Traces[i].steps)
          /\ Clause(g + 1) = ""
          /\ g' = g + 1 /\ best' = NewBest(g + 1) /\ age' = NewAge(g + 1) /\ UNCHANGED <<i, dead>>
Reject == /\ i <= Len(Traces) /\ g < Len(Traces[i].steps) /\ Clause(g + 1) # ""
          /\ PrintT("@@" \o ToJson([i |-> i, clause |-> Clause(g + 1), at |-> g + 1]))
          /\ i' = i + 1 /\ g' = 0 /\ best' = -1 /\ age' = 0 /\ dead' = Clause(g + 1)
Complete == /\ i <= Len(Traces) /\ g = Len(Traces[i].steps)
            /\ PrintT("@@" \o ToJson([i |-> i, clause |-> "", at |-> g]))
            /\ i' = i + 1 /\ g' = 0 /\ best' = -1 /\ age' = 0 /\ UNCHANGED dead
Next == Accept \/ Reject \/ Complete
Spec == Init /\ [][Next]_vars
=============================================================================
