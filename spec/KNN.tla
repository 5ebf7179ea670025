-------------------------------- MODULE KNN --------------------------------
(***************************************************************************)
(* Nearest neighbour search over a growing cloud of integer points and the *)
(* averaging approximator built on it.  A search takes, one after another, *)
(* a nearest point not taken yet (any of them if there is a tie) as long   *)
(* as it is within the limit; its meaning is given by sorted distances.    *)
(* Distances are compared through integer keys: the squared distance for   *)
(* the Euclidean norm, the distance itself for the 1- and max-norm.  A     *)
(* limit m admits the keys <= m (the driver passes a limit between m and   *)
(* m + 1, so that the boundary case does not depend on rounding).          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC, Json

CONSTANTS Depth, Sim, Dim, R, MaxPts, Mode
VARIABLES cloud, vals, srch, log
vars == <<cloud, vals, srch, log>>
Salt == Len(log) + Len(cloud)
Pick(S) == IF Sim THEN (LET T == IF Salt < 0 THEN {} ELSE S IN IF T = {} THEN {} ELSE {RandomElement(T)}) ELSE S
More == Len(log) < Depth
NoLim == 99999
Norms == {"1", "2", "inf"}
Coord == (-R)..R
Point == [1..Dim -> Coord]
\* a point by number, for random choices
RECURSIVE PowOf(_, _)
PowOf(b, e) == IF e = 0 THEN 1 ELSE b * PowOf(b, e - 1)
NthPoint(k) == [d \in 1..Dim |-> ((k \div PowOf(2 * R + 1, d - 1)) % (2 * R + 1)) - R]
NPoint == PowOf(2 * R + 1, Dim)

Abs(x) == IF x < 0 THEN -x ELSE x
MaxOf(S) == CHOOSE m \in S : \A x \in S : x <= m
Key(p, q, norm) ==
  CASE norm = "2" -> MapThenSumSet(LAMBDA d : (p[d] - q[d]) * (p[d] - q[d]), 1..Dim)
    [] norm = "1" -> MapThenSumSet(LAMBDA d : Abs(p[d] - q[d]), 1..Dim)
    [] OTHER -> MaxOf({Abs(p[d] - q[d]) : d \in 1..Dim})
Keys(q, norm) == [i \in 1..Len(cloud) |-> Key(cloud[i], q, norm)]

\* ------------------------------------------------------------ meaning
Order(ks) == SetToSortSeq(1..Len(ks), LAMBDA a, b : ks[a] < ks[b] \/ (ks[a] = ks[b] /\ a < b))
SortedKeys(ks) == [i \in 1..Len(ks) |-> ks[Order(ks)[i]]]
\* the keys reported for the first k neighbours within the limit
Report(ks, k, lim) == SelectSeq(SubSeq(SortedKeys(ks), 1, IF k < Len(ks) THEN k ELSE Len(ks)), LAMBDA x : x <= lim)
\* the sets of points a search may report
Answers(ks, k, lim) ==
  LET m == Len(Report(ks, k, lim)) IN
  IF m = 0 THEN {{}} ELSE
  LET last == Report(ks, k, lim)[m]
      sure == {i \in 1..Len(ks) : ks[i] < last}
      tie == {i \in 1..Len(ks) : ks[i] = last} IN
  {sure \cup T : T \in kSubset(m - Cardinality(sure), tie)}

\* ------------------------------------------------------------ the search
Idle == [on |-> FALSE]
Start == Mode = "search" /\ \E q \in Pick(Point), k \in Pick(1..(MaxPts + 1)), lim \in Pick({0, 1, 2, 5, NoLim}), norm \in Pick(Norms) :
  /\ Mode = "search" /\ ~srch.on /\ cloud # <<>> /\ srch' = [on |-> TRUE, q |-> q, k |-> k, lim |-> lim, norm |-> norm, found |-> <<>>, end |-> FALSE]
  /\ UNCHANGED <<cloud, vals, log>>
Rest == (1..Len(cloud)) \ ToSet(srch.found)
Near == {i \in Rest : LET ks == Keys(srch.q, srch.norm) IN ks[i] <= srch.lim /\ \A j \in Rest : ks[i] <= ks[j]}
Take == /\ srch.on /\ ~srch.end /\ Len(srch.found) < srch.k
        /\ \E i \in Near : srch' = [srch EXCEPT !.found = Append(@, i)]
        /\ UNCHANGED <<cloud, vals, log>>
Finish == /\ srch.on /\ ~srch.end /\ (Len(srch.found) = srch.k \/ Near = {}) /\ srch' = [srch EXCEPT !.end = TRUE] /\ UNCHANGED <<cloud, vals, log>>

\* ------------------------------------------------------------ calls of the library
AddPoint == \E n \in Pick(0..(NPoint - 1)), v \in Pick(-9..9) :
  /\ ~srch.on /\ Len(cloud) < MaxPts /\ (Sim => log = <<>>)
  /\ cloud' = Append(cloud, NthPoint(n)) /\ vals' = Append(vals, IF Sim THEN v ELSE 0) /\ UNCHANGED <<srch, log>>
\* with self the cloud is queried
KLists == {<<1>>, <<2>>, <<1, 2>>, <<1, 3>>, <<2, 1>>, <<3, 5>>, <<4>>}
Query == Mode = "api" /\ \E a \in Pick(0..(NPoint - 1)), b \in Pick(0..(NPoint - 1)), nq \in Pick(1..3), self \in Pick({TRUE, FALSE, FALSE}), aslist \in Pick(BOOLEAN), kl \in Pick(KLists), k \in Pick(1..(MaxPts + 2)),
             lim \in Pick({0, 1, 2, 3, 5, 9, NoLim}), norm \in Pick(Norms), leaf \in Pick({1, 2, 30}), dist \in Pick({TRUE, TRUE, FALSE}), viaopt \in Pick(BOOLEAN), bal \in Pick(BOOLEAN), w \in Pick({1, 2, -1}) :
  /\ Mode = "api" /\ More /\ Len(cloud) >= 1 /\ (Sim => Len(cloud) >= MaxPts \div 2)
  /\ LET qs == IF self THEN cloud ELSE [i \in 1..nq |-> NthPoint((a + (i - 1) * b) % NPoint)] IN
     log' = Append(log, [a |-> "Query", qs |-> qs, self |-> self, k |-> IF aslist THEN kl ELSE <<k>>, aslist |-> aslist, lim |-> lim, nolim |-> lim = NoLim, norm |-> norm, leaf |-> leaf,
                         dist |-> dist, viaopt |-> viaopt, bal |-> bal, w |-> w,
                         keys |-> [i \in 1..Len(qs) |-> Keys(qs[i], norm)], sorted |-> [i \in 1..Len(qs) |-> Report(Keys(qs[i], norm), MaxPts + 9, lim)]])
  /\ UNCHANGED <<cloud, vals, srch>>
\* the approximator: value of point i in component c
Val(i, c) == vals[i] + ((3 * i + 5 * c) % 7) * (c - 1)
SetVal == Mode = "api" /\ \E i \in Pick(1..Len(cloud)), v \in Pick(-9..9) :
  /\ More /\ log # <<>> /\ vals' = [vals EXCEPT ![i] = v] /\ log' = Append(log, [a |-> "SetVal", i |-> i - 1, data |-> [j \in 1..Len(cloud) |-> [c \in 1..4 |-> (IF j = i THEN v ELSE vals[j]) + ((3 * j + 5 * c) % 7) * (c - 1)]]])
  /\ UNCHANGED <<cloud, srch>>
Average == Mode = "api" /\ \E a \in Pick(0..(NPoint - 1)), b \in Pick(0..(NPoint - 1)), nq \in Pick(1..3), obj \in Pick(1..2), k \in Pick(0..6), lim \in Pick({1, 2, 5, NoLim, NoLim}), shape \in Pick({"s", "v", "m"}), ty \in Pick({"int", "float"}) :
  /\ Mode = "api" /\ More /\ Len(cloud) >= 1 /\ (Sim => Len(cloud) >= MaxPts \div 2)
  /\ LET qs == [i \in 1..nq |-> NthPoint((a + (i - 1) * b) % NPoint)]
         kk == IF k = 0 THEN 4 ELSE k
         nc == IF shape = "s" THEN 1 ELSE IF shape = "v" THEN 2 ELSE 4 IN
     log' = Append(log, [a |-> "Average", obj |-> obj, qs |-> qs, k |-> k, lim |-> lim, nolim |-> lim = NoLim, shape |-> shape, ty |-> ty,
        data |-> [j \in 1..Len(cloud) |-> [c \in 1..nc |-> Val(j, c)]],
        poss |-> [i \in 1..Len(qs) |-> {[n |-> Cardinality(S), sum |-> [c \in 1..nc |-> MapThenSumSet(LAMBDA j : Val(j, c), S)]] : S \in Answers(Keys(qs[i], "2"), kk, lim)}]])
  /\ UNCHANGED <<cloud, vals, srch>>

\* a point moves: searches and living approximators see the new cloud
Move == Mode = "api" /\ \E i \in Pick(1..Len(cloud)), n \in Pick(0..(NPoint - 1)) :
  /\ More /\ Sim /\ log # <<>> /\ cloud' = [cloud EXCEPT ![i] = NthPoint(n)] /\ log' = Append(log, [a |-> "Move", old |-> cloud, new |-> cloud']) /\ UNCHANGED <<vals, srch>>

Init == cloud = <<>> /\ vals = <<>> /\ srch = Idle /\ log = <<>>
Next == AddPoint \/ Start \/ Take \/ Finish \/ Query \/ SetVal \/ Move \/ Average
Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars(Take) /\ WF_vars(Finish)

\* ------------------------------------------------------------ properties
SearchCorrect == (srch.on /\ srch.end) =>
  LET ks == Keys(srch.q, srch.norm) IN
  /\ [i \in 1..Len(srch.found) |-> ks[srch.found[i]]] = Report(ks, srch.k, srch.lim)
  /\ ToSet(srch.found) \in Answers(ks, srch.k, srch.lim)
  /\ Cardinality(ToSet(srch.found)) = Len(srch.found)
  /\ \A i \in Rest : (\A m \in 1..Len(srch.found) : ks[srch.found[m]] <= ks[i]) /\ (Len(srch.found) < srch.k => ks[i] > srch.lim)
SearchSorted == srch.on => \A i \in 1..(Len(srch.found) - 1) : LET ks == Keys(srch.q, srch.norm) IN ks[srch.found[i]] <= ks[srch.found[i + 1]]
Triangle == (srch.on /\ Len(cloud) >= 2) => \A norm \in {"1", "inf"} : Key(cloud[1], srch.q, norm) <= Key(cloud[1], cloud[2], norm) + Key(cloud[2], srch.q, norm)
Terminates == [](srch.on => <>(srch.on /\ srch.end))
Emit == (Sim /\ Len(log) = Depth) => PrintT("@@" \o ToJson([cloud |-> LET M == {m \in 1..Len(log) : log[m].a = "Move"} IN IF M = {} THEN cloud ELSE log[Min(M)].old, log |-> log]))
=============================================================================
