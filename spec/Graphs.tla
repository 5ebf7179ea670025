------------------------------- MODULE Graphs -------------------------------
(***************************************************************************)
(* Rooted level structures of undirected graphs.  The level structure is   *)
(* grown level by level (the algorithm); its meaning is given by shortest  *)
(* distances, defined separately by walks.  Pseudo-peripheral candidates   *)
(* come from a root none of whose last-level nodes has a deeper, or an     *)
(* equally deep but narrower, structure.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC, Json

CONSTANTS N, Sim, MaxEdges, Loops
VARIABLES edges, root, levels, done
vars == <<edges, root, levels, done>>
Node == 0..(N - 1)
AllEdges == UNION {{{a, b} : b \in (a + 1)..(N - 1)} : a \in Node} \cup (IF Loops THEN {{i} : i \in Node} ELSE {})
Adj(E, a, b) == {a, b} \in E
Neigh(E, S) == {b \in Node : \E a \in S : Adj(E, a, b)}

\* ------------------------------------------------------------ meaning: distances by walks
RECURSIVE Reach(_, _, _)
Reach(E, r, k) == IF k = 0 THEN {r} ELSE LET P == Reach(E, r, k - 1) IN P \cup Neigh(E, P)     \* nodes at distance <= k
AtDist(E, r, k) == IF k = 0 THEN {r} ELSE Reach(E, r, k) \ Reach(E, r, k - 1)

\* ------------------------------------------------------------ the algorithm
Seen == UNION {levels[i] : i \in 1..Len(levels)}
NextLevel == Neigh(edges, levels[Len(levels)]) \ Seen
Grow == ~done /\ root # -1 /\ NextLevel # {} /\ levels' = Append(levels, NextLevel) /\ UNCHANGED <<edges, root, done>>
Stop == ~done /\ root # -1 /\ NextLevel = {} /\ done' = TRUE /\ UNCHANGED <<edges, root, levels>>

\* the level structure of a root as a function
RECURSIVE GrowAll(_, _, _)
GrowAll(E, ls, seen) == LET n == Neigh(E, ls[Len(ls)]) \ seen IN IF n = {} THEN ls ELSE GrowAll(E, Append(ls, n), seen \cup n)
RLS(E, r) == GrowAll(E, <<{r}>>, {r})
Depth(ls) == Len(ls)
Width(ls) == LET S == {Cardinality(ls[i]) : i \in 1..Len(ls)} IN CHOOSE m \in S : \A x \in S : x <= m
Better(a, b) == Depth(a) > Depth(b) \/ (Depth(a) = Depth(b) /\ Width(a) < Width(b))
Last(ls) == ls[Len(ls)]
Good(E) == {r \in Node : \A q \in Last(RLS(E, r)) : ~Better(RLS(E, q), RLS(E, r))}

\* ------------------------------------------------------------ behaviours
Pick(S) == IF Sim THEN (LET T == IF Cardinality(edges) < 0 THEN {} ELSE S IN IF T = {} THEN {} ELSE {RandomElement(T)}) ELSE S
Init == /\ edges \in (IF Sim THEN {{}} ELSE SUBSET AllEdges) /\ root \in (IF Sim THEN {-1} ELSE Node)
        /\ levels = (IF root = -1 THEN <<>> ELSE <<{root}>>) /\ done = FALSE
AddEdge == Sim /\ root = -1 /\ Cardinality(edges) < MaxEdges /\ \E e \in Pick(AllEdges \ edges) : edges' = edges \cup {e} /\ UNCHANGED <<root, levels, done>>
\* prefers paths, so that deep structures occur
AddNext == Sim /\ root = -1 /\ Cardinality(edges) < MaxEdges /\ \E i \in Pick({i \in 0..(N - 2) : {i, i + 1} \notin edges}) : edges' = edges \cup {{i, i + 1}} /\ UNCHANGED <<root, levels, done>>
SetRoot == Sim /\ root = -1 /\ Cardinality(edges) >= (2 * MaxEdges) \div 3 /\ \E r \in Pick(Node) : root' = r /\ levels' = <<{r}>> /\ UNCHANGED <<edges, done>>
Next == Grow \/ Stop \/ AddEdge \/ AddNext \/ SetRoot
Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars(Grow \/ Stop)

\* ------------------------------------------------------------ properties
LevelsAreDistances == \A i \in 1..Len(levels) : levels[i] = AtDist(edges, root, i - 1)
Partition == \A i, j \in 1..Len(levels) : (i # j => levels[i] \cap levels[j] = {}) /\ levels[i] # {}
Complete == done => Seen = Reach(edges, root, N) /\ levels = RLS(edges, root)
GoodExists == done => Good(edges) # {}
Terminates == <>done
SetSeq(S) == LET RECURSIVE F(_) F(T) == IF T = {} THEN <<>> ELSE LET m == Min(T) IN <<m>> \o F(T \ {m}) IN F(S)
EdgeSeq(E) == LET RECURSIVE F(_) F(T) == IF T = {} THEN <<>> ELSE LET e == CHOOSE e \in T : TRUE IN <<SetSeq(e)>> \o F(T \ {e}) IN F(E)
Struct(r) == LET ls == RLS(edges, r) IN [i \in 1..Len(ls) |-> SetSeq(ls[i])]
Rec == [n |-> N, edges |-> EdgeSeq(edges), rls |-> [i \in 1..N |-> Struct(i - 1)], good |-> SetSeq(Good(edges))]
Emit == (done /\ (Sim \/ root = 0)) => PrintT("@@" \o ToJson(Rec))
=============================================================================
