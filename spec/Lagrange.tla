------------------------------ MODULE Lagrange ------------------------------
(***************************************************************************)
(* Lagrange interpolation in one dimension.  The basis is kept as a state  *)
(* and updated node by node (Newton's way): adding a node multiplies every *)
(* function by a linear factor that vanishes at the new node and keeps its *)
(* own node, and adds the nodal polynomial scaled to one at the new node.  *)
(* A polynomial is its sequence of integer coefficients over one positive  *)
(* denominator.                                                            *)
(***************************************************************************)
EXTENDS Rat, Json

CONSTANTS Depth, Sim, MaxNodes, Span,
          MinNodes   \* bases of fewer nodes are not observed
VARIABLES nodes, basis, nodal, log
vars == <<nodes, basis, nodal, log>>
Salt == Len(log) + Len(nodes)
Pick(S) == IF Sim THEN (LET T == IF Salt < 0 THEN {} ELSE S IN IF T = {} THEN {} ELSE {RandomElement(T)}) ELSE S
N == Len(nodes)
More == Len(log) < Depth

\* ------------------------------------------------------------ polynomials: [n |-> coefficients from degree zero, d |-> denominator]
Co(p, i) == IF i < 1 \/ i > Len(p) THEN 0 ELSE p[i]
TimesLin(p, a) == [i \in 1..(Len(p) + 1) |-> Co(p, i - 1) - a * Co(p, i)]                    \* (x - a) p
RECURSIVE Horner(_, _)
Horner(p, x) == IF p = <<>> THEN 0 ELSE p[1] + x * Horner(Tail(p), x)
Diff(p) == IF Len(p) <= 1 THEN <<0>> ELSE [i \in 1..(Len(p) - 1) |-> i * p[i + 1]]
RECURSIVE DiffN(_, _)
DiffN(p, k) == IF k = 0 THEN p ELSE DiffN(Diff(p), k - 1)
ValueAt(q, k, x) == LET v == Horner(DiffN(q.n, k), x)  g == Gcd2(v, q.d) IN <<v \div g, q.d \div g>>
PAdd(a, b) == LET m == Lcm(a.d, b.d)  l == IF Len(a.n) > Len(b.n) THEN Len(a.n) ELSE Len(b.n) IN
              QA([i \in 1..l |-> Co(a.n, i) * (m \div a.d) + Co(b.n, i) * (m \div b.d)], m)
PScale(a, s) == QA([i \in 1..Len(a.n) |-> s * a.n[i]], a.d)
PZero == QI(<<0>>)
Combine(v) == FoldLeft(LAMBDA acc, i : PAdd(acc, PScale(basis[i], v[i])), PZero, [i \in 1..N |-> i])

\* ------------------------------------------------------------ building
AddNode == /\ More /\ N < MaxNodes
  /\ \E a \in Pick((-Span)..Span) : /\ \A i \in 1..N : nodes[i] # a
       /\ nodes' = Append(nodes, a)
       /\ basis' = Append([i \in 1..N |-> QA(TimesLin(basis[i].n, a), basis[i].d * (nodes[i] - a))], QA(nodal, Horner(nodal, a)))
       /\ nodal' = TimesLin(nodal, a)
  /\ UNCHANGED log
\* the order of the nodes is the user's
Swap == /\ More /\ N > 1
  /\ \E i \in Pick(1..N) : \E j \in Pick((1..N) \ {i}) :
       LET sw(s) == [k \in 1..N |-> IF k = i THEN s[j] ELSE IF k = j THEN s[i] ELSE s[k]] IN nodes' = sw(nodes) /\ basis' = sw(basis)
  /\ UNCHANGED <<nodal, log>>
DropNode == /\ More /\ N > 2 /\ ~Sim
  /\ \E j \in Pick(1..N) : nodes' = RemoveAt(nodes, j)
       /\ LET ns == RemoveAt(nodes, j) IN
          /\ nodal' = FoldLeft(LAMBDA p, a : TimesLin(p, a), <<1>>, ns)
          /\ basis' = [i \in 1..(N - 1) |-> LET p == FoldLeft(LAMBDA z, k : IF k = i THEN z ELSE TimesLin(z, ns[k]), <<1>>, [k \in 1..(N - 1) |-> k]) IN QA(p, Horner(p, ns[i]))]
  /\ UNCHANGED log
\* ------------------------------------------------------------ observing
Values(z) == [i \in 1..N |-> ((((z * (2 * i + 1)) \div 5) + i * i) % 7) - 3]
Observe == /\ More /\ N >= MinNodes
  /\ \E x \in Pick((-Span - 1)..(Span + 1)) : \E z \in Pick(IF Sim THEN 0..999 ELSE {0, 3}) :
       LET v == Values(z)  c == Combine(v) IN
       log' = Append(log, [nodes |-> nodes, x |-> x, b |-> [i \in 1..N |-> [k \in 1..4 |-> ValueAt(basis[i], k - 1, x)]], v |-> v, f |-> ValueAt(c, 0, x),
                           poly |-> basis])
  /\ UNCHANGED <<nodes, basis, nodal>>

Init == nodes = <<>> /\ basis = <<>> /\ nodal = <<1>> /\ log = <<>>
Next == AddNode \/ Swap \/ DropNode \/ Observe
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------ properties
Nodal == \A i, j \in 1..N : ValueAt(basis[i], 0, nodes[j]) = <<IF i = j THEN 1 ELSE 0, 1>>
RECURSIVE Trim(_)
Trim(q) == IF Len(q.n) > 1 /\ q.n[Len(q.n)] = 0 THEN Trim(Red([n |-> SubSeq(q.n, 1, Len(q.n) - 1), d |-> q.d])) ELSE Red(q)
Unity == N > 0 => Trim(Combine([i \in 1..N |-> 1])) = QI(<<1>>)
\* every polynomial of lower degree is reproduced: enough for the powers
Reproduction == N > 0 => \A k \in 0..(N - 1) : Trim(Combine([i \in 1..N |-> Pow(nodes[i], k)])) = QI([i \in 1..(k + 1) |-> IF i = k + 1 THEN 1 ELSE 0])
Degree == \A i \in 1..N : Len(basis[i].n) = N /\ basis[i].d > 0

View == <<nodes, basis, log = <<>>>>
Emit == (Sim /\ Len(log) = Depth) => PrintT("@@" \o ToJson([log |-> log]))
=============================================================================
