-------------------------------- MODULE Gauss --------------------------------
(***************************************************************************)
(* Tensor-product Gauss-Legendre rules.  The state is a rule under         *)
(* construction: axes are appended one after the other, each with its own  *)
(* number of points, and every point of the new rule is a point of the old *)
(* one continued by a point of the new axis, so the first coordinate       *)
(* varies slowest.  One-dimensional points are named by their rank on the  *)
(* axis.  What the rule must integrate exactly is the set of monomials of  *)
(* degree at most 2n-1 on an axis of n points, and the integral is a       *)
(* product of 2/(d+1) (d even) or 0 (d odd).  By symmetry point i mirrors  *)
(* point n+1-i.                                                            *)
(***************************************************************************)
EXTENDS Rat, Json

CONSTANTS Depth, Sim, MaxN, MaxD
VARIABLES axes, pts, log
vars == <<axes, pts, log>>
Salt == Len(log) + Len(axes)
Pick(S) == IF Sim THEN (LET T == IF Salt < 0 THEN {} ELSE S IN IF T = {} THEN {} ELSE {RandomElement(T)}) ELSE S
D == Len(axes)
Count == ProdSeq(axes)

Int1(d) == IF d % 2 = 1 THEN <<0, 1>> ELSE LET g == Gcd2(2, d + 1) IN <<2 \div g, (d + 1) \div g>>
RMul(a, b) == LET n == a[1] * b[1]  dd == a[2] * b[2]  g == Gcd2(n, dd) IN <<n \div g, dd \div g>>
Integral(e) == FoldLeft(LAMBDA acc, d : RMul(acc, Int1(d)), <<1, 1>>, e)
Admissible(e) == \A k \in 1..D : e[k] <= 2 * axes[k] - 1

AddAxis == /\ Len(log) < Depth /\ D < MaxD /\ log = <<>>
  /\ \E n \in Pick(1..MaxN) :
       /\ axes' = Append(axes, n)
       /\ pts' = IF pts = <<>> THEN [i \in 1..n |-> <<i>>] ELSE [q \in 1..(Len(pts) * n) |-> Append(pts[((q - 1) \div n) + 1], ((q - 1) % n) + 1)]
  /\ UNCHANGED log
Ask == /\ Len(log) < Depth /\ D > 0
  /\ \E e1 \in Pick(0..(2 * axes[1] - 1)) : \E e2 \in Pick(0..(IF D > 1 THEN 2 * axes[2] - 1 ELSE 0)) : \E e3 \in Pick(0..(IF D > 2 THEN 2 * axes[3] - 1 ELSE 0)) :
       LET e == SubSeq(<<e1, e2, e3>>, 1, D) IN log' = Append(log, [e |-> e, v |-> Integral(e)])
  /\ UNCHANGED <<axes, pts>>
Init == axes = <<>> /\ pts = <<>> /\ log = <<>>
Next == AddAxis \/ Ask
Spec == Init /\ [][Next]_vars

Size == D > 0 => Len(pts) = Count
EachOnce == \A i, j \in 1..Len(pts) : i # j => pts[i] # pts[j]
Slowest == \A i \in 1..(Len(pts) - 1) : pts[i][1] <= pts[i + 1][1]
InRange == \A i \in 1..Len(pts) : Len(pts[i]) = D /\ \A k \in 1..D : pts[i][k] \in 1..axes[k]
Asked == \A i \in 1..Len(log) : Admissible(log[i].e) /\ (log[i].v[1] = 0 <=> \E k \in 1..D : log[i].e[k] % 2 = 1)
\* reflecting an axis permutes the points: the order is the lexicographic one
Lexi == \A i \in 1..Len(pts) : i - 1 = FoldLeft(LAMBDA acc, k : acc * axes[k] + pts[i][k] - 1, 0, [k \in 1..D |-> k])
View == <<axes, log>>
Emit == (Sim /\ Len(log) = Depth) => PrintT("@@" \o ToJson([axes |-> axes, pts |-> pts, log |-> log]))
=============================================================================
