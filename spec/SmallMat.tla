------------------------------ MODULE SmallMat ------------------------------
(***************************************************************************)
(* Small integer matrices under elementary row and column operations.      *)
(* A matrix starts as a rectangular identity of known rank; an operation   *)
(* changes the determinant in a known way and never the rank (unless a row *)
(* is scaled by zero, which is not an operation here).  Determinant, rank, *)
(* adjugate and the generalized inverses are defined independently (by     *)
(* minors) and must agree with what is tracked.  Every matrix visited is   *)
(* observed, and the matrices of a behaviour form a stack.                 *)
(***************************************************************************)
EXTENDS Rat, Json

CONSTANTS Depth, Sim, NRow, NCol, Bound
VARIABLES m, det, rank, log
vars == <<m, det, rank, log>>
Salt == Len(log)
Pick(S) == IF Sim THEN (LET T == IF Salt < 0 THEN {} ELSE S IN IF T = {} THEN {} ELSE {RandomElement(T)}) ELSE S
More == Len(log) < Depth
R == NRow
C == NCol
K == IF R < C THEN R ELSE C
Square == R = C
At2(w, i, j) == w[(i - 1) * C + j]
Fits(w) == \A p \in 1..(R * C) : Abs(w[p]) <= Bound

\* ------------------------------------------------------------ meaning by minors
SubMat(w, I, J) == LET s == SetToSortSeq(I, <)  t == SetToSortSeq(J, <)  k == Len(s) IN [p \in 1..(k * k) |-> At2(w, s[((p - 1) \div k) + 1], t[((p - 1) % k) + 1])]
HasMinor(w, k) == \E I \in kSubset(k, 1..R) : \E J \in kSubset(k, 1..C) : DetI(SubMat(w, I, J), k) # 0
RankOf(w) == IF HasMinor(w, 1) THEN (CHOOSE k \in 1..K : HasMinor(w, k) /\ \A l \in (k + 1)..K : ~HasMinor(w, l)) ELSE 0
Tr(w) == [p \in 1..(R * C) |-> w[((p - 1) % R) * C + ((p - 1) \div R) + 1]]                  \* C x R
RowGram(w) == [p \in 1..(R * R) |-> LET i == ((p - 1) \div R) + 1  j == ((p - 1) % R) + 1 IN SumSeq([k \in 1..C |-> At2(w, i, k) * At2(w, j, k)])]
ColGram(w) == [p \in 1..(C * C) |-> LET i == ((p - 1) \div C) + 1  j == ((p - 1) % C) + 1 IN SumSeq([k \in 1..R |-> At2(w, k, i) * At2(w, k, j)])]
\* minimum-norm one-sided inverses of matrices of full rank, C x R
RightInv(w) == MatMul(QI(Tr(w)), QInv(QI(RowGram(w)), R), C, R, R)
LeftInv(w) == MatMul(QInv(QI(ColGram(w)), C), QI(Tr(w)), C, C, R)
GenInv(w) == IF Square THEN QInv(QI(w), R) ELSE IF R < C THEN RightInv(w) ELSE LeftInv(w)
Full(w) == RankOf(w) = K
\* w . v^T, the rows of v transformed by w: row i of the result is  w v_i
Shown(w, v) == [p \in 1..(R * R) |-> LET i == ((p - 1) \div R) + 1  j == ((p - 1) % R) + 1 IN SumSeq([k \in 1..C |-> At2(w, j, k) * At2(v, i, k)])]
Obs(w, v, dt, rk) == [m |-> w, det |-> dt, rank |-> rk, full |-> rk = K, gram |-> RowGram(w), adj |-> IF Square /\ R \in {2, 3} THEN AdjI(w, R) ELSE <<>>,
             inv |-> IF rk = K THEN GenInv(w) ELSE QI(<<0>>), posdef |-> Square, shown |-> IF Square THEN Shown(w, v) ELSE <<>>,
             sym |-> Square /\ Tr(w) = w,
             pd |-> Square /\ Tr(w) = w /\ \A k \in 1..R : DetI([p \in 1..(k * k) |-> At2(w, ((p - 1) \div k) + 1, ((p - 1) % k) + 1)], k) > 0,
             orth |-> Square /\ \A i, j \in 1..R : i # j => RowGram(w)[(i - 1) * R + j] = 0,
             unit |-> \A i \in 1..R : RowGram(w)[(i - 1) * R + i] = 1]

\* ------------------------------------------------------------ operations
Become(w, dt, a) == /\ Fits(w) /\ m' = w /\ det' = dt /\ rank' = rank /\ log' = Append(log, Obs(w, m, dt, rank) @@ [a |-> a])
AddRow == More /\ \E i \in Pick(1..R) : \E j \in Pick((1..R) \ {i}) : \E f \in Pick({-2, -1, 1, 2}) :
  Become([p \in 1..(R * C) |-> IF ((p - 1) \div C) + 1 = i THEN m[p] + f * At2(m, j, ((p - 1) % C) + 1) ELSE m[p]], det, "AddRow")
AddCol == More /\ \E i \in Pick(1..C) : \E j \in Pick((1..C) \ {i}) : \E f \in Pick({-2, -1, 1, 2}) :
  Become([p \in 1..(R * C) |-> IF ((p - 1) % C) + 1 = i THEN m[p] + f * At2(m, ((p - 1) \div C) + 1, j) ELSE m[p]], det, "AddCol")
SwapRow == More /\ \E i \in Pick(1..R) : \E j \in Pick((1..R) \ {i}) :
  Become([p \in 1..(R * C) |-> LET r == ((p - 1) \div C) + 1  c == ((p - 1) % C) + 1 IN IF r = i THEN At2(m, j, c) ELSE IF r = j THEN At2(m, i, c) ELSE m[p]], -det, "SwapRow")
ScaleRow == More /\ \E i \in Pick(1..R) : \E f \in Pick({-3, -1, 2, 3}) :
  Become([p \in 1..(R * C) |-> IF ((p - 1) \div C) + 1 = i THEN f * m[p] ELSE m[p]], f * det, "ScaleRow")
Transpose == More /\ Square /\ Become(Tr(m), det, "Transpose")
\* makes a symmetric matrix: its own Gram matrix
Square2 == More /\ Square /\ LET w == RowGram(m) IN /\ \A p \in 1..(R * R) : Abs(w[p]) <= 2 * Bound
  /\ m' = w /\ det' = det * det /\ rank' = rank /\ log' = Append(log, Obs(w, m, det * det, rank) @@ [a |-> "Gram"])
Start(k) == [p \in 1..(R * C) |-> IF ((p - 1) \div C) = ((p - 1) % C) /\ ((p - 1) \div C) < k THEN 1 ELSE 0]
Lose == log = <<>> /\ rank = K /\ Sim /\ \E k \in Pick(1..K), u \in Pick(1..3) : u = 1 /\ k < K /\ m' = Start(k) /\ rank' = k /\ det' = 0 /\ UNCHANGED log
Init == \E k \in (IF Sim THEN {K} ELSE 0..K) : m = Start(k) /\ rank = k /\ det = (IF k = K THEN 1 ELSE 0) /\ log = <<>>
Next == AddRow \/ AddCol \/ SwapRow \/ ScaleRow \/ Transpose \/ Square2 \/ Lose
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------ properties
DetOK == Square => DetI(m, R) = det
RankOK == RankOf(m) = rank
RegularOK == Square => ((det # 0) = (rank = K))
AdjOK == Square => MatMul(QI(m), QI(AdjI(m, R)), R, R, R) = QI([p \in 1..(R * R) |-> IF (p - 1) \div R = (p - 1) % R THEN det ELSE 0])
InvOK == rank = K => LET g == GenInv(m) IN
  /\ (R <= C => MatMul(QI(m), g, R, C, R) = Eye(R))
  /\ (R >= C => MatMul(g, QI(m), C, R, C) = Eye(C))
View == <<m, det, rank, Len(log)>>
Emit == (Sim /\ Len(log) = Depth) => PrintT("@@" \o ToJson([r |-> R, c |-> C, log |-> log]))

\* ------------------------------------------------------------ permutation symbol
RECURSIVE Inversions(_)
Inversions(s) == IF Len(s) < 2 THEN 0 ELSE Cardinality({i \in 2..Len(s) : s[i] < s[1]}) + Inversions(Tail(s))
Eps(s) == IF Cardinality(ToSet(s)) < Len(s) THEN 0 ELSE IF Inversions(s) % 2 = 0 THEN 1 ELSE -1
Idx(n, p) == [k \in 1..n |-> (p \div Pow(n, n - k)) % n]
EpsRec(n) == [n |-> n, eps |-> [p \in 1..Pow(n, n) |-> Eps(Idx(n, p - 1))]]
EmitEps == log = <<>> => \A n \in 1..Depth : PrintT("@@" \o ToJson(EpsRec(n)))
=============================================================================
