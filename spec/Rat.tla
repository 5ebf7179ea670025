-------------------------------- MODULE Rat --------------------------------
(***************************************************************************)
(* Exact arithmetic on arrays of rational numbers.  An array is a record   *)
(* [n |-> <<i1, i2, ...>>, d |-> D] : flat (row-major) integer numerators  *)
(* over one common positive denominator, in lowest terms.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE IF x = 0 THEN 0 ELSE 1
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN Abs(a) ELSE Gcd(b, a % b)
Gcd2(a, b) == Gcd(Abs(a), Abs(b))
Lcm(a, b) == (a \div Gcd2(a, b)) * b
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)

SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
ProdSeq(s) == FoldLeft(LAMBDA a, b : a * b, 1, s)
Last1(s) == s[Len(s)]
SumFn(f, lo, hi) == FoldLeft(LAMBDA acc, i : acc + f[i], 0, [k \in 1..(hi - lo + 1) |-> lo + k - 1])

(* ---- arrays ---- *)
Red(q) == IF q.d = 1 THEN q
          ELSE LET g == FoldLeft(LAMBDA a, b : IF a = 1 THEN 1 ELSE Gcd2(a, b), q.d, q.n)
               IN IF g = 1 THEN q ELSE [n |-> [i \in 1..Len(q.n) |-> q.n[i] \div g], d |-> q.d \div g]
QA(ns, dd) == Red(IF dd < 0 THEN [n |-> [i \in 1..Len(ns) |-> -ns[i]], d |-> -dd] ELSE [n |-> ns, d |-> dd])
QI(ns) == [n |-> ns, d |-> 1]
QLen(a) == Len(a.n)
QEq(a, b) == a = b      \* lowest terms are unique
QAdd(a, b) == LET m == Lcm(a.d, b.d) IN
              QA([i \in 1..Len(a.n) |-> a.n[i] * (m \div a.d) + b.n[i] * (m \div b.d)], m)
QNeg(a) == [n |-> [i \in 1..Len(a.n) |-> -a.n[i]], d |-> a.d]
QSub(a, b) == QAdd(a, QNeg(b))
QMulE(a, b) == QA([i \in 1..Len(a.n) |-> a.n[i] * b.n[i]], a.d * b.d)      \* element-wise
QScale(a, s) == QA([i \in 1..Len(a.n) |-> a.n[i] * s[1]], a.d * s[2])      \* s = <<p, q>>
QAddS(a, s) == QAdd(a, QA([i \in 1..Len(a.n) |-> s[1]], s[2]))
QGet(a, i) == LET g == Gcd2(a.n[i], a.d) IN <<a.n[i] \div g, a.d \div g>>
QSlice(a, lo, hi) == Red([n |-> SubSeq(a.n, lo, hi), d |-> a.d])
QConcat(a, b) == LET m == Lcm(a.d, b.d) IN
                 Red([n |-> [i \in 1..Len(a.n) |-> a.n[i] * (m \div a.d)] \o [i \in 1..Len(b.n) |-> b.n[i] * (m \div b.d)], d |-> m])
QPerm(a, f) == [n |-> [i \in 1..Len(a.n) |-> a.n[f[i]]], d |-> a.d]
QMaxAbs(a) == FoldLeft(LAMBDA x, y : IF Abs(y) > x THEN Abs(y) ELSE x, 0, a.n)

(* ---- matrices (flat, row-major) ---- *)
Eye(k) == QI([i \in 1..(k * k) |-> IF (i - 1) \div k = (i - 1) % k THEN 1 ELSE 0])
At(m, k, i, j) == m.n[i * k + j + 1]                  \* 0-based entry numerator of a matrix with k columns
MatT(m, r, c) == [n |-> [p \in 1..(r * c) |-> m.n[((p - 1) % r) * c + ((p - 1) \div r) + 1]], d |-> m.d]
\* (r x k) . (k x c)
MatMul(a, b, r, k, c) ==
  QA([p \in 1..(r * c) |-> LET i == (p - 1) \div c  j == (p - 1) % c IN
        SumSeq([l \in 1..k |-> a.n[i * k + l] * b.n[(l - 1) * c + j + 1]])], a.d * b.d)

\* integer determinant and cofactors of a k x k matrix given as a flat sequence
Minor(s, k, i, j) == LET idx == SelectSeq([p \in 1..(k * k) |-> p], LAMBDA p : (p - 1) \div k # i /\ (p - 1) % k # j)
                     IN [q \in 1..Len(idx) |-> s[idx[q]]]
RECURSIVE DetI(_, _)
DetI(s, k) == IF k = 0 THEN 1 ELSE IF k = 1 THEN s[1]
              ELSE IF k = 2 THEN s[1] * s[4] - s[2] * s[3]
              ELSE SumSeq([j \in 1..k |-> IF s[j] = 0 THEN 0
                             ELSE (IF j % 2 = 1 THEN 1 ELSE -1) * s[j] * DetI(Minor(s, k, 0, j - 1), k - 1)])
AdjI(s, k) == [p \in 1..(k * k) |-> LET i == (p - 1) \div k  j == (p - 1) % k IN
                 (IF (i + j) % 2 = 0 THEN 1 ELSE -1) * DetI(Minor(s, k, j, i), k - 1)]
QDet(m, k) == LET dn == DetI(m.n, k)  dd == Pow(m.d, k)  g == Gcd2(dn, dd) IN <<dn \div g, dd \div g>>
NonSing(m, k) == DetI(m.n, k) # 0
\* inverse:  (N/d)^-1 = d . adj(N) / det(N)
QInv(m, k) == LET dt == DetI(m.n, k)  ad == AdjI(m.n, k) IN
              Red(LET q == Red(IF dt > 0 THEN [n |-> ad, d |-> dt] ELSE [n |-> [i \in 1..Len(ad) |-> -ad[i]], d |-> -dt])
                  IN [n |-> [i \in 1..Len(q.n) |-> q.n[i] * m.d], d |-> q.d])

(* ---- tensors: flat arrays of (leading items x) D^r entries ---- *)
\* apply matrix m (D x D) to tensor index number k (0 = first of r) of every item
ApplyIdx(t, m, D, r, k) ==
  LET st == Pow(D, r - 1 - k) IN
  QA([p \in 1..Len(t.n) |->
        LET z == p - 1  dg == (z \div st) % D  b0 == z - dg * st IN
        SumSeq([j \in 1..D |-> m.n[dg * D + j] * t.n[b0 + (j - 1) * st + 1]])], m.d * t.d)
RECURSIVE ApplyAll(_, _, _, _, _)
ApplyAll(t, m, D, r, k) == IF k = r THEN t ELSE ApplyAll(ApplyIdx(t, m, D, r, k), m, D, r, k + 1)
Transform(t, m, D, r) == ApplyAll(t, m, D, r, 0)
\* reverse the order of the r tensor indices
RevIdx(p, D, r) == SumSeq([k \in 1..r |-> ((p \div Pow(D, k - 1)) % D) * Pow(D, r - k)])
TTrans(t, D, r) == LET sz == Pow(D, r) IN
                   [n |-> [p \in 1..Len(t.n) |-> t.n[((p - 1) \div sz) * sz + RevIdx((p - 1) % sz, D, r) + 1]], d |-> t.d]
=============================================================================
