------------------------------- MODULE Arrays -------------------------------
(***************************************************************************)
(* Array utilities as transitions on a matrix a of integers.  Every call   *)
(* is logged with its input and the result its definition prescribes; some *)
(* calls (block repetition, flattening, clipping, products, row selection) *)
(* produce the next matrix, so that results are used as inputs.            *)
(***************************************************************************)
EXTENDS Rat, Json

CONSTANTS Depth, Sim, Ops,
          Cap        \* the largest number of rows and of columns of a matrix
VARIABLES a, log
vars == <<a, log>>
Salt == Len(log)
Pick(S) == IF Sim THEN (LET T == IF Salt < 0 THEN {} ELSE S IN IF T = {} THEN {} ELSE {RandomElement(T)}) ELSE S
More == Len(log) < Depth

\* ------------------------------------------------------------ matrices
R == a.r
C == a.c
M(r, c, v) == [r |-> r, c |-> c, v |-> v]
Ent(m, i, j) == m.v[(i - 1) * m.c + j]
Mk(r, c, f(_, _)) == M(r, c, [p \in 1..(r * c) |-> f(((p - 1) \div c) + 1, ((p - 1) % c) + 1)])
Row(m, i) == [j \in 1..m.c |-> Ent(m, i, j)]
Trans(m) == Mk(m.c, m.r, LAMBDA i, j : Ent(m, j, i))
Small(m) == m.r <= Cap /\ m.c <= Cap /\ \A p \in 1..Len(m.v) : Abs(m.v[p]) <= 99
\* a matrix of the given shape enumerated by a number
Gen(r, c, z) == M(r, c, [p \in 1..(r * c) |-> ((((z * (2 * p + 1)) \div 5) + p * p) % 7) - 3])
Zs == IF Sim THEN 0..9999 ELSE {1, 5}
Ns == IF Sim THEN 1..(IF Cap > 5 THEN 9 ELSE 4) ELSE {1, 3}

Do(op, arg, out, nxt) == /\ log' = Append(log, [op |-> op, in |-> a, arg |-> arg, out |-> out])
                         /\ a' = IF Small(nxt) THEN nxt ELSE a

\* ------------------------------------------------------------ definitions
Rep(m, n) == FoldLeft(LAMBDA s, k : s \o m.v, <<>>, [k \in 1..n |-> k])
TileV(m, d, n) == FoldLeft(LAMBDA s, k : s \o [p \in 1..Len(m.v) |-> m.v[p] + (k - 1) * d.v[p]], <<>>, [k \in 1..n |-> k])
Block(m, n) == Mk(m.r * n, m.c * n, LAMBDA i, j : IF (i - 1) \div m.r = (j - 1) \div m.c THEN Ent(m, ((i - 1) % m.r) + 1, ((j - 1) % m.c) + 1) ELSE 0)
FlatC(m) == m.v
FlatF(m) == Trans(m).v
ClipE(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
\* the affine map taking s0 to t0 and s1 to t1, over the common denominator s1 - s0
ToRange(v, s0, s1, t0, t1) == QA([p \in 1..Len(v) |-> t0 * (s1 - s0) + (v[p] - s0) * (t1 - t0)], s1 - s0)
EqualRows(x, y) == SetToSortSeq({<<i, j>> \in (1..x.r) \X (1..y.r) : Row(x, i) = Row(y, j)}, LAMBDA p, q : p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2]))
PathTo(p, q, n) == IF n = 1 THEN QI(p) ELSE QA([k \in 1..(n * Len(p)) |-> LET i == (k - 1) \div Len(p)  j == ((k - 1) % Len(p)) + 1 IN p[j] * (n - 1) + i * (q[j] - p[j])], n - 1)
\* half-open bins, the last one closed
InBin(x, e, k) == e[k] <= x /\ (x < e[k + 1] \/ (k = Len(e) - 1 /\ x = e[k + 1]))
Counts(v, e) == [k \in 1..(Len(e) - 1) |-> Cardinality({p \in 1..Len(v) : InBin(v[p], e, k)})]
Centers2(e) == [k \in 1..(Len(e) - 1) |-> e[k] + e[k + 1]]
Triplets(m) == SelectSeq([p \in 1..(m.r * m.c) |-> <<m.v[p], ((p - 1) \div m.c) + 1, ((p - 1) % m.c) + 1>>], LAMBDA t : t[1] # 0)
Low(m) == SelectSeq(Triplets(m), LAMBDA t : t[2] >= t[3])
Upp(m) == SelectSeq(Triplets(m), LAMBDA t : t[2] <= t[3])
Mul(x, y) == Mk(x.r, y.c, LAMBDA i, j : SumSeq([k \in 1..x.c |-> Ent(x, i, k) * Ent(y, k, j)]))
Scaled(m, w) == M(m.r, m.c, [p \in 1..Len(m.v) |-> w * m.v[p]])
\* tolerances are whole tenths:  |x - y| <= at/10  and  |x - y| <= rt/10 |y|
Near(x, y, at, rt) == (at = 0 \/ 10 * Abs(x - y) <= at) /\ (rt = 0 \/ 10 * Abs(x - y) <= rt * Abs(y))
Mx(v) == FoldLeft(LAMBDA p, q : IF q > p THEN q ELSE p, v[1], v)
Mn(v) == FoldLeft(LAMBDA p, q : IF q < p THEN q ELSE p, v[1], v)
Distinct(v) == {v[p] : p \in 1..Len(v)}

\* ------------------------------------------------------------ transitions
Repeat == "repeat" \in Ops /\ More /\ \E n \in Pick(Ns) : Do("repeat", [n |-> n], Rep(a, n), a)
Tile == "tile" \in Ops /\ More /\ \E n \in Pick(Ns) : \E z \in Pick(Zs) : LET d == Gen(R, C, z) IN Do("tile", [n |-> n, da |-> d.v], TileV(a, d, n), a)
Diag == "diag" \in Ops /\ More /\ \E n \in Pick(Ns) : LET b == Block(a, n) IN Do("diag", [n |-> n], b.v, b)
FlattenC == "flat" \in Ops /\ More /\ Do("flatC", <<>>, FlatC(a), M(1, R * C, FlatC(a)))
FlattenF == "flat" \in Ops /\ More /\ Do("flatF", <<>>, FlatF(a), M(1, R * C, FlatF(a)))
Clip == "clip" \in Ops /\ More /\ \E lo \in Pick(-2..2) : \E w \in Pick(0..3) : LET b == M(R, C, [p \in 1..(R * C) |-> ClipE(a.v[p], lo, lo + w)]) IN Do("clip", [lo |-> lo, hi |-> lo + w], b.v, b)
Map == "range" \in Ops /\ More /\ \E s0 \in Pick(-3..3) : \E sw \in Pick({-2, 1, 2, 5}) : \E t0 \in Pick(-2..2) : \E tw \in Pick(-3..3) :
         Do("range", [s |-> <<s0, s0 + sw>>, t |-> <<t0, t0 + tw>>], ToRange(a.v, s0, s0 + sw, t0, t0 + tw), a)
\* positions within a space of distinct values, in a scrambled order
Scramble(S, z) == SetToSortSeq(S, LAMBDA x, y : LET h(q) == ((q + 200) * (z + 3)) % 211 IN h(x) < h(y) \/ (h(x) = h(y) /\ x < y))
Find == "find" \in Ops /\ More /\ \E z \in Pick(IF Sim THEN 0..50 ELSE {1, 4}) : \E extra \in Pick({{}, {101}, {-101, 102}}) :
          LET s == Scramble(Distinct(a.v) \cup extra, z) IN Do("find", [space |-> s], [p \in 1..(R * C) |-> (CHOOSE k \in 1..Len(s) : s[k] = a.v[p]) - 1], a)
\* rows are compared with a matrix made of rows of a (possibly repeated, possibly changed in one entry)
Match == "match" \in Ops /\ More /\ \E n \in Pick(Ns \cup {R}) : \E z \in Pick(Zs) : \E bad \in Pick(0..n) : \E col \in Pick(1..C) : \E anti \in Pick(IF Sim THEN {0, -1, 2} ELSE {0, -1}) :
           LET b == Mk(n, C, LAMBDA i, j : Ent(a, (((z \div Pow(3, (i - 1) % 5)) + i) % R) + 1, j) + (IF i # bad THEN 0 ELSE IF j = col THEN 1 ELSE IF j = (col % C) + 1 THEN anti ELSE 0)) IN Do("match", [b |-> b], EqualRows(a, b), b)
\* row lengths of a ragged structure
CsrCount == "csr" \in Ops /\ More /\ \E z \in Pick(Zs) : \E n \in Pick(1..5) :
           LET k == [i \in 1..n |-> (((z \div Pow(3, i - 1)) + i) % 4)] IN Do("csr", [counts |-> k], k, a)
Lift == "lift" \in Ops /\ More /\ \E n \in Pick(1..4) : \E how \in Pick({"front", "back", "both", "none"}) : \E nd \in Pick(1..2) :
          LET sh == IF nd = 1 THEN <<R * C>> ELSE <<R, C>>  k == IF n > nd THEN n - nd ELSE 0  ones == [i \in 1..k |-> 1] IN
          Do("lift", [n |-> n, how |-> how, nd |-> nd], IF how = "front" THEN ones \o sh ELSE sh \o ones, a)
Path == "path" \in Ops /\ More /\ \E n \in Pick(1..5) : \E i \in Pick(1..R) : \E j \in Pick(1..R) : Do("path", [n |-> n, p |-> Row(a, i), q |-> Row(a, j)], PathTo(Row(a, i), Row(a, j), n), a)
Hist == "hist" \in Ops /\ More /\ \E e0 \in Pick(-4..0) : \E w \in Pick({<<1, 1>>, <<2, 1, 3>>, <<1, 2, 2, 1>>, <<3>>}) :
          LET e == [k \in 1..(Len(w) + 1) |-> e0 + SumSeq(SubSeq(w, 1, k - 1))] IN Do("hist", [e |-> e], [counts |-> Counts(a.v, e), centers2 |-> Centers2(e)], a)
Bool == "bool" \in Ops /\ More /\ \E t \in Pick({1, 5}) : \E f \in Pick({0, -2}) : Do("bool", [t |-> t, f |-> f], [p \in 1..(R * C) |-> IF a.v[p] > 0 THEN t ELSE f], a)
Parts == "parts" \in Ops /\ More /\ Do("parts", [all |-> Triplets(a)], [low |-> Low(a), upp |-> Upp(a)], a)
Product == "mul" \in Ops /\ More /\ \E z \in Pick(Zs) : \E k \in Pick(1..3) : \E w \in Pick({-2, 1, 3}) :
          LET b == Gen(C, k, z)  g == Gen(R, k, z + 1)  s == Gen(R, R, z + 2) IN
          Do("mul", [b |-> b, g |-> g, s |-> s, w |-> w], [ab |-> Mul(a, b).v, wab |-> Scaled(Mul(a, b), w).v, atg |-> Mul(Trans(a), g).v, atsa |-> Mul(Mul(Trans(a), s), a).v,
                                            watsa |-> Scaled(Mul(Mul(Trans(a), s), a), w).v], Mul(a, b))
Close == "close" \in Ops /\ More /\ \E z \in Pick(Zs) : \E at \in Pick({0, 10, 20}) : \E rt \in Pick({0, 5, 10}) : (at # 0 \/ rt # 0) /\
          LET b == M(R, C, [p \in 1..(R * C) |-> a.v[p] + Gen(R, C, z).v[p]]) IN Do("close", [b |-> b.v, at |-> at, rt |-> rt], [p \in 1..(R * C) |-> Near(a.v[p], b.v[p], at, rt)], b)
MinMax == "minmax" \in Ops /\ More /\ Do("minmax", <<>>, <<Mn(a.v), Mx(a.v)>>, a)
Refresh == More /\ Sim /\ \E r \in Pick(1..(Cap - 1)) : \E c \in Pick(1..(Cap - 1)) : \E z \in Pick(Zs) : a' = Gen(r, c, z) /\ UNCHANGED log

Init == a = Gen(2, 3, 4) /\ log = <<>>
Next == Repeat \/ Tile \/ Diag \/ FlattenC \/ FlattenF \/ Clip \/ Map \/ Find \/ Match \/ CsrCount \/ Lift \/ Path \/ Hist \/ Bool \/ Parts \/ Product \/ Close \/ MinMax \/ Refresh
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------ laws connecting the definitions
L == log[Len(log)]
IsPerm(s, t) == \A x \in Distinct(s) \cup Distinct(t) : Cardinality({p \in 1..Len(s) : s[p] = x}) = Cardinality({p \in 1..Len(t) : t[p] = x})
WellFormed == Len(a.v) = R * C /\ R >= 1 /\ C >= 1
Laws == log # <<>> =>
  CASE L.op = "repeat" -> Len(L.out) = L.arg.n * Len(L.in.v) /\ SumSeq(L.out) = L.arg.n * SumSeq(L.in.v)
    [] L.op = "tile" -> 2 * SumSeq(L.out) = 2 * L.arg.n * SumSeq(L.in.v) + L.arg.n * (L.arg.n - 1) * SumSeq(L.arg.da)
    [] L.op = "diag" -> SumSeq(L.out) = L.arg.n * SumSeq(L.in.v) /\ Len(L.out) = L.arg.n * L.arg.n * Len(L.in.v)
    [] L.op = "flatF" -> L.out = FlatC(Trans(L.in)) /\ IsPerm(L.out, L.in.v)
    [] L.op = "clip" -> \A p \in 1..Len(L.out) : L.out[p] \in L.arg.lo..L.arg.hi /\ (L.in.v[p] \in L.arg.lo..L.arg.hi => L.out[p] = L.in.v[p])
    [] L.op = "range" -> \A p \in 1..Len(L.in.v) : L.in.v[p] = L.arg.s[1] => QGet(L.out, p) = <<L.arg.t[1], 1>>
    [] L.op = "find" -> \A p \in 1..Len(L.out) : L.arg.space[L.out[p] + 1] = L.in.v[p]
    [] L.op = "match" -> \A i \in 1..L.in.r : \A j \in 1..L.arg.b.r : (<<i, j>> \in {L.out[k] : k \in 1..Len(L.out)}) <=> (<<j, i>> \in {EqualRows(L.arg.b, L.in)[k] : k \in 1..Len(L.out)})
    [] L.op = "path" -> LET d == Len(L.arg.p) IN QSlice(L.out, 1, d) = QI(L.arg.p) /\ (L.arg.n > 1 => QSlice(L.out, (L.arg.n - 1) * d + 1, L.arg.n * d) = QI(L.arg.q))
    [] L.op = "hist" -> SumSeq(L.out.counts) = Cardinality({p \in 1..Len(L.in.v) : L.in.v[p] >= L.arg.e[1] /\ L.in.v[p] <= L.arg.e[Len(L.arg.e)]})
    [] L.op = "parts" -> Len(L.out.low) + Len(L.out.upp) = Len(L.arg.all) + Cardinality({k \in 1..Len(L.arg.all) : L.arg.all[k][2] = L.arg.all[k][3]})
    [] L.op = "lift" -> Len(L.out) >= L.arg.n /\ ProdSeq(L.out) = Len(L.in.v)
    [] OTHER -> TRUE
View == <<a, Len(log), IF log = <<>> THEN <<>> ELSE L>>
Emit == (Sim /\ Len(log) = Depth) => PrintT("@@" \o ToJson([log |-> log]))
=============================================================================
