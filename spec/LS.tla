--------------------------------- MODULE LS ---------------------------------
(***************************************************************************)
(* Plain, weighted and moving least-squares approximation by polynomials   *)
(* of total degree Deg in Dim variables, over data on an integer lattice.  *)
(* Data columns are built as  p(x_i) + s_i / w_i  where p is a polynomial  *)
(* of the approximating space and s is orthogonal to the space (a sum of   *)
(* finite difference stencils over equidistant collinear points).  The     *)
(* weighted least-squares fit of such a column is p itself, because        *)
(* E(p + d) = E(p) - 2 SUM s_i d(x_i) + SUM w_i d(x_i)^2  and the middle   *)
(* term is zero; points of zero weight may carry anything.                 *)
(* Coordinates here are lattice coordinates: the driver maps them by an    *)
(* arbitrary similarity, which changes nothing but the chain rule.         *)
(***************************************************************************)
EXTENDS Rat, Json, Functions

CONSTANTS Depth, Sim, Dim, Deg, Kinds, Weights, MaxOps, MaxCols
VARIABLES on, kind, wt, pts, cols, focus, ops, log
vars == <<on, kind, wt, pts, cols, focus, ops, log>>
Salt == ops + Len(log) + Len(pts) + Len(cols)
Pick(S) == IF Sim THEN (LET T == IF Salt < 0 THEN {} ELSE S IN IF T = {} THEN {} ELSE {RandomElement(T)}) ELSE S
More == Len(log) < Depth

\* ------------------------------------------------------------ the space of polynomials
Box(lo, hi) == [1..Dim -> lo..hi]
Total(e) == SumSeq([k \in 1..Dim |-> e[k]])
RECURSIVE Lex(_, _)
Lex(a, b) == IF Len(a) = 0 THEN FALSE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE Lex(Tail(a), Tail(b))
Tup(f) == [k \in 1..Dim |-> f[k]]
ExpsOf(n) == SetToSortSeq({Tup(e) : e \in {g \in Box(0, n) : Total(g) <= n}}, LAMBDA a, b : Lex(a, b))
Exps == ExpsOf(Deg)
K == Len(Exps)
Mono(e, x) == ProdSeq([k \in 1..Dim |-> Pow(x[k], e[k])])
Poly(c, x) == SumSeq([j \in 1..K |-> c[j] * Mono(Exps[j], x)])
\* derivative of monomial e with respect to the variables listed in ks
RECURSIVE DMono(_, _, _)
DMono(e, ks, x) == IF ks = <<>> THEN Mono(e, x)
  ELSE LET k == ks[1] IN IF e[k] = 0 THEN 0 ELSE e[k] * DMono([e EXCEPT ![k] = @ - 1], Tail(ks), x)
DPoly(c, ks, x) == SumSeq([j \in 1..K |-> c[j] * DMono(Exps[j], ks, x)])
Grad(c, x) == [k \in 1..Dim |-> DPoly(c, <<k>>, x)]
Hess(c, x) == [p \in 1..(Dim * Dim) |-> DPoly(c, <<((p - 1) \div Dim) + 1, ((p - 1) % Dim) + 1>>, x)]

\* ------------------------------------------------------------ weights
\* reciprocal of the weight of point p as <<n, d>>, or <<0, 1>> for weight zero
Cubic(d, sd) == IF 2 * d <= sd THEN 2 * sd * sd * sd - 12 * d * d * sd + 12 * d * d * d
                ELSE IF d <= sd THEN 4 * sd * sd * sd - 12 * d * sd * sd + 12 * d * d * sd - 4 * d * d * d ELSE 0
\* value, derivative and second derivative by the core coordinate, times sd^3 (3 sd^3 for the value)
CubicD(d0, sd) == LET d == Abs(d0) IN Sgn(d0) * (IF 2 * d <= sd THEN -8 * d * sd + 12 * d * d ELSE IF d <= sd THEN -4 * sd * sd + 8 * d * sd - 4 * d * d ELSE 0)
CubicDD(d0, sd) == LET d == Abs(d0) IN IF 2 * d <= sd THEN -8 * sd + 24 * d ELSE IF d <= sd THEN 8 * sd - 8 * d ELSE 0
Frac(n, d) == LET g == Gcd2(n, d) IN <<n \div g, d \div g>>
Recip(w, core, p) ==
  CASE w.k = "none" -> <<1, 1>>
    [] w.k = "const" -> IF w.sup /\ \E k \in 1..Dim : Abs(core[k] - p[k]) > w.sd[k] THEN <<0, 1>> ELSE <<1, w.v>>
    [] w.k = "sing" -> <<SumSeq([k \in 1..Dim |-> (core[k] - p[k]) * (core[k] - p[k])]) + w.v * w.v, 1>>
    [] w.k = "user" -> <<1, 1 + ((SumSeq([k \in 1..Dim |-> k * p[k]]) + w.v) % 3)>>
    [] w.k = "cubic" -> LET n == ProdSeq([k \in 1..Dim |-> Cubic(Abs(core[k] - p[k]), w.sd[k])]) IN
                        IF n = 0 THEN <<0, 1>> ELSE Frac(ProdSeq([k \in 1..Dim |-> 3 * Pow(w.sd[k], 3)]), n)
Carries(w, core, p) == Recip(w, core, p) # <<0, 1>>
\* the points of positive weight determine a polynomial: they contain a (scaled, reflected) principal lattice
Simplex == {Tup(e) : e \in {g \in Box(0, Deg) : Total(g) <= Deg}}
PtSet == {pts[i] : i \in 1..Len(pts)}
Unisolvent(S) == \E p \in S : \E s \in [1..Dim -> {-2, -1, 1, 2}] : \A a \in Simplex : [k \in 1..Dim |-> p[k] + s[k] * a[k]] \in S
Core == IF kind = "moving" THEN focus ELSE wt.core
Supported(core) == {p \in PtSet : Carries(wt, core, p)}
MovesWith(w) == (w.k = "const" /\ w.sup) \/ w.k \in {"sing", "cubic"}
Flat(w) == w.k \in {"none", "const", "user"}           \* the weights have zero derivatives
Determined(x) == IF Flat(wt) /\ ~MovesWith(wt) THEN TRUE ELSE IF wt.k = "sing" THEN TRUE ELSE Unisolvent(Supported(IF kind = "moving" THEN x ELSE wt.core))

\* ------------------------------------------------------------ building the data
\* focus of a moving approximation: the point at which the residuals are orthogonal
Start == /\ ~on
  /\ \E kd \in Pick(Kinds) : \E wk \in Pick(IF kd = "plain" THEN {"none"} ELSE Weights) : \E c \in Pick(IF Sim THEN Box(0, Deg + 1) ELSE {[k \in 1..Dim |-> 1]}) : \E v \in Pick(IF Sim THEN {1, 2, 3} ELSE {2}) :
     \E sd \in Pick(IF Sim THEN [1..Dim -> 2..5] ELSE {[k \in 1..Dim |-> 3 + (k % 2)]}) : \E sup \in Pick({TRUE, FALSE}) :
       /\ kind' = kd
       /\ wt' = [k |-> wk, v |-> v, sd |-> Tup(sd), core |-> Tup(c), sup |-> sup]
       /\ focus' = Tup(c)
       /\ pts' = SetToSortSeq({Tup(e) : e \in {g \in Box(0, Deg + 1) : Total(g) <= Deg + 1}}, LAMBDA a, b : Lex(a, b))
       /\ cols' = <<>> /\ on' = TRUE /\ ops' = 0
       /\ log' = <<>>
AddPoint == /\ on /\ More /\ cols = <<>> /\ Len(pts) < (IF Sim THEN 40 ELSE Deg + 2 + Dim * 3)
  /\ \E p \in Pick(IF Sim THEN Box(-2, 5) ELSE {[k \in 1..Dim |-> Deg + 2], [k \in 1..Dim |-> IF k = 1 THEN -1 ELSE 0]}) : Tup(p) \notin PtSet /\ pts' = Append(pts, Tup(p))
  /\ UNCHANGED <<on, kind, wt, cols, focus, ops, log>>
\* coefficient vectors, enumerated by a number
Coef(z, j) == IF Sim THEN ((((z * (2 * j + 1)) \div 7) + j * j) % 9) - 4 ELSE ((z + j) % 3) - 1
AddCol == /\ on /\ More /\ Len(cols) < MaxCols /\ Determined(Core)
  /\ \E z \in Pick(IF Sim THEN 0..99999 ELSE {0, 1}) :
       cols' = Append(cols, [c |-> [j \in 1..K |-> Coef(z, j)], s |-> [i \in 1..Len(pts) |-> 0], g |-> [i \in 1..Len(pts) |-> 0], pure |-> TRUE])
  /\ UNCHANGED <<on, kind, wt, pts, focus, ops, log>>
Binom(n, k) == ProdSeq([i \in 1..k |-> n - k + i]) \div ProdSeq([i \in 1..k |-> i])
Stencil(k) == (IF k % 2 = 0 THEN 1 ELSE -1) * Binom(Deg + 1, k)
IndexOf(p) == CHOOSE i \in 1..Len(pts) : pts[i] = p
Lines == {<<p, e>> \in PtSet \X {Tup(d) : d \in IF Dim = 3 THEN Box(0, 1) ELSE Box(-2, 2)} : (\E k \in 1..Dim : e[k] # 0) /\ \A k \in 0..(Deg + 1) :
            LET z == [l \in 1..Dim |-> p[l] + k * e[l]] IN z \in PtSet /\ Carries(wt, Core, z)}
\* a residual orthogonal to the space
Bump == /\ on /\ More /\ ops < MaxOps /\ cols # <<>> /\ ops' = ops + 1
  /\ \E j \in Pick(1..Len(cols)) : \E ln \in Pick(Lines) : \E m \in Pick(IF Sim THEN {-2, -1, 1, 2} ELSE {1}) :
       cols' = [cols EXCEPT ![j].s = [i \in 1..Len(pts) |-> LET ks == {k \in 0..(Deg + 1) : pts[i] = [l \in 1..Dim |-> ln[1][l] + k * ln[2][l]]} IN
                  cols[j].s[i] + (IF ks = {} THEN 0 ELSE m * Stencil(CHOOSE k \in ks : TRUE))], ![j].pure = FALSE]
  /\ UNCHANGED <<on, kind, wt, pts, focus, log>>
\* anything at a point that carries no weight
Garbage == /\ on /\ More /\ ops < MaxOps /\ cols # <<>> /\ ops' = ops + 1
  /\ \E j \in Pick(1..Len(cols)) : \E i \in Pick({i \in 1..Len(pts) : ~Carries(wt, Core, pts[i])}) :
       cols' = [cols EXCEPT ![j].g[i] = 1000, ![j].pure = FALSE]
  /\ UNCHANGED <<on, kind, wt, pts, focus, log>>
ScaleCol == /\ on /\ More /\ ops < MaxOps /\ cols # <<>> /\ ops' = ops + 1
  /\ \E j \in Pick(1..Len(cols)) : cols' = [cols EXCEPT ![j].c = [i \in 1..K |-> -2 * cols[j].c[i]], ![j].s = [i \in 1..Len(pts) |-> -2 * cols[j].s[i]]]
  /\ (\A c \in Range(cols[1].c) : Abs(c) < 50)
  /\ UNCHANGED <<on, kind, wt, pts, focus, log>>

\* ------------------------------------------------------------ evaluating the approximation
\* which columns have a specified value (and derivatives) at x
Val(j, x) == IF kind = "moving" /\ MovesWith(wt) /\ x # focus THEN cols[j].pure ELSE TRUE
Der(j, x) == Val(j, x) /\ (cols[j].pure \/ Flat(wt))
Datum(j, i) == LET r == Recip(wt, Core, pts[i]) IN Frac(Poly(cols[j].c, pts[i]) * r[2] + cols[j].s[i] * r[1] + cols[j].g[i] * r[2], r[2])
Eval == /\ on /\ More /\ cols # <<>>
  /\ \E x \in Pick(IF Sim THEN {focus, RandomElement(IF Salt < 0 THEN {} ELSE Box(-1, 4))} ELSE {focus, [k \in 1..Dim |-> 1]}) :
       /\ Determined(x)
       /\ log' = Append(log, [x |-> Tup(x), val |-> [j \in 1..Len(cols) |-> Val(j, x)], der |-> [j \in 1..Len(cols) |-> Der(j, x)],
            f |-> [j \in 1..Len(cols) |-> Poly(cols[j].c, x)], g |-> [j \in 1..Len(cols) |-> Grad(cols[j].c, x)], h |-> [j \in 1..Len(cols) |-> Hess(cols[j].c, x)],
            data |-> [j \in 1..Len(cols) |-> [i \in 1..Len(pts) |-> Datum(j, i)]]])
  /\ UNCHANGED <<on, kind, wt, pts, cols, focus>> /\ ops' = IF Sim THEN 0 ELSE ops

Init == on = FALSE /\ kind = "plain" /\ wt = [k |-> "none"] /\ pts = <<>> /\ cols = <<>> /\ focus = <<>> /\ ops = 0 /\ log = <<>>
Next == Start \/ AddPoint \/ AddCol \/ Bump \/ Garbage \/ ScaleCol \/ Eval
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------ properties
\* the residual is orthogonal to every polynomial of the space, hence p is the best approximation
Orthogonal == on => \A j \in 1..Len(cols) : \A m \in 1..K : SumSeq([i \in 1..Len(pts) |-> cols[j].s[i] * Mono(Exps[m], pts[i])]) = 0
OnlyWeighted == on => \A j \in 1..Len(cols) : \A i \in 1..Len(pts) : ~Carries(wt, Core, pts[i]) => cols[j].s[i] = 0
\* optimality itself, with unit weights: no neighbour in coefficient space does better
Err(j, c) == SumSeq([i \in 1..Len(pts) |-> LET d == Poly(cols[j].c, pts[i]) + cols[j].s[i] - Poly(c, pts[i]) IN d * d])
Optimal == (on /\ wt.k = "none") => \A j \in 1..Len(cols) : \A m \in 1..K : \A dl \in {-1, 1} : Err(j, [cols[j].c EXCEPT ![m] = @ + dl]) > Err(j, cols[j].c)
Distinct == on => \A a, b \in 1..Len(pts) : a # b => pts[a] # pts[b]
WeightsPositive == on => \A i \in 1..Len(pts) : LET r == Recip(wt, Core, pts[i]) IN r[1] >= 0 /\ r[2] > 0

View == <<on, kind, wt, pts, cols, focus, ops, Len(log)>>
AxisTab(k) == [i \in 1..(2 * wt.sd[k] + 3) |-> LET d == i - wt.sd[k] - 2 IN [d |-> d, v |-> Cubic(Abs(d), wt.sd[k]), g |-> CubicD(d, wt.sd[k]), h |-> CubicDD(d, wt.sd[k])]]
Emit == (Sim /\ Len(log) = Depth) => PrintT("@@" \o ToJson([dim |-> Dim, deg |-> Deg, kind |-> kind, wt |-> wt, pts |-> pts, log |-> log, tab |-> [k \in 1..Dim |-> AxisTab(k)]]))
=============================================================================
