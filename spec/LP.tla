--------------------------------- MODULE LP ---------------------------------
(***************************************************************************)
(* Linear programs stated step by step (objective, constraints, bounds,    *)
(* integrality) and solved in several ways.  The outcome is exact: every   *)
(* optimum of a rational program is attained at an intersection of n of    *)
(* its hyperplanes; a box larger than every such point (its planes being   *)
(* added) makes the program bounded, and doubling the box tells unbounded  *)
(* programs.                                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC, Json

CONSTANTS N, Depth, Sim, MaxCons, CMax, BMax, Box, Ints
VARIABLES obj,     \* [c, k]: coefficients and constant
          cons,    \* sequence of [a, op, b]
          lo, hi,  \* bounds, None = 99
          int,     \* set of integer variables
          log
vars == <<obj, cons, lo, hi, int, log>>
Idx == 1..N
None == 99

Salt == Len(log)
Pick(S) == IF Sim THEN (LET T == IF Salt < 0 THEN {} ELSE S IN IF T = {} THEN {} ELSE {RandomElement(T)}) ELSE S

\* ------------------------------------------------------------ exact geometry
Det(M) == CASE N = 1 -> M[1][1]
            [] N = 2 -> M[1][1] * M[2][2] - M[1][2] * M[2][1]
            [] N = 3 -> M[1][1] * (M[2][2] * M[3][3] - M[2][3] * M[3][2]) - M[1][2] * (M[2][1] * M[3][3] - M[2][3] * M[3][1])
                        + M[1][3] * (M[2][1] * M[3][2] - M[2][2] * M[3][1])
RECURSIVE DotTo(_, _, _)
DotTo(a, x, i) == IF i = 0 THEN 0 ELSE a[i] * x[i] + DotTo(a, x, i - 1)
Dot(a, x) == DotTo(a, x, N)
E(i) == [j \in Idx |-> IF j = i THEN 1 ELSE 0]
\* planes are tuples <<a1, .., aN, b>>
Plane(a, b) == [j \in 1..(N + 1) |-> IF j <= N THEN a[j] ELSE b]
Planes(cs, l, h, ii, B) ==
  {Plane(cs[m].a, cs[m].b) : m \in 1..Len(cs)}
  \cup {Plane(E(i), l[i]) : i \in {i \in Idx : l[i] # None}} \cup {Plane(E(i), h[i]) : i \in {i \in Idx : h[i] # None}}
  \cup {Plane(E(i), B) : i \in {i \in Idx : h[i] = None}} \cup {Plane(E(i), -B) : i \in {i \in Idx : l[i] = None}}
  \cup UNION {{Plane(E(i), v) : v \in Ints} : i \in ii}
Sat(op, l, r) == CASE op = "=" -> l = r [] op \in {"<=", "<"} -> l <= r [] op \in {">=", ">"} -> l >= r   \* strict ones as their closure
\* x = v.n / v.d with v.d > 0
Feasible(v, cs, l, h, ii, B) ==
  /\ \A m \in 1..Len(cs) : Sat(cs[m].op, Dot(cs[m].a, v.n), cs[m].b * v.d)
  /\ \A i \in Idx : (IF l[i] = None THEN v.n[i] >= -B * v.d ELSE v.n[i] >= l[i] * v.d) /\ (IF h[i] = None THEN v.n[i] <= B * v.d ELSE v.n[i] <= h[i] * v.d)
  /\ \A i \in ii : v.n[i] % v.d = 0
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
Meet(Q) == LET s == SetSeq(Q)
               d == Det(s)
               u == [i \in Idx |-> Det([r \in Idx |-> [j \in Idx |-> IF j = i THEN s[r][N + 1] ELSE s[r][j]]])]
           IN IF d = 0 THEN [n |-> u, d |-> 0] ELSE IF d < 0 THEN [n |-> [i \in Idx |-> -u[i]], d |-> -d] ELSE [n |-> u, d |-> d]
Vertices(cs, l, h, ii, B) ==
  {v \in {Meet(Q) : Q \in kSubset(N, Planes(cs, l, h, ii, B))} : v.d # 0 /\ Feasible(v, cs, l, h, ii, B)}
\* objective values c.x as fractions, in lowest terms
RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN (IF a < 0 THEN -a ELSE a) ELSE GCD(b, a % b)
Red(n, d) == LET g == GCD(n, d) IN <<n \div g, d \div g>>
Vals(c, V) == {Red(Dot(c, v.n), v.d) : v \in V}
Least(F) == CHOOSE f \in F : \A g \in F : f[1] * g[2] <= g[1] * f[2]
MinOver(c, cs, l, h, ii, B) == LET V == Vertices(cs, l, h, ii, B) IN IF V = {} THEN <<0, 0>> ELSE Least(Vals(c, V))     \* <<0,0>>: infeasible
Neg(c) == [i \in Idx |-> -c[i]]
Outcome(c, k, cs, l, h, ii, max) ==
  LET cc == IF max THEN Neg(c) ELSE c
      f1 == MinOver(cc, cs, l, h, ii, Box)
      f2 == IF f1[2] = 0 THEN f1 ELSE MinOver(cc, cs, l, h, ii, 2 * Box)
  IN IF f1[2] = 0 THEN [s |-> "infeasible", n |-> 0, d |-> 1]
     ELSE IF f1 # f2 THEN [s |-> "unbounded", n |-> 0, d |-> 1]
     ELSE [s |-> "optimal", n |-> (IF max THEN -f1[1] ELSE f1[1]) + k * f1[2], d |-> f1[2]]

\* ------------------------------------------------------------ stating a problem
Coefs(k) == [i \in Idx |-> ((k * (2 * i + 3) + (k \div 7) * i + (k \div 31) * (i + 1)) % (2 * CMax + 1)) - CMax]
Nonzero(k) == IF \A i \in Idx : Coefs(k)[i] = 0 THEN E((k % N) + 1) ELSE Coefs(k)
Row(k) == IF Sim /\ k % 23 = 0 THEN [i \in Idx |-> 0] ELSE Nonzero(k)          \* a constraint may say nothing about the variables
ObjC(k) == IF Sim /\ k % 9 = 0 THEN [i \in Idx |-> 0] ELSE Nonzero(k)     \* with a constant objective any feasible point will do
Ks == IF Sim THEN 0..9999 ELSE {1, 5, 12, 20}
Forms == IF Sim THEN {"text", "expr", "enum", "opstr", "callable", "subclass"} ELSE {"text"}
Say(e) == log' = Append(log, e)
More == Len(log) < Depth
Ops == IF Sim THEN {"<=", ">=", "=", "<", ">", "<=", ">="} ELSE {"<=", ">=", "="}
Flip(op) == CASE op = "<=" -> ">=" [] op = ">=" -> "<=" [] op = "<" -> ">" [] op = ">" -> "<" [] op = "=" -> "="
Objective == \E k \in Pick(Ks), c0 \in Pick(-5..5), form \in Pick({"text", "expr", "scaled"}), vs \in Pick({"all", "perm", "used"}), mul \in Pick(IF Sim THEN 0..6 ELSE {0}) :
  /\ More /\ obj' = [c |-> ObjC(k), k |-> IF Sim THEN c0 ELSE 0]
  /\ (Sim \/ (c0 = 0 /\ form = "text" /\ vs = "all"))
  /\ UNCHANGED <<cons, lo, hi, int>> /\ Say([a |-> "Objective", c |-> ObjC(k), k |-> obj'.k, form |-> form, vs |-> vs, mul |-> mul])
Constrain == \E k \in Pick(Ks), b \in Pick(IF Sim THEN -BMax..BMax ELSE {-3, 0, 4}), op \in Pick(Ops), form \in Pick(Forms), vs \in Pick(IF Sim THEN {"all", "perm", "used"} ELSE {"all"}),
                sides \in Pick(IF Sim THEN 0..15 ELSE {0}), mul \in Pick(IF Sim THEN {1, -1, 2, -3, 11, 12, 13, 14, 15, 16} ELSE {1}) :
  /\ More /\ Len(cons) < MaxCons
  /\ cons' = Append(cons, [a |-> Row(k), op |-> op, b |-> b])
  /\ UNCHANGED <<obj, lo, hi, int>>
  /\ Say([a |-> "Constrain", row |-> Row(k), op |-> op, b |-> b, form |-> form, vs |-> vs, sides |-> sides, mul |-> mul])
\* the left hand side of a constraint stated before, once more (like: written in the same way), e.g. the other end of a range
Again == /\ More /\ Len(cons) \in 1..(MaxCons - 1) /\ Sim
  /\ \E m \in Pick(1..Len(cons)), op \in Pick(Ops), db \in Pick({0, 1, -2}), like \in Pick(BOOLEAN), form \in Pick(Forms), mul \in Pick({1, -1, 12}) :
     LET q == [a |-> cons[m].a, op |-> op, b |-> cons[m].b + db] IN
     /\ cons' = Append(cons, q) /\ UNCHANGED <<obj, lo, hi, int>>
     /\ Say([a |-> "Again", m |-> m, row |-> q.a, op |-> op, b |-> q.b, like |-> like, form |-> form, vs |-> "all", sides |-> 0, mul |-> mul])
Drop == /\ More /\ Len(cons) >= 2 /\ Sim
  /\ \E m \in Pick({m \in 1..Len(cons) : \A i \in int : cons[m].a # E(i)}) :
     /\ cons' = SubSeq(cons, 1, m - 1) \o SubSeq(cons, m + 1, Len(cons)) /\ UNCHANGED <<obj, lo, hi, int>> /\ Say([a |-> "Drop", m |-> m])
Los == IF Sim THEN {0, 0, 0, None, -3, 1, -1} ELSE {0, None}
His == IF Sim THEN {None, None, 2, 5, 4} ELSE {None, 3}
Bound == \E i \in Pick(Idx), l \in Pick(Los), h \in Pick(His) :
  /\ More /\ i \notin int /\ lo' = [lo EXCEPT ![i] = l] /\ hi' = [hi EXCEPT ![i] = h] /\ UNCHANGED <<obj, cons, int>>
  /\ Say([a |-> "Bound", i |-> i, lo |-> l, hi |-> h])
\* an integer variable gets finite bounds within Ints
MinI == CHOOSE v \in Ints : \A w \in Ints : v <= w
MaxI == CHOOSE v \in Ints : \A w \in Ints : v >= w
MakeInt == \E i \in Pick(Idx), by \in Pick({"bounds", "constraint"}) :
  /\ More /\ i \notin int /\ int' = int \cup {i}
  /\ LET b == IF Len(cons) >= MaxCons \/ MinI > 0 THEN "bounds" ELSE by IN
     /\ lo' = [lo EXCEPT ![i] = IF b = "bounds" THEN MinI ELSE 0]
     /\ hi' = [hi EXCEPT ![i] = IF b = "bounds" THEN MaxI ELSE None]
     /\ cons' = IF b = "bounds" THEN cons ELSE Append(cons, [a |-> E(i), op |-> "<=", b |-> MaxI])
     /\ UNCHANGED obj /\ Say([a |-> "MakeInt", i |-> i, by |-> b, lo |-> MinI, hi |-> MaxI])
Methods == IF Sim THEN (IF int = {} THEN {"default", "highs", "highs-ds", "highs-ipm"} ELSE {"default", "highs"}) ELSE {"default"}
Solve == \E max \in Pick(BOOLEAN), meth \in Pick(Methods), late \in Pick(BOOLEAN), sparse \in Pick(IF Sim THEN BOOLEAN ELSE {TRUE}), ord \in Pick(IF Sim THEN 0..5 ELSE {0}), how \in Pick(IF Sim THEN {"given", "inferred", "given"} ELSE {"given"}), rev \in Pick(IF Sim THEN BOOLEAN ELSE {FALSE}) :
  /\ More
  /\ \A i \in int : hi[i] = None => \E m \in 1..Len(cons) : cons[m].a = E(i) /\ cons[m].b \in Ints /\ cons[m].op \in {"<=", "<"}
  /\ (Sim \/ ~late)
  /\ Say([a |-> "Solve", max |-> max, meth |-> meth, late |-> late, sparse |-> sparse, ord |-> ord, how |-> how, rev |-> rev, out |-> Outcome(obj.c, obj.k, cons, lo, hi, int, max), int |-> [i \in Idx |-> i \in int]])
  /\ UNCHANGED <<obj, cons, lo, hi, int>>

\* what is no linear program of the declared variables: a term of higher degree, a foreign variable, another kind of object, ...
Wrongs == IF Sim THEN {"square", "product", "reciprocal", "root", "foreign", "object", "numeric", "undeclared", "noop"} ELSE {"square"}
Refused == \E w \in Pick(Wrongs), where \in Pick(IF Sim THEN {"objective", "constraint"} ELSE {"objective"}), i \in Pick(Idx), j \in Pick(Idx), c \in Pick(IF Sim THEN {1, -2, 5} ELSE {1}) :
  /\ More /\ Say([a |-> "Refused", w |-> w, where |-> where, i |-> i, j |-> j, c |-> c]) /\ UNCHANGED <<obj, cons, lo, hi, int>>

Init == /\ obj = [c |-> E(1), k |-> 0] /\ cons = <<>> /\ lo = [i \in Idx |-> 0] /\ hi = [i \in Idx |-> None] /\ int = {} /\ log = <<>>
Next == Objective \/ Constrain \/ Again \/ Drop \/ Bound \/ MakeInt \/ Solve \/ Refused
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------ checks of the specification itself
Grid == [Idx -> -4..4]
Solves == {m \in 1..Len(log) : log[m].a = "Solve" /\ m = Len(log)}
AtGrid(x) == [n |-> x, d |-> 1]
\* no feasible grid point is better than the optimum; an infeasible program has no feasible grid point
NoBetter == \A m \in Solves : LET o == log[m].out IN \A x \in Grid : Feasible(AtGrid(x), cons, lo, hi, int, Box) =>
  /\ o.s # "infeasible"
  /\ o.s = "optimal" => LET f == (Dot(obj.c, x) + obj.k) * o.d IN IF log[m].max THEN f <= o.n ELSE f >= o.n
\* minimizing f is maximizing -f
Dual == \A m \in Solves : LET o == log[m].out
                              p == Outcome(Neg(obj.c), -obj.k, cons, lo, hi, int, ~log[m].max) IN o.s = p.s /\ (o.s = "optimal" => o.n = -p.n /\ o.d = p.d)
\* writing a constraint the other way round changes nothing
FlipOne(cs, m) == [cs EXCEPT ![m] = [a |-> Neg(cs[m].a), op |-> Flip(cs[m].op), b |-> -cs[m].b]]
FlipOK == \A m \in Solves : \A j \in 1..Len(cons) : Outcome(obj.c, obj.k, FlipOne(cons, j), lo, hi, int, log[m].max) = log[m].out
\* an additional constraint never improves the optimum
View == <<obj, cons, lo, hi, int, Len(log), IF log = <<>> THEN 0 ELSE log[Len(log)].a>>
NSolve == Cardinality({m \in 1..Len(log) : log[m].a = "Solve"})
Emit == (Sim /\ Len(log) = Depth /\ NSolve >= 1) => PrintT("@@" \o ToJson([n |-> N, log |-> log]))
=============================================================================
