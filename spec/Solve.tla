------------------------------- MODULE Solve -------------------------------
(***************************************************************************)
(* Linear systems with prescribed unknowns.  The system  A x = B  (several *)
(* right-hand sides) with x_i = v_i for the prescribed i : the equations   *)
(* of free unknowns hold, those of prescribed ones have a residual.  The   *)
(* elimination works on integer rows: row r stands for s_r times an        *)
(* equation equivalent to the original one, so everything is exact.  Any   *)
(* free row not used yet with a non-zero coefficient may become the pivot. *)
(* The meaning is given by Cramer's rule on the free part.                 *)
(***************************************************************************)
EXTENDS Rat, Json

CONSTANTS Sim, N, NR, Rg
VARIABLES sy, st
vars == <<sy, st>>

Cols == N + NR
\* ------------------------------------------------------------ meaning
Free(s) == SelectSeq([i \in 1..N |-> i], LAMBDA i : ~s.pre[i])
Pres(s) == {i \in 1..N : s.pre[i]}
Aij(s, i, j) == s.a[(i - 1) * N + j]
Bik(s, i, k) == s.b[(i - 1) * NR + k]
Aff(s) == LET f == Free(s) m == Len(f) IN [p \in 1..(m * m) |-> Aij(s, f[((p - 1) \div m) + 1], f[((p - 1) % m) + 1])]
DetF(s) == DetI(Aff(s), Len(Free(s)))
Regular(s) == DetF(s) # 0
Rhs(s, i, k) == Bik(s, i, k) - SumSeq([j \in 1..N |-> IF s.pre[j] THEN Aij(s, i, j) * s.pv[j] ELSE 0])
\* solution: the free unknown number q of right-hand side k, over DetF
Cramer(s, q, k) == LET f == Free(s) m == Len(f) IN
  DetI([p \in 1..(m * m) |-> LET r == ((p - 1) \div m) + 1  c == ((p - 1) % m) + 1 IN IF c = q THEN Rhs(s, f[r], k) ELSE Aij(s, f[r], f[c])], m)
PosIn(f, i) == CHOOSE q \in 1..Len(f) : f[q] = i
\* all unknowns of all right-hand sides, flat (unknown-major), a rational array
Solution(s) == QA([p \in 1..(N * NR) |-> LET i == ((p - 1) \div NR) + 1  k == ((p - 1) % NR) + 1 IN
                     IF s.pre[i] THEN s.pv[i] * DetF(s) ELSE Cramer(s, PosIn(Free(s), i), k)], DetF(s))
Image(s, x) == QA([p \in 1..(N * NR) |-> LET i == ((p - 1) \div NR) + 1  k == ((p - 1) % NR) + 1 IN
                     SumSeq([j \in 1..N |-> Aij(s, i, j) * x.n[(j - 1) * NR + k]])], x.d)
Residual(s) == QSub(Image(s, Solution(s)), QI(s.b))

\* ------------------------------------------------------------ elimination
RowOf(s, i) == [c \in 1..Cols |-> IF c <= N THEN Aij(s, i, c) ELSE Bik(s, i, c - N)]
Low(r, sc) == LET g == FoldLeft(LAMBDA x, y : IF x = 1 THEN 1 ELSE Gcd2(x, y), Abs(sc), r) IN [r |-> [c \in 1..Cols |-> r[c] \div g], s |-> sc \div g]
Begin(s) == [ph |-> "elim", meth |-> s.meth, row |-> [i \in 1..N |-> [r |-> RowOf(s, i), s |-> 1]], col |-> 1, x |-> <<>>, res |-> <<>>]
\* the column of a prescribed unknown goes to the right-hand side (in this and the following rows)
MovePres == LET c == st.col IN
  /\ st.ph = "elim" /\ c <= N /\ sy.pre[c]
  /\ st' = [st EXCEPT !.col = c + 1, !.row = [i \in 1..N |-> IF i < c THEN @[i] ELSE
       LET r == @[i].r IN [r |-> [k \in 1..Cols |-> IF k = c THEN 0 ELSE IF k > N THEN r[k] - r[c] * sy.pv[c] ELSE r[k]], s |-> @[i].s]]]
  /\ UNCHANGED sy
Pivots == {i \in st.col..N : ~sy.pre[i] /\ st.row[i].r[st.col] # 0}
Swap(w, i, j) == [k \in 1..N |-> IF k = i THEN w[j] ELSE IF k = j THEN w[i] ELSE w[k]]
Eliminate(w, c) == [i \in 1..N |-> IF (i = c) \/ (i < c /\ st.meth = "Gauss-Jordan") \/ (w[i].r[c] = 0) THEN w[i] ELSE
     LET p == w[c].r[c] a == w[i].r[c] IN Low([k \in 1..Cols |-> p * w[i].r[k] - a * w[c].r[k]], p * w[i].s)]
UsePivot == LET c == st.col IN
  /\ st.ph = "elim" /\ c <= N /\ ~sy.pre[c]
  /\ \E i \in Pivots : st' = [st EXCEPT !.col = c + 1, !.row = Eliminate(Swap(@, i, c), c)]
  /\ UNCHANGED sy
Singular == LET c == st.col IN
  /\ st.ph = "elim" /\ c <= N /\ ~sy.pre[c] /\ Pivots = {} /\ st' = [st EXCEPT !.ph = "singular"] /\ UNCHANGED sy
\* from the last unknown backwards; x and res hold rational arrays (one entry per right-hand side) of the unknowns col..N
Start == st.ph = "elim" /\ st.col = N + 1 /\ st' = [st EXCEPT !.ph = "back"] /\ UNCHANGED sy
Back == LET i == st.col - 1
            r == st.row[i].r
            tail == FoldLeft(LAMBDA acc, j : QSub(acc, QScale(st.x[j - i], <<r[j], 1>>)), QI(SubSeq(r, N + 1, Cols)), [k \in 1..(N - i) |-> i + k]) IN
  /\ st.ph = "back" /\ st.col > 1
  /\ st' = [st EXCEPT !.col = i, !.x = <<(IF sy.pre[i] THEN QI([k \in 1..NR |-> sy.pv[i]]) ELSE QScale(tail, <<1, r[i]>>))>> \o @,
                      !.res = <<(IF sy.pre[i] THEN QScale(tail, <<-1, st.row[i].s>>) ELSE QI([k \in 1..NR |-> 0]))>> \o @]
  /\ UNCHANGED sy
Done == st.ph = "back" /\ st.col = 1 /\ st' = [st EXCEPT !.ph = "done"] /\ UNCHANGED sy

\* ------------------------------------------------------------ systems
Salt == sy.go
Pick(S) == IF Salt < 0 THEN {} ELSE {RandomElement(S)}
Rnd(k, p) == (((k % 9973) * (7 * p * p + 13 * p + 1) + (k \div 97) * (p + 3)) % (2 * Rg + 1)) - Rg
Choose == \E k \in Pick(0..999999), l \in Pick(0..999999), sp \in Pick(0..2), kind \in Pick({"full", "sparse", "dep", "perm"}), m \in Pick({"Jordan", "Gauss-Jordan"}), np \in Pick(0..(2 * Pow(2, N) - 1)) :
  /\ Sim /\ sy.go = 0
  /\ LET raw == [p \in 1..(N * N) |-> Rnd(k, p)]
         a == CASE kind = "full" -> raw
                [] kind = "sparse" -> [p \in 1..(N * N) |-> IF ((l \div p) + p) % 2 = 0 THEN 0 ELSE raw[p]]
                [] kind = "perm" -> [p \in 1..(N * N) |-> IF ((p - 1) % N) = (((p - 1) \div N) + 1 + sp) % N \/ (((p - 1) % N) > (((p - 1) \div N) + 1 + sp) % N /\ (k % 2 = 0)) THEN (IF raw[p] = 0 THEN 1 ELSE raw[p]) ELSE 0]
                [] OTHER -> [p \in 1..(N * N) |-> IF p <= N * (N - 1) \/ N < 2 THEN raw[p] ELSE LET c == ((p - 1) % N) + 1 IN raw[c] + (IF N > 2 THEN sp * raw[N + c] ELSE raw[c])]
         s == [go |-> 1, meth |-> m, a |-> a, b |-> [p \in 1..(N * NR) |-> Rnd(l, p)],
               pre |-> [i \in 1..N |-> np < Pow(2, N) /\ (np \div Pow(2, i - 1)) % 2 = 1], pv |-> [i \in 1..N |-> Rnd(l + 7, i)]] IN
     sy' = s /\ st' = Begin(s)
Init == IF Sim THEN sy = [go |-> 0] /\ st = [ph |-> "none"]
        ELSE /\ \E a \in [1..(N * N) -> (-Rg)..Rg], pre \in [1..N -> BOOLEAN], m \in {"Jordan", "Gauss-Jordan"}, z \in {0, 1} :
                  sy = [go |-> 1, meth |-> m, a |-> a, b |-> [p \in 1..(N * NR) |-> p - z * 2], pre |-> pre, pv |-> [i \in 1..N |-> IF pre[i] THEN i - z * 3 ELSE 0]]
             /\ st = Begin(sy)
Next == Choose \/ MovePres \/ UsePivot \/ Singular \/ Start \/ Back \/ Done
Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars(Next)

\* ------------------------------------------------------------ properties
On == sy.go = 1
\* the true solution stays a solution of the rows of free unknowns
Sound == (On /\ Regular(sy) /\ st.ph = "elim") => LET x == Solution(sy) IN
  \A i \in 1..N : ~sy.pre[i] => \A k \in 1..NR : SumSeq([j \in 1..N |-> st.row[i].r[j] * (IF (sy.pre[j] /\ j < st.col /\ i >= j) THEN 0 ELSE x.n[(j - 1) * NR + k])]) = x.d * st.row[i].r[N + k]
Decides == (st.ph = "singular" => ~Regular(sy)) /\ (st.ph \in {"back", "done"} => Regular(sy))
FlatX(q) == LET RECURSIVE F(_) F(s) == IF Len(s) = 1 THEN s[1] ELSE QConcat(s[1], F(Tail(s))) IN F(q)
Solves == st.ph = "done" => /\ FlatX(st.x) = Solution(sy) /\ FlatX(st.res) = Residual(sy)
                            /\ \A i \in 1..N : \A k \in 1..NR : ~sy.pre[i] => Residual(sy).n[(i - 1) * NR + k] = 0
Terminates == <>(st.ph \in {"done", "singular"})
Rec == [n |-> N, nr |-> NR, a |-> sy.a, b |-> sy.b, pre |-> sy.pre, pv |-> sy.pv, sing |-> st.ph = "singular",
        x |-> IF st.ph = "done" THEN Solution(sy) ELSE QI(<<0>>), r |-> IF st.ph = "done" THEN Residual(sy) ELSE QI(<<0>>)]
EmitSim == (Sim /\ st.ph \in {"done", "singular"}) => PrintT("@@" \o ToJson(Rec))
EmitAll == (~Sim /\ st.ph \in {"done", "singular"} /\ st.meth = "Jordan") => PrintT("@@" \o ToJson(Rec))
=============================================================================
