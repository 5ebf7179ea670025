------------------------------- MODULE Jagged -------------------------------
(***************************************************************************)
(* Jagged arrays, CSR matrices and the analysis of unique elements.  A     *)
(* store of slots holds objects: a jagged array is a sequence of rows, a   *)
(* CSR matrix is, row by row, a sequence of (column, value) entries in     *)
(* storage order and a number of columns.  Every action makes a new object *)
(* from data or from other objects; the observations of the object follow  *)
(* from its rows or entries.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC, Json

CONSTANTS Depth, Sim, Mode, NSlots, MaxRows, MaxW
VARIABLES slot, log
vars == <<slot, log>>
Slots == 1..NSlots
Salt == Len(log)
Pick(S) == IF Sim THEN (LET T == IF Salt < 0 THEN {} ELSE S IN IF T = {} THEN {} ELSE {RandomElement(T)}) ELSE S
Free == [k |-> "none"]
Jag(r) == [k |-> "jag", rows |-> r]
Csr(e, nc) == [k |-> "csr", ent |-> e, nc |-> nc]
Jags == {s \in Slots : slot[s].k = "jag"}
Csrs == {s \in Slots : slot[s].k = "csr"}

\* ------------------------------------------------------------ facts about rows
Widths(r) == [i \in 1..Len(r) |-> Len(r[i])]
Flat(r) == FlattenSeq(r)
Size(r) == Len(Flat(r))
MaxOf(S) == CHOOSE m \in S : \A x \in S : x <= m
WMax(r) == MaxOf({Len(r[i]) : i \in 1..Len(r)})
IsJagged(r) == \E i \in 1..Len(r) : Len(r[i]) # Len(r[1])
Padded(r) == [i \in 1..Len(r) |-> [j \in 1..WMax(r) |-> IF j <= Len(r[i]) THEN r[i][j] ELSE 0]]
RECURSIVE Cut(_, _)
Cut(f, w) == IF w = <<>> THEN <<>> ELSE <<SubSeq(f, 1, Head(w))>> \o Cut(SubSeq(f, Head(w) + 1, Len(f)), Tail(w))
Ent(r) == [i \in 1..Len(r) |-> [j \in 1..Len(r[i]) |-> <<j - 1, r[i][j]>>]]           \* 0-based columns
DenseOf(e, nc) == [i \in 1..Len(e) |-> [c \in 1..nc |-> LET M == {m \in 1..Len(e[i]) : e[i][m][1] = c - 1} IN MapThenSumSet(LAMBDA m : e[i][m][2], M)]]

\* ------------------------------------------------------------ unique elements
Values(r) == LET f == Flat(r) IN {f[m] : m \in 1..Len(f)}
Uniq(r) == SetToSortSeq(Values(r), <)
PosOf(s, v) == CHOOSE i \in 1..Len(s) : s[i] = v
InverseOf(r) == LET u == Uniq(r) IN [i \in 1..Len(r) |-> [j \in 1..Len(r[i]) |-> PosOf(u, r[i][j]) - 1]]
Where(r, v) == LET f == Flat(r) IN SetToSortSeq({m - 1 : m \in {m \in 1..Len(f) : f[m] = v}}, <)      \* flat positions
Index(r) == LET u == Uniq(r) IN [i \in 1..Len(u) |-> Where(r, u[i])]
Counts(r) == LET u == Uniq(r) IN [i \in 1..Len(u) |-> Len(Where(r, u[i]))]

\* ------------------------------------------------------------ data
Ks == IF Sim THEN 0..99999 ELSE {0, 1, 2, 3, 4}
Val(k, i, j) == ((k * (7 * i + 3 * j + 1) + (k \div 13) * (i * j + 1) + (k \div 101) * (j + 2) + 5 * i + j) % 8) - 3
RowsOf(k, reg) == LET n == (k % MaxRows) + 1
                      w(i) == ((k \div 3) * (i + 2) + (k \div 17) * i * i + (k \div 7)) % (MaxW + 1)
                  IN [i \in 1..n |-> [j \in 1..(IF reg THEN w(1) ELSE w(i)) |-> Val(k, i, j)]]
\* a sparse matrix: some entries of a dense one, in some order of columns
Sparse(k, nc) == LET n == (k % MaxRows) + 1
                     has(i, j) == ((k \div 2) * (i + 2 * j) + (k \div 11) * i * j + j + k) % 3 # 0
                     cols(i) == SetToSortSeq({j \in 1..nc : has(i, j)}, LAMBDA p, q : IF k % 2 = 0 THEN p < q ELSE p > q)
                 IN [i \in 1..n |-> [m \in 1..Len(cols(i)) |-> <<cols(i)[m] - 1, Val(k, i, cols(i)[m])>>]]
LastCol(e) == LET C == UNION {{e[i][m][1] : m \in 1..Len(e[i])} : i \in 1..Len(e)} IN IF C = {} THEN 0 ELSE MaxOf(C) + 1
JObs(r) == [rows |-> r, widths |-> Widths(r), size |-> Size(r), jagged |-> IsJagged(r), flat |-> Flat(r), dense |-> Padded(r), nc |-> WMax(r)]
CObs(e, nc) == [ent |-> e, dense |-> DenseOf(e, nc), nr |-> Len(e), nc |-> nc]
More == Len(log) < Depth
Put(t, o, e) == /\ slot' = [slot EXCEPT ![t] = o] /\ log' = Append(log, e)
Types == IF Sim THEN {"int64", "int32", "float64", "int64"} ELSE {"int64"}
IntTypes == IF Sim THEN {"int64", "int32"} ELSE {"int64"}
Hows == IF Sim THEN {"flat", "flatlist", "lists", "lists1d", "ak", "aksliced", "akindexed", "dense", "denseF", "wrap"} ELSE {"flat", "lists", "dense"}

\* ------------------------------------------------------------ jagged arrays
Make == \E t \in Pick(Slots), k \in Pick(Ks), how \in Pick(Hows), fn \in Pick(BOOLEAN), ty \in Pick(IF Mode = "unique" THEN IntTypes ELSE Types), reg \in Pick(BOOLEAN) :
  LET r == RowsOf(k, reg \/ how \in {"dense", "denseF"}) IN
  More /\ Put(t, Jag(r), [a |-> "Make", t |-> t, how |-> how, fn |-> fn, ty |-> ty, obs |-> JObs(r)])
Tuples == {<<1>>, <<1, 1>>, <<2, 1>>, <<1, 2>>, <<1, 2, 3>>, <<3, 3, 2>>, <<4, 1, 2>>}
Join == \E t \in Pick(Slots), f \in Pick({"vstack", "concatenate", "concatenate0", "tuple"}), ss \in Pick({q \in Tuples : \A m \in 1..Len(q) : q[m] \in Jags}) :
  LET r == FlattenSeq([m \in 1..Len(ss) |-> slot[ss[m]].rows]) IN
  /\ More /\ Len(r) <= 3 * MaxRows + 3
  /\ Put(t, Jag(r), [a |-> "Join", t |-> t, f |-> f, ss |-> ss, obs |-> JObs(r)])
Via == \E s \in Pick(Jags), t \in Pick(Slots), how \in Pick({"list", "ak", "flat", "cuts", "array"} \cup (IF Mode = "store" THEN {"numpy", "scipy"} ELSE {})), fn \in Pick(BOOLEAN) :
  LET r == IF how \in {"numpy", "scipy"} THEN Padded(slot[s].rows) ELSE slot[s].rows IN
  More /\ Put(t, Jag(r), [a |-> "Via", s |-> s, t |-> t, how |-> how, fn |-> fn, obs |-> JObs(r)])
BadCuts == \E k \in Pick(Ks), d \in Pick({-1, 1}) :
  /\ More /\ Mode = "store" /\ LET r == RowsOf(k, FALSE) IN Len(Flat(r)) > 0
        /\ Put(1, slot[1], [a |-> "BadCuts", flat |-> Flat(r), cuts |-> [Widths(r) EXCEPT ![CHOOSE i \in 1..Len(r) : Len(r[i]) > 0] = @ + d]])

\* ------------------------------------------------------------ CSR matrices
ToCsr == \E s \in Pick(Jags), t \in Pick(Slots) :
  /\ More /\ Mode = "store" /\ LET r == slot[s].rows IN Put(t, Csr(Ent(r), WMax(r)), [a |-> "ToCsr", s |-> s, t |-> t, obs |-> CObs(Ent(r), WMax(r))])
MakeCsr == \E t \in Pick(Slots), k \in Pick(Ks), nc \in Pick(1..MaxW), how \in Pick({"raw", "raw-list", "raw-noshape", "raw-extra", "scipy-raw", "csc"}), ty \in Pick(Types) :
  /\ More /\ Mode = "store"
  /\ LET e == Sparse(k, nc)
         n == CASE how = "raw-noshape" -> LastCol(e) [] how = "raw-extra" -> nc + 2 [] OTHER -> nc IN
     Put(t, Csr(e, n), [a |-> "MakeCsr", t |-> t, how |-> how, ty |-> ty, obs |-> CObs(e, n)])
\* from a dense matrix given as a SciPy matrix in some format (order of entries within a row not prescribed)
Scipy == \E t \in Pick(Slots), k \in Pick(Ks), f \in Pick({"csr", "csc", "coo", "lil", "csr_array", "bsr", "dok"}), ty \in Pick(Types) :
  /\ More /\ Mode = "store"
  /\ LET r == RowsOf(k, TRUE)
         nz(i) == SelectSeq(Ent(r)[i], LAMBDA x : x[2] # 0)
         e == [i \in 1..Len(r) |-> nz(i)] IN
     Len(r[1]) > 0 /\ Put(t, Csr(e, Len(r[1])), [a |-> "Scipy", t |-> t, f |-> f, ty |-> ty, obs |-> CObs(e, Len(r[1]))])
Eye == \E t \in Pick(Slots), n \in Pick(1..5) :
  /\ More /\ Mode = "store" /\ LET e == [i \in 1..n |-> <<<<i - 1, 1>>>>] IN Put(t, Csr(e, n), [a |-> "Eye", t |-> t, n |-> n, obs |-> CObs(e, n)])
\* through compiled code, or through its own parts, or through SciPy and back
Round == \E s \in Pick(Csrs), t \in Pick(Slots), how \in Pick({"compiled", "parts", "scipy", "rebuild-compiled"}) :
  /\ More /\ Mode = "store" /\ Put(t, slot[s], [a |-> "Round", s |-> s, t |-> t, how |-> how, obs |-> CObs(slot[s].ent, slot[s].nc)])
CsrToJag == \E s \in Pick(Csrs), t \in Pick(Slots) :
  /\ More /\ Mode = "store" /\ LET r == DenseOf(slot[s].ent, slot[s].nc) IN
       slot[s].nc > 0 /\ Put(t, Jag(r), [a |-> "CsrToJag", s |-> s, t |-> t, obs |-> JObs(r)])

\* ------------------------------------------------------------ unique elements
Unique == \E s \in Pick(Jags), route \in Pick({"np", "method", "unique2d", "array", "ak"}), ri \in Pick(BOOLEAN), rv \in Pick(BOOLEAN), rc \in Pick(BOOLEAN) :
  /\ More /\ Mode = "unique" /\ LET r == slot[s].rows IN
     (Size(r) > 0) /\ Put(s, slot[s], [a |-> "Unique", s |-> s, route |-> IF route = "array" /\ IsJagged(r) THEN "np" ELSE route, ri |-> ri, rv |-> rv, rc |-> rc,
                     uniq |-> Uniq(r), counts |-> Counts(r), inv |-> InverseOf(r), idx |-> Index(r), jagged |-> IsJagged(r), nc |-> WMax(r), rows |-> r])

Init == slot = [s \in Slots |-> Free] /\ log = <<>>
Next == Make \/ Join \/ Via \/ BadCuts \/ ToCsr \/ MakeCsr \/ Scipy \/ Eye \/ Round \/ CsrToJag \/ Unique
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------ properties of the specification
RowsOK == \A s \in Jags : LET r == slot[s].rows IN
  /\ Cut(Flat(r), Widths(r)) = r
  /\ DenseOf(Ent(r), WMax(r)) = Padded(r)
  /\ IsJagged(r) = (Padded(r) # r)
  /\ \A i \in 1..Len(r) : SubSeq(Padded(r)[i], 1, Len(r[i])) = r[i]
UniqueOK == \A s \in Jags : LET r == slot[s].rows
                                u == Uniq(r) IN
  /\ \A i \in 1..(Len(u) - 1) : u[i] < u[i + 1]
  /\ \A i \in 1..Len(r) : \A j \in 1..Len(r[i]) : u[InverseOf(r)[i][j] + 1] = r[i][j]
  /\ Len(FlattenSeq(Index(r))) = Size(r)
  /\ \A i \in 1..Len(u) : \A m \in 1..Len(Index(r)[i]) : Flat(r)[Index(r)[i][m] + 1] = u[i]
CsrOK == \A s \in Csrs : \A i \in 1..Len(slot[s].ent) : \A m \in 1..Len(slot[s].ent[i]) : slot[s].ent[i][m][1] \in 0..(slot[s].nc - 1)
View == <<slot, Len(log)>>
Emit == (Sim /\ Len(log) = Depth) => PrintT("@@" \o ToJson([mode |-> Mode, log |-> log]))
=============================================================================
