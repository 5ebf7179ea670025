------------------------------- MODULE Stacks -------------------------------
(***************************************************************************)
(* Stacks of tensors: one object holding many tensors of one kind, with    *)
(* one frame for all of them or one frame per leading item.  The stack is  *)
(* specified as the sequence of its members: every operation is the single *)
(* tensor operation applied to each member in its own frame.               *)
(***************************************************************************)
EXTENDS Rat, Json

CONSTANTS DIM, Depth, Sim, Kinds, Leads, Nice, Acts
VARIABLES obj,   \* the stack: [kind, r, lead, multi, ax (sequence of axes), c (sequence of member components), amb]
          log
vars == <<obj, log>>
None == [kind |-> "none"]
Pick(S) == IF Sim THEN (LET T == IF Len(log) < 0 THEN {} ELSE S IN IF T = {} THEN {} ELSE {RandomElement(T)}) ELSE S

M3 == <<QI(<<1,0,0, 0,1,0, 0,0,1>>), QI(<<1,1,0, 0,1,0, 0,0,1>>), QI(<<1,0,2, 0,1,0, 1,0,1>>), QI(<<2,1,0, 1,1,0, 0,1,1>>),
        QI(<<0,1,1, 1,0,1, 1,1,0>>), QA(<<1,0,0, 0,2,0, 0,0,4>>, 2), QI(<<0,2,0, -1,0,0, 0,0,1>>), QI(<<0,1,0, -1,0,0, 0,0,1>>),
        QI(<<1,0,0, 0,-1,0, 0,0,1>>), QI(<<1,-1,1, 0,1,-1, 1,0,1>>)>>
M2 == <<QI(<<1,0, 0,1>>), QI(<<1,1, 0,1>>), QI(<<2,1, 1,1>>), QI(<<1,2, 1,1>>), QA(<<1,0, 0,2>>, 2), QI(<<0,1, -1,0>>), QI(<<1,-1, 1,1>>)>>
MatSeq == IF DIM = 3 THEN M3 ELSE M2
MF(k, n) == [i \in 1..n |-> MatSeq[((k * (i + 3) + 5 * i) % Len(MatSeq)) + 1]]
KSet == IF Sim THEN 0..9999 ELSE {3, 8}
Scalars == {<<2,1>>, <<1,2>>, <<-1,1>>, <<3,1>>}
Comps(k, len) == QI([i \in 1..len |-> ((k * (2 * i + 1) + 7 * i * i + i \div 3) % 5) - 2])

\* quarter turns and a 3-4-5 rotation: components of the rotated base
Rots == IF DIM # 3 THEN {} ELSE
        {[m |-> QI(<<0,1,0, -1,0,0, 0,0,1>>)], [m |-> QI(<<1,0,0, 0,0,1, 0,-1,0>>)], [m |-> QA(<<3,4,0, -4,3,0, 0,0,5>>, 5)], [m |-> QI(<<0,0,1, 1,0,0, 0,1,0>>)]}

RankOf(k) == CASE k = "V" -> 1 [] k \in {"T2", "T2x3"} -> 2 [] k \in {"T4", "T4x3"} -> 4
Mul(a, b) == MatMul(a, b, DIM, DIM, DIM)
Tr(a) == MatT(a, DIM, DIM)
Inv(a) == QInv(a, DIM)
Gram(ax) == Mul(ax, Tr(ax))
Dual(ax) == Tr(Inv(ax))
Dcm(S, T) == Mul(Dual(T), Tr(S))
Bounded(ax) == /\ QMaxAbs(ax) <= Nice /\ ax.d <= Nice /\ NonSing(ax, DIM)
               /\ LET v == Inv(ax) IN QMaxAbs(v) <= 2 * Nice /\ v.d <= 2 * Nice
BoundedAll(s) == \A i \in 1..Len(s) : Bounded(s[i])
Small(c) == \A i \in 1..Len(c) : QMaxAbs(c[i]) <= 3000 /\ c[i].d <= 400

N(o) == ProdSeq(o.lead)                                  \* number of members
Per(o) == N(o) \div o.lead[1]                            \* members per leading item
\* axes belonging to member i, for a single frame or one per leading item
AxI(ax, o, i) == IF Len(ax) = 1 THEN ax[1] ELSE ax[((i - 1) \div Per(o)) + 1]
Each(o, Op(_)) == [i \in 1..N(o) |-> Op(i)]

Commit(e, o) == obj' = o /\ log' = Append(log, [e |-> e, obj |-> o])
Ready == Len(log) < Depth /\ obj.kind # "none"
On(a) == Ready /\ a \in Acts
FrameLens(o) == IF o.kind = "none" THEN {1} ELSE {1, o.lead[1]}       \* a single frame or one per leading item

Create == \E kind \in Pick(Kinds), lead \in Pick(Leads), multi \in Pick({TRUE, FALSE}), k \in Pick(KSet) :
  /\ Len(log) = 0 /\ obj.kind = "none"
  /\ (kind \in {"V", "T2", "T4"} => Len(lead) = 1)
  /\ (kind \in {"T2x3", "T4x3"} => DIM = 3)
  /\ LET r == RankOf(kind)
         o0 == [kind |-> kind, r |-> r, lead |-> lead, multi |-> multi, ax |-> MF(k, IF multi THEN lead[1] ELSE 1), c |-> <<>>, amb |-> <<>>]
         c == Each(o0, LAMBDA i : Comps(k + 17 * i, Pow(DIM, r)))
         o == [o0 EXCEPT !.c = c, !.amb = Each(o0, LAMBDA i : Transform(c[i], Tr(AxI(o0.ax, o0, i)), DIM, r))]
     IN Commit([a |-> "Create"], o)

ShowIn(o, X) == Each(o, LAMBDA i : Transform(o.c[i], Dcm(AxI(o.ax, o, i), AxI(X, o, i)), DIM, o.r))
Show == \E n \in Pick(FrameLens(obj)), k \in Pick(KSet) :
  /\ On("show")
  /\ LET X == MF(k, n) IN Commit([a |-> "Show", x |-> X, out |-> ShowIn(obj, X)], obj)
ShowAmb == /\ On("show") /\ Commit([a |-> "ShowAmb", out |-> ShowIn(obj, <<Eye(DIM)>>)], obj)
\* what the frame(s) of the stack report about themselves and about the way to other frames
Geom == \E n \in Pick(FrameLens(obj)), k \in Pick(KSet) :
  /\ On("show")
  /\ LET X == MF(k, n)
         m == Len(obj.ax)
         L == IF n > m THEN n ELSE m
         At1(s, i) == IF Len(s) = 1 THEN s[1] ELSE s[i]
     IN Commit([a |-> "Geom", x |-> X, gram |-> [i \in 1..m |-> Gram(obj.ax[i])], dual |-> [i \in 1..m |-> Dual(obj.ax[i])],
                vol |-> [i \in 1..m |-> QDet(obj.ax[i], DIM)], dcm |-> [i \in 1..L |-> Dcm(At1(obj.ax, i), At1(X, i))]], obj)
SetFrame == \E n \in Pick(FrameLens(obj)), k \in Pick(KSet), via \in Pick({"frame", "array"}) :
  /\ On("setframe")
  /\ LET X == MF(k, n) IN Commit([a |-> "SetFrame", x |-> X, via |-> via], [obj EXCEPT !.ax = X, !.multi = (n # 1 \/ obj.lead[1] = 1), !.c = ShowIn(obj, X)])
\* in-place changes of the frame: the members follow
Follow(X) == [obj EXCEPT !.ax = X, !.c = ShowIn(obj, X)]
SetAxes == \E k \in Pick(KSet) :
  /\ On("mutate")
  /\ LET X == MF(k, Len(obj.ax)) IN Commit([a |-> "SetAxes", x |-> X], Follow(X))
IScale == \E s \in Pick(Scalars), op \in Pick({"mul", "div"}) :
  /\ On("mutate")
  /\ LET t == IF op = "mul" THEN s ELSE <<IF s[1] < 0 THEN -s[2] ELSE s[2], Abs(s[1])>>
         X == [i \in 1..Len(obj.ax) |-> QScale(obj.ax[i], t)] IN
     BoundedAll(X) /\ Commit([a |-> "IScale", s |-> s, op |-> op], Follow(X))
IMat == \E k \in Pick(KSet), op \in Pick({"add", "matmul"}) :
  /\ On("mutate")
  /\ LET Y == MF(k, 1)[1]
         X == [i \in 1..Len(obj.ax) |-> IF op = "add" THEN QAdd(obj.ax[i], Y) ELSE Mul(obj.ax[i], Y)] IN
     BoundedAll(X) /\ Commit([a |-> "IMat", y |-> Y, op |-> op], Follow(X))
OrientF == \E R \in Pick(Rots) :
  /\ On("mutate")
  /\ LET X == [i \in 1..Len(obj.ax) |-> Mul(obj.ax[i], R.m)] IN
     BoundedAll(X) /\ Commit([a |-> "OrientF", m |-> R.m], Follow(X))
TransposeF == /\ On("mutate")
              /\ LET X == [i \in 1..Len(obj.ax) |-> Tr(obj.ax[i])] IN BoundedAll(X) /\ Commit([a |-> "TransposeF"], Follow(X))

TransposeT == \E via \in Pick({"inplace", "T"}) :
  /\ On("arith")
  /\ Commit([a |-> "TransposeT", via |-> via],
            [obj EXCEPT !.c = Each(obj, LAMBDA i : TTrans(obj.c[i], DIM, obj.r)), !.amb = Each(obj, LAMBDA i : TTrans(obj.amb[i], DIM, obj.r))])
Scale == \E s \in Pick(Scalars), via \in Pick({"imul", "mul", "itruediv", "truediv", "neg"}) :
  /\ On("arith")
  /\ LET t == CASE via \in {"imul", "mul"} -> s [] via = "neg" -> <<-1, 1>> [] OTHER -> <<IF s[1] < 0 THEN -s[2] ELSE s[2], Abs(s[1])>>
         c == Each(obj, LAMBDA i : QScale(obj.c[i], t)) IN
     Small(c) /\ Commit([a |-> "Scale", s |-> s, via |-> via], [obj EXCEPT !.c = c, !.amb = Each(obj, LAMBDA i : QScale(obj.amb[i], t))])
\* another stack of the same shape, in frames of its own
Add == \E n \in Pick(FrameLens(obj)), k \in Pick(KSet), via \in Pick({"iadd", "isub", "add", "sub"}) :
  /\ On("arith")
  /\ LET X == MF(k, n)
         d == Each(obj, LAMBDA i : Comps(k + 13 * i, Pow(DIM, obj.r)))
         da == Each(obj, LAMBDA i : Transform(d[i], Tr(AxI(X, obj, i)), DIM, obj.r))
         dc == Each(obj, LAMBDA i : Transform(d[i], Dcm(AxI(X, obj, i), AxI(obj.ax, obj, i)), DIM, obj.r))
         plus == via \in {"iadd", "add"}
         f(a, b) == IF plus THEN QAdd(a, b) ELSE QSub(a, b)
         c == Each(obj, LAMBDA i : f(obj.c[i], dc[i]))
     IN Small(c) /\ Commit([a |-> "Add", via |-> via, x |-> X, d |-> d], [obj EXCEPT !.c = c, !.amb = Each(obj, LAMBDA i : f(obj.amb[i], da[i]))])
ToDual == /\ On("arith")
          /\ LET X == [i \in 1..Len(obj.ax) |-> Dual(obj.ax[i])]
                 c == Each(obj, LAMBDA i : Transform(obj.c[i], Gram(AxI(obj.ax, obj, i)), DIM, obj.r)) IN
             BoundedAll(X) /\ Small(c) /\ Commit([a |-> "ToDual"], [obj EXCEPT !.ax = X, !.c = c])
OrientT == \E R \in Pick(Rots), via \in Pick({"orient", "orient_new"}) :
  /\ On("orient")
  /\ LET c == Each(obj, LAMBDA i : Transform(obj.c[i], MatT(R.m, 3, 3), DIM, obj.r)) IN
     Small(c) /\ Commit([a |-> "OrientT", m |-> R.m, via |-> via],
        [obj EXCEPT !.c = c, !.amb = Each(obj, LAMBDA i : Transform(c[i], Tr(AxI(obj.ax, obj, i)), DIM, obj.r))])
Copy == \E via \in Pick({"copy", "deepcopy", "scopy", "dcopy"}) : On("arith") /\ Commit([a |-> "Copy", via |-> via], obj)
\* assignment to one member
SetItem == \E i \in Pick(1..(IF obj.kind = "none" THEN 1 ELSE N(obj))), k \in Pick(KSet) :
  /\ On("arith")
  /\ LET x == Comps(k, Pow(DIM, obj.r)) IN
     Commit([a |-> "SetItem", i |-> i, x |-> x], [obj EXCEPT !.c[i] = x, !.amb[i] = Transform(x, Tr(AxI(obj.ax, obj, i)), DIM, obj.r)])

Init == obj = None /\ log = <<>>
Next == Create \/ Show \/ ShowAmb \/ Geom \/ SetFrame \/ SetAxes \/ IScale \/ IMat \/ OrientF \/ TransposeF \/ TransposeT \/ Scale \/ Add \/ ToDual \/ OrientT \/ Copy \/ SetItem
Spec == Init /\ [][Next]_vars

Live == obj.kind # "none"
ShapeOK == Live => Len(obj.c) = N(obj) /\ Len(obj.ax) \in FrameLens(obj)
ItemWise == Live => \A i \in 1..N(obj) : Transform(obj.c[i], Tr(AxI(obj.ax, obj, i)), DIM, obj.r) = obj.amb[i]
Emit == Len(log) = Depth => PrintT("@@" \o ToJson([dim |-> DIM, log |-> log]))
View == <<obj, Len(log)>>
=============================================================================
