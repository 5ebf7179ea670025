------------------------------- MODULE Frames -------------------------------
(***************************************************************************)
(* Reference frames and the tensors expressed in them (linalg package).    *)
(*                                                                         *)
(* State: a heap of frame objects (class, axes: rows are base vectors) and *)
(* a heap of tensor objects (kind, rank, number of stacked items, frame    *)
(* they are registered at, stored components c).  The ghost field amb of a *)
(* tensor is the quantity it denotes, in the ambient frame; the actions    *)
(* compute c the way the library does (direction cosine matrices, duals,   *)
(* Gram matrices) and amb the textbook way, and the invariants say that    *)
(* the two always agree.                                                   *)
(* Every step is one public call; log records the call and the complete    *)
(* state after it, which is what the conformance driver replays.           *)
(***************************************************************************)
EXTENDS Rat, Json

CONSTANTS DIM,      \* dimension of the space
          Depth,    \* number of steps of a behaviour
          Sim,      \* TRUE: draw arguments at random, FALSE: enumerate
          Acts,     \* enabled action families
          Kinds,    \* kinds of tensors created
          Items,    \* numbers of stacked items (0: a single tensor)
          MaxF, MaxT, Nice,
          Fixed     \* exhaustive runs start with this many frames/tensors given

VARIABLES fr, ts, log
vars == <<fr, ts, log>>
View == <<fr, ts, Len(log)>>

Fids == 1..MaxF
Tids == 1..MaxT
NoF == [live |-> FALSE, cls |-> "none", ax |-> QI(<<>>)]
NoT == [live |-> FALSE, kind |-> "none", r |-> 0, it |-> 0, f |-> 0, c |-> QI(<<>>), amb |-> QI(<<>>)]
RankOf(k) == CASE k = "V" -> 1 [] k \in {"T2", "T2x3"} -> 2 [] k = "T3" -> 3 [] k \in {"T4", "T4x3"} -> 4

\* the argument depends on the state so that TLC evaluates it in every step
Pick(S) == IF Sim THEN (LET T == IF Len(log) < 0 THEN {} ELSE S IN IF T = {} THEN {} ELSE {RandomElement(T)}) ELSE S

(* ------------------------------ pools ----------------------------------- *)
M3 == {QI(<<1,0,0, 0,1,0, 0,0,1>>), QI(<<1,1,0, 0,1,0, 0,0,1>>), QI(<<1,0,2, 0,1,0, 1,0,1>>),
       QI(<<2,1,0, 1,1,0, 0,1,1>>), QI(<<0,1,1, 1,0,1, 1,1,0>>), QI(<<1,2,3, 0,1,4, 0,0,1>>),
       QI(<<2,0,0, 0,1,0, 0,0,1>>), QA(<<1,0,0, 0,2,0, 0,0,4>>, 2), QI(<<0,2,0, -1,0,0, 0,0,1>>),
       QA(<<3,4,0, -8,6,0, 0,0,5>>, 5), QI(<<0,1,0, -1,0,0, 0,0,1>>), QA(<<3,4,0, -4,3,0, 0,0,5>>, 5),
       QI(<<1,0,0, 0,-1,0, 0,0,1>>), QI(<<1,-1,1, 0,1,-1, 1,0,1>>), QA(<<2,1,0, 0,2,1, 1,0,2>>, 1),
       QA(<<1,0,0, 0,7,0, 0,0,5>>, 5)}      \* perpendicular, of the same total length as an orthonormal one
M2 == {QI(<<1,0, 0,1>>), QI(<<1,1, 0,1>>), QI(<<2,1, 1,1>>), QI(<<1,2, 1,1>>), QI(<<2,0, 0,1>>), QA(<<1,0, 0,2>>, 2),
       QA(<<3,4, -8,6>>, 5), QI(<<0,1, -1,0>>), QA(<<3,4, -4,3>>, 5), QI(<<1,0, 0,-1>>), QI(<<1,-1, 1,1>>), QA(<<0,7, 1,0>>, 5)}
M4 == {Eye(4), QI(<<1,1,0,0, 0,1,0,0, 0,0,1,0, 0,0,0,1>>), QI(<<1,0,2,0, 0,1,0,1, 1,0,1,0, 0,0,0,1>>), QI(<<2,0,0,0, 0,1,0,0, 0,0,-1,0, 0,0,0,3>>),
       QI(<<0,1,0,0, 0,0,1,0, 0,0,0,1, 1,0,0,0>>), QA(<<3,4,0,0, -4,3,0,0, 0,0,5,0, 0,0,0,5>>, 5), QI(<<1,1,0,0, -1,1,0,0, 0,0,0,2, 0,0,1,0>>),
       QI(<<1,1,1,1, 1,-1,1,-1, 1,1,-1,-1, 1,-1,-1,1>>), QI(<<1,2,0,0, 0,1,0,1, 1,0,1,0, 0,0,-1,1>>),
       QA(<<5,5,5,5, 5,-5,5,-5, 1,1,-1,-1, 7,-7,-7,7>>, 10)}     \* perpendicular rows, columns of unit length
Mats == CASE DIM = 2 -> M2 [] DIM = 3 -> M3 [] DIM = 4 -> M4
\* left operands of @= and of general arithmetic: small perturbations
Perts == IF DIM = 3 THEN {QI(<<0,1,0, 0,0,0, 0,0,0>>), QI(<<1,0,0, 0,1,0, 0,0,1>>), QI(<<0,0,1, 1,0,0, 0,-1,0>>), QI(<<1,1,1, 0,1,1, 1,0,0>>)}
         ELSE IF DIM = 4 THEN {Eye(4), QI(<<0,0,0,1, 0,0,0,0, 1,0,0,0, 0,0,0,0>>), QI(<<1,0,0,0, 0,0,1,0, 0,1,0,0, 0,0,0,0>>)}
         ELSE {QI(<<0,1, 0,0>>), QI(<<1,0, 0,1>>), QI(<<0,1, 1,0>>), QI(<<1,1, 0,-1>>)}
Scalars == {<<2,1>>, <<1,2>>, <<-1,1>>, <<3,1>>, <<-2,1>>}
Rows == IF DIM = 3 THEN {QI(<<1,0,0>>), QI(<<0,2,0>>), QI(<<1,1,0>>), QI(<<0,-1,1>>), QI(<<2,0,1>>), QI(<<0,0,3>>)}
        ELSE IF DIM = 4 THEN {QI(<<1,0,0,0>>), QI(<<0,2,0,0>>), QI(<<1,1,0,-1>>), QI(<<0,0,1,2>>), QI(<<0,1,0,1>>)}
        ELSE {QI(<<1,0>>), QI(<<0,2>>), QI(<<1,1>>), QI(<<2,-1>>)}

\* rotations: amounts as the user gives them and d = components of the rotated standard base
\* angles: 0..3 quarter turns, 4 and 5 the angles with cosine 3/5 and sine 4/5 and -4/5, 6 a quarter turn backwards, 7 five quarter turns, 8 one full turn and angle 4
Angle(q) == CASE q = 0 -> <<5, 0>> [] q \in {1, 7} -> <<0, 5>> [] q = 2 -> <<-5, 0>> [] q \in {3, 6} -> <<0, -5>> [] q \in {4, 8} -> <<3, 4>> [] q = 5 -> <<3, -4>>
El(a, q) == LET Ce == Angle(q)[1]  Se == Angle(q)[2] IN
            CASE a = 1 -> QA(<<5,0,0, 0,Ce,Se, 0,-Se,Ce>>, 5)
              [] a = 2 -> QA(<<Ce,0,-Se, 0,5,0, Se,0,Ce>>, 5)
              [] a = 3 -> QA(<<Ce,Se,0, -Se,Ce,0, 0,0,5>>, 5)
MM(a, b) == MatMul(a, b, 3, 3, 3)
Orders == {<<1,2,3>>, <<3,1,3>>, <<2,3,1>>, <<3,2,1>>}
RotSpace(o, q) == [how |-> "Space", q |-> q, o |-> o, m |-> Eye(3), d |-> MM(El(o[1], q[1]), MM(El(o[2], q[2]), El(o[3], q[3])))]
RotBody(o, q) == [how |-> "Body", q |-> q, o |-> o, m |-> Eye(3), d |-> MM(El(o[3], q[3]), MM(El(o[2], q[2]), El(o[1], q[1])))]
RotDcm(m) == [how |-> "DCM", q |-> <<>>, o |-> <<>>, m |-> m, d |-> MatT(m, 3, 3)]
\* quaternions are given up to their length
RotQuat(q) == LET a == q[1]  b == q[2]  c == q[3]  e == q[4] IN
  [how |-> "Quaternion", q |-> q, o |-> <<>>, m |-> Eye(3),
   d |-> QA(<<a*a + b*b - c*c - e*e, 2*(b*c + a*e), 2*(b*e - a*c),  2*(b*c - a*e), a*a - b*b + c*c - e*e, 2*(c*e + a*b),  2*(b*e + a*c), 2*(c*e - a*b), a*a - b*b - c*c + e*e>>, a*a + b*b + c*c + e*e)]
Quats == {<<1,1,1,1>>, <<1,-1,1,1>>, <<0,1,0,0>>, <<2,1,0,0>>, <<1,0,-2,0>>, <<-2,0,0,1>>}
DcmMats == {QA(<<3,4,0, -4,3,0, 0,0,5>>, 5), QA(<<5,0,0, 0,3,-4, 0,4,3>>, 5), QI(<<0,0,1, 1,0,0, 0,1,0>>)}
QTrip == {<<0,0,1>>, <<1,0,0>>, <<1,2,0>>, <<1,1,0>>, <<3,1,2>>, <<0,3,1>>, <<2,3,1>>, <<0,0,4>>, <<5,1,0>>, <<0,4,6>>, <<7,0,5>>, <<1,0,8>>}
Rots == IF DIM # 3 THEN {} ELSE
        {RotSpace(o, q) : o \in Orders, q \in QTrip} \cup {RotBody(o, q) : o \in Orders, q \in QTrip}
        \cup {RotDcm(m) : m \in DcmMats} \cup {RotQuat(q) : q \in Quats}

(* --------------------------- frame geometry ----------------------------- *)
Mul(a, b) == MatMul(a, b, DIM, DIM, DIM)
Tr(a) == MatT(a, DIM, DIM)
Inv(a) == QInv(a, DIM)
Gram(ax) == Mul(ax, Tr(ax))
Dual(ax) == Tr(Inv(ax))
IsRect(ax) == LET g == Gram(ax) IN \A i, j \in 0..(DIM - 1) : i # j => At(g, DIM, i, j) = 0
IsCart(ax) == Gram(ax) = Eye(DIM)
ClsOK(cls, ax) == CASE cls = "ref" -> TRUE [] cls = "rec" -> IsRect(ax) [] cls = "car" -> IsCart(ax)
\* components in frame S -> components in frame T
Dcm(S, T) == Mul(Dual(T), Tr(S))
Bounded(ax) == /\ QMaxAbs(ax) <= Nice /\ ax.d <= Nice /\ NonSing(ax, DIM)
               /\ LET v == Inv(ax) IN QMaxAbs(v) <= 2 * Nice /\ v.d <= 2 * Nice

AmbOf(c, r, ax) == Transform(c, Tr(ax), DIM, r)
CompOf(amb, r, ax) == Transform(amb, Dual(ax), DIM, r)

(* ------------------------------- heaps ---------------------------------- *)
LiveF == {f \in Fids : fr[f].live}
LiveT == {t \in Tids : ts[t].live}
FreeF == {f \in Fids : ~fr[f].live}
FreeT == {t \in Tids : ~ts[t].live}
NewF == Min(FreeF)
NewT == Min(FreeT)
Reg(f) == {t \in LiveT : ts[t].f = f}
HasF == FreeF # {}
HasT == FreeT # {}
Frame(cls, ax) == [live |-> TRUE, cls |-> cls, ax |-> ax]

ProjF(x) == IF ~x.live THEN [live |-> FALSE]
            ELSE IF "geom" \in Acts
            THEN [live |-> TRUE, cls |-> x.cls, ax |-> x.ax, rect |-> IsRect(x.ax), cart |-> IsCart(x.ax),
                  gram |-> Gram(x.ax), dual |-> Dual(x.ax), vol |-> QDet(x.ax, DIM)]
            ELSE [live |-> TRUE, cls |-> x.cls, ax |-> x.ax]
Commit(e, F, T) ==
  /\ fr' = F /\ ts' = T
  /\ log' = Append(log, [e |-> e, fr |-> [f \in Fids |-> ProjF(F[f])], ts |-> T])
Noop(e) == Commit(e, fr, ts)
Ready == Len(log) < Depth
On(a) == Ready /\ a \in Acts

\* all tensors of frame f follow a change of its axes from S to X, becoming tensors of frame g
Follow(f, g, X) == [t \in Tids |-> IF ts[t].live /\ ts[t].f = f
                                   THEN [ts[t] EXCEPT !.c = Transform(ts[t].c, Dcm(fr[f].ax, X), DIM, ts[t].r), !.f = g]
                                   ELSE ts[t]]
\* in-place change of the axes of f to X; cls is the class afterwards, same says whether the object stays the same
Mutate(e, f, X, cls, same) ==
  IF same THEN Commit(e @@ [ok |-> TRUE, new |-> 0], [fr EXCEPT ![f].ax = X], Follow(f, f, X))
  ELSE /\ HasF
       /\ LET g == NewF IN Commit(e @@ [ok |-> TRUE, new |-> g], [fr EXCEPT ![g] = Frame(cls, X)], Follow(f, g, X))
Reject(e) == Noop(e @@ [ok |-> FALSE, new |-> 0])

(* ----------------------- in-place frame actions ------------------------- *)
\* assignment of new axes: as a whole (array, list, item assignment with [...] or [:])
SetAxes == \E f \in Pick(LiveF), X \in Pick(Mats), via \in Pick({"axes", "list", "slice", "ellipsis", "nonc", "int"}) :
  /\ On("setaxes")
  /\ (via = "int" => X.d = 1)
  /\ LET e == [a |-> "SetAxes", f |-> f, x |-> X, via |-> via] IN
     IF ClsOK(fr[f].cls, X) THEN Mutate(e, f, X, fr[f].cls, TRUE) ELSE Reject(e)
\* assignment of a row or an entry
SetRow == \E f \in Pick(LiveF), i \in Pick(0..(DIM - 1)), w \in Pick(Rows), via \in Pick({"row", "entry"}), j \in Pick(0..(DIM - 1)) :
  /\ On("setitem")
  /\ LET ax == fr[f].ax
         m == Lcm(ax.d, w.d)
         hit(p) == (p - 1) \div DIM = i /\ (via = "row" \/ (p - 1) % DIM = j)
         X == QA([p \in 1..(DIM * DIM) |-> IF hit(p) THEN w.n[((p - 1) % DIM) + 1] * (m \div w.d) ELSE ax.n[p] * (m \div ax.d)], m)
         e == [a |-> "SetRow", f |-> f, i |-> i, j |-> j, w |-> w, via |-> via]
     IN /\ Bounded(X)
        /\ IF ClsOK(fr[f].cls, X) THEN Mutate(e, f, X, fr[f].cls, TRUE) ELSE Reject(e)
\* entries that are smaller than a limit are set to zero (limits no entry can be equal to)
Limits == {<<100, 211>>, <<7000, 10007>>, <<400, 307>>}
ChopQ(a, l) == QA([p \in 1..QLen(a) |-> IF Abs(a.n[p]) * l[2] < l[1] * a.d THEN 0 ELSE a.n[p]], a.d)
ChopF == \E f \in Pick(LiveF), l \in Pick(Limits) :
  /\ On("setitem")
  /\ LET X == ChopQ(fr[f].ax, l)
         e == [a |-> "ChopF", f |-> f, l |-> l]
     IN /\ Bounded(X)
        /\ IF ClsOK(fr[f].cls, X) THEN Mutate(e, f, X, fr[f].cls, TRUE) ELSE Reject(e)
\* inadmissible assignments: wrong shape, not an array, singular with tensors depending on the frame
BadAxes == \E f \in Pick(LiveF), how \in Pick({"shape", "scalar", "zero", "zerorow", "imulzero", "string"}) :
  /\ On("reject")
  /\ (how \in {"zero", "zerorow", "imulzero"} => Reg(f) # {})
  /\ Reject([a |-> "BadAxes", f |-> f, how |-> how])

KeepsRect(op) == op \in {"mul", "div"}
CastOf(cls, op, scalar) == CASE cls = "ref" -> "ref" [] cls = "rec" -> IF scalar /\ KeepsRect(op) THEN "rec" ELSE "ref"
                            [] cls = "car" -> IF scalar /\ KeepsRect(op) THEN "rec" ELSE "ref"
BinS(op, ax, s) == CASE op = "mul" -> QScale(ax, s) [] op = "div" -> QScale(ax, <<IF s[1] < 0 THEN -s[2] ELSE s[2], Abs(s[1])>>)
                     [] op = "add" -> QAddS(ax, s) [] op = "sub" -> QAddS(ax, <<-s[1], s[2]>>)
BinM(op, ax, X) == CASE op = "mul" -> QMulE(ax, X) [] op = "add" -> QAdd(ax, X) [] op = "sub" -> QSub(ax, X) [] op = "matmul" -> Mul(ax, X)
IOpS == \E f \in Pick(LiveF), op \in Pick({"mul", "div", "add", "sub"}), s \in Pick(Scalars), np \in Pick({"py", "float"}) :
  /\ On("iop")
  /\ LET X == BinS(op, fr[f].ax, s)
         cls == CastOf(fr[f].cls, op, TRUE)
         e == [a |-> "IOpS", f |-> f, op |-> op, s |-> s, np |-> np]
     IN Bounded(X) /\ Mutate(e, f, X, cls, cls = fr[f].cls)
IOpM == \E f \in Pick(LiveF), op \in Pick({"mul", "add", "sub", "matmul"}), Y \in Pick(Mats \cup Perts) :
  /\ On("iop")
  /\ LET X == BinM(op, fr[f].ax, Y)
         cls == CastOf(fr[f].cls, op, FALSE)
         e == [a |-> "IOpM", f |-> f, op |-> op, x |-> Y]
     IN Bounded(X) /\ Mutate(e, f, X, cls, cls = fr[f].cls)
IPow == \E f \in Pick(LiveF), k \in Pick({1, 2, 3}) :
  /\ On("iop")
  /\ LET ax == fr[f].ax
         X == QA([p \in 1..(DIM * DIM) |-> Pow(ax.n[p], k)], Pow(ax.d, k))
         cls == CastOf(fr[f].cls, "pow", TRUE)
         e == [a |-> "IPow", f |-> f, k |-> k]
     IN Bounded(X) /\ Mutate(e, f, X, cls, cls = fr[f].cls)
\* universal functions writing into the frame: only for general frames
UOut == \E f \in Pick(LiveF), op \in Pick({"mul", "add", "sub", "matmul", "neg"}), Y \in Pick(Mats \cup Perts) :
  /\ On("uout")
  /\ LET X == IF op = "neg" THEN QNeg(fr[f].ax) ELSE BinM(op, fr[f].ax, Y)
         e == [a |-> "UOut", f |-> f, op |-> op, x |-> Y]
     IN /\ Bounded(X)
        /\ IF fr[f].cls = "ref" THEN Mutate(e, f, X, "ref", TRUE) ELSE Reject(e)
\* ... with another frame as the second operand
UOutF == \E f \in Pick(LiveF), g \in Pick(LiveF), op \in Pick({"mul", "add", "sub", "matmul"}) :
  /\ On("uout")
  /\ LET X == BinM(op, fr[f].ax, fr[g].ax)
         e == [a |-> "UOutF", f |-> f, g |-> g, op |-> op]
     IN /\ Bounded(X)
        /\ IF fr[f].cls = "ref" THEN Mutate(e, f, X, "ref", TRUE) ELSE Reject(e)
\* ... the result being written into another frame g, or into some rows only (where), or into single entries (ufunc.at)
UOut2 == \E g \in Pick(LiveF), f \in Pick(LiveF), op \in Pick({"mul", "add", "sub", "matmul", "neg"}), Y \in Pick(Mats \cup Perts) :
  /\ On("uout")
  /\ LET X == IF op = "neg" THEN QNeg(fr[f].ax) ELSE BinM(op, fr[f].ax, Y)
         e == [a |-> "UOut2", f |-> g, src |-> f, op |-> op, x |-> Y]
     IN /\ Bounded(X)
        /\ IF fr[g].cls = "ref" THEN Mutate(e, g, X, "ref", TRUE) ELSE Reject(e)
Merge(ax, X, hit(_)) == LET m == Lcm(ax.d, X.d) IN
  QA([p \in 1..(DIM * DIM) |-> IF hit(p) THEN X.n[p] * (m \div X.d) ELSE ax.n[p] * (m \div ax.d)], m)
UOutW == \E f \in Pick(LiveF), op \in Pick({"mul", "add", "sub"}), Y \in Pick(Mats \cup Perts), i \in Pick(0..(DIM - 1)) :
  /\ On("uout")
  /\ LET hit(p) == (p - 1) \div DIM # i
         X == Merge(fr[f].ax, BinM(op, fr[f].ax, Y), hit)
         e == [a |-> "UOutW", f |-> f, op |-> op, x |-> Y, i |-> i]
     IN /\ Bounded(X)
        /\ IF fr[f].cls = "ref" THEN Mutate(e, f, X, "ref", TRUE) ELSE Reject(e)
UAt == \E f \in Pick(LiveF), op \in Pick({"mul", "add", "sub"}), i \in Pick(0..(DIM - 1)), j \in Pick(-1..(DIM - 1)), s \in Pick(Scalars) :
  /\ On("uout")
  /\ LET hit(p) == (p - 1) \div DIM = i /\ (j = -1 \/ (p - 1) % DIM = j)
         X == Merge(fr[f].ax, BinS(op, fr[f].ax, s), hit)
         e == [a |-> "UAt", f |-> f, op |-> op, i |-> i, j |-> j, s |-> s]
     IN /\ Bounded(X)
        /\ IF fr[f].cls = "ref" THEN Mutate(e, f, X, "ref", TRUE) ELSE Reject(e)
Orient == \E f \in Pick(LiveF), R \in Pick(Rots), via \in Pick({"orient", "rotate"}) :
  /\ On("orient")
  /\ LET X == Mul(fr[f].ax, R.d) IN
     Bounded(X) /\ Mutate([a |-> "Orient", f |-> f, rot |-> R, via |-> via], f, X, fr[f].cls, TRUE)
TransposeF == \E f \in Pick(LiveF) :
  /\ On("ftrans")
  /\ LET X == Tr(fr[f].ax)  e == [a |-> "TransposeF", f |-> f] IN
     Bounded(X) /\ IF ClsOK(fr[f].cls, X) THEN Mutate(e, f, X, fr[f].cls, TRUE) ELSE Reject(e)

(* --------------------- creation and deletion ---------------------------- *)
NewFrame == \E cls \in Pick({"ref", "rec", "car"}), X \in Pick(Mats), via \in Pick({"array", "list", "nonc"}) :
  /\ On("newf") /\ HasF
  /\ LET e == [a |-> "NewFrame", cls |-> cls, x |-> X, via |-> via] IN
     IF ClsOK(cls, X) THEN Commit(e @@ [ok |-> TRUE, new |-> NewF], [fr EXCEPT ![NewF] = Frame(cls, X)], ts)
     ELSE Reject(e)
\* standard frames, and cartesian frames made of rectangular axes by normalization
NewEye == \E cls \in Pick({"ref", "rec", "car"}), via \in Pick({"dim", "dim1", "eye", "eyearg"}) :
  /\ On("newf") /\ HasF
  /\ Commit([a |-> "NewEye", cls |-> cls, via |-> via, ok |-> TRUE, new |-> NewF], [fr EXCEPT ![NewF] = Frame(cls, Eye(DIM))], ts)
RowSq(X, i) == SumSeq([j \in 1..DIM |-> X.n[(i - 1) * DIM + j] * X.n[(i - 1) * DIM + j]])
Root(m) == IF \E k \in 1..40 : k * k = m THEN CHOOSE k \in 1..40 : k * k = m ELSE 0
NewNormal == \E X \in Pick(Mats) :
  /\ On("newf") /\ HasF
  /\ LET e == [a |-> "NewNormal", x |-> X]
         k == [i \in 1..DIM |-> Root(RowSq(X, i))]
         m == FoldLeft(LAMBDA a, b : Lcm(a, b), 1, k)
     IN IF ~IsRect(X) THEN Reject(e)
        ELSE /\ \A i \in 1..DIM : k[i] # 0
             /\ Commit(e @@ [ok |-> TRUE, new |-> NewF],
                       [fr EXCEPT ![NewF] = Frame("car", QA([p \in 1..(DIM * DIM) |-> X.n[p] * (m \div k[((p - 1) \div DIM) + 1])], m))], ts)
DropFrame == \E f \in Pick({g \in LiveF : Reg(g) = {}}) :
  /\ On("dropf") /\ Cardinality(LiveF) > 1
  /\ Commit([a |-> "DropFrame", f |-> f, ok |-> TRUE, new |-> 0], [fr EXCEPT ![f] = NoF], ts)
Comps(k, len) == QI([i \in 1..len |-> ((k * (2 * i + 1) + 7 * i * i + i \div 3) % 5) - 2])
KSet == IF Sim THEN 0..996 ELSE {3}
StackLen(kind, it) == (IF it = 0 THEN 1 ELSE it) * Pow(DIM, RankOf(kind))
KindOK(kind, it) == /\ kind \in {"T2x3", "T4x3"} => DIM = 3
                    /\ kind = "T3" => it = 0
Tensor(kind, r, it, f, c, amb) == [live |-> TRUE, kind |-> kind, r |-> r, it |-> it, f |-> f, c |-> c, amb |-> amb]
MkTensor == \E f \in Pick(LiveF), kind \in Pick(Kinds), it \in Pick(Items), k \in Pick(KSet) :
  /\ On("newt") /\ HasT /\ KindOK(kind, it)
  /\ LET c == Comps(k, StackLen(kind, it))  r == RankOf(kind)
         t == Tensor(kind, r, it, f, c, AmbOf(c, r, fr[f].ax))
     IN Commit([a |-> "MkTensor", f |-> f, ok |-> TRUE, new |-> NewT], fr, [ts EXCEPT ![NewT] = t])
\* a tensor created without a frame lives in its own standard frame
MkDefault == \E kind \in Pick(Kinds), k \in Pick(KSet) :
  /\ On("newt") /\ HasT /\ HasF /\ KindOK(kind, 0)
  /\ LET c == Comps(k, StackLen(kind, 0))
         t == Tensor(kind, RankOf(kind), 0, NewF, c, c)
     IN Commit([a |-> "MkDefault", ok |-> TRUE, new |-> NewT, newf |-> NewF], [fr EXCEPT ![NewF] = Frame("ref", Eye(DIM))], [ts EXCEPT ![NewT] = t])
\* the metric tensor has the Gram matrix as components and is expressed in the frame itself
FMetric == \E f \in Pick(LiveF) :
  /\ On("newt") /\ HasT
  /\ LET c == Gram(fr[f].ax) IN
     Commit([a |-> "FMetric", f |-> f, ok |-> TRUE, new |-> NewT], fr, [ts EXCEPT ![NewT] = Tensor("T", 2, 0, f, c, AmbOf(c, 2, fr[f].ax))])
DropTensor == \E t \in Pick(LiveT) :
  /\ On("dropt")
  /\ Commit([a |-> "DropTensor", t |-> t, ok |-> TRUE, new |-> 0], fr, [ts EXCEPT ![t] = NoT])

(* ----------------------- in-place tensor actions ------------------------ *)
ReFrame(t, g, X) == [ts[t] EXCEPT !.f = g, !.c = Transform(ts[t].c, Dcm(fr[ts[t].f].ax, X), DIM, ts[t].r)]
SetFrame == \E t \in Pick(LiveT), g \in Pick(LiveF) :
  /\ On("setframe")
  /\ Commit([a |-> "SetFrame", t |-> t, g |-> g, ok |-> TRUE, new |-> 0], fr, [ts EXCEPT ![t] = ReFrame(t, g, fr[g].ax)])
SetFrameArr == \E t \in Pick(LiveT), X \in Pick(Mats) :
  /\ On("setframe") /\ HasF
  /\ Commit([a |-> "SetFrameArr", t |-> t, x |-> X, ok |-> TRUE, new |-> NewF],
            [fr EXCEPT ![NewF] = Frame("ref", X)], [ts EXCEPT ![t] = ReFrame(t, NewF, X)])
SetFrameBad == \E t \in Pick(LiveT), how \in Pick({"number", "list", "zero"}) :
  /\ On("reject") /\ Reject([a |-> "SetFrameBad", t |-> t, how |-> how])
Small(c) == QMaxAbs(c) <= 4000 /\ c.d <= 400
TScaleI == \E t \in Pick(LiveT), s \in Pick(Scalars), op \in Pick({"mul", "div"}) :
  /\ On("tinplace")
  /\ LET c == BinS(op, ts[t].c, s) IN
     Small(c) /\ Commit([a |-> "TScaleI", t |-> t, s |-> s, op |-> op, ok |-> TRUE, new |-> 0], fr,
                        [ts EXCEPT ![t] = [@ EXCEPT !.c = c, !.amb = BinS(op, ts[t].amb, s)]])
Like(t, u) == ts[t].r = ts[u].r /\ ts[t].it = ts[u].it
\* components of u in the frame of t
ShowIn(u, ax) == Transform(ts[u].c, Dcm(fr[ts[u].f].ax, ax), DIM, ts[u].r)
TAddI == \E t \in Pick(LiveT), u \in Pick(LiveT), op \in Pick({"add", "sub"}) :
  /\ On("tinplace")
  /\ LET e == [a |-> "TAddI", t |-> t, u |-> u, op |-> op] IN
     IF Like(t, u)
     THEN LET c == BinM(op, ts[t].c, ShowIn(u, fr[ts[t].f].ax)) IN
          Small(c) /\ Commit(e @@ [ok |-> TRUE, new |-> 0], fr, [ts EXCEPT ![t] = [@ EXCEPT !.c = c, !.amb = BinM(op, ts[t].amb, ts[u].amb)]])
     ELSE QLen(ts[t].c) # QLen(ts[u].c) /\ Reject(e)     \* same shape by coincidence of rank and stack size: not modelled
TNumI == \E t \in Pick(LiveT), s \in Pick(Scalars), op \in Pick({"add", "sub"}) :
  /\ On("tinplace")
  /\ LET c == BinS(op, ts[t].c, s) IN
     Small(c) /\ Commit([a |-> "TNumI", t |-> t, s |-> s, op |-> op, ok |-> TRUE, new |-> 0], fr,
                        [ts EXCEPT ![t] = [@ EXCEPT !.c = c, !.amb = AmbOf(c, ts[t].r, fr[ts[t].f].ax)]])
SetArray == \E t \in Pick(LiveT), k \in Pick(KSet), via \in Pick({"array", "item"}) :
  /\ On("tinplace")
  /\ LET c == Comps(k, QLen(ts[t].c)) IN
     Commit([a |-> "SetArray", t |-> t, x |-> c, via |-> via, ok |-> TRUE, new |-> 0], fr,
            [ts EXCEPT ![t] = [@ EXCEPT !.c = c, !.amb = AmbOf(c, ts[t].r, fr[ts[t].f].ax)]])
ChopT == \E t \in Pick(LiveT), l \in Pick(Limits) :
  /\ On("tinplace")
  /\ LET c == ChopQ(ts[t].c, l) IN
     Commit([a |-> "ChopT", t |-> t, l |-> l, ok |-> TRUE, new |-> 0], fr,
            [ts EXCEPT ![t] = [@ EXCEPT !.c = c, !.amb = AmbOf(c, ts[t].r, fr[ts[t].f].ax)]])
TransposeT == \E t \in Pick(LiveT) :
  /\ On("tinplace")
  /\ Commit([a |-> "TransposeT", t |-> t, ok |-> TRUE, new |-> 0], fr,
            [ts EXCEPT ![t] = [@ EXCEPT !.c = TTrans(ts[t].c, DIM, ts[t].r), !.amb = TTrans(ts[t].amb, DIM, ts[t].r)]])
OrientT == \E t \in Pick(LiveT), R \in Pick(Rots), via \in Pick({"args", "dcm"}) :
  /\ On("torient") /\ (via = "dcm" => ts[t].r = 1)
  /\ LET c == Transform(ts[t].c, MatT(R.d, 3, 3), DIM, ts[t].r) IN
     Small(c) /\ Commit([a |-> "OrientT", t |-> t, rot |-> R, via |-> via, ok |-> TRUE, new |-> 0], fr,
                        [ts EXCEPT ![t] = [@ EXCEPT !.c = c, !.amb = AmbOf(c, ts[t].r, fr[ts[t].f].ax)]])
\* calls tensors do not support: they raise and change nothing
TBad == \E t \in Pick(LiveT), how \in Pick({"addnum", "rmul", "matmul", "imatmul", "pow", "ipow", "mulself", "imularr", "ufunc", "badarray", "divarr", "negout"}) :
  /\ On("reject") /\ Reject([a |-> "TBad", t |-> t, how |-> how])

(* --------------------- out-of-place tensor operations ------------------- *)
Put(e, t) == HasT /\ Small(t.c) /\ Commit(e @@ [ok |-> TRUE, new |-> NewT, newf |-> 0], fr, [ts EXCEPT ![NewT] = t])
PutF(e, t, cls, ax) == /\ HasT /\ HasF /\ Small(t.c)
                       /\ Commit(e @@ [ok |-> TRUE, new |-> NewT, newf |-> NewF], [fr EXCEPT ![NewF] = Frame(cls, ax)],
                                 [ts EXCEPT ![NewT] = [t EXCEPT !.f = NewF]])
TAdd == \E t \in Pick(LiveT), u \in Pick(LiveT), op \in Pick({"add", "sub"}) :
  /\ On("tout")
  /\ LET e == [a |-> "TAdd", t |-> t, u |-> u, op |-> op]  x == ts[t] IN
     IF Like(t, u) /\ ts[t].kind = ts[u].kind
     THEN PutF(e, [x EXCEPT !.c = BinM(op, x.c, ShowIn(u, fr[x.f].ax)), !.amb = BinM(op, x.amb, ts[u].amb)], "ref", fr[x.f].ax)
     ELSE Reject(e)
TScale == \E t \in Pick(LiveT), s \in Pick(Scalars), op \in Pick({"mul", "div", "neg"}) :
  /\ On("tout")
  /\ LET x == ts[t] IN
     Put([a |-> "TScale", t |-> t, s |-> s, op |-> op],
         IF op = "neg" THEN [x EXCEPT !.c = QNeg(x.c), !.amb = QNeg(x.amb)]
         ELSE [x EXCEPT !.c = BinS(op, x.c, s), !.amb = BinS(op, x.amb, s)])
TDual == \E t \in Pick(LiveT) :
  /\ On("tout")
  /\ LET x == ts[t]  F == fr[x.f]  c == Transform(x.c, Gram(F.ax), DIM, x.r) IN
     IF F.cls = "car" THEN Put([a |-> "TDual", t |-> t], [x EXCEPT !.c = c])
     ELSE Bounded(Dual(F.ax)) /\ PutF([a |-> "TDual", t |-> t], [x EXCEPT !.c = c], F.cls, Dual(F.ax))
TTransNew == \E t \in Pick(LiveT), via \in Pick({"T", "transpose"}) :
  /\ On("tout")
  /\ LET x == ts[t] IN
     PutF([a |-> "TTransNew", t |-> t, via |-> via], [x EXCEPT !.c = TTrans(x.c, DIM, x.r), !.amb = TTrans(x.amb, DIM, x.r)], fr[x.f].cls, fr[x.f].ax)
TCopy == \E t \in Pick(LiveT), via \in Pick({"copy", "scopy", "deep", "deepcopy", "dcopy"}) :
  /\ On("tout")
  /\ LET e == [a |-> "TCopy", t |-> t, via |-> via]  x == ts[t] IN
     IF via \in {"copy", "scopy"} THEN Put(e, x) ELSE PutF(e, x, "ref", fr[x.f].ax)
OrientNewT == \E t \in Pick(LiveT), R \in Pick(Rots) :
  /\ On("torient")
  /\ LET x == ts[t]  c == Transform(x.c, MatT(R.d, 3, 3), DIM, x.r) IN
     Put([a |-> "OrientNewT", t |-> t, rot |-> R], [x EXCEPT !.c = c, !.amb = AmbOf(c, x.r, fr[x.f].ax)])

(* ------------------------------ products -------------------------------- *)
Single == {t \in LiveT : ts[t].it = 0}
DG(k, r) == Pow(DIM, r - 1 - k)
\* contraction of index i of a (rank ra) with index j of b (rank rb), ambient components
Contract(a, ra, i, b, rb, j) ==
  LET rc == ra + rb - 2
      N == Pow(DIM, rc)
      nb == Pow(DIM, rb - 1)
      ins(z, r, k, v) == (z \div Pow(DIM, r - 1 - k)) * Pow(DIM, r - k) + v * Pow(DIM, r - 1 - k) + (z % Pow(DIM, r - 1 - k))
  IN QA([p \in 1..N |-> LET z == p - 1  za == z \div nb  zb == z % nb IN
            SumSeq([v \in 1..DIM |-> a.n[ins(za, ra, i, v - 1) + 1] * b.n[ins(zb, rb, j, v - 1) + 1]])], a.d * b.d)
\* library route: the frame of the result and its components there
ReAmb(t, ax) == Transform(t.c, Dcm(fr[t.f].ax, ax), DIM, t.r)
PutIn(e, t, g) == \* t is expressed in an existing frame; optionally moved to frame g (0: no)
  IF g = 0 THEN Put(e, t)
  ELSE Put(e, [t EXCEPT !.f = g, !.c = ReAmb(t, fr[g].ax)])
Dot == \E t \in Pick(Single), u \in Pick(Single), g \in Pick(LiveF \cup {0}) :
  /\ On("dot")
  /\ LET x == ts[t]  y == ts[u]  A == fr[x.f].ax  B == fr[y.f].ax
         e == [a |-> "Dot", t |-> t, u |-> u, g |-> g, i |-> 0, j |-> 0, out |-> QI(<<0>>)] IN
     CASE x.r = 1 /\ y.r = 1 ->
            /\ g = 0
            /\ Noop([e EXCEPT !.out = QA(<<SumSeq([k \in 1..DIM |-> x.amb.n[k] * y.amb.n[k]])>>, x.amb.d * y.amb.d)] @@ [ok |-> TRUE, new |-> 0, newf |-> 0])
       [] x.r = 2 /\ y.r = 1 ->
            PutIn(e, [y EXCEPT !.f = x.f, !.c = MatMul(x.c, CompOf(y.amb, 1, Dual(A)), DIM, DIM, 1), !.amb = Contract(x.amb, 2, 1, y.amb, 1, 0)], g)
       [] x.r = 1 /\ y.r = 2 ->
            PutIn(e, [x EXCEPT !.f = y.f, !.c = MatMul(CompOf(x.amb, 1, Dual(B)), y.c, 1, DIM, DIM), !.amb = Contract(x.amb, 1, 0, y.amb, 2, 0)], g)
       [] x.r = 2 /\ y.r = 2 ->
            PutIn(e, [x EXCEPT !.c = Mul(Mul(x.c, Gram(A)), ShowIn(u, A)), !.amb = Contract(x.amb, 2, 1, y.amb, 2, 0)], g)
       [] OTHER -> FALSE
DotN == \E t \in Pick(Single), u \in Pick(Single), i0 \in Pick(0..11), j0 \in Pick(0..11), g \in Pick(LiveF \cup {0}) :
  /\ On("dotn")
  /\ LET x == ts[t]  y == ts[u]  i == i0 % ts[t].r  j == j0 % ts[u].r
         e == [a |-> "Dot", t |-> t, u |-> u, g |-> g, i |-> i, j |-> j, out |-> QI(<<0>>)] IN
     /\ x.r + y.r >= 4 /\ ~(x.r = 2 /\ y.r = 2) /\ x.r + y.r - 2 <= 4
     /\ LET amb == Contract(AmbOf(x.c, x.r, fr[x.f].ax), x.r, i, AmbOf(y.c, y.r, fr[y.f].ax), y.r, j)
            r == x.r + y.r - 2
            z == Tensor("T", r, 0, 0, amb, Contract(x.amb, x.r, i, y.amb, y.r, j))
        IN IF g = 0 THEN PutF(e, z, "ref", Eye(DIM))
           ELSE Put(e, [z EXCEPT !.f = g, !.c = Transform(amb, Dual(fr[g].ax), DIM, r)])
Crs(a, b) == QA(<<a.n[2] * b.n[3] - a.n[3] * b.n[2], a.n[3] * b.n[1] - a.n[1] * b.n[3], a.n[1] * b.n[2] - a.n[2] * b.n[1]>>, a.d * b.d)
Col(m, j) == QA(<<m.n[j], m.n[3 + j], m.n[6 + j]>>, m.d)
Cols(a, b, c) == MatT(QConcat(a, QConcat(b, c)), 3, 3)
Cross == \E t \in Pick(Single), u \in Pick(Single), g \in Pick(LiveF \cup {0}) :
  /\ On("cross") /\ DIM = 3
  /\ LET x == ts[t]  y == ts[u]  A == fr[x.f].ax
         e == [a |-> "Cross", t |-> t, u |-> u, g |-> g] IN
     CASE x.r = 1 /\ y.r = 1 ->
            LET m == Crs(x.amb, y.amb) IN PutIn(e, [x EXCEPT !.c = CompOf(m, 1, A), !.amb = m], g)
       [] x.r = 2 /\ y.r = 1 ->
            LET m == Cols(Crs(Col(x.amb, 1), y.amb), Crs(Col(x.amb, 2), y.amb), Crs(Col(x.amb, 3), y.amb)) IN
            IF g = 0 THEN PutF(e, [x EXCEPT !.c = m, !.amb = m], "ref", Eye(3))
            ELSE Put(e, [x EXCEPT !.c = CompOf(m, 2, fr[g].ax), !.amb = m, !.f = g])
       [] x.r = 1 /\ y.r = 2 ->
            LET m == Cols(Crs(x.amb, Col(y.amb, 1)), Crs(x.amb, Col(y.amb, 2)), Crs(x.amb, Col(y.amb, 3))) IN
            IF g = 0 THEN PutF(e, [y EXCEPT !.c = m, !.amb = m], "ref", Eye(3))
            ELSE Put(e, [y EXCEPT !.c = CompOf(m, 2, fr[g].ax), !.amb = m, !.f = g])
       [] OTHER -> FALSE

(* ---------------------- out-of-place frame operations ------------------- *)
PutFrame(e, cls, X) == /\ HasF /\ Bounded(X)
                       /\ IF ClsOK(cls, X) THEN Commit(e @@ [ok |-> TRUE, new |-> NewF], [fr EXCEPT ![NewF] = Frame(cls, X)], ts)
                          ELSE Reject(e)
FCopy == \E f \in Pick(LiveF), via \in Pick({"copy", "deep", "deepcopy", "scopy", "dcopy", "new", "orient_new"}) :
  /\ On("fout") /\ PutFrame([a |-> "FCopy", f |-> f, via |-> via], fr[f].cls, fr[f].ax)
FOpS == \E f \in Pick(LiveF), op \in Pick({"mul", "div", "add", "sub", "rmul", "neg", "radd", "rsub", "pow", "abs"}), s \in Pick(Scalars) :
  /\ On("fout")
  /\ LET X == CASE op = "neg" -> QNeg(fr[f].ax) [] op = "rmul" -> QScale(fr[f].ax, s) [] op = "radd" -> QAddS(fr[f].ax, s) [] op = "rsub" -> QAddS(QNeg(fr[f].ax), s)
                [] op = "pow" -> QMulE(fr[f].ax, fr[f].ax) [] op = "abs" -> QA([p \in 1..(DIM * DIM) |-> Abs(fr[f].ax.n[p])], fr[f].ax.d) [] OTHER -> BinS(op, fr[f].ax, s)
         cls == IF fr[f].cls # "ref" /\ op \in {"mul", "div"} THEN "rec" ELSE "ref"
     IN PutFrame([a |-> "FOpS", f |-> f, op |-> op, s |-> s], cls, X)
FOpM == \E f \in Pick(LiveF), op \in Pick({"mul", "add", "sub", "matmul", "rmul", "rsub", "rmatmul"}), Y \in Pick(Mats \cup Perts) :
  /\ On("fout")
  /\ LET A == fr[f].ax IN
     PutFrame([a |-> "FOpM", f |-> f, op |-> op, x |-> Y], "ref",
              CASE op = "rmul" -> QMulE(Y, A) [] op = "rsub" -> QSub(Y, A) [] op = "rmatmul" -> Mul(Y, A) [] OTHER -> BinM(op, A, Y))
FOpF == \E f \in Pick(LiveF), g \in Pick(LiveF), op \in Pick({"add", "sub", "matmul"}) :
  /\ On("fout")
  /\ PutFrame([a |-> "FOpF", f |-> f, g |-> g, op |-> op], "ref", BinM(op, fr[f].ax, fr[g].ax))
FOrientNew == \E f \in Pick(LiveF), R \in Pick(Rots), via \in Pick({"orient_new", "rotate", "rotate_new"}) :
  /\ On("fout") /\ PutFrame([a |-> "FOrientNew", f |-> f, rot |-> R, via |-> via], fr[f].cls, Mul(fr[f].ax, R.d))
FTrans == \E f \in Pick(LiveF), via \in Pick({"T", "transpose"}) :
  /\ On("fout") /\ PutFrame([a |-> "FTrans", f |-> f, via |-> via], fr[f].cls, Tr(fr[f].ax))
FDual == \E f \in Pick({g \in LiveF : fr[g].cls # "car"}) :
  /\ On("fout") /\ PutFrame([a |-> "FDual", f |-> f], fr[f].cls, Dual(fr[f].ax))

(* ------------------------------ observers ------------------------------- *)
ShowT == \E t \in Pick(LiveT), g \in Pick(LiveF \cup {0}), via \in Pick({"target", "dcm"}) :
  /\ On("show")
  /\ Noop([a |-> "ShowT", t |-> t, g |-> g, via |-> via, ok |-> TRUE, new |-> 0, out |-> ShowIn(t, IF g = 0 THEN Eye(DIM) ELSE fr[g].ax)])
\* equality of tensors does not depend on the frames they are expressed in
ObsClose == \E t \in Pick(LiveT), u \in Pick(LiveT) :
  /\ On("tout") /\ Like(t, u)
  /\ Noop([a |-> "ObsClose", t |-> t, u |-> u, ok |-> TRUE, new |-> 0, out |-> [p \in 1..QLen(ts[t].amb) |-> ts[t].amb.n[p] * ts[u].amb.d = ts[u].amb.n[p] * ts[t].amb.d]])
ObsDcm == \E f \in Pick(LiveF), g \in Pick(LiveF) :
  /\ On("geom")
  /\ Noop([a |-> "ObsDcm", f |-> f, g |-> g, ok |-> TRUE, new |-> 0, out |-> Dcm(fr[f].ax, fr[g].ax)])

(* ------------------------------------------------------------------------ *)
InitF == CASE Fixed = 0 -> [f \in Fids |-> IF f = 1 THEN Frame("ref", Eye(DIM)) ELSE NoF]
           [] Fixed = 1 -> [f \in Fids |-> CASE f = 1 -> Frame("ref", CASE DIM = 2 -> QI(<<1,1, 0,1>>) [] DIM = 3 -> QI(<<1,1,0, 0,1,0, 0,0,1>>) [] DIM = 4 -> QI(<<1,1,0,0, 0,1,0,0, 0,0,1,0, 0,0,0,1>>))
                                             [] f = 2 -> Frame("rec", CASE DIM = 2 -> QI(<<2,0, 0,1>>) [] DIM = 3 -> QI(<<0,2,0, -1,0,0, 0,0,1>>) [] DIM = 4 -> QI(<<2,0,0,0, 0,1,0,0, 0,0,-1,0, 0,0,0,3>>))
                                             [] f = 3 -> Frame("car", CASE DIM = 2 -> QI(<<0,1, -1,0>>) [] DIM = 3 -> QI(<<0,1,0, -1,0,0, 0,0,1>>) [] DIM = 4 -> QI(<<0,1,0,0, 0,0,1,0, 0,0,0,1, 1,0,0,0>>))
                                             [] OTHER -> NoF]
InitT == IF Fixed = 0 THEN [t \in Tids |-> NoT]
         ELSE [t \in Tids |-> LET k == 10 * t + 1  v == Comps(k, DIM)  w == Comps(k, DIM * DIM) IN
                 CASE t = 1 -> Tensor("V", 1, 0, 1, v, AmbOf(v, 1, InitF[1].ax))
                   [] t = 2 -> Tensor("T2", 2, 0, 2, w, AmbOf(w, 2, InitF[2].ax))
                   [] t = 3 -> Tensor("V", 1, 0, 3, v, AmbOf(v, 1, InitF[3].ax))
                   [] OTHER -> NoT]
Init == /\ fr = InitF /\ ts = InitT /\ log = <<>>

Next == \/ SetAxes \/ SetRow \/ ChopF \/ BadAxes \/ IOpS \/ IOpM \/ IPow \/ UOut \/ UOutF \/ UOut2 \/ UOutW \/ UAt \/ Orient \/ TransposeF
        \/ NewFrame \/ NewEye \/ NewNormal \/ DropFrame \/ MkTensor \/ FMetric \/ MkDefault \/ DropTensor
        \/ SetFrame \/ SetFrameArr \/ SetFrameBad \/ TScaleI \/ TAddI \/ TNumI \/ SetArray \/ ChopT \/ TransposeT \/ OrientT \/ TBad
        \/ TAdd \/ TScale \/ TDual \/ TTransNew \/ TCopy \/ OrientNewT \/ Dot \/ DotN \/ Cross
        \/ FCopy \/ FOpS \/ FOpM \/ FOpF \/ FOrientNew \/ FTrans \/ FDual \/ ShowT \/ ObsClose \/ ObsDcm
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)
TypeOK == /\ \A t \in LiveT : fr[ts[t].f].live
          /\ \A f \in LiveF : QLen(fr[f].ax) = DIM * DIM /\ NonSing(fr[f].ax, DIM)
Objective == \A t \in LiveT : AmbOf(ts[t].c, ts[t].r, fr[ts[t].f].ax) = ts[t].amb
ClassHonest == \A f \in LiveF : ClsOK(fr[f].cls, fr[f].ax)
Geometry == \A f \in LiveF : /\ Mul(Dual(fr[f].ax), Tr(fr[f].ax)) = Eye(DIM)
                             /\ \A g \in LiveF : Mul(Dcm(fr[f].ax, fr[g].ax), Dcm(fr[g].ax, fr[f].ax)) = Eye(DIM)
\* nothing but in-place operations on the tensor itself changes what a tensor denotes
InPlaceT == {"TScaleI", "TAddI", "TNumI", "SetArray", "ChopT", "TransposeT", "OrientT", "DropTensor"}
InPlaceF == {"SetAxes", "SetRow", "ChopF", "IOpS", "IOpM", "IPow", "UOut", "UOutF", "UOut2", "UOutW", "UAt", "Orient", "TransposeF", "DropFrame"}
Ev == Last1(log').e
FrameCondition == [][LET e == Ev IN
   /\ \A t \in LiveT : ~(e.a \in InPlaceT /\ e.t = t) => ts'[t].live /\ ts'[t].amb = ts[t].amb
   /\ \A f \in LiveF : ~(e.a \in InPlaceF /\ e.f = f) => fr'[f] = fr[f]
   /\ ~e.ok => fr' = fr /\ ts' = ts ]_vars
Emit == Len(log) = Depth => PrintT("@@" \o ToJson([dim |-> DIM, log |-> log, init |-> [fr |-> InitF, ts |-> InitT]]))
=============================================================================
