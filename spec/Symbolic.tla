------------------------------ MODULE Symbolic ------------------------------
(***************************************************************************)
(* Symbolic functions and relations.  An expression is built step by step  *)
(* on a stack (the implementation receives its text or its SymPy form), a  *)
(* function or relation is created from it and then queried.  Meanings are *)
(* integer polynomials: finite maps from exponent vectors to coefficients. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC, Json

CONSTANTS NV,        \* number of variables
          Depth, Sim, Mode,   \* Mode: "function" or "relation"
          MaxDeg, MaxCoef, MaxBuild
VARIABLES stack,     \* meanings of the expressions built so far (sequence of polynomials)
          nb,        \* building steps taken
          fn,        \* the function or relation: [on, p, vars, op, kind]
          log
vars == <<stack, nb, fn, log>>

Salt == Len(log)
Pick(S) == IF Sim THEN (LET T == IF Salt < 0 THEN {} ELSE S IN IF T = {} THEN {} ELSE {RandomElement(T)}) ELSE S

\* ------------------------------------------------------------ polynomials
Zero == [i \in 1..NV |-> 0]
Unit(i) == [j \in 1..NV |-> IF j = i THEN 1 ELSE 0]
SetSum(S, F(_)) == MapThenSumSet(F, S)
Norm(f) == LET D == {e \in DOMAIN f : f[e] # 0} IN [e \in D |-> f[e]]
At(f, e) == IF e \in DOMAIN f THEN f[e] ELSE 0
PConst(c) == Norm([e \in {Zero} |-> c])
PVar(i) == [e \in {Unit(i)} |-> 1]
PAdd(f, g) == Norm([e \in (DOMAIN f) \cup (DOMAIN g) |-> At(f, e) + At(g, e)])
PScale(f, c) == Norm([e \in DOMAIN f |-> c * f[e]])
PSub(f, g) == PAdd(f, PScale(g, -1))
VAdd(a, b) == [i \in 1..NV |-> a[i] + b[i]]
PMul(f, g) == LET D == {VAdd(a, b) : a \in DOMAIN f, b \in DOMAIN g}
                  P == (DOMAIN f) \X (DOMAIN g)
              IN Norm([e \in D |-> SetSum({ab \in P : VAdd(ab[1], ab[2]) = e}, LAMBDA ab : f[ab[1]] * g[ab[2]])])
RECURSIVE Pow(_, _)
Pow(b, k) == IF k = 0 THEN 1 ELSE b * Pow(b, k - 1)
RECURSIVE Mon(_, _, _)
Mon(e, x, i) == IF i = 0 THEN 1 ELSE Pow(x[i], e[i]) * Mon(e, x, i - 1)
PEval(f, x) == SetSum(DOMAIN f, LAMBDA e : f[e] * Mon(e, x, NV))
PDer(f, i) == LET D == {e \in DOMAIN f : e[i] > 0} IN
              [e \in {[d EXCEPT ![i] = @ - 1] : d \in D} |-> LET d == [e EXCEPT ![i] = @ + 1] IN d[i] * f[d]]
Deg(f, i) == IF DOMAIN f = {} THEN 0 ELSE LET S == {e[i] : e \in DOMAIN f} IN CHOOSE m \in S : \A k \in S : k <= m
RECURSIVE Tot(_, _)
Tot(e, i) == IF i = 0 THEN 0 ELSE e[i] + Tot(e, i - 1)
TotDeg(f) == IF DOMAIN f = {} THEN 0 ELSE LET S == {Tot(e, NV) : e \in DOMAIN f} IN CHOOSE m \in S : \A k \in S : k <= m
Uses(f) == {i \in 1..NV : Deg(f, i) > 0}
Small(f) == TotDeg(f) <= MaxDeg /\ \A e \in DOMAIN f : f[e] <= MaxCoef /\ -f[e] <= MaxCoef
\* substitute integer v for variable i
PSubst(f, i, v) == LET D == {[e EXCEPT ![i] = 0] : e \in DOMAIN f} IN
  Norm([d \in D |-> SetSum({e \in DOMAIN f : [e EXCEPT ![i] = 0] = d}, LAMBDA e : f[e] * Pow(v, e[i]))])
PSwap(f, i, j) == [d \in {[e EXCEPT ![i] = e[j], ![j] = e[i]] : e \in DOMAIN f} |-> f[[d EXCEPT ![i] = d[j], ![j] = d[i]]]]
\* as a list of terms, for the record
RECURSIVE Terms(_, _)
Terms(f, D) == IF D = {} THEN <<>> ELSE LET e == CHOOSE e \in D : TRUE IN <<[e |-> e, c |-> f[e]]>> \o Terms(f, D \ {e})
Rec(f) == Terms(f, DOMAIN f)

\* ------------------------------------------------------------ building an expression
Top == stack[Len(stack)]
Second == stack[Len(stack) - 1]
Rest(k) == SubSeq(stack, 1, Len(stack) - k)
CanBuild == ~fn.on /\ nb < MaxBuild /\ Len(log) < Depth
CanCollapse == ~fn.on /\ nb < MaxBuild + 4 /\ Len(log) < Depth       \* expressions left on the stack can always be joined
Put(e, s) == /\ stack' = s /\ nb' = nb + 1 /\ UNCHANGED fn /\ log' = Append(log, e)
PushC == \E c \in Pick(IF Sim THEN -4..5 ELSE {-1, 0, 2}) : CanBuild /\ Len(stack) < 4 /\ Put([a |-> "C", c |-> c], Append(stack, PConst(c)))
PushV == \E i \in Pick(1..NV) : CanBuild /\ Len(stack) < 4 /\ Put([a |-> "V", i |-> i], Append(stack, PVar(i)))
PushT == \E i \in Pick(1..NV), c \in Pick(IF Sim THEN -3..4 ELSE {-2, 3}), k \in Pick({1, 2}) :   \* a term c*x^k
  CanBuild /\ Len(stack) < 4 /\ c # 0 /\ Put([a |-> "T", i |-> i, c |-> c, k |-> k], Append(stack, PScale([e \in {[Zero EXCEPT ![i] = k]} |-> 1], c)))
Bin == \E op \in Pick({"+", "-", "*", "+", "-"}) :
  /\ CanCollapse /\ Len(stack) >= 2
  /\ LET o == IF op = "*" /\ ~(TotDeg(Second) + TotDeg(Top) <= MaxDeg /\ Small(PMul(Second, Top))) THEN "+" ELSE op
         r == CASE o = "+" -> PAdd(Second, Top) [] o = "-" -> PSub(Second, Top) [] o = "*" -> PMul(Second, Top)
     IN Put([a |-> "B", op |-> o], Append(Rest(2), r))
Un == \E op \in Pick({"neg", "sq"}) :
  /\ CanBuild /\ Len(stack) >= 1
  /\ LET o == IF op = "sq" /\ ~(2 * TotDeg(Top) <= MaxDeg /\ Small(PMul(Top, Top))) THEN "neg" ELSE op
         r == IF o = "neg" THEN PScale(Top, -1) ELSE PMul(Top, Top)
     IN Put([a |-> "U", op |-> o], Append(Rest(1), r))
Pt == [1..NV -> -3..3]
PtOf(k) == [i \in 1..NV |-> ((k * (3 * i + 1) + (k \div 11) * i * i + k \div 5) % 7) - 3]
Ks == IF Sim THEN 0..5000 ELSE {3, 10}
\* the value of the expression on top at a point, as a constant (boundary points of relations)
PushValue == \E k \in Pick(Ks) : CanBuild /\ Len(stack) \in 1..3 /\ Mode = "relation" /\
  LET v == PEval(Top, PtOf(k)) IN (v < 500 /\ v > -500) /\ Put([a |-> "C", c |-> v, k |-> k], Append(stack, PConst(v)))

\* ------------------------------------------------------------ creation
Perms == {q \in [1..NV -> 1..NV] : \A i, j \in 1..NV : i # j => q[i] # q[j]}
Given == IF Sim THEN {"none", "names", "symbols", "positive", "integer", "text", "renamed", "replaced"} ELSE {"names"}
None == [on |-> FALSE, p |-> PConst(0), vars |-> <<>>, op |-> "", kind |-> "", src |-> ""]
VarLists == {<<1>>, <<2, 1>>, <<1, 2>>} \cup Perms \cup {<<3, 1>>, <<2, 3>>, <<3>>}
VarOK(vl, f) == (\A j \in 1..Len(vl) : vl[j] <= NV) /\ Uses(f) \subseteq {vl[j] : j \in 1..Len(vl)}
Say(e, f) == /\ fn' = f /\ log' = Append(log, e) /\ UNCHANGED <<stack, nb>>

AllLists == VarLists \cup (IF NV < 4 THEN {} ELSE {<<4, 2>>, <<3, 1, 4, 2>>, <<2, 4, 1, 3>>, <<4>>})
UsedList(f) == SelectSeq([i \in 1..NV |-> i], LAMBDA i : i \in Uses(f))
\* the variables that occur in the text of the expression (they may cancel out)
Mentioned == {log[m].i : m \in {m \in 1..Len(log) : log[m].a \in {"V", "T"} /\ \A l \in m..Len(log) : log[l].a # "Restart"}}
LegalLists(f, g) == {vl \in AllLists : VarOK(vl, f) /\ VarOK(vl, g)}
CreateF == /\ Mode = "function" /\ ~fn.on /\ Len(stack) = 1 /\ Len(log) < Depth /\ nb >= 2
  /\ \E src \in Pick({"str", "expr"}), vl \in Pick(LegalLists(Top, Top)), how0 \in Pick(Given), upd \in Pick(BOOLEAN) :
     LET how == IF how0 = "none" /\ (Uses(Top) = {} \/ Uses(Top) # Mentioned) THEN "names" ELSE how0
         v == IF how = "none" THEN UsedList(Top) ELSE vl IN          \* without a list the variables are those of the expression
     Say([a |-> "Create", src |-> src, vars |-> v, how |-> how, upd |-> upd], [on |-> TRUE, p |-> Top, vars |-> v, op |-> "", kind |-> "Function", src |-> src])
\* a function given by callables
CreateN == /\ Mode = "function" /\ ~fn.on /\ Len(stack) = 1 /\ Len(log) < Depth /\ nb >= 2 /\ Sim
  /\ \E parts \in Pick(1..3), upd \in Pick(BOOLEAN), x \in Pick(1..3) :
     /\ x = 1
     /\ Say([a |-> "CreateN", p |-> Rec(Top), parts |-> parts, upd |-> upd, n |-> NV],
             [on |-> TRUE, p |-> Top, vars |-> [i \in 1..NV |-> i], op |-> "", kind |-> "numeric", src |-> <<"f", "fg", "fgG">>[parts]])
\* start over; the object may be given its new meaning in place
Restart == /\ Sim /\ fn.on /\ Mode = "function" /\ Len(log) < Depth - 8 /\ \E x \in Pick(1..4) : x = 1
  /\ stack' = <<>> /\ nb' = 0 /\ fn' = None /\ log' = Append(log, [a |-> "Restart"])

\* ------------------------------------------------------------ queries of functions
Live(m) == fn.on /\ Mode = m /\ Len(log) < Depth
Sym(m) == Live(m) /\ fn.kind # "numeric"
Has(q) == fn.kind # "numeric" \/ fn.src \in q
V(k) == PEval(fn.p, PtOf(k))
Coord(k) == [j \in 1..Len(fn.vars) |-> PtOf(k)[fn.vars[j]]]
Eval == \E k \in Pick(Ks) : Live("function") /\ Say([a |-> "Eval", x |-> Coord(k), out |-> V(k), p |-> Rec(fn.p), vars |-> fn.vars], fn)
Grad == \E k \in Pick(Ks) : Live("function") /\ Has({"fg", "fgG"}) /\
  Say([a |-> "Grad", x |-> Coord(k), out |-> [j \in 1..Len(fn.vars) |-> PEval(PDer(fn.p, fn.vars[j]), PtOf(k))]], fn)
Hess == \E k \in Pick(Ks) : Live("function") /\ Has({"fgG"}) /\
  Say([a |-> "Hess", x |-> Coord(k), g |-> [j \in 1..Len(fn.vars) |-> PEval(PDer(fn.p, fn.vars[j]), PtOf(k))], out |-> [j \in 1..Len(fn.vars) |-> [l \in 1..Len(fn.vars) |-> PEval(PDer(PDer(fn.p, fn.vars[j]), fn.vars[l]), PtOf(k))]]], fn)
EvalMany == \E k \in Pick(Ks), n \in Pick({1, 2, 3, 4, 19}) : Live("function") /\
  Say([a |-> "EvalMany", xs |-> [m \in 1..n |-> Coord(k + 13 * m)], out |-> [m \in 1..n |-> V(k + 13 * m)]], fn)
Linear == \A i \in Uses(fn.p) : Deg(fn.p, i) <= 1
Flags == Live("function") /\ Say([a |-> "Flags", dim |-> Len(fn.vars), linear |-> Linear, vars |-> fn.vars, sym |-> fn.kind # "numeric"], fn)
Coeffs == \E norm \in Pick(BOOLEAN) : Sym("function") /\ Say([a |-> "Coeffs", norm |-> norm, out |-> Rec(fn.p), vars |-> fn.vars], fn)
LinCoeffs == Sym("function") /\ TotDeg(fn.p) <= 1 /\ Say([a |-> "LinCoeffs", out |-> Rec(fn.p), vars |-> fn.vars], fn)
Simplify == Sym("function") /\ Say([a |-> "Simplify"], fn)

RECURSIVE SubAll(_, _, _)
SubAll(f, is, vs) == IF is = <<>> THEN f ELSE SubAll(PSubst(f, Head(is), Head(vs)), Tail(is), Tail(vs))
Without(s, S) == SelectSeq(s, LAMBDA v : v \notin S)
Subsets == {s \in {<<1>>, <<2>>, <<3>>, <<1, 2>>, <<2, 1>>, <<3, 1>>, <<2, 3>>, <<1, 2, 3>>, <<3, 1, 2>>, <<4>>, <<4, 2>>, <<2, 5, 1>>, <<4, 1, 3>>} : TRUE}
LegalSubsets == {s \in Subsets : \A j \in 1..Len(s) : s[j] \in {fn.vars[m] : m \in 1..Len(fn.vars)}}
Subs == \E is \in Pick(LegalSubsets), k \in Pick(Ks), how \in Pick({"names", "own", "default"}), inplace \in Pick(BOOLEAN), keep \in Pick(BOOLEAN) :
  /\ Sym("function")
  /\ LET js == IF how = "default" THEN fn.vars ELSE is
         vs == [j \in 1..Len(js) |-> PtOf(k)[js[j]]]
         p == SubAll(fn.p, js, vs)
         left == Without(fn.vars, {js[j] : j \in 1..Len(js)})
         nv == IF left = <<>> THEN fn.vars ELSE left
         f == [fn EXCEPT !.p = p, !.vars = nv]
     IN /\ Len(js) > 0
        /\ Say([a |-> "Subs", is |-> js, vals |-> vs, how |-> how, inplace |-> inplace, keep |-> keep, p |-> Rec(p), vars |-> nv,
                x |-> Coord(k + 5), was |-> PEval(fn.p, PtOf(k + 5))],
               IF keep /\ ~inplace THEN fn ELSE f)
SubsSwap == \E i \in Pick(1..Len(fn.vars)) : \E j \in Pick(1..Len(fn.vars) \ {i}) :
  /\ Sym("function")
  /\ LET a == fn.vars[i]
         b == fn.vars[j]
         p == PSwap(fn.p, a, b)
         left == SelectSeq(fn.vars, LAMBDA v : v \notin {a, b} \/ v \in Uses(p))      \* the substituted ones stay if they occur
         nv == IF left = <<>> THEN fn.vars ELSE left IN
     Say([a |-> "Swap", i |-> a, j |-> b, p |-> Rec(p), vars |-> nv], [fn EXCEPT !.p = p, !.vars = nv])

\* ------------------------------------------------------------ relations: lhs op rhs
Ops == {"=", "<", "<=", ">", ">="}
KindOf(op) == IF op = "=" THEN "Equality" ELSE "InEquality"
Forms == IF ~Sim THEN {"text", "default"} ELSE {"text", "text-moved", "text-tight", "text-loose", "text-expanded", "callable", "expr-op", "expr-enum", "expr-operator", "expr-opstr", "str-op", "callable-opstr", "default"}
CreateR == /\ Mode = "relation" /\ ~fn.on /\ Len(stack) = 2 /\ Len(log) < Depth /\ nb >= 2
  /\ \E op \in Pick(Ops), form \in Pick(Forms), cls \in Pick({"Relation", "Equality", "InEquality"}), vl \in Pick(LegalLists(Top, Second)), how \in Pick(Given) :
     LET p == PSub(Second, Top)
         o == IF form = "default" THEN "=" ELSE op
         ok == cls = "Relation" \/ cls = KindOf(o)
         fm == IF form = "callable" /\ ~ok THEN "callable-opstr" ELSE form       \* of a bare callable the kind is not known
         kind == IF fm = "callable" THEN cls ELSE KindOf(o)
         hw == IF how = "none" /\ (Uses(p) = {} \/ Uses(p) # Mentioned) THEN "names" ELSE how
         v == IF hw = "none" THEN UsedList(p) ELSE vl IN
        Say([a |-> "Relation", op |-> o, form |-> fm, cls |-> cls, vars |-> v, how |-> hw, ok |-> ok, kind |-> kind],
            IF ok THEN [on |-> TRUE, p |-> p, vars |-> v, op |-> o, kind |-> kind, src |-> fm] ELSE fn)
Holds(v, op) == CASE op = "=" -> v = 0 [] op = "<" -> v < 0 [] op = "<=" -> v <= 0 [] op = ">" -> v > 0 [] op = ">=" -> v >= 0
\* points: anywhere, or those for which a constant was pushed (boundary)
Marks == {log[m].k : m \in {m \in 1..Len(log) : log[m].a = "C" /\ "k" \in DOMAIN log[m]}}
Relate == \E k \in Pick(Ks \cup {}), b \in Pick(BOOLEAN) : Live("relation") /\
  LET kk == IF b /\ Marks # {} THEN CHOOSE m \in Marks : TRUE ELSE k IN
  Say([a |-> "Relate", x |-> Coord(kk), out |-> Holds(V(kk), fn.op), zero |-> V(kk) = 0], fn)
RelateMany == \E k \in Pick(Ks), n \in Pick({2, 3, 4, 23}) : Live("relation") /\
  Say([a |-> "RelateMany", xs |-> [m \in 1..n |-> Coord(k + 13 * m)], out |-> [m \in 1..n |-> Holds(V(k + 13 * m), fn.op)]], fn)
\* texts which are not relations: a wrong operator, a missing side, several operators
BadOps == IF ~Sim THEN {"=="} ELSE {"==", "=>", "=<", "!=", "<>", "><", "<<", ">>", "===", "<==", ">==", "= <", "< ="}
Malformed == \E shape \in Pick({"badop", "noleft", "noright", "two", "badkw", "badopstr", "both"}), op \in Pick(Ops), bad \in Pick(BadOps), cls \in Pick({"Relation", "Equality", "InEquality"}) :
  /\ Mode = "relation" /\ ~fn.on /\ Len(stack) = 2 /\ Len(log) < Depth /\ nb >= 2
  /\ Say([a |-> "Malformed", shape |-> shape, op |-> op, bad |-> bad, cls |-> cls], fn)

Init == stack = <<>> /\ nb = 0 /\ fn = None /\ log = <<>>
Next == PushC \/ PushV \/ PushT \/ Bin \/ Un \/ PushValue \/ CreateF \/ CreateN \/ Restart \/ CreateR \/ Malformed
        \/ Eval \/ Grad \/ Hess \/ EvalMany \/ Flags \/ Coeffs \/ LinCoeffs \/ Simplify \/ Subs \/ SubsSwap \/ Relate \/ RelateMany
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------ properties of the specification
\* the derivative is right: exact for polynomials of degree <= 2 by central differences with step 1
DerivOK == fn.on => \A i \in Uses(fn.p) : Deg(fn.p, i) <= 2 =>
             LET up == [Zero EXCEPT ![i] = 1]
                 dn == [Zero EXCEPT ![i] = -1] IN 2 * PEval(PDer(fn.p, i), Zero) = PEval(fn.p, up) - PEval(fn.p, dn)
HessSym == fn.on => \A i, j \in 1..NV : PDer(PDer(fn.p, i), j) = PDer(PDer(fn.p, j), i)
VarsCover == fn.on => VarOK(fn.vars, fn.p)
SwapTwice == fn.on /\ NV > 1 => PSwap(PSwap(fn.p, 1, 2), 1, 2) = fn.p
View == <<stack, nb, fn, Len(log)>>
Queries == Cardinality({m \in 1..Len(log) : log[m].a \notin {"C", "V", "T", "B", "U"}})
Emit == (Sim /\ Len(log) = Depth /\ Queries >= 2) => PrintT("@@" \o ToJson([nv |-> NV, mode |-> Mode, log |-> log]))
=============================================================================
