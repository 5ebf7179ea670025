------------------------------ MODULE NamedFns ------------------------------
(***************************************************************************)
(* The named test functions of optimization, by their textbook formulas    *)
(* over integer points (values as integers over a common denominator),     *)
(* with what is known about their minima.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT R       \* points -R..R
VARIABLES f, x, y, a, b
vars == <<f, x, y, a, b>>
Sq(u) == u * u
Cube(u) == u * u * u
Den(g) == CASE g = "Beale" -> 64 [] g = "Matyas" -> 100 [] OTHER -> 1
Val(g, u, v, p, q) ==
  CASE g = "Rosenbrock" -> Sq(p - u) + q * Sq(v - u * u)
    [] g = "Himmelblau" -> Sq(u * u + v - 11) + Sq(u + v * v - 7)
    [] g = "GoldsteinPrice" -> (1 + Sq(u + v + 1) * (19 - 14 * u + 3 * u * u - 14 * v + 6 * u * v + 3 * v * v))
                               * (30 + Sq(2 * u - 3 * v) * (18 - 32 * u + 12 * u * u + 48 * v - 36 * u * v + 27 * v * v))
    [] g = "Beale" -> Sq(12 - 8 * u + 8 * u * v) + Sq(18 - 8 * u + 8 * u * v * v) + Sq(21 - 8 * u + 8 * u * Cube(v))
    [] g = "Matyas" -> 26 * (u * u + v * v) - 48 * u * v
Min(g) == IF g = "GoldsteinPrice" THEN 3 ELSE 0        \* the known minimum value
NumMin(g) == IF g = "Himmelblau" THEN 4 ELSE 1         \* the known number of minimum points
Names == {"Rosenbrock", "Himmelblau", "GoldsteinPrice", "Beale", "Matyas"}
Init == /\ f \in Names /\ x \in -R..R /\ y \in -R..R
        /\ a \in (IF f = "Rosenbrock" THEN {1, -2, 3} ELSE {0}) /\ b \in (IF f = "Rosenbrock" THEN {100, 1, 7} ELSE {0})
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
\* the known minimum really bounds the values; the known integer minimum points attain it
Bounded == Val(f, x, y, a, b) >= Min(f)
Attained == /\ Val("Rosenbrock", a, a * a, a, b) = 0 /\ Val("Himmelblau", 3, 2, 0, 0) = 0 /\ Val("GoldsteinPrice", 0, -1, 0, 0) = 3 /\ Val("Matyas", 0, 0, 0, 0) = 0
Emit == PrintT("@@" \o ToJson([f |-> f, x |-> <<x, y>>, a |-> a, b |-> b, n |-> Val(f, x, y, a, b), d |-> Den(f), min |-> Min(f), nmin |-> NumMin(f)]))
=============================================================================
