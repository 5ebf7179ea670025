--------------------------------- MODULE GA ---------------------------------
(***************************************************************************)
(* The run protocol of the genetic optimizer: calls (reset, settings, runs,*)
(* manual evolution, evaluation) are made of generations, the objective    *)
(* may fail at any evaluation.  Objective values are chosen by the         *)
(* environment; the champion, its age and every reported counter follow.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NPop, Depth, Sim, Pops, MaxIters, MinIters, Ages, Elits, Cycles, FailOdds
VARIABLES p,        \* settings in effect [maxiter, miniter, maxage, minimize, elitism]
          pop,      \* the generation at hand: "fresh" (drawn, not evaluated), "peeked" (evaluated, not yet compared to the champion), "done"
          pv,       \* its values (if evaluated)
          champ,    \* [v, age]; age 0 = there is none
          st,       \* reported: [niter, nfev, success, stage, msg]
          hist,     \* ghost: best value of every generation since the last reset
          nev,      \* ghost: members of completely evaluated populations since the last reset
          cur,      \* the call in progress ([a |-> "idle"] if none), with the generations made so far
          ncalls, log
vars == <<p, pop, pv, champ, st, hist, nev, cur, ncalls, log>>

Idle == [a |-> "idle"]
Salt == Len(log) + IF cur.a = "idle" THEN 0 ELSE Len(cur.gens)
Pick(S) == IF Sim THEN (LET T == IF Salt < 0 THEN {} ELSE S IN IF T = {} THEN {} ELSE {RandomElement(T)}) ELSE S
PopOf(k) == [i \in 1..NPop |-> ((k * (2 * i + 1) + (k \div 7) * i * i + (k \div 50) * 3) % 43) - 21]
PopK == IF Sim THEN 0..2000 ELSE 1..Len(Pops)
PopVal(k) == IF Sim THEN PopOf(k) ELSE Pops[k]

Better(x, y) == IF p.minimize THEN x < y ELSE x > y
BestOf(v) == LET S == {v[i] : i \in 1..Len(v)} IN CHOOSE x \in S : \A y \in S : ~Better(y, x)
None == [v |-> 0, age |-> 0]
Clean == [niter |-> 0, nfev |-> 0, success |-> TRUE, stage |-> "none", msg |-> FALSE]
Initialized == "0"  MaxReached == "1"  Converged == "2"  Failed == "-1"

\* what is observable between calls
Obs(c, s) == [champ |-> c, st |-> s]
Keys == {"maxiter", "miniter", "maxage", "minimize", "elitism"}
Upd(q, kw, keys) == [k \in Keys |-> IF k \in keys THEN kw[k] ELSE q[k]]
BadElit == {"neg", "zero", "frac", "big", "all"}
Valid(q) == q.miniter <= q.maxiter /\ q.elitism \notin BadElit
\* the sense may only change together with a reset (a champion of the other sense would be meaningless)
KeySets == IF Sim THEN SUBSET Keys ELSE {{}, Keys}

Ready == cur.a = "idle" /\ ncalls < Depth
Begin(c) == cur' = c /\ ncalls' = ncalls + 1
End(c, ch, s) == /\ cur' = Idle
                 /\ log' = IF Sim THEN Append(log, [e |-> c, obs |-> Obs(ch, s)]) ELSE log
\* a call which is complete at once
Atomic(c, ch, s) == /\ ncalls' = ncalls + 1 /\ End(c, ch, s)

Init == /\ p = [maxiter |-> 4, miniter |-> 0, maxage |-> 2, minimize |-> FALSE, elitism |-> "1"]
        /\ pop = "fresh" /\ pv = <<>> /\ champ = None /\ st = Clean /\ hist = <<>> /\ nev = 0
        /\ cur = Idle /\ ncalls = 0 /\ log = <<>>

ResetTo == /\ pop' = "fresh" /\ pv' = <<>> /\ hist' = <<>> /\ nev' = 0

Reset == /\ Ready /\ ResetTo /\ champ' = None /\ st' = Clean /\ UNCHANGED p
         /\ Atomic([a |-> "Reset", gens |-> <<>>], None, Clean)

KWs == [maxiter : MaxIters, miniter : MinIters, maxage : Ages, minimize : BOOLEAN, elitism : Elits]
SetParams == \E mi \in Pick(MinIters), ma \in Pick(MaxIters), ag \in Pick(Ages), mz \in Pick(BOOLEAN), el \in Pick(Elits), ks \in Pick(KeySets) :
  /\ Ready
  /\ LET kw == [maxiter |-> ma, miniter |-> mi, maxage |-> ag, minimize |-> mz, elitism |-> el]
         keys == IF champ.age = 0 /\ pop = "fresh" THEN ks ELSE ks \ {"minimize"}
         q == Upd(p, kw, keys)
         ok == Valid(q)
     IN /\ p' = IF ok THEN q ELSE p
        /\ Atomic([a |-> "SetParams", kw |-> kw, keys |-> keys, ok |-> ok, gens |-> <<>>, p |-> p'], champ, st)
  /\ UNCHANGED <<pop, pv, champ, st, hist, nev>>

\* a run: from a clean state, or recycling; settings may be given
StartSolve == \E rec \in Pick(BOOLEAN), mi \in Pick(MinIters), ma \in Pick(MaxIters), ag \in Pick(Ages), mz \in Pick(BOOLEAN), el \in Pick(Elits), ks \in Pick(KeySets) :
  /\ Ready
  /\ LET kw == [maxiter |-> ma, miniter |-> mi, maxage |-> ag, minimize |-> mz, elitism |-> el]
         keys == IF rec /\ ~(champ.age = 0 /\ pop = "fresh") THEN ks \ {"minimize"} ELSE ks
         q == Upd(p, kw, keys)
     IN IF Valid(q)
        THEN /\ p' = q
             /\ Begin([a |-> "Solve", recycle |-> rec, kw |-> kw, keys |-> keys, ok |-> TRUE, p |-> q, gens |-> <<>>])
             /\ IF rec THEN /\ UNCHANGED <<pop, pv, champ, hist, nev>> /\ st' = [st EXCEPT !.msg = FALSE]
                ELSE ResetTo /\ champ' = None /\ st' = Clean
             /\ UNCHANGED log
        ELSE /\ rec                \* rejected: nothing happens
             /\ Atomic([a |-> "Solve", recycle |-> rec, kw |-> kw, keys |-> keys, ok |-> FALSE, p |-> p, gens |-> <<>>], champ, st)
             /\ UNCHANGED <<p, pop, pv, champ, st, hist, nev>>

StartEvolve == \E n \in Pick(Cycles) :
  /\ Ready /\ Begin([a |-> "Evolve", cycles |-> n, gens |-> <<>>])
  /\ UNCHANGED <<p, pop, pv, champ, st, hist, nev, log>>

\* one generation: the population at hand is compared to the champion
Celebrate(v) == LET b == BestOf(v) IN
  IF champ.age = 0 \/ Better(b, champ.v) THEN [v |-> b, age |-> 1] ELSE [champ EXCEPT !.age = @ + 1]
Running == cur.a \in {"Solve", "Evolve"}
StopRule(ch, s) == (ch.age > p.maxage \/ s.niter >= p.maxiter) /\ s.niter >= p.miniter

GenWith(v, cost) ==
  LET ch == Celebrate(v)
      g == [vals |-> v, cost |-> cost, fail |-> 0, champ |-> ch]
      c == [cur EXCEPT !.gens = Append(@, g)]
      s1 == [st EXCEPT !.nfev = @ + cost]
  IN /\ champ' = ch /\ pop' = "done" /\ pv' = v /\ hist' = Append(hist, BestOf(v)) /\ nev' = nev + cost
     /\ UNCHANGED <<p, ncalls>>
     /\ IF cur.a = "Evolve"
        THEN /\ st' = s1
             /\ IF Len(c.gens) = cur.cycles THEN End(c, ch, s1) ELSE cur' = c /\ UNCHANGED log
        ELSE LET s2 == [s1 EXCEPT !.niter = @ + 1]
                 s3 == [s2 EXCEPT !.success = TRUE, !.stage = IF s2.niter >= p.maxiter THEN MaxReached ELSE Converged]
             IN IF StopRule(ch, s2) THEN st' = s3 /\ End(c, ch, s3) ELSE st' = s2 /\ cur' = c /\ UNCHANGED log

Gen == \E k \in Pick(PopK) : Running /\ pop # "peeked" /\ GenWith(PopVal(k), NPop)
GenPeeked == Running /\ pop = "peeked" /\ GenWith(pv, 0)     \* no evaluation is needed

\* the j-th evaluation of a generation fails: the call raises, the generation remains to be evaluated
Fail == \E j \in Pick(1..NPop), k \in Pick(PopK), o \in Pick(1..FailOdds) :
  /\ Running /\ pop # "peeked" /\ o = 1
  /\ LET c == [cur EXCEPT !.gens = Append(@, [vals |-> PopVal(k), cost |-> 0, fail |-> j, champ |-> champ])]
         s == IF cur.a = "Solve" THEN [st EXCEPT !.success = FALSE, !.stage = Failed, !.msg = TRUE] ELSE st
     IN st' = s /\ End(c, champ, s)
  /\ pop' = "fresh" /\ pv' = <<>>
  /\ UNCHANGED <<p, champ, hist, nev, ncalls>>

\* looking at the fitness of the population at hand: evaluates it at most once
Peek == \E k \in Pick(PopK), via \in Pick({"fitness", "best"}) :
  /\ Ready
  /\ IF pop = "fresh"
     THEN LET s == [st EXCEPT !.nfev = @ + NPop] IN
          /\ pop' = "peeked" /\ pv' = PopVal(k) /\ nev' = nev + NPop /\ st' = s
          /\ Atomic([a |-> "Peek", via |-> via, gens |-> <<[vals |-> PopVal(k), cost |-> NPop, fail |-> 0, champ |-> champ]>>, best |-> BestOf(PopVal(k))], champ, s)
     ELSE /\ Atomic([a |-> "Peek", via |-> via, gens |-> <<[vals |-> pv, cost |-> 0, fail |-> 0, champ |-> champ]>>, best |-> BestOf(pv)], champ, st)
          /\ UNCHANGED <<pop, pv, nev, st>>
  /\ UNCHANGED <<p, champ, hist>>

\* evaluating points of the user's choice
Evaluate == \E m \in Pick(1..3), k \in Pick(PopK) :
  /\ Ready
  /\ LET s == [st EXCEPT !.nfev = @ + m] IN
     /\ st' = s /\ nev' = nev + m
     /\ Atomic([a |-> "Evaluate", m |-> m, gens |-> <<[vals |-> PopVal(k), cost |-> m, fail |-> 0, champ |-> champ]>>], champ, s)
  /\ UNCHANGED <<p, pop, pv, champ, hist>>

Next == Reset \/ SetParams \/ StartSolve \/ StartEvolve \/ Gen \/ GenPeeked \/ Fail \/ Peek \/ Evaluate
Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars(Gen \/ GenPeeked)

\* ------------------------------------------------------------------ properties
HBest == BestOf(hist)
FirstAt == CHOOSE i \in 1..Len(hist) : hist[i] = HBest /\ \A j \in 1..(i - 1) : hist[j] # HBest
ChampionIsBest == IF hist = <<>> THEN champ.age = 0 ELSE champ.v = HBest /\ champ.age = Len(hist) - FirstAt + 1
CountsExact == st.nfev = nev
LimitsKept == [][(cur.a = "Solve" /\ cur'.a = "idle" /\ st'.success) =>
                   /\ st'.niter >= p.miniter
                   /\ (st'.niter <= p.maxiter \/ Len(cur.gens) = 0)
                   /\ (st'.stage = MaxReached) = (st'.niter >= p.maxiter)
                   /\ (st'.stage = Converged) => champ'.age > p.maxage]_vars
NeverWorse == [][champ.age > 0 /\ champ'.age > 0 => ~(IF p.minimize THEN champ'.v > champ.v ELSE champ'.v < champ.v) \/ hist' = <<>> \/ Len(hist') < Len(hist) \/ (cur.a = "idle" /\ cur'.a = "Solve")]_vars
ErrorReported == st.stage = Failed => ~st.success /\ (cur.a = "Solve" \/ st.msg)
SettingsValid == Valid(p)
Terminates == (cur.a = "Solve") ~> (cur.a = "idle")

View == <<p, pop, pv, champ, st, hist, nev, cur, ncalls>>
Emit == (Sim /\ ncalls = Depth /\ cur.a = "idle" /\ Len(log) = Depth) =>
          PrintT("@@" \o ToJson([npop |-> NPop, p0 |-> [maxiter |-> 4, miniter |-> 0, maxage |-> 2, minimize |-> FALSE, elitism |-> "1"], log |-> log]))
=============================================================================
