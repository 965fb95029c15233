----------------------------- MODULE Interleave -----------------------------
(***************************************************************************)
(* Runs that take turns. Every run is a program of Steps calls; a call is a *)
(* function of what the run has done so far, of its arguments and of the    *)
(* state of the random generator, which all runs share; it advances the     *)
(* generator and leaves everything else alone. A user who wants a run to be *)
(* reproducible gives each its own stream: the state of the generator is    *)
(* exchanged when another run takes over (Exchange).                        *)
(*                                                                         *)
(* Alone says that no run can tell that there are others. Every complete    *)
(* interleaving is printed and replayed into the implementation (suite      *)
(* "runs", property C30); TraceRuns validates what happened.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Runs, Steps, Exchange

VARIABLES local, gen, saved, sched
vars == <<local, gen, saved, sched>>

(* the calls, uninterpreted: what a run holds after its next call, and the generator after it *)
Out(loc, g) == Append(loc, g)
Draw(r, loc, g) == <<g[1], g[2] + (IF Len(loc) % 2 = 0 THEN 1 ELSE 2)>>     \* calls may take any number of draws
Seed(r) == <<r, 0>>

Init == /\ local = [r \in 1..Runs |-> <<>>]
        /\ gen = Seed(1)
        /\ saved = [r \in 1..Runs |-> Seed(r)]
        /\ sched = <<>>

Call(r) == LET g == IF Exchange THEN saved[r] ELSE gen
               h == Draw(r, local[r], g)
           IN /\ Len(local[r]) < Steps
              /\ local' = [local EXCEPT ![r] = Out(@, g)]
              /\ gen' = h
              /\ saved' = [saved EXCEPT ![r] = h]
              /\ sched' = Append(sched, r)

Next == \E r \in 1..Runs : Call(r)
Spec == Init /\ [][Next]_vars

(* the same run with nobody else there *)
RECURSIVE Solo(_, _)
Solo(r, k) == IF k = 0 THEN <<<<>>, Seed(r)>>
              ELSE LET s == Solo(r, k - 1) IN <<Out(s[1], s[2]), Draw(r, s[1], s[2])>>

Alone == \A r \in 1..Runs : local[r] = Solo(r, Len(local[r]))[1]

Emit == Len(sched) = Runs * Steps => PrintT("@@S" \o ToJson([s |-> sched]))
=============================================================================
