------------------------------ MODULE TraceBase ------------------------------
(***************************************************************************)
(* Validation of recorded executions.  A trace file has one JSON object    *)
(* per line, [id, kind, h (header), ev (events)]; every trace is an        *)
(* initial state of its own, so TLC's workers validate traces in parallel. *)
(*   l    the event being explained (Len + 1 when the trace is consumed)   *)
(*   s    the state of the specification, threaded by the actions          *)
(*   bad  the names of the clauses the trace has violated                  *)
(* Verdicts are total: a recorded value that is not finite, has the wrong  *)
(* shape, or is an exception of the code under test violates a clause and  *)
(* ends the trace; TLC itself must never fail on a trace.                  *)
(***************************************************************************)
EXTENDS Poly, FiniteSets, Json, IOUtils

VARIABLES tr, l, s, bad
tvars == <<tr, l, s, bad>>

Traces == ndJsonDeserialize(IOEnv.TRACE)
T == Traces[tr]
H == T.h
Ev == T.ev[l]

Chk(name, ok) == IF ok THEN {} ELSE {name}

(* tolerance of the trace, recorded in its header: the precision it ran at *)
Tol == H.tol

Report == PrintT("DONE " \o ToString(tr) \o " " \o T.id \o " " \o ToString(bad'))

(* consume one event with verdict v (a set of violated clauses) and next   *)
(* state ns; a violation ends the trace, as what follows is unconstrained  *)
Consume(v, ns) ==
    /\ bad' = bad \cup v
    /\ s' = IF v = {} THEN ns ELSE s
    /\ l' = IF v = {} THEN l + 1 ELSE Len(T.ev) + 1
    /\ tr' = tr
    /\ (l' > Len(T.ev)) => Report

(* a silent step of the specification between two events *)
Silent(ns) == /\ s' = ns /\ UNCHANGED <<tr, l, bad>>

Is(name) == l <= Len(T.ev) /\ Ev.a = name

(* the code under test raised an exception where it must return *)
Raised == Is("Raised") /\ Consume({"Raised"}, s)
=============================================================================
