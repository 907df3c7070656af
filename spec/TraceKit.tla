------------------------------ MODULE TraceKit ------------------------------
(* Shared machinery of the trace specifications: the recorded trace of the   *)
(* implementation is a sequence of events; every trace module walks it with  *)
(* the actions of its specification and reports the name of every clause     *)
(* that an event violates.  Verdicts are total: a violated clause is         *)
(* reported and the walk goes on, so the rest of the trace is judged too.    *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)

Report(i, clauses) == \A c \in clauses : PrintT(<<"FAIL", i, c>>)

(* Failing(cl): cl is a set of <<name, holds>> pairs *)
Failing(cl) == { c[1] : c \in { x \in cl : ~ x[2] } }

Abs(x) == IF x < 0 THEN -x ELSE x
Near(x, y, tol) == Abs(x - y) <= tol
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

TraceDone == PrintT(<<"DONE", TLCGet("stats").diameter - 1>>)
=============================================================================
