-------------------------------- MODULE Runs --------------------------------
(***************************************************************************)
(* Several runs of programs in one process, each on its own buffer, with   *)
(* one function environment.  A run is [t: the text, p: the program]; its  *)
(* state is [s: state of the buffer, n: instructions done, ok, v].         *)
(* A step of the system is one instruction of one run.                     *)
(***************************************************************************)
EXTENDS Program

\* The functions available, as a run sees them: no run changes them.
RunStart(run) == [s |-> NewState(run.t), n |-> 0, ok |-> IF run.p = <<>> THEN "ok" ELSE "go", v |-> NoValue]
RunStep(run, x) ==
  LET r == RunProgram(x.s, <<run.p[x.n + 1]>>) IN
  [s |-> r.s, n |-> x.n + 1, v |-> r.v,
   ok |-> IF r.ok # "ok" THEN r.ok ELSE IF x.n + 1 = Len(run.p) THEN "ok" ELSE "go"]

\* What the run shows after n steps, when it runs alone.
Alone(run) == Outcome(run.t, run.p)
AloneAfter(run, o, n) == IF n = 0 THEN Seen(NewState(run.t)) ELSE IF n <= Len(o.ev) THEN o.ev[n] ELSE o.s
=============================================================================
