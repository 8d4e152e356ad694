------------------------------ MODULE RunsGen -------------------------------
(***************************************************************************)
(* Every schedule of a few small runs, instruction by instruction.         *)
(***************************************************************************)
EXTENDS Runs, Json

CONSTANTS Many, Wide
Fn(f, as) == Lst(<<Sym(BytesOf[f])>> \o as)
A == Str(<<97>>)
Insert == Fn("insert", <<Str(<<98>>)>>)
Search == Fn("search-forward", <<A>>)
Replace == Fn("replace-match", <<Str(<<99, 99>>)>>)
Progs ==
  <<  <<Search, Replace>>,
      <<Insert, Search, Replace>>,
      <<Fn("set-mark", <<Num(3)>>), Fn("delete-region", <<>>)>>,
      <<Fn("goto-char", <<Num(9)>>), Insert>>,
      <<Search, Fn("kill-line", <<>>), Replace>>,
      <<Fn("re-search-forward", <<Str(<<91, 97, 98, 93, 43>>)>>), Fn("insert", <<Fn("buffer-substring", <<Num(1), Fn("point", <<>>)>>)>>), Fn("buffer-size", <<>>)>> >>
  \o IF Wide THEN << <<>>, <<Fn("mark-whole-buffer", <<>>), Fn("replace-region", <<A>>), Insert, Fn("exchange-point-and-mark", <<>>)>>,
                     <<Sym(<<122>>)>>, <<Insert, Lst(<<Sym(<<122, 122>>)>>), Insert>> >>
     ELSE <<>>
Texts == IF Many = 2 THEN <<<<97, 98, 97>>, <<120, 10, 97>>>> ELSE <<<<97, 98, 97>>>>
Candidates == [t: {Texts[i] : i \in 1..Len(Texts)}, p: {Progs[i] : i \in 1..Len(Progs)}]

VARIABLES runs, at, sched
vars == <<runs, at, sched>>
\* Lists of runs are taken up to order.
RECURSIVE Chosen(_)
Index(p) == CHOOSE i \in 1..Len(Progs) : Progs[i] = p
Chosen(n) == IF n = 0 THEN {<<>>} ELSE {Append(s, c) : s \in Chosen(n - 1), c \in Candidates}
Init == /\ runs \in {s \in Chosen(Many) : \A i \in 1..(Many - 1) : Index(s[i].p) <= Index(s[i + 1].p)}
        /\ at = [i \in 1..Many |-> RunStart(runs[i])] /\ sched = <<>>
Step(i) == /\ at[i].ok = "go"
           /\ at' = [at EXCEPT ![i] = RunStep(runs[i], @)]
           /\ sched' = Append(sched, i) /\ UNCHANGED runs
Next == \E i \in 1..Many : Step(i)
Spec == Init /\ [][Next]_vars
Done == \A i \in 1..Many : at[i].ok # "go"

\* Under every schedule every run is where it would be alone, after as many steps.
Isolated == \A i \in 1..Many : LET o == Alone(runs[i]) IN
              /\ Seen(at[i].s) = AloneAfter(runs[i], o, at[i].n)
              /\ at[i].ok # "go" => at[i].ok = o.ok /\ at[i].s.m = o.m /\ VEq(at[i].v, o.v)
\* A step of one run leaves the others where they are.
OnlyOne == [][\E i \in 1..Many : \A k \in 1..Many : k # i => at'[k] = at[k]]_vars
Emit == Done => PrintT(ToJson([runs |-> runs, sched |-> sched, want |-> [i \in 1..Many |-> Alone(runs[i])]]))
=============================================================================
