----------------------------- MODULE DocsTrace ------------------------------
(***************************************************************************)
(* Recorded look-ups against the specification.  The first record is the   *)
(* catalog {catalog, own: the names that the entries give themselves}; the *)
(* others are {id, q: [op, arg, verbose], via, obs}: ok, names (in the     *)
(* order shown), groups (the categories shown, in order, each with its     *)
(* functions), sums (the functions whose summaries are shown), cats (a     *)
(* list of categories).                                                    *)
(***************************************************************************)
EXTENDS Docs, Json, IOUtils

Load == ndJsonDeserialize(IOEnv.TRACE)
ASSUME TLCSet(1, Load)
Trace == TLCGet(1)
\* A JSON object without members would not be a record of the same kind; the catalog never is empty.
Catalog == Trace[1].catalog

SetOf(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE Flat(_)
Flat(gs) == IF gs = <<>> THEN <<>> ELSE gs[1].names \o Flat(Tail(gs))

Fits(q, via, obs) ==
  LET w == LookUp(Catalog, q) IN
  /\ obs.ok = w.ok
  /\ IF q.op = "one" \/ via = "lib" \/ ~q.verbose \/ ~w.ok THEN obs.names = w.names
     ELSE \* with summaries: by category, each in order, everything once
          /\ SetOf(obs.names) = SetOf(w.names) /\ Len(obs.names) = Len(w.names)
          /\ Flat(obs.groups) = obs.names
          /\ \A i \in 1..Len(obs.groups) :
               /\ \A n \in SetOf(obs.groups[i].names) : Catalog[n].cat = obs.groups[i].cat
               /\ obs.groups[i].names = SelectSeq(w.names, LAMBDA n : n \in SetOf(obs.groups[i].names))
               /\ \A k \in 1..Len(obs.groups) : i < k => LexLess(obs.groups[i].b, obs.groups[k].b)
  \* the summaries, where they are shown, are those of the functions shown
  /\ (q.op = "one" \/ q.verbose) /\ w.ok /\ via # "lib" => SetOf(w.names) \subseteq SetOf(obs.sums)
  \* every function shown is shown with its own text
  /\ obs.own = obs.names

VARIABLES l, j
Init == l \in 1..Len(Trace) /\ j = 0
Step == /\ j = 0 /\ j' = 1 /\ l' = l
        /\ LET e == Trace[l] IN
           IF l = 1 THEN
             IF CatalogLaws(e.catalog) /\ (\A n \in DOMAIN e.catalog : e.own[n] = n) THEN TRUE
             ELSE PrintT(ToJson([bad |-> 0, undocumented |-> Functions \ DOMAIN e.catalog, unavailable |-> DOMAIN e.catalog \ Functions,
                                 unfit |-> {f \in DOMAIN e.catalog \cap Functions : ~ParamsFit(f, e.catalog[f].params)}]))
           ELSE IF e.q.op = "cats" THEN
             IF SetOf(e.obs.cats) = Categories(Catalog) /\ Len(e.obs.cats) = Cardinality(Categories(Catalog)) /\ e.obs.sorted THEN TRUE
             ELSE PrintT(ToJson([bad |-> e.id, want |-> Categories(Catalog)]))
           ELSE IF Fits(e.q, e.via, e.obs) THEN TRUE ELSE PrintT(ToJson([bad |-> e.id, want |-> LookUp(Catalog, e.q)]))
Spec == Init /\ [][Step]_<<l, j>>
Complete == TLCGet("stats").distinct = 2 * Len(Trace)
=============================================================================
