-------------------------------- MODULE Docs --------------------------------
(***************************************************************************)
(* The documentation.  A catalog is a function from the names of the       *)
(* documented functions to                                                 *)
(*   [b: the name as bytes, cat: category, see: <<names>>,                 *)
(*    params: <<[t: type, o: optional]>>]                                  *)
(* Looking something up is a function of the catalog alone.                *)
(***************************************************************************)
EXTENDS Editor

RECURSIVE LexLess(_, _)
LexLess(a, b) ==
  IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
  ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b) ELSE LexLess(Tail(a), Tail(b))
NameBytes(c, n) == IF n \in DOMAIN c THEN c[n].b ELSE BytesOf[n]
Sorted(c, names) == SetToSortSeq(names, LAMBDA a, b : LexLess(NameBytes(c, a), NameBytes(c, b)))

OfCategory(c, k) == {n \in DOMAIN c : c[n].cat = k}
Categories(c) == {c[n].cat : n \in DOMAIN c}

\* Look-ups: [ok, names: the functions shown, in order]
Shown(c, names) == [ok |-> TRUE, names |-> Sorted(c, names)]
NotFound == [ok |-> FALSE, names |-> <<>>]
One(c, n) == IF n \in DOMAIN c THEN Shown(c, {n}) ELSE NotFound
All(c) == Shown(c, DOMAIN c)
ByCategory(c, k) == IF OfCategory(c, k) = {} THEN NotFound ELSE Shown(c, OfCategory(c, k))
LookUp(c, q) == CASE q.op = "one" -> One(c, q.arg) [] q.op = "all" -> All(c) [] q.op = "cat" -> ByCategory(c, q.arg) [] q.op = "env" -> Shown(c, Functions)

\* The documented parameters are those that the function has.
TypeOf == "s" :> "string" @@ "n" :> "number"
ParamsFit(f, ps) ==
  IF f = "concat" THEN Len(ps) = 1 /\ ps[1].t = "string"
  ELSE /\ Len(ps) = Len(Sig(f).a)
       /\ \A i \in 1..Len(ps) : ps[i].t = TypeOf[Sig(f).a[i]] /\ ps[i].o = (i > Sig(f).r)

CatalogLaws(c) ==
  \* documented and available is the same
  /\ DOMAIN c = Functions
  /\ \A f \in DOMAIN c : c[f].cat # "" /\ ParamsFit(f, c[f].params)
  \* what is referred to is there
  /\ \A f \in DOMAIN c : \A i \in 1..Len(c[f].see) : c[f].see[i] \in DOMAIN c
  \* the categories are a partition of all
  /\ UNION {OfCategory(c, k) : k \in Categories(c)} = DOMAIN c
  /\ \A k \in Categories(c), m \in Categories(c) : k # m => OfCategory(c, k) \cap OfCategory(c, m) = {}
  \* the list of all is complete, sorted, without duplicates; every category is a part of it, in the same order
  /\ LET a == All(c).names IN
     /\ Len(a) = Cardinality(DOMAIN c) /\ \A i \in 1..(Len(a) - 1) : LexLess(BytesOf[a[i]], BytesOf[a[i + 1]])
     /\ \A k \in Categories(c) : ByCategory(c, k).names = SelectSeq(a, LAMBDA n : c[n].cat = k)
     /\ \A n \in DOMAIN c : One(c, n).names = <<n>>
=============================================================================
