------------------------------- MODULE MRead -------------------------------
(* Reading by attribute: lookups and pulls.  What they return is a function of the facts; whether
   attributes are cached, and by which kind of handle they are read, makes no difference.          *)
EXTENDS MTx

Lb(c, l) == IF c THEN {} ELSE {l}
NoDup(xs) == Cardinality(Set(xs)) = Len(xs)

\* A cache can be kept of an attribute, and only of an attribute.
CacheOk(S, op) == op.a \in DOMAIN S.ids /\ S.ids[op.a] \in DOMAIN S.attrs

LookVals(S, op) == IF op.a \in DOMAIN S.ids THEN ValuesOf(S.facts, op.e, S.ids[op.a]) ELSE {}
LookLabels(S, op, r) ==
  LET known == op.a \in DOMAIN S.ids
      V == LookVals(S, op)
      one == r.one
      all == r.all
  IN Lb(one.ok = known /\ all.ok = known, "look:ident")
     \cup (IF one.ok THEN Lb(Len(one.xs) = (IF V = {} THEN 0 ELSE 1) /\ Set(one.xs) \subseteq V, "look:one") ELSE {})
     \cup (IF all.ok THEN Lb(Set(all.xs) = V /\ NoDup(all.xs), "look:all") ELSE {})
LookCov(S, op) ==
  LET n == Cardinality(LookVals(S, op)) IN
  {"look:" \o (IF op.a \notin DOMAIN S.ids THEN "unknown" ELSE IF n = 0 THEN "none" ELSE IF n = 1 THEN "one" ELSE "many")}

-----------------------------------------------------------------------------
\* Pulling attributes, named by entid, of entities.

PullAttrs(S, op) == {a \in Set(op.as) : a \in DOMAIN S.attrs}
Named(eids, a) == \E p \in eids : p[2] = a
NameOf(eids, a) == (CHOOSE p \in eids : p[2] = a)[1]

Vec(X) == [t |-> "vec", n |-> 0, s |-> "", xs |-> X]
\* What is pulled of entity e: <<keyword, value or set of values>>.
PullOf(S, eids, e, A) ==
  UNION {LET V == ValuesOf(S.facts, e, a) IN
         IF V = {} THEN {}
         ELSE {<<NameOf(eids, a), IF S.attrs[a].many THEN Vec(V) ELSE CHOOSE v \in V : TRUE>>} : a \in A}

CanonV(v) == IF v.t = "vec" THEN Vec(Set(v.xs)) ELSE v
NoDupV(v) == v.t = "vec" => NoDup(v.xs)

PullLabels(S, eids, op, r) ==
  LET named == \A a \in Set(op.as) : Named(eids, a)
      A == PullAttrs(S, op)
      want == {<<e, PullOf(S, eids, e, A)>> : e \in {x \in Set(op.es) : PullOf(S, eids, x, A) # {}}}
      got == {<<w.e, {<<p.k, CanonV(p.v)>> : p \in Set(w.kvs)}>> : w \in Set(r.rows)}
  IN IF ~r.ok THEN Lb(~named, "pull:error")
     ELSE Lb(named, "pull:unnamed")
          \cup (IF named THEN Lb(got = want, "pull:rows") ELSE {})
          \cup Lb(\A w \in Set(r.rows) : NoDup(w.kvs) /\ \A p \in Set(w.kvs) : NoDupV(p.v), "pull:duplicate")
PullCov(S, eids, op) ==
  IF ~(\A a \in Set(op.as) : Named(eids, a)) THEN {"pull:unnamed"}
  ELSE LET A == PullAttrs(S, op)
           X == {e \in Set(op.es) : PullOf(S, eids, e, A) # {}}
       IN (IF X = {} THEN {"pull:empty"} ELSE {"pull:rows"})
          \cup (IF X # Set(op.es) THEN {"pull:absent"} ELSE {})
          \cup (IF \E e \in X : \E p \in PullOf(S, eids, e, A) : p[2].t = "vec" THEN {"pull:many"} ELSE {})
=============================================================================
