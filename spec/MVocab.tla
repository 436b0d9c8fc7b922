------------------------------- MODULE MVocab -------------------------------
(* Vocabularies: a named, versioned set of attributes.  An entity named by the vocabulary's name has
   a version and refers to its attributes.  Ensuring a definition brings the store to state it.   *)
EXTENDS MTx

DbSchemaVersion == 38   DbSchemaAttribute == 39

\* The vocabulary of that name: its entity, version, attributes.
VocabOf(S, name) ==
  IF name \notin DOMAIN S.ids THEN [k |-> "absent"]
  ELSE LET e == S.ids[name]
           V == ValuesOf(S.facts, e, DbSchemaVersion)
           v == CHOOSE x \in V : TRUE
       IN IF V = {} THEN [k |-> "absent"]
          ELSE IF v.s # "" \/ v.n <= 0 THEN [k |-> "invalid"]
          ELSE [k |-> "present", v |-> v.n,
                as |-> {x.n : x \in {y \in ValuesOf(S.facts, e, DbSchemaAttribute) : y.n \in DOMAIN S.attrs}}]

Props(x) == [vt |-> x.vt, many |-> x.many, uniq |-> x.uniq, idx |-> x.idx, ft |-> x.ft, comp |-> x.comp, nh |-> x.nh]

\* What there is to do for a definition.
VocabCheck(S, d) ==
  LET voc == VocabOf(S, d.name)
      D == Set(d.attrs)
      In(x) == x.kw \in DOMAIN S.ids /\ S.ids[x.kw] \in voc.as
      Same(x) == Props(x) = S.attrs[S.ids[x.kw]]
      missing == {x \in D : ~In(x)}
  IN CASE voc.k = "absent" -> [out |-> "installed", as |-> D]
       [] voc.k = "invalid" -> [out |-> "error", as |-> {}]
       [] voc.v < d.version -> [out |-> "upgraded", as |-> D]
       [] voc.v > d.version -> [out |-> "error", as |-> {}]
       [] \E x \in D : In(x) /\ ~Same(x) -> [out |-> "error", as |-> {}]
       [] missing = {} -> [out |-> "existed", as |-> {}]
       [] OTHER -> [out |-> "missing", as |-> missing]

EntOfType == [t \in Range(TypeOfEnt) |-> CHOOSE e \in DOMAIN TypeOfEnt : TypeOfEnt[e] = t]

\* The transaction that states the vocabulary and these attributes of it.
VocabTerms(S, d, as) ==
  LET AP(a) == [kw |-> "", n |-> a, rev |-> FALSE]
      T(s) == [k |-> "val", v |-> Val("str", 0, s)]
      V(v) == [k |-> "val", v |-> v]
      Add(s, a, v) == [k |-> "add", e |-> T(s), a |-> AP(a), v |-> v]
      B(x) == V(IF x THEN True1 ELSE False1)
      Was(x) == IF x.kw \in DOMAIN S.ids /\ S.ids[x.kw] \in DOMAIN S.attrs THEN S.attrs[S.ids[x.kw]].uniq ELSE "n"
      U(u) == V(Ref(IF u = "i" THEN UniqueIdentity ELSE UniqueValue))
      Of(x) == {Add(x.kw, DbIdent, V(Kw(x.kw))),
                Add("s", DbSchemaAttribute, [k |-> "ent", v |-> Val("str", 0, x.kw)]),
                Add(x.kw, DbValueType, V(Ref(EntOfType[x.vt]))),
                Add(x.kw, DbCardinality, V(Ref(IF x.many THEN CardMany ELSE CardOne))),
                Add(x.kw, DbIndex, B(x.idx)), Add(x.kw, DbFulltext, B(x.ft)), Add(x.kw, DbIsComponent, B(x.comp)),
                Add(x.kw, DbNoHistory, B(x.nh))}
               \cup (IF x.uniq # "n" THEN {Add(x.kw, DbUnique, U(x.uniq))}
                     ELSE IF Was(x) # "n" THEN {[k |-> "ret", e |-> T(x.kw), a |-> AP(DbUnique), v |-> U(Was(x))]}
                     ELSE {})
  IN {Add("s", DbSchemaVersion, V(Val("long", d.version, ""))), Add("s", DbIdent, V(Kw(d.name)))} \cup UNION {Of(x) : x \in as}

\* All vocabularies: <<name, entity, version, attributes>>.
Vocabs(S) ==
  {w \in {LET e == S.ids[k] V == VocabOf(S, k) IN IF V.k = "present" THEN <<k, e, V.v, V.as>> ELSE <<>> : k \in DOMAIN S.ids} : w # <<>>}
=============================================================================
