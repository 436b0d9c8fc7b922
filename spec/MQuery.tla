------------------------------- MODULE MQuery -------------------------------
(* The meaning of queries, in Datalog terms: the where clauses denote a set of environments (variable
   -> value), one clause after another; the find specification, aggregates, order and limit say how
   that set is returned.  Caches, plans and SQL do not occur here.

   X is the context: [S (database), log, eids, rk (value -> rank), words (text -> its words), lo].
   In the loose reading (lo) values are equal when they are stored alike: only used to recognise a known
   finding.                                                                                        *)
EXTENDS MRead

LooseKey(v) ==
  IF v.s # "" THEN <<(IF v.t \in {"str", "kw"} THEN "s" ELSE IF v.t \in {"ref", "long"} THEN "n" ELSE v.t), v.s, 0>>
  ELSE IF v.t \in {"ref", "long", "bool"} THEN <<"n", "", v.n * 10>>
  ELSE IF v.t = "double" THEN <<"n", "", v.n>> ELSE <<v.t, v.s, v.n>>
SmallN(v) == v.n < 200000000 /\ v.n > -200000000
Same(X, v, w) == v = w \/ (X.lo /\ SmallN(v) /\ SmallN(w) /\ LooseKey(v) = LooseKey(w))

NoEnv == [x \in {} |-> 0]
\* What stands for a set of environments that is too large to be worth computing.
Huge == [x \in {"!"} |-> 0]
\* Unions, without comparing every element with every other.
Somes(M) == {m[1] : m \in M \ {<<>>}}
RECURSIVE Halves(_, _, _)
Halves(q, i, j) == IF i = j THEN q[i] ELSE LET m == (i + j) \div 2 IN Halves(q, i, m) \cup Halves(q, m + 1, j)
SE == INSTANCE SequencesExt
Gather(F(_), E) == IF E = {} THEN {} ELSE IF Cardinality(E) = 1 THEN F(CHOOSE x \in E : TRUE) ELSE LET q == SE!SetToSeq(E) IN Halves([i \in DOMAIN q |-> F(q[i])], 1, Len(q))
Restrict(env, V) == [x \in DOMAIN env \cap V |-> env[x]]

\* Binding a place: <<env>> or <<>>.
BindVar(X, env, v, x) ==
  IF v = "_" THEN <<env>>
  ELSE IF v \in DOMAIN env THEN (IF Same(X, env[v], x) THEN <<env>> ELSE <<>>)
  ELSE <<(v :> x) @@ env>>
BindEnt(X, env, p, n) ==
  CASE p.k = "_" -> <<env>>
    [] p.k = "var" -> BindVar(X, env, p.v, Ref(n))
    [] p.k = "int" -> IF p.n = n THEN <<env>> ELSE <<>>
    [] p.k = "kw" -> IF p.s \in DOMAIN X.S.ids /\ X.S.ids[p.s] = n THEN <<env>> ELSE <<>>
    [] OTHER -> <<>>
\* vt: the type of the attribute when the pattern names it, or "".
BindValue(X, env, p, x, vt) ==
  CASE p.k = "_" -> <<env>>
    [] p.k = "var" -> BindVar(X, env, p.v, x)
    [] p.k = "int" -> IF \/ vt \in {"", "ref"} /\ x = Ref(p.n)
                         \/ vt \in {"", "long"} /\ x = Val("long", p.n, "")
                         \/ X.lo /\ vt # "ref" /\ SmallN(x) /\ LooseKey(x) = LooseKey(Val("long", p.n, ""))
                      THEN <<env>> ELSE <<>>
    [] p.k = "kw" -> IF (IF vt = "ref" THEN p.s \in DOMAIN X.S.ids /\ x = Ref(X.S.ids[p.s]) ELSE x = Kw(p.s))
                     THEN <<env>> ELSE <<>>
    [] p.k = "val" -> IF \/ x = p.x
                         \/ X.lo /\ vt = "" /\ {x.t, p.x.t} = {"long", "double"} /\ SmallN(x) /\ LooseKey(x) = LooseKey(p.x)
                      THEN <<env>> ELSE <<>>
    [] OTHER -> <<>>

ConstAttr(X, p) ==
  CASE p.k = "kw" -> IF p.s \in DOMAIN X.S.ids THEN X.S.ids[p.s] ELSE -1
    [] p.k = "int" -> p.n
    [] OTHER -> 0

MatchFact(X, c, env, f, vt) ==
  LET e1 == BindEnt(X, env, c.e, f[1]) IN
  IF e1 = <<>> THEN <<>>
  ELSE LET e2 == BindEnt(X, e1[1], c.a, f[2]) IN
  IF e2 = <<>> THEN <<>>
  ELSE LET e3 == BindValue(X, e2[1], c.v, f[3], vt) IN
  IF e3 = <<>> THEN <<>>
  ELSE BindEnt(X, e3[1], c.tx, f[4])

EvalPat(X, c, E) ==
  LET a == ConstAttr(X, c.a)
      const == c.a.k \in {"kw", "int"}
      vt == IF const /\ a \in DOMAIN X.S.attrs THEN X.S.attrs[a].vt ELSE ""
      F == IF const THEN {f \in X.S.facts : f[2] = a} ELSE X.S.facts
      Fe(env) == IF c.e.k = "var" /\ c.e.v \in DOMAIN env /\ ~X.lo THEN {f \in F : Ref(f[1]) = env[c.e.v]} ELSE F
  IN IF const /\ a \notin DOMAIN X.S.attrs THEN {}
     ELSE Gather(LAMBDA env : Somes({MatchFact(X, c, env, f, vt) : f \in Fe(env)}), E)

-----------------------------------------------------------------------------
\* The order of values.
Class(v) == CASE v.t \in {"long", "double"} -> 5 [] v.t = "ref" -> 0 [] v.t = "bool" -> 1 [] v.t = "inst" -> 4
              [] v.t = "str" -> 10 [] v.t = "uuid" -> 11 [] v.t = "kw" -> 13 [] OTHER -> 99
Rank(X, v) == IF v.t \in {"ref", "bool"} THEN v.n ELSE IF v \in DOMAIN X.rk THEN X.rk[v]
              ELSE IF v.t = "long" /\ v.s = "" /\ v.n \in -99999999..99999999 /\ Val("double", v.n * 10, "") \in DOMAIN X.rk THEN X.rk[Val("double", v.n * 10, "")] ELSE -1
LessV(X, v, w) == IF Class(v) # Class(w) THEN Class(v) < Class(w) ELSE Rank(X, v) < Rank(X, w)

ArgVal(X, env, p) ==
  CASE p.k = "var" -> env[p.v]
    [] p.k = "int" -> Val("long", p.n, "")
    [] p.k = "val" -> p.x
    [] p.k = "kw" -> Kw(p.s)
\* The same where an entity is meant.
ArgEnt(X, env, p) ==
  CASE p.k = "var" -> env[p.v]
    [] p.k = "int" -> Ref(p.n)
    [] p.k = "kw" -> IF p.s \in DOMAIN X.S.ids THEN Ref(X.S.ids[p.s]) ELSE Kw(p.s)
    [] OTHER -> p.x

Holds(X, env, c) ==
  IF c.fn \in {"tx-after", "tx-before", "unpermute", "differ"}
  THEN LET l == ArgEnt(X, env, c.l)
           r == ArgEnt(X, env, c.r)
       IN l.t = "ref" /\ r.t = "ref" /\
          (CASE c.fn = "tx-after" -> l.n > r.n [] c.fn \in {"tx-before", "unpermute"} -> l.n < r.n [] OTHER -> l.n # r.n)
  ELSE LET l == ArgVal(X, env, c.l)
           r == ArgVal(X, env, c.r)
       IN /\ Class(l) = Class(r) /\ Class(l) \in {4, 5}
          /\ (CASE c.fn = "<" -> Rank(X, l) < Rank(X, r)
                [] c.fn = "<=" -> Rank(X, l) <= Rank(X, r)
                [] c.fn = ">" -> Rank(X, l) > Rank(X, r)
                [] c.fn = ">=" -> Rank(X, l) >= Rank(X, r)
                [] OTHER -> Rank(X, l) # Rank(X, r))

RECURSIVE BindRow(_, _, _, _, _)
BindRow(X, env, vars, row, i) ==
  IF i > Len(vars) THEN <<env>>
  ELSE LET b == BindVar(X, env, vars[i], row[i]) IN
       IF b = <<>> THEN <<>> ELSE BindRow(X, b[1], vars, row, i + 1)
Join(X, E, vars, rows) == Gather(LAMBDA env : Somes({BindRow(X, env, vars, row, 1) : row \in rows}), E)

TextVal(s) == Val("str", 0, s)
FtRows(X, a, w) ==
  {<<Ref(f[1]), f[3], Ref(f[4]), Val("double", 0, "")>> :
     f \in {g \in X.S.facts : g[2] = a /\ g[3].s \in DOMAIN X.words /\ w \in X.words[g[3].s]}}

-----------------------------------------------------------------------------
RECURSIVE VarsOfC(_), VarsOf(_)
PV(p) == IF p.k = "var" THEN {p.v} ELSE {}
VarsOfC(c) ==
  CASE c.k = "pat" -> PV(c.e) \cup PV(c.a) \cup PV(c.v) \cup PV(c.tx)
    [] c.k = "not" -> IF c.join THEN Set(c.vars) ELSE VarsOf(c.cs)
    [] c.k = "or" -> IF c.join THEN Set(c.vars) ELSE UNION {VarsOf(c.arms[i]) : i \in DOMAIN c.arms}
    [] c.k = "pred" -> PV(c.l) \cup PV(c.r)
    [] c.k = "type" -> {c.v}
    [] c.k = "ground" -> Set(c.vars) \ {"_"}
    [] c.k = "ft" -> (Set(c.vars) \ {"_"}) \cup PV(c.s)
    [] c.k = "txids" -> (Set(c.vars) \ {"_"}) \cup PV(c.lo) \cup PV(c.hi)
    [] c.k = "txdata" -> (Set(c.vars) \ {"_"}) \cup PV(c.tx)
VarsOf(cs) == UNION {VarsOfC(cs[i]) : i \in DOMAIN cs}

RECURSIVE Eval(_, _, _, _), EvalC(_, _, _)
EvalC(X, c, E) ==
  CASE c.k = "pat" -> EvalPat(X, c, E)
    [] c.k = "pred" -> {env \in E : Holds(X, env, c)}
    [] c.k = "not" -> LET V == VarsOfC(c)
                          got == [a \in {Restrict(env, V) : env \in E} |-> Eval(X, c.cs, {a}, {})]
                      IN IF \E a \in DOMAIN got : Huge \in got[a] THEN {Huge} ELSE {env \in E : got[Restrict(env, V)] = {}}
    [] c.k = "or" -> LET V == VarsOfC(c)
                         got == [a \in {Restrict(env, V) : env \in E} |-> UNION {Eval(X, c.arms[i], {a}, V) : i \in DOMAIN c.arms}]
                     IN IF \E a \in DOMAIN got : Huge \in got[a] THEN {Huge}
                        ELSE Gather(LAMBDA env : {y @@ env : y \in got[Restrict(env, V)]}, E)
    [] c.k = "ground" -> Join(X, E, c.vars, Set(c.rows))
    [] c.k = "ft" -> LET a == ConstAttr(X, c.a)
                         w(env) == ArgVal(X, env, c.s).s
                     IN Gather(LAMBDA env : Join(X, {env}, c.vars, FtRows(X, a, w(env))), E)
    [] c.k = "txids" -> LET T == {x[1] : x \in X.log} IN
                        Gather(LAMBDA env : Join(X, {env}, c.vars, {<<Ref(t)>> : t \in {u \in T : u >= ArgEnt(X, env, c.lo).n /\ u < ArgEnt(X, env, c.hi).n}}), E)
    [] c.k = "txdata" -> Gather(LAMBDA env : Join(X, {env}, c.vars,
                           {<<Ref(x[2]), Ref(x[3]), x[4], Ref(x[1]), IF x[5] THEN True1 ELSE False1>> : x \in {y \in X.log : Ref(y[1]) = ArgEnt(X, env, c.tx)}}), E)
    [] OTHER -> E
\* Types may be stated anywhere: they restrict the result.  Only the variables of K, and those still to
\* come, matter.
Eval(X, cs, E, K) ==
  IF E = {} \/ Huge \in E THEN E
  ELSE IF cs = <<>> THEN {Restrict(env, K) : env \in E}
  ELSE IF cs[1].k = "type" THEN
         LET E1 == {env \in Eval(X, Tail(cs), E, K \cup {cs[1].v}) : Huge = env \/ (cs[1].v \in DOMAIN env => env[cs[1].v].t = cs[1].t)}
         IN IF Huge \in E1 THEN {Huge} ELSE {Restrict(env, K) : env \in E1}
  ELSE LET V == K \cup VarsOf(Tail(cs))
           E1 == EvalC(X, cs[1], E)
           E2 == {IF env = Huge THEN Huge ELSE Restrict(env, V) : env \in E1}
       IN Eval(X, Tail(cs), IF Cardinality(E2) > 2500 THEN {Huge} ELSE E2, K)

-----------------------------------------------------------------------------
\* Pull expressions.
MapVal(P) == [t |-> "map", n |-> 0, s |-> "", kvs |-> P]
PullExpr(X, e, specs) ==
  LET S == X.S
      Cov == DOMAIN S.attrs
      ValOf(a) == LET V == ValuesOf(S.facts, e, a) IN
                  IF V = {} THEN {} ELSE {IF S.attrs[a].many THEN Vec(V) ELSE CHOOSE v \in V : TRUE}
      One(sp) ==
        IF sp.a = "*" THEN UNION {{<<NameOf(X.eids, a), v>> : v \in ValOf(a)} : a \in Cov}
        ELSE IF sp.a = ":db/id" THEN {<<IF sp.as = "" THEN ":db/id" ELSE sp.as, Ref(e)>>}
        ELSE IF sp.a \notin DOMAIN S.ids \/ S.ids[sp.a] \notin Cov THEN {}
        ELSE {<<IF sp.as = "" THEN sp.a ELSE sp.as, v>> : v \in ValOf(S.ids[sp.a])}
  IN MapVal(UNION {One(specs[i]) : i \in DOMAIN specs})

CanonB(b) ==
  CASE b.t = "vec" -> Vec(Set(b.xs))
    [] b.t = "map" -> MapVal({<<p.k, CanonV(p.v)>> : p \in Set(b.kvs)})
    [] OTHER -> Val(b.t, b.n, b.s)

-----------------------------------------------------------------------------
\* Aggregates over the members (environments) of a group.
RECURSIVE SumN(_, _)
SumN(M, v) == IF M = {} THEN 0 ELSE LET x == CHOOSE y \in M : TRUE IN x[v].n + SumN(M \ {x}, v)
Tenths(v, sum) == IF v = "double" THEN sum ELSE sum * 10
AggOk(X, e, M, b) ==
  LET one == (CHOOSE x \in M : TRUE)[e.v]
      uniform == \A x \in M : x[e.v].t = one.t
  IN CASE e.fn = "count" -> b = Val("long", Cardinality(M), "")
       [] M = {} -> TRUE
       [] e.fn \in {"min", "max"} ->
            /\ \E x \in M : x[e.v] = CanonB(b)
            /\ \A x \in M : IF e.fn = "min" THEN ~LessV(X, x[e.v], CanonB(b)) ELSE ~LessV(X, CanonB(b), x[e.v])
       [] ~uniform \/ (\E x \in M : x[e.v].s # "") -> TRUE
       [] e.fn = "sum" -> CanonB(b) = Val(one.t, SumN(M, e.v), "")
       [] e.fn = "avg" -> /\ b.t = "double"
                          /\ LET d == b.m * Cardinality(M) - Tenths(one.t, SumN(M, e.v)) * 100
                             IN d <= Cardinality(M) /\ -d <= Cardinality(M)
       [] OTHER -> FALSE

IsAgg(q) == \E i \in DOMAIN q.find.es : q.find.es[i].k = "agg"

\* In the loose reading 2 and 2.0 are one value.
Norm(X, v) == IF X.lo /\ v.t = "double" /\ v.s = "" /\ v.n % 10 = 0 THEN Val("long", v.n \div 10, "") ELSE v

\* Whether the rows are what the environments T come to.
RowsOk(X, q, T0, rows) ==
  LET es == q.find.es
      I == DOMAIN es
      FV == {es[i].v : i \in I}
      OV == {q.order[i].v : i \in DOMAIN q.order}
      T == {LET y == Restrict(env, FV \cup (IF IsAgg(q) THEN Set(q.with) ELSE {}) \cup OV) IN [v \in DOMAIN y |-> Norm(X, y[v])] : env \in T0}
      R0 == [j \in DOMAIN rows |-> [i \in DOMAIN rows[j] |-> Norm(X, CanonB(rows[j][i]))]]
      Lim == IF q.find.k \in {"scalar", "tuple"} THEN 1 ELSE q.limit
      Size(n) == IF Lim > 0 /\ Lim < n THEN Lim ELSE n
      pulled == [i \in {j \in I : es[j].k = "pull"} |-> [x \in {env[es[i].v] : env \in T} |-> PullExpr(X, x.n, es[i].as)]]
      Row(env) == [i \in I |-> IF es[i].k = "pull" THEN pulled[i][env[es[i].v]] ELSE env[es[i].v]]
      Count(r) == Cardinality({j \in DOMAIN R0 : R0[j] = r})
      Index(v) == CHOOSE i \in I : es[i].v = v /\ es[i].k \in {"var", "the"}
      ordered == q.order # <<>> /\ (\A v \in OV : \E i \in I : es[i].v = v /\ es[i].k \in {"var", "the"})
      \* the row r is strictly before s
      Before(K(_, _), r, s) ==
        \E m \in DOMAIN q.order :
          /\ \A l \in 1..(m - 1) : ~LessV(X, K(r, q.order[l].v), K(s, q.order[l].v)) /\ ~LessV(X, K(s, q.order[l].v), K(r, q.order[l].v))
          /\ IF q.order[m].asc THEN LessV(X, K(r, q.order[m].v), K(s, q.order[m].v)) ELSE LessV(X, K(s, q.order[m].v), K(r, q.order[m].v))
      Key(r, v) == r[Index(v)]
      Sorted == ordered => \A j \in 2..Len(R0) : ~Before(Key, R0[j], R0[j - 1])
  IN IF IsAgg(q) THEN
       LET GV == {es[i].v : i \in {j \in I : es[j].k = "var"}}
           G == {Restrict(env, GV) : env \in T}
           Mem(g) == {env \in T : Restrict(env, GV) = g}
           Fits(j, g) ==
             /\ \A i \in I : CASE es[i].k = "var" -> R0[j][i] = g[es[i].v]
                               [] es[i].k = "agg" -> AggOk(X, es[i], Mem(g), rows[j][i])
                               [] OTHER -> TRUE
             /\ (\E i \in I : es[i].k = "the") =>
                  \E env \in Mem(g) : /\ \A i \in I : es[i].k = "the" => R0[j][i] = env[es[i].v]
                                      /\ \A i \in I : es[i].k = "agg" /\ es[i].fn \in {"min", "max"} => R0[j][i] = env[es[i].v]
           GroupOf(j) == [v \in GV |-> R0[j][CHOOSE i \in I : es[i].v = v /\ es[i].k = "var"]]
       IN /\ \A j \in DOMAIN R0 : (IF GV = {} THEN TRUE ELSE GroupOf(j) \in G) /\ Fits(j, IF GV = {} THEN NoEnv ELSE GroupOf(j))
          \* The count of nothing may be stated or not.
          /\ IF T = {} THEN rows = <<>> \/ (Len(rows) = 1 /\ \A i \in I : es[i].k = "agg" /\ es[i].fn = "count")
             ELSE Len(rows) = Size(Cardinality(G))
          /\ \A j, k \in DOMAIN R0 : j # k => GroupOf(j) # GroupOf(k)
          /\ Sorted
     ELSE IF q.find.k = "coll" /\ es[1].k = "pull" THEN
          \* A collection of what is pulled has no place for entities of which nothing is.
          LET P == {m \in {Row(env)[1] : env \in T} : m.kvs # {}}
              N == Cardinality({env[es[1].v] : env \in {y \in T : Row(y)[1].kvs # {}}})
          IN /\ \A j \in DOMAIN R0 : R0[j][1] \in P
             /\ IF Lim > 0 THEN Len(rows) <= Lim ELSE Len(rows) = N /\ {R0[j][1] : j \in DOMAIN R0} = P
             /\ \A m \in P : Count(<<m>>) <= Cardinality({env[es[1].v] : env \in {y \in T : Row(y)[1] = m}})
     ELSE /\ Len(rows) = Size(Cardinality(T))
          /\ LET rowOf == [env \in T |-> Row(env)]
                 D == Range(rowOf)
                 n == [r \in D |-> Cardinality({env \in T : rowOf[env] = r})]
             IN /\ Range(R0) \subseteq D
                /\ (Len(rows) = Cardinality(T) => D = Range(R0))
                /\ \/ Len(rows) > 200   \* (too long to count)
                   \/ \A r \in Range(R0) : IF Len(rows) = Cardinality(T) THEN Count(r) = n[r] ELSE Count(r) <= n[r]
          /\ Sorted
          /\ (ordered /\ Len(rows) < Cardinality(T) /\ rows # <<>>) =>
               \A env \in T : Before(LAMBDA r, v : r[v], env, [v \in OV |-> Key(R0[Len(R0)], v)]) => Row(env) \in Range(R0)

QueryCtx(o, q, r, lo) ==
  [S |-> o.S, log |-> {x \in o.log : x[6] = 0}, eids |-> o.eids,
   rk |-> IF q.rk THEN [v \in {x[1] : x \in Set(r.rank)} |-> (CHOOSE x \in Set(r.rank) : x[1] = v)[2]] ELSE NoEnv,
   words |-> IF q.ft THEN [s \in {x[1] : x \in Set(r.words)} |-> Set((CHOOSE x \in Set(r.words) : x[1] = s)[2])] ELSE NoEnv,
   lo |-> lo]
Env0(q) == [v \in {x.v : x \in Set(q.in)} |-> (CHOOSE x \in Set(q.in) : x.v = v).x]
FindVars(q) == {q.find.es[i].v : i \in DOMAIN q.find.es} \cup Set(q.with) \cup {q.order[i].v : i \in DOMAIN q.order}
Result(X, q) == Eval(X, q.where, {Env0(q)}, FindVars(q))

RECURSIVE Kinds(_)
Kinds(cs) == UNION {LET c == cs[i] IN
  {c.k} \cup (IF c.k = "not" THEN Kinds(c.cs) ELSE IF c.k = "or" THEN UNION {Kinds(c.arms[j]) : j \in DOMAIN c.arms} ELSE {})
  \cup (IF c.k = "pred" THEN {c.fn} ELSE {}) \cup (IF c.k = "ground" THEN {"ground-" \o c.b} ELSE {})
  \cup (IF c.k \in {"not", "or"} /\ c.join THEN {c.k \o "-join"} ELSE {}) : i \in DOMAIN cs}
Shape(q) == Kinds(q.where) \cup {q.find.k} \cup {q.find.es[i].k : i \in DOMAIN q.find.es}

\* The known findings: what an unexpected result is put down to.
FulltextInLog(X, q) ==
  /\ "txdata" \in Kinds(q.where)
  /\ \E x \in X.log : x[3] \in DOMAIN X.S.attrs /\ X.S.attrs[x[3]].ft
\* A comparison with a value whose attribute nothing states.
RECURSIVE Flat(_)
Flat(cs) == UNION {LET c == cs[i] IN
  {c} \cup (IF c.k = "not" THEN Flat(c.cs) ELSE IF c.k = "or" THEN UNION {Flat(c.arms[j]) : j \in DOMAIN c.arms} ELSE {}) : i \in DOMAIN cs}
ComparesUntyped(q) ==
  LET C == Flat(q.where)
      pats == {c \in C : c.k = "pat"}
      typed == (UNION {PV(c.v) : c \in {x \in pats : x.a.k \in {"kw", "int"}}} \cup UNION {Set(c.vars) : c \in {x \in C : x.k = "ground"}}
                \cup UNION {PV(c.e) \cup PV(c.a) \cup PV(c.tx) : c \in pats})
               \ UNION {PV(c.v) : c \in {x \in pats : x.a.k \notin {"kw", "int"}}}
  IN \E c \in C : c.k = "pred" /\ ~((PV(c.l) \cup PV(c.r)) \subseteq typed)
\* One pattern with a value and a variable attribute, which SQLite takes to be unique.
DistinctLost(q) ==
  \E i \in DOMAIN q.where :
     /\ q.where[i].k = "pat" /\ q.where[i].a.k = "var"
     /\ \/ q.where[i].v.k \in {"val", "kw"}
        \/ \E j \in DOMAIN q.where : q.where[j].k = "type" /\ PV(q.where[i].v) = {q.where[j].v}
        \/ \E j \in DOMAIN q.where : q.where[j].k = "ground" /\ PV(q.where[i].v) \subseteq Set(q.where[j].vars)
     /\ \A j \in DOMAIN q.where : j # i => (q.where[j].k \in {"type", "pred"} \/ (q.where[j].k = "ground" /\ q.where[j].b \in {"scalar", "tuple"}))
QueryLabels(o, q, r) ==
  LET X == QueryCtx(o, q, r, FALSE)
      T == Result(X, q)
  IN IF ~r.ok THEN IF FulltextInLog(X, q) THEN {"known:txdata-fulltext"} ELSE IF r.cls = "match" /\ "ft" \in Kinds(q.where) THEN {"known:fulltext-match"} ELSE {"query:refused"}
     ELSE IF Huge \in T THEN {}
     ELSE IF RowsOk(X, q, T, r.rows) /\ r.find = q.find.k /\ (r.rows # <<>> \/ r.find = "rel" => r.w = Len(q.find.es)) THEN {}
     ELSE IF FulltextInLog(X, q) THEN {"known:txdata-fulltext"}
     ELSE LET Y == QueryCtx(o, q, r, TRUE) IN
          IF RowsOk(Y, q, Result(Y, q), r.rows) THEN {"known:untyped-query"}
          ELSE IF ComparesUntyped(q) THEN {"known:untyped-query"}
          ELSE IF DistinctLost(q) THEN {"known:sqlite-distinct"} ELSE {"query:result"}
QueryCov(o, q, r) ==
  {"query:" \o k : k \in Shape(q)} \cup {IF r.ok /\ r.rows # <<>> THEN "query:some" ELSE "query:none"}
=============================================================================
