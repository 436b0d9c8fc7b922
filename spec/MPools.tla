------------------------------- MODULE MPools -------------------------------
(* Small worlds: for each, the transactions that set it up and the operations whose every sequence,
   up to a bound, is explored.  Attributes are :w/..., entities are named by idents :e/a, :e/b.    *)
EXTENDS MWatch, MLog

A(k)  == [kw |-> k, n |-> 0, rev |-> FALSE]
AR(k) == [kw |-> k, n |-> 0, rev |-> TRUE]
V(x)  == [k |-> "val", v |-> x]
K(s)  == V(Kw(s))
T(s)  == V(Val("str", 0, s))       \* a text, or a temporary id
N(n)  == V(Val("long", n, ""))
B(b)  == V(IF b THEN True1 ELSE False1)
None  == [k |-> "none"]
LU(a, v) == [k |-> "lu", a |-> A(a), v |-> v.v]
Add(e, a, v) == [k |-> "add", e |-> e, a |-> A(a), v |-> v]
Ret(e, a, v) == [k |-> "ret", e |-> e, a |-> A(a), v |-> v]
KV(a, v) == [a |-> A(a), v |-> v]
Map(id, kvs) == [k |-> "map", id |-> id, kvs |-> kvs]
Tx(ts) == [k |-> "tx", via |-> "text", terms |-> ts]
Bt(ts) == [k |-> "tx", via |-> "builder", terms |-> ts]
Ea == K(":e/a")  Eb == K(":e/b")

Def(a, t, many, u, more) ==
  Map(None, <<KV(":db/ident", K(a)), KV(":db/valueType", K(":db.type/" \o t)),
              KV(":db/cardinality", K(":db.cardinality/" \o (IF many THEN "many" ELSE "one")))>>
            \o (IF u = "n" THEN <<>> ELSE <<KV(":db/unique", K(":db.unique/" \o u))>>) \o more)
Ents == <<Tx(<<Map(None, <<KV(":db/ident", Ea)>>)>>), Tx(<<Map(None, <<KV(":db/ident", Eb)>>)>>)>>
NoMore == <<>>
Index == <<KV(":db/index", B(TRUE))>>

Begin == [k |-> "begin"]  Commit == [k |-> "commit"]  Rollback == [k |-> "rollback"]  Drop == [k |-> "drop"]
Sp(n) == [k |-> "sp", name |-> n]  Rb(n) == [k |-> "rb", name |-> n]  Rel(n) == [k |-> "rel", name |-> n]
Reopen == [k |-> "reopen"]
Obs(key, as) == [k |-> "obs", key |-> key, as |-> as]
Unobs(key) == [k |-> "unobs", key |-> key]
Cache(a, d, act) == [k |-> "cache", a |-> a, dir |-> d, act |-> act]

W(ops) == ops
\* A world: setup transactions, whether it needs a file, the operations, and what is looked at in the end.
World(w) ==
  CASE w = "unique" ->
    [setup |-> <<Tx(<<Def(":w/uv", "long", FALSE, "value", Index), Def(":w/um", "long", TRUE, "value", Index), Def(":w/l", "long", FALSE, "n", NoMore)>>)>> \o Ents,
     ops |-> <<Tx(<<Add(Ea, ":w/uv", N(1))>>), Tx(<<Add(Ea, ":w/uv", N(2))>>), Tx(<<Add(Eb, ":w/uv", N(1))>>),
               Tx(<<Ret(Ea, ":w/uv", N(1))>>),
               Tx(<<Ret(Ea, ":w/uv", N(1)), Add(Eb, ":w/uv", N(1))>>),
               Tx(<<Add(Ea, ":w/uv", N(2)), Add(Eb, ":w/uv", N(1))>>),
               Tx(<<Add(Ea, ":w/uv", N(1)), Add(Eb, ":w/uv", N(1))>>),
               Tx(<<Add(Ea, ":w/um", N(1)), Add(Ea, ":w/um", N(2))>>), Tx(<<Add(Eb, ":w/um", N(1))>>),
               Tx(<<Ret(Ea, ":w/um", N(1)), Add(Eb, ":w/um", N(1)), Add(T("t"), ":w/um", N(1))>>),
               Tx(<<Add(Ea, ":w/l", N(1))>>), Tx(<<Add(Eb, ":w/l", N(1))>>),
               Tx(<<Add(K(":w/l"), ":db/unique", K(":db.unique/value")), Add(K(":w/l"), ":db/index", B(TRUE))>>),
               Tx(<<Ret(K(":w/uv"), ":db/unique", K(":db.unique/value"))>>),
               Tx(<<Add(K(":w/uv"), ":db/unique", K(":db.unique/identity"))>>),
               Tx(<<Add(T("t"), ":w/uv", N(1)), Add(T("t"), ":w/l", N(1))>>)>>]
  [] w = "card" ->
    [setup |-> <<Tx(<<Def(":w/l", "long", FALSE, "n", NoMore), Def(":w/lm", "long", TRUE, "n", NoMore), Def(":w/r", "ref", FALSE, "n", NoMore)>>)>> \o Ents,
     ops |-> <<Tx(<<Add(Ea, ":w/l", N(1))>>), Tx(<<Add(Ea, ":w/l", N(2))>>), Tx(<<Add(Ea, ":w/l", N(1)), Add(Ea, ":w/l", N(2))>>),
               Tx(<<Ret(Ea, ":w/l", N(1))>>), Tx(<<Ret(Ea, ":w/l", N(1)), Add(Ea, ":w/l", N(2))>>), Tx(<<Ret(Ea, ":w/l", N(2)), Add(Ea, ":w/l", N(2))>>),
               Tx(<<Ret(Ea, ":w/l", N(1)), Ret(Ea, ":w/l", N(2))>>),
               Tx(<<Add(Ea, ":w/lm", N(1))>>), Tx(<<Add(Ea, ":w/lm", N(1)), Add(Ea, ":w/lm", N(2)), Add(Eb, ":w/lm", N(1))>>), Tx(<<Ret(Ea, ":w/lm", N(1))>>),
               Tx(<<Add(K(":w/l"), ":db/cardinality", K(":db.cardinality/many"))>>),
               Tx(<<Add(K(":w/lm"), ":db/cardinality", K(":db.cardinality/one"))>>),
               Tx(<<Add(K(":w/l"), ":db/cardinality", K(":db.cardinality/one"))>>),
               Tx(<<Add(Ea, ":w/r", Eb), Add(Eb, ":w/r", Eb)>>), Tx(<<Add(Ea, ":w/r", Ea)>>), Tx(<<Add(Ea, ":w/r", Eb), Add(Ea, ":w/r", T("n"))>>)>>]
  [] w = "upsert" ->
    [setup |-> <<Tx(<<Def(":w/id", "string", FALSE, "identity", Index), Def(":w/im", "string", TRUE, "identity", Index),
                      Def(":w/ir", "ref", FALSE, "identity", Index), Def(":w/l", "long", FALSE, "n", NoMore), Def(":w/r", "ref", TRUE, "n", NoMore)>>)>> \o Ents,
     ops |-> <<Tx(<<Add(T("t"), ":w/id", T("x")), Add(T("t"), ":w/l", N(1))>>),
               Tx(<<Add(T("t"), ":w/id", T("x")), Add(T("t"), ":w/im", T("y"))>>),
               Tx(<<Add(T("t"), ":w/im", T("y")), Add(T("t"), ":w/im", T("z")), Add(T("u"), ":w/r", T("t"))>>),
               Tx(<<Add(T("t"), ":w/id", T("x")), Add(T("u"), ":w/id", T("x")), Add(T("u"), ":w/l", N(2))>>),
               Tx(<<Add(T("t"), ":w/im", T("z")), Add(T("u"), ":w/im", T("y")), Add(T("u"), ":w/r", T("t"))>>),
               Tx(<<Add(T("u"), ":w/ir", T("t")), Add(T("t"), ":w/id", T("x")), Add(T("u"), ":w/l", N(2))>>),
               Tx(<<Add(T("v"), ":w/ir", T("u")), Add(T("u"), ":w/ir", T("t")), Add(T("t"), ":w/im", T("y"))>>),
               Tx(<<Add(Ea, ":w/id", T("x"))>>), Tx(<<Add(Eb, ":w/im", T("y"))>>), Tx(<<Ret(Ea, ":w/id", T("x"))>>),
               Tx(<<Add(T("t"), ":w/id", T("x")), Ret(Ea, ":w/id", T("x"))>>),
               Tx(<<Add(T("t"), ":w/ir", Ea), Add(T("t"), ":w/id", T("q"))>>),
               Tx(<<Add(T("t"), ":w/id", T("q")), Add(T("t"), ":w/ir", T("t"))>>),
               Tx(<<Add(LU(":w/id", T("x")), ":w/l", N(3)), Add(T("t"), ":w/r", LU(":w/id", T("x")))>>),
               Tx(<<Map(None, <<KV(":w/id", T("x")), KV(":w/r", Map(None, <<KV(":w/im", T("y")), KV(":w/l", N(1))>>))>>)>>),
               Tx(<<Ret(T("t"), ":w/id", T("x")), Add(T("t"), ":w/id", T("x"))>>),
               Bt(<<Add(T("t"), ":w/id", T("q")), Add(T("u"), ":w/im", T("z")), Add(T("t"), ":w/r", T("u"))>>)>>]
  [] w = "schema" ->
    [setup |-> <<Tx(<<Def(":w/l", "long", FALSE, "n", NoMore), Def(":w/s", "string", TRUE, "n", NoMore), Def(":w/r", "ref", FALSE, "n", NoMore)>>)>> \o Ents,
     ops |-> <<Tx(<<Def(":w/p", "long", FALSE, "n", NoMore)>>), Tx(<<Def(":w/p", "long", FALSE, "value", NoMore)>>), Tx(<<Def(":w/p", "string", TRUE, "identity", Index)>>),
               Tx(<<Add(Ea, ":w/p", N(1))>>), Tx(<<Add(Ea, ":w/l", N(1)), Add(Eb, ":w/l", N(1))>>), Tx(<<Ret(Ea, ":w/l", N(1))>>),
               Tx(<<Add(K(":w/l"), ":db/ident", K(":w/m"))>>), Tx(<<Add(Ea, ":w/m", N(2))>>),
               Tx(<<Ret(K(":w/l"), ":db/ident", K(":w/l"))>>), Tx(<<Add(Ea, ":db/ident", K(":w/l"))>>),
               Tx(<<Ret(K(":w/l"), ":db/ident", K(":w/l")), Add(K(":w/r"), ":db/ident", K(":w/l"))>>),
               Tx(<<Add(K(":w/l"), ":db/index", B(TRUE))>>), Tx(<<Add(K(":w/l"), ":db/index", B(FALSE))>>),
               Tx(<<Add(K(":w/l"), ":db/unique", K(":db.unique/identity")), Add(K(":w/l"), ":db/index", B(TRUE))>>),
               Tx(<<Ret(K(":w/l"), ":db/unique", K(":db.unique/identity"))>>),
               Tx(<<Add(K(":w/l"), ":db/valueType", K(":db.type/string"))>>),
               Tx(<<Add(K(":w/l"), ":db/isComponent", B(TRUE))>>), Tx(<<Add(K(":w/r"), ":db/isComponent", B(TRUE))>>),
               Tx(<<Add(K(":w/s"), ":db/fulltext", B(TRUE)), Add(K(":w/s"), ":db/index", B(TRUE))>>),
               Tx(<<Ret(K(":w/l"), ":db/ident", K(":w/l")), Ret(K(":w/l"), ":db/valueType", K(":db.type/long")), Ret(K(":w/l"), ":db/cardinality", K(":db.cardinality/one"))>>),
               Tx(<<Add(Eb, ":db/valueType", K(":db.type/long"))>>), Tx(<<Add(Eb, ":db/valueType", K(":db.type/long")), Add(Eb, ":db/cardinality", K(":db.cardinality/many"))>>)>>]
  [] w = "txn" ->
    [setup |-> <<Tx(<<Def(":w/l", "long", FALSE, "n", NoMore), Def(":w/id", "string", FALSE, "identity", Index)>>)>> \o Ents,
     ops |-> <<Begin, Commit, Rollback, Drop, Sp("s"), Rb("s"), Rel("s"), Sp("t"), Rb("t"),
               Tx(<<Add(Ea, ":w/l", N(1))>>), Tx(<<Add(Ea, ":w/l", N(2)), Ret(Eb, ":w/l", N(2))>>), Tx(<<Add(T("t"), ":w/id", T("x"))>>),
               Tx(<<Add(Ea, ":w/l", N(3)), Add(Ea, ":w/l", N(4))>>),
               Tx(<<Add(Ea, ":w/id", T("x")), Add(T("t"), ":w/l", N(5))>>),
               Tx(<<Add(K(":w/l"), ":db/ident", K(":w/m"))>>), Tx(<<Def(":w/p", "long", TRUE, "n", NoMore)>>), Tx(<<Add(T("n"), ":w/p", N(1))>>)>>]
  [] w = "durable" ->
    [setup |-> <<Tx(<<Def(":w/l", "long", FALSE, "n", NoMore), Def(":w/id", "string", FALSE, "identity", Index)>>)>> \o Ents,
     ops |-> <<Reopen, Begin, Commit, Rollback,
               Tx(<<Add(Ea, ":w/l", N(1))>>), Tx(<<Add(T("t"), ":w/id", T("x"))>>), Tx(<<Add(T("t"), ":w/id", T("y")), Ret(LU(":w/id", T("x")), ":w/id", T("x"))>>),
               Tx(<<Add(Ea, ":w/l", N(3)), Add(Ea, ":w/l", N(4))>>),
               Tx(<<Add(K(":w/l"), ":db/ident", K(":w/m"))>>), Tx(<<Ret(K(":w/id"), ":db/unique", K(":db.unique/identity"))>>), Tx(<<Def(":w/p", "long", TRUE, "n", NoMore)>>)>>]
  [] w = "observe" ->
    [setup |-> <<Tx(<<Def(":w/l", "long", FALSE, "n", NoMore)>>), Tx(<<Def(":w/lm", "long", TRUE, "n", NoMore)>>)>> \o Ents,
     ops |-> <<Begin, Commit, Rollback, Sp("s"), Rb("s"), Obs("k", <<":w/l">>), Obs("j", <<":w/lm">>), Obs("k", <<":w/lm">>), Unobs("k"),
               Tx(<<Add(Ea, ":w/l", N(1))>>), Tx(<<Add(Ea, ":w/l", N(2))>>), Tx(<<Add(Ea, ":w/lm", N(1)), Add(Ea, ":w/lm", N(2))>>), Tx(<<Ret(Ea, ":w/lm", N(1))>>),
               Tx(<<Add(Ea, ":w/l", N(3)), Add(Ea, ":w/l", N(4))>>)>>]
  [] w = "cache" ->
    [setup |-> <<Tx(<<Def(":w/l", "long", FALSE, "n", NoMore)>>), Tx(<<Def(":w/lm", "long", TRUE, "n", NoMore)>>)>> \o Ents,
     ops |-> <<Begin, Commit, Rollback, Sp("s"), Rb("s"), Cache(":w/l", "b", "reg"), Cache(":w/lm", "f", "reg"), Cache(":w/l", "b", "dereg"), Cache(":w/lm", "r", "reg"),
               Tx(<<Add(Ea, ":w/l", N(1))>>), Tx(<<Add(Ea, ":w/l", N(2))>>), Tx(<<Ret(Ea, ":w/l", N(1))>>), Tx(<<Add(Ea, ":w/lm", N(1)), Add(Ea, ":w/lm", N(2))>>), Tx(<<Ret(Ea, ":w/lm", N(1))>>),
               Tx(<<Add(K(":w/lm"), ":db/cardinality", K(":db.cardinality/one"))>>)>>]
=============================================================================
