LEVEL_NOTE = ("The specification states the meaning of the operation independently of the code; TLC follows recorded histories of the real store "
  "through it and compares every result and every stored, in-memory and separately observed state. Assurance is for the generated histories "
  "(seeded, thousands of transactions per run); trusted: the driver's projection of the store (SQL text of the tables, public accessors), TLC.")

NOTES = ("One specification (spec/*.tla, TLA+) decides every property. bin/check.py builds harness/ (a driver with a path dependency on /repo), generates histories "
  "against the real store, and checks them with TLC; replays are written to evidence/replay and can be run again with 'python3 bin/check.py --replay FILE'. "
  "No hooks were needed in /repo. KNOWN_FINDINGS lists what was found and repaired, and what was found and not repaired.")

P("C01", "The log is append-only and always comes to the current facts",
  "After any sequence of transactions the current facts are exactly what the transaction log comes to when read in order (an assertion stands until it is retracted), each fact is dated with the transaction that last asserted it, and nothing is stored twice. A transaction appends to the log and never changes or removes entries of earlier transactions. What it appends is exactly what it changed, so the state as of any earlier transaction can be rebuilt from the log.",
  ["histories", "inputs"], "every history of transactions, schema changes, rollbacks and reopenings, and every transaction in it",
  "Unit tests compare the log with expectations for a few dozen hand-written transactions; the relation between log and facts must hold for every history, including replaced values, same-transaction retract/assert pairs and altered attributes.",
  ["db/src/db.rs", "db/src/tx.rs", "db/src/add_retract_alter_set.rs"],
  [dict(name="one SQL pass computes the effect of a transaction and applies it to both tables", where="db/src/db.rs: search, commit_mentat_transaction")],
  [("timelined_transactions", "the log", "db/src/db.rs"), ("datoms", "current facts", "db/src/db.rs")])

P("C02", "A rejected transaction changes nothing; an accepted one is applied whole",
  "A transaction that is refused, for whatever reason, leaves facts, log, schema, idents and next entids as they were, including in the transaction it was tried in and in whatever that transaction later commits. A transaction the rules permit is not refused, and one they do not permit is. No input makes the store panic or leaves it unusable.",
  ["inputs", "histories", "fault_sequences"], "every transaction, valid or not, at every point of a history, alone or inside a larger transaction",
  "The tests check that some invalid transactions return an error; few look at the whole state afterwards, and none at what is later committed from the same transaction.",
  ["transaction/src/lib.rs", "db/src/tx.rs", "db/src/db.rs"],
  [dict(name="SQLite savepoint around each transact; metadata replaced only on success", where="transaction/src/lib.rs: transact_entities, transact_terms")])

P("C03", "Committed transactions survive a crash or close; others leave no trace",
  "Whenever the process dies, reopening the files gives a store that holds every transaction whose commit was reported, and of any other transaction either everything or nothing. Closing and reopening a store changes neither its facts, log and schema nor how it reads them. The reopened store is usable and satisfies every invariant of the store.",
  ["crash_points", "histories"], "every point of a transaction at which the files may be left (row changes, just before the commit, parts of what the commit writes, after it), in every history",
  "No test kills the store or looks at the files in the middle of a transaction, and reopening is tested for a handful of stores.",
  ["db/src/db.rs", "db/src/lib.rs", "src/store.rs", "transaction/src/lib.rs"],
  [dict(name="one immediate SQLite transaction per Mentat transaction; schema and partitions read back from the tables on open", where="db/src/db.rs: read_db, ensure_current_version"),
   dict(name="write-ahead log", where="db/src/db.rs: make_connection")])

P("C04", "An open transaction is isolated, and rollback restores everything",
  "What a transaction has done so far is seen by the transaction itself and by nobody else until it commits, at which point it is seen by everybody, whole. Rolling it back, dropping it, or rolling back to a savepoint restores facts, log, schema, idents and next entids as they were at the beginning or at the savepoint, and the transaction can go on from there.",
  ["histories", "schedules"], "every sequence of begin, transact, savepoint, rollback to or release of a savepoint, commit, rollback and drop, with a second connection reading throughout",
  "Tests exercise single rollbacks of simple data; nested savepoints, schema changes and what other connections see in between are not reached.",
  ["transaction/src/lib.rs", "src/conn.rs", "db/src/db.rs"],
  [dict(name="in-progress copy of metadata published only on commit; SQLite transaction dropped otherwise", where="transaction/src/lib.rs: InProgress::commit, rollback, savepoint")])

P("C05", "An entid is given out once, and only known entids are accepted",
  "Every new entity gets an entid that no entity had before, within its partition, and each transaction gets a greater id than all transactions before it. The next entids are the same in memory, on disk and after reopening, and go back only when what used them is rolled back. A transaction that names an entity by an entid that has not been given out is refused.",
  ["histories", "inputs"], "every history of transactions, rollbacks, refusals and reopenings, and every entid an input can name",
  "Tests check allocation within one or two transactions; freshness must hold across any history of refusals, rollbacks and reopenings.",
  ["db/src/db.rs", "db/src/types.rs", "db/src/tx.rs"],
  [dict(name="partition map advanced by allocation, derived from the log when opened", where="db/src/db.rs: read_partition_map, allocate_entids"),
   dict(name="entids named in terms checked against the partition map", where="db/src/tx.rs: ensure_entid_exists")])

P("C06", "A unique attribute never has one value for two entities",
  "At no time do two entities have the same value of an attribute marked unique, whether by asserting it, by making an attribute unique that was not, or within one transaction. A transaction that would make it so is refused, and one that moves a value from one entity to another by retracting it from the first is accepted.",
  ["histories", "inputs"], "every history of assertions, retractions, upserts and alterations over unique-value and unique-identity attributes of every type",
  "Tests sample single conflicts; combinations of move, replace, upsert, alteration and same-transaction duplicates are unbounded.",
  ["db/src/db.rs", "db/src/tx.rs", "db/src/upsert_resolution.rs"],
  [dict(name="partial unique index over datoms; alteration updates flags of the existing datoms", where="db/src/db.rs: V1 schema, update_metadata")])

P("C07", "A cardinality-one attribute never has two values",
  "At no time does an entity have two values of an attribute of cardinality one. Asserting another value replaces the one it has, and the log records both the retraction and the assertion; asserting two different values in one transaction is refused. Changing an attribute to cardinality one succeeds exactly when no entity has two values of it.",
  ["histories", "inputs"], "every history of assertions, retractions, replacements and cardinality changes over attributes of every type",
  "Tests sample single replacements; combinations with retractions of held and unheld values, full-text attributes and alterations are unbounded.",
  ["db/src/db.rs", "db/src/tx.rs", "db/src/tx_checking.rs"],
  [dict(name="inexact search replaces the value held; conflicting assertions detected before", where="db/src/db.rs: insert_fts_searches, search; db/src/tx_checking.rs")])

P("C08", "Temporary ids resolve by unique identity, independent of order",
  "A temporary id that is said to have the value of a unique-identity attribute that an entity has denotes that entity, also when that value is itself given by a temporary id so resolved; every other temporary id denotes a new entity, one and the same for ids said to share such a value. Everything said of it is asserted of that entity, whatever the order of the terms. Ids that would denote two different entities make the transaction refused, and one that is only retracted from denotes nothing.",
  ["inputs", "histories"], "every transaction over temporary ids, unique-identity attributes, references between temporary ids and any state of the store",
  "Upsert resolution is a fixpoint over generations; tests cover about a dozen shapes of it.",
  ["db/src/upsert_resolution.rs", "db/src/tx.rs", "db/src/internal_types.rs"],
  [dict(name="generations of terms evolved until nothing upserts; then allocation by union-find", where="db/src/upsert_resolution.rs: Generation; db/src/tx.rs: transact_simple_terms")])

P("C09", "Facts are a set: saying what is so, or denying what is not, changes nothing",
  "Asserting a fact that holds and retracting one that does not are accepted and change nothing, in the facts or in the log. Asserting and retracting the same fact in one transaction is refused. Otherwise the facts afterwards are those before, less the ones retracted or replaced, plus those asserted.",
  ["inputs", "histories"], "every combination of assertions and retractions of held and unheld values in one transaction, on any state",
  "Tests sample single re-assertions and retractions; the combinations on one entity and attribute, for both cardinalities and all types, are not covered.",
  ["db/src/db.rs", "db/src/tx.rs", "db/src/add_retract_alter_set.rs"],
  [dict(name="exact and inexact searches joined with the current datoms", where="db/src/db.rs: search, insert_transaction, update_datoms")])

P("C10", "Values keep their type and are read back as they were written",
  "A value of an attribute always has the attribute's type; one of another type is refused. Every value of every type, whatever its magnitude, sign, precision or characters, is read back from facts and log as it was written, distinct values stay distinct, and this is so after reopening.",
  ["inputs"], "all values of the eight types, including extremes, empty and non-ASCII text, negative and fractional instants, integral doubles",
  "Tests round-trip a few values per type.",
  ["db/src/db.rs", "core/src/types.rs", "core-traits/lib.rs", "db-traits/errors.rs", "query-projector/src/lib.rs"],
  [dict(name="type tags and conversions between typed and SQL values; values coerced against the schema", where="db/src/db.rs: TypedSQLValue; db/src/schema.rs: SchemaTypeChecking")])

P("C11", "The schema in use is the one the facts state, and changes to it are sound",
  "Attributes, their properties and idents, as the running store uses them, are those the facts state, in memory, in the tables derived from them and in the flags of every stored fact, at all times and after reopening. Only sound changes are accepted: no incomplete or inconsistent attribute, no change of type or of full-text indexing, nothing the existing facts contradict. Idents can be added, renamed, moved or swapped within a transaction.",
  ["histories", "inputs"], "every history of definitions, alterations, renamings and retractions of attributes, mixed with data",
  "Tests cover single alterations one by one; sequences and combinations in one transaction, and agreement of four representations of the schema, are not covered.",
  ["db/src/metadata.rs", "db/src/schema.rs", "db/src/db.rs", "core/src/lib.rs", "db/src/tx.rs"],
  [dict(name="metadata report computed from the transaction's own effect; alteration rewrites index flags", where="db/src/metadata.rs: update_attribute_map_from_entid_triples, update_schema_from_entid_quadruples; db/src/db.rs: update_metadata")])

P("C12", "A query returns exactly the matches of its where clauses",
  "A query returns exactly what its where clauses mean over the current facts (or the log): the set of bindings that satisfy every pattern, comparison, ground, type, or, or-join, not and not-join clause and log function at once, with the values given for its inputs. The answer does not depend on the order in which the engine joins, on what is cached, on whether the query is prepared or run again, or on whether it is asked of the store, of a reader or of an open transaction, which sees its own changes. A query that can match nothing returns nothing; it is not an error.",
  ["programs", "inputs", "histories"], "every combination of clauses, over every state of the store",
  "Tests compare the SQL of some queries and the results of a few more; the combinations of clauses, types and caches are unbounded, and each is compiled differently.",
  ["query-algebrizer/src", "query-projector/src", "query-sql/src/lib.rs", "transaction/src/query.rs", "query-algebrizer/src/clauses"],
  [dict(name="clauses accumulated into constraints over tables, with types inferred and known-empty parts pruned, then written as SQL", where="query-algebrizer/src/clauses, query-projector/src/translate.rs")],
  note="Queries whose intermediate results exceed 2500 bindings are not compared. Three known findings (joins over values of unknown type, full-text values in tx-data, DISTINCT in SQLite) are recognised by their form.")

P("C13", "Find, aggregates, order, limit and pull return what they say",
  "Relations, collections, tuples and scalars hold each distinct result once; aggregates (count, sum, avg, min, max, the) are computed over the distinct bindings of the find and with variables, one row for each group; results come in the stated order and no more than the limit, the first ones if ordered; and a pull expression returns the present values of the attributes named, under the names asked for.",
  ["programs", "inputs"], "every find specification over every state of the store",
  "Tests look at a few fixed results; grouping, ordering and limits interact with types and with constants in ways a few examples do not reach.",
  ["query-projector/src", "query-projector-traits", "query-algebrizer/src/lib.rs", "query-pull/src/lib.rs"],
  [dict(name="projection lists, nested SELECT for aggregates, ORDER BY with type tags, two-stage pull", where="query-projector/src/lib.rs, query-projector/src/translate.rs, query-projector/src/pull_two_stage.rs")])

P("C22", "A full-text search finds exactly the current texts with the word",
  "A full-text search finds exactly the entities whose present value of the attribute contains the word, with that value and the transaction that asserted it, whatever texts were stored, replaced, retracted, shared between attributes or rolled back before, and whatever else the query asks. What full-text attributes hold reads back as the very text that was stored, and upserts, lookups and the log treat it as any other value.",
  ["histories", "inputs"], "every history of full-text values, and every search",
  "The tests search a handful of texts; texts are kept once for all their uses in a second table that is never cleaned up, so what is found depends on the history.",
  ["db/src/schema.rs", "db/src/db.rs", "query-algebrizer/src/clauses/fulltext.rs"],
  [dict(name="texts interned in fulltext_values through a view with a trigger; datoms refer to them by rowid", where="db/src/db.rs: V1_STATEMENTS, insert_fts_searches")],
  note="Words are ASCII letters and digits. SQLite refuses some of these queries (a known finding).")

P("C14", "Pulling returns exactly the values entities have",
  "Pulling attributes of entities returns, for every entity asked for that has any of them, exactly the values it has now, under the attribute's name: all values of a cardinality-many attribute, the one value of a cardinality-one attribute, nothing for attributes it lacks, and nothing else. It is the same through the store, a read, and an open transaction, which sees its own changes.",
  ["inputs", "histories"], "every set of entities and attributes, in every state of a history including open transactions and changed attributes",
  "Tests pull a handful of attributes from fixed data; the pulled structure must follow the facts in every state.",
  ["query-pull/src/lib.rs", "transaction/src/lib.rs", "src/store.rs"],
  [dict(name="one attribute cache per pull, filled by SQL for the requested attributes and entities, folded into maps", where="query-pull/src/lib.rs: Puller::pull; db/src/cache.rs")])

P("C15", "Caching attributes never changes what is read",
  "Whether an attribute is cached, forward, in reverse or both, before or during a transaction, and whether caching is switched on or off in it, makes no difference to what lookups and queries return: always what currently holds, in the view the reader has. After a commit every cache holds what was committed, after a rollback nothing of what was rolled back. Caches can be kept exactly of attributes.",
  ["histories", "schedules"], "every interleaving of cache registration and deregistration, transactions committed, rolled back to savepoints or dropped, schema changes, lookups and queries",
  "Tests compare cached and uncached lookups after single steps; staleness appears only in particular sequences (registered within a transaction, retracted later, rolled back, altered).",
  ["db/src/cache.rs", "transaction/src/lib.rs", "src/conn.rs", "src/store.rs"],
  [dict(name="copy-on-write cache layered over the shared one; transaction watcher applies assertions and retractions; swapped in at commit", where="db/src/cache.rs: SQLiteAttributeCache, InProgressSQLiteAttributeCache, InProgressCacheTransactWatcher")],
  [("AttributeCaches", "cached values, forward and reverse", "db/src/cache.rs")])

P("C16", "Observers are told of exactly the committed changes, in order",
  "Every observer registered when a transaction commits is told, once, of each of its transactions that changed an attribute it watches, with all the attributes really changed, in the order of the commits, and of no other: nothing that was rolled back, refused or had no effect, nothing after it was unregistered, whatever else is registered, replaced or unregistered meanwhile.",
  ["histories", "schedules"], "every sequence of registrations, replacements, unregistrations, transactions, multi-transaction commits, rollbacks and savepoints",
  "Tests register observers for one or two transactions; losses and spurious notifications depend on what happens around the commit.",
  ["db/src/tx_observer.rs", "transaction/src/lib.rs", "src/conn.rs"],
  [dict(name="changeset collected by a watcher, batched per commit, sent to an executor thread with the observers registered at that time", where="db/src/tx_observer.rs: TxObservationService, InProgressObserverTransactWatcher")],
  [("TxObservationService.observers", "key to observer", "db/src/tx_observer.rs")])

P("C17", "Every notation for a transaction means its plain list of assertions",
  "Map notation, nested maps, vectors of values, reversed attributes, lookup references, idents and entids, and the id of the transaction itself mean exactly the plain assertions they stand for: a transaction has the same effect, or is refused likewise, as its expansion. Nested maps that nothing would reach are refused, as are lookups that find nothing and attributes or idents that do not exist.",
  ["inputs"], "every transaction built from the notations, nested to any depth, in any state",
  "Tests sample each notation in isolation; their combinations (a reversed attribute with a lookup reference inside a nested map) are unbounded.",
  ["db/src/tx.rs", "db/src/internal_types.rs", "edn/src/entities.rs", "edn/src/edn.rustpeg"],
  [dict(name="work list that explodes maps and vectors into plain terms", where="db/src/tx.rs: entities_into_terms_with_temp_ids_and_lookup_refs")])

P("C18", "Moving transactions to another timeline undoes exactly them",
  "When the transactions from some point on are moved to another, unused, timeline, the facts, schema, names and indices are exactly those of the remaining transactions, each fact with the transaction that asserted it; the moved ones are kept unchanged on their timeline, and whatever was moved earlier stays where it is. A move that cannot be done (a used timeline, no such transactions, a change of schema that has no opposite) is refused and changes nothing. The store goes on working as if the moved transactions had never been.",
  ["histories"], "every history of transactions, schema changes, moves, reopenings and rollbacks, and every point to move from",
  "Tests move a few hand-made transactions once; what breaks depends on what several moved transactions did to the same facts and to the schema, and on earlier moves.",
  ["db/src/timelines.rs", "db/src/tx.rs", "db/src/db.rs"],
  [dict(name="transactions rewound newest first by transacting their opposites without recording them, then relabelled in the log", where="db/src/timelines.rs: move_from_main_timeline")],
  [("timelined_transactions.timeline", "which timeline a log row is on", "db/src/db.rs")])

P("C19", "Synchronised stores share one history",
  "After a store has synchronised, its log begins with the remote log, transaction by transaction, and its facts, schema and names are exactly those of its log. What it had done alone is neither lost nor repeated: it follows on the remote log, or, when both sides had changed, is stated again on top of it, an entity being the one with the same unique identity if there is one and otherwise a new one, and can be sent by the next synchronisation. The remote log only ever grows, by exactly the transactions the store says it sent, and entities already given out are not given out again.",
  ["histories", "schedules"], "every history of several stores that transact and synchronise with one remote log, in every order",
  "Tests synchronise a store or two with a few hand-made transactions; what must be merged depends on everything both sides did since they last agreed.",
  ["tolstoy/src/syncer.rs", "tolstoy/src/tx_processor.rs", "tolstoy/src/tx_uploader.rs", "tolstoy/src/metadata.rs", "src/conn.rs", "db/src/timelines.rs"],
  [dict(name="fast-forward, upload, or merge by moving local transactions to a timeline and rebasing them", where="tolstoy/src/syncer.rs: Syncer::sync, merge; db/src/db.rs: PartitionMap, fast_forward")],
  [("tolstoy_metadata, tolstoy_tu, tolstoy_parts", "remote head, transaction uuids, partitions at the last agreement", "tolstoy/src/schema.rs")],
  note="The remote is a fake in memory that implements GlobalTransactionLog, as the repository's own tests use.")

P("C20", "A synchronisation that fails changes nothing and can be repeated",
  "When any request to the remote log fails, wherever in the exchange and whether or not the remote carried it out, the synchronisation reports the failure, and the store is what it was before: the same facts, log, schema, names and next entids. The remote log is what it was, or has got the local transactions entirely, and synchronising again, as soon as the remote answers, comes to the same as if nothing had failed.",
  ["fault_sequences", "histories"], "every point of the exchange at which the remote stops answering, in every history of several stores",
  "Tests run against a remote that always answers.",
  ["tolstoy/src/syncer.rs", "tolstoy/src/tx_processor.rs", "tolstoy/src/tx_uploader.rs", "src/conn.rs"],
  [dict(name="one transaction around the synchronisation, committed only at its end", where="src/store.rs: Store::sync; tolstoy/src/syncer.rs")])

P("C21", "Ensuring a vocabulary makes the store have it, once",
  "Ensuring a vocabulary of some name, version and attributes leaves the store with exactly that: it is installed if it was not there, upgraded if an older version was, completed if attributes were missing, left alone if it was all there, and refused, changing nothing, if the store has a newer version or an attribute of it with another definition. Ensuring it again does nothing, also after reopening. What vocabularies the store is said to have, with which versions and attributes, is what its facts say.",
  ["histories", "inputs"], "every history of definitions of vocabularies (attributes added, altered, shared or redefined, versions going up and down), mixed with other changes to the schema",
  "Tests ensure two or three fixed vocabularies; what is to be done depends on everything the store's schema went through.",
  ["src/vocabulary.rs", "transaction/src/lib.rs", "db/src/schema.rs"],
  [dict(name="a definition is compared with the vocabulary read from the store; its terms are built and transacted", where="src/vocabulary.rs: ensure_vocabulary, Definition::description_diff, install_attributes_for")])

P("C23", "Building a transaction in the program has the effect of writing it",
  "A transaction assembled from typed values through the builder interface has the same effect, report and refusals as the same transaction written as text, for every kind of place: entids, idents, named temporary ids, lookup references and the transaction itself.",
  ["programs", "inputs"], "every sequence of builder calls over all kinds of places, inside and outside an open transaction",
  "Tests build a handful of transactions.",
  ["transaction/src/entity_builder.rs", "transaction/src/lib.rs", "db/src/tx.rs"],
  [dict(name="TermBuilder produces the entities the parser would", where="transaction/src/entity_builder.rs")])

P("C24", "Text is read as what it says, and what is written reads back",
  "Every text is either refused with an error or read as exactly the value its notation says (numbers, texts with escapes, instants, collections, comments, ignored forms); a number that does not fit is refused, and nothing panics. A value that is written, plainly or laid out, reads back as the same value. A damaged query or transaction does not panic, and one that is refused or rolled back changes nothing.",
  ["inputs"], "every text, and every value nested to any depth",
  "Tests read a few hundred fixed texts; the notation is recursive and its corners (ranges, escapes, tags, comments, what follows a number) combine.",
  ["edn/src/lib.rs", "edn/src/types.rs", "edn/src/pretty_print.rs", "edn/src/value_rc.rs", "edn/src/namespaceable_name.rs"],
  [dict(name="one grammar for values, queries and transactions; Display and the pretty printer", where="edn/src/lib.rs: parse; edn/src/types.rs: def_common_value_display")])

P("C25", "The report of a transaction tells the truth",
  "An accepted transaction reports its own id, the time it recorded, and for every named temporary id of it the entity that id denotes, and nothing else. A transaction that states its own time is recorded with it, once.",
  ["inputs", "histories"], "every accepted transaction of every history, with new, upserted and unified temporary ids, and stated or default times",
  "Tests look at the reported ids of a few transactions.",
  ["db/src/tx.rs", "core/src/tx_report.rs", "transaction/src/lib.rs"],
  [dict(name="tempid map collected over resolution; transaction instant chosen at commit", where="db/src/tx.rs: transact_simple_terms")])

P("C26", "An operation that fails midway changes nothing, nor do those after it",
  "When the database fails in the middle of an operation (it is interrupted, or cannot grow), the operation reports the failure and changes nothing, in the store and in memory. If the open transaction was lost to the failure, everything in it is undone, nothing more can be done in it, and committing it fails. Afterwards the store works as if the operation had not been tried.",
  ["fault_sequences", "histories"], "every step of the database engine at which an operation can be interrupted, and every size the file may not exceed, for every operation of every history",
  "Tests run on a database that never fails.",
  ["transaction/src/lib.rs", "db/src/cache.rs", "db/src/db.rs", "src/conn.rs", "query-pull/src/lib.rs"],
  [dict(name="savepoint around each transact; SQLite rolls back the whole transaction on some failures", where="transaction/src/lib.rs: all_or_nothing, ensure_transaction, savepoint"),
   dict(name="caches are populated by reading, and may not be able to", where="db/src/cache.rs: populate")])

P("C27", "By whatever door, it is the same store",
  "What is done or asked through the interface for C, the query and term builders, a file that is imported, reading past the caches, or one entity at a time is accepted, refused and answered as it would be through the textual interface, with the same effect, report, notifications and values. Values pass the interface for C unchanged both ways (instants are read there in whole seconds); there is no row or value before the first or after the last, and what cannot be had is null or an error. An explanation of a query is given whenever an answer is, and does not say that the answer is empty when it is not.",
  ["programs", "inputs"], "every sequence of operations, each by any of the doors it can be done by, with all types of values, all shapes of results and all ways to read them",
  "The interface for C has no tests in the repository at all; the query builder is tested on about ten queries.",
  ["ffi/src/lib.rs", "ffi/src/utils.rs", "src/query_builder.rs", "src/store.rs", "src/conn.rs", "transaction/src/query.rs", "transaction/src/entity_builder.rs", "query-projector/src/relresult.rs", "query-pull/src/lib.rs"],
  [dict(name="each function for C unwraps its arguments, calls the corresponding method and wraps what it returns", where="ffi/src/lib.rs"),
   dict(name="inputs bound by name, then a read transaction", where="src/query_builder.rs: execute")])

NA = {}
