#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as a script so the text is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
                  "observe_at": observe, "hook_needed": None}})
C="butane_core/src/"
p("C01","Stored values read back exactly",
 "Any value of a supported field type that a save accepts is returned unchanged by every later read, on every backend and through both the synchronous and the asynchronous API; a value the database cannot represent is refused with an error rather than stored as something else. This covers NULL and optional fields, integer extremes of each width, floats, empty and multi-line and non-ASCII text, arbitrary bytes, booleans, dates and timestamps (to the microsecond), UUIDs, JSON documents and string-keyed maps. Values used as primary keys find their own row again.",
 ["inputs","configurations"],"every value of every supported field type x {sqlite,pg,turso} x {sync,async} x {plain column, optional column, primary key}",
 "The type tests store one or two hand-picked values per type; they cannot reach all extremes, encodings and combinations on all five connection flavours.",
 [C+"sqlval.rs",C+"uuid.rs",C+"custom.rs",C+"db/sqlite.rs",C+"db/pg.rs",C+"db/turso.rs",C+"db/connmethods.rs"],
 [("ToSql/FromSql conversions",C+"sqlval.rs"),("backend value encoders and decoders",C+"db/{sqlite,pg,turso}.rs"),("row buffering of the sync/async adapters",C+"db/connmethods.rs VecRow")],
 ["save + get / query of model objects","insert + query of raw columns"])
p("C02","Objects behave as a keyed store",
 "Over any history of creating, saving, re-saving, loading and deleting model objects, the database behaves as a map from primary key to the last saved field values: a save makes exactly that object's fields current and touches no other row, a delete removes exactly that object, a load by key returns the last saved state or reports that no such object exists. A save refused by a constraint leaves the stored rows and the in-memory object's identity as they were.",
 ["histories","configurations"],"all histories of save/update/delete/get over several model types (auto, integer, text and UUID keys, unique and nullable columns) on every backend and API flavour",
 "Tests run a handful of fixed save/load/delete scripts; the guarantee is over all interleavings of operations on many objects.",
 [C+"lib.rs",C+"codegen/dbobj.rs",C+"db/helper.rs",C+"db/sqlite.rs",C+"db/pg.rs",C+"db/turso.rs"],
 [("save/get/delete operations",C+"lib.rs DataObjectOps"),("generated row accessors",C+"codegen/dbobj.rs"),("upsert/insert/update SQL",C+"db/helper.rs and backends")],
 ["save/get/try_get/delete results","full table contents after each step"])
p("C03","Queries return exactly the matching objects",
 "A query returns exactly the stored objects for which its condition is true under SQL's three-valued logic, however deeply and/or/not/all-of, comparisons, pattern matches, membership tests and null tests are nested. The result does not depend on the backend (apart from the letter-case rule of each database's own LIKE), on sync or async use, or on whether the condition was written with the macro syntax or built by hand.",
 ["inputs","configurations"],"all conditions generated by the expression grammar x all small table contents x every backend and API flavour",
 "Tests use a few fixed conditions, nearly all with a single operator; precedence and nesting errors and NULL interactions only appear in combinations.",
 [C+"db/helper.rs",C+"query/mod.rs",C+"query/fieldexpr.rs","butane_codegen/src/filter.rs",C+"db/sqlite.rs",C+"db/pg.rs",C+"db/turso.rs"],
 [("rendering of condition trees to SQL",C+"db/helper.rs sql_for_expr"),("field expression builders",C+"query/fieldexpr.rs"),("filter! macro","butane_codegen/src/filter.rs")],
 ["Query::load results against a reference evaluator"])
p("C04","Ordering and paging are exact",
 "A query with sort terms, limit and offset returns the same sequence as sorting all matching objects by those terms (earlier terms first, each in its own direction, NULLs placed where the database places them), dropping the first 'offset' of them and keeping at most 'limit'. Loading only the first result returns the first element of that sequence, or nothing when it is empty. Consecutive pages of a totally ordered query partition the result with no overlap or gap.",
 ["inputs","configurations"],"all combinations of sort terms, directions, limits and offsets over all small tables on every backend and API flavour",
 "Tests check one or two orderings with one limit; interactions of offset without limit, several sort terms and load-first are not covered.",
 [C+"query/mod.rs",C+"db/helper.rs",C+"db/sqlite.rs",C+"db/pg.rs",C+"db/turso.rs"],
 [("sql_order/sql_limit/sql_offset",C+"db/helper.rs"),("per-backend query assembly",C+"db/{sqlite,pg,turso}.rs query")],
 ["Query::load / load_first sequences"])
p("C05","Query deletes remove exactly what they select",
 "Deleting through a query removes exactly the objects that the same query without paging would have returned immediately before, reports how many were removed, and leaves every other row of every table unchanged. A query without a condition empties just that one table.",
 ["inputs","histories","configurations"],"all conditions (as for queries, including relational ones) x all small databases x every backend and API flavour",
 "Tests delete with one simple equality; over- or under-deletion for compound, relational or NULL-sensitive conditions is not visible to them.",
 [C+"query/mod.rs",C+"db/helper.rs",C+"db/sqlite.rs",C+"db/pg.rs",C+"db/turso.rs"],
 [("delete_where",C+"db/{sqlite,pg,turso}.rs"),("condition rendering",C+"db/helper.rs")],
 ["returned count","contents of all tables before and after"])
p("C06","Relational conditions follow the relations",
 "A condition on a foreign key that asks the referent to match selects exactly the objects whose referenced object satisfies the inner condition, and a condition on a many-to-many field that asks for containment selects exactly the owners with at least one linked object satisfying it. This holds for any nesting of the two, combined with and/or/not, and for optional and self-referential foreign keys.",
 ["inputs","configurations"],"all nested relational conditions x all small object graphs x every backend and API flavour",
 "Tests use one-level relational conditions on one fixed graph.",
 [C+"query/fieldexpr.rs",C+"db/helper.rs",C+"db/turso.rs","butane_codegen/src/filter.rs"],
 [("Subquery/SubqueryJoin conditions",C+"query/fieldexpr.rs"),("subquery rendering",C+"db/helper.rs"),("client-side subquery evaluation",C+"db/turso.rs")],
 ["Query::load results against graph evaluation"])
p("C07","Many-to-many links belong to their owner",
 "After any history of adding, removing, replacing and clearing links on many-to-many fields and saving, each owner's field contains exactly the objects linked to that owner and not since removed; operations on one owner or one field never change another's links. Unsaved changes become visible to others only on save, loading reflects the saved links, and adding an object that has never been saved is refused.",
 ["histories","configurations"],"all histories of add/remove/set/delete/save/load over several owners, fields and targets on every backend and API flavour",
 "Tests exercise one owner at a time with add/remove; cross-owner effects and longer histories are not sampled.",
 [C+"many.rs",C+"codegen/dbobj.rs",C+"migrations/adb.rs"],
 [("pending additions and removals",C+"many.rs"),("save of relations with the owner",C+"codegen/dbobj.rs")],
 ["Many::load on fresh copies of every owner after each save"],
 [("new_values/removed_values","unsaved link changes",C+"many.rs"),("all_values","loaded cache",C+"many.rs")])
p("C08","Foreign keys identify and load their referent",
 "A foreign key stores the referenced object's primary key and nothing else: loading it returns the referenced object as stored, two foreign keys are equal exactly when they refer to the same key (loaded or not), and it survives serialisation as that key. Saving a reference to an object that does not exist, or deleting a referenced object, is refused by the database rather than leaving a dangling reference, and using an unloaded value or an unsaved referent is reported as an error.",
 ["histories","configurations"],"all histories of creating, re-pointing, loading, serialising and deleting references on every backend and API flavour that enforces references",
 "Tests follow one valid reference; equality across loaded/unloaded states, dangling attempts and serialisation are only spot-checked.",
 [C+"fkey.rs",C+"db/sqlite.rs",C+"db/pg.rs",C+"db/turso.rs"],
 [("key/value caching",C+"fkey.rs"),("reference constraints in generated tables",C+"db/{sqlite,pg}.rs")],
 ["ForeignKey load/get/pk/eq/serde","errors from save and delete"])
p("C09","Any legal identifier works as a table or column name",
 "Models whose struct, field or table names are SQL keywords, raw identifiers, mixed-case or otherwise legal Rust identifiers can be migrated, saved, queried, filtered, sorted, linked and deleted exactly like any other model, on every backend. Two columns or tables whose names differ by more than letter case are never confused. Excepted are names a database reserves for itself (system columns, its own and Butane's prefixes) and names, including those of link tables, longer than the database keeps.",
 ["inputs","programs","configurations"],"all identifiers from the keyword lists and from a grammar of legal Rust names, in every position (table, key, column, relation, many-to-many) x every operation x every backend",
 "Only one example with a few fixed reserved words exists, and it does not use them in every kind of condition.",
 [C+"db/helper.rs",C+"codegen/mod.rs",C+"codegen/dbobj.rs",C+"db/pg.rs",C+"db/sqlite.rs",C+"db/turso.rs"],
 [("identifier quoting",C+"db/helper.rs quote_reserved_word"),("raw identifier stripping",C+"codegen")],
 ["success and result of each operation compared with the same schema under plain names"])
p("C10","Data is never interpreted as SQL",
 "Text, bytes and JSON supplied as field values, keys, query operands, patterns, list members, link targets or column defaults only ever act as data: whatever characters they contain (quotes, semicolons, comment markers, placeholders, backslashes, wildcards outside patterns), statements keep their meaning, and no table or row other than the one addressed is affected.",
 ["inputs","configurations"],"all strings from a grammar biased to SQL metacharacters, in every value position x every backend and API flavour",
 "No test stores hostile data; a single unescaped path is invisible until such a value reaches it.",
 [C+"db/helper.rs",C+"db/pg.rs",C+"db/sqlite.rs",C+"db/turso.rs",C+"codegen/mod.rs"],
 [("placeholders for values",C+"db/helper.rs sql_for_expr"),("literals in migrations",C+"db/helper.rs sql_literal_value"),("statement splitting",C+"db/turso.rs")],
 ["table contents against the model, sentinel table untouched"])
p("C11","Transactions are all-or-nothing",
 "Everything done through a transaction becomes visible at commit and only then; rolling it back, dropping it, or abandoning it after an error at any step leaves the database exactly as it was before the transaction began. The connection stays usable afterwards, later transactions start clean, and statements inside a transaction see its own earlier effects.",
 ["histories","fault_sequences","configurations"],"all sequences of transactions with any mix of operations, failing statements and endings (commit/rollback/drop) on every backend and API flavour",
 "Tests check commit and rollback of one insert; they do not vary the failure point or what follows on the same connection.",
 [C+"db/mod.rs",C+"db/sqlite.rs",C+"db/pg.rs",C+"db/turso.rs",C+"db/adapter.rs",C+"db/sync_adapter.rs"],
 [("Transaction wrappers and drop behaviour",C+"db/mod.rs"),("backend transactions",C+"db/{sqlite,pg,turso}.rs"),("transaction adapters",C+"db/{adapter,sync_adapter}.rs")],
 ["table contents on the same and on a second connection"])
p("C12","Sync, async and adapted connections agree",
 "The same sequence of operations gives the same results, the same errors-versus-success outcomes and the same final database whether it is run on a synchronous connection, an asynchronous one, a connection converted from one to the other any number of times, or inside a synchronous section of an asynchronous connection. Panics, errors and dropped futures inside one operation do not corrupt the connection for the next: it keeps working, or, where an abandoned synchronous section took it along, reports that it is unusable.",
 ["histories","configurations"],"all operation sequences x all adapter stackings of each backend, including conversions in mid-sequence",
 "Tests run the same short scripts on sync and async but never compare outcomes over random histories or stack adapters.",
 [C+"db/adapter.rs",C+"db/sync_adapter.rs",C+"db/mod.rs",C+"db/connmethods.rs",C+"db/dummy.rs"],
 [("AsyncAdapter worker thread",C+"db/adapter.rs"),("SyncAdapter runtime handling",C+"db/sync_adapter.rs"),("with_sync",C+"db/mod.rs")],
 ["per-operation results and final contents, differential"])
p("C13","All backends give the same answers",
 "For operations and values that every backend supports, a program observes the same results, row counts, orderings, constraint outcomes and final contents whichever backend it is connected to.",
 ["histories","configurations"],"all mixed histories of object, query, relation, transaction and bulk operations run in lock-step on sqlite, pg and turso",
 "Each test asserts per backend on its own; none runs generated histories in lock-step.",
 [C+"db/sqlite.rs",C+"db/pg.rs",C+"db/turso.rs",C+"db/helper.rs"],
 [("backend implementations of the connection methods",C+"db/{sqlite,pg,turso}.rs")],
 ["per-operation results and final contents, differential"])
p("C14","Migrations build the schema the models describe",
 "Applying a chain of generated migrations to an empty database yields the same schema as creating the final model state directly: the same tables and columns with the same types, nullability, keys, uniqueness, automatic keys and references, and the same acceptance or refusal of rows. This holds for any sequence of adding, dropping and changing tables, columns and relations, on every backend that supports the change.",
 ["programs","histories","configurations"],"all sequences of schema versions from a schema grammar x {sqlite,pg,turso}",
 "Migration tests compare a few hand-written model changes with expected SQL text; they do not check that arbitrary chains converge to the declared schema.",
 [C+"migrations/adb.rs",C+"migrations/mod.rs",C+"db/sqlite.rs",C+"db/pg.rs",C+"db/turso.rs"],
 [("diff",C+"migrations/adb.rs"),("migration SQL generation",C+"db/{sqlite,pg,turso}.rs create_migration_sql")],
 ["catalogue introspection of both databases","insert probes"])
p("C15","Migrations preserve existing data",
 "Applying or rolling back a migration keeps every row of every table that survives it, with the values of all columns that exist on both sides unchanged; a column added to a table with rows reads as its declared default, or NULL when optional, in each of them. Objects and links not touched by the schema change still load.",
 ["programs","histories","configurations"],"all schema changes from the grammar x all small table contents x {sqlite,pg,turso} x {up,down}",
 "Tests migrate a few fixed rows through a few fixed changes.",
 [C+"db/sqlite.rs",C+"db/pg.rs",C+"db/turso.rs",C+"db/helper.rs",C+"migrations/adb.rs"],
 [("table rebuild on column change/removal",C+"db/sqlite.rs change_column"),("ALTER statements and defaults",C+"db/{pg,helper}.rs")],
 ["full contents of every surviving table before and after"])
p("C16","Rolling a migration back restores the schema",
 "For every generated migration that can be applied, applying it and rolling it back leaves the database with the same schema as before, and it can then be applied again with the same outcome. Rolling back every migration leaves no model tables behind.",
 ["programs","histories","configurations"],"all schema changes and chains from the grammar x {sqlite,pg,turso}",
 "Tests roll back a few fixed migrations.",
 [C+"migrations/mod.rs",C+"migrations/migration.rs",C+"db/sqlite.rs",C+"db/pg.rs",C+"db/turso.rs"],
 [("down SQL from the reverse diff",C+"migrations/mod.rs create_migration_to"),("downgrade",C+"migrations/migration.rs")],
 ["catalogue introspection before and after"])
p("C17","The applied-migration record matches the schema",
 "After any sequence of migrating forward, rolling back, creating new migrations and reconnecting, the database records exactly the migrations whose changes are in it; the unapplied list is exactly the rest of the chain in order, migrating applies those and only those, in chain order, and doing it again changes nothing.",
 ["histories","configurations"],"all histories of create/apply/migrate/downgrade/unmigrate/clear over all small chains, on every backend, with file-backed, in-memory and embedded migration sets",
 "Tests apply one or two migrations once and look at the end state.",
 [C+"migrations/mod.rs",C+"migrations/migration.rs",C+"migrations/memmigrations.rs",C+"migrations/fsmigrations.rs","butane_cli/src/lib.rs"],
 [("bookkeeping table",C+"migrations/mod.rs ButaneMigration"),("chain walking",C+"migrations/mod.rs Migrations")],
 ["unapplied_migrations, last_applied_migration, bookkeeping rows, schema probes"])
p("C18","A failed migration leaves no trace",
 "If applying or rolling back a migration fails at any statement, the database keeps the schema, the rows and the applied-migration record it had before that migration; migrations applied earlier in the same run stay applied, later ones are not attempted, and once the cause is removed the same call completes.",
 ["fault_sequences","crash_points","configurations"],"all chains x every position of a failing statement (bad SQL, conflicting data, conflicting objects) within every migration x {up,down} x backend",
 "No test makes a migration fail part-way.",
 [C+"migrations/migration.rs",C+"migrations/mod.rs",C+"db/mod.rs"],
 [("transaction around statements and bookkeeping",C+"migrations/migration.rs apply/downgrade")],
 ["schema, contents and bookkeeping before and after the failure"])
p("C19","The schema difference is exact and minimal",
 "Comparing two schemas yields operations that, carried out on the first, give the second; the list is empty exactly when the schemas are equal, it mentions only things that differ, and it does not depend on the order in which models were declared. A new migration is created exactly when something changed.",
 ["inputs","programs"],"all pairs of schemas from the schema grammar, including permuted declarations",
 "Tests diff a handful of hand-written schema pairs.",
 [C+"migrations/adb.rs",C+"migrations/mod.rs"],
 [("diff and transform",C+"migrations/adb.rs"),("create_migration_to",C+"migrations/mod.rs")],
 ["operations list and transformed schema"])
p("C20","Migration storage is faithful",
 "Whatever a migration set contains - schemas, chain links, per-backend statements, declared types, unmodified-table references - is the same when read back from disk, copied between file and memory storage, or embedded as JSON and parsed again, and the copies behave identically when applied. A migration may be made from any other, or from none; those leading to the latest one are listed in order, and detaching the latest leaves it stored but no longer listed. Reading malformed stored migrations reports an error instead of misbehaving.",
 ["inputs","histories"],"all migration chains from the schema grammar (with hostile statement text and names) x {file, memory, JSON, copied, embedded}",
 "Tests write and read back a couple of small fixed migrations.",
 [C+"migrations/fsmigrations.rs",C+"migrations/memmigrations.rs",C+"migrations/fs.rs",C+"migrations/mod.rs",C+"migrations/adb.rs",C+"sqlval.rs","butane_cli/src/lib.rs"],
 [("table bases and per-table files",C+"migrations/fsmigrations.rs"),("serde of schema types",C+"migrations/adb.rs"),("copy_migration",C+"migrations/mod.rs"),("embed","butane_cli/src/lib.rs")],
 ["db(), migration_from(), up/down SQL, backends of each copy"])
p("C21","Models compile to the schema they declare",
 "For every model definition, the recorded schema has exactly one table with the declared name and one column per plain field with the field's type, optionality, key, automatic, unique and default attributes and its reference, plus one link table per many-to-many field. The result does not depend on the order in which models are compiled or on recompilation, renaming by attribute is honoured, and an unsupported or contradictory definition is rejected with a compile error rather than recorded wrongly.",
 ["programs"],"all model definitions from a grammar of structs, field types, spellings of types, attributes, defaults and relations; all compile orders",
 "Tests cover a couple of dozen fixed structs.",
 [C+"codegen/mod.rs",C+"codegen/migration.rs",C+"codegen/dbobj.rs",C+"migrations/adb.rs"],
 [("field inspection",C+"codegen/mod.rs"),("schema recording",C+"codegen/migration.rs"),("deferred type resolution",C+"migrations/adb.rs resolve_types")],
 ["schema recorded by running the model macro's implementation on generated source"])
p("C22","Connection settings survive parsing and saving",
 "Parsing a connection string picks the documented backend for its form and keeps the string's meaning; a saved connection specification loads back equal, from a file or from its directory; adding parameters keeps everything already there and adds exactly the given name and value, or reports an error when the form does not allow it. No input makes parsing fail abruptly.",
 ["inputs"],"all strings from a grammar of URLs, key-value strings and paths plus arbitrary text; all sequences of added parameters",
 "Tests list about twenty fixed strings.",
 [C+"db/mod.rs"],
 [("ConnectionSpec",C+"db/mod.rs")],
 ["backend_name, conn_str, reparsed parameters"])
p("C23","Command-line migration workflows keep their promises",
 "Over any history of the command-line operations (make, migrate to a target, roll back to a target, describe, detach, collapse, embed, add or remove or regenerate backends, delete a table, clear data), the migration directory stays a single valid chain ending in the current models, the database ends at the requested migration with matching schema and data, and operations that only rewrite migrations do not change the resulting schema. A refused operation leaves directory and database as they were; a run over several migrations which stops midway leaves the database at the last migration that succeeded.",
 ["histories","configurations"],"all histories of command operations interleaved with model changes from the schema grammar, on file-backed databases",
 "Tests of the command-line crate cover a few single commands.",
 ["butane_cli/src/lib.rs",C+"migrations/fsmigrations.rs",C+"migrations/mod.rs"],
 [("command implementations","butane_cli/src/lib.rs"),("file-backed migrations",C+"migrations/fsmigrations.rs")],
 ["chain read back from disk, database schema, data, bookkeeping"])
p("C24","Serialised field values round-trip",
 "Field values, automatic keys, foreign keys, many-to-many fields and model objects that derive serialisation deserialise to an equal value, and converting a value to its database form and back is the identity for every supported type; converting to an incompatible type is reported as an error and never yields a wrong value.",
 ["inputs"],"all values of every supported type and wrapper",
 "Tests convert a few constants.",
 [C+"sqlval.rs",C+"autopk.rs",C+"fkey.rs",C+"many.rs",C+"uuid.rs",C+"custom.rs"],
 [("serde implementations",C+"{sqlval,autopk,fkey,many}.rs"),("conversion traits",C+"sqlval.rs")],
 ["serde_json round trip and to_sql/from_sql round trip"])
p("C25","Automatic keys are fresh and stable",
 "An object with an automatic key has no key until its first successful save, then receives one that no row in that table has, and keeps it across later saves, loads and copies. A failed first save leaves it without a key; objects with no fields but the key can be saved too.",
 ["histories","configurations"],"all histories of creating, saving, deleting (including the highest key) and failing saves on automatic-key models on every backend and API flavour",
 "Tests look at two consecutive inserts.",
 [C+"autopk.rs",C+"lib.rs",C+"db/sqlite.rs",C+"db/pg.rs",C+"db/turso.rs"],
 [("AutoPk initialisation",C+"lib.rs save"),("AUTOINCREMENT/serial columns",C+"db/{sqlite,pg,turso}.rs")],
 ["keys assigned over the history"])
p("C26","Derived field types round-trip and can be queried",
 "User types that derive the field-type support - wrappers of a supported type, enums stored by name, and structures stored as JSON - are stored, loaded, compared, defaulted, used as primary keys and as query operands with the same meaning as their Rust value; a stored text that is no variant of the enum is reported as an error.",
 ["inputs","configurations"],"all values of a family of derived types x every backend and API flavour x {save/load, filter, primary key, optional}",
 "Tests cover one enum and one newtype with fixed values.",
 ["butane_codegen/src/lib.rs",C+"codegen/mod.rs",C+"sqlval.rs"],
 [("FieldType/PrimaryKeyType derives","butane_codegen/src/lib.rs")],
 ["save/get and query results"])
p("C27","Pooled and concurrent connections stay independent",
 "Connections taken from the provided connection pools, or used concurrently from several threads or tasks, behave as independent connections: each unit of work that commits is applied exactly once, one that fails or is abandoned is not applied at all, work on one connection never shows up in another's results before commit, and a pool never hands out a connection left in a broken or half-finished state by the library's own operations (transaction control sent by hand as raw SQL is outside this).",
 ["schedules","histories","configurations"],"generated interleavings of units of work over pooled connections (r2d2, deadpool) and shared asynchronous connections",
 "Pool tests check out one connection.",
 ["butane/src/db/r2.rs","butane/src/db/deadpool.rs",C+"db/adapter.rs",C+"db/mod.rs"],
 [("pool managers","butane/src/db/{r2,deadpool}.rs"),("command queue of the async adapter",C+"db/adapter.rs")],
 ["final contents and per-unit outcomes"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
