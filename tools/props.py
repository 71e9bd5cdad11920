# One entry per property.  prop(id, title, statement, over, text, why, files, mech, technique, note)
BFS = "bounded-exhaustive enumeration of inputs on the real code against a reference model"
SEQ = "exhaustive enumeration of operation sequences on the real code against a reference model"

prop("C01", "Writing a type description and reading it back yields the same type",
"""Every valid Recap type survives being written out as a type description and read back: kind, sizes, attributes, field
names and order, docs, defaults, nullability, logical types, alias definitions and references are all the same afterwards.
This holds for every choice of compact or verbose output and with or without alias substitution.  The output is plain
JSON data and producing it changes neither the type nor later outputs.""",
["inputs"], "for all type terms up to the stated depth/width, attribute combinations, and all 4 output modes",
"""Tests serialise a few dozen hand-written types; interactions (doc+default+optional+alias+nesting, two aliased siblings,
references to aliases) are only reached by enumerating combinations.""",
[T], [("to_dict/clean_dict/alias_dict", T), ("from_dict optional sugar", T)],
BFS, """All type terms over the stated alphabet up to a depth/attribute-deviation bound are generated, serialised in 4 modes and
re-read by the real code; oracle is a structural walk written independently of the code's __eq__.""")

prop("C02", "Shorthand and longhand type descriptions mean the same type",
"""A type written with any mix of shorthand (a bare name, a list for a union, a list as the type, the optional marker, a
built-in alias name) denotes exactly the type that the fully written-out description denotes, at every nesting level.
Built-in aliases always mean their documented concrete types.  Reading a description never modifies it, and reading it twice
gives equal types.""",
["inputs"], "for all type terms in the bound and every choice of shorthand spelling at every position",
"""Tests cover each shorthand once and mostly at top level; that all spellings agree in all positions is a statement over a
product space.""",
[T], [("from_dict", T), ("BUILTIN_ALIASES", T)], BFS,
"""Every spelling of every term in the bound is read by the real code and compared with a type built by direct
construction from the reference term; builtin alias table is an independent transcription of the documentation.""")

prop("C03", "Invalid type descriptions are rejected wherever they occur",
"""A description that is missing a required part, has a size outside the documented range, is a fixed-length type with no
length, defines an alias twice, redefines a built-in alias or uses an alias that is not fully qualified is rejected with an
error, whether it is the whole description or nested at any position inside another type.  Descriptions inside the documented
ranges, including the boundary values, are accepted.""",
["inputs"], "for all base faults x all nesting contexts up to the bound; boundary values on both sides",
"""Tests reject a few faults at top level; rejection at every nested position and at both sides of each limit is a product of
faults and contexts.""",
[T], [("validate", T), ("from_dict required attributes", T), ("RecapTypeRegistry.register_alias", T)], BFS,
"""Enumerates fault x context products against a reference validity predicate, including valid twins so that
over-rejection is caught too.""")

prop("C04", "References resolve to the aliased type with the reference's overrides only",
"""Following a reference gives the type registered under that alias, without the definition's own doc, default and alias
and with the attributes given on the reference applied on top.  Neither following a reference, nor changing the result, nor
changing the originally registered type affects the stored definition or other references; an alias can be defined once only,
built-in aliases can never be redefined, unknown aliases raise, and separate registries never influence each other.""",
["histories"], "for all sequences of define / refer / resolve / mutate operations up to the depth bound over two registries",
"""Tests do one define and one resolve; isolation and single assignment are statements about all histories.""",
[T], [("RecapTypeRegistry", T), ("ProxyType.resolve", T)], SEQ,
"""All operation sequences up to the depth run on real registries, each step compared with a dict-based model.""")

prop("C05", "Making a type nullable only adds null",
"""Making any type nullable yields a union that accepts null and exactly what the original accepted, with doc, default and
field name moved to the union and every other attribute left on the wrapped type; a union that is already nullable gains no second null.
The original type is left untouched, so doing it twice gives the same answer, and a type reports itself nullable exactly when
null is one of its alternatives.""",
["inputs", "histories"], "for all type terms in the bound and all sequences of make-nullable / observe operations",
"""Tests check return values for a few types and never look at the receiver again afterwards.""",
[T], [("RecapType.make_nullable/is_nullable", T), ("UnionType.is_optional", T)], BFS,
"""All terms in the bound; receiver snapshot before/after; model computed from the term.""")

S = "recap/storage/registry.py"
prop("C06", "The schema registry storage is a versioned map",
"""After any sequence of operations, reading a name and version returns exactly the type last stored there and its version,
reading without a version returns the highest version, storing without a version uses one more than the highest (1 for a new
name), and listings show exactly the stored names and the versions in numeric order.  Absent names and versions read as absent,
not as errors, and a storage reopened on the same location answers identically.""",
["histories"], "for all sequences of put/put-version/get/list/reopen over 2 colliding names, 3 types, versions {1,2,10} up to the depth, on local and in-memory file systems",
"""Tests run a handful of fixed put/get scripts on a mocked or local directory.""",
[S], [("RegistryStorage", S)], SEQ,
"""Explicit-state search over the real storage; every reached state is fully observed and compared with a dict model;
conformance is inherent since transitions are executed on the implementation.""")

prop("C07", "Registry names are distinct, stay inside the storage root and list verbatim",
"""Two different names never share or hide each other's versions, every stored name is listed exactly as it was given, and
nothing is ever created, read or changed outside the configured storage location, whatever characters the name contains.
Names nobody stored are never listed.""",
["inputs", "histories"], "for all names up to the length bound over an alphabet of path-significant characters, and all ordered pairs of them",
"""Tests use one name with a slash; containment and injectivity quantify over all names.""",
[S], [("name quoting", S)], BFS,
"""All names over the alphabet up to the length, stored and re-read singly and in pairs inside a jailed scratch root with a
recording file system; escapes are detected by recording, not performed outside scratch.""")

prop("C08", "Storing a schema version is all-or-nothing under failures and crashes",
"""If storing a version fails or the process dies at any point, every version that was already stored stays readable with its
old content, latest still works, and the version being stored is either absent or complete.  A failed store can be retried
and then succeeds.""",
["crash_points", "fault_sequences"], "for every file-system step of every store operation in short histories: crash before it, after it, or in the middle of a write (every torn prefix), or an I/O error raised from it",
"""No test injects failures; the property quantifies over every crash point and torn prefix.""",
[S], [("RegistryStorage.put", S)], "exhaustive crash-point / torn-write / I/O-fault enumeration on the real write path",
"""Every file-system call and every byte prefix of every write of each history is a crash point; recovery state read back
through a fresh storage.  Assumes renames are atomic and metadata operations ordered (no reordering of synced data).""")

R = "recap/server/registry.py"
prop("C09", "The HTTP registry never changes or loses an acknowledged version",
"""Over any sequence of requests, a version once accepted always reads back unchanged; writing an existing version is refused as a conflict,
posting always creates the next version and returns its number, and reads return the stored type with the right version or
not-found.  Requests with an unsupported content type or an invalid type description are refused as client errors and change nothing.""",
["histories"], "for all sequences of HTTP requests up to the depth over 2 names, 3 versions, valid/invalid/wrong-type bodies",
"""Tests issue single requests against a mocked storage object.""",
[R, S], [("route handlers", R), ("RegistryStorage", S)], SEQ,
"""Explicit-state search driving the real ASGI app (no mocks) against a dict model; states deduplicated on model state.""")

prop("C10", "Concurrent registry requests behave as if executed one at a time",
"""When several clients read and write the same schema at once, every response and the final contents are those of some
one-at-a-time order of the requests.  No two acknowledged posts get the same version, an acknowledged version is never
overwritten, and readers see either nothing or a complete schema.""",
["schedules"], "for all interleavings of 2-3 requests at body-chunk arrival, dependency-thread and storage-step granularity",
"""Tests never run two requests at once; the check-then-write gap around awaiting the request body needs a specific
interleaving.""",
[R, S], [("async handlers without awaits between check and write", R)],
"stateless exploration of all request interleavings of the real ASGI app under a controlled event loop and executor",
"""All schedules of the stated request sets; brute-force linearizability against the dict model.""")

G = "recap/settings.py"
prop("C11", "Listed roots never reveal credentials and keep the rest of the URL",
"""The list of configured roots never contains the user-information part (user name and password) of a URL, and is otherwise the configured URL: same scheme,
host, port, path, query and fragment, in the configured order.  Each listed root resolves back to the configured URL it came
from.""",
["configurations"], "for all configured URLs in the product of scheme x userinfo x host x port x path x query x fragment, and all pairs of them",
"""Tests list a handful of URLs; leaks depend on combinations (empty user, special characters, IPv6, no host).""",
[G], [("RecapSettings.safe_urls", G)], BFS,
"""Full product of URL parts through real settings objects; oracle composes the expected URL from the parts.""")

prop("C12", "Credentials are only attached to URLs under the same configured root",
"""A request URL receives a configured URL's credentials and options only if scheme, host and port are equal and its path is
the configured path or below it, path component by path component; request options win over configured ones and the first configured URL that matches applies.  Otherwise
strict mode refuses it and non-strict mode uses the URL unchanged.""",
["configurations", "inputs"], "for all pairs (settings list of up to 2 URLs, request URL) in the product of URL parts",
"""Tests cover a dozen matching pairs and few mismatches; a false match leaks a password to another database or host.""",
[G], [("RecapSettings.unsafe_url", G)], BFS,
"""Full product of setting lists and request URLs against a component-wise reference matcher.""")

C = "recap/clients/__init__.py"
prop("C13", "Every URL reaches the right source, connection and object",
"""For each supported scheme a URL selects that source's client, connects with exactly the host, port, credentials, database
and driver options the URL and the configured root give (URL options never override the host, port, credentials or database that
the URL itself gives), and lists or reads exactly the object its path names.  A URL with an unsupported scheme, or whose path does not
name a listable or readable object, is refused with an error.""",
["inputs", "configurations"], "for all schemes x authority forms x path depths x queries x {list, schema} x {configured, not configured}",
"""Tests parse URLs and connect separately with mocks, so end-to-end mismatches between the two halves go unnoticed.""",
["recap/commands.py", C, "recap/clients/"], [("create_client/parse_url/_url_to_dict", C), ("client create/parse", "recap/clients/*.py")], BFS,
"""Real command entry points with recording stand-ins for the database drivers; full product of URL parts against a
reference dispatch table.""")

prop("C14", "CLI and HTTP gateway return the requested format of the same schema",
"""For every source schema the gateway and the command line return exactly what converting that schema to the requested format
gives: the default is Recap's own format, unknown content types are refused, and errors of the source do not turn into wrong schemas.
Listing without a URL returns the configured roots, and listing and schema requests on the same URL through CLI, HTTP and library agree.""",
["inputs"], "for all formats / content types x source schemas in the bound x entry points",
"""Tests exercise one schema per format through mocks.""",
["recap/commands.py", "recap/cli.py", "recap/server/gateway.py"], [("commands.schema", "recap/commands.py"), ("gateway", "recap/server/gateway.py")], BFS,
"""Product of entry points, formats and real on-disk sources; outputs compared across entry points and with direct
converter output.""")

def db(id, name, file, extra="", unknown=True):
    prop(id, f"{name} columns become faithful Recap fields",
f"""Every {name} table description becomes a struct with one field per column, in column order, with the column's name, its default,
null allowed exactly when the column allows null, and the documented Recap type for its database type, length, precision and
scale.{extra}  {"Unknown database types are refused rather than guessed, and each" if unknown else "Each"} column's result is independent of the other columns and of earlier conversions.""",
["inputs"], "for all database types x parameters x nullability x default, all pairs of columns, and repeated conversions",
"""Tests convert each type once in one table; parameter boundaries, defaults, nullability combinations and cross-column
interference are products.""",
[file, "recap/converters/dbapi.py"], [("_parse_type", file), ("DbapiConverter.to_recap", "recap/converters/dbapi.py")], BFS,
"""Full product of column descriptors (single and pairs) through the real client/converter against an independent mapping
table.""")
db("C15", "MySQL", "recap/converters/mysql.py")
db("C16", "PostgreSQL", "recap/converters/postgresql.py", "  Arrays become lists of the element type and enums keep their labels.")
db("C17", "Snowflake", "recap/converters/snowflake.py")
db("C18", "SQLite", "recap/converters/sqlite.py", "  The type follows SQLite's own affinity of the declared type (NUMERIC affinity is a union of all storage classes including null) and primary key columns count as not null.", unknown=False)
db("C19", "BigQuery", "recap/converters/bigquery.py", "  Repeated fields become lists and records become structs, at any depth.")
db("C20", "Hive", "recap/converters/hive_metastore.py", "  Columns and nested values are always nullable, and requested column statistics are attached to the column they belong to.")

A = "recap/converters/avro.py"
prop("C21", "Avro schemas are read faithfully",
"""Every Avro record schema is read as a struct with the same fields in the same order, with each field's type, default, doc, enum symbols,
union alternatives and order, sizes and logical types preserved; a reference by name means the named type defined in the
namespace in effect.  The doc of a field takes precedence over that of its type.  Schemas that are not records and logical types
Recap does not know are refused.""",
["inputs"], "for all Avro schemas in the bound: types x nesting x namespaces x references x defaults",
"""Tests read single-feature schemas; name resolution across nesting and namespaces is combinatorial.""",
[A], [("AvroConverter.to_recap", A)], BFS,
"""All Avro schema terms up to depth against an independent Avro reader written from the Avro specification.""")
prop("C22", "Recap types become Avro schemas that read back as the same type",
"""Converting a struct to Avro gives a schema with the same fields in the same order and the narrowest Avro types that hold all
values of the Recap types; reading it back gives a struct with the same field names, nullability, defaults, docs and those types.
Integers of more than 64 bits become decimals.  A user-defined alias is defined once, where it is defined in Recap, and referenced
by name elsewhere.  Types Avro cannot express are refused, never silently changed into something narrower.""",
["inputs"], "for all Recap types in the bound, all bit sizes at boundaries, logical types and units",
"""Tests convert a few types each way and never compose the two directions.""",
[A], [("AvroConverter.from_recap", A)], BFS,
"""All terms in the bound; oracle is a reference range/width model plus re-reading by the real reader.""")
J = "recap/converters/json_schema.py"
prop("C23", "JSON Schemas are read faithfully",
"""Every JSON object schema in the supported subset is read as a struct with the same properties in the same order; a property that is not
required can be null and has a default, a required one is what its schema says; and types, items, defaults, descriptions, names and
references are preserved at every depth.  A reference to another schema means that schema, wherever and however often it is used,
and an $id always becomes a valid alias, which keeps its domain, path and fragment apart from those of other schemas.  Schemas that are not objects, and types Recap does not know, are refused.""",
["inputs"], "for all JSON schemas in the bound: types x required x default x description x nesting x references",
"""Tests read single-feature schemas.""",
[J], [("JSONSchemaConverter.to_recap", J)], BFS,
"""All schema terms up to depth against an independent reader.""")
prop("C24", "Generated JSON Schemas accept exactly the values of the Recap type",
"""The JSON Schema produced for a struct is valid, all its references resolve inside the document, and it accepts exactly the
JSON values that belong to the type: required fields must be present, optional ones may be absent, and the kinds of lists, maps, enums,
unions, structs and scalars are enforced at every depth (sizes and lengths are not expressed).  Docs and defaults are kept.""",
["inputs"], "for all Recap types in the bound x all small JSON instances",
"""Tests compare output text for a few types; acceptance quantifies over types and values.""",
[J], [("JSONSchemaConverter.from_recap", J)], BFS,
"""All terms in the bound; every generated schema is run by an independent validator on all small instances and compared with a
membership model.""")
B = "recap/converters/protobuf.py"
prop("C25", "Protobuf definitions are read faithfully",
"""Every proto file in the supported subset is read as the struct of its first message: same fields in the same order, right scalar type,
optional/repeated/map/oneof shape, enum symbols, and message references that mean the referenced message or enum, including nested
(known by their simple name in the package), forward, recursive and fully qualified ones.  Files without a message, references to
nothing and map keys that are not integers or strings are refused.  One converter reads several files, each in its own package.  The result can
be written out and read back as a Recap type description.""",
["inputs"], "for all proto files in the bound: scalar types x cardinality x map/oneof/enum x message reference graphs up to 3 messages",
"""Tests read single-feature protos; reference graphs (siblings, diamonds, cycles) are combinatorial.""",
[B], [("ProtobufConverter.to_recap", B)], BFS,
"""All proto files in the bound against an independent reader; all reference graphs over 3 messages.""")
prop("C26", "Generated Protobuf files are valid and preserve every field",
"""Converting a struct to Protobuf gives a proto3 file that protoc accepts, in which every field keeps its name, order, type and
optional/repeated/map/oneof shape, field numbers are unique and positive within a message, and every message and enum that is used is
declared exactly once, in its package or enclosing message.  Reading the file back gives the same fields, the root message first; structs Protobuf cannot
express (numbers over 64 bits, strings over 2^31 bytes, lists in lists, maps or unions, unsupported map keys, structs and enums without an alias, packages outside the root's) are
refused, never dropped or flattened.""",
["inputs"], "for all Recap structs in the bound: field type x shape x position, alias graphs up to 3 messages",
"""Tests convert single-feature structs; number collisions and missing declarations need combinations.""",
[B], [("ProtobufConverter.from_recap", B)], BFS,
"""All structs in the bound; generated text compiled by protoc and its descriptor compared with the documented mapping applied to the
struct; files of one package are read back and compared.""")
prop("C27", "Conversions have no side effects and no memory",
"""Reading or converting a schema with a new converter (or, for tables, a client of its own) gives the same result whatever was
read, converted or described before in the same process, in whatever order, and whatever other threads do at the same time; it never
changes its input.  Describing, copying, resolving, comparing or converting the same type from two threads gives each thread the
result it would get alone.""",
["histories", "schedules"], "for all sequences of up to 3 conversions over a set of colliding schemas and all source/target formats in one process, and all ways for one conversion to be preempted at any source line by another of the same objects",
"""Tests build a fresh converter per assertion, never convert twice, and use one thread.""",
["recap/converters/", "recap/clients/", T], [("module and default-argument state", "recap/clients/postgresql.py"), ("per-converter registries", "recap/converters/*.py"), ("cached resolution", "recap/types.py ProxyType.resolve")], SEQ,
"""All conversion sequences up to the depth in one process compared with the fresh-process result of each conversion, and all
single preemptions of one conversion by another, at every source line, compared with each one alone; inputs deep-compared before and after.""")
prop("C28", "Every schema Recap can read can be stored and served back unchanged",
"""Any struct read from any supported source whose attribute values are JSON values can be written as a Recap description, stored in
the registry over HTTP, served as latest and by version, and parsed: the result is the same struct (references refer to the
same types), has the same description, and converts to Avro, JSON Schema and Protobuf exactly like the original.""",
["inputs", "histories"], "for all source schemas in the per-source bounds",
"""Each layer is tested alone; composition over all source shapes is not.""",
["recap/converters/", T, R], [("to_dict/from_dict", T), ("registry", R)], BFS,
"""Re-uses the per-source enumerations; every struct goes through description, storage and re-read.""")

prop("C29", "Two types are equal exactly when all their parts are",
"""Two types compare equal exactly when they have the same kind, sizes, logical type, alias, doc and attributes and equal nested types in
the same order; references are equal when they have the same alias and overrides.  Comparing works for every pair of types,
recursive ones included, in both directions, never with anything that is not a type, and neither describing, validating, following nor copying a
type changes what it equals.  A copy is equal to its original, and changing the copy changes neither the original nor its equality with others.""",
["inputs", "histories"], "for all ordered pairs of types in the bound, and all uses of a type between two comparisons",
"""Tests use equality to state their expectations and never test a pair that must be unequal, so an equality that forgets an attribute passes all of them.""",
[T], [("RecapType.__eq__ and its overrides", T), ("ProxyType.__deepcopy__", T)], BFS,
"""All pairs of terms against structural comparison of the terms they were built from.""")
prop("C30", "A read that fails is reported and releases its connection",
"""When a source fails at any point while a listing or schema is read (connecting, any statement, any fetch, any page, statistics,
disconnecting, reading a file), the read fails: the library raises, the command line exits with an error and the gateway responds with
an error that has no configured password.  It never returns a listing or schema that lacks parts, whatever the size of the source.  Every
connection that was opened is closed, also when the code that uses a client fails (its error comes out unchanged), and
the same read afterwards gives the complete answer.""",
["fault_sequences", "inputs"], "for all operations on all kinds of sources, all entry points, all single failure points and all pairs of them, all classes of errors in the bound, and all sizes in a list",
"""Tests read sources that work; what happens when the n-th call to a driver fails depends on n, and no test makes one fail.""",
["recap/clients/", "recap/commands.py", "recap/cli.py", "recap/server/gateway.py"], [("create_client and the create methods", "recap/clients/*.py"), ("commands.ls, commands.schema", "recap/commands.py"), ("gateway", "recap/server/gateway.py")],
"exhaustive fault injection: every call to a driver or the file system fails, alone and in pairs, on the real code",
"""Every operation is run once to count its calls to the driver; then it is run again with each call, and each pair of calls, failing
with each class of error.  The outcome must be a failure or the complete answer, all connections must be closed, and a repetition without faults must give the answer.""")

prop("C31", "Every read answers from the state the source has at that moment",
"""The answer to a listing or a schema read depends on the state of the source at the time of the read and on nothing that was read before:
after tables, columns, types, subjects, files or statistics were added, changed or dropped, the next read -- through the library, the command
line or the gateway, in the same process, in any order and after any other reads -- gives what a process that has only just started gives.""",
["histories", "inputs"], "for all histories of source states and reads up to the depth, for all operations on all kinds of sources and all entry points",
"""Each test reads a source once, in one state.  A cache, a shared converter or a kept connection gives right answers until the source changes between two reads of one process, as it does under a gateway that runs for weeks.""",
["recap/clients/", "recap/commands.py", "recap/cli.py", "recap/server/gateway.py", "recap/converters/"], [("create_client and the clients", "recap/clients/*.py"), ("commands.ls, commands.schema", "recap/commands.py"), ("gateway", "recap/server/gateway.py")],
"explicit-state exploration of all histories of source changes and reads, on the real code",
"""Every source has three states that differ in every listing and schema.  All sequences of (state, entry point) up to the depth are run in one process,
and each answer is compared with the one that a fresh process gives in that state; pairs of different operations on one source are interleaved with the changes.""")

prop("C32", "Every part uses the configured settings, however they were given",
"""URLs, the registry's storage URL and its arguments can be given by environment variables (in any case, arguments also one by one with nested names), by a .env file
and by files in the secrets directory; the home and the secrets directory by the environment or the .env file.  In every combination the environment wins over .env, and both win over secrets.
The library, the command line, the gateway and the registry all use these values, roots are listed in the order they were given, and credentials are attached to them.  Directories that
don't exist are created, whatever their path looks like.  Without a storage URL, schemas are stored in schemas below the home directory (~/.recap).  A process that is started again with the same configuration
finds everything that was stored, and adds versions to it.""",
["inputs", "histories"], "for all subsets of the sources of each setting, all ways of giving the directories, all lists of URLs up to three, all kinds of paths, and a restart of each",
"""Tests construct settings objects directly; how a process finds its settings when it starts depends on the environment, on files and on the order in which they're read, which happens once per process at import time.""",
["recap/settings.py", "recap/server/registry.py", "recap/commands.py", "recap/clients/__init__.py"], [("RecapSettings, HOME_PATH, SECRETS_PATH", "recap/settings.py"), ("get_storage", "recap/server/registry.py"), ("settings", "recap/commands.py")],
"exhaustive enumeration of configurations, each run twice in fresh processes on the real code",
"""Every combination of sources is set up in a scratch directory and started in two fresh processes, one after the other (forks that haven't imported Recap); each lists, connects, stores and
reads through the library, the command line and HTTP, and the results and the files are compared with what the precedence of the sources demands.""")

prop("C33", "Everything that is listed can be opened, from the roots down",
"""Starting with the listed roots and appending listed names, one reaches exactly the objects of the source: every listed URL can be listed or, if it is a table, subject or schema
file, read, and gives the children or the schema of that very object, whatever the objects are called and however names coincide across and within levels (a table called like its
schema, names that differ in case or by spaces), through the library, the command line and the gateway, without the user giving credentials that are configured.""",
["inputs", "histories"], "for all shapes of sources up to two objects per level, all special names alone and in pairs, at every level, of all kinds of sources, and all entry points",
"""Tests list one URL or read one URL that they spell themselves; that the output of one step is a valid input of the next, for every name a database allows, is only seen by walking the whole graph.""",
["recap/clients/", "recap/settings.py", "recap/commands.py", "recap/cli.py", "recap/server/gateway.py"], [("parse and ls of each client", "recap/clients/*.py"), ("safe_urls, unsafe_url", "recap/settings.py"), ("_url_to_dict, parse_url", "recap/clients/__init__.py")],
"explicit-state exploration of the graph of URLs reachable from the roots, on the real code",
"""For each source in the bound, a breadth-first exploration to the fixpoint: states are URLs, transitions append a listed name; the reached graph must be the tree of the source, and each leaf has one column whose name tells which object it is.""")
