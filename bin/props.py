"""The claimed properties: what they say, which units decide them, what those units trust.

`bin/gen.py` writes properties.jsonl and MANIFEST.json from this table; `bin/check` runs it."""
PROPS = {}
def P(id, title, statement, over, quant, why, files, mech, verus=(), kani=(), harness=None, prop=None, quick_ms=12000, thorough_ms=240000, trusted=(), assumptions=(), bounded=(), level='proof', note='', state=(), observe=(), only=None):
    PROPS[id] = dict(title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, verus=list(verus), kani=list(kani),
        harness=dict(crate=harness, prop=prop or id, quick_ms=quick_ms, thorough_ms=thorough_ms) if harness else None,
        trusted=list(trusted), assumptions=list(assumptions), bounded=list(bounded), level=level, note=note, state=list(state), observe=list(observe), only=only)

CHRONO = "chrono's calendar arithmetic (with_* setters, weekday, add/sub of Duration) is an assumed contract over an abstract instant (day, h, m, s, nano); the replay harness checks the same functions against an independent civil calendar"
REPLAY = "the native replay harness is bounded exploration: it supplies failing inputs and stands in when a proof's anchors moved, and is never counted as proof"
NOWRAP = "machine integers keep their width: Verus proves absence of overflow where it proves the body"

P('C01', 'Role permissions decide access exactly as the role matrix says',
  "Whether a caller may do something follows from their roles alone: server admins may do everything; an organization owner may do everything in that organization and in its projects, an organization admin may manage its projects and do everything in them, and an organization member gains nothing by that role. A project owner may do everything in that project; a project admin may manage the project and its members, invite members, explore and manage reports, and view and manage the schema (not delete the project or the schema); a project member may explore and manage reports and view and manage the schema; a reader may only explore reports and view the schema. Only the caller's role in the very organization or project named counts, and a caller without any sufficient role is refused.",
  ['inputs', 'configurations'], 'every caller (any server role, any lists of organization and project roles), every permission of the three kinds, every organization and project id',
  'no test covers the permission tables or the context checks: the space is roles x permissions x membership lists, and one wrong cell is silent',
  ['src/common/src/rbac.rs', 'src/platform/src/context.rs'], [('role tables', 'src/common/src/rbac.rs'), ('check_permission, check_organization_permission, check_project_permission', 'src/platform/src/context.rs')],
  verus=['C01_rbac'], harness='h-platform', assumptions=['lazy_static initialises each table once, to the value of its initialiser', "derived PartialEq/Clone of the role and permission enums compare and copy structurally", REPLAY],
  note='Every cell of the three tables and the three context checks are proved for all callers and ids from the extracted source; nothing bounded.')

P('C02', 'An optional property keeps absent, null and value apart',
  "An update field that was not sent, one sent as null and one sent with a value stay three different things through every conversion, mapping and JSON round trip; converting or mapping touches only a present value.",
  ['inputs'], 'every value and every conversion function, all three states',
  'the tests parse three JSON literals; conversions, mapping and insertion are untested and generic',
  ['src/common/src/types.rs'], [('OptionalProperty', 'src/common/src/types.rs')], verus=['C02_optional'], harness='h-common',
  assumptions=['serde (de)serialisation of the wrapper is exercised by the replay harness only (bounded)', REPLAY], bounded=['OptionalProperty Serialize/Deserialize: JSON round trip over random values (replay harness)'],
  note='insert, is_none, into, try_into and map proved for all types and functions; the serde derive path is bounded.')

P('C03', 'Truncating an instant yields the start of its bucket',
  "Truncating an instant to hour, day, ISO week (Monday), month or year always succeeds and yields the first instant of the UTC bucket containing it, with all finer fields, sub-seconds included, zero; truncating again changes nothing.",
  ['inputs'], 'every representable instant (including sub-second parts, leap days, dates before 1970) and every unit',
  'the tests check one instant per unit', ['src/common/src/query.rs'], [('date_trunc', 'src/common/src/query.rs')], verus=['C03_date_trunc'], harness='h-common',
  assumptions=[CHRONO, REPLAY], note="date_trunc's body is proved against the bucket definition for all instants, over assumed contracts for chrono's setters.")

P('C04', 'A time chart has exactly one column per bucket',
  "The columns of a time chart are the consecutive bucket starts from the bucket holding the first instant to the bucket holding the last one, in order, none missing, none repeated, each rendered as its UTC timestamp to the second; when the last instant precedes the first there are none.",
  ['inputs'], 'every pair of instants and every unit, ranges of any length',
  'the tests list one range per unit', ['src/common/src/query.rs'], [('time_columns, relative_duration', 'src/common/src/query.rs')], verus=['C04_time_columns'], harness='h-common',
  assumptions=[CHRONO, 'chronoutil::DateRule yields start, start+d, start+2d... up to and including the end (assumed contract; replayed)', 'date_trunc by its contract, discharged in C03', REPLAY],
  note='time_columns proved to be exactly the iterates of its unit step from the truncated start to the truncated end.')

P('C05', 'Query time ranges and durations mean what they say',
  "A query range given as between, from or last-n-units resolves against the current instant to exactly that interval: between is itself, from runs to now, and last n runs from n calendar units before now to now. A duration of n units is n times the unit's fixed length, every unit has its own name, and only an each-n-units segment window has a window length.",
  ['inputs'], 'every instant, every n for which the arithmetic does not overflow, every unit', 'the resolution functions have no tests; a wrong sign or unit only shows for some units',
  ['src/common/src/query.rs', 'src/common/src/funnel.rs'], [('QueryTime::range, TimeIntervalUnit::duration/relative_duration, SegmentTime::try_window', 'src/common/src/query.rs'), ('TimeIntervalUnitSession', 'src/common/src/funnel.rs')],
  verus=['C05_ranges'], harness='h-common', assumptions=[CHRONO, 'chronoutil::RelativeDuration is a (months, duration) pair applied months first (assumed; replayed)', REPLAY], note='All bodies proved for every unit and n in the non-overflowing range.')

P('C06', 'Type and operator translations neither merge nor lose meaning',
  "Translating data types, comparison operations, aggregate functions and step orders between the analytics vocabulary and the engine's vocabulary preserves the meaning of every value that has a counterpart, in both directions; a value without a counterpart is rejected and never mapped to another one's meaning.",
  ['inputs'], 'every variant of every enumeration, both directions', 'the mappings have no tests; each is a table in which one wrong arm silently changes query results',
  ['src/common/src/types.rs', 'src/common/src/query.rs'], [('From/TryFrom impls between DType and Arrow types', 'src/common/src/types.rs'), ('operator and aggregate mappings', 'src/common/src/query.rs')],
  verus=['C06_types', 'C06_maps'], harness='h-common', assumptions=['the external enums (arrow, datafusion) are declared by the variants the code names', REPLAY], note='Every arm of each mapping is proved against its meaning; no bound.')

P('C07', 'Persisted scalar values come back as they were stored',
  "A literal value stored in a report, dashboard, custom event or segment reads back equal to what was stored: same kind, same unit, same scale, same value, and null stays null of the same kind.",
  ['inputs'], 'every scalar value of the supported kinds', 'no test round-trips scalar values; the mirror type has over twenty variants',
  ['src/common/src/scalar.rs'], [('ScalarValueRef', 'src/common/src/scalar.rs')], verus=['C07_scalar'], harness='h-common', assumptions=['serde derives on the mirror type are exercised by the replay harness only (bounded)', REPLAY], bounded=['serde_with remote derive: JSON round trip (replay harness)'],
  note='Both directions of the mirror conversion proved and composed into the round trip.')

P('C08', 'An error response has the status of its kind of failure',
  "Every failure of the management or ingestion API is answered with the status of its kind: something missing is 404, a duplicate is 409, bad input or invalid fields are 400, missing or invalid credentials or tokens are 401, insufficient permission is 403, an unimplemented feature is 501 and everything internal is 500. A wrapped failure is answered as the outer one, whatever it wraps.",
  ['inputs'], 'every error value of every crate, wrapped to any depth', 'no test maps an error to a response; there are over fifty variants',
  ['src/platform/src/error.rs', 'src/common/src/http.rs', 'src/ingester/src/error.rs'], [('into_api_error', 'src/platform/src/error.rs'), ('ApiError constructors', 'src/common/src/http.rs'), ('IntoResponse for IngesterError', 'src/ingester/src/error.rs')],
  verus=['C08_errors'], harness='h-platform', assumptions=["axum sends the status placed in the response (IntoResponse for ApiError: replayed)", 'http::StatusCode constants have their RFC numbers', 'message texts are not constrained', REPLAY],
  note='into_api_error (recursive over wrapped errors), all ApiError constructors and the ingestion mapping proved for every error value.')

# ---------------------------------------------------------------- metadata store
STORE = "the store is an assumed model of rocksdb's TransactionDB: a transaction reads the committed keys plus its own writes, a commit takes effect whole or not at all, transactions run one after another, a prefix scan yields every key with the prefix in order (the replay's store stub behaves so, with injected failures at every operation)"
CODEC = 'prost and bincode encodings are assumed injective (decode undoes encode); timestamps are stored in seconds; decimal rendering of ids and UTF-8 are injective'
GENPB = 'protobuf record types are regenerated from the .proto files by world/gen_pb.py in the shape prost gives them'
MOUT = 'concurrent writers and on-disk durability are outside the model'
META_A = [STORE, CODEC, GENPB, MOUT, REPLAY]
MF = 'src/metadata/src/'
BASEU = ['M01_keys', 'M02_index', 'M02_unique']
PROVU = ['M_reports', 'M_dashboards', 'M_teams', 'M_projects', 'M_accounts', 'M_organizations']
PROVF = [MF + x + '.rs' for x in ('reports', 'dashboards', 'teams', 'projects', 'accounts', 'organizations')]
MNOTE = 'Every function of the report, dashboard, team, project, account and organization providers is proved against an abstract store step for every store content and request; the remaining collections are bounded (replay).'
MB = ['events and custom events providers: random histories against a model collection, with injected store failures (replay harness); event and group properties likewise here, and proved under M10']
P('M01', 'A project or organization only ever touches its own metadata',
  "Creating, changing, deleting, reading or listing a record on behalf of one project or organization reads and writes only keys of that project or organization and that collection: nothing stored for any other project, organization or collection is read, changed or removed, whatever their ids.",
  ['inputs', 'histories'], 'every pair of ids (including ids that are prefixes of each other), every collection, every history of requests',
  'tests use one project; a key without its separator leaks only for ids such as 1 and 11', [MF + 'lib.rs', MF + 'index.rs'] + PROVF,
  [('key layout', MF + 'lib.rs'), ('every provider', MF + 'reports.rs')], verus=BASEU + PROVU, harness='h-meta', assumptions=META_A, bounded=MB, note='Key separation is proved as lemmas over the extracted key functions for all ids; ' + MNOTE)
P('M02', 'Names, emails and tokens that must be unique are unique and findable',
  "No two accounts share an email, no two organizations, no two teams of an organization, no two projects, no two events, custom events or properties of a project share a name: a create or rename that would clash is refused with already-exists, a free name is accepted, a name is free again once its holder was renamed or deleted, and looking a record up by its current name finds exactly that record.",
  ['inputs', 'histories'], 'every history of creates, renames and deletes, every name', 'tests create at most two records; stale index entries need a rename followed by a lookup or a re-use',
  [MF + 'index.rs', MF + 'teams.rs', MF + 'projects.rs', MF + 'accounts.rs', MF + 'organizations.rs'], [('unique indexes', MF + 'index.rs')], verus=BASEU + ['M_teams', 'M_projects', 'M_accounts', 'M_organizations'], harness='h-meta',
  assumptions=META_A + ['a project name never equals a project token: both share one index (recorded finding)'], bounded=MB, note='Index consistency is an invariant each provider function is proved to keep; ' + MNOTE)
P('M03', 'An id is issued once and never again',
  "Every record of a collection gets an id larger than every id issued there before, starting from 1, also after deletions and after failed requests; a failed creation consumes nothing visible.",
  ['histories', 'faults'], 'every history of creates and deletes with failures at any point', 'tests do not delete and re-create, nor fail half way',
  [MF + 'lib.rs'] + PROVF, [('next_seq, next_zero_seq', MF + 'lib.rs')], verus=BASEU + PROVU, harness='h-meta', assumptions=META_A, bounded=MB, note='next_seq is proved to return one more than the stored counter, and every provider to keep every stored id at most the counter; ' + MNOTE)
P('M04', 'A metadata request takes effect exactly as asked, or not at all',
  "An accepted create, update or delete changes exactly the record it names and exactly the fields it gives (an absent field keeps its value, a present one, null included, replaces it), stamps who and when, and is visible to every later get and list; a refused or failed one leaves every stored record as it was. A get returns the record of that id, not-found when there is none; a list returns every record of the collection once, in full, and nothing else.",
  ['histories', 'faults'], 'every history of requests, every subset of fields, a store failure at any operation', 'tests run one happy path per collection; dropped fields and half-written failures need specific field subsets and faults',
  PROVF, [('every provider', MF + 'teams.rs')], verus=BASEU + PROVU, harness='h-meta', assumptions=META_A, bounded=MB, note=MNOTE)
P('M05', 'A stored record reads back as it was written',
  "A record written to the metadata store reads back with every field it was given: ids, authors, names, descriptions, tags, roles, members, flags, layouts and queries, and its timestamps to the second; an absent field stays absent, and an empty list reads back as none.",
  ['inputs'], 'every record value of every collection', 'the round trip of each record type has no test for its optional and enumerated fields', PROVF,
  [('serialize_*/deserialize_*', MF + 'accounts.rs')], verus=PROVU, harness='h-meta', assumptions=META_A + ['the query of a report is opaque (bincode)', "an event's own property lists are not stored (recorded finding)"], bounded=MB, note='serialize/deserialize of the six record types proved to be inverse on every field; ' + MNOTE)
P('M06', "An organization's members and its members' accounts agree",
  "Whoever an organization lists as member with a role, that account lists the organization with the same role, and the reverse: after creating an organization, adding or removing a member or changing a member's role, in any order, and after any of these fail half way.",
  ['histories', 'faults'], 'every history of membership changes, a store failure at any operation', 'no test adds a member and reads the account, or fails between the two writes', [MF + 'organizations.rs', MF + 'accounts.rs'],
  [('create, add_member, remove_member, change_member_role', MF + 'organizations.rs')], verus=['M02_index', 'M02_unique', 'M_accounts', 'M_organizations'], harness='h-meta', assumptions=META_A + ['deleting an organization or an account leaves the other side (recorded finding); the closures of any, all, find and retain over member lists are assumed contracts'],
  note='The agreement is an invariant over both collections which each of the four functions is proved to keep for every store content.')

# ---------------------------------------------------------------- management API
HANDLERS = ['accounts', 'organizations', 'projects', 'dashboards', 'reports', 'bookmarks', 'groups', 'events', 'custom_events', 'properties', 'settings', 'backups', 'event_records', 'group_records', 'event_segmentation', 'funnel']
BU = ['B_accounts', 'B_organizations', 'B_projects', 'B_dashboards', 'B_reports', 'B_bookmarks', 'B_groups', 'B_events', 'B_custom_events', 'B_properties', 'B_settings', 'B_backups', 'B_event_records', 'B_group_records', 'B_segmentation', 'B_funnel']
PF = ['src/platform/src/' + x + '.rs' for x in HANDLERS]
HA = ['the metadata providers and query providers are called through assumed contracts whose precondition is the permission: what a provider does is M01-M11', 'async is dropped: every handler runs to its end on one executor thread and awaits nothing but the calls under contract', 'axum extracts exactly the path, body and caller it is given (Context extraction from the token: B02)']
P('B01', 'No API request is carried out without the permission it needs',
  "Each management API request does nothing, reads nothing and answers forbidden unless the caller holds the permission that kind of request needs, in the very project or organization it names; a caller who holds it is not refused. Managing accounts needs account management, settings and backups server management, schema and report objects the matching view, manage or delete permission of their project, queries and record searches report exploration; lists of organizations and projects show only those the caller may view; a bookmark is found only by its owner.",
  ['inputs', 'configurations'], 'every request, every caller (any roles in any organizations and projects), every id', 'no test calls a handler; a missing or wrong check in one of seventy handlers shows only for one role', PF,
  [('every handler', PF[0])], verus=BU + ['C01_rbac'], harness='h-platform', assumptions=HA + [REPLAY], only=r"forbidden\(r\)|: *(may|may_org|server_ok)\(|r is Err ==>|shown|: *(account_id|req\.organization_id) == caller|B_(organizations|projects):list:|C01_rbac:",
  note='Every handler of sixteen handler files is proved: the permission is the precondition of every provider call, and forbidden the answer without it.')
P('B03', 'An API request reaches the store exactly as it was asked',
  "A request the API accepts is carried out with exactly the fields the client gave: every given field reaches the store as given, an absent one is left alone, the caller is recorded as author or editor, the project and organization are those of the request, no field takes another's place, and the answer shows the stored record field by field; secrets are never shown.",
  ['inputs'], 'every request value, every subset of fields, every stored record', 'no test maps a request; a swapped or forgotten field of one of thirty request types is silent', PF,
  [('every handler and conversion', PF[0])], verus=BU, harness='h-platform', assumptions=HA + ['validate_request, fix_request, the query vocabulary conversions and password hashing are assumed contracts', REPLAY],
  only=r"^(?!.*(==> forbidden\(r\),|: *(may|may_org|server_ok)\())", note='Every request and record conversion of sixteen handler files is proved field by field; the query vocabulary (segmentation and funnel requests) is opaque.')

# ---------------------------------------------------------------- dictionaries, sessions, identities
P('M07', 'Dictionary keys and values stay in one-to-one correspondence',
  "A dictionary gives each distinct value one key, counted from 1, and never a second one or another value's: asking for a value's key again gives the same key, a key gives back exactly the value it was issued for, an unknown key or value is not-found, and neither another value, table, dictionary or project nor a failed request changes any of this.",
  ['inputs', 'histories', 'faults'], 'every value, key, table, dictionary and project, every history of requests, a store failure at any operation', 'the test asks for four values once; a clash of keys needs names or ids that are prefixes of each other', [MF + 'dictionaries.rs'],
  [('Dictionaries, SingleDictionaryProvider', MF + 'dictionaries.rs')], verus=['M02_index', 'M_dictionaries'], harness='h-meta', assumptions=META_A + ['table and dictionary names hold no slash (every caller passes a constant or a column name)', 'create_key stores the pair the caller chose: one-to-one only when neither is taken yet (proved under that condition)'],
  note='The correspondence is an invariant each function is proved to keep; separation of dictionaries is a lemma over the extracted key functions.')
P('M08', 'One session per user, ended exactly when decided',
  "A user's activity starts a session if none is open and otherwise extends the open one to the new time, and says which of the two happened; ending sessions asks once about each open session of the project, with its user and last activity, and closes exactly those decided; clearing a project closes all of its sessions; no other user's or project's session is touched, and a failure leaves every session as it was.",
  ['inputs', 'histories', 'faults'], 'every user, project, time, decision and history, a store failure at any operation', 'no test covers sessions; a wrong prefix or key closes other sessions only for ids that are prefixes of each other', [MF + 'sessions.rs'],
  [('Sessions', MF + 'sessions.rs')], verus=['M02_index', 'M_sessions'], harness='h-meta', assumptions=META_A, note='All four functions and both loops proved, for every decision function.')
P('M09', 'An identity keeps its id, and its properties are those last set',
  "The first time an anonymous or identified key is seen in a group of a project it gets a new id that nobody in that group has; from then on that key has that id. Identifying an anonymous key gives the identified one the same id, unless it already has one. An identity's stored properties are those last given for each property, the others unchanged. A project has at most five groups, each name one id of its own, first come from 0.",
  ['inputs', 'histories', 'faults'], 'every key, value, group, project and history, a store failure at any operation', 'tests create one identity; wrong merging needs an anonymous key, then an identified one, then an update of some of its properties', [MF + 'groups.rs'],
  [('Groups', MF + 'groups.rs')], verus=['M02_index', 'M_groups'], harness='h-meta', assumptions=META_A + ['list values and absent scalar values make the store panic and are excluded by a precondition (recorded finding)', 'two users identified from the same anonymous key share its id, as written'],
  note='All seven functions, the property merge loops and both codecs proved; separation of keys is a lemma over the formats.')
P('M10', "Every property gets a column of its own and keeps it",
  "The first time a property of a kind (event, or one of the groups) is named in a project it gets an id nobody of that kind has and, unless it is a system property, a column nobody else in the project has, among event and group properties alike; the event store is asked for that column with the property's type and nullability, in the events table and, for a group's property, in that group's table too. Naming it again gives the same property and changes nothing. Whatever is updated other than its type, kind or system mark, a property keeps its column; deleting a property changes no other. Looking a property up by id, name or column, with whatever the caches hold, answers with what is stored. Events and groups count their records one by one.",
  ['inputs', 'histories', 'faults'], 'every request, kind, type, project, cache content and history, a store failure at any operation', 'tests create one or two properties; a shared column needs properties of two kinds and the same type, an update or a deletion between them', [MF + 'properties.rs', MF + 'index.rs'],
  [('Properties', MF + 'properties.rs')], verus=['M02_index', 'M_properties'], harness='h-meta', assumptions=META_A + ['the LRU caches are maps that may forget anything when something is put in (specs/M_properties.rs)', 'the event store is a log of the columns it was asked for', 'the column of a system property is an uninterpreted function of its name (inflector case conversion); replayed', 'list-typed properties are excluded by a precondition (the store panics on them)', 'an update that asks for another type, kind or system mark moves the column (recorded): the claim is about all others', REPLAY],
  bounded=['Properties::get_by_column_name_global, Events/Groups next_record_sequence: random histories (replay harness)'],
  note='create, get_or_create, get_by_*, list, update, delete, cache and both codecs proved; that no two columns coincide is a lemma over the counters and the column format.')

P('M11', "A custom event is made of events that exist and never leads back to itself",
  "A custom event is accepted, created or given other events, only with at least one event, when every plain event it names is known, every custom event it leads to, directly or through others, exists and no chain of them is longer than the nesting limit or comes back to the event itself. So at any time, whatever was created, changed or deleted before, following the custom events a custom event is made of never returns to it. A refused or failed request changes nothing, and one that changes exactly the record it names. One that names known events, meets no custom event twice and stays within the limit is not refused for its events.",
  ['inputs', 'histories', 'faults'], 'every list of events, every history of creations, updates and deletions, every nesting limit, a store failure at any operation', 'tests try one loop and one depth; a loop closed by an update, or a branch that resets the depth, needs several cooperating records', [MF + 'custom_events.rs', MF + 'index.rs'],
  [('CustomEvents::validate_events, create, update', MF + 'custom_events.rs')], verus=['M02_index', 'M_custom_events'], harness='h-meta', assumptions=META_A + ["the stored form of a custom event is uninterpreted and keeps its id, name and event references (what it loses of its filters' decimals is a recorded finding); replayed", 'the events provider answers which names and ids it knows', 'nothing is written between the validation of a request and its own transaction', REPLAY],
  bounded=['that an acceptable list is not refused: random histories (replay harness)'],
  note='validate_events is proved by induction on the remaining depth: what it accepts lies in a set closed under "is made of" that leaves out the ids it was given; lemmas turn that into the absence of cycles.')

QP = 'src/query/src/physical_plan/'
ARROW = "Arrow arrays, builders and column evaluation are assumed contracts (specs/arrow.rs): an array is a sequence of optional values, evaluating a column or filter on a batch gives one entry per row, of the type the code downcasts to; the replay harness runs the real ones"
P('Q01', 'A segment holds exactly the users whose own events meet its condition',
  "A segment condition read over rows that stand together by user gives one entry per user of the rows, each once and in order: the user when that user's own rows meet the condition and nothing otherwise. Only rows in the condition's time range whose filter is true count. A count condition compares how many such rows the user has; an aggregate condition takes the sum, least, greatest, mean or number of the user's non-missing values over such rows and compares it, and does not hold for a user without any; `and` holds when both sides do, `or` when either does. How the rows are split into batches, what came before or after a user's rows and other users' rows make no difference.",
  ['inputs', 'configurations'], 'every sequence of rows and its split into batches, every filter outcome, time range, comparison operator, aggregate function, column type and bound', 'tests run one small table per operator; a lost user, or a row of the next user counted for the last, shows only when a user\'s first or last row is filtered out',
  [QP + 'expressions/segmentation/count.rs', QP + 'expressions/segmentation/aggregate.rs', QP + 'expressions/segmentation/comparison.rs', QP + 'expressions/segmentation/boolean_op.rs', QP + 'expressions/segmentation/time_range.rs', QP + 'expressions/mod.rs', QP + 'segment.rs'],
  [('Count, Aggregate', QP + 'expressions/segmentation/count.rs'), ('And, Or', QP + 'expressions/segmentation/comparison.rs'), ('check_bounds', QP + 'expressions/segmentation/time_range.rs')],
  verus=['Q01_segments'], harness='h-query', assumptions=[ARROW, 'the arithmetic of the accumulator types (num_traits) is uninterpreted: the aggregate is proved to be the fold of its own operations over the values', 'the macro-generated aggregates are proved for (i64, i128), (decimal, i128), (i32, i64) and (u64, i128); the remaining invocations of the same macro are replayed', 'a Mutex gives exclusive access: conditions are proved for one caller at a time', 'user and timestamp columns hold no nulls', REPLAY],
  bounded=['SegmentExec (the stream that feeds batches to the condition): random rows and batches (replay harness)'],
  note='evaluate/finalize are proved to follow a row automaton for any prior state; lemmas turn that automaton into the per-user reading and show that batching is irrelevant.')

AG = QP + 'expressions/aggregate/'
P('Q02', 'An aggregate metric folds exactly the rows it is asked about, group by group',
  "A metric read over a project's rows answers with one line per combination of grouping values that has a row which counts, each once, and with exactly one line when nothing is grouped. A row counts when its filter is true (or there is none), its user is among the users asked for (or all are), and, where the metric reads a column, the value is not missing. The line's figure is the count of the group's rows, or the sum, least, greatest, mean or number of their values; for per-user metrics, the outer function over one figure per user: that user's own rows in the group, counted (once each when only users are counted) or aggregated. Other groups' rows, how rows are split into batches, and earlier use of a metric it was made from make no difference.",
  ['inputs', 'configurations'], 'every sequence of rows in which users stand together and its split into batches, every filter outcome, grouping, user restriction, aggregate function, column and result type', 'tests run one table per metric, without missing values and with every user asked for; wrong figures need a group whose first row is filtered out, or a user without a value',
  [AG + 'mod.rs', AG + 'count.rs', AG + 'partitioned/aggregate.rs', AG + 'partitioned/count.rs', QP + 'expressions/segmentation/aggregate.rs', QP + 'expressions/mod.rs'],
  [('Aggregate, Groups', AG + 'mod.rs'), ('Count', AG + 'count.rs'), ('partitioned Aggregate', AG + 'partitioned/aggregate.rs'), ('PartitionedCount', AG + 'partitioned/count.rs')],
  verus=['Q02_count', 'Q02_agg'], harness='h-query', assumptions=[ARROW, "Arrow's row encoding (rows equal exactly when the grouping values are) and std's HashMap iteration (each key once) are assumed contracts (specs/groups.rs)", 'arithmetic of accumulators and unit conversion is uninterpreted: figures are proved to be the fold of those operations over exactly the right values; overflow is not excluded', 'the macro-generated aggregates are proved for 7 (column, accumulator) pairs and 6 per-user triples of whole and decimal types; floats and the remaining invocations of the same macros are replayed', 'user columns hold no nulls; the same user restriction is passed with every batch', REPLAY],
  bounded=['float accumulators and remaining macro invocations: random rows, groupings and batches (replay harness)'],
  note='evaluate keeps, for any prior rows, the correspondence between buckets and the rows that belong to them; finalize turns it into one line per group; per-user metrics are proved equal to the nested fold over runs of one user.')

SP = 'src/storage/src/'
DISK = "the file system is an assumed model (specs/disk.rs): a disk is a map from paths to contents, each call changes it in at most one observable step (an append may stop anywhere), a refused call changes nothing, and every state the disk passes through is recorded in a ghost trace; nothing else writes the directory"
LOGC = "assumed contracts: bincode decodes exactly what it encoded and nothing else (log frames), serialize_md / deserialize_md are inverse, write_level0 writes a part holding the rows of the memtable or fails (arrow2 and parquet are stand-ins in the replay), crc32 is a function of the bytes, file use counts (Fs) never keep a log open"
ONE = "one caller at a time: Mutex and RwLock are dropped from the verified text, and the background workers (gc, compactor, metrics) do not run in between"
P('S01', 'What the store acknowledged survives a stop at any moment',
  "An event table that is opened again after the process stopped, between any two changes to its files or part-way through an append to its log or the writing of a part, opens, and holds exactly the columns and the rows of the operations it acknowledged: every inserted row once, each value in its column, missing where the row gave none or the column was added later; and of the operation that was under way either nothing or all of it. Flushing, on request or because the log grew past its limit, moves rows from log to part without losing or repeating one, and the recovered table goes on accepting operations. (One caller at a time; a crash inside the in-place rewriting of the metadata file, and compaction, are not covered.)",
  ['inputs', 'histories', 'crash_points'], 'every history of inserts, column additions and flushes, every point at which the process stops, every table layout', 'tests reopen a store that was closed in order; a lost row needs a stop at one particular call of one operation',
  [SP + 'db.rs', SP + 'memtable.rs', SP + 'lib.rs', SP + 'table.rs'], [('log_op, recover_op, try_recover_table, flush_log_, OptiDBImpl', SP + 'db.rs'), ('Memtable', SP + 'memtable.rs')],
  verus=['S01_log'], harness='h-storage', assumptions=[DISK, LOGC, ONE, 'a new table is created where no file of that table exists yet', REPLAY],
  only=r"^(?!.*(all_placed|placed\(|suits|Err_0 is \(?(Internal|AlreadyExists)|name@ != field_name@|same_text))",
  bounded=['write_level0, recover (the loop over table directories) and the codecs: random histories stopped at random file-changing calls (replay harness)'],
  note='Every operation is proved to pass only through disk states from which try_recover_table, proved against the same predicate, rebuilds the old rows or the new ones; half_written metadata is the one state excluded.')
P('S05', 'A table takes only values that fit; what it refuses leaves no trace',
  "An insert is accepted only when every value it gives names a column of the table and has exactly that column's type; the row then holds each value in its own column whatever order they came in, and nothing in the columns it did not mention. A column whose name is taken, or a table whose name is taken, is refused as already existing. A new column has exactly the name, type and nullability asked for, comes last, leaves the other columns as they are, and is empty in the rows before it. What is refused changes neither the table's columns, nor its rows, nor its files.",
  ['inputs', 'histories'], 'every sequence of inserts and column or table additions, accepted or refused, every type and order of values', 'tests insert only fitting rows; a value in the wrong column, or half of a refused row, needs an odd order or type',
  [SP + 'db.rs', SP + 'memtable.rs', SP + 'lib.rs'], [('OptiDBImpl::insert, add_field, create_table', SP + 'db.rs')],
  verus=['S01_log'], harness='h-storage', assumptions=[DISK, LOGC, ONE, 'key columns come first in an insert, in order, with values (what every caller does)', REPLAY],
  only=r"all_placed|placed\(|suits|Err_0 is \(?(Internal|AlreadyExists)|name@ != field_name@|same_text|is_nullable|:create_table:|:insert:",
  note='insert, add_field and create_table carry the rule as postconditions over the table and the disk.')

DFX = "DataFusion's expression builders mean what their names say, row by row, with SQL's three-valued and / or (specs/Q05_filters.rs); comparisons, likeness and type coercion themselves are DataFusion's, uninterpreted here and real in the replay"
LOOK = 'looking up events, properties, custom events and dictionary codes is a function of project and name (proved for the metadata store by M02, M03); a custom event is stored with at least one event, and filters with existing groups; references to custom properties, which the code does not implement, are outside'
P('Q05', 'A filter, an event or a time range becomes exactly the condition it describes',
  "A filter turned into a row condition holds for a row exactly when the property's value there meets it: equal, less, like or matching any of the listed values; different from, unlike or not matching every one of them; missing, present, true or false. Text in a dictionary column is compared by its code in this project's dictionary of that column and table, whatever the code's width; text unknown there, an unknown property or a missing value is an error, not a condition. Several filters hold when each does. An event reference holds for the rows of that event, the whole id compared; a custom event for the rows of any event it lists that also meet the filters listed with it, however deeply custom events refer to each other. A time range holds from its first to its last instant, both included, in the unit of the column. Instants given as numbers are compared as instants.",
  ['inputs', 'configurations'], 'every filter, operator, number of values, property type and dictionary width, every event reference, time range and column unit, every row', 'tests compare a few plans by text with one value per filter; a wrong condition needs two values under a negation, a nested custom event or an unusual column unit',
  [QP + 'expr.rs', QP + 'logical_plan/expr.rs', QP + 'lib.rs', 'src/common/src/query.rs'], [('property_expression, event_expression, time_expression', QP + 'expr.rs'), ('multi_and, multi_or, lit_timestamp', QP + 'logical_plan/expr.rs'), ('fix_filter', QP + 'lib.rs')],
  verus=['Q05_filters'], harness='h-query', assumptions=[DFX, LOOK, 'month arithmetic of relative times is the contract proved in C05', REPLAY],
  only=r"^(?!.*(_rows|fix_segmentation|fix_records|fix_groups|fix_funnel|build_filter_logical_plan|build_search_plan|fix_request|fix_search_request|:build:))",
  bounded=['type coercion and evaluation of the conditions on rows: random metadata, filters and rows (replay harness)'],
  note='Conditions are proved equal, for every row, to the three-valued meaning of the request.')
P('Q03', "A funnel counts every attempt at exactly the steps it took",
  "A user's attempt at a funnel adds, when it ends, one to the total of every step it took and nothing to the others, and to such a step's times the time since the step before and since the first; all in the bucket its first step falls in (hour, day or week) and in no other. An attempt that took no step counts nowhere. So along a funnel totals never grow, and each step's drop-off is the previous total less its own. An exclusion bears on an attempt under way exactly when it holds for the row and is for every step or for a span that holds the awaited step. Where every attempt counts and no constants are asked for, a user's rows are read in order, apart from other users' and other groups': an excluded row discards the attempt, a row later than the window after the first step ends it, a row that meets the awaited step takes it, the last step or the user's last row ends it. How the rows are split into batches makes no difference.",
  ['inputs', 'configurations'], 'every attempt, state of the counters, filter and unit; every sequence of rows and its split into batches', 'tests trace a few rows of one or two users and compare no figures', [QP + 'expressions/aggregate/partitioned/funnel/funnel.rs', QP + 'expressions/aggregate/partitioned/funnel/mod.rs'],
  [('Group::new, check_exclude, push_result', QP + 'expressions/aggregate/partitioned/funnel/funnel.rs'), ('Funnel::evaluate', QP + 'expressions/aggregate/partitioned/funnel/funnel.rs')], verus=['Q03_funnel'], harness='h-query', assumptions=['std HashMap is a map; chrono instants and date_trunc are functions of their millisecond values (C03 proves date_trunc)', 'totals below 2^61 and times within 2^60 ms: no overflow', 'evaluating a step or exclusion gives one truth value per row', REPLAY],
  bounded=['Funnel::evaluate, finalize, try_new: random requests, rows, groups and batches against an independent reading (replay harness); unique counting, constants, several spans of unordered steps and month or year buckets are outside (recorded)'],
  note='The counters, the exclusion test and the initial state are proved for every state; the row loop that drives them is replayed.')

P('Q04', 'Every query reads the rows it is asked about and no others',
  "The rows an event segmentation counts for one of its events, and a funnel, an event search, a group search or a list of property values starts from, are those of the asking project whose time lies in the range asked for, which belong to the event asked for (any of them where several are), and meet the filters given for that event and those given for the whole query. No filters, an empty list of filters and, for a search, no events at all restrict nothing. Preparing a request changes neither its events nor its time and leaves every filter in its place. Values of a property are listed from such rows only, and then only those that meet the filter.",
  ['inputs', 'configurations'], 'every request of the five kinds, every project, every row', 'tests run one project with one filter per query; foreign or forgotten rows need a second project, or several filters at once',
  [QP + 'event_segmentation.rs', QP + 'funnel.rs', QP + 'event_records.rs', QP + 'group_records.rs', QP + 'properties.rs', QP + 'lib.rs'], [('build_filter_logical_plan, fix_request', QP + 'event_segmentation.rs'), ('build, fix_request', QP + 'funnel.rs'), ('build_search_plan, fix_search_request', QP + 'event_records.rs'), ('build_search_plan, fix_search_request', QP + 'group_records.rs'), ('LogicalPlanBuilder::build', QP + 'properties.rs')],
  verus=['Q05_filters'], harness='h-query', assumptions=[DFX, LOOK, 'of the plan builders the text up to the row condition is verified; the extraction drops what follows (projections, sorting, limits, decoding, the funnel itself) and, for searches, the collection of requested columns before it; the replay evaluates every row condition of the whole plan', 'decoding dictionary columns keeps the rows', REPLAY],
  only=r"_rows|fix_segmentation|fix_records|fix_groups|fix_funnel|build_filter_logical_plan|build_search_plan|fix_request|fix_search_request|:build:|set_filters|set_step_filters|set_exclude_filters|:lemma_met|:lemma_every|:lemma_some|:lemma_both",
  bounded=['plans after the row condition: random requests, their conditions evaluated on random rows (replay harness)'],
  note='The row condition of each plan is proved equivalent, for every row, to the conjunction the request describes.')

IN = 'src/ingester/src/'
INGA = ["what the metadata answers (names to properties, events, groups, users; text to dictionary numbers; tokens to projects; whether a session is new) is an uninterpreted function or relation of what it is asked, constant within a request (specs/ingest.rs, specs/ingestexec.rs; the store itself is M01-M09)", "a request's maps are lists of their entries in the order they are visited; rust_decimal, chrono, maxminddb and uaparser are assumed contracts (stand-ins in the replay, with fixed tables)", 'one request at a time: Arc, Mutex and dyn are dropped from the verified text (`&self` read as `&mut self` where a store changes)', REPLAY]
P('I01', 'An accepted event becomes one event row holding everything that was sent',
  "An accepted track request adds exactly one row to the events table, and before it one session-begin row exactly when the user's session is new; nothing else is added there. The row carries the project, the user, the time to the millisecond, the event, a record number of its own, the id in each group the request names and null for the others, and each property sent in its own column with the value given: text as such or as its dictionary number, numbers at the scale of the column, booleans, instants to the millisecond; to them come country and city of the address, what the user agent tells, and the stored values of the groups named, where no sent property has the same column. The session-begin row carries the same and the address and campaign. A value its column cannot hold is refused: the request then adds no event row.",
  ['inputs', 'configurations'], 'every request, every kind and number of properties and groups, every column type, every answer of metadata, geo and user agent tables', 'tests send one request; a lost or misplaced value needs an odd type, a missing group or a new session',
  [IN + 'lib.rs', IN + 'destinations/local/track.rs', IN + 'sources/http/mod.rs', IN + 'transformers/geo/mod.rs', IN + 'transformers/geo/track.rs', IN + 'transformers/user_agent/mod.rs', IN + 'transformers/user_agent/track.rs'],
  [('property_to_value, scaled', IN + 'lib.rs'), ('Local::send', IN + 'destinations/local/track.rs'), ('App::track', IN + 'sources/http/mod.rs'), ('resolve_properties, Geo::process', IN + 'transformers/geo/mod.rs'), ('resolve_properties, UserAgent::process', IN + 'transformers/user_agent/mod.rs')],
  verus=['I_values', 'I_send', 'I_enrich', 'I_http'], harness='h-ingest', assumptions=INGA + ['no property column is named like a built-in one; record numbers do not wrap'],
  only=r'^(I_values|I_send|I_enrich):|^I_http:(?!identify)(?!.*user_id == req.user_id)',
  bounded=['decoding of the request body (serde) and the columns of the real tables: random requests through the real routes (replay harness)'],
  note="The row is proved as the list of column bindings given to the store: for every column, the first binding is the one the request describes.")
P('I02', 'Events land in the project, user and groups they name',
  "A track request is filed in the project its token belongs to, under an unknown token nothing is filed. Its user is the one its user id names; with an anonymous id alone, the user behind that id; with both, the user id's user, which takes over the anonymous one if it is new. Whoever sends the same id to the same project gets the same user, and another id another one, unless they were joined. A request with neither is refused and leaves no row. Each group the request names is the project's group of that name, its member the one of that id. The event is the project's event of that name, and properties are the project's properties of those names, with the values sent, once each.",
  ['inputs', 'histories'], 'every sequence of requests over several projects, with any mix of user ids, anonymous ids, groups and event names', 'tests send one request to one project; a mixed-up user needs two ids in one request or two projects',
  [IN + 'executor.rs', IN + 'sources/http/mod.rs'], [('Executor<Track>::execute, resolve_property, resolve_properties', IN + 'executor.rs')],
  verus=['I_exec', 'I_http'], harness='h-ingest', assumptions=INGA + ['that ids and users correspond one to one is M08/M09 for the store; here the executor is proved to ask for exactly the right one'],
  only=r'^I_exec:|^I_http:(?!identify)(?=.*(user_id == req.user_id|seen\(\)))',
  note='What every destination is sent is recorded in a ghost log; every entry is proved to be about what the request names.')
P('I03', 'An identify request writes exactly the profile it names, with the values given',
  "An accepted identify request adds exactly one row, to the table of the group it names, in the project its token belongs to: the member's id, a version newer than any before, the time to the millisecond, and the member's values: those given now, each in its own column and as the column stores it (text by its number in that group's own dictionary), and the ones given earlier under other names unchanged. Its id stands for the text given. Events, other groups and other members get no row. A value its column cannot hold is refused and adds no row.",
  ['inputs', 'histories'], 'every sequence of identify requests over several groups, members and projects, every kind and number of values', 'tests identify one user once; a mixed-up profile needs a second group or a second request',
  [IN + 'executor.rs', IN + 'destinations/local/identify.rs', IN + 'sources/http/mod.rs', IN + 'lib.rs'], [('Executor<Identify>::execute', IN + 'executor.rs'), ('Local::send', IN + 'destinations/local/identify.rs'), ('App::identify', IN + 'sources/http/mod.rs')],
  verus=['I_profile', 'I_profsend', 'I_http'], harness='h-ingest', assumptions=INGA + ['merging new values into a stored profile is the contract of create_or_update, replayed here'],
  only=r'^(I_profile|I_profsend):|^I_http:identify',
  note="The row is proved equal, binding by binding, to the profile; the values written are proved to be the request's.")
