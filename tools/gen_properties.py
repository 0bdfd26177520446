"""Writes properties.jsonl (kept as code so the long strings stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=list(files),
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

U='marsh/schema/core/unmarshal.py'; B='marsh/schema/core/base.py'; NS='marsh/schema/namespace.py'; UT='marsh/utils.py'

prop('C01','Concurrent conversions give the results they give alone',
 "When several threads call the conversion API at the same time (marshal, unmarshal, unmarshal_args, cast, cast_args; building, documenting, stringifying and selecting in unmarshal schemas; the element, path and override-parsing functions), each with its own arguments and with no registration in progress, every call returns the value or raises the error (type, message and path) that it gives when it is the only call in the process. No interleaving makes a call hang, fail, or see a value, default, error path or intermediate result of another call.",
 ['schedules','inputs'],"Every interleaving (at the granularity of source lines) of 2-4 caller threads running short programs of conversion calls over every kind of supported type, with cold, warm and partly built caches.",
 "All 1185 tests run in one thread; shared caches, lazily built schemas and per-thread build state are only ever exercised by one caller.",
 [U,B,UT,'marsh/_functional.py','marsh/errors.py','marsh/element.py','marsh/parse.py','marsh/path.py','marsh/schema/template/structured.py','marsh/schema/types/'],
 [('per-thread record of builds in progress',U),('lru caches of matches and built schemas',UT),('lazily built wrapped schema',B)],
 state=[('schema build cache','schemas already built, shared by all threads',U),('builds in progress','types whose schema is being built, per thread',U)],
 observe=['marsh.marshal','marsh.unmarshal','marsh.unmarshal_args','marsh.cast','marsh.cast_args','marsh.schema.UnmarshalSchema(...).doc/select/str','marsh.element.*','marsh.parse.*','marsh.path.*'])

prop('C02','Results do not depend on earlier calls or on cache state',
 "The outcome of a conversion, and of building, documenting, stringifying or selecting in an unmarshal schema, depends only on its arguments and on the registered schemas and namespaces. It is the outcome a fresh process gives (a bare-name forward reference to a class that neither its surroundings nor its module define has no defined outcome), after any sequence of other calls in the process (successful or failing, including calls with types and default values that compare equal without being the same), and after any clearing, disabling or enabling of marsh's caches.",
 ['histories','inputs'],"Every history of conversion, documentation and cache-control calls, in one thread or moving between threads, followed by any conversion.",
 "Each test starts with whatever the previous tests left behind and checks one call; none compares a call with the same call in a fresh process, and none varies the order.",
 [U,B,UT,'marsh/schema/types/','marsh/schema/template/','marsh/config.py'],
 [('build cache and its key',U),('match cache',U),('record of builds in progress',U),('cache pool controls',UT)],
 observe=['marsh.unmarshal','marsh.marshal','marsh.cast','marsh.schema.UnmarshalSchema(...).doc','marsh.schema.caches'])

prop('C03','An aborted call leaves no trace',
 "If a conversion call (marshal, unmarshal, unmarshal_args, cast, building or documenting a schema) is aborted at any point, by an exception from user code that marsh calls or by an asynchronous exception such as KeyboardInterrupt delivered outside clean-up code (except and finally blocks, __exit__), the exception comes out of the call unless it is an ordinary Exception, and marsh behaves afterwards as though that call had never been made. Every later call, in the same or another thread, gives the result of a fresh process, and repeating the aborted call without the fault succeeds.",
 ['crash_points','histories','fault_sequences'],"Every point at which the interpreter can deliver an asynchronous exception (function entry, return of a built-in call, backward jump) or at which marsh calls user code (constructors, default factories, annotations, properties, __str__, __eq__, __hash__, iteration), for every kind of type, and every later call.",
 "No test aborts a call part-way and then looks at a later call; failing calls are only checked for raising.",
 [U,B,UT,'marsh/schema/types/protocol.py',NS],
 [('build state dropped when a build ends',U),('lru cache stores completed results only',UT)],
 observe=['marsh.unmarshal','marsh.marshal','marsh.schema.UnmarshalSchema(...)'])

prop('C04','Schema registration is immediate, ordered and atomic',
 "Once registering an unmarshal, marshal or config schema has returned, every call started afterwards in any thread chooses among the registered schemas including it, also for types and file names already used before: higher priority first, among equal priorities the most recently registered first, and before or after the schemas it names as lower or higher priority. A call running during a registration converts each part of its value as before or as after it, never otherwise, and never fails because of it; concurrent registrations are all kept. Registering the same schema again raises ValueError and changes nothing unless replace is given, in which case it is moved to its new place and appears exactly once.",
 ['schedules','histories'],"Every interleaving of registrations (with any priorities, relations and replace flags) with conversions in other threads, and every sequential history of registrations and conversions.",
 "Tests register schemas at import time, before any use, in one thread; nothing registers a schema for a type already used or while another thread converts.",
 [U,B,UT,'marsh/schema/_functional.py','marsh/config.py'],
 [('priority order',UT),('match and build caches cleared on registration',U)],
 state=[('registry order','schemas in the order they are tried',UT)],
 observe=['marsh.schema.register','marsh.schema.UnmarshalSchema.registry','marsh.schema.MarshalSchema.registry','marsh.config.ConfigSchema.registry','marsh.unmarshal','marsh.marshal','marsh.config.load'])

prop('C05','Namespaces behave as one atomic registry',
 "Creating and deleting namespaces, registering a class under a name (directly or by decorator, with or without replace), and looking up, listing, building, unmarshaling and marshaling through names behave, in every history, like operations on one map from namespace and name to class. When calls overlap, each creation, deletion and registration takes effect at one moment between its call and its return, and a lookup sees every entry as it is at some moment during the lookup. Of several concurrent creations or registrations of one name without replace exactly one succeeds, a replaced or deleted entry is never used again by later calls, and the name marshaled for an instance unmarshals to the same class.",
 ['schedules','histories'],"Every history and interleaving of namespace operations from up to 3 threads over a few namespaces, names and classes, including types used before their namespace exists and decorators applied later than created.",
 "Tests build one namespace in one thread, register everything first and then use it; replacement, deletion, late creation and concurrency are not exercised.",
 [NS,'marsh/schema/types/namespace.py',U],
 [('cache clearing on registration',NS),('component table',NS)],
 state=[('namespaces','all namespaces by name',NS),('components','classes of a namespace by name',NS)],
 observe=['marsh.namespaces','Namespace.register','Namespace.build','Namespace[name]','marsh.unmarshal','marsh.marshal'])

prop('C06','Inputs are never modified',
 "No function of the conversion, element, parsing (of strings), path or config-writing API modifies an object passed to it: elements, values being marshaled, overrides, default sequences and mappings are deeply equal before, during and after the call, whether it returns, raises or is interrupted at any point. Threads that share the same input object therefore each get the result they would get alone.",
 ['schedules','crash_points','inputs'],"Every API call over mutable nested inputs, every interruption point, and every interleaving of threads sharing the inputs.",
 "Tests compare results, not inputs, and rarely pass the same object twice; none looks at an input after a failed or interrupted call.",
 ['marsh/element.py','marsh/schema/template/structured.py','marsh/schema/template/mapping.py','marsh/schema/template/sequence.py','marsh/schema/types/namespace.py','marsh/_functional.py',NS,'marsh/config.py','marsh/parse.py'],
 [('copies made before changing an element','marsh/element.py'),('element copied before arguments are popped','marsh/schema/template/structured.py')],
 observe=['marsh.element.*','marsh.unmarshal','marsh.unmarshal_args','marsh.marshal','marsh.namespaces[...].build','marsh.config.write','marsh.config.drop_meta'])

prop('C07','Separate results share no mutable state',
 "Each time unmarshaling falls back on a default factory the factory is called exactly once for that field and its product appears in that result only; factories are not called for fields that are given or when building or documenting a schema. For types whose declared defaults are immutable, whatever a caller does to a returned value (mutating any container or object in it), no value returned by another call, earlier, later or concurrent, with separate arguments changes, and marsh's later results do not change.",
 ['histories','schedules','inputs'],"Every history of calls interleaved with mutation of their results, over all container and structured types, in one or several threads.",
 "Tests use each result once and throw it away; sharing between results shows only when one is changed and another looked at afterwards.",
 [U,'marsh/schema/types/dataclass.py','marsh/schema/template/','marsh/schema/types/typeddict.py','marsh/schema/types/defaultdict.py','marsh/_functional.py'],
 [('default factory called per use',U)],
 observe=['marsh.unmarshal','marsh.unmarshal_args','marsh.cast','marsh.marshal'])

prop('C08','Recursive and forward references find their own class',
 "In a type that refers to itself or to an enclosing or same-module class directly or by name (a text annotation or a typing forward reference), at any nesting (optional, list, mapping, union, mutual recursion), and in the annotations of a class that is inherited in another module, of functions, partial objects and callable instances, every reference unmarshals to the class meant where it was written: the class itself or a class being unmarshaled around it, or the class of that name in its module (fields of TypedDicts inherited across modules excepted, as Python loses where these were written). This holds whatever other classes of the same name exist, whichever of them were used before or are being used by other threads, and after failed builds or cache clearing.",
 ['schedules','histories','inputs'],"Every history and interleaving of conversions of several recursive types, sharing or not sharing names, local and module-level, with data of any depth.",
 "Tests build each recursive type once, alone; a clash needs a second class of the same name, an order, or another thread.",
 [U,B,'marsh/schema/types/dataclass.py',NS],
 [('recursive reference schema',U),('forward reference resolution',U),('record of types seen',UT)],
 observe=['marsh.unmarshal','marsh.schema.UnmarshalSchema(...).doc'])

prop('C09','A config write is complete and faithful, or fails loudly',
 "When writing a config to a .json, .yaml or .yml path returns normally, loading that path gives back an equal config, whatever the file held before and however the operating system split, shortened or interrupted the individual writes; when any write, flush, open or close fails, the call raises. A config that cannot be encoded raises without touching an existing file, and text already on stdout or in other files is never affected.",
 ['fault_sequences','inputs'],"Every config made of the JSON-like types (nested mappings with string keys, sequences, strings with any characters, numbers, booleans, null), every previous file content, and every sequence of short writes, interrupted calls, full disk, I/O errors on open, write and close.",
 "Tests write a few small configs to a healthy disk; nothing fails or short-writes, and nothing overwrites a longer file or meets an unencodable value.",
 ['marsh/config.py'],[('encode then write','marsh/config.py'),('file closed on every path','marsh/config.py')],
 observe=['marsh.config.write','marsh.config.ConfigSchema(path).dump','marsh.config.load'])

prop('C10','A config load returns whole files, merged in order, or fails',
 "Loading configs returns exactly the merge, in the given order, of the complete content of every named file (later names win, sequences concatenate if asked, the metadata key dropped unless kept, interpolations resolved unless disabled), or raises. Short or interrupted reads, read errors, a file vanishing or being atomically replaced while loading never give a partial, stale-and-new mixed or silently missing file content; a second load sees the files as they are then.",
 ['fault_sequences','schedules','inputs'],"Every set of config files and load options, every sequence of short reads, EINTR, open/read errors, and every moment of concurrent atomic replacement or removal.",
 "Tests read small files from a healthy disk with nobody else writing.",
 ['marsh/config.py','marsh/element.py'],[('read whole file then decode','marsh/config.py'),('merge','marsh/element.py')],
 observe=['marsh.config.load','marsh.config.ConfigSchema(path).load'])

prop('C11','Config discovery is exact and independent of listing order',
 "Naming a config without extension finds the one file in that directory (the working directory when no directory is given) with that name and a supported extension, raises ConfigFileError when there is none or more than one, and the tree view shows every supported config file below a directory exactly once with its parents. Both are the same for every order in which the operating system lists directories, and a listed entry that vanishes before it is examined is treated as absent rather than making an unrelated lookup fail.",
 ['schedules','fault_sequences','inputs'],"Every directory tree of files and directories with supported and unsupported extensions, every listing order, and every moment at which an entry appears or vanishes.",
 "Tests use one listing order, the file system's, on small trees; the tree view is not tested at all.",
 ['marsh/config.py'],[('candidates filtered and counted','marsh/config.py'),('recursive tree','marsh/config.py')],
 observe=['marsh.config.find_config','marsh.config.load','marsh.config.tree'])

prop('C12','An entry point calls its function once, validated, or not at all',
 "Running an entry point applies the command-line overrides in order (set, combine, config file, remove, at any depth), resolves interpolations, drops metadata and unmarshals the result, then calls the function exactly once with exactly those arguments and returns its result; arguments passed in code are used where the configuration gives none. If any step fails, including reading a config file or writing --config-out under any I/O fault, the function is not called and the program raises or exits with a non-zero status. With --config-out, the file written gives the same arguments when it is used as the only config of another run.",
 ['inputs','fault_sequences'],"Every sequence of overrides over every kind of entry point (function arguments or config class), and every I/O fault in reading and writing the config files.",
 "The entry point has no tests at all.",
 ['marsh/entry_point.py','marsh/parse.py','marsh/element.py','marsh/config.py','marsh/_functional.py','marsh/schema/argument.py'],
 [('load, then write, then validate, then call','marsh/entry_point.py')],
 observe=['marsh.main','sys.argv','stdout','exit status'])

prop('C13','The entry point switches directory and always switches back',
 "With --output the function runs with the working directory set to the requested path, formatted with the current UTC time whatever the local time zone and however the clock jumps, created (with its parents) if missing; configs are read relative to the caller's directory (or --config-dir) and --config-out is written relative to the new one. When the call ends, by return, exception, exit or interrupt of the function and with any I/O fault but a failure of the final change back, the working directory is the one before the call, and if the directory cannot be created or entered the function is not called. Without --output the working directory is never changed.",
 ['crash_points','fault_sequences','inputs'],"Every point at which the call can end, every clock value and time zone, every directory fault, absolute and relative paths.",
 "The entry point has no tests at all, and no test can set the clock, the time zone or the point of failure.",
 ['marsh/entry_point.py'],[('context manager that changes and restores the directory','marsh/entry_point.py')],
 observe=['os.getcwd during and after the call','directories created'])

prop('C14','A cached function behaves like the function itself',
 "A function wrapped with marsh.utils.cache or a cache pool returns and raises exactly what the bare function would for the same arguments, with unhashable arguments and under concurrent calls, and a call on an object never runs with another object's self. A call started after cache_clear returned never gets a value of an invocation of the function begun before the clear, while the cache is disabled every call reaches the function, hits do not call it, no more than maxsize values are kept, and typed caches keep arguments of different types apart; a cache with a binding keeps no object alive. A value cache returns for a key exactly what was last stored for that key, and a SafeDict behaves like a dict also with unhashable keys.",
 ['schedules','histories','inputs'],"Every interleaving and history of calls, clears, disables and enables on caches of every binding, with hashable, unhashable, equal-but-different and hash-colliding keys.",
 "Tests cover one thread and a handful of keys; stale results need a clear in the middle of a call, mixed-up objects need two threads.",
 [UT],[('generation of the cache',UT),('fallback for unhashable arguments',UT)],
 observe=['marsh.utils.cache','marsh.utils.CachePool','marsh.utils.ValueCache','marsh.utils.SafeDict'])

prop('C15','Every iteration of a shared iterable is complete',
 "However many iterations over one marsh.utils.IterableFromIterator are under way, in one thread or several, each of them yields all items of the wrapped iterator, in order, each once, and the wrapped iterator is advanced exactly once per item and no further than the iterations ask for. Abandoning an iteration part-way does not affect the others.",
 ['schedules','histories'],"Every interleaving of partial and complete iterations and truth tests, within a thread and across threads.",
 "Tests run one iteration to its end before starting the next.",
 [UT],[('shared list of items already produced',UT)],
 observe=['iter(marsh.utils.IterableFromIterator(...))','bool(...)'])

prop('C16','Results are reproducible from run to run',
 "For inputs that contain no sets and no objects whose text form shows an address, results (including the order of mapping keys, sequence items and documented fields), error messages, help texts, encoded configs and the priority order of schemas are the same in every process, whatever the hash seed, the addresses of objects, the order in which directories are listed and the time at which it runs.",
 ['configurations','inputs'],"Every hash seed, directory listing order and clock value, over programs of conversions, merges, overrides, config dumps, help texts and failing calls.",
 "The test run fixes PYTHONHASHSEED to 0 and compares mappings without regard to order.",
 ['marsh/element.py','marsh/schema/types/typeddict.py',NS,UT,'marsh/doc/','marsh/config.py'],
 [('ordered containers','marsh/element.py'),('sorted keys','marsh/schema/types/typeddict.py')],
 observe=['all results and messages, compared between processes'])

prop('C17','Absolute dates do not depend on the clock or time zone',
 "Unmarshaling a complete date, time or date-time given in ISO form, as a mapping or as a sequence gives the same value whatever the current time and the local time zone are, and a numeric timestamp gives that instant in UTC. A relative date text is evaluated against the current time at the moment of the call, not at an earlier one.",
 ['configurations','inputs'],"Every complete date in the supported range, every clock value (leap days, year ends, jumps between calls) and every local time zone.",
 "Tests run at one time in one zone (TZ=UTC); neither can be varied.",
 ['marsh/schema/types/datetime.py'],[('timestamps converted with an explicit UTC zone','marsh/schema/types/datetime.py')],
 observe=['marsh.unmarshal(datetime/date/time, ...)'])

prop('C18','A failure is reported, with its cause and where it happened',
 "When one part of a call fails, the call fails and says where; no constructor, annotation, default factory or schema of the user that the type names for a part of the element is left out, however the type is written (as text too), so none can fail unnoticed. If a constructor, default factory, annotation or schema of the user, called while unmarshaling (unmarshal, cast, unmarshal_args, cast_args), raises, outside of unions other than an Optional given a value, the call raises that very exception or a marsh error whose chain of causes contains it; a marsh error raised by a constructor, annotation or schema of the user comes out itself, its own path at the end; interrupts and exits (not Exceptions) come out as they are, and nothing that encloses the failed part is constructed; a schema or value of the user failing while it is marshaled fails the call likewise. If a part of the element does not fit its type, is missing or is unknown, or the type of a field cannot be unmarshaled, a MarshError is raised, and if element.select, remove or override or a schema's select cannot follow a path, a PathError. The path of every such marsh error, split into its fields, is the one from the root to the failing part (for a PathError as far as the path could be followed), whatever characters the keys contain and whatever other calls, failing or not, come before it or run at the same time.",
 ['fault_sequences','inputs','schedules'],"Every type built of structured types, sequences, mappings, tuples, literals, annotations, namespaces, custom schemas, optional and recursive types; every element of it; every single point of failure in user code or in the element, with every kind of exception; every history and interleaving of such calls.",
 "Tests check that a few flat invalid inputs raise; none makes user code fail at a chosen depth, looks at where the error says it happened, or repeats a failing call.",
 ['marsh/errors.py','marsh/path.py','marsh/element.py','marsh/schema/template/structured.py','marsh/schema/template/sequence.py','marsh/schema/template/mapping.py','marsh/schema/types/'],
 [('path prepended on the way out','marsh/errors.py'),('errors of user code wrapped with their cause','marsh/schema/template/')],
 observe=['exception and path of marsh.unmarshal, cast, unmarshal_args, cast_args, marshal, marsh.element.select/remove/override, UnmarshalSchema.select','calls of user code'])

prop('C19','User code may use marsh while marsh is calling it',
 "Constructors, annotations, default factories, enum lookups, unmarshal, marshal and doc methods of custom schemas, properties and containers may, while marsh calls them in the middle of a conversion, make any further marsh calls (conversions, documentation, schemas, of the same type or of others), clear its caches, or start threads that make such calls and wait for them. Every call, the outer one and those made within it, gives the value or the error (message and path included) that it gives on its own, and all of them finish. Code that marsh calls while it builds a schema (match and __init__ of schemas, metaclass operators of types) may wait for threads that use marsh.",
 ['schedules','histories','inputs'],"Every conversion, every point at which user code runs in it, every nesting of further calls at these points, by the same thread or others, every interleaving with other threads.",
 "User code of the tests never calls back into marsh and never waits for a thread that does.",
 [UT,'marsh/schema/core/unmarshal.py','marsh/schema/core/base.py','marsh/schema/template/','marsh/errors.py','marsh/schema/namespace.py'],
 [('no lock held while user code runs',UT),('state of a conversion kept in local variables only','marsh/schema/template/')],
 observe=['marsh.unmarshal, cast, unmarshal_args, cast_args, marshal, UnmarshalSchema(...).unmarshal/doc/str from within user code'])

prop('C20','Shared orders, singletons and pools act atomically',
 "Adding a value to a marsh.utils.PriorityOrder (with a priority, relations, with or without replace, directly or as a decorator), deleting by index or slice, reloading, slicing and reading it behave, in every history, like operations on one list in which higher priority comes first, the most recently added first among equal priorities, and each value before those it names as lower and after those it names as higher priority, present already or added later (where this leaves one order). When calls overlap, each change takes effect at one moment between its call and its return, and an iteration yields the order as it was at one moment between its creation and its first item. A change that fails (a value already present without replace, one value named as both lower and higher, a missing index, a value whose hash, comparison or text raises) changes nothing. A class of marsh.utils.SingletonMeta is constructed once, however many threads ask for it, nobody gets an instance still under construction, and when its constructor raises, the caller gets that exception and the next call constructs it anew. A marsh.utils.WeakTypeCache yields the classes added to it that are alive, each once, the last added first, and keeps none alive. A marsh.utils.CachePool gives the cache last added under a name, and what is done to the pool is done to every cache added before.",
 ['schedules','histories','faults'],"Every history and interleaving of changes and reads, every priority, relation and position, every point at which a value or constructor can fail.",
 "The tests order a handful of values in one thread and construct no singleton from two.",
 [UT],[('list replaced by a changed copy under a lock',UT),('construction under a lock',UT)],
 observe=['marsh.utils.PriorityOrder','marsh.utils.SingletonMeta','marsh.utils.WeakTypeCache','marsh.utils.CachePool'])

PURE="The tests sample a handful of inputs; the property is over all of them."
prop('C30','Marshaling and unmarshaling are inverse on supported values',
 "For every supported type and every value of it, unmarshaling the marshaled value gives an equal value.",
 ['inputs'],"Every supported type and value.",PURE,['marsh/schema/types/'],[('paired schemas','marsh/schema/types/')])
prop('C31','Override strings parse to what was written',
 "Every value printed in the override syntax parses back to an equal value, and every malformed string raises ParseError and nothing else.",
 ['inputs'],"Every string.",PURE,['marsh/parse.py'],[('recursive descent parser','marsh/parse.py')])
prop('C32','Path escaping round-trips',
 "Joining any fields into a path and splitting it again gives the same fields.",
 ['inputs'],"Every list of field names.",PURE,['marsh/path.py'],[('escaping','marsh/path.py')])
prop('C33','Element operations obey their algebra',
 "Select after override returns the value set, merge is associative with right priority, remove undoes an added key, standardize is idempotent.",
 ['inputs'],"Every element and path.",PURE,['marsh/element.py'],[('recursive functions','marsh/element.py')])
prop('C35','Primitive conversions never lose information',
 "Converting between primitive types either preserves the value exactly or raises.",
 ['inputs'],"Every primitive value and target type.",PURE,[UT,'marsh/schema/types/primitive.py'],[('cast functions',UT)])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps(p) + '\n')
