#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long texts stay reviewable)."""
import json
DL='typedload/dataloader.py'; DD='typedload/datadumper.py'; TC='typedload/typechecks.py'; EX='typedload/exceptions.py'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=()):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
CFG='every combination of the loader options (basiccast, failonextra, dictequivalence, uniondebugconflict, mangle_key, basictypes, strconstructed)'
p('C01','A successful load returns a value of the requested type',
 'Whenever load(value, T) returns, the result conforms to T all the way down: a List/Set/FrozenSet/Dict/Tuple of exactly that container class whose elements conform to the element types, a class instance whose loaded fields conform to their declared types, an allowed literal, a member of the enum, an instance of the basic type, a conforming member of the union. Conformance to a basic type is isinstance(); Any accepts everything. It holds for every supported type, nested to any depth, and for every input value.',
 ['inputs','configurations'],'All input values, all types built from the supported constructors at any nesting depth, '+CFG+'.',
 'The tests load a few dozen hand-picked (value, type) pairs; the guarantee is over the unbounded product of values and nested types, including the fast paths that bypass load().',
 [DL],[('fast path of containers, first-load path of Dict keys/values',DL+': _iterload, _dictload, _tupleload'),('object construction from type hints',DL+': _objloader, _dataclassload, _attrload, _namedtupleload, _typeddictload'),('type test in the leaf handlers',DL+': _basicload, _literalload, _enumload, _noneload, _patternload, _datetimeload')],
 ['the value returned by typedload.load / Loader.load'])
p('C02','Loading fails only with TypedloadException',
 'For every input value and every supported type, load() either returns or raises an instance of TypedloadException: malformed, unhashable, oversized, wrongly typed or wrongly shaped data never surfaces as AssertionError, TypeError, KeyError, OverflowError or any other exception that is not a TypedloadException. (Classes and handlers supplied by the user are assumed to follow the documented rules: constructors raise only TypeError or ValueError, handlers only typedload exceptions.)',
 ['inputs','configurations'],'All input values (JSON-like data and arbitrary Python objects with well behaved special methods), all supported types, '+CFG+'.',
 'Tests check the exception class for a handful of bad inputs per handler; the property is about every operation in every handler that can raise, for every value.',
 [DL,EX],[('exception translation in every handler',DL+': all _*load functions'),('assertion that only TypedloadException passes',DL+': Loader.load')],
 ['the exception that leaves typedload.load / Loader.load'])
p('C03','A load error says where the bad value is',
 'The TypedloadException raised by load(value, T) has a trace whose first item is (value, T) and which leads, step by step, to the offending value: an INDEX i item holds a container whose i-th element is the next value, a FIELD f item holds the dict-like value whose entry f is the next value, KEY/VALUE items carry the key or value of the dictionary being loaded, and exception.value/type_ are the offending value and type for a value that cannot be converted. Errors nested in dictionaries, lists, tuples, objects and unions at any depth keep their whole trace and str() shows the corresponding path.',
 ['inputs','configurations'],'All failing loads: any position of the offending element, any nesting of containers, objects and unions.',
 'The tests look at the path of a few fixed documents; the position bookkeeping (iterator counters, trace insertion at every level) must be right for every index, length and nesting.',
 [DL,EX],[('trace insertion per level',DL+': Loader.load, _iterload, _tupleload, _dictload, _objloader, _unionload'),('path rendering',EX+': TypedloadException._path, _subexceptions')],
 ['TypedloadException.trace, .value, .type_, .exceptions and str()'])
p('C04','A union loads as one of its alternatives, and only then',
 'load(value, Union[...]) returns the value itself when its exact type is a basic type listed in the union; otherwise it returns what loading the value as one of the alternatives returns, it succeeds whenever at least one alternative accepts the value, and it fails with a TypedloadValueError carrying exactly one sub-exception per alternative when none does. Literal-tagged objects are matched to the alternative with that tag, alternatives that are basic types are tried after all the others, and with uniondebugconflict the load succeeds exactly when a single alternative accepts the value.',
 ['inputs','configurations'],'All unions (any number and order of alternatives, tagged or not, nested), all values that can be read more than once, uniondebugconflict on and off.',
 'Tests use small unions of 2-3 alternatives; the claim quantifies over any number, order and kind of alternatives and over values accepted by zero, one or several of them.',
 [DL,TC],[('exact basic type first, basic types last, discriminator first',DL+': _unionload'),('discriminator literals',TC+': discriminatorliterals')],
 ['return value or exception of load() for a Union type'],[('_unionload_discriminatorcache','per-union tag field and tag -> alternative map',DL+': Loader.__init__')])
p('C05','Objects are built from exactly their declared fields',
 'Loading dict-like data into a NamedTuple, dataclass, attrs class or TypedDict passes to the constructor exactly the fields that are present in the data and accepted by the constructor, each loaded as its declared type (or as the parameter type of its attrs converter), nothing more and nothing less, so absent fields take their defaults. It fails with a TypedloadValueError (TypedloadTypeError for attrs classes) when a field that has neither a default nor a default factory (or a required TypedDict key) is missing, and with a TypedloadException when the data is not dict-like.',
 ['inputs','configurations'],'All classes of the four kinds (any set of fields, defaults, factories, init=False, ClassVar, total=False, NotRequired, converters) and all data.',
 'Tests cover individual classes; the rule about which fields are passed, defaulted, required or ignored must hold for every combination of field declarations and data keys.',
 [DL],[('field sets and required fields',DL+': _dataclassload, _attrload, _namedtupleload, _typeddictload'),('parameter collection and constructor call',DL+': _objloader')],
 ['the constructed object; exception of load()'],[('_objfieldscache','per-dataclass fields, required fields, hints and name map',DL+': Loader.__init__')])
p('C06','failonextra rejects data that would be dropped',
 'With failonextra=True a load that succeeds has consumed all of the data: an object whose data has a key that is no field of it, a python field name that is hidden by name mangling, or a fixed-size tuple given more elements than it has, is rejected with a TypedloadValueError, at any depth. With failonextra=False such extra data is ignored and changes neither the outcome nor the result; data without extras loads identically under both settings.',
 ['inputs','configurations'],'All object types and fixed-size tuple types, all data with and without extra keys or elements, both settings.',
 'Tests toggle failonextra on a handful of documents; the equivalence between settings is a statement over every document and type.',
 [DL],[('extra key test',DL+': _objloader, _mangle_names'),('length test',DL+': _tupleload')],
 ['outcome of load() with failonextra on/off'])
p('C07','Name mangling maps names consistently in both directions',
 'For dataclass and attrs fields having metadata under mangle_key, load reads the field from the mangled key only (the python name is not accepted in its place unless it is itself the mangled name of a field) and dump writes it under that same mangled key; fields without that metadata keep their python name. Renamings that swap or chain names among the fields of a class are applied simultaneously, and different mangle_key settings are independent.',
 ['inputs','configurations'],'All dataclasses/attrs classes with any injective assignment of mangled names to fields (including swaps and chains), all data, all mangle_key values.',
 'Tests use one or two renamed fields; permutations, chains and collisions of names, and their interplay with extra and missing keys, are unbounded.',
 [DL,DD],[('mangling on load',DL+': _mangle_names, _dataclassload, _attrload'),('mangling on dump',DD+': _dataclassdump, _attrdump')],
 ['keys of the dumped dictionary; fields of the loaded object'])
p('C08','basiccast=False never converts a basic value',
 'A value whose exact type is the requested basic type is returned unchanged under every setting. With basiccast=False, at any depth of any container or object, data that ends up where a basic type is expected is either already an instance of that type and passed through unchanged, or rejected with a TypedloadException; with basiccast=True the result is what the basic type itself constructs from the value, and a failed construction is a TypedloadException.',
 ['inputs','configurations'],'All values, all basic types (including additions to the basictypes set), any nesting, both settings.',
 'Tests try a few casts at a few depths; every container has its own fast path that decides about casting on its own.',
 [DL],[('type test and cast',DL+': _basicload'),('fast paths',DL+': _iterload, _dictload, _tupleload, _unionload')],
 ['values found in the result of load()'])
p('C09','A dump contains only plain data',
 'dump(x) returns data made only of basic types, lists and dictionaries, down to every key and element, for every value made of the supported types that conforms to its own annotations; a value that no handler supports, at any depth, is rejected with TypedloadValueError. Tuples, sets and frozensets become lists, NamedTuples/dataclasses/attrs instances and mappings become dictionaries, enums become the dump of their value, and elements keep their number and iteration order.',
 ['inputs','configurations'],'All values of supported types at any nesting depth, all dumper options.',
 'Tests dump a few values; the claim is about every nesting of every supported kind, including the annotated fast paths and the handler cache.',
 [DD],[('recursion through dump()',DD+': Dumper.dump and all _*dump handlers'),('fast path for annotated iterables of basic types',DD+': _iteratordump')],
 ['the value returned by dump()'])
p('C10','Dumping and loading back gives an equal value',
 'For every supported, unambiguous type T and every value x conforming to T (with dump output hashable where it is a dict key or set element), load(dump(x), T) succeeds and equals x, with the same mangle_key on both sides, hidedefault on or off, isodates on (or off for values without timezone). This covers None and basic values, lists, tuples, sets, dicts, enums, literals, NamedTuple, dataclass, attrs and TypedDict objects with defaults and mangled names, paths, IP addresses, UUIDs, dates, times, durations and str patterns.',
 ['inputs','configurations'],'All supported types without ambiguous unions, all conforming values, hidedefault/isodates/mangle_key combinations.',
 'A round trip is a relation between two recursive procedures over all values; the tests exercise a few dozen fixed values.',
 [DL,DD],[('matching pairs of load and dump handlers',DL+' and '+DD)],
 ['load(dump(x), T) == x'])
p('C11','hidedefault omits exactly the fields equal to their default',
 'With hidedefault=True the dump of a NamedTuple, dataclass or attrs instance omits a field if and only if it has a default (or default factory) and its value equals that default; with hidedefault=False every field is present (attrs fields with repr=False are never dumped, class variables are no fields). Fields that are present carry the dump of their value, independently of what was dumped before with the same dumper.',
 ['inputs','histories','configurations'],'All classes, all instances, any sequence of earlier dumps, both settings.',
 'Tests dump a few instances once; per-class caching and every combination of default, factory and equal/unequal value must be right.',
 [DD],[('default comparison',DD+': _namedtupledump, _dataclassdump, _attrdump')],
 ['keys and values of the dumped dictionary'],[('_dataclasscache','per-dataclass fields, defaults and hints',DD+': Dumper.__init__')])
p('C12','Loading and dumping never modify their inputs',
 'load() never modifies the input value or the type it loads into (including class annotations), dump() never modifies the object it dumps, whether they succeed or fail. Every list and dictionary in a dump is newly created: it shares no mutable container with the dumped object, so changing the dump never changes the object.',
 ['inputs','configurations'],'All values and types, successful and failing calls.',
 'No test compares inputs before and after, and a frame property cannot be established by samples: any statement in any handler could write through a reference.',
 [DL,DD],[('copies in name mangling, TypedDict hints, list dumps',DL+': _mangle_names, _typeddictload; '+DD+': _iteratordump')],
 ['deep comparison of inputs before/after; identity of containers in the dump'])
p('C13','Results do not depend on what was loaded or dumped before',
 'With a loader or dumper whose options and handlers are not modified after first use, the outcome of load(value, T) and dump(x) — returned value, or exception class — is the same as that of a freshly created loader or dumper with the same options, whatever was loaded or dumped before, successfully or not (forward references aside: names already known stay known). The internal caches only ever hold what would be computed again.',
 ['histories','inputs','configurations'],'All sequences of earlier calls, followed by any call.',
 'Most tests use a fresh object and one call; the caches (handler, object fields, union tags, dumper handlers and defaults) are only observable through histories.',
 [DL,DD],[('cache fill and lookup',DL+': Loader.load, _dictload, _iterload, _tupleload, _objloader, _unionload, _dataclassload; '+DD+': Dumper.dump, _dataclassdump')],
 ['outcome of a call after a history vs. on a fresh object'],[('_indexcache','type -> handler',DL),('_handlerscache','type of value -> dump handler',DD)])
p('C14','The first matching handler is the one used, at every depth',
 'index() returns the position of the first handler whose condition is true for the type (loader) or value (dumper), and raises ValueError if there is none; conditions that raise are propagated, or count as false when raiseconditionerrors is off. load() and dump() of a type or value, at top level or nested in any container, object or union, call exactly that handler with the loader/dumper, the value and the type; the only shortcut is that a value which is already an instance of a basic type may be passed through untouched inside containers. An unhandled type makes load() raise TypedloadTypeError at top level and a TypedloadException when nested.',
 ['inputs','configurations'],'All handler lists (custom handlers inserted at any position, conditions that raise), all types and values, any nesting.',
 'Tests insert one handler at one place; nested dispatch is re-implemented in every container handler, each of which must agree with index().',
 [DL,DD],[('dispatch',DL+': Loader.index, Loader.load and the inlined lookups in the container handlers; '+DD+': Dumper.index, Dumper.dump')],
 ['which handler is called, with which arguments'])
p('C15','Forward references resolve to the type of that name',
 'A forward reference loads exactly as the type known under that name: the one given in frefs, else the first type of that name met by the loader, including types met only nested inside other types; so self-recursive types load at any depth in any container. An unknown name raises TypedloadValueError, and with frefs=None every forward reference raises TypedloadException; explicitly given frefs entries are never overwritten.',
 ['inputs','histories','configurations'],'All recursive and mutually recursive types, data of any depth, any frefs setting.',
 'Tests load one recursive type at top level; recursion through containers and nested types at any depth is unbounded.',
 [DL],[('name registration',DL+': Loader.index, Loader.load'),('resolution',DL+': _forwardrefload')],
 ['outcome of load() for types with forward references; Loader.frefs'],[('frefs','name -> type',DL)])
p('C16','Containers load element by element, in order, losing nothing',
 'load(value, List[T] or Tuple[T, ...]) has exactly one element per element of the iterable, in the same order, each equal to what loading that element alone as T gives; sets and dictionaries contain exactly the loaded elements or loaded key/value pairs; Tuple[T1..Tn] has exactly n elements, the i-th loaded as Ti, and too short data is rejected. The load fails if and only if the value is not a suitable container (a dict is never accepted as a list, tuple or set) or some element fails to load.',
 ['inputs','configurations'],'All iterables of any length (also one-shot iterators for the variable-length containers), all element types, all mappings.',
 'Tests use containers of up to a few elements; length, order and element-wise agreement quantify over all lengths and positions, including the fast paths for basic types.',
 [DL],[('iterables',DL+': _iterload'),('fixed tuples',DL+': _tupleload'),('dictionaries',DL+': _dictload')],
 ['elements of the container returned by load()'])
p('C17','Literal, Enum and None admit exactly their values',
 'load(value, Literal[...]) succeeds if and only if the value equals one of the listed values and returns it unchanged; load(value, NoneType) succeeds only for None; load(value, E) for an Enum returns the member whose value equals the given value, or else a member whose value equals the value loaded as one of the types annotated in the Enum, and fails with TypedloadValueError in every other case. load(value, Any) returns the very same object, and a NewType loads exactly as its supertype.',
 ['inputs'],'All values, all Literal and Enum types.',
 'The tests sample a few values inside and outside; "exactly" is a statement over all values.',
 [DL],[('closed sets of values',DL+': _literalload, _enumload, _noneload, _anyload, _newtypeload')],
 ['return value or exception of load()'])
p('C18','Type predicates recognise exactly their kind of type',
 'Each is_* function in typechecks is true exactly for the type expressions its documentation names, for every parametrisation, returns a bool and never raises on any type expression; is_optional is true exactly for two-member unions that include None. The kinds that select a load handler are mutually exclusive on supported types (NoneType, which is also a basic type, aside), so that every supported type is routed to the handler of its own kind; uniontypes, literalvalues and notrequiredtype return exactly the parameters of the type.',
 ['inputs'],'All type expressions: every typing/builtin generic spelling with any parameters, classes of every kind, unions in both notations.',
 'Tests check a fixed list of positive and negative examples per predicate; exclusiveness and parametrisation-independence quantify over all types.',
 [TC,DL],[('predicates',TC+': is_* functions'),('handler order',DL+': Loader.__init__')],
 ['return value of typechecks.is_*; Loader.index'])
p('C19','Exceptions carry their details and can always be printed',
 'Every TypedloadException keeps the description, trace, value, type_ and sub-exceptions it is given; TypedloadValueError, TypedloadTypeError and TypedloadAttributeError are also ValueError, TypeError and AttributeError. Every item of .exceptions of an exception raised by load() is itself a TypedloadException, and str() of any such exception, for any trace and any nesting of sub-exceptions, returns a text that contains the description and the path of the exception and of every sub-exception.',
 ['inputs'],'All traces (any length, any annotations) and all trees of nested exceptions.',
 'Rendering is recursive over unbounded trees of exceptions and traces; tests print a few.',
 [EX,DL],[('construction and rendering',EX+': TypedloadException.__init__, _path, _subexceptions, _firstline, __str__'),('sub-exceptions',DL+': _unionload, _enumload')],
 ['attributes and str() of the exceptions'])
p('C20','Dates, durations, patterns and string-built values convert faithfully',
 'A date, time or datetime loads from a string as its fromisoformat() and from a sequence as the constructor applied to the items; a timedelta loads from a number of seconds; Path, IP address, UUID and other strconstructed types load as the constructor applied to the value; Pattern loads as the compiled pattern, and Pattern[str]/Pattern[bytes] accept only values of exactly that type. Dumping is the inverse: isoformat() text with isodates, otherwise the list of components that rebuilds the value (a time zone is refused rather than dropped), total seconds, str(), and the original pattern.',
 ['inputs','configurations'],'All values of these types, all strings/sequences/numbers as input, isodates on and off.',
 'Tests convert a few values; the arithmetic and component order must be right for every value and every invalid input must be an error of the right class.',
 [DL,DD],[('load',DL+': _datetimeload, _timedeltaload, _patternload, _strconstructload'),('dump',DD+': _datetimedump, _timedeltadump, _patterndump, Dumper.__init__')],
 ['result of load() and dump()'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s); assert len(x['title'])<=80, x['id']
print(len(P))
