#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=hook)))

p('C01', 'Loading fails only with the library\'s own, informative errors',
  'For every JSON value, every target type and every registered deserializer or validator, jsons.load either returns or raises a JsonsError: an error of the library passes through unchanged, and any other exception surfaces as a DeserializationError whose source and target are the offending value and type and whose cause is the original exception. Text that is not JSON surfaces from loads as a DecodeError carrying the text and the target type, and a non-bytes argument to loadb as a DeserializationError. A value whose embedded meta information is malformed or names an unknown class is rejected the same way, and None is rejected for every target type that does not admit None.',
  ['inputs', 'configurations'], 'all JSON values, target types, option sets, and all deserializers/validators, including ones that raise arbitrary exceptions',
  'Tests try a few malformed values per deserializer; whether some other value, type or user callable lets a foreign exception escape is a statement over all of them.',
  ['jsons/_load_impl.py', 'jsons/exceptions.py', 'jsons/_common_impl.py'],
  [('load', 'jsons/_load_impl.py'), ('_do_load', 'jsons/_load_impl.py'), ('loads', 'jsons/_load_impl.py'), ('loadb', 'jsons/_load_impl.py'), ('get_cls_and_meta', 'jsons/_common_impl.py'), ('get_cls_from_str', 'jsons/_common_impl.py')],
  observe=['exception class, source, target, __cause__ of jsons.load/loads/loadb'])

p('C02', 'Dumping fails only with SerializationError',
  'For every object, every class argument and every registered serializer, jsons.dump either returns what the serializer returned or raises a SerializationError whose cause is the original exception, whatever the serializer raises. No other exception type escapes and no failure of the top-level serializer is swallowed.',
  ['inputs', 'configurations'], 'all objects, cls arguments, option sets, and all serializers including ones that raise arbitrary exceptions',
  'The tests exercise a couple of raising serializers; containment must hold for every exception any serializer or property getter may raise.',
  ['jsons/_dump_impl.py', 'jsons/exceptions.py'],
  [('dump', 'jsons/_dump_impl.py'), ('_do_dump', 'jsons/_dump_impl.py')],
  observe=['exception class and __cause__ of jsons.dump'])

p('C03', 'Loading and dumping never modify the caller\'s data',
  'jsons.load leaves the JSON value it was given (at every depth) and the option values passed by the caller exactly as they were, and jsons.dump leaves the dumped object and everything reachable from it as it was. Loading the same value again therefore gives an equal result.',
  ['inputs', 'configurations', 'histories'], 'all JSON values and objects, all target types with default deserializers and serializers, all options, repeated calls',
  'A test compares results, not the input afterwards; absence of writes to the argument is a frame condition over every path of every (de)serializer.',
  ['jsons/deserializers', 'jsons/serializers', 'jsons/_load_impl.py', 'jsons/_dump_impl.py'],
  [('default (de)serializers build fresh containers', 'jsons/deserializers, jsons/serializers'), ('_load_hashed_keys', 'jsons/deserializers/default_dict.py')],
  observe=['deep equality of the argument before and after the call'])

p('C04', 'Loading a collection loads exactly its elements, in order',
  'Loading a JSON list into a list, tuple or other iterable type yields a collection whose i-th element is the load of the i-th JSON element into the declared element type (for a fixed-length tuple: the type declared at that position), with no element dropped, duplicated or reordered; loading a JSON object into a mapping type yields, for each key, the load of that key\'s value into the declared value type under the loaded (and, if asked, transformed) key. A failing element makes the load fail, naming its index for a list, unless the caller asked for warnings instead, in which case exactly the failing elements are left out. The result is an instance of the requested collection type.',
  ['inputs'], 'all lengths and contents of JSON lists and objects, all element types, all collection types',
  'Tests fix a handful of short lists and dicts; the elementwise correspondence must hold for every length and every element outcome.',
  ['jsons/deserializers/default_list.py', 'jsons/deserializers/default_tuple.py', 'jsons/deserializers/default_iterable.py', 'jsons/deserializers/default_dict.py', 'jsons/deserializers/default_mapping.py', 'jsons/deserializers/default_defaultdict.py'],
  [('default_list_deserializer', 'jsons/deserializers/default_list.py'), ('default_tuple_deserializer', 'jsons/deserializers/default_tuple.py'), ('default_namedtuple_deserializer', 'jsons/deserializers/default_tuple.py'), ('default_iterable_deserializer', 'jsons/deserializers/default_iterable.py'), ('default_dict_deserializer', 'jsons/deserializers/default_dict.py'), ('default_mapping_deserializer', 'jsons/deserializers/default_mapping.py'), ('default_defaultdict_deserializer', 'jsons/deserializers/default_defaultdict.py')],
  observe=['result of jsons.load on collections'])

p('C05', 'Dumping a collection dumps exactly its elements, in order',
  'Dumping a list, tuple or other iterable yields a list of the same length whose i-th element is the dump of the i-th element, and dumping a mapping or named tuple yields a dict with, for each key or field, the dump of its value under that key (transformed if asked). Nothing is dropped, duplicated, reordered or merged, except entries whose dump is null when the caller asked to strip nulls; a number of generic types that does not match the length is reported, never silently truncated.',
  ['inputs'], 'all lengths and contents of iterables and mappings, strict and non-strict, with and without declared element types',
  'Tests fix a handful of short collections; the elementwise correspondence must hold for every length and content.',
  ['jsons/serializers/default_list.py', 'jsons/serializers/default_iterable.py', 'jsons/serializers/default_tuple.py', 'jsons/serializers/default_dict.py'],
  [('default_list_serializer', 'jsons/serializers/default_list.py'), ('default_iterable_serializer', 'jsons/serializers/default_iterable.py'), ('_get_subclasses', 'jsons/serializers/default_iterable.py'), ('default_tuple_serializer', 'jsons/serializers/default_tuple.py'), ('default_dict_serializer', 'jsons/serializers/default_dict.py')],
  observe=['result of jsons.dump on collections'])

p('C06', 'A dump consists of JSON types only',
  'With the default serializers, whatever jsons.dump returns consists at every depth of dict, list, str, int, float, bool and None only, with dict keys that the json module accepts, so that jsons.dumps can always encode it. This holds for every combination of the documented options (with enums dumped by name, their default).',
  ['inputs', 'configurations'], 'all objects built from supported types nested arbitrarily, all option combinations',
  'The tests look at the exact dumps of chosen objects; closure under JSON types is an induction over all nestings of all supported types.',
  ['jsons/serializers', 'jsons/_dump_impl.py'],
  [('every default serializer', 'jsons/serializers'), ('_is_valid_json_key', 'jsons/serializers/default_dict.py')],
  observe=['types of all parts of the result of jsons.dump', 'json.dumps(jsons.dump(x))'])

p('C07', 'Options given by the caller reach every nested level',
  'Every nested load or dump that a default (de)serializer performs on behalf of a call runs with that call\'s fork, strictness, key transformer, strip options, verbosity and any other keyword argument of the caller that is not meant for a single level (such as attr_getters and tasks), at every depth and through every container, union, tuple, mapping and object type. No default (de)serializer replaces, drops or leaks such an option for one branch of the structure only.',
  ['inputs', 'configurations'], 'all nestings of container/object types, all option values, all extra keyword arguments',
  'The tests check single options on single container types; a dropped keyword shows only for one (container, option) combination out of many.',
  ['jsons/deserializers', 'jsons/serializers', 'jsons/_load_impl.py', 'jsons/_dump_impl.py'],
  [('kwargs threading in load/dump', 'jsons/_load_impl.py, jsons/_dump_impl.py'), ('kwargs threading in every default (de)serializer', 'jsons/deserializers, jsons/serializers')],
  observe=['keyword arguments seen by a user-registered (de)serializer of a nested element'])

p('C08', 'Parallel processing gives the sequential result',
  'For every list or iterable and every number of tasks of at least one, loading or dumping it with that number of tasks gives the same collection as with a single task, and fails if that fails: every element is processed exactly once, its result lands at its own position, and the work is divided so that no element is left out or done twice. A number of tasks below one is rejected when loading a list.',
  ['inputs', 'schedules', 'configurations'], 'all lengths (including zero), all task counts, both threads and processes, all interleavings of the tasks',
  'The tests run one or two (length, tasks) pairs; the division arithmetic has to be right for every pair of integers.',
  ['jsons/_multitasking.py', 'jsons/deserializers/default_list.py', 'jsons/serializers/default_iterable.py'],
  [('multi_task', 'jsons/_multitasking.py'), ('_start_tasks', 'jsons/_multitasking.py'), ('_fill', 'jsons/_multitasking.py')],
  observe=['result with tasks=n against tasks=1'])

p('C09', 'Forks start as a copy and stay isolated',
  'A fork starts with all serializers, deserializers, validators, announced classes and warning settings of the fork or class it was made from. After that, nothing registered, announced or suppressed on one of them changes any lookup, validation or warning on the other, in either direction, nor on any sibling fork.',
  ['histories', 'configurations'], 'all sequences of forking and registering on any of the forks',
  'The tests register one serializer on one fork; isolation concerns all kinds of registered state, both directions and every later history.',
  ['jsons/_fork_impl.py', 'jsons/_common_impl.py', 'jsons/_lizers_impl.py', 'jsons/_validation.py', 'jsons/_extra_impl.py', 'jsons/classes/json_serializable.py'],
  [('fork', 'jsons/_fork_impl.py'), ('set_serializer', 'jsons/_lizers_impl.py'), ('set_deserializer', 'jsons/_lizers_impl.py'), ('set_validator', 'jsons/_validation.py'), ('suppress_warning', 'jsons/_extra_impl.py'), ('announce_class', 'jsons/_extra_impl.py')],
  state=[('registries', 'per-fork registries of (de)serializers, validators, announced classes and suppressed warnings', 'jsons/_common_impl.py: StateHolder')],
  observe=['get_serializer/get_deserializer/get_validator and load/dump per fork'])

p('C10', 'A registration takes effect at once, whatever was called before',
  'After set_serializer, set_deserializer or set_validator returns, every later lookup, dump, load and validation on that fork uses the new registration, no matter which dumps, loads, lookups or validations - successful or failing - happened before. Internal caching never changes a result.',
  ['histories'], 'all interleavings of registrations with loads, dumps, lookups and validations, in all forks',
  'Tests register first and use afterwards, in a fresh state; staleness needs a prior use of the same type and depends on the whole history.',
  ['jsons/_cache.py', 'jsons/_lizers_impl.py', 'jsons/_validation.py', 'jsons/_load_impl.py', 'jsons/_dump_impl.py'],
  [('cached / clear', 'jsons/_cache.py'), ('clear() on the way out of load and dump', 'jsons/_load_impl.py, jsons/_dump_impl.py'), ('set_serializer', 'jsons/_lizers_impl.py'), ('set_deserializer', 'jsons/_lizers_impl.py'), ('set_validator', 'jsons/_validation.py')],
  state=[('lru caches', 'memoised lookups, valid only while no registry changes', 'jsons/_cache.py')],
  observe=['get_serializer/get_deserializer/get_validator and load/dump after a registration'])

p('C11', 'Lookup prefers the exact type, then the first matching parent',
  'The (de)serializer or validator used for a type is the one registered most recently for exactly that type if there is one; otherwise it is the one of the first registered type, in priority order, of which the type is a subclass, where a later high-priority registration precedes all earlier ones and a low-priority registration follows all earlier ones; otherwise, for a NewType, the one of its supertype. A sequence of types registers each of them, and types unrelated to a registration are unaffected by it.',
  ['inputs', 'histories', 'configurations'], 'all registration histories over all class hierarchies',
  'Tests have one or two registrations; precedence is a relation over arbitrary registries and hierarchies.',
  ['jsons/_lizers_impl.py', 'jsons/_validation.py', 'jsons/_common_impl.py'],
  [('_get_lizer', 'jsons/_lizers_impl.py'), ('_get_lizer_by_parents', 'jsons/_lizers_impl.py'), ('_get_parents', 'jsons/_lizers_impl.py'), ('set_serializer', 'jsons/_lizers_impl.py'), ('set_deserializer', 'jsons/_lizers_impl.py'), ('set_validator', 'jsons/_validation.py')],
  state=[('registries', 'name -> callable, plus the ordered list of registered classes', 'jsons/_common_impl.py: StateHolder')],
  observe=['get_serializer/get_deserializer/get_validator'])

p('C12', 'No value that its validator rejects is ever returned',
  'Whenever a validator applies to the type a value is loaded into, load returns that value only if the validator was applied to exactly the returned value and returned a true result; if it returns a false result or raises, load raises a ValidationError (carrying the first argument of the validator\'s exception as its message if it has one). Values returned as they are, without deserialization, and nested values are no exception, and validators registered for unrelated types are not consulted.',
  ['inputs', 'configurations'], 'all values, types and validators, at every nesting depth, in every fork',
  'Tests use one validator on one or two values; the guarantee is about every path on which load can return.',
  ['jsons/_validation.py', 'jsons/_load_impl.py'],
  [('validate', 'jsons/_validation.py'), ('load', 'jsons/_load_impl.py'), ('_do_load', 'jsons/_load_impl.py')],
  observe=['return value and errors of jsons.load / jsons.validate with a recording validator'])

p('C13', 'Every constructor argument gets its value from the right source',
  'When loading an object, each parameter of the class\'s constructor (after self) receives, in this order of preference: the value from the JSON object loaded into the parameter\'s declared type (or the type recorded in the meta information), the value of the caller\'s attribute getter, the parameter\'s default, None if its type admits None; and if none applies the load fails with an error naming the parameter. Variadic parameters are never filled and no argument is passed that the constructor does not name.',
  ['inputs', 'configurations'], 'all constructor signatures, JSON objects, attribute getters and defaults (including falsy values and defaults)',
  'The tests cover a few signatures with typical values; the preference order must hold for every combination, including falsy values, None defaults and getters that shadow.',
  ['jsons/deserializers/default_object.py'],
  [('_get_constructor_args', 'jsons/deserializers/default_object.py'), ('_get_value_for_attr', 'jsons/deserializers/default_object.py'), ('_get_value_from_obj', 'jsons/deserializers/default_object.py')],
  observe=['constructor arguments seen by the loaded class', 'UnfulfilledArgumentError.argument'])

p('C14', 'Strict loading rejects leftovers, lenient loading keeps them',
  'Loading an object with strict=True fails with an error naming an offending key whenever the JSON object has any key, other than the meta section, that is not consumed by the constructor, at any depth. Without strict, every such key - and no other, dunder names aside - ends up as an attribute of the instance, if it accepts attributes, holding the load of its value, and loading never fails because of an extra key alone; strict mode never returns the input unprocessed just because its type already matches.',
  ['inputs', 'configurations'], 'all JSON objects and classes, any number of extra keys, any nesting',
  'Tests use one extra key on one class; which keys are leftovers depends on arbitrary key sets and signatures.',
  ['jsons/deserializers/default_object.py', 'jsons/_load_impl.py'],
  [('_get_remaining_args', 'jsons/deserializers/default_object.py'), ('_set_remaining_attrs', 'jsons/deserializers/default_object.py'), ('_should_skip', 'jsons/_load_impl.py')],
  observe=['SignatureMismatchError', 'attributes of the loaded instance'])

p('C15', 'Unions resolve to the first alternative that works',
  'Loading or dumping with a Union or Optional type gives exactly the result of the first alternative, in declared order, for which loading or dumping succeeds, and fails with a DeserializationError or SerializationError if and only if every alternative fails. When loading, None is accepted exactly when the union admits None, and a union with None never turns None into another value through an earlier alternative, neither when loading nor when dumping.',
  ['inputs'], 'all unions (any number and order of alternatives) and all values',
  'Tests use two or three alternatives with chosen outcomes; the rule ranges over all outcome vectors.',
  ['jsons/deserializers/default_union.py', 'jsons/serializers/default_union.py', 'jsons/_common_impl.py'],
  [('default_union_deserializer', 'jsons/deserializers/default_union.py'), ('default_union_serializer', 'jsons/serializers/default_union.py'), ('can_match_with_none', 'jsons/_common_impl.py')],
  observe=['results of load/dump with Union types'])

p('C16', 'An object dump holds exactly the attributes asked for',
  'The dump of an object contains each public-data attribute of the object unless an option given by the caller excludes it, and contains no attribute that strip_privates, strip_properties, strip_class_variables or strip_attr excludes nor, with strip_nulls, any null; methods, dunder names and inner classes never appear. In lenient mode an attribute of which the value cannot be dumped is left out with a warning without affecting any other attribute; in strict mode it makes the dump fail.',
  ['inputs', 'configurations'], 'all classes and attribute names, all combinations of strip options, any subset of failing attributes',
  'Tests enumerate the options one at a time on one class; selection is a predicate over arbitrary attribute names, kinds and option combinations.',
  ['jsons/serializers/default_object.py'],
  [('_filter_attributes', 'jsons/serializers/default_object.py'), ('_get_attributes_from_object', 'jsons/serializers/default_object.py'), ('_do_serialize', 'jsons/serializers/default_object.py'), ('_add_dumped_elem', 'jsons/serializers/default_object.py')],
  observe=['keys of jsons.dump(obj, ...)'])

p('C17', 'Dates and times survive a round trip',
  'For every timezone-aware datetime with a whole-minute UTC offset, load(dump(d), datetime) equals d with the same UTC offset and microseconds (truncated to seconds exactly when the caller asked to strip microseconds), and the text is RFC3339 with a correct sign, hour and minute offset, \'Z\' being used only for UTC. Every date, naive time, timezone with a whole-minute offset and timedelta of less than 270 years likewise loads back equal to what was dumped.',
  ['inputs'], 'all datetimes, dates, times, offsets from -23:59 to +23:59 and timedeltas',
  'Tests use a few instants and offsets; sign, sub-hour negative offsets, years below 1000 and fractions are corner regions of a large value space.',
  ['jsons/_datetime_impl.py', 'jsons/serializers/default_datetime.py', 'jsons/deserializers/default_datetime.py', 'jsons/serializers/default_time.py', 'jsons/deserializers/default_time.py', 'jsons/serializers/default_timezone.py', 'jsons/deserializers/default_timezone.py', 'jsons/serializers/default_timedelta.py', 'jsons/deserializers/default_timedelta.py', 'jsons/serializers/default_date.py', 'jsons/deserializers/default_date.py'],
  [('to_str', 'jsons/_datetime_impl.py'), ('_timedelta_offset_str', 'jsons/_datetime_impl.py'), ('_datetime_offset_str', 'jsons/_datetime_impl.py'), ('get_datetime_inst', 'jsons/_datetime_impl.py'), ('_datetime_offset_inst', 'jsons/_datetime_impl.py'), ('_datetime_utc_inst', 'jsons/_datetime_impl.py')],
  observe=['load(dump(x), type(x)) == x', 'the dumped text'])

p('C18', 'Key transformers are total and consistent with each other',
  'The four key transformers accept every string, including the empty one and ones made of separators only, and never raise. Their results never contain the separators foreign to their style (no \'-\' or \'_\' in camelCase and PascalCase, no \'-\' in snake_case, no \'_\' in lisp-case), PascalCase differs from camelCase and lisp-case from snake_case only in first-letter case and separator respectively, and applying a transformer twice gives the same as applying it once. For names made of lower-case words of at least two letters joined by underscores, converting to camelCase or PascalCase or lisp-case and back to snake_case restores the name.',
  ['inputs'], 'all strings (idempotence and style for all ASCII strings)',
  'Tests transform a dozen names; totality and the inverse law quantify over all strings.',
  ['jsons/_key_transformers.py'],
  [('camelcase', 'jsons/_key_transformers.py'), ('snakecase', 'jsons/_key_transformers.py'), ('pascalcase', 'jsons/_key_transformers.py'), ('lispcase', 'jsons/_key_transformers.py')],
  observe=['results of the transformers'])

p('C19', 'Verbose dumps carry the types needed to load them back',
  'A dump made with class information records the class of the root and of every nested object held through object attributes under its path, records the dump time exactly when asked, and otherwise differs from the plain dump in nothing: no temporary type markers remain. Loading it without naming a class - or into a more general declared type at nested positions - reconstructs the recorded classes, provided that they are importable or announced, while an explicitly named class (other than object) takes precedence at the root.',
  ['inputs', 'configurations'], 'all object graphs of importable or announced classes, all verbosity settings',
  'Tests use a chain of two or three classes; the path bookkeeping must be right for every nesting, key and verbosity.',
  ['jsons/serializers/default_object.py', 'jsons/_common_impl.py', 'jsons/deserializers/default_object.py', 'jsons/_load_impl.py', 'jsons/classes/verbosity.py'],
  [('_get_dict_with_meta', 'jsons/serializers/default_object.py'), ('_fill_collection_of_types', 'jsons/serializers/default_object.py'), ('get_cls_and_meta', 'jsons/_common_impl.py'), ('determine_precedence', 'jsons/_common_impl.py'), ('_get_value_from_obj', 'jsons/deserializers/default_object.py'), ('Verbosity.from_value', 'jsons/classes/verbosity.py')],
  observe=['-meta section of the dump', 'classes of the loaded graph'])

p('C20', 'Decorated functions see converted arguments and return converted values',
  'A function decorated with loaded or dumped is called once with each argument that is passed by position converted by the chosen mapper to the type annotated for the parameter at its position (self and cls of methods untouched), and its result is converted to the annotated return type; switching off parameters or returnvalue leaves that side untouched. Extra options and the fork given to the decorator reach every conversion, coroutine functions are awaited before their result is converted, and decorating a class or staticmethod, or passing a mapper that is not one of the library\'s, is refused.',
  ['inputs', 'configurations'], 'all function signatures (without variadic positional parameters), argument tuples and decorator options',
  'Tests decorate a few functions of one or two parameters.',
  ['jsons/decorators.py'],
  [('loaded', 'jsons/decorators.py'), ('dumped', 'jsons/decorators.py'), ('_map_args', 'jsons/decorators.py'), ('_map_returnvalue', 'jsons/decorators.py'), ('_run_decorated', 'jsons/decorators.py')],
  observe=['arguments the decorated function receives', 'what the caller gets back'])

p('C21', 'String, bytes, method and transform variants agree with load and dump',
  'dumps and dumpb equal the json encoding of what dump returns for the same options, loads and loadb equal load of the decoded JSON, transform equals load of the (mapped) dump, and the dump/load family of methods of a serializable class equals the corresponding function with that class as fork and target. Options preset with with_dump (for dump and json) or with_load (for load and from_json) are applied on top, without losing the class\'s own fork.',
  ['inputs', 'configurations'], 'all objects, JSON texts, encodings and option sets',
  'Tests check one call per variant; agreement is for all arguments and all options at once.',
  ['jsons/_dump_impl.py', 'jsons/_load_impl.py', 'jsons/_transform_impl.py', 'jsons/classes/json_serializable.py'],
  [('dumps', 'jsons/_dump_impl.py'), ('dumpb', 'jsons/_dump_impl.py'), ('loads', 'jsons/_load_impl.py'), ('loadb', 'jsons/_load_impl.py'), ('transform', 'jsons/_transform_impl.py'), ('JsonSerializable methods', 'jsons/classes/json_serializable.py')],
  observe=['results of the variants'])

p('C22', 'Scalar values load to the requested type and round-trip',
  'Loading a value into int, float, bool or str (or a NewType of int, float or bool) gives an instance of that type or fails with a DeserializationError; a value that already is of the type is unchanged, and a string loaded into str is never turned into a datetime. Enum members (by name, by value, or either), UUIDs, Decimals, complex numbers and pure paths load back equal to what was dumped, and dumping a value that is not None with a primitive class casts to that class or fails.',
  ['inputs', 'configurations'], 'all scalar values and scalar target types, all use_enum_name settings',
  'Tests use a few literals per type; type conformance and the inverse law range over all values.',
  ['jsons/deserializers/default_primitive.py', 'jsons/deserializers/default_string.py', 'jsons/deserializers/default_enum.py', 'jsons/deserializers/default_nonetype.py', 'jsons/deserializers/default_complex.py', 'jsons/deserializers/default_decimal.py', 'jsons/deserializers/default_uuid.py', 'jsons/deserializers/default_path.py', 'jsons/serializers/default_primitive.py', 'jsons/serializers/default_enum.py', 'jsons/serializers/default_complex.py', 'jsons/serializers/default_decimal.py', 'jsons/serializers/default_uuid.py', 'jsons/serializers/default_path.py'],
  [('default_primitive_deserializer', 'jsons/deserializers/default_primitive.py'), ('default_string_deserializer', 'jsons/deserializers/default_string.py'), ('default_enum_deserializer', 'jsons/deserializers/default_enum.py'), ('default_primitive_serializer', 'jsons/serializers/default_primitive.py'), ('default_enum_serializer', 'jsons/serializers/default_enum.py')],
  observe=['results of load/dump on scalars'])

p('C23', 'Dicts with arbitrary hashable keys lose no entry',
  'Dumping a dict whose keys are arbitrary hashable values that are not JSON keys keeps every entry: keys that dump to a JSON key not taken by the key section are stored under that, and every other key gets its own entry together with its dump in a separate key section, keys that do not dump to the same JSON key never sharing an entry. Loading such a dump with the key and value types gives back a dict with exactly the original keys and values and without the key section.',
  ['inputs'], 'all dicts with hashable keys, including keys with equal hashes',
  'Tests use one or two keys with different hashes; collisions and mixtures of key kinds need particular inputs.',
  ['jsons/serializers/default_dict.py', 'jsons/deserializers/default_dict.py'],
  [('_store_and_hash', 'jsons/serializers/default_dict.py'), ('_load_hashed_keys', 'jsons/deserializers/default_dict.py')],
  observe=['load(dump(d), Dict[K, V]) == d', 'number of entries of the dump'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        n = x['statement'].count('. ') + 1
        assert n <= 3, (x['id'], n)
        f.write(json.dumps(x) + '\n')
print(len(P), 'properties')
