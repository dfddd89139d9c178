B = 'runtime contracts on the real code, bounded (generated and enumerated cases); deductive part outstanding'
def bounded(text, **k):
    return dict(dict(contracts=False, level='other', technique=B, bounded=text,
                     explanation='bounded check only: the contract of the property in executable form, evaluated on the real library for generated cases; nothing is counted as proved.'), **k)
REG = {
 'C01': dict(
  proved='load, loads, loadb and get_cls_from_str let only JsonsErrors escape, with source, target, cause and text as stated, for every value, class, fork and option; None is rejected where the type does not admit it.',
  bounded='the default deserializers themselves and malformed meta sections deep inside values (generated cases).',
  assumptions=['the loop in _split_subtypes yields a list of strings and does not raise', 'importing a module by name raises only ImportError, TypeError or ValueError', 'json.loads raises ValueError subclasses only']),
 'C02': dict(
  proved='dump returns what the serializer returned or raises SerializationError caused by the original exception, for every object, class, fork and options.',
  bounded='the default serializers under random objects and failing serializers.'),
 'C03': dict(
  proved='load, dump and the default (de)serializers for lists, iterables, tuples, named tuples, dicts, mappings, defaultdicts, unions, scalars and objects assign to, extend, shrink or otherwise alter nothing but objects made during the call itself (frame condition), for every argument and option.',
  bounded='dicts with hashed keys, dates and times (immutable), verbose dumps of objects, and the arguments after whole loads and dumps of generated values.',
  assumptions=['(de)serializers registered by the user and the classes that are called return objects of their own, not their argument']),
 'C04': dict(
  proved='loading a list, iterable, tuple, named tuple, dict, mapping or defaultdict, of every length and for every option: each element, key and value of the result is the load of the element at the same place into its declared type, nothing is added, reordered or left out (except failing list elements when warnings are asked for), the result is made of the class asked for, and it fails only where an element fails.',
  bounded='collections as they are spelled in Python, nested, through load (generated cases); dicts with a -keys section are C23.',
  assumptions=['typish.get_args returns the generic arguments of a type', 'declared types hold no free type variables; __origin__ of a typing construct is a class (Python 3.7+)', 'a named tuple class has _fields, a tuple of str, and _field_defaults, a dict', 'a class that is called returns an instance of itself', 'the option name cls_args is reserved']),
 'C05': dict(
  proved='dumping a list, iterable, set, tuple, named tuple or dict with JSON keys, of every length, with and without declared types, strict or not, for every option: the result has as many elements as the argument, the i-th one (the one under each key, transformed if asked) is the dump of the i-th, entries are left out only if they dump to null and nulls are stripped, a number of types that does not match is reported, and it fails only where an element fails.',
  bounded='collections as they are spelled in Python, nested, through dump (generated cases); dicts with keys that are no JSON keys are C23.',
  assumptions=['typish.get_args returns the generic arguments of a type', 'a serializer is registered for object, so every class has one', 'no option has the name of a parameter of a private function', 'a named tuple has _fields, a tuple of str, and an attribute for each']),
 'C06': dict(
  proved='by induction over the nesting of dumps: dump returns what the serializer returned, and the default serializers for lists, iterables, sets, tuples, named tuples, dicts with JSON keys, objects (verbosity off), unions, primitives, enum members, UUIDs, Decimals, paths, complex numbers, time zones, dates, times, datetimes and durations return, for every value and option, a JSON scalar, a list of JSON or a dict of JSON with keys the json module accepts, given that the dumps and serializers they call do.',
  bounded='verbose dumps, the loop over a dict with keys that are no JSON keys (the name that _store_and_hash gives to such a key is proved to be a JSON key), and whole dumps of generated objects under all option combinations through json.dumps.',
  assumptions=['key transformers give str', 'json.dumps accepts what consists of JSON types', 'the serializers registered are the default ones', 'str(), as_posix(), strftime() and tzname() give str; the parts of a complex number and total_seconds() are floats; enum names and zone keys are str', 'integers and floats include their subclasses (IntEnum)']),
 'C07': dict(
  proved='every nested load or dump made by the (de)serializers for lists, iterables, tuples, named tuples, dicts, mappings, defaultdicts, unions and objects has every option of the caller, of any name and value, except those that are meant for a single level.',
  bounded='the parts of scalars, and the options as seen at the leaves of generated structures by recording (de)serializers.',
  assumptions=['options that are meant for a single level: cls, tasks, task_type, warn_on_fail, attr_getters, types, meta_hints and the private ones'] + ['inspect.signature gives an ordered mapping of names to parameters of the five kinds', 'get_type_hints fails or gives a dict of truthy types', 'the keys of the object and of the meta hints are strings; a key transformer is a pure function that maps the keys of one object to different strings', 'getters are truthy callables under string names', 'no option has the name of a parameter of a private function']),
 'C08': dict(
  proved='for every length and every number of tasks: the parts follow each other without gap or overlap from the first element to the last; each element is processed once, by the function given, with all arguments and options, and its result (or its failure) stored at its own place; every task is started and joined before the results are read; all results are returned in order, and a failure makes the whole fail. Loading a list and dumping an iterable with several tasks gives the same elements as C04 and C05 state for one; less than one task is refused when loading a list.',
  bounded='the runs themselves with threads and processes, against one task: all small (length, tasks) pairs and generated ones.',
  assumptions=['a thread or process that was started and joined has called its target once; processes see equal arguments, and a manager list shows what they stored', 'int(a / b) is exact (lengths below 2**53)', 'tasks write to different places of the list (proved), so their order does not matter']),
 'C09': dict(
  proved='for every fork, name, class and function: a new fork has containers of its own for every registry, with exactly the content of those of the fork it is made from, and its warning settings; registering, announcing and suppressing alter nothing but the containers of the fork given; every lookup and every warning decision reads those of the fork asked. No other function of the package touches that state.',
  bounded='generated histories of forking, registering, announcing and suppressing on several forks against a reference model, through loads and dumps.',
  assumptions=['a class made by type() is a new one', 'a class that holds state has every registry (so it is StateHolder or a fork, or a subclass of one)', 'the state is not reached by computed attribute names']),
 'C10': dict(
  proved='every path through set_serializer, set_deserializer and set_validator (a class, a sequence of any length, None) empties the caches after the last alteration of a registry; clear() empties the cache of every function of the package that remembers results; no other function alters a registry. So a cached lookup always stems from the registries as they are.',
  bounded='generated histories of registrations, lookups, loads, dumps and validations against uncached lookups.',
  assumptions=['functools.lru_cache gives what its function gave for equal arguments of equal types', 'one thread', 'the registries are not reached by computed attribute names']),
 'C11': dict(
  proved='the lookup, for every class and every content of the registries: the function under the name of the class itself, else that of the first class in the list of which it is a subclass, else that of the supertype, else none; the setters, for every class or sequence of any length: each class is entered exactly once, at the front (high priority) or the end of the list, and under its own name with the function given; lookups use the registries of the fork asked.',
  bounded='generated registries and class hierarchies against a reference lookup.',
  assumptions=['classes have different names (qualified, without regard to case)', 'every class in the list has a truthy function under its name (kept by the setters)', 'a chain of supertypes ends', 'issubclass is a function of its arguments']),
 'C12': dict(
  proved='for every value, class, fork and options: load returns only values its validator accepted, on exactly that value, and rejections surface as ValidationError with the right message.',
  bounded='nested values and validators raising at depth (generated cases).'),
 'C13': dict(
  proved='the object deserializer, for every class, signature, JSON object, set of getters, key transformer and options: the class is called exactly once with exactly its named parameters (variadic ones and self left out); each has the value loaded from the object (into the class the meta hints or the annotation name), else from its getter, else its default, else None where the annotation admits it; otherwise UnfulfilledArgumentError names a parameter without a source, with source and target; the result is what the class made; any other failure is that of loading a value, a getter, the hints or the constructor.',
  bounded='real signatures (generated cases): what inspect.signature and typing make of them, and how load gets to the object deserializer.',
  assumptions=['inspect.signature gives an ordered mapping of names to parameters of the five kinds', 'get_type_hints fails or gives a dict of truthy types', 'the keys of the object and of the meta hints are strings; a key transformer is a pure function that maps the keys of one object to different strings', 'getters are truthy callables under string names', 'no option has the name of a parameter of a private function']),
 'C14': dict(
  proved='the object deserializer, for every class, JSON object, getters, key transformer and options: in strict mode no instance is made if a key is left over and SignatureMismatchError names such a key and the target; without strict mode every leftover is set on the instance with its loaded value, nothing is set but leftovers and values of getters, and an extra key alone never makes loading fail (an attribute that cannot be set is ignored).',
  bounded='real classes (slots, properties, nested objects; generated cases), through load.',
  assumptions=['inspect.signature gives an ordered mapping of names to parameters of the five kinds', 'get_type_hints fails or gives a dict of truthy types', 'the keys of the object and of the meta hints are strings; a key transformer is a pure function that maps the keys of one object to different strings', 'getters are truthy callables under string names', 'no option has the name of a parameter of a private function']),
 'C15': dict(
  proved='for every value, union and options: loading or dumping as a union yields the result of the first alternative that succeeds and fails only if all fail; load admits None exactly if an alternative does.',
  bounded='unions as they are spelled in Python, nested in collections and attributes (generated cases).',
  assumptions=['a union has a non-empty tuple __args__ and no __union_params__ (Python 3.7+)']),
 'C16': dict(
  proved='with verbosity off, for every object, class, attribute name and combination of strip options: the attributes selected from the object (its dir) or, strictly, from the class are exactly those that no option excludes, with their declared types; the dump has under each (transformed) name what the serializer of the declared type or of the type of the value made of it, leaves an attribute out only if it is null and nulls are stripped or if it could not be dumped (leniently, with a warning), and a strict dump fails with a SerializationError; strip_attr may be a name, a list or a tuple.',
  bounded='what counts as a property, class variable, inner class or declared attribute of generated classes, verbosity, and whole dumps.',
  assumptions=['_get_class_props, _get_attributes_and_types and _is_innerclass tell what is a property, a class variable, a declared attribute, an inner class (bounded)', 'an object has the attributes that dir lists, and reading one does not raise', 'attribute names are non-empty strings, each listed once']),
 'C17': dict(
  proved='for every datetime with a whole-minute offset (timezone.utc, a timezone of any offset and name, any other tzinfo), every date, naive time, duration and timezone, by executing serializer and deserializer one after the other on symbolic fields: it loads back without an error, with the same fields and offset (microseconds 0 exactly if they were to be stripped), and the text is YYYY-MM-DDTHH:MM:SS[.ffffff] followed by Z, only if the offset is 0, or the sign, hours and minutes of the offset.',
  bounded='generated dates and times and every whole-minute offset, with the real datetime module; naive datetimes.',
  assumptions=['strftime writes %m %d %H %M %S as two digits and %f as six, strptime reads back the digits of each directive and refuses what does not match', 'date(), time(), combine(), replace(tzinfo=) and the constructors keep their fields; timezone(d).utcoffset is d', 'arithmetic on total_seconds of whole minutes is exact', 'timedelta(seconds=d.total_seconds()) == d below 270 years', 'a tzinfo that knows its offset without a datetime has a fixed one, and one that calls itself UTC without knowing it has offset 0']),
 'C18': dict(
  proved='for every string: each transformer returns a string without the separators foreign to its style and in its letter case (camelCase starts in lower case, PascalCase in upper case, the other two are lower case), and leaves alone every string in its style, so twice is once; PascalCase is camelCase but for the case of its first letter, lisp-case is snake_case with - for _.',
  bounded='the way back from camelCase, PascalCase and lisp-case to snake_case, and all laws on all short strings over separators and letters and on generated strings.',
  assumptions=['lower and upper work character by character (ASCII), are idempotent, undo each other up to case and leave separators alone; title keeps separators', 'split and join: the parts have no separator, one part is the whole; joined without a separator there is none', 're.sub of ([a-z])([A-Z]) by \\1_\\2 introduces no dash, keeps the first character and leaves alone what has no upper-case letter', 'replacing - by _ and back is the identity on what has no _']),
 'C19': dict(
  proved='for every object, attribute, option and each of the four verbosities: a dump made at the top has a -meta section if and only if something is asked for, with the classes and the dump time each exactly when asked, the class of the object under "/", and the rest of the dump is what C16 says of the plain one; a dump made within another has none; each attribute is dumped with class marks exactly when classes are asked for and its dump is marked once, dicts only, with the class of its value; the marks of all nested dicts are taken out and recorded under their paths (step of the recursion over the nesting). Loading: the class asked for, else the recorded one, else the type of the value, an inferred class giving way to a recorded one; the recorded classes reach the deserializer; the hints of an attribute are those at or below its path with the path taken off, no two of them under one name; (with C13) a constructor argument is loaded as its recorded class.',
  bounded='whole round trips of generated object graphs under all verbosity settings: names of classes, lists of objects, attributes that are set after the constructor.',
  assumptions=['the clock does not fail', 'typish.get_type returns a class or typing construct with a __module__', 'the value under -cls of a dump is no dict', 'a path does not end in /']),
 'C20': dict(
  proved='for every function, argument list, signature and options: each positional argument reaches the function converted to the annotation of its parameter (self and cls unconverted), the result is converted to the return annotation, keyword arguments are passed on, either side can be switched off, coroutines are awaited first, and bad mappers, classes and static methods are refused; for all six mappers.',
  bounded='real functions, methods, defaults and coroutines under both decorators (generated cases).',
  assumptions=['inspect.signature gives an ordered mapping of names to parameters', 'variadic positional parameters are excluded', 'the call has no more positional arguments than the function has parameters']),
 'C21': dict(
  proved='loads, loadb, dumps, dumpb and the methods of JsonSerializable behave as load and dump composed with json and the encoding, for every value, class, fork and options.',
  bounded='each variant against load and dump on generated values, options and classes.',
  assumptions=['json.loads and json.dumps are unknown functions of their arguments; json.loads raises ValueError subclasses only']),
 'C22': dict(
  proved='scalar (de)serializers: for every value of the scalar classes, what dump makes of it loads back to an equal value of the class asked for, under every enum setting and for NewTypes of int, float and bool.',
  bounded='generated scalars of every class, enum classes and settings through load and dump.',
  assumptions=['the constructors of the scalar classes invert their textual forms (str of Decimal, UUID, …)']),
 'C23': dict(
  proved='the step of the dump (_store_and_hash), for every key, source dict, result made so far with or without a key section, hash function and option: a JSON key needs nothing; a key whose dump is a JSON key that is free is written under it; any other key gets a name that is a JSON key, in use neither in the result, nor in the key section, nor in the source, nor is it that of the section, and is kept in the section with its dump; every other entry and every other name of the section stays; it fails only if the dump of the key does. So by induction over the keys the names in the section are no keys of the source and are never written again.',
  bounded='the loop around that step, loading the key section, and whole round trips of generated dicts.',
  assumptions=['hash() gives an int', 'the invariant that the names in the key section are no keys of the source is assumed before a step and proved after it']),
}
