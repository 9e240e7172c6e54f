#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that statement, quantifier and anchors stay readable)."""
import json, os
P = []
def p(id, title, statement, over, q, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=q), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(zip(('name', 'meaning', 'where'), s)) for s in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe), hook_needed=None)))

p('C01', 'Id strings are canonical: insertion order never changes an id',
  'Two configurations with the same name, output name and content have the same id string, whatever the insertion order '
  'of their parameters, of the entries of any dict and of the elements of any set or frozenset, at any nesting level. '
  'Parameters always appear sorted by name, while lists, tuples and OrderedDicts keep their own order.',
  ['inputs'], 'All configurations (names, keys and values symbolic) and all permutations of their unordered parts.',
  'Tests render a few hand-written dicts and sets whose order they do not vary; canonicity quantifies over all contents and all orders.',
  ['whatami/what.py', 'whatami/plugins.py'],
  [('sorted(self.conf.items()) in What.id', 'whatami/what.py'), ('sorted() in dict_plugin and set_plugin', 'whatami/plugins.py')],
  observe=['What.id()', 'str(What)'])

p('C02', 'Parsing an id string gives back the configuration it was generated from',
  'For every configuration built from None, booleans, integers, floats, strings, lists, tuples, dicts, sets, frozensets and nested '
  'configurations (with or without output name), parsing its id yields a configuration with the same name, output name, parameters, '
  'values and value types; strings come back with their unescaped single quotes backslash-escaped, as in the id. '
  'Rendering the parsed configuration gives the very same id.',
  ['inputs'], 'All configurations in the documented value domain: any nesting, any identifiers as names and keys, any characters in strings, any integers.',
  'The round-trip tests check three fixed configurations; parser/printer agreement must hold for every identifier, character sequence and nesting.',
  ['whatami/parsers.py', 'whatami/plugins.py', 'whatami/what.py'],
  [('grammar and WhatamiTreeVisitor', 'whatami/parsers.py'), ('plugin chain', 'whatami/plugins.py'), ('What.id', 'whatami/what.py')],
  observe=['What.id()', 'parse_whatid()'])

p('C03', 'Different configurations have different ids',
  'Two configurations that differ in name, output name, set of identifying parameters, or in the value or type of an identifying '
  'parameter at any depth, have different id strings. The only strings that are identified are those that differ just in whether '
  'a single quote is already backslash-escaped (or a final backslash is).',
  ['inputs'], 'All pairs of configurations over the documented value domain.',
  'Tests never compare pairs of ids for collisions; uniqueness is a statement about all pairs.',
  ['whatami/what.py', 'whatami/plugins.py'],
  [('What.id', 'whatami/what.py'), ('string_plugin quoting', 'whatami/plugins.py'), ('collection plugins', 'whatami/plugins.py')],
  observe=['What.id()'])

p('C04', 'Non-id parameters never influence the id; all other parameters do appear',
  'The id of a configuration contains every parameter that is not declared non-id and none of those declared non-id, so '
  'changing, adding or removing non-id parameters never changes the id. Asking for non-ids too (as str() does) shows all parameters, '
  'but non-id parameters of nested configurations stay hidden.',
  ['inputs', 'configurations'], 'All configurations, all subsets of declared non-id keys (also naming absent keys), all values, nesting to the stated depth.',
  'Tests check two fixed non-id sets; independence from a value is a two-run property over all values.',
  ['whatami/what.py'], [('id(), flatten(), keys(), values() filters', 'whatami/what.py')],
  state=[('non_id_keys', 'keys excluded from ids', 'What.__init__')], observe=['What.id()', 'str(What)', 'What.keys()'])

p('C05', 'Length-limited ids: full id when it fits, its sha1 otherwise',
  'id(maxlength=n) and positional_id(maxlength=n) return the full string when n <= 0 or when its length is at most n, and otherwise '
  'the 40-character hexadecimal sha1 of the utf-8 encoding of that full string.',
  ['inputs'], 'All configurations and all integers n, in particular n equal to the length and one off.',
  'One test uses maxlength=1 on one id; the boundary and non-ASCII text are never exercised.',
  ['whatami/what.py'], [('_trim_too_long', 'whatami/what.py')], observe=['What.id(maxlength=)', 'What.positional_id(maxlength=)'])

p('C06', 'String values stay inside one quoted literal and escaping is idempotent',
  'Every string value is rendered as one single-quoted literal from which it cannot escape: whatever characters it holds (quotes, '
  'backslashes, separators, brackets, leading or trailing blanks, newlines, any unicode), the id parses and the value read back '
  'renders to the same literal. Only single quotes get a backslash, quotes already escaped are not escaped again, and all other characters are kept verbatim '
  '(but an unpaired final backslash is paired).',
  ['inputs'], 'All strings up to the stated length, at top level and within each kind of collection.',
  'Tests escape five fixed strings; the interesting inputs are rare combinations of quote, backslash and blank.',
  ['whatami/plugins.py', 'whatami/parsers.py'],
  [('string_plugin', 'whatami/plugins.py'), ('a_string rule and visitor', 'whatami/parsers.py')], observe=['string_plugin', 'What.id()', 'parse_whatid()'])

p('C07', 'The parser accepts exactly the id language and survives bad input',
  'Text that is not an id of the documented grammar (name, parenthesised key=value list, optional output name, no trailing text) is '
  'rejected with the parsing error arpeggio.NoMatch, while text in the grammar is accepted and read as what it says, blanks between tokens being ignored. '
  'A rejected or failing parse never changes the result of later parses.',
  ['inputs', 'histories'], 'All texts up to the stated length over the full alphabet, plus all single-token edits of valid ids; all two-call histories.',
  'Tests list eight wrong ids; acceptance is a statement over all texts.',
  ['whatami/parsers.py'], [('build_whatami_parser', 'whatami/parsers.py'), ('parse_whatid error path', 'whatami/parsers.py')],
  state=[('DEFAULT_WHATAMI_PARSER', 'shared stateful parser', 'whatami/parsers.py')], observe=['parse_whatid()'])

p('C08', 'Flattened keys, values and item access of a configuration agree',
  'For every configuration, keys() and values() have the same length, list each addressed parameter once in depth-first, sorted key order, '
  'and indexing the configuration with each returned key gives exactly the value at the same position. '
  'The flags restrict the listing as documented, and get() returns the default (never another error) for any key or key path that does not exist.',
  ['inputs'], 'All nested configurations with collections, all flag combinations, all existing and missing key paths.',
  'Tests look at flat configurations and a few fixed paths.',
  ['whatami/what.py'], [('flatten, keys, values, __getitem__, get', 'whatami/what.py')], observe=['What.flatten', 'What[...]', 'What.get'])

p('C09', 'Copies are independent and equality is by name, output name and parameters',
  'A copy of a configuration equals it and renders to the same id (with the same non-id keys); setting a parameter on the copy, or set(..., copy=True), never changes the original. '
  'Two configurations compare equal exactly when name, output name and parameters are equal, and equal configurations hash alike. '
  'whatadd gives, for each value, the id of the configuration extended with that parameter, leaves the configuration untouched, and refuses to replace an existing parameter.',
  ['inputs', 'histories'], 'All configurations, keys, values; all sequences of copy/set up to the stated length.',
  'Tests compare three fixtures with their own copy; they never write to a copy.',
  ['whatami/what.py', 'whatami/whatutils.py'], [('copy, set, __eq__', 'whatami/what.py'), ('whatadd', 'whatami/whatutils.py')], observe=['What.copy', 'What.set', 'What.__eq__', 'whatadd'])

p('C10', 'A callable is identified by exactly the arguments it has bound',
  'For every python function of named parameters and every (nested) partial application of it that can be called, the reported name is the '
  'function name and the reported parameters are exactly the arguments already bound, each with the value the call would use: defaults, overridden by keyword or positional '
  'partial arguments, outer applications winning. Applications that can never be called are reported as ValueError.',
  ['inputs', 'programs'], 'All signatures up to the stated number of parameters and defaults, all partial nestings and argument values.',
  'Tests fix a handful of signatures; agreement with the real call semantics is over all of them.',
  ['whatami/misc.py', 'whatami/plugins.py', 'whatami/what.py'], [('callable2call', 'whatami/misc.py'), ('partial_plugin, function_plugin', 'whatami/plugins.py')],
  observe=['callable2call', 'what2id(partial)', 'What.id() of callable values'])

p('C11', 'Decorating a function with whatable is transparent',
  'A function or partial decorated with whatable returns and raises what the original does for any arguments and keeps its name, docstring and module; the original '
  'is left without a what (unless in-place modification is asked for, when the very same object is returned). Its what() always describes the original parameters: '
  'it is not affected by calls nor by changes made to configurations returned before, and declared non-id or excluded parameters stay out of the id.',
  ['inputs', 'histories'], 'All argument values, signatures up to the stated size, all histories of what()/set/call up to the stated length.',
  'Tests call one decorated function once.',
  ['whatami/what.py'], [('whatable, function branch', 'whatami/what.py')], observe=['whatable(f)(...)', 'whatable(f).what()'])

p('C12', 'Inferred configurations hold exactly the public state of the object',
  'The configuration inferred for an object has its class name and exactly the attributes found in the enabled sources (instance dictionary, slots, properties, class) '
  'whose names do not start with the excluded prefix (if any), do not end with the excluded postfix (if any) and are not in the excluded names, with their current values '
  '(slots that are declared but not set are not attributes of the object); '
  'builtin and derived collections (lists, tuples, dicts, sets, frozensets) additionally carry their elements. Inference works also for callable objects and leaves the object unchanged.',
  ['inputs', 'programs'], 'All attribute names and values, all combinations of flags and exclusion options, all the object layouts listed in the bounds.',
  'Tests use fixed classes with fixed attribute names.',
  ['whatami/what.py', 'whatami/misc.py'], [('whatareyou', 'whatami/what.py'), ('config_dict_for_object, trim_dict', 'whatami/misc.py')], observe=['whatareyou', 'whatable(cls)().what()', 'obj2what'])

p('C13', 'The nickname registry is always a one-to-one mapping',
  'After any sequence of register, remove and reset, each id has at most one nickname and each nickname exactly one id, and lookups in both directions are inverse of each other. '
  'Registering a pair that conflicts with an existing binding, or removing something that is not registered as stated, raises and changes nothing; removing by nickname, by id, or by both of the same entry removes exactly that entry.',
  ['inputs', 'histories'], 'All operation sequences up to the stated length with arbitrary nicknames and ids.',
  'Tests register a single pair.',
  ['whatami/registry.py'], [('register, remove, reset, nick2id, id2nick', 'whatami/registry.py')],
  state=[('_id2nick/_nick2id', 'the two directions of the mapping', 'WhatamiRegistry')], observe=['WhatamiRegistry.list', 'nick2id', 'id2nick', 'nick_or_id'])

p('C14', 'Adding records is all-or-nothing and record ids are unique',
  'If adding a batch of records fails for any reason (an id already recorded or repeated in the batch, a column named as the id column, a failing id extractor or postprocessor, '
  'at any position), the recorder is left exactly as before; if it succeeds, exactly the new records are appended in order and earlier records are unchanged. '
  'No two records ever share an id, and recorders built with the same arguments do not affect each other.',
  ['inputs', 'histories', 'fault_sequences'], 'All batches up to the stated size with arbitrary ids over any prior registry, with a failure injected at any postprocessor call.',
  'Tests try two duplicates; atomicity is about every failing position.',
  ['whatami/registry.py'], [('Recorder.add commit at the end', 'whatami/registry.py')],
  state=[('_registry', 'id -> record, insertion ordered', 'Recorder')], observe=['Recorder.add', 'Recorder.get', 'len(Recorder)'])

p('C15', 'Each new record gets the columns its arguments, defaults and postprocessors say',
  'A new record has its id under the id column, each given column with the value given to that record (scalars and strings go to all records, iterables are dealt in order, None following a shorter one, unless unboxing is off; '
  'dictionaries assign by record id and only to the ids they name), and each column default not otherwise given; then the recorder postprocessors and the call postprocessors are applied in order (only the latter when overriding). '
  'This holds for any ids the extractor yields, and equally through curried, partial and direct calls.',
  ['inputs', 'configurations'], 'All ids, columns kinds and values for batches up to the stated size, any option combination.',
  'Tests use a dozen fixed calls with friendly string ids.',
  ['whatami/registry.py'], [('add, _params2dict, _DefaultDict', 'whatami/registry.py')], observe=['Recorder.add', 'Recorder.get', 'Recorder.unique'])

p('C16', 'The plugin chain is an ordered list with first-match-wins rendering',
  'Values are rendered by the first registered plugin that gives a string. Inserting puts a plugin right before the given one (by default before the catch-all plugins, or last when asked), '
  'dropping removes only it, reset restores the default chain; inserting a duplicate, inserting before or dropping an unregistered plugin raises ValueError and leaves the chain unchanged.',
  ['inputs', 'histories'], 'All operation sequences up to the stated length over arbitrary plugins, and all match/no-match outcomes of the plugins.',
  'One doctest follows one sequence.',
  ['whatami/plugins.py'], [('WhatamiPluginManager', 'whatami/plugins.py')], state=[('PLUGINS', 'current chain', 'WhatamiPluginManager')], observe=['WhatamiPluginManager.plugins', 'build_string'])

p('C17', 'Sorting configurations by parameters is a stable sort of the input',
  'sort_whats and sort_whatids return the same items as given (a permutation, also for no items), ordered by the tuple of values of the requested (possibly nested) keys, items with equal values keeping their '
  'input order, along with the matching list of value tuples; the input is not modified.',
  ['inputs'], 'All lists up to the stated length, all values of the sort keys.',
  'The doctests sort one list of five distinct integers.',
  ['whatami/whatutils.py'], [('sort_whats, sort_whatids, whatvalues', 'whatami/whatutils.py')], observe=['sort_whats', 'sort_whatids', 'whatvalues'])

p('C18', 'Template matching selects exactly the ids equal but for the ignored keys',
  'match_whatids returns, in input order, exactly those ids whose name and parameter keys are those of the template and whose values equal (==) the template values for all keys '
  'that are not ignored (given as flattened: a name, or a tuple for a nested key); ignoring a key also ignores everything nested under it.',
  ['inputs'], 'All templates and candidates up to the stated nesting, all values and names, all sets of ignored keys and flags.',
  'One doctest with six ids.',
  ['whatami/whatutils.py'], [('match_whatids', 'whatami/whatutils.py')], observe=['match_whatids'])

p('C19', 'Extracted dataframe columns hold, row by row, the values in that row\'s id',
  'whatid2columns adds, for each requested (possibly nested) key, or for every key in any of the ids if none is requested, one column named by the key path with prefix and postfix, holding in every row the value that key has in the id of that row '
  '(None if it has no such key). Other columns, and the whole input when not in place, are unchanged.',
  ['inputs'], 'All tables up to the stated number of rows, any parameter values, heterogeneous and repeated ids, any keys.',
  'The only test is skipped with the installed pandas.',
  ['whatami/whatutils.py'], [('whatid2columns, _get_or_none, _key2colname', 'whatami/whatutils.py')], observe=['whatid2columns'])

p('C20', 'Old-style ids convert to equivalent new ids',
  'An old-style id (Name#key=value#key=value, between double quotes or preceded by out=name#) converts to the configuration with that name and those parameters, the leading out becoming the parameter "out", '
  'so that the new id parses back to the same content. A leading out that conflicts with an out parameter raises ValueError, and strings that are not old-style ids are returned unchanged by id2whatami4.',
  ['inputs'], 'All old-style ids over the documented value domain (nested configurations quoted) up to the stated size, and all texts near them.',
  'Three doctest examples; the old grammar is a separate copy of the new one.',
  ['whatami/whatutils.py', 'whatami/parsers.py'], [('oldid2what, id2whatami4', 'whatami/whatutils.py'), ('build_oldwhatami_parser', 'whatami/parsers.py')], observe=['oldid2what', 'id2whatami4'])

p('C21', 'Dictionary and id views of a configuration are faithful',
  'to_dict and id2dict give a dictionary with the name, output name and, for each parameter, its value with every nested configuration (also inside collections) '
  'converted likewise, so that no configuration object remains (where a dictionary cannot be, as a set element or a dictionary key, a nested configuration becomes its id). what2id gives None for None, a string unchanged, and the same id whether it is given a configuration, an object with that configuration, or (through parsing) the id itself.',
  ['inputs'], 'All configurations over the documented value domain, nested through lists, tuples and dicts.',
  'One test converts nested configurations outside of collections.',
  ['whatami/whatutils.py', 'whatami/what.py'], [('id2dict, what2id, obj2what', 'whatami/whatutils.py'), ('to_dict', 'whatami/what.py')], observe=['What.to_dict', 'id2dict', 'what2id', 'obj2what'])

p('C22', 'Content hashes depend on content only',
  'Hashes of python containers (lists, tuples, dicts, sets and frozensets of strings, bytes, numbers and booleans) are equal for equal content whatever the insertion order of dicts and sets and whether equal strings are shared or separate objects, '
  'and containers with different content, type or order (for ordered ones) feed different data to the hash.',
  ['inputs'], 'All containers up to the stated size with arbitrary integers and strings.',
  'The hash tests only compare fixed arrays with hard-coded digests (and fail on the installed numpy).',
  ['whatami/minijoblib/hashing.py'], [('Hasher.memoize, _batch_setitems, save_set', 'whatami/minijoblib/hashing.py')], observe=['hasher'])

p('C23', 'Scikit-learn objects are identified by all their result-changing parameters',
  'After whatamize_sklearn, what() of an estimator has its registered short name (class name if none) and exactly the estimator parameters with their current values; the id shows all of them but the ones registered as non-id, '
  'for any values including nested estimators. Whatamized objects without parameter access are described by their public attributes, whether they are registered or not.',
  ['inputs', 'configurations'], 'All parameter values, for each registered estimator with a default constructor and the unregistered ones listed in the bounds.',
  'Tests check two estimators with default values.',
  ['whatami/wrappers/what_sklearn.py'], [('_what_for_sklearn, _a registry', 'whatami/wrappers/what_sklearn.py')], observe=['estimator.what()'])

p('C24', 'Captured call configurations hold exactly the arguments of the call',
  'call_dict gives the values of all named parameters and keyword arguments of the calling function as they are at that moment, without the ignored names, with overrides applied in the documented precedence; positional varargs raise ValueError unless ignored. '
  'call2what names the caller and holds its local variables.',
  ['inputs', 'programs'], 'All argument values, and the caller signatures listed in the bounds.',
  'Doctests show four calls.',
  ['whatami/misc.py', 'whatami/whatutils.py'], [('call_dict', 'whatami/misc.py'), ('call2what', 'whatami/whatutils.py')], observe=['call_dict', 'call2what'])

p('C25', 'Lazy imports pick the first importable variant and fail only on use',
  'maybe_import returns the first of the given variants (the library itself if none is given) that can be imported; if none can, it does not raise but any attribute access on the result raises ImportError '
  'naming the library. maybe_import_member returns the member, None when failing is not wanted and the module is missing, and raises ImportError otherwise.',
  ['inputs', 'fault_sequences'], 'All combinations of importable and missing variants up to the stated number, all library names.',
  'Tests import one missing and one present library.',
  ['whatami/misc.py'], [('_LazyImportError, maybe_import, maybe_import_member', 'whatami/misc.py')], observe=['maybe_import', 'maybe_import_member'])

p('C26', 'Positional ids list exactly the identifying values in key order',
  'positional_id has the name and output name of the configuration and, for each identifying parameter (or for all when asked) in sorted key order, exactly one value, rendered as in the full id.',
  ['inputs'], 'All configurations over the documented value domain, nested ones included, all non-id subsets.',
  'One test with a flat configuration.',
  ['whatami/what.py'], [('positional_id', 'whatami/what.py')], observe=['What.positional_id'])

p('C27', 'Class-wide decorators apply to every override, in order, and nothing else',
  'A metaclass made by decorate_some applies, to each named method defined in the class body of each derived class, the given decorators in order, leaving other attributes untouched; '
  'ensure_has_positional_args returns the function unchanged when it has all the requested required parameters and raises otherwise.',
  ['inputs', 'programs'], 'All subsets of defined methods and decorators up to the stated number, all parameter-name sets.',
  'Doctests use one hierarchy.',
  ['whatami/misc.py', 'whatami/registry.py'], [('decorate_some, ensure_has_positional_args, required_args', 'whatami/misc.py')], observe=['decorate_some', 'ensure_has_positional_args', 'required_args'])

p('C28', 'Objects in configurations are rendered as what describes them',
  'Wherever a value appears in a configuration (parameter, element of a list, tuple, set or frozenset, dict key or value, nested configuration), it is rendered as what describes it: an object with a '
  'what() that gives a configuration as that configuration at the moment, a function, partial or curry as its name with its bound arguments, elements of types derived from builtins by the name of their type and their content, '
  'and an object without any description as its class name only, so that no memory address is ever part of an id; other objects are rendered as their own text. '
  'An object is whatable exactly when its what() can be called without arguments and gives a configuration (a class, when its what is marked by whatable).',
  ['inputs', 'configurations'], 'All the kinds of objects and places listed in the bounds, with any contents, nested and chained to the stated depth.',
  'Tests render a handful of objects, mostly as direct parameters.',
  ['whatami/plugins.py', 'whatami/what.py'], [('whatable_plugin, partial_plugin, function_plugin, anyobject0x_plugin, anyobject_plugin', 'whatami/plugins.py'), ('is_whatable, whatareyou', 'whatami/what.py')],
  observe=['What.id()', 'is_whatable'])

p('C29', 'Whatamising adds a description and touches nothing else',
  'whatable applied to an object or class gives back that very object or class, made whatable (its what() describes the object with its state at the moment, honouring non-id keys or the given function), '
  'and leaves its attributes, its other methods, its class and other instances as they were. An attribute or method called what that is not a description is never replaced: the call is refused, '
  'or the method kept and marked when forced. whatamize_object assigns the given what to the object or to the object with that qualified name, keeps an existing one unless forced, and '
  'raises ImportError for missing modules unless told not to fail. FunctionLike objects are described by their class name and public attributes.',
  ['inputs', 'programs', 'histories'], 'All kinds of objects and classes listed in the bounds, any attribute values and options.',
  'Tests whatamise three objects and look at their ids, not at what else changed.',
  ['whatami/what.py', 'whatami/whatutils.py'], [('whatable', 'whatami/what.py'), ('whatamize_object, FunctionLike', 'whatami/whatutils.py')], observe=['whatable', 'whatamize_object', 'what()'])

p('C30', 'Recorder queries give exactly what was recorded',
  'For a recorder, get(*ids) and [id] give the records added with those ids, in the order asked, and nothing for ids never added; len gives the number of records; unique(column) gives the set of values '
  'of that column in the records that have it; to_df() has one row per record in insertion order and one column per attribute, with the values of the records. Queries change nothing.',
  ['histories', 'inputs'], 'All records, ids and columns up to the stated numbers.',
  'Tests query a recorder with two records.',
  ['whatami/registry.py'], [('Recorder.get, __getitem__, __len__, unique, to_df', 'whatami/registry.py')], observe=['Recorder.get', 'Recorder.unique', 'Recorder.to_df'])

p('C31', 'Inspection helpers describe classes, constructors, packages and experiments',
  'all_subclasses gives exactly the classes that derive, directly or not, from a class; fqn gives the module and qualified name of an object (or of its class); init_argspec gives the arguments, variable arguments, '
  'defaults and required arguments (without self) of the constructor; import_submodules gives the package and all of its modules that can be imported, by full name (those within subpackages only if asked), leaving out '
  'the ones that fail to import or, if asked, raising their error; what2id gives None for None, strings as they are, and otherwise the id of the object; mlexp_info_helper gives the documented entries in order, '
  'with setups replaced by their ids.',
  ['inputs', 'programs', 'fault_sequences'], 'All class hierarchies, signatures, package trees with broken modules and descriptions up to the stated sizes.',
  'Tests and doctests look at one hierarchy and at the packages of whatami itself.',
  ['whatami/misc.py', 'whatami/whatutils.py'], [('all_subclasses, fqn, init_argspec, import_submodules, mlexp_info_helper', 'whatami/misc.py'), ('what2id', 'whatami/whatutils.py')],
  observe=['all_subclasses', 'fqn', 'init_argspec', 'import_submodules', 'what2id', 'mlexp_info_helper'])

p('C32', 'Arrays, tables and random generators are identified by type and content',
  'Numpy arrays, pandas data frames and series, and numpy RandomState generators are shown, wherever they are in a configuration (parameter, element, dict value, nested configuration), as the name of their class with a hash of what they '
  'hold: ndarray(hash=...), DataFrame(hash=...), Series(hash=...), RandomState(state=...). The hash is the same for the same class, element type, shape and content (for tables also index, column names and name; for generators the '
  'whole state), and another one whenever any of these differ, whether the data is contiguous, strided, transposed, a view or a copy. Showing them changes nothing and drawing numbers changes the id of a generator. '
  'Memory-mapped arrays are as arrays when the hash is told to coerce them, and differ otherwise. When numpy or pandas are not installed, has_numpy and has_pandas are False and all other values are shown as usual.',
  ['inputs', 'configurations', 'fault_sequences'], 'All arrays, tables and generators of the stated types, shapes and layouts, with any contents.',
  'The suite has one hard-coded digest per kind; that equal contents agree and that different ones differ, over all contents, types and layouts, is not tested.',
  ['whatami/plugins.py', 'whatami/minijoblib/hashing.py'], [('numpy_plugin, rng_plugin, pandas_plugin, has_numpy, has_pandas', 'whatami/plugins.py'), ('NumpyHasher', 'whatami/minijoblib/hashing.py')],
  observe=['What.id()', 'hashing.hash', 'has_numpy', 'has_pandas'])

p('C33', 'Threads that parse, show or describe at the same time do not interfere',
  'Ids parsed in several threads at the same time (new or old ids, valid or not, with the default or with a shared parser or visitor) give in each thread the configuration or the error they give alone. The same goes for what else '
  'only reads: ids, positional ids, flattening, copies and comparisons of a configuration used by several threads, descriptions of objects, functions and calls, conversions of ids, content hashes, and recorders of their own in each thread. '
  'Nothing waits forever and no configuration changes.',
  ['schedules', 'inputs'], 'All the schedules of two (or three) threads with up to the stated number of changes of thread, at any statement of whatami and any step of the parser.',
  'The suite never runs two threads; interference needs a change of thread at a particular step.',
  ['whatami/parsers.py', 'whatami/what.py', 'whatami/whatutils.py', 'whatami/plugins.py'], [('parse_whatid and the shared parser and visitor', 'whatami/parsers.py'), ('oldid2what', 'whatami/whatutils.py'), ('What.id, WhatamiPluginManager.build_string', 'whatami/what.py, whatami/plugins.py')],
  [('DEFAULT_WHATAMI_PARSER, DEFAULT_WHATAMI_VISITOR', 'shared parser and visitor', 'whatami/parsers.py'), ('OLD_WHATID_PARSER', 'shared parser of old ids', 'whatami/whatutils.py')],
  observe=['parse_whatid', 'oldid2what', 'What.id()', 'hasher'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as fh:
    for x in P:
        fh.write(json.dumps(x, ensure_ascii=False) + '\n')
print(len(P), 'properties')
