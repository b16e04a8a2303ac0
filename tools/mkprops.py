"""Writes /verif/properties.jsonl (kept as code so that edits stay valid JSON)."""
import json, sys
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=None)))

p('C01', 'Equality, inequality and hashing of datashapes are coherent',
  'For all datashape objects, == is reflexive, symmetric and transitive, != is its negation, and equal objects (including a fixed dimension and the integer it equals) have equal hashes no matter in which order they were hashed or compared. Two datashapes are equal exactly when they have the same dimensions and the same kind of measure with equal parameters, a bare measure being equal to the dimensionless datashape that wraps it. Comparing with an object that is not a datashape gives False instead of raising.',
  ['inputs', 'histories'], 'all triples of datashape objects of every type constructor, any nesting depth and width, whether or not their hash was computed before',
  'Tests compare a dozen hand-picked pairs; an equivalence law quantifies over all triples, and hash/eq agreement over all equal pairs.',
  ['datashape/coretypes.py', 'datashape/typesets.py'],
  [('Mono.__eq__/__ne__/__hash__/info/parameters', 'datashape/coretypes.py'), ('Fixed.__eq__', 'datashape/coretypes.py'), ('TypeSet.__eq__/__hash__', 'datashape/typesets.py')],
  [('_hash', 'cached hash value', 'Mono.__hash__')], ['a == b', 'a != b', 'hash(a)'])

p('C02', 'Pickling, copying and rebuilding from parameters preserve a datashape',
  'Restoring the pickled or copied state of any datashape object gives an object of the same class with the same parameters, equal to the original. Calling the class of a datashape object with that object\'s parameters rebuilds an equal object, for every class except the registered primitive types (which are singletons) and type sets.',
  ['inputs'], 'all datashape objects of every type constructor and nesting',
  'Tests pickle one record; the guarantee is over every constructor and every parameter value.',
  ['datashape/coretypes.py'],
  [('Mono.__getstate__/__setstate__/parameters', 'datashape/coretypes.py'), ('DataShape.__setstate__', 'datashape/coretypes.py'), ('constructors', 'datashape/coretypes.py')],
  [], ['pickle.loads(pickle.dumps(ds))', 'type(ds)(*ds.parameters)'])

p('C03', 'Constructors accept exactly the well-formed parameters',
  'A datashape can only be built from datashape components: all elements but the last must not be measures and the last must not be a dimension, integers become fixed dimensions, and anything else raises instead of producing an object. Fixed dimensions hold a non-negative integer, type variables start with a capital letter, record field names are distinct and kept in the given order with their types, time zones and physical units are strings, tuple members are full datashapes. A constructed object stores exactly the parameters it was given, in canonical form.',
  ['inputs'], 'all argument tuples of every type constructor',
  'Tests try a handful of bad arguments per constructor; the invariant is over every argument combination and position.',
  ['datashape/coretypes.py'],
  [('DataShape.__init__', 'datashape/coretypes.py'), ('_launder', 'datashape/coretypes.py'), ('Fixed/TypeVar/Record/Tuple/Time/DateTime/Units/Option/Map.__init__', 'datashape/coretypes.py')],
  [], ['DataShape(*dims)', 'Record(fields)', 'Fixed(n)', 'TypeVar(s)'])

p('C04', 'Dimension arithmetic: multiplying prepends, subarray drops',
  'Multiplying an integer or a dimension onto a datashape gives the datashape whose dimensions are the left operand followed by the right operand\'s dimensions, with the right operand\'s measure; a left operand that already has a measure is rejected with TypeError. shape, measure, length and indexing of a datashape describe that same sequence, and subarray(k) of a datashape with n dimensions drops exactly its first k dimensions for 0 <= k <= n and raises IndexError for larger k. None of these operations changes its operands.',
  ['inputs'], 'all datashapes with any number of dimensions, all dimensions and all integers',
  'Tests use two or three dimensions; the law is over every length and position.',
  ['datashape/coretypes.py'],
  [('Mono.__mul__/__rmul__, DataShape.__rmul__', 'datashape/coretypes.py'), ('subarray', 'datashape/coretypes.py'), ('DataShape.shape/measure/__len__/__getitem__', 'datashape/coretypes.py')],
  [], ['n * ds', 'ds.subarray(k)', 'ds.shape', 'ds.measure'])

p('C05', 'subshape gives the datashape of the indexed data',
  'Indexing a datashape with subshape gives the datashape that indexing the described data would have: an integer removes the leading dimension, a slice of a fixed dimension of size n leaves as many elements as the slice selects out of range(n), a list leaves its length, a field name or position selects the type of that record field, and a list or slice on a record selects those fields in that order. A tuple applies its entries to successive dimensions and None adds a dimension of size 1, while the untouched dimensions and fields stay as they were. (Slices are of fixed dimensions; a dimension that is a type variable has no defined indexing.)',
  ['inputs'], 'all datashapes and all index expressions made of integers, slices (any start, stop, step), lists, field names, None and tuples of them',
  'Doctests try about a dozen index expressions; slice arithmetic has to hold for every start, stop, step and size.',
  ['datashape/coretypes.py'], [('DataShape._subshape', 'datashape/coretypes.py'), ('IndexCallable', 'datashape/internal_utils.py')], [], ['ds.subshape[index]'])

p('C06', 'NumPy dtypes and datashapes convert faithfully',
  'Converting a NumPy shape and dtype to a datashape and back returns the same shape and dtype, for booleans, integers, floats, complex numbers, fixed-length byte and unicode strings and packed records of these with non-empty field names, all in native byte order. Converting a datashape to NumPy keeps every fixed dimension in order, maps type-variable dimensions to -1 and rejects other dimensions with TypeError; a decimal always maps to a dtype that can hold every value of its precision, or raises. Optional types convert only where NumPy has a missing value of that type.',
  ['inputs'], 'all shapes, all supported dtypes, all datashapes',
  'Tests cover a few dtypes and one decimal per range; the mapping must hold for every size, precision, scale and nesting.',
  ['datashape/coretypes.py'],
  [('to_numpy, to_numpy_dtype, from_numpy', 'datashape/coretypes.py'), ('CType.from_numpy_dtype', 'datashape/coretypes.py'), ('*.to_numpy_dtype', 'datashape/coretypes.py')], [], ['to_numpy(ds)', 'from_numpy(shape, dtype)'])

p('C07', 'Type promotion is commutative, idempotent and keeps optionality',
  'Promoting two types gives the same type in either order, promoting a type with itself gives that type, and for numeric types the result is the type NumPy promotes them to. With option promotion on, the result is optional exactly when at least one operand is optional (never doubly optional); with it off, promoting two different types gives a non-optional type. String with string promotes to string.',
  ['inputs'], 'all pairs of scalar types, optional or not, with and without option promotion',
  'Tests list about twenty pairs; the laws are over all pairs.',
  ['datashape/promote.py', 'datashape/coretypes.py'], [('promote, optionify', 'datashape/promote.py'), ('CType.from_numpy_dtype', 'datashape/coretypes.py')], [], ['promote(a, b)', 'optionify(a, b, c)'])

p('C08', 'Type sets, supertypes and maximum types are consistent',
  'Membership, iteration, length and union of type sets agree with the sets of types they were made of, and equal type sets hash equally. The supertype of a numeric type is the family that contains it, and its maximum type is the widest member of that same family; decimals and time deltas are their own maximum, an optional type gives the optional of the result, and every other type than a type set is rejected. Matching argument types against a signature succeeds exactly when every argument equals, or is a member of, the corresponding parameter.',
  ['inputs'], 'all types, optional or not, all type sets and all signatures of the same length',
  'Tests touch a few members; the statement quantifies over all measures including parameterised ones and over all tuples of types.',
  ['datashape/typesets.py'], [('TypeSet', 'datashape/typesets.py'), ('matches_typeset, supertype, maxtype', 'datashape/typesets.py')], [('registry', 'named type sets', 'datashape/typesets.py')], ['maxtype(t)', 'supertype(t)', 't in ts'])

p('C09', 'Discovery describes the size, structure and missing values of the data',
  'Discovering a non-empty list, tuple or set of n items gives either a datashape whose leading dimension is exactly n, or the tuple of the n items\' discovered types in order when they cannot be unified; an empty one gives a variable-length dimension. Discovering a mapping gives a record with exactly its keys (sorted, or in insertion order for ordered mappings) and the discovered type of each value, and booleans, integers, floats, dates, times and None are discovered as their own types. Discovery never fails on a string, whatever its contents.',
  ['inputs'], 'all nested Python data made of scalars, strings, sequences and mappings',
  'Tests discover a few small literals; size and structure claims are over all lengths, nestings and string contents.',
  ['datashape/discovery.py'], [('discover overloads', 'datashape/discovery.py'), ('unite_identical, unite_merge_dimensions, do_one', 'datashape/discovery.py'), ('deltaparse, timeparse', 'datashape/discovery.py')], [], ['discover(data)'])

p('C10', 'Unifying types gives the least general type that covers all of them',
  'Unifying known scalar types gives a type that every one of them can be converted to, and no strictly more specific type has that property; the answer does not depend on the order of the types or on hash order, and types with no known common generalisation are rejected. When unifying columns, the result is optional exactly when a null occurs among the inputs (and null when all are null), its leading dimension is the number of inputs, and differing dimension sizes become variable while equal ones are kept. Unifying records never drops or renames a field.',
  ['inputs', 'configurations'], 'all non-empty lists of types (any order, any repetition), any hash seed',
  'Tests unify two or three lists; the lattice and null rules quantify over all multisets, and hash-order dependence cannot be seen in one run.',
  ['datashape/discovery.py', 'datashape/internal_utils.py'], [('lowest_common_dshape, descendents, unite_base, unite_identical, unite_merge_dimensions', 'datashape/discovery.py')], [('edges, toposorted', 'conversion order', 'datashape/discovery.py')], ['unite_base(types)', 'lowest_common_dshape(types)'])

p('C11', 'The lexer accounts for every character and classifies tokens by the grammar',
  'For every input string the lexer terminates and yields tokens in order whose spans do not overlap, where each token\'s text matches the documented pattern of its kind, its value is the text for names, the integer for integers, the unescaped text for strings and the truth value for booleans, and everything between tokens is whitespace or comments. If some position starts no token, a datashape syntax error pointing at that position is raised and no character is ever skipped silently. A name that merely begins with True or False is a name.',
  ['inputs'], 'all strings',
  'Tests lex a few sample strings per token kind; the partition property is over all strings.',
  ['datashape/lexer.py'], [('lex', 'datashape/lexer.py'), ('_tokens, _whitespace', 'datashape/lexer.py')], [], ['lexer.lex(s)'])

p('C12', 'The parser accepts only sentences of the grammar and gives them their meaning',
  'A string is accepted only if its whole token sequence is a sentence of the documented datashape grammar (a trailing comma in a bracketed, braced or parenthesised list is tolerated), and the result is the type the grammar assigns to it: dimensions in order, then the measure, options where the question mark stands, fields and arguments in source order. A missing type after a question mark, a dimension without its asterisk, or trailing tokens are errors, and every rejection raises an exception instead of returning a partial result. Parsing never loops forever.',
  ['inputs'], 'all token sequences, all symbol tables',
  'Tests parse sample sentences and a few broken ones; soundness is over all token sequences.',
  ['datashape/parser.py', 'datashape/type_symbol_table.py'], [('DataShapeParser.parse_*', 'datashape/parser.py'), ('parse', 'datashape/parser.py'), ('symbol table', 'datashape/type_symbol_table.py')], [('pos, tokens, end_pos', 'token cursor', 'DataShapeParser')], ['dshape(s)'])

p('C13', 'Printing a datashape and parsing the text gives the datashape back',
  'For every datashape that the parser can produce from text, str() and pprint() at any width terminate without error and parse back to an equal datashape, whatever the field names, string parameters, time zones, units, nesting and number of dimensions or fields. Categorical types with more than ten categories are the only exception, being abbreviated on purpose.',
  ['inputs'], 'all parseable datashapes, all print widths',
  'Tests round-trip a dozen datashapes at one width; field names are arbitrary strings and nesting is unbounded.',
  ['datashape/coretypes.py', 'datashape/parser.py', 'datashape/lexer.py', 'datashape/internal_utils.py', 'datashape/type_symbol_table.py'], [('*.__str__, pprint', 'datashape/coretypes.py'), ('isidentifier', 'datashape/internal_utils.py'), ('parse', 'datashape/parser.py')], [], ['dshape(str(ds)) == ds', 'dshape(pprint(ds, width)) == ds'])

p('C14', 'A datashape has at most one ellipsis and never one as its measure, at any depth',
  'Whenever a string or a component list is turned into a datashape, the result contains at most one ellipsis among the dimensions of each datashape in it and no ellipsis in measure position, however deeply that datashape is nested inside records, tuples, options, maps or function signatures. Otherwise an error is raised, and datashapes that satisfy this are accepted unchanged.',
  ['inputs'], 'all datashape strings and component lists, any nesting',
  'Tests check top-level ellipses only; the rule is about every nested position.',
  ['datashape/validation.py', 'datashape/util/__init__.py'], [('validate, traverse, _validate', 'datashape/validation.py'), ('dshape', 'datashape/util/__init__.py')], [], ['dshape(x)'])

p('C15', 'Structural predicates agree with the structure they describe',
  'isscalar, isrecord, istabular, iscollection, isnumeric, isreal, isboolean, isdatelike and isdimension give the answer that the structure of their argument determines: they look through a dimensionless wrapper and through an option at the measure, judge the same whether given a string or the datashape it denotes, and never raise on a datashape. isfixed is true only if no dimension anywhere in the leading dimensions, record fields or tuple members is variable, ellipsis or a type variable, and is false whenever a variable dimension is reached first.',
  ['inputs'], 'all datashapes',
  'Doctests show two or three examples each; the equivalence with the structural definition is over all datashapes.',
  ['datashape/predicates.py'], [('predicates', 'datashape/predicates.py'), ('launder', 'datashape/predicates.py')], [], ['isscalar(ds)', 'isfixed(ds)', 'istabular(ds)'])

p('C16', 'Searches over a datashape visit every component',
  'has_var_dim is true exactly when a variable or ellipsis dimension occurs anywhere in the datashape, and has_ellipsis exactly when an ellipsis does, at any nesting inside records, tuples, options, maps and functions. Collecting by a predicate returns, in order, exactly the outermost components that satisfy it and terminates without error on every datashape; a datashape is homogeneous exactly when its scalar components (type variables count as scalars), dimensions aside, are all the same single type.',
  ['inputs'], 'all datashapes, all predicates',
  'Tests try a dozen datashapes; completeness of a traversal is over all shapes and depths.',
  ['datashape/util/__init__.py', 'datashape/predicates.py'], [('has, has_var_dim, has_ellipsis, collect', 'datashape/util/__init__.py'), ('ishomogeneous', 'datashape/predicates.py')], [], ['has_var_dim(ds)', 'collect(pred, ds)'])

p('C17', 'assert_dshape_equal passes exactly on equal datashapes',
  'With default options assert_dshape_equal returns normally if and only if the two datashapes are equal, and otherwise raises AssertionError and nothing else. Turning off one check (dimensions, time zone, timedelta unit, string encoding, string length, record order) ignores exactly that difference, at every nesting level where the compared parts are wrapped the same way, and still reports every other difference.',
  ['inputs', 'configurations'], 'all pairs of datashapes, all combinations of options',
  'Tests check a few pairs per type; a helper that silently passes on unequal datashapes is invisible unless all difference positions are tried.',
  ['datashape/util/testing.py'], [('assert_dshape_equal overloads', 'datashape/util/testing.py')], [], ['assert_dshape_equal(a, b, **options)'])

p('C18', 'Graph helpers: topological sort, grouping, closure',
  'The topological sort returns every node exactly once with every edge pointing forward, and raises ValueError exactly when the graph has a cycle. groupby partitions its input by key, keeping the order within each group and losing or inventing nothing, reverse_dict reverses exactly the given edges, and descendents returns exactly the nodes reachable from the start (itself included), cycles or not. remove keeps exactly the items that fail the predicate, in order.',
  ['inputs'], 'all finite graphs, sequences and key functions',
  'Doctests use one graph each; correctness is over all graphs.',
  ['datashape/internal_utils.py', 'datashape/discovery.py'], [('_toposort, reverse_dict, groupby, remove', 'datashape/internal_utils.py'), ('descendents', 'datashape/discovery.py')], [], ['_toposort(edges)', 'groupby(f, seq)', 'descendents(d, x)'])

p('C19', 'Syntax errors point at the offending character',
  'For every source text and offset within it, a datashape syntax error reports the 1-based line number of the line containing that offset, exactly the text of that line without its line break, and the column of the offset within that line, so that the caret in its message stands under the offending character. Building and printing the error never fails, whatever the text contains.',
  ['inputs'], 'all texts and all offsets from 0 to its length',
  'Tests look at single-line inputs; line arithmetic has to hold for every position in every multi-line text, including next to line breaks.',
  ['datashape/error.py', 'datashape/parser.py', 'datashape/lexer.py'], [('DataShapeSyntaxError.__init__/__str__', 'datashape/error.py'), ('raise_error', 'datashape/parser.py')], [], ['e.lineno', 'e.col_offset', 'e.line', 'str(e)'])

p('C20', 'Concatenating datashapes adds the leading sizes and nothing else',
  'Concatenating a non-empty list of datashapes gives the datashape whose leading fixed dimension is the sum of the leading sizes and whose remaining dimensions and measure are those of every input. If any input differs after the first dimension ValueError is raised, if a leading dimension has no known size TypeError is raised, an empty list raises ValueError, and a single datashape is returned as it is.',
  ['inputs'], 'all lists of datashapes',
  'Tests concatenate two datashapes; the mismatch may be in any position of a list of any length.',
  ['datashape/util/__init__.py'], [('cat_dshapes', 'datashape/util/__init__.py')], [], ['cat_dshapes(list)'])

p('C21', 'Value validation follows the schema at every level',
  'For plain Python values and schemas made of fixed and variable dimensions, records, primitive types, strings and dates (no options): validating a sequence against a dimension succeeds only if a fixed dimension equals its length and every item validates against the rest of the schema; a record validates a mapping or sequence only if every field\'s value validates against that field; strings, dates, times and datetimes validate against their own types. Validating against a tuple of schemas succeeds exactly if one of them does, and one schema is a subschema of another exactly when they are equal.',
  ['inputs'], 'all schemas and all nested values',
  'Tests validate a few literals (most are skipped with this NumPy); the rule must hold for every position of every nested value.',
  ['datashape/user.py'], [('validate overloads', 'datashape/user.py'), ('issubschema', 'datashape/user.py')], [], ['validate(schema, value)', 'issubschema(a, b)'])

p('C22', 'Registered type names are never silently replaced',
  'Registering a type or a type set under a name that is already registered raises TypeError and leaves the earlier registration and everything else in the registry as it was. Registering under a new name makes exactly that name resolve to exactly that object, and looking up a name that was never registered raises KeyError.',
  ['inputs', 'histories'], 'all sequences of registrations and lookups',
  'Tests register one duplicate type set; the guarantee is over every history of registrations.',
  ['datashape/coretypes.py', 'datashape/typesets.py'], [('Type.register, Type.lookup_type', 'datashape/coretypes.py'), ('TypesetRegistry', 'datashape/typesets.py')], [('Type._registry', 'name to type', 'datashape/coretypes.py'), ('TypesetRegistry.registry', 'name to type set', 'datashape/typesets.py')], ['Type.register(name, t)', 'register_typeset(name, ts)'])

p('C23', 'Time units and string encodings are stored in canonical form',
  'Every accepted spelling of a time unit (abbreviation, singular, plural, surrounded by spaces) is stored as its canonical abbreviation and every other string is rejected with ValueError; canonical units are accepted unchanged. Every accepted spelling of a string encoding is stored as its canonical name and every other one is rejected with ValueError, whether given alone or with a length, and the length given is the length stored.',
  ['inputs'], 'all strings used as unit or encoding, all lengths',
  'Tests list the aliases and one bad unit; rejection has to hold for every other string, including empty ones and runs of plural endings.',
  ['datashape/coretypes.py'], [('normalize_time_unit', 'datashape/coretypes.py'), ('String.__init__', 'datashape/coretypes.py'), ('TimeDelta.__init__', 'datashape/coretypes.py')], [], ['TimeDelta(unit)', 'String(n, enc)'])

open('/verif/properties.jsonl', 'w').write(''.join(json.dumps(x) + '\n' for x in P))
print(len(P))
