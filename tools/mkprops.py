import json
P=[]
def p(id,title,st,over,text,why,files,mech,observe,state=()):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
PK='jsonpickle/pickler.py';UP='jsonpickle/unpickler.py';UT='jsonpickle/util.py';HD='jsonpickle/handlers.py';BK='jsonpickle/backend.py';TG='jsonpickle/tags.py';IN='jsonpickle/__init__.py'
p('C01','Built-in containers round-trip element for element',
 'Decoding the encoding of any value built from None, booleans, numbers, strings, lists, tuples, sets and string-keyed dicts (keys that do not spell a reserved tag) rebuilds the same container types. Every element and every key is present exactly once, in its original position, and belongs to the element it came from. Nothing is dropped, duplicated, reordered, coerced or replaced, whatever the size, depth or content of the container.',
 ['inputs'],'every nesting of the listed built-in types, of any size and depth',
 'Tests round-trip a few dozen hand-written literals; a branch that depends on size, depth, position or content of an element is reached only if a literal happens to hit it.',
 [PK,UP,UT],[('flatten dispatch','Pickler._flatten_impl / _get_flattener / _list_recurse / _flatten_dict_obj'),('restore dispatch','Unpickler._restore_tags / _restore_list / _restore_tuple / _restore_set / _restore_dict')],['jsonpickle.encode','jsonpickle.decode'])
p('C02','Instances are rebuilt with their class and their whole state',
 'Decoding the encoding of an importable-class instance gives an instance of the same class, created without dropping any of its state: every instance-dictionary attribute, every slot (including inherited and name-mangled slots), and for subclasses of list, set, dict or a named tuple also every element or item. Each attribute gets exactly the value it had.',
 ['inputs','programs'],'every user class of the listed shapes and every attribute name and value',
 'Classes are written by users; the tests hold one class per shape and never a combination with an unusual name, position or size.',
 [PK,UP,UT],[('object flattening','Pickler._flatten_obj_instance / _flatten_newstyle_with_slots / _flatten_sequence_obj'),('object restore','Unpickler._restore_object_instance / _restore_from_dict')],['jsonpickle.encode','jsonpickle.decode'])
p('C03','The pickle protocol hooks are obeyed symmetrically',
 'For a class defining __reduce__/__reduce_ex__ (two to six elements or a dotted global name), __getstate__ with or without __setstate__, __getnewargs__ or __getnewargs_ex__, decoding calls what pickle would: the reduce callable with the reduce arguments, __new__ with the saved arguments, then the state through the state setter, __setstate__ or the instance dictionary, then the list items and the dict items. Each element the hooks returned arrives once, unchanged and in its own role.',
 ['inputs','programs'],'every combination of hooks and every value they return',
 'The six reduce positions, four state styles and three constructor styles multiply; tests cover selected diagonals.',
 [PK,UP,UT],[('hook detection','util.has_reduce / has_method'),('reduce encoding','Pickler._flatten_obj_instance'),('reduce decoding','Unpickler._restore_reduce / _restore_state / _restore_object_instance')],['jsonpickle.encode','jsonpickle.decode'])
p('C04','Shared and cyclic references resolve to the object that was meant',
 'With references enabled, if the same list, dict or instance is reachable in several ways in the encoded graph, including through a cycle, the decoded graph has one object reachable in exactly the same ways. Every reference in the document resolves to the object it was written for, whatever kinds of value come before it in the document.',
 ['inputs'],'every object graph: the number given to an object depends on everything encoded before it',
 'Reference numbers are positions in two independently maintained tables; one kind numbered on one side only shifts all later references, so only a document with that kind before a repeated object shows it.',
 [PK,UP],[('encoder numbering','Pickler._log_ref / _mkref / _getref'),('decoder numbering','Unpickler._mkref / _swapref / _restore_id')],['jsonpickle.encode','jsonpickle.decode'],
 [('encoder reference table','object identity to reference number','pickler.Pickler'),('decoder reference table','reference number to restored object','unpickler.Unpickler')])
p('C05','Encoding a cyclic graph terminates in every reference mode',
 'Encoding an object graph that contains itself through lists, dicts, instances (plain, slotted, or subclasses of dict and list), object state or reduce results terminates with a finite document, for every combination of unpicklable and make_refs. Each cycle is closed by a reference, by a null or by a textual representation, never by unbounded recursion.',
 ['inputs','configurations'],'every cyclic graph and the four combinations of unpicklable and make_refs',
 'Tests hold a handful of cycles, mostly in the default mode.',
 [PK],[('cycle detection','pickler._in_cycle / Pickler._mkref / _ref_obj_instance / _get_flattener')],['jsonpickle.encode'])
p('C06','No internal placeholder survives in a decoded result',
 'After decode returns, no position of the result that held a reference to an object still under construction holds an internal stand-in: every list element, dict value and instance attribute refers to the finished object.',
 ['inputs'],'every document with forward or self references, in every position and with keys on or off',
 'Stand-ins exist only while a hook-built object refers to itself; the tests reach three positions of the many that can hold one.',
 [UP],[('deferred replacement','Unpickler._proxies / _swap_proxies')],['jsonpickle.decode'])
p('C07','keys=True preserves every dictionary key',
 'With keys=True on both sides, a dict (or dict subclass) round-trips with exactly its original keys, each with its original type and value and paired with its own value: non-string keys, strings that look like reserved tags, and strings that begin with the escape prefix included. Values shared between keys, values and the rest of the graph stay shared.',
 ['inputs','configurations'],'every mix of ordinary, colliding and non-string keys in one dict',
 'Each key class is handled in a different phase on each side; tests put one or two classes in a dict and do not share values across the phases.',
 [PK,UP,TG],[('key escaping','Pickler._flatten_string_key_value_pair / _flatten_non_string_key_value_pair / _escape_key'),('key restore','Unpickler._restore_pickled_key / _restore_dict / _restore_from_dict')],['jsonpickle.encode','jsonpickle.decode'])
p('C08','User data cannot impersonate a tag',
 'A dict or an instance attribute name supplied by the user never acts as one of the tags the decoder interprets: for every tag the decoder gives a meaning to, an entry with that name is either left out of the document or escaped, in every place where user-chosen names enter it. Decoding therefore never turns plain user data into another kind of object.',
 ['inputs'],'every tag name the decoder reacts to, in every position where user-chosen keys are written',
 'It needs a user key for each tag in each writer; tests use a couple of tags.',
 [TG,PK,UP,UT],[('reserved set','tags.RESERVED'),('guard','util._is_picklable')],['jsonpickle.encode','jsonpickle.decode'])
p('C09','unpicklable=False writes no reconstruction tags',
 'With unpicklable=False the document holds none of the tags that record a class, a reduce result, a reference number, a function, a module, a tuple, a set, a state or a sequence payload. An instance is written as its plain attributes or state, a tuple or set as a list.',
 ['inputs','configurations'],'every value, under unpicklable=False with every other option',
 'Every writer has to consult the option; tests look at a few outputs.',
 [PK,HD],[('option guard','Pickler._flatten_obj_instance / _get_flattener / _getstate / _flatten_sequence_obj')],['jsonpickle.encode'])
p('C10','Binary data survives in both text encodings',
 'bytes and bytearray values decode to an equal value of the same type, with use_base85 on or off, at any depth, as dict value, element, key or attribute. The tag written always names the codec that was used, and the reader of each tag applies the inverse codec.',
 ['inputs','configurations'],'every byte string, both codecs, bytes and bytearray',
 'Tests use short ASCII strings where several wrong codecs agree.',
 [PK,UP,UT,TG],[('codec choice','Pickler.__init__ / _flatten_bytestring / _flatten_impl'),('codec readers','Unpickler._restore_base64 / _restore_base85 / _restore_bytearray')],['jsonpickle.encode','jsonpickle.decode'])
p('C11','Encoding and decoding do not modify their input',
 'encode leaves the object graph it is given as it was: no attribute, item, element, slot or class attribute is set, deleted, reordered or replaced. Restoring leaves the already parsed data it is given unmodified, so it can be restored again with the same result. (The effects of hooks the classes define themselves are excepted.)',
 ['inputs','configurations'],'every graph and every option combination',
 'Tests compare the output, hardly ever the input afterwards.',
 [PK,UP,UT,HD,'jsonpickle/ext/numpy.py','jsonpickle/ext/pandas.py'],[('pure traversal','pickler.Pickler'),('fresh containers','unpickler.Unpickler')],['jsonpickle.encode','Unpickler.restore'])
p('C12','Independent calls do not influence each other',
 'The result of an encode or decode call with no caller-supplied context depends only on its arguments, the handler registry and the backend configuration, never on earlier or concurrent calls, also not on calls that failed. A context object used again with reset on starts from the same state as a new one.',
 ['histories','schedules','fault_sequences'],'every sequence and interleaving of calls, including calls that raise',
 'Leaked state needs a particular earlier or concurrent call; tests run each case on its own.',
 [PK,UP,HD,UT,BK],[('fresh context','pickler.encode / unpickler.decode'),('reset','Pickler.reset / Unpickler.reset')],['jsonpickle.encode','jsonpickle.decode'],
 [('traversal state','tables that live as long as one traversal','Pickler / Unpickler')])
p('C13','Short-lived objects are never confused with each other',
 'Objects that exist only while they are being encoded (produced by iterators, properties, hooks or handlers) are each encoded as themselves. An object is never encoded as, or as a reference to, another object whose memory it happens to reuse.',
 ['inputs','schedules'],'every value produced on the fly, under every allocator behaviour',
 'It depends on the allocator reusing an address, which a test cannot force.',
 [PK,'jsonpickle/ext/numpy.py'],[('keeping objects alive','Pickler._flatten_obj / Pickler._flatten')],['jsonpickle.encode'],
 [('identity-keyed tables','entries keyed by id() are valid only while the object is alive','Pickler')])
p('C14','Safe decoding never evaluates text as code',
 'With safe left at its default, or set to True, the code of decode itself (the library and its handlers) never passes any part of the document to eval, exec or compile, whatever the document contains. Callables that a document names through its function, type and reduce tags are called as pickle would call them and are not meant here. safe=True is the default of every entry point, and only an explicit safe=False reaches the evaluating reader.',
 ['inputs','configurations'],'every document and every way of calling with safe on',
 'A test shows that one payload is not evaluated, not that no path exists.',
 [UP,UT,HD],[('guard','Unpickler._restore_tags'),('the only evaluator','unpickler.loadrepr')],['jsonpickle.decode'])
p('C15','Every option reaches the code it controls, with its documented default',
 'Each documented argument of encode and decode takes effect exactly as given when the call builds its own context; none is ignored, swapped, negated or replaced by another. Defaults agree between the functions and the context classes, and indent and separators reach the JSON backend.',
 ['configurations'],'every argument, every value, every combination',
 'Options are plumbed through several hops by name; a test per option at one value misses a hop that only matters for another.',
 [PK,UP,BK],[('plumbing','pickler.encode / Pickler.__init__ / unpickler.decode / Unpickler.__init__ / JSONBackend.encode')],['jsonpickle.encode','jsonpickle.decode'])
p('C16','JSON backends are tried in preference order',
 'Encoding and decoding use the first loaded backend in preference order that succeeds. With fallthrough on, a failing backend passes to the next one and the last failure is raised when all fail; with fallthrough off only the preferred backend is used and its failure is raised. Each call passes the object, the options configured for that backend and the call options, and no call changes the configured options.',
 ['inputs','fault_sequences','configurations'],'every set of loaded backends, every subset of them failing',
 'Installed backends rarely fail on the same input; tests have two or three of them.',
 [BK],[('failover loop','JSONBackend.encode / decode / backend_encode / backend_decode')],['JSONBackend.encode','JSONBackend.decode'])
p('C17','The set of loaded backends stays consistent',
 'After any sequence of loading, removing and preferring backends, a backend is listed as available exactly when its encoder, decoder and error type are installed. Removing one removes it completely, a load that fails leaves nothing of it behind, preferring one moves it to the front and keeps the others in order, and using an empty set reports an error.',
 ['histories','fault_sequences'],'every sequence of load, remove and prefer calls, including loads that fail half way',
 'Tests make two or three calls in one order.',
 [BK],[('bookkeeping','JSONBackend.load_backend / _store / remove_backend / set_preferred_backend')],['jsonpickle.load_backend','jsonpickle.remove_backend','jsonpickle.set_preferred_backend'])
p('C18','Handler lookup finds the registered handler and nothing else',
 'A registered handler is used for exactly its class, looked up by type or by importable name, and for subclasses only if registered with base=True; a direct registration takes precedence over one of a base class. Unregistering a class removes every trace of it, and registering something that is not a class is an error. Encoding and decoding consult the registry before any built-in treatment of instances.',
 ['histories','inputs'],'every sequence of register and unregister calls and every class hierarchy',
 'Tests register one or two classes.',
 [HD,PK,UP],[('registry','Registry.register / get / unregister'),('use','Pickler._flatten_obj_instance / Unpickler._restore_object')],['jsonpickle.register','jsonpickle.unregister','jsonpickle.encode','jsonpickle.decode'])
p('C19','Standard-library types with handlers keep their value',
 'array.array, datetime, date, time, compiled regular expressions, UUIDs and locks decode to an equal value: type code and elements, all fields and the time zone, pattern with its type and flags, the 128-bit value, the locked state. A default_factory of a defaultdict survives.',
 ['inputs'],'every value of these types',
 'Tests use a couple of values per type.',
 [HD,PK,UP],[('handlers','ArrayHandler / DatetimeHandler / RegexHandler / UUIDHandler / LockHandler'),('factories','Pickler._flatten_dict_obj / Unpickler._loadfactory')],['jsonpickle.encode','jsonpickle.decode'])
p('C20','Extension handlers read back every field they write',
 'For each numpy, pandas and gmpy handler, every field the encoding side can write that carries information is read by the decoding side, and every field the decoding side requires is written on every encoding path. Values nested in a field go through the matching pair of conversions, and installing then uninstalling an extension leaves the registry as it was.',
 ['inputs','configurations'],'every array layout, dtype, index kind and handler configuration',
 'Layouts, dtypes and thresholds multiply; tests sample them.',
 ['jsonpickle/ext/numpy.py','jsonpickle/ext/pandas.py','jsonpickle/ext/gmpy.py'],[('handler pairs','flatten / restore of each handler class'),('registration','register_handlers / unregister_handlers')],['jsonpickle.encode','jsonpickle.decode'])
p('C21','Handlers work inside the reference space of the call that uses them',
 'When a built-in or extension handler encodes or decodes nested values, objects shared between those values and the rest of the graph stay shared, and references after the handled object still resolve correctly. No handler starts a new reference space, and each nested value that takes part in the numbering on one side takes part in it on the other side.',
 ['inputs'],'every graph that shares objects across a handled value',
 'Only a graph that repeats an object after or inside a handled value shows it.',
 [HD,'jsonpickle/ext/numpy.py','jsonpickle/ext/pandas.py',PK,UP],[('nested calls','context.flatten(..., reset=False) / context.restore(..., reset=False)')],['jsonpickle.encode','jsonpickle.decode'])
p('C22','Excluded attributes never reach the document',
 'A name listed in a class\'s _jsonpickle_exclude is never written for instances of that class, with or without slots, for dict and sequence subclasses, when the state comes from __getstate__ as a dict, and when properties are included. Every attribute that is not listed is still written.',
 ['inputs','configurations'],'every class shape, exclude list and option',
 'One test class per shape at most.',
 [PK,UT],[('exclude plumbing','Pickler._flatten_obj_instance / _flatten_dict_obj / _flatten_obj_attrs / util.items')],['jsonpickle.encode'])
p('C23','fail_safe contains failures, and only when it is given',
 'With a fail_safe function, an ordinary exception raised while an object is being encoded is passed to that function, its return value stands for that object, and the rest of the document is complete. KeyboardInterrupt and SystemExit always propagate, and without fail_safe the original exception reaches the caller.',
 ['fault_sequences','inputs'],'every object whose encoding can raise, every exception type',
 'Tests raise one exception from one place.',
 [PK],[('containment','Pickler._flatten_obj')],['jsonpickle.encode'])
p('C24','Missing classes follow the on_missing policy without side effects',
 'When a class in the document cannot be found, the policy decides: ignore is silent, warn issues a warning, error raises the documented exception, a function is called once with the class name; policy names work in any letter case. Unless an exception is raised the object decodes to the plain dict that was in the document, and references in the rest of the document still resolve correctly.',
 ['inputs','configurations'],'every document with unresolvable classes at any place and every policy',
 'Tests decode one missing class at top level.',
 [UP,UT],[('policy','Unpickler._process_missing / _restore_object / unpickler.decode')],['jsonpickle.decode'])
p('C25','Caller-supplied classes win over imports',
 'Classes passed to decode, alone, in a list, tuple or set, or in a dict by name or by class, are used wherever the document names them, by full name or by last name component, for instances, types and named tuples, in preference to importing. They apply to that call only.',
 ['inputs','histories'],'every form of the argument and every place a class name can stand',
 'Tests use one form with instances.',
 [UP,UT],[('lookup','util.loadclass / Unpickler.register_classes')],['jsonpickle.decode'])
p('C26','Malformed tag payloads give a defined result',
 'A document whose tuple, set, iterator or reduce tag has a payload that cannot be iterated, whose base64 or base85 tag holds text that is no string or no valid encoding, or whose reference number is out of range or not a number, decodes to the documented empty value or None instead of raising. A repeated malformed tag does not disturb the rest of the document.',
 ['inputs'],'every payload value for the listed tags',
 'A fixed list of payloads is tried.',
 [UP,UT],[('containment','Unpickler._restore_tuple / _restore_set / _restore_iterator / _restore_reduce / _restore_base64 / _restore_base85 / _restore_id')],['jsonpickle.decode'])
p('C27','The document vocabulary does not change',
 'The tag and field names written for each kind of value, and the names accepted when reading, including those only older versions wrote, stay the same, so that documents stored earlier still decode. Each tag name denotes one kind of value and no two tags share a spelling.',
 ['inputs','histories'],'every document written by an earlier or later release',
 'Round-trip tests pass when writer and reader change together.',
 [TG,PK,UP,HD,'jsonpickle/ext/numpy.py','jsonpickle/ext/pandas.py','jsonpickle/ext/gmpy.py'],[('tag table','tags.*'),('dispatch','Unpickler._restore_tags')],['jsonpickle.encode','jsonpickle.decode'])
p('C28','handler_context reaches exactly the handlers that ask for it',
 'A handler_context that is not None and is given to encode, decode or a context object is passed to each custom handler whose flatten or restore accepts a parameter of that name, unchanged, at any depth of the graph. Handlers that do not accept it are called without it, and without a handler_context nobody gets one.',
 ['inputs','configurations'],'every handler signature and every position of the handled object',
 'Tests use one handler at top level.',
 [PK,UP,HD],[('delivery','Pickler._call_handler_flatten / Unpickler._call_handler_restore / handlers.handler_accepts_handler_context')],['jsonpickle.encode','jsonpickle.decode'])
p('C29','max_depth and max_iter bound the traversal',
 'With max_depth=n no container or instance nested deeper than n levels is expanded: it is written as its textual representation, and everything above that depth is written in full. With max_iter=m at most m items are taken from each iterator, and without it all of them are.',
 ['inputs','configurations'],'every graph and every bound',
 'Tests use one or two bounds on lists and dicts.',
 [PK],[('bounds','Pickler._push / _pop / _max_reached / _flatten_obj_instance')],['jsonpickle.encode'])
p('C30','Types, functions and modules decode to the same object',
 'A class, a module-level function or a module in the graph decodes to that same class, function or module, found by the qualified name that was written, also for nested classes and dotted modules. A lambda or other unpicklable function inside a container becomes null or is left out, and nothing else is.',
 ['inputs','programs'],'every importable class, function and module',
 'Tests name a few of them.',
 [PK,UP,UT],[('names','util.importable_name / loadclass / translate_module_name / untranslate_module_name'),('writers','pickler._mktyperef / Pickler._flatten_function'),('readers','Unpickler._restore_type / _restore_function / _restore_module')],['jsonpickle.encode','jsonpickle.decode'])
p('C31','Scalars come back with exactly the same value from every backend',
 'Every integer, float, and string (any Unicode text) decodes to an equal value of the same type, whichever JSON backend is used.',
 ['inputs','configurations'],'every scalar and every backend',
 'The space of scalars times backends cannot be enumerated.',
 [BK,PK],[('JSON libraries','json / simplejson / ujson')],['jsonpickle.encode','jsonpickle.decode'])
p('C32','numpy and pandas values are numerically equal after a round trip',
 'An array, data frame, series or index decodes to one that compares equal with the same dtype for every dtype, shape, byte order and memory layout.',
 ['inputs'],'every array and frame',
 'Dtypes, layouts and values multiply.',
 ['jsonpickle/ext/numpy.py','jsonpickle/ext/pandas.py'],[('handlers','ext handlers')],['jsonpickle.encode','jsonpickle.decode'])
p('C33','Encoding and decoding take time linear in the graph',
 'The time and memory used by encode and decode grow linearly with the number of objects and references in the graph.',
 ['inputs'],'every graph',
 'Benchmarks measure a few sizes.',
 [PK,UP],[('memoisation','Pickler._objs / Pickler._flattened')],['jsonpickle.encode','jsonpickle.decode'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P), max(len(x['title']) for x in P))
