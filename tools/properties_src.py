"""Single source of /verif/properties.jsonl (run: python3 tools/properties_src.py)."""
import json, os

S, B, X, CT, T, V, P, ST, TY, N, CF = (
    'oblate/schema.py', 'oblate/fields/base.py', 'oblate/exceptions.py', 'oblate/contexts.py',
    'oblate/type_validation.py', 'oblate/validate.py', 'oblate/fields/primitive.py',
    'oblate/fields/structs.py', 'oblate/fields/typings.py', 'oblate/fields/nesting.py', 'oblate/configs.py')

PROPS = []

def p(id, title, statement, over, qtext, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    PROPS.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=None)))

p('C01', 'A schema is constructed exactly when its input data is valid',
  'Constructing a schema from a mapping succeeds if and only if every key is the load key of a field (or extra keys are ignored), '
  'every required field is present, None is given only to fields that allow it, and every other value is accepted by its field and by all validators of that field. '
  'Otherwise the construction raises a ValidationError (or lets through, unchanged, an exception of a foreign type raised by user code) and yields no instance.',
  ['inputs', 'configurations'], 'All combinations of field options (none/required/default/load keys), of present, absent, unknown and None entries, of deserializer and validator outcomes.',
  'Tests load a handful of fixed payloads; the guarantee ranges over every combination of flags, keys and callback outcomes.',
  [S, B], [('key lookup, missing-field pass and deferred validators', S + ':_prepare_from_data'), ('single value loading', S + ':_load_field_value')],
  ['Schema(data)'])
p('C02', 'Validation errors are complete and exact',
  'When constructing or updating a schema fails validation, the error report contains, under the input key concerned, one entry for each failure - unknown key, missing required field, '
  'disallowed None, value rejected by its field, and every validator that rejected the value - and nothing else. '
  'One failure never hides, duplicates or re-labels another one, and among the entries of one key those of validators appear with raw validators first and otherwise in registration order.',
  ['inputs', 'configurations'], 'All sets of simultaneous failures over up to three keys, several validators per field, construction and update.',
  'Tests look at one failure at a time; the claim is about every combination of simultaneous failures.',
  [S, B, X], [('errors list and single raise', S + ':_prepare_from_data, _update_from_data'), ('validator loop', B + ':_run_validators'), ('grouping by key', X + ':_raw_std')],
  ['ValidationError.errors', 'ValidationError.raw()'])
p('C03', 'Loaded fields hold the deserialized value, the default, or nothing',
  'After successful construction every supplied field reads back exactly the value its deserializer returned (or None when None was supplied and allowed), '
  'and every absent field reads its default - callables being called once for that construction with the schema context and the field - even when the default is falsy or None. '
  'An absent optional field without a default is unset: reading it raises FieldNotSet, and a supplied value is never replaced by the default.',
  ['inputs', 'configurations'], 'All present/absent patterns, falsy and None values and defaults, plain and callable defaults, load keys different from attribute names.',
  'Tests use truthy samples and one default; falsy values, defaults and key aliasing multiply.',
  [S, B], [('value store and default pass', S + ':_prepare_from_data'), ('descriptor read', B + ':Field.__get__')],
  ['schema.<field>', 'Schema.get_value_for'])
p('C04', 'update() is all-or-nothing',
  'Schema.update() either applies every (known) entry of its data, or raises and leaves every field value exactly as it was before the call, unset fields included. '
  'This holds for every kind of failure: validation errors, unknown keys, frozen fields anywhere in the data, non-validation exceptions raised by user code, and data that fails while being iterated; fields not named in the data never change.',
  ['inputs', 'histories', 'fault_sequences'], 'All update histories up to the bound, with every failing position and kind of failure.',
  'Tests fail one update in one way; atomicity is about every failure point in every order.',
  [S], [('snapshot and restore around the update', S + ':update, _update_from_data')], ['Schema.update', 'schema.<field>'])
p('C05', 'Assigning a field validates like update() and never half-applies',
  'Assigning to a field attribute applies the same deserialization, None rule and validators as an update() of that one entry: it stores the deserialized value when everything passes, '
  'and otherwise raises a ValidationError with the same errors (reported under the load key) and leaves the previous value, or the unset state, in place. No other field changes.',
  ['inputs', 'histories'], 'All values, flags, validator and deserializer outcomes, previously set or unset.',
  'Tests assign a valid and an invalid value once; equivalence with update is over all inputs.',
  [B, S], [('descriptor write', B + ':Field.__set__'), ('shared loader', S + ':_process_field_value')], ['schema.<field> = value'])
p('C06', 'Frozen schemas and frozen fields never change after construction',
  'Once a schema is constructed, no assignment and no update() changes a frozen field, or any field of a frozen schema: every attempt raises FrozenError naming the schema or field, whatever the new value '
  '(valid, invalid, equal to the old one, None). Frozen fields are still set normally by construction, and non-frozen fields of non-frozen schemas stay writable.',
  ['inputs', 'histories', 'configurations'], 'All frozen-flag combinations, operations, values and histories up to the bound.',
  'Tests cover one frozen field and one frozen schema with one value.',
  [S, B, X], [('frozen checks', S + ':update, _update_from_data; ' + B + ':Field.__set__')], ['FrozenError', 'schema.<field>'])
p('C07', 'dump() emits exactly the selected, set fields under their dump keys',
  'dump() returns one entry for every field that has a value and is selected - all fields, or those named in include, or those not named in exclude - keyed by the dump key and holding what the field serialized from the stored value; '
  'unset fields and unselected fields are absent and names that are not fields are ignored. Giving both include and exclude raises TypeError, and dumping never changes the schema.',
  ['inputs', 'configurations'], 'All set/unset patterns, include/exclude selections (empty and unknown names included), key naming schemes and stored values including falsy ones.',
  'Tests dump with two fixed selections.',
  [S], [('selection and output', S + ':dump, _dump_fields')], ['Schema.dump'])
p('C08', 'Dumping and reloading reproduces the schema',
  'For schemas of the built-in fields whose load and dump keys agree, dumping a constructed (and possibly updated) schema and loading the result again yields a schema with the same set fields and equal values, '
  'and its dump equals the first dump. This includes falsy values, None in fields that allow it and nested schemas.',
  ['inputs', 'histories'], 'All values within bounds for each built-in field, nested to the stated depth, with unset and None fields.',
  'Tests round-trip a single sample.',
  [S, P, ST, TY, N], [('value_load / value_dump pairs', 'oblate/fields/*.py')], ['Schema.dump', 'Schema(data)'])
p('C09', 'Every failure while dumping is reported, at every depth',
  'If fields raise ValueError, AssertionError or FieldError while being serialized, dump() raises one ValidationError that reports each failing field once under its load key, and reports a failing nested schema as nested errors under the outer field. '
  'Exceptions of any other type propagate unchanged; if nothing fails nothing is raised; and a failed dump changes neither the schema nor later operations.',
  ['inputs', 'fault_sequences'], 'All subsets of failing fields and failure kinds, nested to the stated depth.',
  'Tests make at most one serializer fail.',
  [S, N, X], [('dump error collection', S + ':_dump_fields'), ('nested dump', N + ':Object.value_dump')], ['Schema.dump', 'ValidationError.raw()'])
p('C10', 'A copied schema is equal and independent',
  'Schema.copy() returns a new schema of the same class with the same field values, unset fields and (shallow-copied) context state, whose context refers to the copy. '
  'Afterwards no sequence of assignments and updates, successful or failing, on either object is visible in the field values of the other.',
  ['inputs', 'histories'], 'All histories of operations on both objects up to the bound.',
  'Tests copy once and mutate once.',
  [S, CT], [('copy', S + ':copy'), ('context copy', CT + ':SchemaContext._copy')], ['Schema.copy'])
p('C11', 'Every error names the right key, field, schema and context',
  'Each field error reported by construction, update, assignment or dump carries the input key at fault, the field object registered for it (none for unknown keys), the schema instance being processed, and the context of that very value if a value was being processed (none otherwise); the ValidationError carries that schema too. '
  'This holds in every position, for nested schemas at every depth, and after nested or re-entrant operations on other schemas have run in between.',
  ['inputs', 'configurations', 'histories'], 'All error positions and kinds, nesting, and other operations run from user callbacks.',
  'Tests check attribution of one flat error.',
  [S, B, X, 'oblate/utils.py'], [('context variables', S + ':_prepare_from_data, _process_field_value, update, dump'), ('capture', X + ':FieldError.__init__')],
  ['FieldError.key/field/schema/context', 'ValidationError.schema'])
p('C12', 'Operations leave no trace in the ambient context and do not interfere',
  'Whether it succeeds or fails, each construction, update, assignment and dump restores the ambient schema, field and context it found; so a later or enclosing operation behaves the same as if the first had never run. '
  'Operations of different threads, interleaved arbitrarily, produce the same results, errors and attributions as when run alone.',
  ['histories', 'schedules', 'fault_sequences'], 'All orders and failure kinds of operations up to the bound, nested and interleaved at callback points.',
  'Tests run operations one after another on a happy path.',
  [S, B, 'oblate/utils.py'], [('set/reset token pairs', S + ', ' + B)], ['FieldError.*', 'results of following operations'])
p('C13', 'Primitive fields accept and convert exactly as documented',
  'A strict String, Integer or Float field accepts exactly the instances of str, int or float and stores them unchanged. '
  'With strict mode off, such instances are still stored unchanged, any other non-None value is stored as what str(), int() or float() makes of it, and a value that cannot be converted is a validation error for that field - never another exception.',
  ['inputs'], 'All values of the modelled types (None, booleans, integers, floats incl. infinities and NaN, strings, containers, other objects, subclasses).',
  'Tests sample a few values per field.',
  [P], [('type check and coercion', P + ':String/Integer/Float._process_value')], ['Schema(data)', 'schema.<field>'])
p('C14', 'Boolean fields convert exactly the configured words',
  'A strict Boolean field accepts exactly True and False. With strict mode off it also maps every value whose string form is among the true words to True and among the false words to False (the true words take precedence), and everything else is a validation error. '
  'The word lists are the documented defaults unless replaced, where each list - even an empty one - replaces only its own default.',
  ['inputs', 'configurations'], 'All values of the modelled types and all configurations of up to two words per list.',
  'Tests try a few words.',
  [P], [('word lookup', P + ':Boolean._process_value')], ['Schema(data)', 'schema.<field>'])
p('C15', 'Type expressions accept exactly the conforming values',
  'For every type expression built from classes and the documented typing constructs (Any, Union, Optional, Literal, List, Set, Tuple, Dict, Mapping, Sequence, bare or parametrised), a value is accepted exactly when it conforms: class membership by isinstance, literals by equality, any union member, every element of every container at every position and depth, exact length for fixed tuples. '
  'Sequence accepts lists, tuples and sets of conforming items; expressions that are not supported accept every value with at most a warning.',
  ['inputs', 'programs'], 'All values within the structural bound against a grammar of expressions to the stated depth.',
  'Tests use about forty fixed type/value pairs.',
  [T], [('recursive validator', T + ':TypeValidator._process_value and handlers')], ['validate_types', 'fields.TypeExpr'])
p('C16', 'TypedDict validation respects keys, requiredness and value types',
  'A value is accepted for a typed dictionary exactly when it is a dict, has no undeclared key, has every required key, and every present value conforms to the declared type of its key. '
  'Required keys are those of typing: per-class totality (kept through inheritance) overridden by Required and NotRequired, also with postponed annotations; and every violation is reported.',
  ['inputs', 'programs'], 'All presence patterns and values for a family of declarations (totality, markers, inheritance, nesting).',
  'Tests cover a few declarations.',
  [T], [('typed dict handler', T + ':TypeValidator._handle_type_typed_dict')], ['validate_types', 'fields.TypedDict'])
p('C17', 'validate_types reports every bad, unknown and missing key, and only those',
  'validate_types() raises TypeValidationError exactly when some key has a non-conforming value, some key of the values is unknown (unless ignoring extra keys) or some declared key is missing (unless ignoring missing keys), and its errors map exactly the offending keys to non-empty message lists. '
  'A missing key is reported as missing and no other key is. It returns nothing otherwise and never modifies the mappings it is given.',
  ['inputs', 'configurations'], 'All presence patterns of declared and unknown keys, values, and both flags.',
  'Tests set one flag at a time.',
  [T], [('key loop', T + ':validate_types')], ['validate_types', 'TypeValidationError.errors'])
p('C18', 'Range accepts exactly the integers in its inclusive bounds',
  'Range(a, b) accepts a value exactly when a <= value <= b, Range(b) exactly when 0 <= value <= b, and Range.from_standard(r) exactly when the value is a member of the given range, step included. '
  'A rejection is a ValueError, reported as a validation error when used on a field.',
  ['inputs', 'configurations'], 'All integers for bounds and value (unbounded mathematical integers).',
  'Tests try a few numbers.', [V], [('range check', V + ':Range')], ['validate.Range'])
p('C19', 'Length accepts exactly the sizes within its limits',
  'Length(min), Length(max), Length(min, max) and Length(exact) accept a sized value exactly when its length is at least min, at most max, within both inclusive, or equal to exact - a limit of zero being a real limit - whatever the kind of sized value. '
  'Giving no limit at all, or exact together with another limit, is refused with TypeError when the validator is created.',
  ['inputs', 'configurations'], 'All integer limits and all lengths; strings, lists, tuples, sets and dicts.',
  'Tests try a few lengths.', [V], [('length check', V + ':Length')], ['validate.Length'])
p('C20', 'Exclude and Or combine values and validators as documented',
  'Exclude(values...) rejects a value exactly when it equals one of the given values. '
  'Or(validators...) passes exactly when at least one of its validators passes: it tries them in order with the same schema, value and context, stops at the first that passes, treats only ValueError, AssertionError and FieldError as rejection, and lets any other exception through.',
  ['inputs', 'fault_sequences'], 'All values against up to three excluded values; all outcome combinations of up to three validators.',
  'Tests use one combination each.', [V], [('Exclude / Or', V + ':Exclude, Or')], ['validate.Exclude', 'validate.Or'])
p('C21', 'Regex matches in the selected mode and no other',
  'Regex accepts a string exactly when the pattern, with the given flags, matches at the start (default), the whole string (full_match) or anywhere (search), and a rejection carries the given failure message with the value and pattern filled in. '
  'Asking for both modes is refused with TypeError.',
  ['inputs', 'configurations'], 'All strings up to the stated length against a family of patterns, in every mode.',
  'Tests match two strings.', [V], [('mode selection', V + ':Regex')], ['validate.Regex'])
p('C22', 'Every registered validator runs, once, with the right value',
  'On each load, update or assignment of a field, its raw validators each run exactly once with the raw input value, and its other validators each run exactly once with the deserialized value, only if deserialization succeeded and the value is not None, with the schema and the load context of that value. '
  'Validators registered by parameter, decorator (field object or name), method or class are equivalent; removing, clearing and listing validators affects exactly the chosen kind, and one failing validator does not stop the others.',
  ['inputs', 'configurations', 'histories'], 'All registration routes and kinds, add/remove/clear histories, values and outcomes.',
  'Tests register one validator per route.', [B, S, V], [('registry', B + ':add_validator, remove_validator, clear_validators, walk_validators'), ('dispatch', S + ':_load_field_value')],
  ['validator calls'])
p('C23', 'A copied field is an unbound, independent field with the same behaviour',
  'Field.copy() yields a field that accepts, converts, serializes and validates exactly like the original - every option, key and validator included - and can be bound to another schema or name. '
  'Registering or removing validators, or binding, on one never affects the other, and a field object cannot be bound twice.',
  ['inputs', 'configurations', 'histories'], 'All field options, validator edits on either side, and values.',
  'Tests copy one field and check a few attributes.', [B], [('copy and bind', B + ':copy, _bind, _unbind')], ['Field.copy'])
p('C24', 'Subclasses inherit all fields and configuration without affecting parents',
  'A subclass has the fields of all its parents plus its own, where a redefined field fully replaces the inherited one (its old load key included) and inherited configuration applies unless the subclass defines its own. '
  'Defining a subclass, its fields or its validators - including validators for inherited fields given by name or as the field of the parent - never changes the behaviour of a parent or sibling schema.',
  ['configurations', 'inputs'], 'A family of hierarchies (single, multi-level, multiple inheritance, overrides, key changes, validators by name) and all inputs to parent, child and sibling.',
  'Tests cover one single-inheritance case.', [S], [('class construction', S + ':_SchemaMeta.__new__, __init_subclass__')], ['Schema subclasses'])
p('C25', 'Object fields load, pass through and reject exactly as documented',
  'An Object field keeps an instance of its schema class (or a subclass) as the very same object, turns any other mapping into a new instance using the configured construction arguments, and rejects everything else with a validation error. '
  'Errors of a nested construction appear nested under the outer key with all inner keys and messages, to any depth, together with the other outer errors; a failing nested load never leaves a partial value.',
  ['inputs', 'configurations'], 'All input kinds, nesting to the stated depth, all inner failure combinations, construction and update.',
  'Tests nest one failing payload.', [N, X], [('nested load', N + ':Object.value_load'), ('nested raw errors', X + ':_raw_std, _ensure_string')], ['Schema(data)', 'ValidationError.raw()'])
p('C26', 'ignore_extra is honoured with argument-over-configuration precedence',
  'Unknown keys are errors unless extra keys are ignored; the ignore_extra argument of construction or update decides when it is given (also when it is False), and the schema configuration decides otherwise. '
  'Ignored keys have no effect whatsoever, and ignoring them never suppresses any other error.',
  ['inputs', 'configurations'], 'All combinations of argument, configuration, operation, unknown keys and other errors.',
  'Tests cover three combinations.', [S], [('precedence', S + ':_prepare_from_data, update')], ['Schema(data)', 'Schema.update'])
p('C27', 'format_error sees the true error and its answer is what is reported',
  'For each library-detected failure the field is asked once to format the error with the documented code and a context holding that field, the schema and the offending value (no value for a missing field), and with the type errors in the metadata where documented. '
  'The returned text or FieldError is exactly what gets reported; returning None falls back to the default message; and errors raised by user code with a message keep it, while those without a message use the validation-failed code.',
  ['inputs', 'configurations'], 'All error codes of all built-in fields, all answers of format_error, all offending values.',
  'Tests override one message.', [B, CT, P, ST, TY, N], [('format dispatch', B + ':_call_format_error'), ('standard error conversion', X + ':_from_standard_error')], ['format_error calls', 'ValidationError.errors'])
p('C28', 'The configured validation error class is what gets raised everywhere',
  'Every validation failure of construction, update, assignment and dump, nested ones included, is raised as the validation error class currently configured globally, whether the option was set on the configuration object or the configuration object was replaced, and from the moment it was set. '
  'Setting anything that is not a ValidationError subclass is refused with TypeError and leaves the configuration unchanged.',
  ['configurations', 'histories'], 'All histories of configuration changes and operations up to the bound.',
  'Tests set the option once and check only that it was stored.', [CF, S, B], [('option storage', CF + ':_ConfigOption, GlobalConfig'), ('raise sites', S + ', ' + B)], ['exception type'])
p('C29', 'Any error message can be reported, grouped and printed',
  'A ValidationError can always be created, converted to text and to raw form, whatever the messages: a sequence of messages becomes one error per message with the same key, state, field, schema and context, nested dictionaries and lists keep their structure in raw form, and everything else becomes its text. '
  'The raw form groups messages by key with nothing lost, and the text names every failing key and message.',
  ['inputs'], 'All message shapes to the stated size, number of errors and keys.',
  'Tests use string messages only.', [X], [('flattening and rendering', X + ':ValidationError')], ['ValidationError.raw()', 'str(ValidationError)', 'ValidationError.errors'])
p('C30', 'Contexts tell user code the truth about the operation in progress',
  'User code called for a value always sees a context with that field, that schema, the raw value (load) or stored value (dump) and a state dictionary that is fresh for this value and shared between its deserializer and validators; dump contexts list exactly the selected fields. '
  'A context reports an update exactly when the schema had finished construction, the schema context reports initialized exactly from the successful end of construction on, and it exposes the state and configuration given.',
  ['inputs', 'histories'], 'All operations and histories up to the bound, with state given or not.',
  'Tests check one context attribute at a time.', [CT, S], [('context construction', S + ':_process_field_value, _dump_fields'), ('initialized flag', CT + ':SchemaContext')], ['LoadContext', 'DumpContext', 'SchemaContext'])
p('C31', 'Reading a field by name or load key never confuses fields',
  'get_value_for() returns the current value of the field with that attribute name or, failing that, that load key; for an unset field it returns the default if one was given (even None) and raises FieldNotSet otherwise; for any other name it raises RuntimeError, default or not. '
  'FieldNotSet is an AttributeError that carries the name used, the field and the schema, and a set value (even None or falsy) is never replaced by the default.',
  ['inputs', 'configurations'], 'All names (as symbolic strings), naming schemes including swapped keys, set/unset/None values, defaults.',
  'Tests read two names.', [S, X], [('lookup', S + ':_get_field, get_value_for')], ['Schema.get_value_for', 'FieldNotSet'])
p('C32', 'Operations never modify their inputs, other instances or the class',
  'Constructing, updating, assigning and dumping never modify the data, selection or option objects passed in, never affect other instances of the same or another schema, and never change what a later identical operation does. '
  'The same sequence of inputs always gives the same results and errors, however often and on whichever instances it is repeated.',
  ['inputs', 'histories'], 'All pairs of operations on several instances, successful or failing, repeated.',
  'Tests use each class once.', [S, B, T, N], [('per-instance values, copied field maps', S + ':_prepare_from_data')], ['results of repeated operations'])
p('C33', 'Preprocessing and post-initialization hooks run once at the right time',
  'Construction calls the preprocessing hook exactly once with the given data before anything is validated, and loads exactly what the hook returned, refusing a non-mapping with TypeError; data that is not a mapping is refused with TypeError before any hook runs. '
  'The post-initialization hook runs exactly once, after every value is set and the schema is initialized, and only if construction succeeds; neither hook runs for updates, assignments or dumps.',
  ['inputs', 'fault_sequences'], 'All hook results (same, other mapping, non-mapping, exceptions) and all validation outcomes.',
  'Tests run each hook on one valid payload.', [S], [('hook calls', S + ':_prepare_from_data')], ['preprocess_data', '__schema_post_init__'])
p('C34', 'Structure and typing fields accept exactly their declared types',
  'Dict, List, Set, TypedDict, TypeExpr, Union and Literal fields accept a value exactly when it is of the declared structure and conforms to the declared type expressions, store and dump that very object unchanged, and accept any content when no type was declared. '
  'A value of the wrong structure is reported with the invalid-datatype code, and any other mismatch with the documented type or value validation code of the field and one reported error per non-conforming item, entry or key (and wrong length) of the value.',
  ['inputs', 'configurations'], 'All values within the structural bound, all declared types of a family of expressions, construction, update and assignment.',
  'Tests try a few values per field.', [ST, TY, T], [('structure fields', ST), ('typing fields', TY)], ['Schema(data)', 'ValidationError.raw()'])
p('C35', 'A schema shows its set fields; its class keeps the repr and slots configured',
  'repr() and str() of a schema give the class name and, as name=value with the representation of the value, exactly the fields that are set at that moment - nested schemas included - unless the class defines its own or its configuration turns the representation off. '
  'They never fail or change the schema, also when user code asks in the middle of an operation. Attributes that are no fields are refused with AttributeError, unless a class of the schema defines a slot for them or is configured (possibly by inheritance) not to be slotted; they are never dumped.',
  ['inputs', 'histories', 'configurations'], 'All values and histories up to the bound, all combinations of configuration, own representation, own slots and inheritance.',
  'Tests print three empty schemas and set one attribute.', [S, CF], [('generated representation', S + ':_schema_repr, __init_subclass__'), ('slots', S + ':_SchemaMeta')], ['repr(schema)', 'schema.<attribute> = value'])

p('C36', 'Unsupported types warn as configured, supported ones never',
  'Validating any value against the documented type expressions never issues a warning. A type that is not supported accepts every value; while warn_unsupported_types is on, the first time such a type is actually validated - wherever it stands in an expression, through validate_types() or a field - '
  'one warning that names it is issued, and none for that type afterwards; while the option is off no warning is issued, and such a use does not count as the first. Only booleans are accepted for the option, on the configuration object and its constructor; anything else is refused with TypeError and changes nothing.',
  ['inputs', 'histories', 'configurations'], 'All histories of switching, replacing and using up to the bound, at every position; all values for the option.',
  'Tests use one unsupported type once.', [T, CF], [('warning for unsupported types', T + ':TypeValidator'), ('option', CF + ':GlobalConfig')], ['warnings of validate_types() and of type-validating fields', 'oblate.config.warn_unsupported_types'])
p('C37', 'Senseless declarations are refused at once and leave nothing behind',
  'Field validators must be callable (as parameter, when added and when removed), Object() takes exactly schema classes, Dict() no or two types, Union() at least two alternatives, and a validator declared in a class body must be for a field, or the name of a field, of that class: anything else is refused with TypeError at once, '
  'and the field, the parents and later classes are as if it had not been tried. A field tells the schema and name it is bound to and raises RuntimeError for both, and only, while it has none; binding it again is refused with RuntimeError and changes nothing. A format_error() that returns neither text, FieldError nor None makes the operation fail with TypeError, with no effect on the schema.',
  ['inputs', 'configurations'], 'All kinds of objects for each parameter, all names, with and without parents.',
  'Tests make valid declarations only (the refusals are excluded from coverage).', [B, S, V, N], [('refusals', B + ':add_validator, remove_validator, _bind, _call_format_error'), ('validators for names', S + ':__init_subclass__')], ['Field(...)', 'class statements of schemas'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for x in PROPS:
            f.write(json.dumps(x) + '\n')
    print(len(PROPS))
