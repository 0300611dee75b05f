"""writes /verif/properties.jsonl (kept in one place so ids, statements and anchors stay in step)"""
import json
import os

P = []


def p(id, title, statement, over, text, why, files, mech):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}})


U, C, IO, PR = 'pyswagger/utils.py', 'pyswagger/core.py', 'pyswagger/io.py', 'pyswagger/primitives/'
S2, SB = 'pyswagger/spec/v2_0/', 'pyswagger/spec/base.py'

p('C01', 'JSON pointers address exactly one object and survive encoding',
  'Composing a JSON pointer from any list of names and splitting it again returns exactly those names, whatever characters they contain. '
  'Resolving the pointer of an object inside a loaded document reaches that very object through maps, lists and nested objects, and a pointer to nothing is never resolved to something else.',
  ['inputs'], 'every list of names (any unicode text, including / and ~), every base, every nested container of objects',
  'tests encode a dozen literal pointers; the claim is over all strings and all nesting',
  [U, SB], [('escape and unescape', 'utils.jp_compose, utils.jp_split'), ('resolution', 'spec.base.BaseObj.resolve'), ('children enumeration', 'spec.base.BaseObj._children_')])
p('C02', 'References are normalised to one canonical absolute form',
  'A relative, local or absolute JSON reference found in a document is normalised against the address of that document: absolute references keep their address, local ones get the address of the document, relative ones are taken from its folder, or from its host when they begin with a slash, with dot segments removed. '
  'Splitting a reference yields its document address and its pointer, normalising twice changes nothing, and every reference of a loaded document is normalised that way.',
  ['inputs', 'programs'], 'every reference string and document address, every object of a document that carries a reference',
  'tests normalise about ten literals',
  [U, 'pyswagger/scanner/v2_0/norm_ref.py'], [('normalisation', 'utils.normalize_jr, utils.derelativise_url'), ('splitting', 'utils.jr_split'), ('per-object rule', 'scanner.v2_0.norm_ref.NormalizeRef')])
p('C03', 'Scalar values are accepted exactly when the schema allows them',
  'Building a value of integer, number, string or boolean type succeeds exactly for values meeting the limits, exclusivity flags, multiple, length and enumeration of the schema, and otherwise fails with a validation error. '
  'The accepted value is the given one converted to the type; no value means the default, and without default nothing is produced.',
  ['inputs'], 'every combination of limits and formats, every scalar value',
  'tests probe a few values around a few limits; the claim is for every limit and every value',
  [PR + '_int.py', PR + '_float.py', PR + '_str.py', PR + 'comm.py', PR + '__init__.py'],
  [('limits', 'primitives.comm.create_numeric_validator'), ('length and enumeration', 'primitives._str.validate_str'), ('type and format dispatch', 'primitives.Primitive.produce')])
p('C04', 'Arrays keep their items and honour their limits and separators',
  'Building an array from a list keeps every item in order, each built by the item schema (as given where there is none), and enforces item count limits and uniqueness. '
  'A delimited text is split at exactly the separator of its collection format and an array put back to text uses that separator, so that items free of the separator survive the round trip.',
  ['inputs'], 'every list or delimited text, every collection format, every limit, nested arrays',
  'tests use one literal per collection format',
  [PR + '_array.py'], [('construction', 'primitives._array.Array.apply_with'), ('serialisation', 'primitives._array.Array.__str__, to_url')])
p('C05', 'Object values carry exactly the declared data',
  'Building an object value from a map fills each given declared property by its own schema, keeps defaults, requires every required property, and routes undeclared properties through the additional-property schema. '
  'Write-only use of read-only properties is rejected, reading them is not, and composition merges the properties and enforces the limits of all parts, for scalar and array values too; a schema that tells no type keeps any value as given.',
  ['inputs', 'programs'], 'every object schema (properties, required, additional properties, composition) and every input map',
  'tests use two fixture documents',
  [PR + '_model.py', PR + '__init__.py'], [('object construction', 'primitives._model.Model.apply_with'), ('composition', 'primitives.Primitive.produce, Primitive._merge')])
p('C06', 'A call places every argument at its declared location, and only there',
  'Calling an operation puts each argument, built by the schema of its parameter, at the location the parameter declares (path, query, header, form, file, body) under its declared name and nowhere else. '
  'A missing required argument and an argument that is not declared are rejected, a missing optional one sends nothing unless it has a default, and multi-valued collections are expanded into one entry per item.',
  ['inputs', 'configurations'], 'every operation (any parameters, locations, collection formats, defaults) and every set of arguments',
  'tests call fixture operations with fixed arguments',
  [S2 + 'objects.py'], [('call', 'spec.v2_0.objects.Operation.__call__'), ('parameter schema', 'spec.v2_0.objects.Parameter._prim_')])
p('C07', 'A prepared request is what the operation and the arguments say',
  'Preparing a request substitutes every path parameter percent-encoded into path and address, sends the header arguments, picks form, multipart or body payload from what the call supplied, and announces a content type and an accepted type the operation declares. '
  'A content type outside the declared ones is refused, the scheme is the preferred or a supported one, and address overrides replace only the part they name.',
  ['inputs', 'histories'], 'every operation, every argument set, every option, any order of option calls',
  'tests check a handful of prepared requests',
  [IO], [('preparation', 'io.Request.prepare, io.Request._prepare_body, io.Request._prepare_forms'), ('overrides', 'io.Request._patch')])
p('C08', 'A response is decoded by the schema of its own status',
  'Applying status, headers and body to a response decodes the body with the schema declared for that status, else the default one, using the decoder of its content type, and leaves it raw when there is no schema or raw mode is on. '
  'Every header value is kept, in order and looked up without regard to case, built by its declared header type.',
  ['inputs', 'histories'], 'every status, set of declared responses, headers in map or list form, bodies, and sequence of applications',
  'tests apply fixture responses only',
  [IO, S2 + 'yaml.py'], [('decoding', 'io.Response.apply_with'), ('headers', 'io.Response._convert_header'), ('statuses of YAML documents', 'scanner.v2_0.yaml.YamlFixer')])
p('C09', 'Exactly the required, registered credentials are attached to a request',
  'Credentials registered under a declared security name are attached to a request when and only when its operation lists that name, in the place the scheme declares (basic and OAuth as header, API key as its own header or query name), replacing an older value of the same name. '
  'An unknown name or unsupported scheme is rejected at registration, and names without registered credentials add nothing.',
  ['inputs', 'histories'], 'every set of declarations, registrations in any order, every requirement list',
  'tests use the pet-store declarations',
  [C, U], [('registration', 'core.Security.update_with'), ('application', 'core.Security.__call__'), ('replacement', 'utils.nv_tuple_list_replace')])
p('C10', 'Operations are found by tag and id, without silent ambiguity',
  'Every operation with an id is indexed under its first tag and its id, or under its bare id without tags, and looking up a full key returns exactly the operation stored under it. '
  'Looking up by a trailing part of the key returns an operation only when it is the only key ending so or, among several, the only one whose last component is the one asked for, and otherwise fails; two operations with the same key are refused.',
  ['inputs', 'programs'], 'every set of operations and tags, every separator, every lookup key',
  'tests look up a few fixture ids',
  [U, 'pyswagger/scanner/type_reducer.py'], [('lookup', 'utils.ScopeDict.__getitem__'), ('key composition', 'utils.scope_compose, utils.scope_split'), ('index', 'scanner.type_reducer.TypeReduce')])
p('C11', 'Client header and scheme handling loses nothing',
  'Header maps look up, replace and delete without regard to case while iterating the names as last given. '
  'Combining request headers with custom ones keeps every pair in list form, joins repeated names by comma when asked, lets no header disappear, and scheme negotiation offers exactly the schemes both sides support or fails, and neither the headers nor the options of the caller are changed.',
  ['inputs', 'histories'], 'every history of header operations, every list or map of custom headers, every scheme set',
  'tests cover single examples of each option',
  [C, U], [('header map', 'utils.CaseInsensitiveDict'), ('combination', 'core.BaseClient.compose_headers'), ('schemes', 'core.BaseClient.prepare_schemes')])
p('C12', 'Merging references never loses or overrides local content',
  'Replacing a reference by its target gives the local object priority, takes from the target only what the local object does not set itself, and never changes the target. '
  'Plain lists and maps are united, local entries first and winning, while a default or an example is one value. Applied along a chain of references the result is the nearest non-default value for each field, and the parent links of copied children point to the object that now holds them.',
  ['inputs', 'programs'], 'every pair and chain of objects and every assignment of their fields',
  'tests merge a few fixtures',
  [SB, 'pyswagger/scanner/v2_0/merge.py'], [('merge', 'spec.base.BaseObj.merge'), ('chain', 'scanner.v2_0.merge')])
p('C13', 'Parsing keeps the document, and dumping gives it back',
  'Every declared field of a loaded object has the value of the document, or its default when absent, nested objects, maps and lists keep their keys and order and know their parent, and undeclared fields are not kept. '
  'Dumping a loaded object returns the document it was loaded from on all declared fields that differ from their default, and comparing two objects reports a difference exactly when they differ.',
  ['inputs', 'programs'], 'every document of the supported kinds, with any subset of fields and any nesting',
  'tests round-trip fixture files',
  [SB, S2 + 'parser.py', S2 + 'objects.py'], [('parsing', 'spec.base.Context.parse'), ('dumping', 'spec.base.BaseObj.dump'), ('comparison', 'spec.base.BaseObj.compare')])
p('C14', 'Operations inherit from their path and document exactly what they do not set',
  'Each operation ends up with its own content types, schemes and security where it sets them and the document ones otherwise, with the parameters of its path in addition to its own, its own winning for the same name. '
  'Its address and path are composed from host, base path and path template, its method is the verb it is declared under, and the source objects are not modified.',
  ['inputs', 'programs'], 'every document, path item and operation with any subset of these fields set',
  'tests check a few inherited values',
  ['pyswagger/scanner/v2_0/patch_obj.py'], [('operation patching', 'scanner.v2_0.patch_obj.PatchObject._operation'), ('path patching', 'scanner.v2_0.patch_obj.PatchObject._path_item')])
p('C15', 'Upgrading an old document keeps its operations, parameters and models',
  'Converting a version 1.2 document yields for every old operation one operation under the same path and method with the same parameters (locations, types, formats, limits, enumerations, defaults, arrays), the type it returns as its default response, its security or else that of its resource, and for every old model one schema with the same properties and inheritance. '
  'Old type references become references into the converted models, whatever their name, and models or operations of the same name in different resources stay apart. Authorizations become security schemes, and host and paths are those of the base addresses.',
  ['inputs', 'programs'], 'every version 1.2 document: any resources, operations, parameters, models, authorizations',
  'tests convert fixture documents',
  ['pyswagger/scanner/v1_2/upgrade.py'], [('conversion', 'scanner.v1_2.upgrade.Upgrade'), ('type mapping', 'scanner.v1_2.upgrade.convert_schema_from_datatype, update_type_and_ref')])
p('C16', 'Dates, bytes and identifiers keep their value on the wire',
  'A date, date-time, byte or uuid value sent and read back is the same value: dates in ISO 8601 with fraction and zone offset of either sign, bytes in base64 (URL-safe alphabet), identifiers in canonical text. '
  'Malformed texts are rejected, never misread.',
  ['inputs'], 'every date, time, fraction, zone offset, byte string and identifier',
  'tests sample a few literals',
  [PR + '_time.py', PR + '_byte.py', PR + '_uuid.py', U], [('ISO 8601 reading', 'utils.from_iso8601'), ('dates', 'primitives._time'), ('bytes', 'primitives._byte.Byte'), ('identifiers', 'primitives._uuid.UUID')])
p('C17', 'Bodies are encoded and decoded by the codec of their content type only',
  'Encoding or decoding a body uses the codec registered for its content type, ignoring parameters of the type, and a content type without registered codec is refused instead of being guessed; in JSON, dates, bytes and identifiers are sent in their JSON form wherever they stand. '
  'A registration affects only its own content type, later ones replace earlier ones, and other codec instances are unaffected.',
  ['inputs', 'histories'], 'every content type text, every value, every history of registrations',
  'tests register one codec',
  [PR + 'codec.py'], [('dispatch', 'primitives.codec.MimeCodec.codec, marshal, unmarshal'), ('registration', 'primitives.codec.MimeCodec.register')])
p('C18', 'Generated sample values satisfy the schema they are generated for',
  'Whatever the random choices, a value rendered for a schema has the type and format of the schema and is accepted by the library for it: integers and numbers lie within the limits (exclusive ones included) and are multiples of an integral (for numbers: any) multipleOf, texts and arrays have a permitted length, an enumeration yields one of its values, objects have their required properties and a permitted number of additional ones. '
  'Contradicting limits are reported, never answered with a value outside of them, and a value is found whenever one exists. Given templates and files are used as they are, optional properties and parameters appear only as the options allow, references and composed schemas are rendered as what they stand for. '
  'Rendering all parameters of an operation yields a call the operation accepts. (Read-only properties, unique items, patterns, enumerations of arrays or objects and schemas that contain themselves are outside of what the renderer handles.)',
  ['inputs', 'schedules'], 'every schema and every outcome of the random choices',
  'tests run the generator some hundred times on fixtures; the claim is over all choices',
  [PR + 'render.py'], [('generation', 'primitives.render.Renderer.render, render_all')])
p('C19', 'Cycles are reported exactly, and never loop the library',
  'The cycle search over references reports every cycle reachable once in canonical form and nothing else, and terminates. '
  'Following a chain of references ends at the first object that is no reference, or fails with a cycle error when the chain revisits an object, and so does making a value of a circular composition.',
  ['inputs', 'programs'], 'every directed graph of references, every chain',
  'tests use a few small graphs',
  [U, 'pyswagger/scanner/cycle_detector.py'], [('search', 'utils.walk'), ('guard', 'utils.CycleGuard, utils.deref'), ('collection', 'scanner.cycle_detector.CycleDetector')])
p('C20', 'Every object of a document is visited once, by its path, by the right rules',
  'Scanning a document visits every object reachable through containment exactly once, parents before children, with the JSON pointer that resolves to it, and does not descend below the declared leaf types. '
  'Each visitor applies, for an object, the rules registered for its class and for each of its ancestor classes, nearest first, and hands results only to the rule set that produced them.',
  ['inputs', 'programs'], 'every object tree, every set of visitors and leaf types',
  'tests scan fixtures with fixed visitors',
  ['pyswagger/scan.py'], [('traversal', 'scan.Scanner.scan'), ('dispatch', 'scan.Dispatcher')])
p('C21', 'A document is fetched once, from the right place, and parsed by its version',
  'Fetching an address consults the override hook and cache first, and the same address never yields two different documents. '
  'The version decides the parser, unsupported versions and unparsable content are refused, and resolving a reference returns the object of the addressed document and caches it under that address; a reference to nothing or to another kind of object is refused, and a path is found by its name alone.',
  ['inputs', 'histories'], 'every address, every sequence of resolutions, every content',
  'tests fetch fixture files',
  ['pyswagger/resolve.py', 'pyswagger/getter.py', C], [('resolver', 'resolve.Resolver.resolve'), ('loading', 'core.App.load_obj, core.App.resolve')])
p('C22', 'Validation reports a problem exactly when a rule is broken',
  'Validating reports, with its place, every broken rule and nothing else: for current documents a required property that is read-only; for version 1.2 ones missing required fields, a missing type and reference, items exactly with arrays, misplaced uniqueItems, allowMultiple, body names, File parameters and void, incomplete authorizations and grants, unknown or over-specified authorizations of operations. '
  'In strict mode any report refuses the document, otherwise the reports are only returned.',
  ['inputs', 'programs'], 'every parameter, operation, items and model object with any subset of fields',
  'tests check one broken fixture per rule',
  ['pyswagger/scanner/v2_0/validate.py', 'pyswagger/scanner/v1_2/validate.py', C], [('rules', 'scanner.v2_0.validate.Validate, scanner.v1_2.validate.Validate'), ('strictness', 'core.App.validate')])
p('C23', 'Composed schemas expose the union of their parts',
  'A schema composed of parts ends up describing every property and required name of all its parts, however deeply nested, its own declarations winning. '
  'The parts and the targets of references are not modified, and unrelated schemas stay as they are.',
  ['inputs', 'programs'], 'every composition tree of schemas',
  'tests aggregate one fixture',
  ['pyswagger/scanner/v2_0/aggt.py'], [('aggregation', 'scanner.v2_0.aggt.Aggregate')])
p('C24', 'Uploads are framed so that every part arrives with its content',
  'A multipart payload consists of one part per form field and per file, in order, each with its name, file name and declared content headers, its exact bytes, between boundary lines announced in the content type and terminated by the closing boundary. '
  'Quotes and line breaks in names are percent-encoded, as browsers do, so that no name ends its header. Operations that do not consume multipart/form-data refuse files, and clients that frame uploads themselves get the fields and files as they were given.',
  ['inputs'], 'every set of form fields and files, single or repeated, text or binary',
  'tests post one file of fixed content',
  [IO, PR + '_file.py'], [('framing', 'io.Request._prepare_files')])

if __name__ == '__main__':
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
        for x in P:
            assert len(x['title']) <= 80, x['id']
            f.write(json.dumps(x) + '\n')
