import json,subprocess
m={'refuse tokens that are no index when resolving pointers into lists':('C01','a JSON pointer with -1, 01 or +1 into a list of a document was resolved to one of its items instead of being refused'),
'produce values of schemas without a type that are no objects':('C05','a value that is no object failed with AttributeError when its schema, or the composed schema around its schema, has no type'),
'fill arrays of composed schemas once and within every limit':('C05','arrays of a composed schema had every item once per part, and limits beside the item schema of another part or beside allOf were ignored'),
'keep the items of arrays without an item schema':('C04','arrays whose schema has no items lost all their items'),
'leave the parent of the properties of composed parts as it is':('C23','composing circular parts made the composed schema the parent of properties that belong to a part'),
'resolve a pointer only under the cached object whose path it continues':('C21','after resolving #/definitions/User of another document, #/definitions/UserGroup was answered with User'),
'name the unsupported version instead of failing on an undefined name':('C21','loading a document of an unsupported version given a parser failed with NameError'),
'find the resources of a document beside it when its name ends in .yml':('C21','the resources of a version 1.2 document named .yml were looked for below it instead of beside it'),
'reject ISO 8601 texts with anything after the date or time':('C16','2020-01-01T10:00:00.1234567Z was read as a moment without zone, 2020-01-01garbage as a date'),
'send the date of a datetime given for a date':('C16','a datetime given for a format date value was sent as a date-time'),
'report unknown authorizations of operations instead of failing on them':('C22','validating a version 1.2 operation that uses an undeclared authorization failed with AttributeError'),
'report File parameters of operations without content types instead of failing on them':('C22','validating a version 1.2 File parameter of an operation without consumes failed with TypeError'),
'resolve references of documents at the root of their host':('C02','a relative reference of a document at the root of its host became an address with two slashes, or for files lost its path'),
'take references with an absolute path from the host, not from the folder':('C02','a reference beginning with a slash was appended to the folder of the document'),
'check multipleOf when producing integers':('C03','an integer parameter accepted values that are no multiple of multipleOf'),
'enforce maxLength when it is zero':('C03','maxLength 0 was ignored: any string accepted'),
'enforce maxItems when it is zero':('C04','maxItems 0 was ignored: any array accepted'),
'keep leading empty items when converting arrays to text':('C04','an array with leading empty items lost them in its text form'),
'apply every part of a composed schema to the same value':('C05','parts of an allOf consumed each other\'s properties, so later parts saw a reduced value'),
'accept required properties declared by another part of a composed schema':('C05','a required name declared by a sibling part of an allOf was rejected as missing'),
'produce one object from composed schemas that allow no additional properties':('C05','allOf with additionalProperties false produced a wrong or no object'),
'let operations clear the content types of the document':('C14','an operation that sets an empty list of content types got those of the document'),
'percent-encode blanks in path parameters':('C07','blanks in path parameters were sent as plus signs, which are literal in a path'),
'build response headers by their type whatever the case of their name':('C08','a response header whose name was spelled in another case than declared was not built by its declared type'),
'reject read-only properties of nested values when writing':('C05','read-only properties were accepted in write context inside nested objects, array items and additional properties'),
'compose_headers adds the headers of a request to the caller\'s dict':('C11','compose_headers wrote the headers of the request into the dict of headers given by the caller'),
'compose_headers removes join_headers from the caller\'s options':('C11','compose_headers removed join_headers from the options of the caller, so a second request with the same options behaved differently'),
'merging a list loses its order and repeated items':('C12','merging plain lists went through a set: order and repeated items were lost'),
'convert version 1.2 documents without info':('C15','a version 1.2 document without info (it is optional) could not be loaded: AttributeError'),
'take scopes from the authorizations of version 1.2 resources':('C15','authorizations with scopes of a version 1.2 resource ended loading with AttributeError'),
'convert version 1.2 documents without operations':('C15','a version 1.2 document without any operation could not be loaded: IndexError'),
'keep zero minimum and maximum of version 1.2 documents':('C15','minimum 0 of a version 1.2 parameter or property was dropped'),
'keep 64-bit minimum and maximum of version 1.2 documents exact':('C15','maximum "9223372036854775807" became 9223372036854775808'),
'keep minimum and maximum of version 1.2 parameters that allow multiple values':('C15','minimum and maximum of a parameter with allowMultiple were dropped'),
'refer to version 1.2 models whose name contains a slash or tilde':('C15','models of a resource like /a/b, or with a slash or tilde in their name, could not be referenced: KeyError on loading'),
'render enumerated values that are zero, false or empty':('C18','an enum of 0, False or \'\' was ignored when that value was chosen: another value was rendered'),
'render texts and arrays within the limits they have':('C18','minLength above the default maximum failed, maxLength 0 or maxItems 0 was ignored'),
'render integers within the limits they have':('C18','integers outside fractional, large or exclusive limits were rendered, or multiples below the minimum'),
'render numbers within the limits they have':('C18','numbers outside the limits were rendered with multipleOf or exclusive limits, or none for limits that admit some'),
'render additional properties without a minimum count, beside the declared and templated ones':('C18','additionalProperties without minProperties failed, or replaced declared and templated properties'),
'render parameters that are references':('C18','parameters that are references failed or were rendered as unnamed'),
'escape quotes and line breaks in the names of multipart parts':('C24','a file or field name with a quote or line break ended its header: the name was cut, headers could be injected'),
'merging extends the default of the local object by the one of its reference':('C12','a list or map default/example of the reference was added to the one set locally')}
log=subprocess.check_output(['git','-C','/repo','log','--format=%h %s'],text=True).splitlines()
fx=[]
for l in reversed(log):
    h,s=l.split(' ',1)
    if s.startswith('fix: '):
        p,t=m[s[5:]]
        fx.append(f'fixed: property={p} {h} {t}')
json.dump({'findings':json.load(open('known_findings.json'))['findings'],'fixed':fx},open('known_findings.json','w'),indent=1)
