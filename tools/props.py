# Single source of properties.jsonl and MANIFEST.json (python3 tools/gen.py).
P = "packages/"
NOTE = ("Bounded symbolic execution of the repository's own code (LLVM bitcode regenerated each run); every assertion is decided by Z3 over all values within the "
        "stated bounds, a sample of explored paths and every counterexample is replayed natively under ASan. Trusts clang's lowering, the executor, and the models of libstdc++ streams. ")
PROPS = []


def prop(id, title, statement, q, why, files, mech, obs, note="", over=("inputs",)):
    PROPS.append(dict(id=id, title=title, statement=statement, q=q, why=why, files=[P + f for f in files], mech=[(n, P + w) for n, w in mech], obs=obs,
                      note=NOTE + note, over=list(over)))


NA = []

prop("C01", "UTF-8 decoding and encoding follow RFC 3629 for every octet sequence",
     "Decoding any octet sequence yields, character by character, the code point of each well-formed UTF-8 sequence and U+FFFD for anything ill-formed, always makes progress and never reads outside the text. "
     "Encoding any Unicode scalar value yields its well-formed UTF-8 sequence, so decoding it gives the value back.",
     "every octet sequence of up to 5 bytes and every code point",
     "Tests decode a handful of valid strings; ill-formed and truncated sequences are a space of 256^n inputs they never touch.",
     ["drafter/src/utils/Utf8.h"], [("decode_one / encode / input_iterator", "drafter/src/utils/Utf8.h")],
     ["escaped JSON output, annotation columns"], "Bound: sequences up to 5 octets, all 0x110000 code points.")

prop("C02", "Annotation line and column positions name the characters of their range",
     "For every source text and every character range inside it, the reported start line and column are those of the first character of the range and the reported end line and column those of its last, counting lines and columns from 1 and characters rather than octets. "
     "A range running past the last newline is reported as ending on the line after it, and computing a position never reads outside the line index.",
     "every line index of up to 6 lines with arbitrary 64-bit offsets and every 64-bit range; source texts of up to 5 characters",
     "Feature tests check a few annotations of fixed fixtures; boundary ranges (empty, first, at a newline, past the end) are not enumerated.",
     ["drafter/src/SourceMapUtils.cc", "drafter/src/SourceMapUtils.h"], [("GetLinesEndIndex / GetLineFromMap", "drafter/src/SourceMapUtils.cc")],
     ["line:column positions of annotations and source maps"])

prop("C03", "Byte ranges convert to the character ranges that cover the same text",
     "For every UTF-8 text and every range set of octets on character boundaries, the converted character ranges have the location and length that count the characters of the same text, and mapping a range set back to text yields exactly the octets of its ranges in order. "
     "For arbitrary octets and arbitrary ranges the conversion stays inside the text.",
     "every UTF-8 text of up to 3 characters and every pair of boundaries; every octet buffer up to 4 bytes with arbitrary 64-bit ranges",
     "Unit tests convert two fixed strings; positions inside multi-byte text at the end of a buffer are exactly where off-by-one errors hide.",
     ["apib-parser/src/markdown-parser/ByteBuffer.cc", "apib-parser/src/markdown-parser/ByteBuffer.h"],
     [("BuildCharacterIndex / BytesRangeSetToCharactersRangeSet / MapBytesRangeSet", "apib-parser/src/markdown-parser/ByteBuffer.cc")],
     ["source map arrays [location, length] in every output"])

prop("C04", "Appending source ranges merges only ranges that touch",
     "Appending one set of source ranges to another keeps every range and its order, except that the last range of the first and the first of the second become one range covering both when the one ends exactly where the other starts. "
     "Appending several sets gives the same result however the appends are grouped.",
     "every two sets of up to 3 ranges with arbitrary 64-bit locations and lengths",
     "Tests append one or two literal ranges.",
     ["apib-parser/src/markdown-parser/ByteBuffer.h"], [("RangeSet::append", "apib-parser/src/markdown-parser/ByteBuffer.h")],
     ["source maps of multi-block elements"])

prop("C05", "JSON and JSON Schema media types are recognised exactly",
     "A media type is JSON exactly when its type is application and its suffix, or its subtype when there is none, is json; it is JSON Schema exactly when it is application/schema+json; letter case and parameters never matter. "
     "Media types compare equal exactly when type, subtype and suffix agree ignoring case and their parameters agree.",
     "every type of 9..13 octets, subtype and suffix of 0..7 octets, with and without parameters",
     "Tests list a few spellings; the predicates must hold for every string.",
     ["apib/src/syntax/MediaType.cc", "apib/include/apib/syntax/MediaType.h"], [("isJSON / isJSONSchema / operator==", "apib/src/syntax/MediaType.cc")],
     ["which generated body and schema assets appear in the output"])

prop("C06", "A serialized media type carries its parts exactly and quotes what must be quoted",
     "Writing a media type gives type/subtype, +suffix when there is one, and each named parameter in order as ; key=value; without type or subtype nothing is written. "
     "A parameter value containing separators, blanks or control characters is written as a closed quoted string whose unescaping gives the value back, any other value is written verbatim.",
     "type, subtype, suffix up to 2 octets; parameter keys up to 2 and values up to 3 octets, every octet value",
     "Tests serialize a handful of literal media types.",
     ["drafter/src/backend/MediaTypeS11n.cc", "drafter/src/backend/MediaTypeS11n.h"], [("operator<<(ostream, media_type)", "drafter/src/backend/MediaTypeS11n.cc")],
     ["contentType attributes and Content-Type headers"])

R = "drafter/src/refract/"
prop("C07", "Counts of permitted values add and multiply without loss",
     "The count of values a data structure may take adds and multiplies as saturating arithmetic: open is at least every count, adding or multiplying with open gives open (except that nothing times anything is nothing), and a result too large to represent is open rather than a small number. "
     "Sum and product are commutative, the sum is associative, and empty, single and open are their neutral and absorbing elements.",
     "every pair of 32-bit counts for sums and products, every triple for the laws",
     "Tests add a few small literals; wrap-around and the laws are statements about all 2^64 pairs.",
     [R + "Cardinal.h"], [("cardinal operators", R + "Cardinal.h")], ["minItems / maxItems / required decisions of generated JSON Schema"])

prop("C08", "The size of an element counts exactly the values it permits",
     "For every data structure the computed count is that of the values it stands for: 1 for a literal or fixed value, open for an open type, the number of alternatives of an enumeration or select, the combined count of the members of a fixed object or array, plus one when nullable. "
     "Extensions count as the type they merge to and the inherited fixed flag counts as the element's own.",
     "trees of every kind up to depth 2 with up to 2 children and every combination of fixed, fixed-type and nullable",
     "Tests compute the size of about twenty fixed trees; the rule combines every kind with every attribute.",
     [R + "ElementSize.cc", R + "ElementSize.h", R + "ElementUtils.h"], [("sizeOf", R + "ElementSize.cc")],
     ["enum vs const and minItems in generated JSON Schema"])

prop("C09", "A clone equals its original, shares nothing with it and obeys its flags",
     "Cloning any element yields a tree equal to the original in name, content, meta and attributes, in the same order, with no node shared between them; copying and moving content behaves the same. "
     "Each clone flag leaves out exactly the part it names.",
     "trees of every kind up to depth 2 with all 32 combinations of clone flags",
     "Tests clone a few literal elements; sharing or dropping one field of one kind stays unseen.",
     [R + "Element.h", R + "ElementIfc.h", R + "InfoElements.h", R + "dsd/Object.h"], [("Element::clone", R + "Element.h"), ("InfoElements copy", R + "InfoElements.cc")],
     ["named types expanded in several places"])

prop("C10", "Two elements compare equal exactly when they are the same tree",
     "Equality of elements and of data structures holds exactly when kind, content (children compared in order), attributes and meta agree whatever the element names, inequality is its negation, and comparing elements without content is well defined.",
     "pairs of trees of every kind with up to 2 children and one meta and attribute entry",
     "Tests compare a few equal and a few different literals; equality is a relation over all pairs.",
     [R + "Element.h", R + "dsd/Enum.cc", R + "dsd/Member.cc", R + "dsd/Holder.cc", R + "dsd/Select.cc", R + "InfoElements.cc"],
     [("operator== of elements", R + "Element.h"), ("operator== of data structures", R + "dsd")], ["merging of enumerations, duplicate detection"])

prop("C11", "Meta and attribute collections behave as an ordered map",
     "After any operations a meta or attribute collection holds each key as an insertion-ordered map would: set replaces in place or appends, find returns the entry with exactly that key, erase removes exactly it, clone shares nothing. "
     "Appending to an info entry creates a list with the given value or extends the list that is there.",
     "collections of up to 3 entries with any one-byte keys and any operation; sequences of 3 operations",
     "Tests exercise a few literal sequences.",
     [R + "InfoElements.cc", R + "InfoElements.h"], [("InfoElements", R + "InfoElements.cc"), ("AppendInfoElement", R + "InfoElements.h")],
     ["attributes and meta of every output element"])

prop("C12", "Element containers insert, erase and look up children exactly",
     "Arrays, objects, options, selects and extends keep their children in order: inserting places the child at its position, erasing removes exactly it, pushing appends and iteration visits all in order. "
     "Erasing an object property removes exactly the members with that key.",
     "containers of up to 3 children with one-byte contents and any operation at any position",
     "Tests insert and erase in a few literal containers.",
     [R + "dsd/Array.cc", R + "dsd/Object.cc", R + "dsd/Option.cc", R + "dsd/Select.cc", R + "dsd/Extend.cc", R + "dsd/ElementContainer.h"],
     [("dsd containers", R + "dsd")], ["children of every output element"])

prop("C13", "Merging an extension lays its parts over one another, later over earlier",
     "Merging the parts of an extended type yields a new element of their kind: later content replaces earlier (object members by key and mixins by symbol in place, array items appended, enumerations without duplicates), attributes and meta are overridden entry by entry except identity (id, prefix, namespace). "
     "The parts are left unchanged and not shared; parts of different or unmergeable kinds are an error.",
     "extensions of up to 3 parts of every kind with up to 2 members, items or enumerations and symbolic keys",
     "Tests merge a few literal pairs; position, key and kind interact.",
     [R + "dsd/Extend.cc", R + "dsd/Extend.h"], [("Extend::merge", R + "dsd/Extend.cc")], ["dereferenced types, generated values and schemas"])

prop("C14", "The type registry finds exactly what was registered; ancestor searches end",
     "A registry starts with the basic types, adds a type exactly when it has a string id that is neither reserved nor taken, and finds or removes exactly the type of a name. "
     "The root ancestor of a type is the last one of its inheritance chain, and the search ends even when types inherit circularly; exactly the basic element names are reserved.",
     "names of up to 10 octets; registries of up to 3 types with any parents; sequences of up to 2 operations",
     "Tests cover single additions; circular and dangling parents are a space of graphs.",
     [R + "Registry.cc", R + "Registry.h", R + "Element.cc"], [("Registry", R + "Registry.cc"), ("FindRootAncestor", R + "Registry.cc"), ("isReserved", R + "Element.cc")],
     ["resolution of named types and of their base types"])

prop("C15", "Expansion replaces every named type by its chain of ancestors and terminates",
     "Expanding an element replaces each use of a named type, wherever it occurs, by an extension of its registered ancestors (outermost first, each marked with its name) followed by the element itself, and resolves each mixin; nothing else changes and nothing is shared with registry or input. "
     "Types containing themselves end in a stand-in carrying the reference, circular inheritance in an extension of the element alone, and circular mixins in an MSON error.",
     "registries of up to 3 types with any inheritance, membership and mixin edges and an element of every kind",
     "Tests expand fixed documents; the graphs of types, circular ones included, are unbounded.",
     [R + "ExpandVisitor.cc", R + "IsExpandableVisitor.cc"], [("ExpandVisitor", R + "ExpandVisitor.cc"), ("IsExpandableVisitor", R + "IsExpandableVisitor.cc")],
     ["dataStructures in the output, generated bodies and schemas"])

prop("C16", "Visiting, iterating and filtering reach exactly the elements meant, in order",
     "Each element is handed to visitors and casts as its own type only; recursive iteration visits every element of a tree once, parents before children and children in order, and child iteration exactly the direct children. "
     "Filters select exactly the elements of the name asked for, and member lookup finds the first member with the key.",
     "trees of every kind up to depth 2 with up to 2 children, symbolic names and keys",
     "Tests visit a few literal trees.",
     [R + "Visitor.h", R + "TypeQueryVisitor.cc", R + "TypeQueryVisitor.h", R + "Iterate.h", R + "FilterVisitor.h", R + "Query.cc", R + "ComparableVisitor.cc", R + "ComparableVisitor.h", R + "VisitorUtils.cc"],
     [("VisitBy / Visit", R + "Visitor.h"), ("Iterate", R + "Iterate.h"), ("ComparableVisitor", R + "ComparableVisitor.cc")], ["collection of annotations, reporting"])

prop("C17", "The value of an element is its content, else its sample, else its default",
     "Looking up value, sample, default, key text, type attributes, variability, description and inherited fixedness of an element returns exactly what its content, attributes and meta state, in that order of precedence, for every kind of element. "
     "Adding samples, enumerations, defaults and type attributes keeps what is there; numbers convert to the integer they denote.",
     "elements of every kind with any combination of content, samples, default and type attributes",
     "Tests look at a few literal combinations.",
     [R + "VisitorUtils.h", R + "VisitorUtils.cc", R + "ElementUtils.cc", R + "ElementUtils.h", R + "dsd/Number.cc"],
     [("GetValue / GetSample / GetDefault", R + "VisitorUtils.h"), ("findValue / inheritsFixed / addSample", R + "ElementUtils.cc")], ["generated values, JSON Schema, keys"])

prop("C18", "JSON output is valid JSON that reads back to the value it was written from",
     "Serializing any value as JSON yields one JSON text that reads back to the same value: every string escaped, every entry once and in order. "
     "The packed form is the same text without white space, and otherwise each entry is on its own line, indented two blanks per depth.",
     "strings and keys of up to 3 octets of any value; trees of up to depth 2 with up to 4 entries",
     "Tests serialize the strings of their fixtures; escaping must hold for every octet at every place.",
     ["drafter/src/utils/so/JsonIo.cc", "drafter/src/utils/so/JsonIo.h"], [("serialize_json", "drafter/src/utils/so/JsonIo.cc")],
     ["drafter output with --format json, generated bodies and schemas"])

prop("C19", "YAML output is valid YAML that reads back to the value it was written from",
     "Serializing any value as YAML yields one YAML document that reads back to the same value: strings, whatever their characters, read as those strings and never as null, booleans or syntax, and keys likewise. "
     "Nesting is kept by indentation and empty objects and arrays stay empty objects and arrays.",
     "strings of up to 2 characters, octet strings of up to 3, keys of up to 5 letters; trees of up to depth 2",
     "Tests serialize the strings of their fixtures; quoting must hold for every text.",
     ["drafter/src/utils/so/YamlIo.cc", "drafter/src/utils/Utf8.h"], [("serialize_yaml", "drafter/src/utils/so/YamlIo.cc")],
     ["drafter output with --format yaml (the default)"])

prop("C20", "Simple values compare, find and insert like JSON values",
     "Two values are equal exactly when they are the same JSON value, objects regardless of the order of their entries. "
     "Finding in an object yields exactly the value of that key, inserting a key that is there replaces its value in place, and inserting an item that is there adds none; all else is kept in order.",
     "pairs of values up to depth 2 with up to 2 entries; collections of up to 3 entries",
     "Tests never compare values; equality is a relation over all pairs.",
     ["drafter/src/utils/so/Value.cc", "drafter/src/utils/so/Value.h"], [("so::Value", "drafter/src/utils/so/Value.cc")],
     ["generated bodies and schemas, removal of duplicates"])

prop("C21", "A serialized element states its name, meta, attributes and content exactly once",
     "Serializing an element yields an object with its element name, its meta and attributes when there are any, and its content when it has any, for every element of the tree, each once and in order; the element is left as it was. "
     "Source maps appear when asked for and otherwise only inside the attributes of annotations.",
     "trees of every kind up to depth 2 with up to 2 children; up to 2 nested meta and attribute entries of any one-octet name or sourceMap",
     "Tests compare whole fixtures; which entries are left out depends on every level of nesting.",
     [R + "SerializeSo.cc", R + "SerializeSo.h"], [("renderSo", R + "SerializeSo.cc")], ["the Refract output of drafter in JSON and YAML"])

prop("C22", "A generated body is the value its data structure describes",
     "The JSON value generated from a data structure holds exactly its properties and items in order, each from its content, else its first sample, else its default, else null where it may be and the empty value otherwise; optional properties without a value and variable items without one are left out. "
     "References and mixins are resolved and spliced in place, extensions merged, the first non-empty option of a select taken, an enum without content gives its first enumeration, and each key occurs once with its last value.",
     "objects of up to 2 properties and arrays of up to 2 items of every kind with any combination of content, sample, default and type attributes; mixins, selects and extensions of up to 2 parts",
     "Tests compare a few fixtures; the value depends on every combination of content, samples, defaults, type attributes and their inheritance.",
     [R + "JsonValue.cc", R + "JsonValue.h", R + "JsonUtils.cc", R + "ElementUtils.cc"], [("generateJsonValue", R + "JsonValue.cc"), ("resolve, findFirstSample, findDefault", R + "ElementUtils.cc")],
     ["generated message bodies"])

prop("C23", "A generated JSON Schema accepts exactly the values its data structure allows",
     "The JSON Schema generated from a data structure is a well-formed draft-07 schema, and for every JSON value it accepts the value if and only if the data structure does: the type fits, required properties are there, fixed content is equal, items are among those of a fixed-type array, closed objects hold no other property, exactly one option of each select matches, enum values are among the enumerations, null where nullable. "
     "Mixins, references and extensions count as the properties and items they stand for.",
     "objects and arrays of up to 2 entries of every kind with any combination of type attributes, against any value of up to 2 entries drawn from and around what the structure names",
     "Fixtures compare schema texts; what a schema accepts is a statement over all values.",
     [R + "JsonSchema.cc", R + "JsonSchema.h", R + "JsonUtils.cc", R + "ElementUtils.cc"], [("generateJsonSchema", R + "JsonSchema.cc")],
     ["generated message body schemas"])

prop("C24", "The Markdown tree mirrors the blocks of the document and where they are",
     "Whatever sequence of block events the Markdown renderer reports, the parser builds the tree of these blocks: in order, each under its enclosing block, with its type, text, level and flags. "
     "Each node maps to the source octets of its block, never beyond the source, and text directly inside a list item becomes a paragraph mapped to where that text is.",
     "every event sequence of up to 2 blocks nested up to 2 deep in lists and quotes, sources of up to 5 octets, source maps of up to 2 ranges anywhere in it and one octet past its end",
     "Tests parse a few documents; the nesting of events and the ranges reported with them are arbitrary.",
     ["apib-parser/src/markdown-parser/MarkdownParser.cc", "apib-parser/src/markdown-parser/MarkdownNode.cc", "apib-parser/src/markdown-parser/MarkdownNode.h"],
     [("MarkdownParser callbacks", "apib-parser/src/markdown-parser/MarkdownParser.cc")], ["every later stage of parsing, annotations' locations"])

S = "apib-parser/src/snowcrash/"
prop("C25", "Header lines are read as HTTP fields, and what is wrong with them is reported",
     "Every line of a headers section of the form name, colon, value is read as the field of that name and value without the spaces around, and every other line is reported; a name is any RFC 7230 token, compared regardless of case, and a second definition is reported unless the field may be given many times. "
     "Lines are exactly those of the source ranges of the section.",
     "every line of up to 3 octets, lines of up to 5 characters of each kind, content of up to 2 source ranges",
     "Tests hold a few well-formed headers; names, blanks, colons and ranges combine freely.",
     [S + "HeadersParser.cc", S + "HeadersParser.h", S + "StringUtility.h", S + "posix/RegexMatch.cc"], [("parseHeaderLine, fetchLine", S + "HeadersParser.cc"), ("SectionProcessor<Headers>", S + "HeadersParser.h")],
     ["headers of requests and responses, annotations"], "The POSIX regular expression functions are a model of glibc's (rt/ere.inc).")

prop("C26", "A signature is split into identifier, values, attributes and description",
     "For every text, the identifier, the value or values, the attributes in brackets and the description of an MSON or parameter signature are the parts that the delimiters outside of backticks and nested brackets separate, trimmed. "
     "Whatever the text, parsing ends and never reads outside it.",
     "every signature of up to 6 characters of each kind the rules tell apart, for each kind of section",
     "Tests use well-formed signatures; unclosed, empty and nested parts combine in many ways.",
     [S + "SignatureSectionProcessor.h", S + "Signature.cc", S + "StringUtility.h"], [("parseSignature and its parts", S + "SignatureSectionProcessor.h")],
     ["every data structure, attribute and parameter"])

prop("C27", "Text helpers trim, split, strip and escape exactly what they say",
     "For every text, trimming removes exactly the white space around, splitting yields the parts between delimiters, escaping markers yields the text they enclose, links read as their text, and code blocks lose nothing but their fences and indentation. "
     "None of them reads outside the text.",
     "every text of up to 5 octets and every delimiter",
     "They are used everywhere with texts of any shape; tests touch only a few.",
     [S + "StringUtility.h", S + "CodeBlockUtility.h", S + "SectionProcessor.h"], [("TrimString, Split, RetrieveEscaped, StripMarkdownLink, TwoNewLines", S + "StringUtility.h"), ("CodeBlockUtility", S + "CodeBlockUtility.h")],
     ["names, descriptions, bodies of the parse result"])

prop("C28", "MSON values, names and type specifications mean what they say",
     "Every MSON value is read as the text inside its emphasis (then it is variable) or its backticks, every name of a base type as that type and every other as a symbol, and a type specification as its name and nested types in order, links as their text. "
     "Type attributes and the base type of a definition follow, and a type that is nowhere defined is an error.",
     "every value of up to 5 characters of each kind, type specifications with up to 2 nested types, up to 2 attributes",
     "Tests hold a few specifications; marks, links, blanks and attributes combine freely.",
     [S + "MSONUtility.h", S + "MSON.cc", S + "StringUtility.h"], [("parseValue, parseTypeName, parseTypeSpecification, parseTypeDefinition, parsePropertyName", S + "MSONUtility.h")],
     ["every data structure of the parse result"])

prop("C29", "Named types resolve to their base types, and circles and gaps are errors",
     "For every set of named types, in any order, each resolves to the base type at the end of its chain of super types and depends on exactly what is reachable from it. "
     "A type defined twice, made of itself or of a type that is not defined is an error, no other set is, and resolution ends.",
     "every set of up to 2 named types with any specification, chains of 3, and any 2 further dependencies",
     "Orders of definition and cycles through nested types are a space tests only touch.",
     [S + "BlueprintParser.h", S + "MSONUtility.h", S + "MSON.h"], [("fillNamedTypeTables, resolveNamedTypeTables", S + "BlueprintParser.h"), ("addDependency", S + "MSONUtility.h")],
     ["every data structure that refers to another, errors of the parse result"], over=("inputs", "histories"))

prop("C30", "Media types are read as far as they are well formed",
     "For every content type, the type, subtype and suffix are the names around the slash and after the last plus, and its parameters are those up to the first malformed one, values without their quotes. "
     "A body counts as JSON exactly when the syntax the media type ends in is JSON, regardless of case.",
     "every text of up to 5 characters of each kind the rules tell apart, alone and after a type, and 3 arbitrary octets",
     "Tests parse a couple of dozen media types; backtracking in the grammar depends on every character.",
     ["apib-parser/src/MediaTypeParser.cc", "apib-parser/src/grammar/Mediatype.h", "apib/src/MediaType.cc"], [("grammar", "apib-parser/src/grammar/Mediatype.h"), ("isJSON", "apib/src/MediaType.cc")],
     ["content types and generated bodies"], "PEGTL is a stand-in written for the check (the submodule is absent); its rules were tested with the repository's grammar tests.")

prop("C31", "URI templates are parsed by RFC 6570, and every fault is reported",
     "Every text is read as literals and expressions with the operator, variables, prefix lengths and explode modifiers RFC 6570 gives them; whatever it does not allow (nor the unsafe characters of RFC 1738) is kept as invalid and reported once, naming the first offending character and its percent encoding. "
     "Scheme, host and path are those of the URI.",
     "every template of up to 4 characters of each kind the rules tell apart, every expression of up to 4, any multi-octet character",
     "Tests parse some thirty templates; recovery after faults depends on every character.",
     [S + "UriTemplateParser.cc", "apib-parser/src/grammar/Uritemplate.h", "apib-parser/src/grammar/recover.h"], [("grammar and actions", "apib-parser/src/grammar/Uritemplate.h"), ("URITemplateParser::parse", S + "UriTemplateParser.cc"), ("recover", "apib-parser/src/grammar/recover.h")],
     ["warnings for URI templates of resources and actions"], "PEGTL and the POSIX regular expression functions are stand-ins (rt/PEGTL, rt/ere.inc).")

prop("C32", "Documents parse into the groups, resources and actions their headers define",
     "For every document, each header and paragraph ends up in exactly one place, in order: a group, a resource, an action, a description, or a warning that it is ignored; names, URIs and methods are those of the headers. "
     "Every part carries the source range it came from, and duplicates, missing responses and missing API names are reported once each.",
     "every sequence of 3 blocks of 9 kinds (thorough 5) with every choice of names, URIs and methods",
     "The tests parse fixed documents; how sections nest depends on every order of blocks.",
     [S + "SectionParser.h", S + "BlueprintParser.h", S + "ResourceGroupParser.h", S + "ResourceParser.h", S + "ActionParser.h", S + "SectionProcessor.h"],
     [("SectionParser::parse, parseNestedSections", S + "SectionParser.h"), ("SectionProcessor<Blueprint>", S + "BlueprintParser.h"), ("SectionProcessor<Resource>", S + "ResourceParser.h"), ("SectionProcessor<Action>", S + "ActionParser.h")],
     ["the whole parse result"], "Documents enter as Markdown trees (sundown is absent).")

prop("C33", "A header is a group, resource, action, endpoint or plain text by its grammar",
     "For every header text and place, whether it opens a group, a resource, an action, an endpoint or data structures, and the name, method and URI it gives, follow from the grammar of the API Blueprint language alone, blanks around never mattering. "
     "Any other header is part of a description, or the name of the API.",
     "texts of up to 1 octet, every section keyword and bracket, and up to 3 octets after it (thorough 4 and 4), all methods",
     "Tests try a handful of headers; the grammars of six regular expressions overlap.",
     [S + "ResourceParser.h", S + "ActionParser.h", S + "ResourceGroupParser.h", S + "DataStructureGroupParser.h", S + "Platform.h", S + "posix/RegexMatch.cc"],
     [("header regular expressions", S + "ResourceParser.h"), ("ActionHeaderRegex", S + "ActionParser.h"), ("GroupHeaderRegex", S + "ResourceGroupParser.h")],
     ["the whole parse result"], "The POSIX regular expression functions are a model of glibc's (rt/ere.inc).")

prop("C34", "Requests and responses keep their name, headers, body and schema, in transactions",
     "For every action, its requests and responses are read in order and grouped into transactions, a request after a response opening a new one, each with exactly the description, headers, body and schema of its sections and the source ranges of them. "
     "Missing or forbidden bodies, missing codes, duplicates, stray text and wrong indentation are reported.",
     "up to 3 payloads, every payload of up to 3 parts, every method kind, with and without source maps",
     "Tests hold fixed actions; the parts of payloads combine in every order.",
     [S + "PayloadParser.h", S + "AssetParser.h", S + "ActionParser.h", S + "HeadersParser.h", S + "CodeBlockUtility.h", S + "HTTP.cc", S + "BlueprintUtility.h"],
     [("SectionProcessor<Payload>", S + "PayloadParser.h"), ("SectionProcessor<Asset>", S + "AssetParser.h"), ("processNestedSection, checkPayload", S + "ActionParser.h"), ("injectDeprecatedHeaders", S + "HeadersParser.h")],
     ["every transaction of the parse result"], "Documents enter as Markdown trees (sundown is absent).")

prop("C35", "A list item is a request, response, model, body or header part by its grammar",
     "For every text of a list item, whether it opens a request, a response, a model, or one of their parts, and the name or code and media type it gives, follow from the grammar of the API Blueprint language alone. "
     "What follows the first line of the item is its content; items that are none of these are reported as ignored or belong to a description.",
     "up to 4 octets of the kinds the grammar tells apart after every keyword, names, codes and media types of up to 1 octet more (thorough 4)",
     "Tests try a handful of signatures; the regular expressions of payloads overlap.",
     [S + "PayloadParser.h", S + "Signature.h", S + "AssetParser.h", S + "HeadersParser.h", S + "posix/RegexMatch.cc"],
     [("RequestRegex, ResponseRegex, ModelRegex", S + "PayloadParser.h"), ("BodyRegex, SchemaRegex", S + "AssetParser.h"), ("HeadersRegex", S + "HeadersParser.h")],
     ["every transaction of the parse result"], "The POSIX regular expression functions are a model of glibc's (rt/ere.inc).")

prop("C36", "URI parameters keep their name, type, use, default, example and values",
     "For every list of parameters, in the old or the new syntax, each is read with the name, description, type, required or optional use, default, example and values its signature and sections give, and the source ranges of them. "
     "Parameters defined twice, missing from the URI template, required with a default, or with an example not among their values are reported, once each.",
     "every combination of the parts of a signature and up to 2 nested sections, up to 4 parameters against a template of two",
     "Tests hold fixed parameters; parts and faults combine freely.",
     [S + "ParametersParser.h", S + "ParameterParser.h", S + "MSONParameterParser.h", S + "ValuesParser.h", S + "ActionParser.h", S + "ResourceParser.h"],
     [("SectionProcessor<Parameter>", S + "ParameterParser.h"), ("SectionProcessor<MSONParameter>", S + "MSONParameterParser.h"), ("checkParametersEligibility", S + "ResourceParser.h")],
     ["hrefVariables of the parse result"], "Documents enter as Markdown trees (sundown is absent).")

prop("C37", "A payload that refers to a model is that model, wherever the model is defined",
     "For every document, a payload that refers to a model gets its description, headers, body and schema, with the source ranges of the model, whether the model comes before or after it; its own media type gives way to that of the model with a warning. "
     "A model without a name, defined twice or not at all is an error, and no other reference is.",
     "up to 2 resources (thorough 3) with any models and references among them, in a group or not, with or without source maps",
     "References to models further down take another path than those to models above; tests hold a few of each.",
     [S + "PayloadParser.h", S + "BlueprintParser.h", S + "ResourceParser.h", S + "SymbolTable.h", S + "SymbolIdentifier.h"],
     [("parseModelReference, assingReferredPayload", S + "PayloadParser.h"), ("checkLazyReferencing, resolvePendingModel", S + "BlueprintParser.h"), ("SectionProcessor<Model>", S + "PayloadParser.h")],
     ["every transaction of the parse result"], "Documents enter as Markdown trees (sundown is absent).", over=("inputs", "histories"))

prop("C38", "A literal of a description becomes the element of its type, with its source",
     "For every literal and type, it is read as a number exactly when it is a number of JSON, as a boolean exactly when it is true or false, and otherwise kept as it is; a literal that is no value of its type gives an element without value. "
     "Whether it is a value, a sample or the name of a type is what its element says, and source maps hold exactly the ranges of the source.",
     "literals of up to 6 characters of the kinds the number grammar tells apart (thorough 7), of 3 arbitrary octets (thorough 4), every type",
     "The tests try a few numbers; the grammar of numbers is recursive.",
     ["drafter/src/RefractElementFactory.cc", "drafter/src/RefractElementFactory.h", "drafter/src/RefractSourceMap.cc", "drafter/src/Serialize.h", R + "dsd/Number.cc", R + "dsd/Bool.cc"],
     [("LiteralTo", "drafter/src/Serialize.h"), ("FactoryFromType", "drafter/src/RefractElementFactory.cc"), ("AttachSourceMap", "drafter/src/RefractSourceMap.cc")],
     ["every literal of a parse result"], "Numbers followed by blanks are read as the number.")

prop("C39", "A value of MSON becomes the element of its type with its content and examples",
     "For every member of a data structure, the element has the type that it names, inherits or implies, and exactly the values, default, samples, enumerated values, description and type attributes written for it, in order, with the source ranges of each. "
     "Values that are none of the type, more values than the type has, values enumerated twice, unknown nested types and clashing attributes are reported once each.",
     "any of 14 types, up to 2 values, 2 sections and 2 nested types, all type attributes",
     "Tests convert fixed data structures; type, attributes and sections combine freely.",
     ["drafter/src/RefractDataStructure.cc", "drafter/src/MsonTypeSectionToApie.cc", "drafter/src/RefractElementFactory.cc", "drafter/src/ElementComparator.h", "drafter/src/ElementInfoUtils.h"],
     [("ExtractValueMember, ExtractTypeSection, SaveValue, RefractElementFromValue", "drafter/src/RefractDataStructure.cc"), ("ResolveType", "drafter/src/MsonTypeSectionToApie.cc")],
     ["attributes and data structures of the parse result"], "MSON enters as the syntax tree the parser builds.")

prop("C40", "Objects and data structures keep their members, mixins, choices and names",
     "For every object and data structure, each property, mixin, choice and group of members becomes exactly one element in its place, a property written again replacing the one before; names may be literal or variable strings of a named type, and properties without a name are dropped. "
     "Everything carries the description, type attributes and source ranges written for it.",
     "up to 2 sections of up to 2 members nested 2 deep (thorough 3), names of up to 2 values of any of 14 types",
     "Tests convert fixed objects; members nest and combine freely.",
     ["drafter/src/RefractDataStructure.cc", "drafter/src/MsonTypeSectionToApie.cc", "drafter/src/MsonOneOfSectionToApie.cc", R + "dsd/Object.cc"],
     [("GetPropertyKey, RefractElementFromProperty, RefractElementFromMSON", "drafter/src/RefractDataStructure.cc"), ("MsonTypeSectionToApie", "drafter/src/MsonTypeSectionToApie.cc"), ("MsonOneOfSectionToApie", "drafter/src/MsonOneOfSectionToApie.cc")],
     ["attributes and data structures of the parse result"], "MSON enters as the syntax tree the parser builds.")
prop("C41", "The parse result holds every part of the description, in order, once",
     "For every blueprint tree, the parse result holds each group, resource, action, transaction, request, response, header, body, schema, parameter and piece of metadata of the blueprint, in order, with its names, texts, classes and source ranges, and nothing else. "
     "A transaction is made for every pairing of the requests and responses of an example; bodies and schemas are generated only for JSON media types without one, unless the options say not to. "
     "An annotation is its message, code and the line and column of both ends of every range.",
     "up to 2 parts at each level, 10 media types (thorough), both options, symbolic names and texts of up to 1 octet",
     "Tests compare fixed fixtures; parts combine freely and any may be missing.",
     ["drafter/src/RefractAPI.cc", "drafter/src/RefractSourceMap.cc", "drafter/src/RefractAPI.h", "drafter/src/ConversionContext.cc"],
     [("BlueprintToRefract, ResourceToRefract, ActionToRefract, PayloadToRefract, ParameterToRefract, AnnotationToRefract", "drafter/src/RefractAPI.cc")],
     ["the parse result element tree"], "The blueprint enters as the syntax tree the parser builds.")
prop("C42", "Named types are registered whatever their order, problems are reported once",
     "Every named type of a document, wherever it is defined and in whichever order, is registered as what its definition says with the base type its chain of parents ends in; a reserved name is an error. "
     "The parse result holds the description unless there is an error, then the error, then every warning of the parser in order, then each fault found in conversion once.",
     "3 types in any order, parents, places and members (thorough 7 base types); up to 2 warnings and 2 faults, 15 reserved and free words",
     "Tests write types mostly before their use; the sort by dependencies is not a total order.",
     ["drafter/src/NamedTypesRegistry.cc", "drafter/src/SerializeResult.cc", "drafter/src/ConversionContext.cc", R + "Registry.cc", "drafter/src/RefractAPI.cc"],
     [("RegisterNamedTypes", "drafter/src/NamedTypesRegistry.cc"), ("WrapRefract", "drafter/src/SerializeResult.cc"), ("ConversionContext::warn", "drafter/src/ConversionContext.cc")],
     ["the parse result element tree"], "The blueprint enters as the syntax tree the parser builds.")
prop("C43", "Lists of MSON are read as the members, choices and samples they write",
     "In attributes and named types, every list item is exactly one property, value, mixin, choice or type section of the parent it is nested in, with its name, values, type, type attributes, description and nested members, in order, whatever it is nested in. "
     "A type left out follows from what is written in it; what cannot be part of its parent is a warning and is left out. Everything has the source range of the line it was written on.",
     "members with any of their parts; 9 types of parent, up to 2 nested parts of 8 kinds, 2 (thorough 3) deep",
     "Tests parse fixed lists; parts nest and combine freely.",
     [S + "MSONValueMemberParser.cc", S + "MSONValueMemberParser.h", S + "MSONPropertyMemberParser.h", S + "MSONTypeSectionParser.cc", S + "MSONTypeSectionParser.h", S + "MSONOneOfParser.cc", S + "MSONOneOfParser.h", S + "MSONMixinParser.h", S + "AttributesParser.h", S + "MSONNamedTypeParser.h", S + "MSONUtility.h"],
     [("SectionProcessor<mson::ValueMember>", S + "MSONValueMemberParser.cc"), ("SectionProcessor<mson::TypeSection>", S + "MSONTypeSectionParser.cc"), ("SectionProcessor<mson::OneOf>", S + "MSONOneOfParser.cc"), ("SectionProcessor<Attributes>", S + "AttributesParser.h")],
     ["the MSON syntax tree and its source map", "the report"], "The Markdown tree is built as the Markdown parser builds it (C24).")


D = "drafter/src/"
prop("C44", "The C interface answers every call with what its options ask for, and leaks nothing",
     "Parsing gives one result and the code of its error; options leave out exactly the generated bodies or schemas or require a name; writing gives the format and source maps asked for; checking gives exactly the annotations, or nothing where there are none. "
     "A source with tabs or carriage returns is rejected naming the first of them, no source at all is invalid input, and whatever is handed out is released completely by its counterpart.",
     "32 shapes of document, all parse and serialize options or none; sources of up to 3 (thorough 4) octets",
     "Tests call the interface with one document and a few options; options, faults and outputs combine.",
     [D + "drafter.cc", D + "drafter.h", D + "options.cc", D + "options.h", D + "SerializeResult.cc", D + "ConversionContext.cc", S + "snowcrash.cc"],
     [("drafter_parse_blueprint / drafter_serialize / drafter_check_blueprint", D + "drafter.cc"), ("option accessors", D + "options.cc"), ("CheckSource", S + "snowcrash.cc")],
     ["the values and results of the C interface", "the heap"], "sundown, absent here, is replaced by the events of the document.")
prop("C45", "Metadata, the name of the API and link relations are read from their places",
     "Every line 'key: value' of the leading paragraphs becomes metadata, in order and with the place of its paragraph, reported when a key repeats or a line is no pair; the first header that opens no section is the name, and all before the first section is description, as in the source. "
     "The relation of an action is the identifier after 'Relation:', reported when it has illegal characters or is used twice in a resource. "
     "A document without a name is an error if a name is required, a warning if it has a description.",
     "paragraphs of up to 4 (thorough 6) characters, documents of up to 4 (thorough 5) blocks, identifiers with any octet in any place",
     "Tests show one well formed document each; blanks, empty keys, repeated and malformed lines, and what comes before a name combine freely.",
     [S + "BlueprintParser.h", S + "CodeBlockUtility.h", S + "SectionParser.h", S + "SectionProcessor.h", S + "RelationParser.h", S + "ActionParser.h", S + "ResourceParser.h"],
     [("SectionProcessor<Blueprint>::parseMetadata / processSignature / finalize", S + "BlueprintParser.h"), ("CodeBlockUtility::keyValueFromLine", S + "CodeBlockUtility.h"), ("SectionProcessor<Relation>", S + "RelationParser.h")],
     ["the metadata, name, description and relations of the syntax tree and their source maps", "the warnings and the error of the report"])
prop("C46", "The drafter command does what its options say and reports every annotation",
     "Options in long and short form, an input and an output file or the standard streams: the result is written once, in the format and with the source maps asked for, only where asked for, and not at all when validating; the exit code is that of the error, and what cannot be done fails before anything is parsed. "
     "The report says OK exactly when there is no error, and has a line for each annotation with its kind, code, message and every place, by character or by line and column.",
     "all combinations of options; reports of up to one error and two warnings with up to two places each; sources of up to 4 (thorough 5) characters",
     "The command is not built by the tests, and reports are printed by no test; options, annotations, places and line breaks combine.",
     [D + "main.cc", D + "config.cc", D + "stream.h", D + "reporting.cc", D + "SourceMapUtils.cc", D + "SerializeResult.cc", D + "drafter.cc"],
     [("main / ProcessRefract", D + "main.cc"), ("ParseCommadLineOptions", D + "config.cc"), ("PrintReport", D + "reporting.cc"), ("CreateStreamFromName", D + "stream.h")],
     ["the standard streams, the files named and the exit code"], "snowcrash::parse and the command line library, absent here, are replaced.")

prop("C47", "A parse depends on its source and options alone, not on what was parsed before",
     "The result, return code and serialized forms of a source are the same however often it is parsed and whatever was parsed, serialized or released before it, errors included; results kept meanwhile stay as they were.",
     "any two of 13 shapes of document, each with a symbolic letter (thorough: a third between, all options), parsed twice, in every pair of formats",
     "Every test is a process or a fixture of its own; what one call leaves behind for the next shows only in sequences of calls.",
     [D + "drafter.cc", D + "SerializeResult.cc", D + "ConversionContext.cc", D + "NamedTypesRegistry.cc", D + "RefractAPI.cc", D + "RefractDataStructure.cc", R + "Registry.cc", S + "snowcrash.cc", S + "SectionParserData.h"],
     [("drafter_parse_blueprint / drafter_serialize / drafter_free_result", D + "drafter.cc"), ("SectionParserData", S + "SectionParserData.h"), ("Registry", R + "Registry.cc")],
     ["the values and results of the C interface"], "sundown, absent here, is replaced by the events of the document.")
prop("C48", "Every document has a result: a description or an error, each problem with its place",
     "Whatever blocks a document is made of, parsing it ends with a result that holds a description exactly when there is no error, without failing by itself, running astray or touching memory it should not. "
     "Every annotation has a message, a code and at least one place, every place and source map is a range of the source, not empty but for that of a text without characters, and the code returned is that of the error.",
     "10 beginnings of a document and up to two blocks, any of 60 forms then one of 15 (thorough any two), the items at every depth",
     "Tests hold well formed documents; what breaks a parser are the sequences nobody writes on purpose.",
     [S + "SectionParser.h", S + "SectionProcessor.h", S + "BlueprintParser.h", S + "PayloadParser.h", S + "MSONTypeSectionParser.cc", S + "MSONNamedTypeParser.h", D + "RefractDataStructure.cc", D + "RefractAPI.cc", D + "SerializeResult.cc", D + "drafter.cc"],
     [("SectionParser<T>::parse", S + "SectionParser.h"), ("snowcrash::parse", S + "snowcrash.cc"), ("WrapRefract", D + "SerializeResult.cc")],
     ["the parse result element tree", "the return code"], "sundown, absent here, is replaced by the events of the document.")
prop("C49", "A syntax tree and its source maps are copied whole, and each copy is of its own",
     "A description, element, resource, payload, member or type section of the syntax tree, and the source maps of each, copied, assigned over another or over itself, moved or kept in a collection that grows and shrinks, has the same texts, values, kinds, order and places as before. "
     "Changing or destroying the one leaves the other as it was, and nothing is left in memory when both are gone.",
     "trees with every field filled, 0 to 2 parts on three levels, members of all 6 kinds in any order, texts with symbolic octets; 6 ways of copying",
     "No test copies a tree; copies are written by hand in four files, so a field or a level left out is lost on the way from parser to conversion without an error.",
     [S + "Blueprint.cc", S + "Blueprint.h", S + "BlueprintSourcemap.cc", S + "BlueprintSourcemap.h", S + "MSON.cc", S + "MSON.h", S + "MSONSourcemap.cc", S + "MSONSourcemap.h", S + "Just.h"],
     [("Element and Element::Content", S + "Blueprint.cc"), ("SourceMap<Element>", S + "BlueprintSourcemap.cc"), ("mson::TypeSection::Content, mson::Element", S + "MSON.cc"), ("SourceMap<mson::TypeSection>, SourceMap<mson::Element>", S + "MSONSourcemap.cc")],
     ["the fields of the syntax tree and of its source maps", "live memory"])
