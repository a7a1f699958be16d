AI = "abstract interpretation of the MIR of every function involved (value provenance, trace partitioning)"
P = []
NA = []


def prop(id, title, statement, quant, why, files, mech, technique, note, over=("inputs",)):
    P.append(dict(id=id, title=title, statement=statement, quant=quant, why=why, files=list(files), mech=list(mech), technique=technique, note=note, over=list(over)))


def na(id, title, statement, quant, why, files, mech, reason, over=("inputs",)):
    NA.append(dict(id=id, title=title, statement=statement, quant=quant, why=why, files=list(files), mech=list(mech), reason=reason, over=list(over)))


DEC = "src/scale_impls/decode.rs"
TRV = "src/scale_impls/tracing_decoder/visitor.rs"
ENC = "src/scale_impls/encode.rs"

prop("C01", "Decoded values have the kind and the content of what was encoded",
     "Decoding a SCALE primitive, string, bit sequence, sequence, array, tuple, composite or variant yields a value of exactly the kind that belongs to it. The number, character, text, bits or variant name in it are those the bytes stand for: integers are only ever widened, signed stay signed and 256 bit numbers keep their sign.",
     "every SCALE type and every encoded value of it, through every decoding visitor",
     "The tests decode a few dozen sample values; one integer width, one sign or one kind mishandled for other values goes unnoticed (signed 256 bit integers were decoded as unsigned ones).",
     [DEC, TRV], [("visitor methods of the decoding visitors", DEC), ("visitor methods of the tracing visitor", TRV)],
     AI + "; every returned term compared with the term the type demands",
     "Holds for every input of each visit function, because the returned value is compared symbolically on every path.")
prop("C02", "Typed decoding labels every node with its own type id",
     "After decoding with type information, the context of every node of the value, at every depth, is the id of the type that node was decoded from. Decoding without contexts differs in nothing but the contexts.",
     "every type registry, type id and input", "Tests look at contexts of a handful of values and mostly throw them away before comparing.",
     [DEC, TRV], [("context mapping from type ids", DEC)],
     AI + "; provenance of every context", "Each visit function builds its node's context from its own type id argument; children come from their own visit function (induction over the depth).")
prop("C03", "Decoding keeps every item, in order, under its own field name",
     "A decoded sequence, array, tuple, struct or variant contains every item the bytes hold, each once, unchanged and in order, and nothing else. Items of a type with named fields are stored under the name of their own field, and fields are named exactly if there are some and all of them have a name.",
     "every number of items and fields, every registry", "Tests use a few types with few fields; dropping, duplicating or renaming for other counts or mixes of names is not seen.",
     [DEC, TRV], [("loops over the items", DEC), ("composite field names", DEC)],
     AI + "; typestate automaton over 'request item / append / stop' events",
     "The automaton is checked on the product with all abstract paths, loops included, so for any number of items.")
prop("C04", "A decoding error is never turned into a success",
     "Whenever any part of the input cannot be decoded, the whole decoding reports an error; no value is made up for the part that failed.",
     "every malformed or truncated input", "Tests try very few malformed inputs.",
     [DEC, TRV], [("error propagation of the visitors", DEC)],
     AI + "; no path from an observed Err to a returned Ok", "Covers every function of the crate that returns a decoding error.", over=("inputs", "fault_sequences"))
prop("C05", "Announced sizes do not decide how much memory is allocated",
     "A few bytes of input that merely announce a huge number of items, or a serde size hint that does, do not make decoding or deserializing allocate memory in that proportion before the items are really there.",
     "every SCALE input and every serde data format", "Needs hostile inputs; tests only use well-formed ones (a five byte sequence could ask for gigabytes; an oversized serde hint aborted).",
     [DEC, TRV, "src/serde_impls/deserialize.rs", "src/serde_impls/bitvec_helpers.rs"], [("bounded initial capacity", DEC), ("cautious capacity for size hints", "src/serde_impls/bitvec_helpers.rs")],
     AI + "; taint analysis from announced sizes to allocation sizes, with bounds from comparisons and min",
     "Every allocation with an explicit size in every function of the crate except encoding and printing.")
prop("C06", "Decoding several fields consumes exactly the bytes of those fields",
     "Decoding a list of fields starts where the given input starts, uses the given fields and types, and on success leaves the input right behind the last field, whether or not all of it had to be looked at. Decoding by type id hands over the input it was given and reports the result unchanged.",
     "every input and every list of fields", "Tests check the remaining input for one or two examples.",
     [DEC], [("cursor update after skipping", DEC)], AI + "; typestate over skip / cursor update on every successful path",
     "Checked on every path of every public way to decode fields.")
prop("C10", "A failed encoding attempt leaves no bytes behind",
     "When a composite is encoded, the bytes of alternatives that were tried and failed never reach the output: a success appends exactly one complete encoding, and a failure leaves the output as it was.",
     "every composite, target type and registry, whichever alternative fails and wherever in it", "Failures in the middle of a nested attempt are hardly tested, and tests encode into empty buffers that are thrown away on error.",
     [ENC], [("temporary buffers of the attempts", ENC)], AI + "; typestate of every byte buffer (clean, written by an open attempt, dirty)",
     "All paths of encode_as_type_to with every helper analysed in place.", over=("inputs", "fault_sequences"))
prop("C11", "Values reach the encoder unchanged",
     "Primitives, bit sequences and variants are handed to scale-encode with their own payload, variant name and target type; the fields of composites and variants are handed over with their own names, all of them, in order. Only composites encode as lists of fields.",
     "every value, type and registry", "Tests encode a few sample values; a converted payload, a lost name or an exchanged id for other kinds is not seen.",
     [ENC], [("EncodeAsType for Value", ENC), ("EncodeAsFields for Value and Composite", ENC)], AI + "; provenance of every argument of the encoder calls", "All paths of the three encoding entry points.")
prop("C12", "Sequences and arrays encode every item, with the right length",
     "A composite encoded as a sequence starts with the compact number of its items; encoded as an array it is accepted only if it has exactly as many items as the array. After that every item is encoded once, in order, as the item type of the sequence or array, and an item that fails makes the attempt fail.",
     "every number of items", "Tests use short lists; other lengths and failing items are not tried.",
     [ENC], [("encode_composite: sequences and arrays", ENC)], AI + "; typestate over 'write prefix / next item / encode item' events with relations between lengths", "Loops are covered for every number of items by the automaton product.")
prop("C13", "Composites become bit sequences only bit by bit",
     "A composite is encoded as a bit sequence only if every item is a bool or the number 0 or 1; the bits are exactly those of the items, in order, in the format the type asks for.",
     "every list of items, every number in them", "Tests use a few bit lists; numbers like 2, -1 or 256 decide whether data is silently corrupted.",
     [ENC], [("encode_composite: bit sequences", ENC)], AI + "; intervals of the numbers accepted as bits, typestate over the items", "All paths with all integer kinds, whatever the bounds are written like.")
prop("C14", "Newtypes are peeled only if there is exactly one thing inside",
     "While looking for an encoding, a composite is replaced by its only value only if it has exactly one, and a target type is replaced by its only field only if it has exactly one.",
     "every composite and type", "The tests only contain types for which peeling succeeds; with several fields the rest would silently be lost.",
     [ENC], [("encode_composite: skipping through newtypes", ENC)], AI + "; interval of the length on every path that takes the first of several", "All paths of encode_as_type_to.")

TOS = "src/string_impls/to_string.rs"
HLP = "src/string_impls/string_helpers.rs"
prop("C16", "Printing a value fails if and only if writing fails",
     "If the writer reports an error anywhere while a value is printed, printing stops and reports an error; no failure is swallowed and none is invented. Apart from values that hold 256 bit numbers, which have no text form, printing to a writer that works succeeds.",
     "every value, style, writer and point at which the writer fails", "Tests print into strings, which never fail.",
     [TOS], [("ToWriterBuilder::write and the Display impls", TOS)], AI + "; typestate of every write result (pending, looked at, failed)",
     "All paths of every public way to print.", over=("inputs", "fault_sequences"))
prop("C17", "Printed text has the grammar of values and leaves nothing out",
     "The text printed for a value is one value of the documented text syntax: '{}' around named, '()' around unnamed items, '<>' around bits, 'v' or the bare name in front of a variant's fields, quotes around characters and strings, plain decimal numbers with their own sign, 'true' and 'false'. All items and bits are printed once, in order, separated by single commas, each named item after its own name and a colon.",
     "every value of every kind and size, in every style", "Tests print a few dozen values; another kind inside another one or another number of items is not tried.",
     [TOS], [("fmt_value, fmt_composite, fmt_variant, fmt_primitive, fmt_bitsequence", TOS)], AI + "; product of all printing paths with a token automaton of the grammar",
     "The automaton runs on all abstract paths; loops are covered for any number of items; nested values by induction.")
prop("C18", "Text inside quotes is escaped so that the parser reads it back",
     "Characters, strings and quoted names are printed so that the escape codes the parser knows stand for exactly the characters the parser turns them into: each character of the text appears once, in order, escaped if and only if it has a code (quotes, backslash, newline, carriage return, tab, nul), with its own code.",
     "every string and character", "Tests cover a few strings; an escape missing or exchanged for a rare character makes printed text unreadable or wrong.",
     [TOS, HLP], [("fmt_string and fmt_char", TOS), ("escape codes", HLP)], AI + "; per character case analysis of the printing loop against the code table",
     "Every character class on every path that prints quoted text.")
prop("C19", "Only names that read back as names are printed without quotes",
     "A field or variant name is printed bare only if the parser would read exactly that name from the bare text: it is not empty, starts with a letter and goes on with letters, digits and underscores only, and, for a variant, it does not start with a word that is read as something else (true, false). All other names are printed as quoted strings.",
     "every name", "Tests try a dozen names (names like 'trueish' were printed bare and could not be read back).",
     [TOS], [("is_ident and fmt_variant / fmt_composite", TOS)], AI + "; facts about each character and prefix on every path to an unquoted name",
     "Every path that prints a name, with the loop over its characters covered for any length.")
prop("C23", "The print styles differ only in whitespace, laid out by depth",
     "Compact output contains no whitespace of its own, normal output single spaces at fixed places. Pretty output puts each item of a non-empty composite on its own line, indented by the leading indent plus one step for each composite around it, and the closing bracket at the depth of the opening one; printing a nested value leaves indentation and settings as they were.",
     "every value, nesting depth, leading indent and indentation step", "Tests compare a few printed samples.",
     [TOS], [("Formatter: indent, unindent, newline, space, item separators", TOS)], AI + "; token automaton with symbolic indentation depth; frame condition of the recursion",
     "All paths in all styles with symbolic depth and indent strings.")
prop("C24", "Custom formatters and context printers are applied to every value",
     "While printing, every value at every depth is offered to each custom formatter, in the order in which they were added, before any of its own text is written; the first that accepts decides the whole text of that value and whether it failed, and the rest are not asked. If a context printer is set, it is called once for every value that is printed, before the text of that value and with the value's own context, and what it writes stands between '<' and '> '. Nested values are printed with the same formatters as the outer one.",
     "every value and every list of formatters", "Tests use one or two formatters on a few values.",
     [TOS], [("fmt_value: custom formatters and context", TOS)], AI + "; typestate over formatter calls and their answers",
     "All paths of ToWriterBuilder::write; nested values by induction.")

FRS = "src/string_impls/from_string.rs"
PAR = AI + "; product of all parser paths with the grammar of values, character by character, with backtracking"
prop("C20", "What is read from a string is exactly the value its text stands for",
     "Parsing succeeds only after it has read the text of one complete value in the documented syntax, to its end and no further. The value returned has the kind that text stands for, true and false are not exchanged, and a composite, variant or bit sequence holds all items of the text, each once, in order, under its own name.",
     "every text, with and without custom parsers", "Tests parse a few dozen texts; malformed texts that happen to be accepted, or items lost in a combination not tried, go unnoticed.",
     [FRS, HLP], [("parse_value and the functions it tries", FRS)], PAR,
     "All abstract paths of FromStrBuilder::parse and of the function that reads nested values; nested values by induction, loops for any number of characters or items.")
prop("C21", "Text that stands for a value is never rejected",
     "Parsing reports an error only if the characters read so far cannot begin any value in the documented syntax, a nested value or a custom parser failed, or a number does not fit into 128 bits. Trying one kind of value never gets in the way of another: what looked at first like a bool, a quoted name or a composite is still read as what it is.",
     "every text that is a value", "Tests parse a few dozen texts; a name that starts like a bool or an unusual space is not among them.",
     [FRS, HLP], [("parse_value and the functions it tries", FRS)], PAR,
     "Every error return is reached only with a proof, from the characters seen, that no value can follow.")
prop("C22", "Numbers are read from all their digits with their own sign",
     "A number is made of all digits of the text up to the first character that cannot be part of it, in order, without the underscores, with the sign in front; it is read as decimal, as U128 without a minus sign and as I128 with one, over the whole range of these types.",
     "every number, with any number of digits and underscores", "Tests try a dozen numbers; limits of the range and unusual underscores are not covered.",
     [FRS], [("parse_number", FRS)], PAR + "; provenance of the digit string", "All paths through the number parser, with loops for any number of digits.")
prop("C25", "Strings, characters and names are read character by character",
     "The string, character, field name or variant name returned holds each character of its text once, in order, with escape codes replaced by the characters they stand for, and ends where its text ends.",
     "every string, character and name", "Tests contain few escapes and hardly any character outside ASCII.",
     [FRS, HLP], [("parse_string, parse_char, parse_ident", FRS), ("from_escape_code", HLP)], PAR + "; provenance of every character kept", "All paths, with loops for any number of characters.")
prop("C26", "Custom parsers come first, at every level, and are followed exactly",
     "For every value at every depth, before anything of it is read, each custom parser is asked in the order added, with exactly the rest of the text. The first answer is final: its value is returned after precisely the text it consumed has been skipped, whatever characters that text consists of; its error is returned with its places shifted to the whole text.",
     "every list of custom parsers, every answer, every text", "Tests use one or two custom parsers on ASCII text (text outside ASCII made parsing skip too much).",
     [FRS], [("custom parsers in parse_value", FRS)], AI + "; typestate over parser calls and answers; linear arithmetic over offsets", "All paths of both parsing functions.")
prop("C27", "Parse errors point into the text and the rest returned is what is unread",
     "A parse error starts at the offset of a place the parser was at and does not end before it starts; the error of a nested value is reported unchanged. The rest of the text returned together with the result is exactly what has not been read.",
     "every text", "Tests check the places of a handful of errors.",
     [FRS], [("FromStrBuilder::parse and all ParseError constructions", FRS)], PAR + "; provenance of offsets", "All error returns and all returns of FromStrBuilder::parse.")

SDE = "src/serde_impls/deserializer.rs"
prop("C28", "Serde visitors are given the value's own content in its own kind",
     "A value that is used as a serde Deserializer hands its whole content to the visitor, once, through the method for its kind: numbers, characters, strings and bools unchanged, named composites as a map and others as a sequence with all items in order (as bytes if bytes are read and every item is a number below 256), variants as an enum with their own name and fields, Some and None variants as an option where one is read, bit sequences as a map holding every bit in order. Where a newtype is read, it gets the value as its only element.",
     "every value, every deserialize method and every visitor", "Tests deserialize a few types; another kind of value under another method, or another number of items, is not tried.",
     [SDE, "src/serde_impls/bitvec_helpers.rs"], [("deserialize_* methods of the five Deserializers", SDE), ("EnumAccess and VariantAccess", SDE)], AI + "; every visitor call compared with the call that the kind of value and the method demand",
     "All paths of all 30 methods of all five Deserializers and of the variant accesses.")
prop("C29", "Numbers reach serde exactly, in types that hold them",
     "When an integer type is deserialized from a number value, the visitor is given the number in that type exactly if it is in the range of that type, and otherwise in the 128 bit type it has; it is never cut, wrapped or changed in sign.",
     "every number and every integer type", "Tests use small numbers; limits of the ranges and negative numbers for unsigned types decide whether data is silently corrupted.",
     [SDE], [("deserialize_u8 .. deserialize_i128", SDE)], AI + "; interval of the number on every path to a visitor call", "All ten integer types in all Deserializers that can hold a number.")
prop("C30", "Deserializing refuses exactly what the shape rules out",
     "Reading a tuple from a composite or variant is refused exactly if the number of values is another one, reading a unit exactly if there are any values, reading bytes from a composite exactly if one of its values is no number below 256, and a bit sequence cannot be read as a newtype, tuple, unit, enum, bytes, sequence or map. No other request is refused by the value itself: it is for the visitor to accept or refuse what it is given.",
     "every value, every length and every deserialize method", "Tests try one or two wrong lengths.",
     [SDE], [("length checks of deserialize_tuple and deserialize_unit", SDE), ("deserialize_* for bit sequences", SDE)], AI + "; relations between lengths on every path to a refusal or a visitor call", "All paths of all methods.")
SER = "src/serde_impls/serializer.rs"
prop("C31", "Any data given to the value serializer becomes its own value",
     "Serializing data into a value gives, for each kind of serde data, the value of exactly that kind with exactly that content: integers in the 128 bit type of their own sign, strings, characters and bools as they are, bytes as a composite of numbers, options, unit variants and newtype variants as the variant of that name, newtype structs as their content. Sequences, tuples, structs and maps become composites (or the variant named) with every element in order under its own name. Floats and map keys that are no strings are refused with an error, never altered, and an error of an element is an error of the whole.",
     "every Serialize type, every content and number of elements", "Tests serialize a few structs with few fields.",
     [SER], [("serialize_* methods of ValueSerializer", SER), ("SerializeSeq, SerializeMap, SerializeStruct and variants of them", SER)], AI + "; provenance of every value returned; collections as induction over start, element and end",
     "All paths of all serializer methods.", over=("inputs", "histories"))
prop("C32", "Values are written to serde serializers completely and in their own kind",
     "Serializing a value makes exactly the calls that belong to its kind on every path: primitives through the method of their kind (integers through the smallest type of their sign that holds them, unchanged), named composites as a map of all entries under their own keys, unnamed ones as a sequence of all elements, variants as their name and their values, bit sequences as a map with the reserved name and the bits in order. A length announced is the length written, and any error of the serializer is the result.",
     "every value and every serializer", "Tests compare the JSON of a few values; a serializer that fails, or that uses the announced length, is not among them.",
     ["src/serde_impls/serialize.rs", "src/serde_impls/bitvec_helpers.rs"], [("Serialize implementations", "src/serde_impls/serialize.rs")], AI + "; protocol automaton over the serializer calls, per kind of value",
     "All paths of the five Serialize implementations.", over=("inputs", "histories"))
DSR = "src/serde_impls/deserialize.rs"
prop("C33", "Serde data of every kind is read as the value it stands for",
     "Deserializing a value, composite, variant or primitive from serde data gives the value of the kind the data has with its own content: numbers in the 128 bit type of their sign, bytes as numbers, sequences as unnamed composites and maps as named ones with all entries in order under their own keys, enums as the variant named with its own fields. A map is read as a bit sequence exactly if its entry has the reserved name under which bit sequences are written. Nothing that stands for a value is refused and errors of the source are passed on.",
     "every self-describing serde format and every content", "Tests read a few JSON samples.",
     [DSR, "src/serde_impls/bitvec_helpers.rs"], [("Visitor implementations", DSR), ("map_access_to_bitvec", "src/serde_impls/bitvec_helpers.rs")], AI + "; provenance of every value returned and of every key and entry read",
     "All paths of all visitor methods of the five Deserialize implementations.")
TOSF = "src/string_impls/to_string.rs"
PANIC = AI + "; intervals, value sets of single bytes and what every path has asked, against the condition of every panic"
PANNOTE = "Every explicit panic, failed unwrap, index, slice bound and checked arithmetic operation that the public functions of these files reach is an obligation; a path to it is reported if everything it has asked leaves it possible. Counting over items in usize, and the depth of recursion, are taken to stay in range."
prop("C07", "Decoding never panics",
     "No bytes, type registry or type id make a decoding function of this crate panic, with or without tracing; whatever cannot be decoded is reported as an error.",
     "every input, registry and type id", "Tests decode well-formed samples; panics wait for shapes that no sample has, such as a type with both named and unnamed fields.",
     [DEC, TRV], [("visitors", DEC), ("tracing visitors, errors and paths", TRV)], PANIC, PANNOTE, over=("inputs", "fault_sequences"))
prop("C08", "Encoding never panics",
     "No combination of value, registry and type id makes encoding panic; a value that does not suit the type is reported as an error.",
     "every value, registry and type id", "Tests encode values that suit their types and a few that do not.",
     [ENC], [("encode_as_type_to and the functions it uses", ENC)], PANIC, PANNOTE)
prop("C09", "Parsing text never panics",
     "No text makes the parser panic, whatever characters it consists of and wherever it ends, with or without the parsers for hex and ss58 text; what is not a value is reported as an error.",
     "every text and every custom parser", "Tests parse well-formed texts and a few dozen errors; a text that ends in the middle of an escape code or is cut inside a character is not among them.",
     [FRS, HLP, "src/string_impls/custom_parsers/hex.rs", "src/string_impls/custom_parsers/ss58.rs"], [("FromStrBuilder::parse and all functions below it", FRS), ("parse_hex", "src/string_impls/custom_parsers/hex.rs"), ("parse_ss58", "src/string_impls/custom_parsers/ss58.rs")], PANIC, PANNOTE)
prop("C15", "Printing and inspecting values never panics",
     "Printing a value with any settings, and looking into it or converting it with the functions of the value types, does not panic, whatever names, texts and numbers of items it has. (Numbers of 256 bits, which to_string is documented not to print, are left out.)",
     "every value, setting and writer", "Tests print and inspect a few dozen values; empty names and empty composites are not among them.",
     [TOSF, "src/value_type.rs", "src/at.rs", "src/string_impls/custom_formatters/hex.rs"], [("ToWriterBuilder::write and Display", TOSF), ("accessors, conversions and At", "src/value_type.rs"), ("format_hex", "src/string_impls/custom_formatters/hex.rs")], PANIC, PANNOTE, over=("inputs", "fault_sequences"))
prop("C34", "Serde conversions never panic",
     "No value makes its Deserializer or Serialize implementations panic, and no sequence of calls of a serde format or data type makes the value's Visitor and Serializer implementations panic. (A map value without a key, which serde rules out, is left out.)",
     "every value, format, data type and order of calls", "Tests convert well-formed data of a few types.",
     [SDE, SER, DSR, "src/serde_impls/serialize.rs", "src/serde_impls/bitvec_helpers.rs"], [("Deserializer, Serializer, Serialize and Visitor implementations", SDE)], PANIC, PANNOTE, over=("inputs", "histories"))
VTF = "src/value_type.rs"
prop("C35", "Tracing errors say where decoding failed and keep what came before",
     "When tracing decoding fails inside an item, the error reports the path to the innermost failing item (each enclosing value adds its own segment: [i] for the item at position i, the name of a named field, the name of the enum variant), that item's own reason, and what had been decoded: all items before it and, once, what had been decoded of the item itself, as the kind of value that was being decoded, with its variant name and type. Displaying the error shows all three and never fails on account of the numbers in it.",
     "every input that fails to decode, at every depth and position", "Tests look at two or three failing inputs; positions, partial values and paths differ for every shape, depth and place of failure.",
     [TRV, "src/scale_impls/tracing_decoder/error.rs", "src/scale_impls/tracing_decoder/path.rs"], [("visit_sequence, visit_array, visit_tuple, visit_composite, visit_variant", TRV), ("with_outer_context, map_decoded_so_far, Display", "src/scale_impls/tracing_decoder/error.rs"), ("Path", "src/scale_impls/tracing_decoder/path.rs")],
     AI + "; typestate automaton over items requested, decoded, stored and reported; paths are terms of pushed segments",
     "All paths through the five visitor methods (items at position 0 to 3 exactly, later ones as the loop's counter), and through both Display implementations.")
prop("C36", "Values are built from exactly what is given",
     "Every constructor and every From conversion of Value, ValueDef, Composite, Variant and Primitive gives the kind of value it stands for, holding exactly what was given: the same name, the same number widened in its own sign, the same text, every item once and in order under its own name, and the context given (or none).",
     "every constructor and conversion, every argument and number of items", "Tests build values with a few small numbers and a few items; repeated names, single integer types or long lists are not looked at.",
     [VTF], [("constructors", VTF), ("impl_primitive_type and the other From implementations", VTF)], AI + "; every returned term compared with the term the constructor stands for; collections by typestate automaton",
     "All paths of all constructors and conversions.")
prop("C37", "Accessors tell what a value holds",
     "as_bool, as_char, as_u128, as_i128 and as_str give the content exactly for values of that kind and nothing for all others. len, is_empty, values and into_values of a composite tell how many values it has and all of them in order, whether they have names or not.",
     "every value", "Tests call them on a few values.",
     [VTF], [("as_* of Value and Primitive", VTF), ("len, is_empty, values, into_values of Composite", VTF)], AI + "; every returned term judged for every kind of value that reaches it",
     "All paths of the accessors.")
prop("C38", "Looking into a value finds the right place or nothing",
     "at() with a name finds the first entry of a named composite (or of the named fields of a variant) whose name is equal, and nothing elsewhere; at() with a number finds the value at exactly that position, named or not; on an Option it finds what at() finds on the value inside. Whatever does not exist gives None.",
     "every value and location, at every depth", "Tests look up a few names and positions that exist once.",
     ["src/at.rs"], [("At implementations", "src/at.rs"), ("AsLocation implementations", "src/at.rs")], AI + "; typestate over the entries looked at and the outcome of comparing their names",
     "All paths of the four At and the AsLocation implementations, loops included.")
prop("C39", "Mapping contexts changes nothing but the contexts",
     "map_context gives the same value with every context, at every depth, replaced by what the function makes of that very context; kinds, contents, names, and the number and order of items stay as they are. remove_context does the same with ().",
     "every value and function", "Tests drop contexts of a few values before comparing them.",
     [VTF], [("map_context of Value, ValueDef, Composite and Variant", VTF)], AI + "; structural induction: every returned term compared with the mapped form of its source",
     "All paths of the five functions; values inside are covered by the recursive calls.")
prop("C40", "Hex formatting: which values, and what digits",
     "The hex formatter shows a value exactly if it is a list of unnamed items, not empty, and all of them are unsigned numbers from 0 to 255; then the text is 0x and the two hexadecimal digits of every item, in order. For every other value it writes nothing and leaves it to the others.",
     "every value", "Tests show three byte strings and two values that are left alone.",
     ["src/string_impls/custom_formatters/hex.rs"], [("format_hex", "src/string_impls/custom_formatters/hex.rs")], AI + "; each branch and each written text is evaluated for every number an item can be (finite set domain)",
     "All paths of format_hex, both loops included. Of the numbers above 255 fifteen stand for all others where a branch compares them.")
prop("C41", "Hex parsing: what is accepted, value, rest and errors",
     "The hex parser takes text exactly if it begins with 0x. If the letters and digits that follow are hexadecimal digits and even in number, the result is the list of the numbers they denote two by two, in order, and the text is wound forwards behind the last digit. Otherwise it fails: at the first letter that is no digit, or for the whole text if the number of digits is odd. Text without 0x is left alone.",
     "every text", "Tests parse seven texts.",
     ["src/string_impls/custom_parsers/hex.rs"], [("parse_hex", "src/string_impls/custom_parsers/hex.rs")], AI + "; sets of possible bytes per place, narrowed at every branch; the pushed terms are evaluated for all pairs of digits",
     "All paths over the first eight places behind 0x; further rounds of the loop run the same code and are joined, the values they push are not judged.")
prop("C42", "SS58 addresses: what is accepted, payload and rest",
     "The ss58 parser takes text exactly if its leading ASCII letters and digits are base58 that decodes to a prefix of one byte (first byte up to 63) or two (64 to 127), a payload, and two bytes equal to the beginning of the Blake2b-512 hash of SS58PRE and everything before them; unless they are true, false or digits alone, or a ( or { follows. The value is the list of the payload bytes, and the text is wound forwards behind the address. Other text is left alone, without an error.",
     "every text", "Tests parse four addresses and refuse two texts.",
     ["src/string_impls/custom_parsers/ss58.rs"], [("parse_ss58", "src/string_impls/custom_parsers/ss58.rs")], AI + "; provenance of the slices that are decoded, hashed, compared and returned; sets of (first byte, length) narrowed at every branch",
     "All paths of parse_ss58. First byte and length range over classes: every length up to 11 and nine above, sixteen first bytes around the limits. base58 and Blake2b themselves are libraries.")
prop("C43", "value! makes the value that is written in it",
     "value! makes the value its input spells: ( ) an unnamed composite, { } a named one, a name before either a variant of that name, anything else what Value::from gives for the expression; nested to any depth, with all items in order, each under its own name (a quoted name without its quotes), whether or not a comma follows the last one. Every such input compiles.",
     "every input of the macro", "Tests use the macro some twenty times.",
     ["src/macros.rs"], [("value! and value_internal!", "src/macros.rs")], AI + " of the expansions: the compiler expands the macro on a systematic family of inputs; every returned term is compared with the value its input spells",
     "1,600 inputs: twelve kinds of items alone, in pairs and in fours, inside each of the four kinds of lists, with and without a comma at the end; fifteen kinds of expressions, seven kinds of names; depth up to four. The expansions are analysed, not run; expressions and their values stay symbolic.", over=("inputs",))
prop("C44", "Settings of printer and parser are independent and kept in order",
     "A new printer prints in normal style, indents by two spaces and has no leading text, context printer or custom formatters; a new parser has no custom parsers. Every method of the two builders changes the one setting it is named after, to exactly what it is given, and leaves all others alone. Custom formatters and parsers go to the end of their lists, each once, so that they are asked in the order they were added.",
     "every builder in every state, every sequence of settings", "Tests set one or two settings; combinations, orders and repeated settings are not looked at.",
     [TOSF, FRS], [("ToWriterBuilder", TOSF), ("FromStrBuilder", FRS)], AI + "; every field of every returned builder compared with what it has to be; typestate over the lists that are added to",
     "All paths of the builder methods. How the settings are used is C23, C24 and C26.")
prop("C45", "Entry points hand over exactly what they are given",
     "from_str, to_string, to_writer, encode_as_type, decode_as_type (with and without tracing), from_value and to_value call the function that does the work once, with exactly their own arguments and default settings, return what that gives, and do nothing else to the buffers, readers and writers they are given; what is decoded is taken from the caller's input.",
     "every call of the entry points", "Tests call them, but compare only the values they give for a few inputs.",
     ["src/lib.rs"], [("stringify, scale, scale::tracing, serde", "src/lib.rs")], AI + "; typestate over the one call on every path: arguments, outcome, effects on what was passed by reference",
     "All paths of the entry points.")
na("N01", "A value printed and parsed again is the same value",
   "Parsing the text that printing a value gives yields this value again, for every value without 256 bit numbers.",
   "every value", "Tests round-trip a few dozen values.", [TOSF, FRS], [("to_string and from_str", TOSF)],
   "It is the composition of two programs over unbounded strings. Its parts are decided: the printer writes the grammar with escapes and quotes that the parser's rules demand (C17, C18, C19), the parser reads that grammar exactly (C20, C21, C22, C25). Composing both on the same text is beyond any static argument in reach (one known exception exists: non-negative I128 numbers print as unsigned ones).")
na("N02", "A value encoded and decoded again is the same value",
   "Decoding what encoding a value to a type has given yields a value that stands for the same data.",
   "every value and type that fit", "Tests round-trip some sixty types.", [ENC, DEC], [("encode_as_type and decode_as_type", ENC)],
   "The bytes are produced and consumed by the libraries scale-encode and scale-decode, driven by a type registry known only at run time; this crate's part, handing over the right values and using the results, is decided (C01, C03, C06, C10 to C14).")
na("N03", "Time and stack needed stay proportional to the input",
   "Encoding, decoding, printing and parsing need time and stack that are bounded in terms of the size and the depth of the input.",
   "every input", "Tests use shallow values.", [ENC, DEC, FRS, TOSF], [("recursive functions", ENC)],
   "Recursion depth and the number of encoding attempts are runtime quantities; they are unbounded in the code as it stands (nested newtype composites that fail to encode are tried twice per level). No bound to check against is stated.")
