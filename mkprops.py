import json
P=[]
def p(id,title,statement,text,why,files,mech,state=(),observe=(),over=("inputs",)):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=list(over),text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
M="src/yaml/"
p("C01","A scalar node always decodes to the text its YAML style denotes",
 "Reading a scalar node as text gives exactly the text YAML assigns to its style: plain text as it stands, single and double quoted parts with their escapes and folded line breaks undone, literal block lines joined by newlines and folded block lines joined by spaces, with empty or more-indented lines and the strip, clip or keep ending handled as the style demands. Every way of reading a scalar (direct decoding, string access on plain or aliased nodes, deserializing into a string) gives that same text, and collections and aliases have none.",
 "every scalar node: all part lists of quoted strings, all line lists and chomping modes of block scalars, all plain texts",
 "the snapshot tests decode about a dozen block scalars and quoted strings; combinations of empty lines, extra indentation, escapes and chomping are unbounded",
 [M+"string.rs",M+"types.rs",M+"aliased.rs",M+"deserializer.rs"],
 [("parse_folded, parse_literal, handle_ending_newlines","src/yaml/string.rs"),("parse_single_quoted_string, parse_double_quoted_string","src/yaml/string.rs"),("YamlTypes::as_string","src/yaml/types.rs, src/yaml/aliased.rs"),("yaml_to_string","src/yaml/deserializer.rs")])
p("C02","Writing a string as a node or text never changes it or its type",
 "Serializing any string gives a node that decodes to that very string and that a reader without type hints takes for a string, never for null, a boolean or a number. Formatting that node inside block or flow collections, with or without beautifying first, and parsing the text gives the same string, again read as a string.",
 "every string, in every position a scalar can take in block and flow collections",
 "tests serialize a handful of ordinary strings; the strings that matter (look like numbers, booleans or null, contain indicators, quotes, backslashes, line breaks, spaces at the ends, non-ASCII spaces) are unbounded",
 [M+"serializer.rs",M+"string.rs",M+"mod.rs","src/utils.rs"],
 [("choice of plain, single-quoted, double-quoted or literal style","src/yaml/serializer.rs str_to_yaml"),("plain scalar tests","src/yaml/string.rs, src/utils.rs"),("escaping on output","src/yaml/mod.rs Yaml::format")])
p("C03","Beautifying a document never changes its data",
 "pretty() keeps the data of every document: the same mappings with the same keys in the same order, the same sequences, the same alias names and references, and every scalar decoding to the same text with the same untyped kind; only the layout (block or flow, scalar style) may change. Comments in block collections that stay block collections, and the comments of the document, stay in place.",
 "every document tree, built by the parser, the serializer or by hand, in which no flow collection holds a block collection with anchored values (which no text can express)",
 "tests beautify about twenty small documents; wrapping and style decisions depend on lengths, word positions, line breaks and nesting",
 [M+"mod.rs",M+"string.rs",M+"hash_element.rs",M+"hash_data.rs",M+"array_data.rs",M+"aliased.rs",M+"document.rs"],
 [("Pretty implementations","src/yaml/mod.rs, hash_data.rs, hash_element.rs, array_data.rs, aliased.rs, document.rs"),("create_literal, split_on_length and the block scalar decision","src/yaml/mod.rs, src/yaml/string.rs")])
p("C04","Beautified flow collections only contain what can be written in them",
 "In the result of pretty() on a document without block scalars inside flow collections, a flow collection contains only flow collections, aliases and quoted or plain scalars: no block mappings, block sequences or block scalars, and no plain scalar with a comma, bracket, brace, double quote, > or |. No block mapping or block sequence without any entry or comment is left anywhere.",
 "every document tree without block scalars inside flow collections",
 "tests inline a few short lists; whether a collection is inlined depends on the content of all its elements at every depth",
 [M+"mod.rs",M+"string.rs"],
 [("is_inlineable, to_inline and the in_inline flag","src/yaml/mod.rs"),("characters that break plain scalars in flow collections","src/yaml/string.rs")])
PATHSTATE=[("path","steps: key, every element, chosen indexes, each with conditions","src/path.rs YamlPath")]
p("C05","Looking up a path finds exactly the values it denotes",
 "Finding the values of a path gives, in document order, the value of the first entry with the named key of each mapping the path reaches, for every sequence step the elements it selects (all of them, or the listed indexes counted over elements and not over comments), restricted to nodes for which all conditions hold (the mapping has the key and its value reads as the given text). Finding values changes nothing in the document, and the document, its aliased nodes and a bare node answer alike.",
 "every document and every path, with or without conditions",
 "tests look up a few fixed paths in fixed documents; index arithmetic, comments between elements, duplicate keys, flow collections and nested conditions combine without bound",
 [M+"insert.rs",M+"mod.rs",M+"array_data.rs",M+"hash_data.rs",M+"hash_element.rs",M+"aliased.rs",M+"document.rs"],
 [("for_hash","src/yaml/insert.rs, mod.rs, array_data.rs, hash_data.rs, hash_element.rs"),("fits_conditions, key_index, key_value","src/yaml/mod.rs")],PATHSTATE)
p("C06","Insert and remove edit exactly the entries the path denotes",
 "Inserting sets the entry named by the last key of the path in every mapping the path reaches: a missing entry is appended, an existing one is replaced only when overwriting is asked for; removing deletes that entry where it exists. The returned count is the number of entries changed, and every other entry, element, comment, alias and order in the document stays as it was.",
 "every document, every path, every inserted value, both overwrite modes",
 "tests insert into and remove from a few fixed documents; what must not change is everything else in documents of any shape",
 [M+"insert.rs",M+"mod.rs",M+"array_data.rs",M+"hash_data.rs",M+"hash_element.rs",M+"aliased.rs",M+"document.rs"],
 [("edit_hash_structure","src/yaml/insert.rs, mod.rs, array_data.rs, hash_data.rs, hash_element.rs"),("insert_into_hash, insert_into_hash_by_call, remove_from_hash","src/yaml/insert.rs")],PATHSTATE)
p("C07","Renaming and wrapping fields change only the fields the path denotes",
 "rename_field gives every field the path denotes the new key and keeps its value, anchor and place; to_object replaces the value of every such field by a mapping with the one given key holding the old value and its anchor. The returned count is the number of fields changed and nothing else in the document changes.",
 "every document, path and new name",
 "tests rename and wrap fields in a few fixed documents",
 [M+"insert.rs",M+"mod.rs",M+"array_data.rs",M+"hash_data.rs",M+"hash_element.rs"],
 [("rename_field, to_object","src/yaml/insert.rs"),("for_hash","src/yaml/mod.rs, array_data.rs, hash_data.rs, hash_element.rs")],PATHSTATE)
p("C08","Moving fields under a subfield loses and duplicates nothing",
 "move_to_subfield takes the named fields out of every mapping the path denotes and puts them, with their values and anchors and in the order given, under the subfield, which is created at the end when it is missing and extended when it is a mapping. A mapping without any of the fields, or whose subfield is not a mapping, stays as it was; no field is lost or doubled, the subfield is never moved into itself, and everything else stays in place.",
 "every document and path, every subfield name and every list of field names",
 "tests move one or two fields in fixed documents; losing data depends on which fields and subfields already exist",
 [M+"insert.rs",M+"mod.rs"],
 [("move_to_subfield","src/yaml/insert.rs")],PATHSTATE)
p("C09","Regrouping records by a field's value keeps every record",
 "move_to_map_with_field_as_key distributes the records of a mapping over groups named by the text of their selector field (groups in name order, records in document order, the selector field removed), leaves records without the selector, or with an empty or kept value, in the old mapping, and adds the groups under the new name. Every record ends up in exactly one place with its key, remaining fields, anchor and the comments before it; where there is nothing to move or the new name is taken, nothing changes.",
 "every document, path, selector, kept values and names",
 "tests regroup two small documents; the distribution depends on every record, its comments and existing names",
 [M+"insert.rs",M+"mod.rs"],
 [("move_to_map_with_field_as_key","src/yaml/insert.rs")],PATHSTATE)
p("C10","Parsing a path never panics and yields the steps as written",
 "Parsing any text as a path gives a path or an error, never a panic; a well-formed text gives its steps in order with the keys, indexes and conditions as written, and an index too large for the machine is an error. Appending a path to a path gives the steps of the first followed by those of the second.",
 "every text, every pair of paths",
 "tests parse about fifteen well-formed paths",
 ["src/path.rs","src/path.pest"],
 [("YamlPath::from_str, PathParser","src/path.rs"),("grammar","src/path.pest"),("YamlPath::insert","src/path.rs")])
p("C11","Visiting a document reaches every anchored value once, in order",
 "visit_yaml calls the visitor exactly once for every mapping value and every sequence element held in a block collection, at every depth and also below flow collections, a node before the nodes inside it and otherwise in document order, and never for comments.",
 "every document tree and every visitor",
 "the tests visit one document",
 [M+"mod.rs",M+"aliased.rs",M+"array_data.rs",M+"hash_data.rs",M+"hash_element.rs",M+"document.rs"],
 [("VisitYaml implementations","src/yaml/mod.rs, aliased.rs, array_data.rs, hash_data.rs, hash_element.rs, document.rs")],
 [("calls","the sequence of nodes the visitor was given","src/yaml/mod.rs VisitYaml")],over=("inputs","programs"))
p("C12","Mapping a document applies the function once to every node, inside out",
 "map_yaml calls the function exactly once for every node of the document, children before the node that holds them and otherwise in document order, and puts each result in the place of its node; keys, comments, aliases and order stay as they were.",
 "every document tree and every function, also stateful ones",
 "the tests map one or two documents",
 [M+"mod.rs",M+"aliased.rs",M+"array_data.rs",M+"hash_data.rs",M+"hash_element.rs",M+"document.rs"],
 [("MapYaml implementations","src/yaml/mod.rs, aliased.rs, array_data.rs, hash_data.rs, hash_element.rs, document.rs")],
 [("calls","the nodes the function was given","src/yaml/mod.rs MapYaml")],over=("inputs","programs"))
p("C13","Deserialized scalars get the type and value their text denotes",
 "A plain scalar read without type hints is null for ~, null, Null and NULL, a boolean for true and false, an integer or a float when its text is one, and a string otherwise; quoted and block scalars are always strings. Asked for a boolean, integer, float, string, option or unit, the deserializer gives the value the text denotes at that type, booleans also by their yes/no/on/off spellings in plain scalars, and an error when it denotes none or is out of range.",
 "every scalar node and every requested scalar type",
 "tests read some thirty fixed scalars",
 [M+"deserializer.rs"],
 [("deserialize_any and the typed deserialize methods","src/yaml/deserializer.rs")])
p("C14","Deserialized collections keep order and content and resolve aliases",
 "Deserializing a block or flow mapping or sequence yields exactly its entries or elements in document order, ignoring comments. An alias stands for the value of the node anchored with its name (also through chains of aliases, and also when the anchor is inside an ignored value); an undefined alias, or an alias that leads back to itself, is an error and never a crash or a hang.",
 "every document whose anchors have distinct names, every requested type",
 "tests read fixed documents with at most three anchors",
 [M+"deserializer.rs"],
 [("YamlDeserializer::new, register, resolve, into_resolved","src/yaml/deserializer.rs"),("hash_entries, seq_values, VecMapAccess, VecSeqAccess","src/yaml/deserializer.rs")],
 [("anchors","values by anchor name","src/yaml/deserializer.rs Anchors")])
p("C15","Any value survives serializing to a tree and deserializing back",
 "Serializing a value of any supported data shape (structs, maps with scalar keys, sequences, tuples, options, all four kinds of enum variants, integers, floats, booleans, characters, strings, units) and deserializing the tree at the same type gives an equal value, also when the tree is beautified in between.",
 "every serializable value built from these shapes at any nesting: integers of at most 64 bits, finite floats, no option directly around a value that is written as null itself, and keys that are scalars the library can write as keys (numbers, booleans, words without special characters)",
 "tests round-trip about ten fixed values",
 [M+"serializer.rs",M+"deserializer.rs"],
 [("YamlSerializer and its compound serializers","src/yaml/serializer.rs"),("YamlDeserializer, enum and map access","src/yaml/deserializer.rs")])
p("C16","Formatting writes one fixed layout that parses back to the same document",
 "Formatting a document that was parsed, its beautified form, or a document made by the serializer gives its text in one fixed layout (a line per entry with the indentation of its level, nested collections two deeper, empty collections as [] and {}, block scalars below their header with every line indented), and that text parses back to the same data (keys, order, anchors, references, scalars) with the same comments in the same order; deserializing it gives the value that was serialized; formatting the text of a parsed document again gives the same text.",
 "every document parsed from text of the supported subset (as in C18), and every serializable collection (as in C15, with keys that are integers, booleans or words of letters, digits, underscores, inner dashes and spaces)",
 "tests compare snapshots of fixed documents; layout, nesting, comments and scalar styles combine without bound",
 [M+"mod.rs",M+"document.rs",M+"aliased.rs",M+"parser.rs","src/yaml.pest"],
 [("format","src/yaml/mod.rs, document.rs, aliased.rs"),("grammar","src/yaml.pest"),("parse_yaml_file","src/yaml/parser.rs")])
p("C17","Parsing never panics and never alters block scalar text",
 "Parsing any text (nested less than some hundred levels) gives a document or an error and never panics or hangs, and a parsed document can be formatted, beautified and deserialized without a panic. A block scalar is read with every line as written below its indentation: no character of the text is cut off, no line lost or added, and invalid indentation indicators are errors.",
 "every input text",
 "tests parse some thirty fixed documents",
 [M+"parser.rs","src/yaml.pest"],
 [("grammar","src/yaml.pest"),("parse_yaml_file, clean_multiline_strings, indentation_to_strip","src/yaml/parser.rs")])
p("C18","Parsing reads every node as written, in its place and order",
 "Parsing a document gives exactly what is written in it: mappings with their keys and values, block sequences (nested ones by the columns of their dashes), flow collections, anchors and references, plain and quoted scalars with their texts and escapes, block scalars with style and ending, and all comments, each at its place and in document order; nothing is dropped, doubled, reordered or attached elsewhere, with LF, CRLF and CR line breaks alike.",
 "every text of the supported subset: a block scalar with an indentation indicator is not the first entry on the line of a dash, quoted line breaks are LF, only spaces separate",
 "tests parse some thirty fixed documents; nesting, layout, comments and scalar styles combine without bound",
 [M+"parser.rs","src/yaml.pest"],
 [("grammar","src/yaml.pest"),("YamlParser rule functions, nest_array_rows, parse_yaml_file","src/yaml/parser.rs")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
