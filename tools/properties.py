import json
S="src/svdsuite/"
def P(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    a={"files":[S+f for f in files],"mechanism":[{"name":n,"where":S+w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":S+w} for n,m,w in state]
    return {"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a}
L=[]
L.append(P("C01","Parsing yields exactly what the document says",
"Parsing a well-formed SVD document yields one object per element, in document order, each value converted to its type (decimal, hexadecimal and binary numbers, booleans, enumerations, text), absent values left unset, and every nested object naming the object that contains it as its parent. The result depends only on the document's content: not on how numbers or booleans are spelled, the order of sibling elements of different kinds, white space, comments, processing instructions, CDATA sections, character references or vendor extensions. Elements nested in a value are not part of it. When a single-valued text element occurs several times the last occurrence is used, even if it is empty, and a parser warning says so; an element with parts of its own (cpu, writeConstraint, range, sauRegionsConfig, dimArrayIndex) given several times is used once, with such a warning, while of lists and the sections that hold them (peripherals, registers, fields) every entry counts.",
["inputs"],"all well-formed SVD documents, in every equivalent spelling",
"The parsing tests check one spelling of each element on fixed files; combinations of optional elements, nestings and spellings are unbounded.",
["parse.py","model/parse.py","model/types.py","util/xml_parse.py"],
[("recursive descent over the XML tree","parse.py:Parser._parse_device"),("number and boolean conversion","parse.py:_to_int, _to_bool"),("enumeration lookup","model/types.py:from_str")],
["Parser.from_xml_content(...).get_parsed_device()","warnings"]))
L.append(P("C02","Serializing and parsing again gives the same device",
"For every parsed-model device, serializing it and parsing the output yields an equal device: every value, list order, attribute and parent relation is preserved, whatever the options (pretty printing, XML declaration) and whether bytes, text or a file are produced. All these outputs denote the same document, and serializing does not change the device.",
["inputs","configurations"],"all parsed-model devices whose text XML can carry; all serializer options and output forms",
"Serializer tests compare fixed element snippets; no test closes the loop over combinations of present and absent members.",
["serialize.py","parse.py","model/parse.py"],
[("one serializer class per element","serialize.py:SVDDeviceSerializer.to_xml"),("file, bytes and text front ends","serialize.py:Serializer")],
["Serializer.device_to_svd_content/str/file","Parser.from_*"]))
L.append(P("C03","Serialized schema-conforming devices pass schema validation",
"If every value of a parsed-model device is one the CMSIS-SVD schema allows, the serialized document is accepted by the validator for the newest schema version, whatever combination of optional members is present. A device derived from a document that validates therefore still validates after a parse and serialize cycle.",
["inputs"],"all devices within the value ranges of the newest CMSIS-SVD schema",
"Element order and spelling constraints only show for particular combinations of optional members; tests serialize a few.",
["serialize.py","validate.py","schema/1.3.11.xsd"],
[("emission in schema order","serialize.py"),("schema validation","validate.py:Validator._validate")],
["Validator.validate_xml_content(Serializer.device_to_svd_content(device))"]))
L.append(P("C04","The processed device converts back to an equivalent plain device",
"Converting a processed device back to the parsed model yields a plain, fully expanded description: no derivations and no dimension information remain, every object names its container as parent, and it has the same elements in the same order with the same values as the processed device. Processing it again (directly, or after serializing and parsing) yields the same processed device (only the size of a container from which elements were left out with a warning may differ), and it shares no object with the processed device, so changing one never changes the other.",
["inputs"],"all documents that can be processed",
"Tests compare the conversion on one or two devices; loss shows only for particular combinations of values.",
["util/process_parse_model_convert.py","process.py","serialize.py"],
[("conversion functions, one per element kind","util/process_parse_model_convert.py")],
["Process.convert_processed_device_to_svd_device()","Process on its serialization"]))
L.append(P("C05","A derived element equals its base overridden by its own content",
"An element with derivedFrom takes every inheritable property it does not state itself from the referenced element (including what that element in turn derived), keeps what it states itself, and has its own children plus all children of the base; the base itself is unaffected. The reference is resolved among the element's siblings first and otherwise by path from the peripherals, across any nesting, dimension and chain length. What the standard converter does not inherit (interrupts, header structure name of a peripheral) is not inherited.",
["inputs"],"all documents with resolvable derivations, at peripheral, cluster, register, field and enumerated-values level",
"Tests hold about 170 hand-made scenarios; the combinations of level, path form, chain, override set and dimension are unbounded.",
["process.py","resolve/resolver.py","resolve/graph.py"],
[("merge of own and base values","process.py:Process._process_peripheral/_process_cluster/_process_register/_process_field"),("path lookup","resolve/resolver.py:Resolver._derived_from_path_resolving"),("copying of children","resolve/graph.py:ResolverGraph.replicate_descendants")],
["Process.from_xml_content(...).get_processed_device()"],
[("resolver graph","elements with child and derivation edges","resolve/graph.py:ResolverGraph")]))
L.append(P("C06","The order of definitions does not change the processed device",
"Permuting sibling definitions in a document (peripherals, registers and clusters, fields, enumerated values, address blocks, interrupts), including so that a derived element comes before or after its base, changes neither the processed device nor whether the document is accepted. Forward references across any number of resolution steps work exactly like backward references.",
["inputs"],"all permutations of sibling definitions of all processable documents with distinct names (of definitions that clash and are left out with a warning, which one is left out may follow the order)",
"A test fixes one order; the number of orders is factorial and the resolver takes different rounds for each.",
["resolve/resolver.py","resolve/graph.py","process.py"],
[("rounds of placeholder resolution and topological processing","resolve/resolver.py:Resolver.resolve_peripherals"),("final sorting","process.py:_ValidateAndFinalize")],
["Process.from_xml_content on each permutation"]))
L.append(P("C07","Dimensioned elements equal their manual expansion",
"A peripheral array or a cluster, register or field list or array with dim n stands for exactly n elements: the i-th is named and displayed by substituting its index (array position, or the i-th entry of dimIndex in numeric-range, letter-range or list form, or 0..n-1 without one), lies i times dimIncrement further, and otherwise has all properties and children of the definition. Processing equals processing the manually unrolled document, for any nesting of dimensions.",
["inputs"],"all valid dim/dimIncrement/dimIndex combinations at every level and nesting",
"Tests cover single levels with small counts; nestings, index forms and their interplay with derivation and offsets are unbounded.",
["process.py","resolve/resolver.py"],
[("index and name expansion","process.py:_ProcessDimension"),("instance nodes","resolve/resolver.py:Resolver._update_dim_node")],
["Process.from_xml_content on the dimensioned and on the unrolled document"]))
L.append(P("C08","Sizes are inherited and then adjusted to the largest element",
"Working from the innermost clusters outward, each cluster and peripheral gets the largest size of the registers and clusters it contains, where one without a stated (or derived) size counts with the size stated by the innermost enclosing element, the device, or else 32 bits; a register without a stated size then reports the size of its container. Elements whose size is not a multiple of 8 are left out with a warning and do not influence their container's size.",
["inputs"],"all combinations of stated and unstated sizes over every nesting of device, peripheral, cluster and register",
"The rule couples all levels of a tree; tests fix a few trees.",
["resolve/resolver.py","process.py"],
[("bottom-up maximum","resolve/resolver.py:Resolver._calculate_size"),("upward search","resolve/resolver.py:Resolver._get_parent_size_recursively"),("top-down inheritance","process.py:_InheritProperties")],
["Process.from_xml_content(...).get_processed_device(): size of every element"]))
L.append(P("C09","Access, protection, reset and write properties are inherited with defaults",
"Access, protection, reset value and reset mask of a peripheral, cluster or register are the value it states, else what it derives, else those of the innermost enclosing element that has one, else read-write, any, 0 and 0xFFFFFFFF; a field takes access and write constraint from its register in the same way. Explicit values, including 0 and false, are never replaced by defaults, and the processor description gets its documented defaults only where nothing is stated. Descriptive values are carried over unchanged.",
["inputs"],"all combinations of stated and unstated properties over every nesting level, with and without derivation",
"2^k present/absent combinations over up to six levels; tests pick some, and falsy explicit values rarely.",
["process.py","model/process.py"],
[("top-down inheritance","process.py:_InheritProperties"),("device and processor defaults","process.py:Process._process_device, _process_cpu")],
["Process.from_xml_content(...).get_processed_device()"]))
L.append(P("C10","Field positions agree in all notations and fields never collide unnoticed",
"A field given by bit offset and width, by lsb and msb, or by bit range has the same position; lowest and highest bit, offset, width and range of the result always agree with each other, and parts not stated are completed from the base field. Fields are ordered by position; a field beyond its register's size is reported with a warning, and two fields of a register that share a bit in the same access direction are rejected, while overlapping read-only and write-only fields are accepted.",
["inputs"],"all bit positions, notations, partial overrides and access combinations of the fields of a register",
"The interplay of three notations with derivation, dimension and access domains is combinatorial; tests pick points.",
["process.py","model/process.py"],
[("position computation","process.py:Process._process_field_msb_lsb"),("collision check","process.py:_ValidateAndFinalize._validate_and_finalize_fields")],
["processed fields","ProcessException","warnings"]))
L.append(P("C11","Enumerated values are resolved completely and exactly",
"Processed enumerated values name each number at most once, in ascending order, and all lie within the field's width: numbers in any base are converted exactly, a pattern with don't-care bits stands for exactly the matching numbers, and a default entry stands for exactly the numbers no other entry covers. Duplicate names (made-up ones for the numbers of patterns and defaults included) or numbers, reserved entries and out-of-range numbers are left out with a warning; two defaults, entries without number, and invalid usage combinations are rejected. Derived sets of enumerated values resolve like the originals in the deriving field's width.",
["inputs"],"all sets of enumerated values over all field widths, with patterns, defaults, duplicates and derivation",
"Coverage of patterns and defaults is a set property over 2^width numbers; tests list a few results.",
["process.py","resolve/resolver.py"],
[("conversion and wildcard expansion","process.py:_ProcessEnumeratedValueContainer"),("uniqueness","process.py:_EnumeratedValueValidator"),("usage rules","resolve/resolver.py:Resolver._finalize_field_node")],
["processed enumerated values of every field","warnings","ProcessException"]))
L.append(P("C12","Addresses, extents and ordering of the processed device are consistent",
"The absolute address of a register or cluster is the base address of its peripheral plus all enclosing offsets; the end and size reported for a cluster or peripheral follow exactly from its contents or from its address blocks. Peripherals, registers, clusters, fields, address blocks and interrupts come in ascending position, and the flat register list of a peripheral contains each of its registers exactly once, in ascending address order.",
["inputs"],"all nestings of peripherals, clusters and registers with arbitrary offsets, sizes and address blocks",
"Arithmetic identities over arbitrary trees; tests check chosen addresses.",
["process.py","model/process.py"],
[("address arithmetic and sorting","process.py:_ValidateAndFinalize"),("flat register list","process.py:_ValidateAndFinalize._extract_registers")],
["base, end and size attributes and list orders of the processed device"]))
L.append(P("C13","Every unintended address overlap is reported, and only those",
"When two peripherals (each occupying everything from its base address to the end of its last address block), or two registers or clusters of one container, occupy a common address without being declared alternatives of each other, processing emits a warning naming both, however many other elements lie between them; every overlapping pair of address blocks of a peripheral is reported too. No overlap warning is emitted for elements that do not share an address, nor for declared alternates (directly, as alternates of the same element, or, where both are alternates of something, through others) or alternate groups.",
["inputs"],"all arrangements of peripherals, registers, clusters and address blocks with and without alternates",
"Overlap is a relation over all pairs; tests check single neighbouring pairs.",
["process.py"],
[("pairwise sweep with alternates","process.py:_ValidateAndFinalize._check_peripheral_address_overlaps, _check_registers_clusters_address_overlaps")],
["ProcessWarning emitted during Process.from_xml_content"]))
L.append(P("C14","Nothing disappears silently, and duplicate names are rejected",
"Every element of the fully expanded description appears in the processed device unless it is one of the documented exceptions (named reserved, empty container, unusable size), and each such omission is announced by a warning. Two elements with the same name in the same scope (after expansion and derivation; registers in different alternate groups excepted) make processing fail with the library's process exception instead of one hiding the other.",
["inputs"],"all documents, with omitted kinds of elements and name clashes placed at any level",
"Conservation over arbitrary trees; tests check chosen elements.",
["process.py"],
[("finalization","process.py:_ValidateAndFinalize")],
["element census of the processed device against the document","warnings","ProcessException"]))
L.append(P("C15","Unresolvable derivations are refused, promptly and uniformly",
"A document whose derivations cannot be resolved (missing target, target of another kind, ambiguous target, cycle of any length, element derived from its own container or from itself) makes processing end, in a number of steps bounded by the document's size, with the library's process exception. It never hangs, never returns a device, and never leaks another error type.",
["inputs"],"all documents with at least one unresolvable derivation, at any level, alone or hidden among valid ones",
"Cycles of every length through every mix of levels; tests contain a few.",
["resolve/resolver.py","resolve/graph.py","process.py"],
[("cycle check on insertion","resolve/graph.py:ResolverGraph.add_edge"),("loop and leftover detection","resolve/resolver.py:Resolver.resolve_peripherals"),("exception mapping","process.py:Process._process_device")],
["exception type and time or step count of Process.from_xml_content"]))
L.append(P("C16","Malformed content is rejected, never silently misread",
"A document lacking a mandatory element (an empty one counts as absent) is rejected with the parser exception; values that are not numbers, booleans or known enumeration members, malformed or inconsistent dimension specifications, bit ranges or enumerated numbers, and fields without position raise an error; markup that is not well-formed is refused or announced by a parser warning. No such document yields a device in which the malformed value was guessed, truncated or dropped without a warning; an unknown access value is announced by a warning.",
["inputs"],"all documents obtained from valid ones by removing a mandatory element or damaging a value",
"One damage per place and form; tests damage a few places.",
["parse.py","process.py","model/types.py"],
[("mandatory elements","parse.py:Parser._parse_element_text"),("conversion errors","parse.py:_to_int, model/types.py"),("dimension checks","process.py:_ProcessDimension")],
["exception or device plus warnings"]))
L.append(P("C17","Processing is a pure, repeatable function of the document",
"Processing, converting, mapping, serializing and validating do not modify the parsed or processed objects they are given, and a result never depends on what was processed before, on other threads processing at the same time, or on the interpreter's hash seed. Repeating a call gives an equal result, the same collection of warnings and the same exception type, and results of different calls share no mutable state.",
["histories","schedules","inputs"],"all sequences and concurrent interleavings of library calls in one interpreter, and all hash seeds",
"Tests run one call at a time in a fresh state and never compare histories, threads or hash seeds.",
["process.py","resolve/resolver.py","map.py","serialize.py","util/process_parse_model_convert.py"],
[("per-instance resolver and graph","resolve/resolver.py:Resolver.__init__"),("sorting of set-ordered data","process.py")],
["snapshots of inputs before and after","results across repetitions, threads and processes"]))
L.append(P("C18","The register map shows every register once at its absolute address",
"The peripheral register map has one entry per processed peripheral, in ascending address order, with the peripheral's base address and, as allocated range, the smallest range covering all its address blocks; under it every register of the peripheral, however deeply nested in clusters, appears exactly once with its absolute address and the size, access, protection, reset values, names and fields of the processed register. All ways of building the map give the same map.",
["inputs"],"all processable devices with any nesting of clusters and any address blocks",
"The map has no tests of its own beyond examples; nesting and block layouts are unbounded.",
["map.py","model/map.py"],
[("recursive map construction","map.py:PeripheralRegisterMap")],
["PeripheralRegisterMap.peripheral_map"]))
L.append(P("C19","Schema validation gives the schema's verdict through every entry point",
"For every supported schema version and document, validation returns true exactly if the document conforms to that version of the CMSIS-SVD schema; on a non-conforming document it returns false, or raises a validation error when exceptions are requested, which is the default. File, bytes and text entry points agree, the newest version is the default, and the verdict does not depend on earlier validations.",
["inputs","configurations"],"all documents, all schema versions, both exception modes, all entry points",
"Tests validate a few documents; versions times entry points times modes times kinds of non-conformance are not covered.",
["validate.py","schema"],
[("schema selection and validation","validate.py:Validator._validate"),("newest version","validate.py:SVDSchemaVersion.get_latest")],
["Validator.validate_xml_file/content/str return value or exception"]))
L.append(P("C20","The same document gives the same result through every entry point and encoding",
"Reading a document from a file, from bytes or from text gives the same parsed device, processed device, register map and validation verdict, and the same failure, whatever declared or detected encoding carries it (UTF-8 with or without byte order mark, UTF-16, single-byte encodings) and for every character. A document whose bytes do not match its declared encoding is either read as the announced fallback encoding says, with a warning (as UTF-8 if it is UTF-8), or rejected with the XML library's error, and external files referenced by a document are not pulled into the result.",
["inputs","configurations"],"all documents, encodings and entry points",
"Tests use ASCII content in UTF-8 through one entry point.",
["parse.py","process.py","map.py","validate.py","util/xml_parse.py"],
[("encoding fallbacks","util/xml_parse.py:safe_parse, safe_fromstring"),("text entry points","parse.py:Parser.from_xml_str")],
["results of from_svd_file / from_xml_content / from_xml_str"]))
L.append(P("C21","A device that cannot be serialized never destroys an existing file",
"Writing a device to a file either leaves exactly the serialized document there or, if the device cannot be serialized, leaves an existing file untouched and creates none; an input/output error while writing reaches the caller. Reading, processing, mapping and validating never change the input file, and no call leaves other files or open file handles behind.",
["fault_sequences","inputs"],"all devices including ones that cannot be serialized, existing and new targets, and injected write errors",
"Tests only write valid devices to fresh paths.",
["serialize.py","parse.py","validate.py"],
[("serialization before opening","serialize.py:Serializer.device_to_svd_file")],
["directory contents and file bytes before and after, audit of file opens"]))
L.append(P("C22","Resolver logging never changes the outcome",
"Requesting a resolver log changes neither the processed device, the warnings nor the exception raised for any document and any entry point; when the call ends, with a result or with the process exception, a readable log is at exactly the requested path and no other file was left, and without a request no file is written and no drawing backend is needed.",
["inputs","configurations"],"all documents and entry points, with and without a log path",
"No test enables logging; the drawing backend is not available in the test environment.",
["resolve/logger.py","util/html_generator.py","resolve/graph.py","resolve/resolver.py"],
[("logging guarded by the path","resolve/logger.py:ResolverLogger"),("report generation","util/html_generator.py")],
["processed device, warnings and exception with and without the log path; files written"]))
L.append(P("C23","Every tolerated irregularity is announced, and nothing else is",
"Parsing and processing emit a warning of the parser or process category, naming the element, for each irregularity they tolerate: surrounding white space removed from a value or attribute, a single element (with text or parts) given several times, a missing schema location, device description or interrupt number, an unknown access value (one parser warning each); a register or cluster offset that is not a multiple of its size or of four bytes, whichever is smaller, a peripheral base address that is not a multiple of four, a dimension on a name without placeholder, a field beyond its register, and anything left out (one process warning per affected element of the expanded device, at least one per faulty definition). A document without irregularities produces no warning at all, through any entry point, nor does converting, serializing, validating and re-reading the device made of it.",
["inputs"],"all documents with any combination of tolerated irregularities, and all documents without any",
"Tests expect particular warnings for particular inputs; that no warning is missing, doubled or spurious is a statement about every document.",
["parse.py","process.py"],
[("parser warnings","parse.py:Parser._parse_element_text, _parse_element_attribute, _parse_device, _parse_interrupts"),("process warnings","process.py:_ValidateAndFinalize, _ProcessDimension")],
["warnings recorded during Parser and Process calls"]))
for p in L:
    assert len(p["title"])<=80,(p["id"],len(p["title"]))
open("/verif/properties.jsonl","w").write("".join(json.dumps(p)+"\n" for p in L))
print(len(L))
