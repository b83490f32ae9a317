#!/usr/bin/env python3
"""Source of properties.jsonl (kept in Python so that the long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

NL = "src/NodesetLoader.c"; NS = "src/Nodeset.c"; SORT = "src/Sort.c"; VAL = "src/Value.c"; ARENA = "src/CharAllocator.c"
PARSER = "src/Parser.c"; BIMP = "backends/open62541/src/import.c"; BDT = "backends/open62541/src/DataTypeImporter.c"
BVAL = "backends/open62541/src/Value.c"; BREF = "backends/open62541/src/RefServiceImpl.c"; IREF = "src/InternalRefService.c"

p("C01", "Importing any byte sequence is memory safe and terminates",
  "For any file content, including truncated, malformed, structurally unexpected or hostile XML, importing the file, sorting, iterating the nodes and deleting the loader never crashes, never reads or writes outside its memory, never runs into undefined behaviour and always terminates. The same holds when the calls are made on a loader whose import failed or that never imported anything.",
  ["inputs", "histories"], "all file contents up to a few hundred kB, imported alone or in sequence, followed by any of sort / iterate / delete",
  "The tests import a handful of well-formed files; the input space of malformed and oddly nested XML (elements in unexpected parents, missing attributes, values that do not fit the expected shape) is unbounded.",
  [NL, NS, VAL, PARSER, "src/AliasList.c", IREF],
  [("SAX state machine", NL + " OnStartElementNs/OnEndElementNs/OnCharacters"), ("value parser state machine", VAL), ("push parser loop", PARSER)],
  ["sanitizer reports, signals and CPU limit of the process that runs the public API"])

p("C02", "Every node of the nodeset is reported exactly once, in its class",
  "After a successful import and sort, iterating over the node classes reports every UA* node element of all imported files exactly once, under its own node class and with its own node id, and no other node; the returned count equals the number of reported nodes. If a node id occurs more than once, exactly one node is reported for it: the one that was completed first.",
  ["inputs", "histories"], "all nodesets (any number of nodes per class, any id kind, any mix of classes, duplicates) over one or several files imported into one loader",
  "Tests count nodes in a few fixed files; container growth thresholds, id-kind mixes, balanced-tree shapes and duplicate positions are not sampled.",
  [NL, NS, SORT, "src/nodes/NodeContainer.c"],
  [("node containers per class", "src/nodes/NodeContainer.c NodeContainer_add"), ("sorted output feeding the containers", SORT + " Sort_start"), ("duplicate detection", SORT + " Sort_addNode")],
  ["NodesetLoader_forEachNode for all eight classes"])

p("C03", "Sort yields a topological order; cyclic hierarchies are rejected",
  "After a successful sort, within every node class a node that is the parent of another node of that class, directly or through other nodes, by hierarchical references in either notation (inverse on the child, forward on the parent) or by ParentNodeId alone, is reported before it. If the hierarchical references among the nodes form a cycle, sort returns false and logs an error; for acyclic nodesets it returns true, independent of the order of nodes in the file.",
  ["inputs"], "all node graphs (chains, trees, DAGs, self references, cycles of any length, references to nodes outside the file) in any document order",
  "sort.c tests nine hand-made graphs; the search-tree rotations and edge bookkeeping depend on the whole insertion history.",
  [SORT, NS, IREF],
  [("Knuth-style topological sort over a balanced tree", SORT + " Sort_addNode/search_node/Sort_start"), ("classification that supplies the edges", NS + " Nodeset_newReference")],
  ["order of NodesetLoader_forEachNode callbacks", "return value of NodesetLoader_sort", "logger"])

p("C04", "Node attributes arrive exactly as written, or as the documented default",
  "Every attribute the loader exposes for a node (node id, browse name, parent id, data type, value rank, array dimensions, access levels, historizing, sampling interval, event notifier, abstract, symmetric, executable, contains-no-loops) equals what the XML attribute of the same name denotes, for any attribute order and any additional unknown attributes. An absent optional attribute yields its default value, and an attribute of one node never influences another node.",
  ["inputs"], "all node classes x subsets, orders and contents of attributes, including entity-encoded characters and all node id kinds",
  "nodeAttributes tests a few nodes with plain values and only through a server.",
  [NS], [("attribute lookup with defaults", NS + " getAttributeValue/extractAttributes"), ("browse name split", NS + " extractBrowseName"), ("node id parsing", NS + " extractNodedId")],
  ["NL_*Node fields in NodesetLoader_forEachNode callbacks"])

p("C05", "Text content arrives complete and unmodified, whatever its size or encoding form",
  "The text of display names, descriptions, inverse names (with their locale), aliases, reference targets, namespace URIs and primitive values equals the XML character data of that element, regardless of its length, of where the reader's chunk boundaries fall, and of whether characters are written literally, as entities or character references, or in CDATA sections, or interrupted by comments. Texts handed out earlier never change while more of the file is read.",
  ["inputs"], "all UTF-8 texts of 0..several MB, split into character-data events in any way, at any file offset",
  "Tests use short plain texts; multi-event character data, region changes of the text arena and chunk-boundary positions are not sampled.",
  [NL, ARENA, PARSER], [("accumulating character data", NL + " OnCharacters"), ("arena realloc of the latest block", ARENA + " CharArenaAllocator_realloc")],
  ["NL_LocalizedText, NL_Data, NL_Reference.target fields after import"])

p("C06", "References keep direction, type and target and are classified correctly",
  "Every Reference element of a node appears exactly once on that node with its direction, reference type and target; HasTypeDefinition of objects and variables is reported as the type definition, all others in the list (hierarchical or non-hierarchical) that the type hierarchy of its reference type determines. This includes reference types defined in the same nodeset before or after their use, arbitrarily many of them and arbitrarily deep; the only reference the loader adds is the inverse parent reference (of the type with which a parent in the file refers to the node, if any) for an instance node that has a ParentNodeId and no inverse hierarchical reference.",
  ["inputs"], "all nodes x multisets of references over standard and custom (sub)types of reference types, any position of the reference type's definition",
  "Existing tests use one custom hierarchical reference type; counts, depth and definition order are unbounded.",
  [NS, IREF, "include/NodesetLoader/ReferenceService.h", SORT],
  [("classification on read", NS + " Nodeset_newReference"), ("deferred classification", NS + " lookupUnknownReferences/lookupReferenceTypes"), ("internal reference service", IREF)],
  ["hierachicalRefs / nonHierachicalRefs / refToTypeDef of reported nodes"])

p("C07", "Namespace indices are translated through each file's own NamespaceUris",
  "A namespace index n>0 written in a file (in node ids, browse names, reference types and targets, data types, parent ids, aliases, field data types) is reported as the index the caller's addNamespace callback returned for the n-th Uri of that same file, and index 0 stays 0. The callback is invoked exactly once per Uri element, in document order, with the caller's user context and the exact URI, also when several files with different namespace tables are imported into one loader.",
  ["inputs", "histories"], "all namespace tables (0..many entries), all index maps returned by the callback, sequences of files with differing tables",
  "multipleNamespaces uses one fixed table and one file.",
  [NS, "src/NamespaceList.c", NL], [("index translation", NS + " translateNodeId/translateBrowseName"), ("namespace table", "src/NamespaceList.c")],
  ["ids in reported nodes", "addNamespace callback log"])

p("C08", "Aliases resolve to the node id they name, for any number of aliases",
  "Wherever a node id may be given by alias (reference types, reference targets, data types of variables, variable types and fields), the alias denotes exactly the node id the file's Aliases section gives it, with its namespace translated, for any number and length of aliases and any id kind; a text that is no alias is read as a node id. Aliases of one file do not affect another file.",
  ["inputs"], "alias tables of 0..1000s entries, names that are prefixes of each other, numeric/string/guid/opaque ids, several files",
  "Tests use the standard alias blocks of ordinary nodesets (well under a hundred numeric ids).",
  ["src/AliasList.c", NS], [("alias list", "src/AliasList.c"), ("lookup before parsing", NS + " alias2Id")],
  ["refType/target/datatype fields of reported nodes"])

p("C09", "Variable values are reported as the tree the XML describes",
  "For a variable with a well-formed Value (scalar, list, extension object, list of extension objects, nested structures and lists), the reported value has the right array and extension-object flags, the type name or encoding id, and a data tree whose members have the element names, nesting, order and texts of the XML, whatever the number of elements and depth. Element names that recur at several levels, and empty elements, do not disturb it.",
  ["inputs"], "all value trees built from the Part 6 XML shapes, with any names, arities and depths",
  "ValueTest.c covers eleven fixed event sequences.",
  [VAL, NL], [("value state machine", VAL + " Value_start/Value_end")], ["NL_VariableNode.value"])

p("C10", "Data type definitions are reported field by field as written",
  "For a data type with a Definition, the reported definition lists its fields in order with name, data type (alias and namespace resolved), value rank, optional flag and enum value as written or defaulted (for enumerations name and value; an option set is reported by its flag, without fields), and its union, option-set and enum flags follow the XML. A data type without Definition reports none, whatever the number of fields or data types in the file.",
  ["inputs"], "all structure / union / optional / enum / option set definitions with 0..100s fields",
  "Only a few generated-type comparisons exist, none for the core loader's definition.",
  [NS, "src/nodes/DataTypeNode.c"], [("definition construction", NS + " Nodeset_addDataTypeDefinition/Nodeset_addDataTypeField")], ["NL_DataTypeNode.definition"])

p("C11", "Everything allocated during a loader's life is released exactly once",
  "After the loader is deleted every block of memory and every file handle obtained during its life has been released, exactly once, for every history: successful import, failed or truncated import, duplicates, cycles, unsorted loaders, several files. The same holds for the server backend once the server and its custom data types are cleaned up.",
  ["inputs", "histories"], "all inputs (well formed or not) x histories of new/import*/sort?/iterate*/delete, and of loadFile*/server delete",
  "Tests run under ASan in CI only for the successful paths of a few files.",
  [NL, NS, "src/nodes/Node.c", "src/nodes/NodeContainer.c", VAL, "src/AliasList.c", PARSER, BIMP, "backends/open62541/src/customDataType.c"],
  [("node destruction", "src/nodes/Node.c Node_delete"), ("ownership of containers", NS + " Nodeset_cleanup"), ("parser context", PARSER)],
  ["allocation ledger of the process (malloc family and libxml2 allocator interposed)", "open file descriptors"])

p("C12", "Content without meaning to the loader does not change the result",
  "Adding comments, processing instructions, whitespace between elements, an XML declaration, namespace prefixes on the nodeset elements, attributes the loader does not know, or unknown elements with arbitrary subtrees (even ones containing the names of known elements) next to the known child elements leaves everything the loader reports unchanged.",
  ["inputs"], "all nodesets x all insertions of ignorable content at any legal position",
  "No test inserts ignorable content except one unknown element.",
  [NL], [("unknown-element skipping with depth count", NL + " enterUnknownState / PARSER_STATE_UNKNOWN")], ["metamorphic: dump of original = dump of decorated file"])

p("C13", "A file that cannot be read completely is reported as failed",
  "If the file does not exist, is empty, is not well-formed XML, is cut off at any byte before the end of the root element or cannot be read to its end because of a read error, the import returns false and logs at least one error; a well-formed nodeset file imports with true and no error is logged. A missing file context or missing namespace callback is also rejected with false.",
  ["inputs", "crash_points", "fault_sequences"], "all files, all truncation offsets, all read errors, all single-site well-formedness faults",
  "Tests check one missing file; truncation at every offset is not tested.",
  [PARSER, NL], [("result of the push parser", PARSER + " Parser_run"), ("file open and context checks", NL + " NodesetLoader_importFile")], ["return value and logger of NodesetLoader_importFile"])

p("C14", "Loaders are independent of each other and of what ran before",
  "What a loader reports depends only on the files imported into it: importing, sorting or deleting any other loaders before, after or in between (interleaved on one thread), including failing imports, changes nothing, and repeating an import with a fresh loader gives the identical result.",
  ["histories"], "all interleavings of operations on several loaders in one process",
  "Every test uses one loader per process or cleans up fully in between; process-wide state is not exercised.",
  [IREF, NL, NS, PARSER], [("per-loader nodeset and reference service", NL + " NodesetLoader_new"), ("table of hierarchical reference types", IREF)], ["dump of each loader compared with the dump from a fresh process"])

p("C15", "The text arena hands out disjoint, zeroed, stable memory",
  "Every block obtained from the character arena is zero-filled, has at least the requested size, does not overlap any other block and keeps its address and content until the arena is deleted. Growing the most recent block by n bytes preserves its content, yields at least the previous size plus n, zero-filled in the new part, and leaves all earlier blocks untouched, for any initial size and sequence of requests.",
  ["histories"], "all sequences of malloc/realloc requests of any size relative to the initial region size",
  "allocator.c has five fixed sequences with sizes near one region.",
  [ARENA], [("region list and current block", ARENA)], ["CharArenaAllocator_* API with shadow copies under ASan"])

p("C16", "Extension handlers see exactly the events inside each Extension element",
  "For each Extension element of a node the handler gets exactly one new call, then start/end calls mirroring the elements inside it in document order with their names, attributes and text, then one finish call, all with the object that new returned, and that object is attached to the node that contains the extension. Without a handler, extensions are skipped without influence on the rest.",
  ["inputs"], "all extension subtrees on any nodes, with and without handler",
  "extension.c checks two extensions with one fixed handler.",
  [NL, "include/NodesetLoader/Extension.h"], [("extension state", NL + " PARSER_STATE_EXTENSION(S)")], ["recorded handler calls", "NL_Node.extension"])

p("C17", "The result does not depend on the order of nodes in the file",
  "Permuting the node elements of a nodeset (ids unique) changes neither whether import and sort succeed nor the set of reported nodes with their attributes, references, values and definitions; only the order may differ within the constraint that parents precede children.",
  ["inputs"], "all nodesets x all permutations of their node elements",
  "One test (invalid ordering DI) permutes one file once.",
  [SORT, NS], [("sort", SORT), ("deferred classification of references", NS + " lookupReferenceTypes")], ["metamorphic: canonical dump of permuted file = canonical dump of original"])

p("C18", "Diagnostics reach the given logger formatted; the default logger prints them",
  "Every failure (import or sort returning false, a duplicate node id) is reported with at least one error-level call on the logger given to the loader, passing a format and matching arguments; nothing is written to standard output then. Without a given logger, the default loggers print one line per message that carries the severity and the message with its arguments filled in.",
  ["inputs", "histories"], "all failing histories, all messages/levels/arguments given to the default loggers",
  "No test looks at log output.",
  ["src/InternalLogger.c", "src/PrintfLogger.c", NL, NS, SORT], [("default logger", "src/PrintfLogger.c, src/InternalLogger.c")], ["logger callbacks", "stdout of the process"])

p("C19", "Encoding nodes are linked to their data types",
  "The list of bidirectional references contains exactly one entry for every inverse HasEncoding reference of a node whose browse name is Default Binary, with the data type as source, the encoding node as target, and no other entries.",
  ["inputs"], "all nodesets with any number of encoding nodes, browse names and reference directions",
  "Covered only indirectly by data type import of fixed files.",
  [NS], [("HasEncoding special case", NS + " Nodeset_newReferenceFinish")], ["NodesetLoader_getBidirectionalRefs"])

p("C20", "Loading into a server creates every node with its attributes",
  "After a successful load into a server whose address space contains the referenced standard nodes, every node of the file exists in the server under its (mapped) id with the node class, browse name, display name, description and class specific attributes the file states or the documented defaults, and no other node is created. Nodes already present in the server keep their attributes.",
  ["inputs"], "all valid nodesets over all node classes and attribute combinations",
  "Tests check a few attributes of a few nodes.",
  [BIMP], [("attribute transfer per class", BIMP + " handle*Node"), ("import order of classes", BIMP + " addNodes")], ["server node store after NodesetLoader_loadFile"])

p("C21", "Loading creates exactly the references the nodeset describes",
  "After a successful load, the references between nodes in the server are the ones the file states (in the stated direction, visible from both ends), plus a parent reference for nodes that only have ParentNodeId and the type definition of each object and variable, plus nothing else. This also holds when a node's parent is only added in a later class or a later attempt.",
  ["inputs"], "all valid nodesets: parents of any class, mixed notation, custom reference types, chains across classes",
  "references.c checks a few fixed references.",
  [BIMP, BREF], [("reference pass", BIMP + " addNonHierachicalRefs"), ("retry of nodes with missing parents", BIMP + " secondChanceAddNodes"), ("reference classification from the server", BREF)],
  ["reference set of the server"])

p("C22", "Scalar and array values are decoded to the value the text denotes",
  "For every built-in type (Boolean, all integers over their full range, Float, Double, String, DateTime, Guid, ByteString, NodeId, QualifiedName, LocalizedText, StatusCode), a variable's scalar or array Value arrives in the server with the declared type, the array length, and exactly the values the XML text denotes; data types derived from them use the same decoding. Members that are absent or empty become the type's null value and do not disturb other elements.",
  ["inputs"], "all values of all listed built-in types and their subtypes, arrays of any length including 0",
  "primitiveValues/namespaceZeroValues check about twenty constants.",
  [BVAL, "backends/open62541/src/conversion.h", "backends/open62541/src/nodeset_base64.h", BIMP], [("conversion table", BVAL + " conversionTable/setScalar"), ("array handling", BVAL + " setArray")],
  ["UA_Variant stored in the server"])

p("C23", "Structured values are decoded member by member at the right place",
  "For variables whose data type is a structure, union or enumeration defined in the nodeset or in the standard (nested structures, array members, inherited members, arrays of structures), every member of the stored value equals the XML member of the same name, members absent from the XML are null, and the union's switch selects the member that was given.",
  ["inputs"], "all structure/union/enum types and all values of them, with members in any order or missing",
  "customTypesWithValues has a handful of values of one file.",
  [BVAL, BDT], [("structure walk with padding", BVAL + " setStructure/setUnion")], ["UA_Variant stored in the server, walked by its data type"])

p("C24", "Generated data types describe the C layout of the corresponding struct",
  "For every structure, union, structure with optional fields, and enumeration in a nodeset, the generated data type has the members (own and inherited, in order) with the right member types and array/optional flags, type kind, encoding id and pointer-freeness, and its memory size and paddings are exactly those a C compiler gives the corresponding struct, however types nest or depend on each other. A type with more than 255 members or 65535 bytes, which the library cannot describe, is left without members instead of being described wrongly.",
  ["inputs"], "all acyclic sets of data type definitions with members of built-in, standard and custom types",
  "Comparison tests need a generated header and cover about ten types.",
  [BDT, "backends/open62541/src/padding.h"], [("alignment and padding computation", BDT + " setPaddingMemsize/getAlignment"), ("member type resolution", BDT + " setDataTypeMembersTypeIndex"), ("dependency order", BDT + " calcMemSize")],
  ["UA_DataTypeArray in the server configuration"])

p("C25", "Server-side namespace indices are used everywhere, across several files",
  "When files are loaded into a server one after another, each with its own namespace table in any order and overlap, every namespace index stored in the server (node ids, browse names, references, data types, parents, and the NodeId and QualifiedName values of variables) denotes the same URI as the index written in the file; URIs already known to the server are not registered twice.",
  ["inputs", "histories"], "all sequences of files with any namespace tables, on a server with any pre-registered namespaces",
  "Tests load at most two files with fixed tables.",
  ["backends/open62541/src/ServerContext.c", BIMP, BVAL], [("namespace callback and mapping", "backends/open62541/src/ServerContext.c, import.c addNamespace")], ["server namespace array and node store"])

p("C26", "A failed load leaves the address space unchanged and says so",
  "If the file is missing, unreadable, malformed, truncated, contains a hierarchical cycle or a reference whose type is unknown, loading returns false, logs an error to the server's logger, adds no node, reference or data type to the server, and a later load of a valid file works as on a fresh server. Null server or path are rejected.",
  ["inputs", "fault_sequences", "histories"], "all failing inputs, followed by any valid load",
  "Only a missing file is tested.",
  [BIMP], [("status gate before adding nodes", BIMP + " NodesetLoader_loadFile")], ["server node store, return value, logger"])

p("C27", "Base64 decoding of ByteStrings is the inverse of encoding",
  "Decoding the base64 text of any byte sequence yields exactly that sequence and length, for any length modulo three, and encoding followed by decoding is the identity; invalid or truncated text never causes memory errors.",
  ["inputs"], "all byte sequences; all texts for the memory-safety part",
  "One ByteString value in a test file.",
  ["backends/open62541/src/nodeset_base64.h", BVAL], [("base64 helpers", "backends/open62541/src/nodeset_base64.h"), ("use for ByteString", BVAL + " setByteString")], ["helper functions and ByteString variables in the server"])

p("C28", "Custom reference and data types of the server extend later loads",
  "Reference types present in the server, and those added by earlier loaded files, are classified as hierarchical, non-hierarchical or type definition according to their place in the server's type hierarchy when later files use them; likewise data types from earlier files are usable as member, parent and variable types in later files with the same result as if all had been in one file.",
  ["histories", "inputs"], "all splits of a nodeset with custom types into a sequence of files",
  "newHierachicalRef loads one pair of files; structMultipleNamespaces another.",
  [BREF, BDT, BIMP], [("browsing the server's reference types", BREF + " iterate/getRefs"), ("type array appended across loads", BDT + " DataTypeImporter_new")], ["server state after a sequence of loads vs after one load"])

p("C29", "Loading any file into a server is memory safe and terminates",
  "NodesetLoader_loadFile of any file content into a server never crashes, never reads or writes outside its memory, never runs into undefined behaviour and always terminates, whatever the values, data type definitions, references and attributes in it say: values that do not have the form of their data type, missing members, unknown or recursive or contradicting types, odd numbers in attributes, references to anything. Afterwards all nodes, values and generated data types can be read and released.",
  ["inputs", "histories"], "all file contents up to some hundred kB, one after another into one server, also the same file twice",
  "The backend tests load well-formed nodesets only; decoding a value against a type it does not fit writes through offsets computed from the type, so any disagreement between file and type is a potential memory error no sample shows.",
  [BIMP, BVAL, BDT, "backends/open62541/src/nodeset_base64.h", "backends/open62541/src/conversion.h", BREF],
  [("decoding a value tree along a type", BVAL + " setScalar/setStructure/setUnion/setArray"), ("generated types from definitions", BDT), ("attribute conversions", BIMP + " handle*Node")],
  ["sanitizer reports, signals and CPU limit of the process that loads", "reading back every value and type"])

p("C30", "A reference service given by the caller decides every classification",
  "When the caller gives its own NL_ReferenceService to NodesetLoader_new, every reference of every node is classified as this service says, whatever the type and whatever namespace it belongs to: type definition for objects and variables first, then hierarchical, then non-hierarchical. The service is asked again for references whose type it did not know yet after it has learned all reference types of the nodeset; it is told of every reference type node of the nodeset exactly once, supertypes before their subtypes, with its own context. Hierarchy (order of the nodes, added parent references) follows from these answers. If it does not know the type of a reference in the end, sorting fails with an error message. The service stays the property of the caller: it survives the loader and can serve further loaders.",
  ["inputs", "histories"], "all nodesets, all tables of answers including types answered with both yes, types learned late, types never learned; one loader for all files or one loader per file with the same service",
  "No test gives an own service; the only one used outside the core is that of the open62541 backend.",
  [NS, NL, "include/NodesetLoader/ReferenceService.h", IREF, BREF],
  [("classification of a reference", NS + " Nodeset_newReference"), ("second attempt after all types are known", NS + " lookupUnknownReferences"), ("announcement of reference types", NS + " Nodeset_newNodeFinish/lookupReferenceTypes"), ("ownership of the service", NL + " NodesetLoader_new/NodesetLoader_delete")],
  ["NodesetLoader_forEachNode reference lists and order", "calls the service receives", "NodesetLoader_sort return value"])

p("C31", "Loaders used in different threads do not disturb each other",
  "Threads that each work with loaders (or servers, loggers, reference services) of their own can import, sort, iterate, load into servers and delete at the same time: there is no data race, no crash and no leak, and each of them gets exactly the result, return value and log messages that the same calls produce when nothing else runs. This includes imports that fail and loaders with the default logger.",
  ["schedules", "inputs"], "all schedules of 2 to 8 threads with independent loaders or servers, over valid and damaged files",
  "Every test is single threaded; hidden shared state (static buffers, lazily filled tables, global parser state) has no effect in them.",
  [NL, PARSER, NS, SORT, ARENA, "src/PrintfLogger.c", IREF, BIMP, BVAL, BDT, BREF],
  [("libxml2 set-up and parser contexts", PARSER + " Parser_run"), ("state reachable only through the loader", NL + " struct NodesetLoader"), ("conversion of values and types", BVAL + ", " + BDT)],
  ["ThreadSanitizer over the real code", "digest of everything reported, compared with a run alone"])

p("C32", "What is loaded does not depend on the environment of the process",
  "Nodes, attributes, values, references and types obtained from a nodeset depend only on the files and the arguments of the calls: not on the locale the process has set (decimal separators, character classes, case rules), not on its time zone and not on its working directory (apart from finding the file).",
  ["inputs", "configurations"], "all nodesets, all locales of the system, all time zones, absolute and relative file names",
  "Tests run in the C locale; applications with a user interface call setlocale(LC_ALL, \"\"), where number parsing functions of the C library behave differently.",
  [BVAL, BIMP, "backends/open62541/src/conversion.h", "backends/open62541/src/nodeset_base64.h", VAL, NS, NL],
  [("numbers in texts", "backends/open62541/src/conversion.h, " + BVAL), ("white space tests", VAL + " Value_isWhitespaceOnly"), ("dates", "backends/open62541/src/conversion.h UA_DateTime_fromString")],
  ["dump of loader or server under two environments"])

p("C33", "Sorting again, alone or after further imports, gives what one sort gives",
  "NodesetLoader_sort may be called at any time and any number of times: on an empty loader, between imports, repeatedly, and after a sort that failed because references could not be classified yet. Whenever it returns, its result and the nodes, references and encodings reported afterwards are those of a loader that imported the same files and was sorted once; no node is reported twice or lost, parents still come before children, and reports can be repeated.",
  ["histories", "inputs"], "all sequences of import (also of damaged files), sort and report over 1..4 files that depend on each other, in dependency order for supertypes and for parents given by ParentNodeId alone",
  "Every test imports everything, sorts once and deletes the loader; what sorting leaves behind in the sort tree, the class containers and the lists of undecided references only matters to later calls.",
  [SORT, NS, "src/nodes/NodeContainer.c"], [("counts used up by a run", SORT + " Sort_start"), ("containers per class", NS + " Nodeset_sort"), ("undecided references and reference types", NS + " lookupUnknownReferences/lookupReferenceTypes")],
  ["return value of NodesetLoader_sort", "NodesetLoader_forEachNode", "NodesetLoader_getBidirectionalRefs"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["title"]
            f.write(json.dumps(x, ensure_ascii=False) + "\n")
    print(len(P))
