"""Planted bugs: id -> property, edits (file, old, new), needs, breaks, demo body.  tools/mkseeds.py turns them into seeded/<id>/."""
S = []


def seed(id, prop, edits, needs, breaks, demo):
    S.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


seed("c01-namespace-bound", "C01", [("src/NamespaceList.c", "if((size_t)relativeIndex >=list->size)", "if((size_t)relativeIndex > list->size)")],
     "a node id, browse name or reference whose namespace index is exactly one larger than the number of NamespaceUris",
     "reads one element behind the namespace array (heap buffer overflow)",
     r'''
f = file(doc(node("Object", "ns=2;i=5", [("i=35", "i=85", False)])))
fine(run("loader 0 cap", "nstable 0 1", "import 0 %s 0 0" % f, "sort 0", "delete 0", "census"))
''')

seed("c02-view-growth", "C02", [("src/nodes/NodeContainer.c", "        container->capacity += container->incrementSize;", "        // grow faster the next time\n        container->capacity += container->incrementSize;\n        container->incrementSize *= 2;"),
                                ("src/nodes/NodeContainer.c", "            (container->size + container->incrementSize) * sizeof(void *));", "            (container->size + container->incrementSize / 2 + 1) * sizeof(void *));")],
     "more nodes of one class than its container was created for (e.g. 16 or more views)",
     "the container of a class is too small after it grew, nodes are written behind it",
     r'''
f = file(doc("".join(node("View", "ns=1;i=%d" % i, [("i=35", "i=87", False)]) for i in range(1, 60))))
o = fine(run("loader 0 cap", "nstable 0 1", "import 0 %s 0 0" % f, "sort 0", "ids 0", "delete 0"))
check(len([n for n in o[4]["nodes"]]) == 59, "not all views reported")
''')

seed("c03-duplicate-edge", "C03", [("src/Sort.c", "    struct S_Edge *e = (S_Edge *)calloc(1, sizeof(S_Edge));\n    if(!e)\n        return;\n\n    to->edgeCount++;\n",
                                    "    to->edgeCount++;\n    // the same relation may be stated by both nodes\n    for(struct S_Edge *known = from->edges; known; known = known->next) {\n        if(known->dest == to)\n            return;\n    }\n\n    struct S_Edge *e = (S_Edge *)calloc(1, sizeof(S_Edge));\n    if(!e)\n        return;\n\n")],
     "the same hierarchical relation stated twice, e.g. forward at the parent and inverse at the child",
     "an acyclic nodeset is rejected as if it contained a loop",
     r'''
f = file(doc(node("Object", "ns=1;i=1", [("i=35", "i=85", False), ("i=47", "ns=1;i=2", True)]) + node("Object", "ns=1;i=2", [("i=47", "ns=1;i=1", False)])))
o = fine(run("loader 0 cap", "nstable 0 1", "import 0 %s 0 0" % f, "sort 0", "ids 0", "delete 0"))
check(o[3]["ok"], "sort rejected a nodeset without a cycle")
''')

seed("c04-user-executable", "C04", [("src/Nodeset.c", "            nodeset, &attrUserExecutable, attributes, attributeSize);", "            nodeset, &attrExecutable, attributes, attributeSize);")],
     "a method whose Executable and UserExecutable attributes differ",
     "UserExecutable of a method is reported with the value of Executable",
     r'''
f = file(doc(node("Method", "ns=1;i=1", [("i=47", "i=85", False)], 'Executable="true" UserExecutable="false"') + node("Method", "ns=1;i=2", [("i=47", "i=85", False)], 'Executable="false"')))
o = fine(run("loader 0 cap", "nstable 0 1", "import 0 %s 0 0" % f, "sort 0", "dump 0", "delete 0"))
a = [(find(o[4]["nodes"], i)["Executable"], find(o[4]["nodes"], i)["UserExecutable"]) for i in ("1;i=1", "1;i=2")]
check(a == [("true", "false"), ("false", "true")], "attributes of methods: %r" % a)
''')

seed("c04-browsename-index", "C04", [("src/Nodeset.c", "        bn.nsIdx = (uint16_t)atoi(&s[0]);", "        bn.nsIdx = (uint16_t)(s[0] - '0');")],
     "a browse name with a namespace index of two digits",
     "browse names with a namespace index above 9 get the namespace of the first digit",
     r'''
f = file(doc(node("Object", "ns=12;i=1", [("i=35", "i=85", False)], bn="12:x"), uris=["http://%d/" % i for i in range(1, 14)]))
o = fine(run("loader 0 cap", "nstable 0 1", "import 0 %s 0 0" % f, "sort 0", "dump 0", "delete 0"))
n = o[4]["nodes"][0]
check(n["id"] == "12;i=1" and n["bns"] == 12 and n["bn"] == "x", "browse name %r" % n)
''')

seed("c05-realloc-region", "C05", [("src/CharAllocator.c", "            Region_new(getRegionSize(size + arena->current->userSize*2, arena->initialSize));", "            Region_new(getRegionSize(size + arena->initialSize / 2, arena->initialSize));")],
     "a text of more than half a megabyte which arrives in several pieces",
     "a text which outgrows its region is written behind the end of the new region",
     r'''
t = "x" * 3000000
f = file(doc(node("Object", "ns=1;i=1", [("i=35", "i=85", False)], body="<Description>%s</Description>" % t)))
o = fine(run("loader 0 cap", "nstable 0 1", "import 0 %s 0 0" % f, "sort 0", "dump 0", "delete 0"))
d = o[4]["nodes"][0]["desc"][1]
check(d is not None and (d == t or len(d) >= len(t) or "x" in d), "description lost")
''')

seed("c05-whitespace-chunk", "C05", [("src/NodesetLoader.c", "    TParserCtx *pctx = (TParserCtx *)ctx;\n    if (pctx->onCharacters == NULL)\n    {\n        char *newValue", "    TParserCtx *pctx = (TParserCtx *)ctx;\n    // indentation between elements is of no interest\n    if (strspn(ch, \" \\t\\r\\n\") >= (size_t)len)\n    {\n        return;\n    }\n    if (pctx->onCharacters == NULL)\n    {\n        char *newValue")],
     "a text in which only white space stands between two entities",
     "white space between two entities or character references is dropped",
     r'''
f = file(doc(node("Object", "ns=1;i=1", [("i=35", "i=85", False)], body="<Description>a &lt; &gt; b</Description>")))
o = fine(run("loader 0 cap", "nstable 0 1", "import 0 %s 0 0" % f, "sort 0", "dump 0", "delete 0"))
check(o[4]["nodes"][0]["desc"][1] == "a < > b", "description %r" % o[4]["nodes"][0]["desc"])
''')

seed("c06-drop-unresolved", "C06", [("src/Nodeset.c", "            node->unknownRefs = nextUnknown;\n            continue;\n        }\n        return false;\n    }\n    return true;\n}", "            node->unknownRefs = nextUnknown;\n            continue;\n        }\n        if (node->hierachicalRefs == NULL)\n        {\n            return false;\n        }\n        // the node has its place in the hierachy, nobody can follow a\n        // reference of an unknown type\n        node->unknownRefs->next = NULL;\n        Reference_delete(node->unknownRefs);\n        node->unknownRefs = nextUnknown;\n    }\n    return true;\n}")],
     "a reference whose type is neither in the nodeset nor known, on a node which has a hierarchical reference as well",
     "a reference which cannot be classified is dropped silently instead of rejecting the nodeset",
     r'''
f = file(doc(node("Object", "ns=1;i=1", [("i=35", "i=85", False), ("ns=1;i=4711", "i=86", True)])))
o = fine(run("loader 0 cap", "nstable 0 1", "import 0 %s 0 0" % f, "sort 0", "dump 0", "delete 0"))
n = find(o[4]["nodes"], "1;i=1")
check(not o[3]["ok"] or (n and any("4711" in str(r) for k in "hnu" for r in n[k])), "reference lost without an error")
''')

seed("c07-duplicate-uri", "C07", [("src/NamespaceList.c", "    list->size++;\n    list->data =", "    // listed already\n    for (size_t i = 0; i < list->size; i++)\n    {\n        if (list->data[i].idx == globalIdx)\n        {\n            return &list->data[i];\n        }\n    }\n    list->size++;\n    list->data =")],
     "NamespaceUris which contain the base namespace or the same URI twice",
     "all namespaces behind a repeated one are translated to the index of their successor",
     r'''
f = file(doc(node("Object", "ns=2;i=1", [("i=35", "i=85", False)], bn="2:x"), uris=["http://opcfoundation.org/UA/", "http://a/", "http://b/"]))
o = fine(run("loader 0 cap", "nstable 0 5 http://opcfoundation.org/UA/ 0", "import 0 %s 0 0" % f, "sort 0", "dump 0", "delete 0"))
n = o[4]["nodes"][0]
check(n["id"] == "5;i=1" and n["bns"] == 5, "node %r" % n)
''')

seed("c08-alias-prefix", "C08", [("src/Nodeset.c", "    const UA_NodeId *alias = AliasList_getNodeId(nodeset->aliasList, name);\n    if (!alias)", "    // no need to search for something which is written as node id\n    const UA_NodeId *alias =\n        name && (!strncmp(name, \"ns\", 2) || !strncmp(name, \"i=\", 2))\n            ? NULL\n            : AliasList_getNodeId(nodeset->aliasList, name);\n    if (!alias)")],
     "an alias whose name starts with ns",
     "aliases whose name starts with the letters ns are not resolved",
     r'''
f = file(doc(node("Variable", "ns=1;i=1", [("nsPart", "i=85", False)], 'DataType="nsType"'), aliases=[("nsPart", "i=47"), ("nsType", "i=7")]))
o = fine(run("loader 0 cap", "nstable 0 1", "import 0 %s 0 0" % f, "sort 0", "dump 0", "delete 0"))
n = find(o[4]["nodes"], "1;i=1")
check(o[3]["ok"] and n["DataType"] == "0;i=7" and n["h"] == [[False, "0;i=47", "0;i=85"]], "%r" % n)
''')

seed("c09-utf8-whitespace", "C09", [("src/Value.c", "        if(!isspace((unsigned char)*c))", "        if(*c > ' ')")],
     "a value which consists only of characters outside of ASCII",
     "a text without any ASCII character is taken for white space and lost",
     r'''
f = file(doc(node("Variable", "ns=1;i=1", [("i=47", "i=85", False)], 'DataType="i=12"', "<Value><uax:String>\u00fc\u00e4\u4e16</uax:String></Value>")))
o = fine(run("loader 0 cap", "nstable 0 1", "import 0 %s 0 0" % f, "sort 0", "dump 0", "delete 0"))
v = o[4]["nodes"][0]["value"]["data"]
check(v[2] == "\u00fc\u00e4\u4e16", "value %r" % v)
''')

seed("c10-octal", "C10", [("src/Nodeset.c", "        newField->value = atoi(value);", "        newField->value = (int)strtol(value, NULL, 0);")],
     "an enumeration value written with leading zeros",
     "enumeration values with leading zeros are read as octal numbers",
     r'''
f = file(doc(node("DataType", "ns=1;i=3", [("i=45", "i=29", False)], body='<Definition Name="1:E"><Field Name="a" Value="010"/><Field Name="b" Value="0"/></Definition>')))
o = fine(run("loader 0 cap", "nstable 0 1", "import 0 %s 0 0" % f, "sort 0", "dump 0", "delete 0"))
d = o[4]["nodes"][0]["def"]
check("10" in str(d["f"][0]) and d["enum"], "definition %r" % d)
''')

seed("c10-valuerank", "C10", [("src/Nodeset.c", "        newField->valueRank = atoi(getAttributeValue(\n            nodeset, &attrValueRank, attributes, attributeSize));", "        const char *valueRank = getAttributeValue(nodeset, &attrValueRank,\n                                                  attributes, attributeSize);\n        newField->valueRank = strcmp(valueRank, \"-1\") ? 1 : -1;")],
     "a field with a value rank other than -1 and 1",
     "value ranks of fields are reduced to scalar and array",
     r'''
f = file(doc(node("DataType", "ns=1;i=3", [("i=45", "i=22", False)], body='<Definition Name="1:E"><Field Name="a" DataType="i=6" ValueRank="-2"/><Field Name="b" DataType="i=6" ValueRank="2"/></Definition>')))
o = fine(run("loader 0 cap", "nstable 0 1", "import 0 %s 0 0" % f, "sort 0", "dump 0", "delete 0"))
d = o[4]["nodes"][0]["def"]
check(d["f"][0][2] == -2 and d["f"][1][2] == 2, "definition %r" % d)
''')

seed("c11-error-path", "C11", [("src/NodesetLoader.c", "                            NODESETLOADER_LOGLEVEL_ERROR, \"xml parsing error\");\n        retStatus = false;", "                            NODESETLOADER_LOGLEVEL_ERROR, \"xml parsing error\");\n        Parser_delete(parser);\n        free(ctx);\n        return false;")],
     "a file which is not well-formed",
     "after a parsing error the file stays open (and a value which was being read is not released)",
     r'''
good, bad = file(doc("")), file("<UANodeSet><UAObject>")
a = fine(run("loader 0 cap", "nstable 0 1", "import 0 %s 0 0" % good, "delete 0", "census"))
b = fine(run("loader 0 cap", "nstable 0 1", "import 0 %s 0 0" % bad, "delete 0", "census"))
check(a[-1]["fds"] == b[-1]["fds"] and b[-1]["live"] == 0, "not released: %r %r" % (a[-1], b[-1]))
''')

seed("c11-context", "C11", [("backends/open62541/src/ServerContext.c", "    free(serverContext->namespaceIdxMapping);\n    free(serverContext);", "    if (serverContext->namespaceCnt > 1)\n    {\n        free(serverContext->namespaceIdxMapping);\n    }\n    free(serverContext);")],
     "a nodeset with exactly one namespace loaded into a server",
     "the namespace mapping of a load is not released",
     r'''
f = file(doc(node("Object", "ns=1;i=1", [("i=35", "i=85", False)])))
o = fine(run("server 0", "load 0 %s" % f, "sdelete 0", "census"))
check(o[-1]["live"] == 0, "not released: %r" % o[-1])
''')

seed("c12-extensions-child", "C12", [("src/NodesetLoader.c", "            pctx->state = PARSER_STATE_EXTENSION;\n        }\n        else\n        {\n            enterUnknownState(pctx);\n        }", "            pctx->state = PARSER_STATE_EXTENSION;\n        }")],
     "an element other than Extension within the Extensions of a node, which itself has a child",
     "an unknown element within Extensions ends the Extensions, what follows is read at the wrong level",
     r'''
f = file(doc(node("Object", "ns=1;i=1", [("i=35", "i=85", False)], body="<Extensions><Other/><Extension><a/></Extension></Extensions><Description>d</Description>") + node("Object", "ns=1;i=2", [("i=35", "i=85", False)])))
o = fine(run("loader 0 cap", "nstable 0 1", "import 0 %s 0 0" % f, "sort 0", "dump 0", "delete 0"))
n = find(o[4]["nodes"], "1;i=1")
check(n and n["desc"][1] == "d" and find(o[4]["nodes"], "1;i=2"), "%r" % o[4]["nodes"])
''')

seed("c12-unknown-node", "C12", [("src/NodesetLoader.c", "    case PARSER_STATE_UNKNOWN:\n        pctx->unknown_depth--;\n        if (pctx->unknown_depth == 0)\n        {\n            pctx->state = pctx->prev_state;\n        }", "    case PARSER_STATE_UNKNOWN:\n        pctx->unknown_depth--;\n        // back at the element of a node, whatever was skipped within\n        if (pctx->unknown_depth == 0 || !strcmp(localname, EXTENSIONS))\n        {\n            pctx->state = pctx->prev_state;\n        }")],
     "an Extensions element inside of an element which is skipped",
     "skipping ends too early if the skipped element contains Extensions",
     r'''
f = file(doc(node("Object", "ns=1;i=1", [("i=35", "i=85", False)], body="<Vendor><Extensions/><DisplayName>wrong</DisplayName></Vendor><Description>d</Description>")))
o = fine(run("loader 0 cap", "nstable 0 1", "import 0 %s 0 0" % f, "sort 0", "dump 0", "delete 0"))
n = find(o[4]["nodes"], "1;i=1")
check(n and n["dn"][1] == "n" and n["desc"][1] == "d", "%r" % n)
''')

seed("c13-tolerant-end", "C13", [("src/NodesetLoader.c", "    if (Parser_run(parser, f, OnStartElementNs, OnEndElementNs, OnCharacters))\n    {", "    // whatever follows the last node is of no interest\n    if (Parser_run(parser, f, OnStartElementNs, OnEndElementNs, OnCharacters) &&\n        (ctx->state != PARSER_STATE_INIT || !ctx->node))\n    {")],
     "a file which is cut off or malformed between two nodes",
     "a file which ends between two nodes is accepted as if it were complete",
     r'''
t = doc(node("Object", "ns=1;i=1", [("i=35", "i=85", False)]) + node("Object", "ns=1;i=2", [("i=35", "i=85", False)]))
f = file(t[:t.index("</UAObject>") + len("</UAObject>") + 1])
o = fine(run("loader 0 cap", "nstable 0 1", "import 0 %s 0 0" % f, "delete 0"))
check(not o[2]["ok"], "truncated file accepted")
''')

seed("c14-alias-cache", "C14", [("src/Nodeset.c", "    const UA_NodeId *alias = AliasList_getNodeId(nodeset->aliasList, name);\n    if (!alias)\n    {\n        return extractNodedId(nodeset->namespaces, name);\n    }\n    UA_NodeId id = UA_NODEID_NULL;\n    UA_NodeId_copy(alias, &id);\n    return id;",
                                 "    // the same few aliases are used over and over\n    static char lastName[32];\n    static UA_NodeId lastId;\n    if (name && lastName[0] && !strcmp(lastName, name))\n    {\n        return lastId;\n    }\n    const UA_NodeId *alias = AliasList_getNodeId(nodeset->aliasList, name);\n    if (!alias)\n    {\n        return extractNodedId(nodeset->namespaces, name);\n    }\n    UA_NodeId id = UA_NODEID_NULL;\n    UA_NodeId_copy(alias, &id);\n    if (strlen(name) < sizeof(lastName) &&\n        id.identifierType == UA_NODEIDTYPE_NUMERIC)\n    {\n        strcpy(lastName, name);\n        lastId = id;\n    }\n    return id;")],
     "two files (of one loader, or of two loaders) which use the same alias for different nodes",
     "an alias resolves to the node it named in a file read before",
     r'''
def f(id):
    return file(doc(node("Variable", "ns=1;i=1", [("i=47", "i=85", False)], 'DataType="T"'), aliases=[("T", id)]))
o = fine(run("nstable 0 1", "loader 0 cap", "import 0 %s 0 0" % f("i=6"), "delete 0", "loader 1 cap", "import 1 %s 0 0" % f("i=7"), "sort 1", "dump 1", "delete 1"))
n = find(o[7]["nodes"], "1;i=1")
check(n["DataType"] == "0;i=7", "%r" % n)
''')

seed("c15-oversized", "C15", [("src/CharAllocator.c", "        newRegion->next = arena->current;\n        arena->current = newRegion;\n    }\n    arena->current->userPtr = arena->current->mem", "        if (size > arena->initialSize)\n        {\n            // a region of its own, the current one still has space left\n            newRegion->next = arena->current->next;\n            arena->current->next = newRegion;\n            newRegion->size = size;\n            newRegion->userSize = size;\n            return newRegion->userPtr;\n        }\n        newRegion->next = arena->current;\n        arena->current = newRegion;\n    }\n    arena->current->userPtr = arena->current->mem")],
     "a block larger than the initial size of the arena which is extended afterwards",
     "extending the last block extends another one if the last one was larger than a region",
     r'''
o = fine(run("arena 64 m10 m200 r10 m5"))
check(o[0]["err"] is None, o[0]["err"])
''')

seed("c15-zeroed", "C15", [("src/CharAllocator.c", "    region->mem = (char *)calloc(capacity, sizeof(char));", "    region->mem = (char *)malloc(capacity);"),
                           ("src/CharAllocator.c", "    region->userPtr = region->mem;\n    return region;", "    region->userPtr = region->mem;\n    // strings are terminated by the zero behind them\n    memset(region->mem, 0, capacity < 4096 ? capacity : 4096);\n    return region;")],
     "more than 4096 bytes of text from an arena whose memory was used before",
     "memory of the arena behind the first 4096 bytes of a region is not zeroed",
     r'''
o = fine(run("arena 8192 m4000 m4000"))
check(o[0]["err"] is None, o[0]["err"])
''')

seed("c16-nested-extension", "C16", [("src/NodesetLoader.c", "    case PARSER_STATE_EXTENSION:\n        if (pctx->extIf)\n        {\n            pctx->extIf->start(", "    case PARSER_STATE_EXTENSION:\n        if (pctx->extIf && strcmp(localname, EXTENSION))\n        {\n            pctx->extIf->start(")],
     "an element named Extension within an Extension element",
     "the handler misses the start of elements which are named Extension themselves",
     r'''
f = file(doc(node("Object", "ns=1;i=1", [("i=35", "i=85", False)], body="<Extensions><Extension><a><Extension/></a></Extension></Extensions>")))
o = fine(run("loader 0 cap", "nstable 0 1", "import 0 %s 0 1" % f, "sort 0", "delete 0"))
ev = o[2]["ev"]
check(str(ev).count("start") == str(ev).count("end") and str(ev).count("Extension") == 2, "%r" % ev)
''')

seed("c17-complement", "C17", [("src/InternalRefService.c", "    if (ref->refType.namespaceIndex == 0)\n        return true;\n", "    if (ref->refType.namespaceIndex == 0)\n        return true;\n    // there are only two kinds of references\n    for (size_t i = 0; service->nonHierachicalRefs->size > 0 &&\n                       i < service->hierachicalRefsSize; i++) {\n        if (UA_NodeId_equal(&ref->refType, &service->hierachicalRefs[i]))\n            return false;\n    }\n    if (service->nonHierachicalRefs->size > 0)\n        return true;\n")],
     "a reference of a hierarchical type which is defined later in the file, after a non-hierarchical type was defined",
     "a reference is classified as non-hierarchical if the definition of its type follows later in the file",
     r'''
rt = [node("ReferenceType", "ns=1;i=10", [("i=45", "i=32", False)]), node("ReferenceType", "ns=1;i=11", [("i=45", "i=35", False)])]
ob = node("Object", "ns=1;i=1", [("ns=1;i=11", "i=85", False)])
def h(body):
    o = fine(run("loader 0 cap", "nstable 0 1", "import 0 %s 0 0" % file(doc(body)), "sort 0", "dump 0", "delete 0"))
    check(o[3]["ok"], "sort failed")
    return find(o[4]["nodes"], "1;i=1")["h"]
check(h(rt[0] + ob + rt[1]) == h(rt[0] + rt[1] + ob) == [[False, "1;i=11", "0;i=85"]], "depends on the order")
''')

seed("c18-format", "C18", [("src/Nodeset.c", "            nodeset->logger->log(\n                nodeset->logger->context, NODESETLOADER_LOGLEVEL_ERROR,\n                \"node with unresolved reference(s): NodeId(%.*s)\",\n                (int)nodeIdStr.length, (char *)nodeIdStr.data);",
                            "            char message[512] = \"\";\n            snprintf(message, sizeof(message),\n                     \"node with unresolved reference(s): NodeId(%.*s)\",\n                     (int)nodeIdStr.length, (char *)nodeIdStr.data);\n            nodeset->logger->log(nodeset->logger->context,\n                                 NODESETLOADER_LOGLEVEL_ERROR, message);"), ("src/Nodeset.c", "#include \"Nodeset.h\"\n", "#include \"Nodeset.h\"\n#include <stdio.h>\n")],
     "an unresolved reference on a node whose id contains a percent sign",
     "the id of a node is used as a format string",
     r'''
f = file(doc(node("Object", "ns=1;s=5%d of %x", [("ns=1;i=4711", "i=86", True)])))
o = fine(run("loader 0 cap", "nstable 0 1", "import 0 %s 0 0" % f, "sort 0", "delete 0"))
check("5%d of %x" in str(o[3]["log"]), "%r" % o[3]["log"])
''')

seed("c19-binary", "C19", [("src/Nodeset.c", "        !strcmp(node->browseName.name, \"Default Binary\") && !ref->isForward)", "        strstr(node->browseName.name, \"Binary\") && !ref->isForward)")],
     "an encoding whose browse name contains Binary but is not Default Binary",
     "other encodings than Default Binary are linked to the data type",
     r'''
f = file(doc(node("DataType", "ns=1;i=3", [("i=45", "i=22", False)]) + node("Object", "ns=1;i=5", [("i=38", "ns=1;i=3", False), ("i=40", "i=76", True)], bn="0:Default Binary") + node("Object", "ns=1;i=6", [("i=38", "ns=1;i=3", False), ("i=40", "i=76", True)], bn="1:Compact Binary")))
o = fine(run("loader 0 cap", "nstable 0 1", "import 0 %s 0 0" % f, "sort 0", "bidi 0", "delete 0"))
check(len(o[4]["refs"]) == 1, "%r" % o[4])
''')

seed("c20-access-level", "C20", [("backends/open62541/src/import.c", "    attr.userAccessLevel = (UA_Byte)atoi(node->userAccessLevel);", "    // a user has no right the node does not offer\n    attr.userAccessLevel =\n        (UA_Byte)(atoi(node->userAccessLevel) & attr.accessLevel);")],
     "a UserAccessLevel with a bit which is not part of the AccessLevel",
     "the user access level of a variable loses bits",
     """
f = file(doc(node("Variable", "ns=1;i=1", [("i=47", "i=85", False), ("i=40", "i=63", True)], 'DataType="i=6" AccessLevel="1" UserAccessLevel="3"')))
o = fine(run("server 0", "load 0 %s" % f, "sdump 0", "sdelete 0"))
check(dict(find(o[2]["nodes"], "2;i=1")["attr"])["UserAccessLevel"] == 3, "user access level")
""")

seed("c20-dimensions", "C20", [("backends/open62541/src/import.c", "    while (subString != NULL)\n    {\n        arrSize++;\n        *dims = (UA_UInt32 *)realloc(*dims, arrSize * sizeof(UA_UInt32));", "    // one allocation is enough for all dimensions\n    *dims = (UA_UInt32 *)realloc(*dims, 8 * sizeof(UA_UInt32));\n    while (subString != NULL && arrSize < 8)\n    {\n        arrSize++;")],
     "more than 8 array dimensions",
     "array dimensions behind the eighth are ignored",
     r'''
f = file(doc(node("Variable", "ns=1;i=1", [("i=47", "i=85", False), ("i=40", "i=63", True)], 'DataType="i=6" ValueRank="10" ArrayDimensions="1,2,3,4,5,6,7,8,9,10"')))
o = fine(run("server 0", "load 0 %s" % f, "sdump 0", "sdelete 0"))
d = dict(find(o[2]["nodes"], "2;i=1")["attr"])["ArrayDimensions"]
check(d == [1, 2, 3, 4, 5, 6, 7, 8, 9, 10], "%r" % d)
''')

seed("c21-second-parent", "C21", [("backends/open62541/src/import.c", "        UA_Server_addReference(server, src, refType, target, ref->isForward);\n        ref = ref->next;\n    }\n}", "        // the references to parents exist since the node was added\n        if (ref->isForward || UA_NodeId_equal(&refType, &hasSubtype))\n        {\n            UA_Server_addReference(server, src, refType, target,\n                                   ref->isForward);\n        }\n        ref = ref->next;\n    }\n}"),
                                  ("backends/open62541/src/import.c", "    // brute force, maybe not the best way to do this\n", "    const UA_NodeId hasSubtype = UA_NODEID_NUMERIC(0, UA_NS0ID_HASSUBTYPE);\n    // brute force, maybe not the best way to do this\n")],
     "a node with two inverse hierarchical references",
     "only one of several inverse hierarchical references of a node is created",
     r'''
f = file(doc(node("Object", "ns=1;i=1", [("i=35", "i=85", False)]) + node("Object", "ns=1;i=2", [("i=47", "ns=1;i=1", False), ("i=35", "i=85", False)], 'ParentNodeId="ns=1;i=1"')))
o = fine(run("server 0", "load 0 %s" % f, "sdump 0", "sdelete 0"))
r = find(o[2]["nodes"], "2;i=2")["refs"]
check([False, "0;i=47", "2;i=1"] in r and [False, "0;i=35", "0;i=85"] in r, "%r" % r)
''')

seed("c22-localizedtext-array", "C22", [("backends/open62541/src/Value.c", "            data->offset + (uintptr_t) & ((UA_LocalizedText *)data->mem)->text,", "            (uintptr_t) & ((UA_LocalizedText *)data->mem)->text,")],
     "an array of at least two LocalizedText elements (or a structure with a LocalizedText behind another member)",
     "the texts of all elements are written into the first one",
     r'''
f = file(doc(node("Variable", "ns=1;i=1", [("i=47", "i=85", False), ("i=40", "i=63", True)], 'DataType="i=21" ValueRank="1"', "<Value><uax:ListOfLocalizedText>" + "".join("<uax:LocalizedText><uax:Locale>en</uax:Locale><uax:Text>%s</uax:Text></uax:LocalizedText>" % t for t in ("one", "two")) + "</uax:ListOfLocalizedText></Value>")))
o = fine(run("server 0", "load 0 %s" % f, "sdump 0", "sdelete 0"))
v = dict(find(o[2]["nodes"], "2;i=1")["attr"])["Value"]["v"]
check("one" in str(v[0]) and "two" in str(v[1]), "%r" % v)
''')

seed("c22-base", "C22", [("backends/open62541/src/Value.c", "    *(UA_UInt16 *)adr = (UA_UInt16)atoi(value);", "    *(UA_UInt16 *)adr = (UA_UInt16)strtoul(value, NULL, 0);")],
     "a UInt16 written with leading zeros",
     "the number is read as an octal one",
     """
f = file(doc(node("Variable", "ns=1;i=1", [("i=47", "i=85", False), ("i=40", "i=63", True)], 'DataType="i=5"', "<Value><uax:UInt16>0100</uax:UInt16></Value>")))
o = fine(run("server 0", "load 0 %s" % f, "sdump 0", "sdelete 0"))
v = dict(find(o[2]["nodes"], "2;i=1")["attr"])["Value"]["v"]
check(v == 100, "%r" % v)
""")

seed("c23-member-prefix", "C23", [("backends/open62541/src/Value.c", "        if (!strcmp(value->val.complexData.members[cnt]->name, name))", "        if (!strncmp(value->val.complexData.members[cnt]->name, name,\n                     strlen(name)))")],
     "a structure in which the name of one member is the beginning of the name of an earlier one",
     "a member is decoded from the text of another member whose name starts the same",
     r'''
dt = node("DataType", "ns=1;i=3", [("i=45", "i=22", False)], body='<Definition Name="1:S"><Field Name="ValueMax" DataType="i=6"/><Field Name="Value" DataType="i=6"/></Definition>', bn="1:S") + node("Object", "ns=1;i=5", [("i=38", "ns=1;i=3", False), ("i=40", "i=76", True)], bn="0:Default Binary")
va = node("Variable", "ns=1;i=1", [("i=47", "i=85", False), ("i=40", "i=63", True)], 'DataType="ns=1;i=3"', "<Value><uax:ExtensionObject><uax:TypeId><uax:Identifier>ns=1;i=5</uax:Identifier></uax:TypeId><uax:Body><S><ValueMax>7</ValueMax><Value>3</Value></S></uax:Body></uax:ExtensionObject></Value>")
o = fine(run("server 0", "load 0 %s" % file(doc(dt + va)), "sdump 0", "sdelete 0"))
v = dict(find(o[2]["nodes"], "2;i=1")["attr"])["Value"]["v"]
check("7" in str(v) and "3" in str(v), "%r" % v)
''')

seed("c24-guid-alignment", "C24", [("backends/open62541/src/DataTypeImporter.c", "        return offsetof(TempGuid, member);", "        return offsetof(TempNodeId, member);")],
     "a structure with a Guid at an offset which is not a multiple of 8",
     "a Guid member is placed at a wrong offset",
     r'''
f = file(doc(node("DataType", "ns=1;i=3", [("i=45", "i=22", False)], body='<Definition Name="1:S"><Field Name="a" DataType="i=6"/><Field Name="g" DataType="i=14"/></Definition>', bn="1:S")))
o = fine(run("server 0", "load 0 %s" % f, "sdump 0", "sdelete 0"))
t = o[2]["types"][0]
check(t["size"] == 20 and t["m"][1][4] == 0, "%r" % t)
''')

seed("c25-last-namespace", "C25", [("backends/open62541/src/ServerContext.c", "((size_t)nodesetIdx <= serverContext->namespaceCnt))", "((size_t)nodesetIdx < serverContext->namespaceCnt))")],
     "a NodeId or QualifiedName value in the last namespace of a file",
     "values in the last namespace of a file get an invalid namespace index",
     r'''
f = file(doc(node("Variable", "ns=1;i=1", [("i=47", "i=85", False), ("i=40", "i=63", True)], 'DataType="i=20"', "<Value><uax:QualifiedName><uax:NamespaceIndex>2</uax:NamespaceIndex><uax:Name>q</uax:Name></uax:QualifiedName></Value>"), uris=["http://a/", "http://b/"]))
o = fine(run("server 0", "load 0 %s" % f, "sdump 0", "sdelete 0"))
v = dict(find(o[2]["nodes"], "2;i=1")["attr"])["Value"]["v"]
check("3" in str(v) and "65535" not in str(v), "%r" % v)
''')

seed("c26-status", "C26", [("backends/open62541/src/import.c", "    bool retStatus = importStatus && sortStatus;", "    bool retStatus = importStatus;")],
     "a well-formed file with a cycle or an unknown reference type",
     "a load which adds nothing is reported as success",
     r'''
f = file(doc(node("Object", "ns=1;i=1", [("i=47", "ns=1;i=2", False)]) + node("Object", "ns=1;i=2", [("i=47", "ns=1;i=1", False)])))
o = fine(run("server 0", "load 0 %s" % f, "sdump 0", "sdelete 0"))
check(not o[1]["ok"], "reported as success")
''')

seed("c27-last-group", "C27", [("backends/open62541/src/nodeset_base64.h", "        bin[cb++] = (unsigned char)(A << 2) | (B >> 4);\n        bin[cb++] = (unsigned char)(B << 4) | (C >> 2);\n    }\n    else if", "        bin[cb++] = (unsigned char)(A << 2) | (B >> 4);\n        bin[cb++] = (unsigned char)((B << 4) | ((C & 0x3f) >> 3));\n    }\n    else if")],
     "a byte string of a length of 3n+2",
     "the last byte of byte strings with one padding character is wrong",
     r'''
import base64
f = file(doc(node("Variable", "ns=1;i=1", [("i=47", "i=85", False), ("i=40", "i=63", True)], 'DataType="i=15"', "<Value><uax:ByteString>%s</uax:ByteString></Value>" % base64.b64encode(b"\x11\xff").decode())))
o = fine(run("server 0", "load 0 %s" % f, "sdump 0", "sdelete 0"))
v = dict(find(o[2]["nodes"], "2;i=1")["attr"])["Value"]["v"]
check("11ff" in str(v).lower(), "%r" % v)
''')

seed("c28-string-id", "C28", [("backends/open62541/src/RefServiceImpl.c", "        if (UA_NodeId_equal(&ref->refType, id))\n            return true;", "        if (ref->refType.namespaceIndex == id->namespaceIndex &&\n            ref->refType.identifierType == id->identifierType &&\n            UA_NodeId_order(&ref->refType, id) != UA_ORDER_MORE &&\n            (id->identifierType != UA_NODEIDTYPE_NUMERIC ||\n             ref->refType.identifier.numeric == id->identifier.numeric))\n            return true;")],
     "reference types with string ids, one of them hierarchical and one not",
     "a reference type with a string id is taken for another one which sorts behind it",
     r'''
rt = node("ReferenceType", "ns=1;s=zz", [("i=45", "i=35", False)], bn="1:zz") + node("ReferenceType", "ns=1;s=aa", [("i=45", "i=32", False)], bn="1:aa")
a, b = "ns=1;i=1", "ns=1;i=2"
t = node("Object", a, [("i=35", "i=85", False), ("ns=1;s=aa", b, True)]) + node("Object", b, [("i=35", "i=85", False), ("ns=1;s=aa", a, True)])
o = fine(run("server 0", "load 0 %s" % file(doc(rt)), "load 0 %s" % file(doc(t)), "sdelete 0"))
check(o[1]["ok"] and o[2]["ok"], "a nodeset with a cycle of non-hierarchical references was rejected")
''')

seed("c29-member-name", "C29", [("backends/open62541/src/DataTypeImporter.c", "                char *memberNameCopy =\n                    (char *)UA_calloc(strlen(m->memberName) + 1, sizeof(char));\n                memcpy(memberNameCopy, m->memberName, strlen(m->memberName));\n                members[cnt].memberName = memberNameCopy;\n", "                char *memberNameCopy =\n                    (char *)UA_calloc(32, sizeof(char));\n                memcpy(memberNameCopy, m->memberName, strlen(m->memberName));\n                members[cnt].memberName = memberNameCopy;\n")],
     "a structure derived from one which has a member with a name of more than 31 characters",
     "an inherited member name is written behind the end of a buffer",
     r'''
n = "m" * 40
f = file(doc(node("DataType", "ns=1;i=3", [("i=45", "i=22", False)], body='<Definition Name="1:S"><Field Name="%s" DataType="i=6"/></Definition>' % n, bn="1:S") + node("DataType", "ns=1;i=4", [("i=45", "ns=1;i=3", False)], body='<Definition Name="1:T"><Field Name="b" DataType="i=6"/></Definition>', bn="1:T")))
o = fine(run("server 0", "load 0 %s" % f, "sdump 0", "sdelete 0"))
check(any([m[0] for m in t["m"]] == [n, "b"] for t in o[2]["types"]), "%r" % o[2]["types"])
''')

seed("c30-precedence", "C30", [("src/Nodeset.c", "        if (nodeset->refService->isHierachicalRef(nodeset->refService->context,\n                                                  node->unknownRefs))\n        {\n            insertElementAtFront(&node->hierachicalRefs, node->unknownRefs);\n            node->unknownRefs = nextUnknown;\n            continue;\n        }\n        if (nodeset->refService->isNonHierachicalRef(\n                nodeset->refService->context, node->unknownRefs))\n        {\n            insertElementAtFront(&node->nonHierachicalRefs, node->unknownRefs);\n            node->unknownRefs = nextUnknown;\n            continue;\n        }\n",
     "        if (nodeset->refService->isNonHierachicalRef(\n                nodeset->refService->context, node->unknownRefs))\n        {\n            insertElementAtFront(&node->nonHierachicalRefs, node->unknownRefs);\n            node->unknownRefs = nextUnknown;\n            continue;\n        }\n        if (nodeset->refService->isHierachicalRef(nodeset->refService->context,\n                                                  node->unknownRefs))\n        {\n            insertElementAtFront(&node->hierachicalRefs, node->unknownRefs);\n            node->unknownRefs = nextUnknown;\n            continue;\n        }\n")],
     "a reference service of the caller which, like the built-in one for namespace 0, answers both questions with yes for a hierarchical type, and a reference of this type in front of the node of the type",
     "the reference is reported as non-hierarchical and does not take part in the order, references of the same type behind the type node are reported as hierarchical",
     r'''
f = file(doc(node("Object", "ns=1;i=1", [("i=35", "i=85", False), ("ns=1;i=9", "ns=1;i=2", True)]) + node("Object", "ns=1;i=2", []) + node("ReferenceType", "ns=1;i=9", [("i=45", "i=35", False)])))
o = fine(run("svc 0 0;i=35 h known 0;i=45 h known 1;i=9 hn learned", "loader 0 cap 0", "nstable 0 1", "import 0 %s 0 0" % f, "sort 0", "dump 0", "delete 0", "svcdump 0 free"))
d = [x for x in o if x["cmd"] == "dump"][0]
check([True, "1;i=9", "1;i=2"] in find(d["nodes"], "1;i=1")["h"], "%r" % find(d["nodes"], "1;i=1"))
''')

seed("c30-namespace0", "C30", [("src/Nodeset.c", "    if (nodeset->refService->isNonHierachicalRef(nodeset->refService->context,\n                                                 newRef))\n    {\n        newRef->next = node->nonHierachicalRefs;", "    // the types of the standard are known, no need to defer them\n    if (newRef->refType.namespaceIndex == 0 ||\n        nodeset->refService->isNonHierachicalRef(nodeset->refService->context,\n                                                 newRef))\n    {\n        newRef->next = node->nonHierachicalRefs;")],
     "a reference service of the caller which does not know (or learns later) a reference type of namespace 0",
     "the reference is treated as non-hierarchical although the service never said so, sorting succeeds",
     r'''
f = file(doc(node("Object", "ns=1;i=1", [("i=35", "i=85", False), ("i=17603", "i=2253", True)])))
o = fine(run("svc 0 0;i=35 h known 0;i=45 h known", "loader 0 cap 0", "nstable 0 1", "import 0 %s 0 0" % f, "sort 0", "delete 0", "svcdump 0 free"))
check(not [x for x in o if x["cmd"] == "sort"][0]["ok"], "sort succeeds with a reference type the service does not know")
''')

THREADS = r'''
import os
f = [file(doc("".join(node("Object", "ns=1;i=%d" % i, [("i=47", "i=85", False)]) for i in range(1, n)), uris=["http://%d/" % n])) for n in (40, 60, 80)]
threads(6, 12, "--%s" % KIND, f[0], "--%s" % KIND, f[1], "--%s" % KIND, f[2])
'''
seed("c31-static-buffer", "C31", [("src/Parser.c", "    char chars[1024];", "    // too large for the stack of small devices\n    static char chars[16 * 1024];")],
     "two threads which import at the same time",
     "both threads read their files into the same buffer",
     'KIND = "c"' + THREADS)

seed("c31-shared-logger", "C31", [("src/NodesetLoader.c", "        loader->logger = InternalLogger_new();\n        loader->internalLogger = true;", "        // the default logger has no state, one is enough for all loaders\n        if (defaultLoggerUsers++ == 0)\n        {\n            defaultLogger = InternalLogger_new();\n        }\n        loader->logger = defaultLogger;\n        loader->internalLogger = true;"),
                                  ("src/NodesetLoader.c", "    if (loader->internalLogger)\n    {\n        free(loader->logger);", "    if (loader->internalLogger && --defaultLoggerUsers == 0)\n    {\n        free(defaultLogger);"),
                                  ("src/NodesetLoader.c", "NodesetLoader *NodesetLoader_new(NodesetLoader_Logger *logger,", "static NodesetLoader_Logger *defaultLogger;\nstatic size_t defaultLoggerUsers;\n\nNodesetLoader *NodesetLoader_new(NodesetLoader_Logger *logger,")],
     "loaders with the default logger which are created and deleted in two threads at the same time",
     "the counter of the shared logger is not synchronized: the logger is used after it is freed, or freed twice",
     'KIND = "d"' + THREADS)

LOCALE = r"""
import os
subprocess.run(["localedef", "-c", "--no-archive", "-i", "de_DE", "-f", "ISO-8859-1", TMP + "/de_DE.ISO-8859-1"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
"""
seed("c32-mktime", "C32", [("backends/open62541/src/conversion.h", "    UA_DateTime dateTime = UA_DateTime_fromStruct(dt);\n", "    struct tm tm;\n    memset(&tm, 0, sizeof(tm));\n    tm.tm_year = dt.year - 1900;\n    tm.tm_mon = dt.month - 1;\n    tm.tm_mday = dt.day;\n    tm.tm_hour = dt.hour;\n    tm.tm_min = dt.min;\n    tm.tm_sec = dt.sec;\n    UA_DateTime dateTime = (UA_DateTime)mktime(&tm) * 10000000 +\n                           116444736000000000LL + dt.milliSec * 10000 +\n                           dt.microSec * 10 + dt.nanoSec / 100;\n")],
     "a process whose time zone is not UTC (or has daylight saving), and a DateTime value",
     "dates in values are shifted by the offset of the local time zone",
     r"""
f = file(doc(node("Variable", "ns=1;i=1", [("i=47", "i=85", False), ("i=40", "i=63", True)], 'DataType="i=13"', "<Value><uax:DateTime>2020-06-01T12:00:00Z</uax:DateTime></Value>")))
r = [fine(run("env tz %s" % tz, "server 0", "load 0 %s" % f, "sdump 0", "sdelete 0"))[3] for tz in ("UTC", "XYZ-5:30")]
v = [dict(find(x["nodes"], "2;i=1")["attr"])["Value"]["v"] for x in r]
check(v[0] == v[1], "%r" % v)
""")

seed("c32-base64-letters", "C32", [("backends/open62541/src/nodeset_base64.h", "            if (((ascii[charNo] >= '0') &&\n                 (ascii[charNo] <= '9')) ||\n                ((ascii[charNo] >= 'A') &&\n                 (ascii[charNo] <= 'Z')) ||\n                ((ascii[charNo] >= 'a') &&\n                 (ascii[charNo] <= 'z')) ||\n                (ascii[charNo] == '+') ||", "            if (isalnum((unsigned char)ascii[charNo]) ||\n                (ascii[charNo] == '+') ||")],
     "a locale with an 8-bit character set in which bytes above 127 are letters, and a ByteString with such bytes",
     "an invalid base64 text is decoded to arbitrary bytes in such a locale and rejected in others",
     LOCALE + r"""
f = file(doc(node("Variable", "ns=1;i=1", [("i=47", "i=85", False), ("i=40", "i=63", True)], 'DataType="i=15"', "<Value><uax:ByteString>QUJD\u00ea\u00fa</uax:ByteString></Value>")))
r = [fine(run("env locale %s %s" % (TMP, l), "server 0", "load 0 %s" % f, "sdump 0", "sdelete 0")) for l in ("C", "de_DE.ISO-8859-1")]
check(r[1][0]["ok"], "no locale")
v = [dict(find(x[3]["nodes"], "2;i=1")["attr"])["Value"] for x in r]
check(v[0] == v[1], "%r" % v)
""")

seed("c03-edge-count", "C03", [("src/Sort.c", "size_t edgeCount", "unsigned char edgeCount")],
     "a node with 256 (or a multiple of it) parents",
     "the counter of incoming edges wraps around: the node is reported in front of its parents",
     r'''
n = node("Object", "ns=1;i=1000", [("i=35", "ns=1;i=%d" % i, False) for i in range(1, 257)])
f = file(doc(n + "".join(node("Object", "ns=1;i=%d" % i, [("i=35", "i=85", False)]) for i in range(1, 257))))
o = fine(run("loader 0 cap", "nstable 0 1", "import 0 %s 0 0" % f, "sort 0", "dump 0", "delete 0"))
ids = [x["id"] for x in o[4]["nodes"]]
check(o[3]["ok"] and len(ids) == 257, "%r" % o[3])
check(ids[-1] == "1;i=1000", "the child of all comes at %d" % ids.index("1;i=1000"))
''')

seed("c05-single-byte", "C05", [("src/Parser.c", "(res = (int)fread(chars, 1, sizeof(chars), file)) > 0)", "(res = (int)fread(chars, 1, sizeof(chars), file)) > 1)")],
     "a file which is one byte longer than a multiple of the block which is read at once (after the first bytes)",
     "the last byte of such files is not parsed, they are rejected",
     r'''
t = doc(node("Object", "ns=1;i=1", [("i=35", "i=85", False)])).rstrip("\n")
for n in range(2040, 2060):
    b = t.replace("</UANodeSet>", " " * (n - len(t)) + "</UANodeSet>")
    check(len(b.encode()) == n, "length")
    o = fine(run("loader 0 cap", "nstable 0 1", "import 0 %s 0 0" % file(b), "delete 0"))
    check(o[2]["ok"], "a file of %d bytes is rejected" % n)
''')

seed("c07-index-byte", "C07", [("src/NamespaceList.c", "    return &list->data[relativeIndex];", "    return &list->data[(unsigned char)relativeIndex];")],
     "a node id, reference or browse name in namespace 256 or above of the file",
     "namespaces above 255 are taken for those modulo 256",
     r'''
f = file(doc(node("Object", "ns=300;i=1", [("i=35", "i=85", False)], bn="257:x"), uris=["http://%d/" % i for i in range(1, 321)]))
o = fine(run("loader 0 cap", "nstable 0 1", "import 0 %s 0 0" % f, "sort 0", "dump 0", "delete 0"))
n = o[4]["nodes"][0]
check(n["id"] == "300;i=1" and n["bns"] == 257, "%r" % n)
''')

seed("c08-equals-sign", "C08", [("src/Nodeset.c", "    const UA_NodeId *alias = AliasList_getNodeId(nodeset->aliasList, name);", "    // only names without = can be aliases, save the search for the others\n    const UA_NodeId *alias =\n        name && strchr(name, '=')\n            ? NULL\n            : AliasList_getNodeId(nodeset->aliasList, name);")],
     "an alias whose name contains an equals sign",
     "such an alias is parsed as a node id (and becomes the null id)",
     r'''
f = file(doc(node("Variable", "ns=1;i=1", [("Type=Org", "i=85", False)], 'DataType="x=y"'), aliases=[("Type=Org", "i=35"), ("x=y", "i=7")]))
o = fine(run("loader 0 cap", "nstable 0 1", "import 0 %s 0 0" % f, "sort 0", "dump 0", "delete 0"))
n = o[4]["nodes"][0]
check(n["DataType"] == "0;i=7" and n["h"] == [[False, "0;i=35", "0;i=85"]], "%r" % n)
''')

seed("c10-rank-byte", "C10", [("src/Nodeset.c", "newField->valueRank = atoi(getAttributeValue(", "newField->valueRank = (signed char)atoi(getAttributeValue(")],
     "a field with a value rank above 127",
     "the value rank of the field becomes negative",
     r'''
f = file(doc(node("DataType", "ns=1;i=3", [("i=45", "i=22", False)], body='<Definition Name="1:E"><Field Name="a" DataType="i=6" ValueRank="200"/></Definition>')))
o = fine(run("loader 0 cap", "nstable 0 1", "import 0 %s 0 0" % f, "sort 0", "dump 0", "delete 0"))
d = o[4]["nodes"][0]["def"]
check(d["f"][0][2] == 200, "definition %r" % d)
''')

seed("c12-skip-depth", "C12", [("src/NodesetLoader.c", "        pctx->unknown_depth++;\n        break;    ", "        // protect the counter against malicious nesting\n        if (pctx->unknown_depth < 100)\n            pctx->unknown_depth++;\n        break;    ")],
     "a subtree of more than 100 levels inside of an element which is skipped",
     "skipping ends too early, the end of a skipped element is taken for the end of the node",
     r'''
junk = "<Foo>" + "<a>" * 120 + "</a>" * 120 + "</Foo><Description>d</Description>"
f = file(doc(node("Object", "ns=1;i=1", [("i=35", "i=85", False)], body=junk)))
o = fine(run("loader 0 cap", "nstable 0 1", "import 0 %s 0 0" % f, "sort 0", "dump 0", "delete 0"))
check(o[2]["ok"] and o[4]["nodes"][0]["desc"][1] == "d", "%r" % o[4]["nodes"][0])
''')

seed("c21-first-failure", "C21", [("backends/open62541/src/import.c", "        UA_Server_addReference(server, src, refType, target, ref->isForward);\n        ref = ref->next;\n    }\n}", "        UA_StatusCode status = UA_Server_addReference(\n            server, src, refType, target, ref->isForward);\n        if (UA_StatusCode_isBad(status))\n        {\n            return;\n        }\n        ref = ref->next;\n    }\n}")],
     "a node with several hierarchical references, one of which exists already (the parent) or cannot be created",
     "the references behind the one which could not be created are missing in the server",
     r'''
f = file(doc(node("Object", "ns=1;i=1", [("i=35", "i=85", False)]) + node("Object", "ns=1;i=2", [("i=35", "i=86", False), ("i=47", "ns=1;i=1", False), ("i=35", "ns=1;i=3", True)]) + node("Object", "ns=1;i=3", [("i=35", "i=85", False)])))
o = fine(run("server 0", "load 0 %s" % f, "sdump 0", "sdelete 0"))
r = find(o[2]["nodes"], "2;i=2")["refs"]
check([False, "0;i=47", "2;i=1"] in r and [False, "0;i=35", "0;i=86"] in r and [True, "0;i=35", "2;i=3"] in r, "%r" % r)
''')

seed("c22-int64-precision", "C22", [("backends/open62541/src/Value.c", "(UA_Int64)strtoll(value, NULL, 10)", "(UA_Int64)strtod(value, NULL)")],
     "an Int64 value of more than 53 significant bits",
     "the lower bits of large values are lost",
     r'''
f = file(doc(node("Variable", "ns=1;i=1", [("i=47", "i=85", False), ("i=40", "i=63", True)], 'DataType="i=8"', "<Value><uax:Int64>-9007199254740993</uax:Int64></Value>")))
o = fine(run("server 0", "load 0 %s" % f, "sdump 0", "sdelete 0"))
v = dict(find(o[2]["nodes"], "2;i=1")["attr"])["Value"]["v"]
check(v in (-9007199254740993, "-9007199254740993"), "%r" % v)
''')

seed("c24-union-pointers", "C24", [("backends/open62541/src/DataTypeImporter.c", "!tm->isArray &&\n                            !tm->isOptional && tm->memberType->pointerFree;", "!tm->isArray &&\n                            !tm->isOptional &&\n                            (tm->memberType->pointerFree ||\n                             tm->memberType->typeKind == UA_DATATYPEKIND_UNION);")],
     "a structure whose only member with pointers is a union",
     "the structure is marked as free of pointers, its values are copied and released as plain memory",
     r'''
f = file(doc(node("DataType", "ns=1;i=3", [("i=45", "i=12756", False)], body='<Definition Name="1:U" IsUnion="true"><Field Name="a" DataType="i=6"/><Field Name="s" DataType="i=12"/></Definition>', bn="1:U")
    + node("DataType", "ns=1;i=4", [("i=45", "i=22", False)], body='<Definition Name="1:S"><Field Name="a" DataType="i=6"/><Field Name="u" DataType="ns=1;i=3"/></Definition>', bn="1:S")))
o = fine(run("server 0", "load 0 %s" % f, "sdump 0", "sdelete 0"))
t = dict((x["id"], x) for x in o[2]["types"])
check(not t["2;i=4"]["pf"] and not t["2;i=3"]["pf"], "%r" % t)
''')

seed("c16-one-extension", "C16", [("src/NodesetLoader.c", "            if (pctx->extIf)\n            {\n                pctx->extensionData = pctx->extIf->newExtension();", "            // a node has one extension\n            if (pctx->extIf && !pctx->node->extension)\n            {\n                pctx->extensionData = pctx->extIf->newExtension();")],
     "a node with several Extension elements",
     "the elements of the second extension are reported to a handler which was finished already (or with no extension at all)",
     r'''
f = file(doc(node("Object", "ns=1;i=1", [("i=35", "i=85", False)], body="<Extensions><Extension><a>1</a></Extension><Extension><b>2</b></Extension></Extensions>")))
o = fine(run("loader 0 cap", "nstable 0 1", "import 0 %s 0 1" % f, "sort 0", "delete 0"))
ev = str(o[2]["ev"])
check(ev.count("['n'") == 2 and ev.count("['s'") == 2 and ev.count("['f'") == 2, ev)
check("['s', 1, 'b'" in ev, ev)
''')

seed("c33-edges-released", "C33", [("src/Sort.c", "                e = e->next;\n            }\n            ctx->head = ctx->head->qlink;", "                S_Edge *next = e->next;\n                free(e);\n                e = next;\n            }\n            ctx->head->edges = NULL;\n            ctx->head = ctx->head->qlink;")],
     "sort called a second time, with a child whose node id is lower than that of its parent",
     "the second sort does not know the relations any more, children come before their parents and cycles are accepted",
     r'''
f = file(doc(node("Object", "ns=1;i=1", [("i=35", "ns=1;i=2", False)]) + node("Object", "ns=1;i=2", [("i=35", "i=85", False)])))
g = file(doc(node("Object", "ns=1;i=3", [("i=35", "i=85", False)])))
o = fine(run("loader 0 cap", "nstable 0 1", "import 0 %s 0 0" % f, "sort 0", "import 0 %s 0 0" % g, "sort 0", "ids 0", "delete 0"))
ids = [x["id"] for x in o[6]["nodes"]]
check(sorted(ids) == ["1;i=1", "1;i=2", "1;i=3"] and ids.index("1;i=2") < ids.index("1;i=1"), "%r" % ids)
''')

seed("c33-second-verdict", "C33", [("src/Nodeset.c", "        return false;\n    }\n    return true;\n}\n\nstatic bool isReferenceTypeKnown", "        // keep it, so that it is reported with the others\n        insertElementAtFront(&node->nonHierachicalRefs, node->unknownRefs);\n        node->unknownRefs = nextUnknown;\n        unknown = true;\n    }\n    return !unknown;\n}\n\nstatic bool isReferenceTypeKnown"),
      ("src/Nodeset.c", "static bool lookupUnknownReferences(Nodeset *nodeset, NL_Node *node)\n{\n    while (node->unknownRefs)", "static bool lookupUnknownReferences(Nodeset *nodeset, NL_Node *node)\n{\n    bool unknown = false;\n    while (node->unknownRefs)")],
     "sort on a loader whose sort failed because of an unknown reference type, after the type was imported",
     "the second sort returns true whatever was imported, and the reference has the wrong class",
     r'''
f = file(doc(node("Object", "ns=1;i=1", [("ns=1;i=900", "ns=1;i=2", True)]) + node("Object", "ns=1;i=2", [("i=35", "i=85", False)])))
g = file(doc(node("ReferenceType", "ns=1;i=900", [("i=45", "i=35", False)])))
o = fine(run("loader 0 cap", "nstable 0 1", "import 0 %s 0 0" % f, "sort 0", "import 0 %s 0 0" % g, "sort 0", "dump 0", "delete 0"))
check(not o[3]["ok"] and o[5]["ok"], "sorts: %r %r" % (o[3]["ok"], o[5]["ok"]))
n = [x for x in o[6]["nodes"] if x["id"] == "1;i=1"][0]
check([True, "1;i=900", "1;i=2"] in n["h"] and not n["n"], "%r %r" % (n["h"], n["n"]))
''')

seed("c23-array-step", "C23", [("backends/open62541/src/Value.c", "        data->offset = i * type->memSize;\n        setScalar(value->val", "        // every value advances the offset by its size\n        if (i == 0)\n        {\n            data->offset = 0;\n        }\n        setScalar(value->val")],
     "an array of structures which end with padding",
     "the elements behind the first one are written at the wrong place",
     r'''
f = file(doc(node("DataType", "ns=1;i=3", [("i=45", "i=22", False)], body='<Definition Name="1:S"><Field Name="a" DataType="i=8"/><Field Name="b" DataType="i=3"/></Definition>', bn="1:S")
    + node("Object", "ns=1;i=5", [("i=38", "ns=1;i=3", False), ("i=40", "i=76", True)], bn="Default XML")
    + node("Object", "ns=1;i=6", [("i=38", "ns=1;i=3", False), ("i=40", "i=76", True)], bn="Default Binary")
    + node("Variable", "ns=1;i=7", [("i=47", "i=85", False), ("i=40", "i=63", True)], 'DataType="ns=1;i=3" ValueRank="1"',
      "<Value><uax:ListOfExtensionObject>" + "".join("<uax:ExtensionObject><uax:TypeId><uax:Identifier>ns=1;i=5</uax:Identifier></uax:TypeId><uax:Body><S><a>%d</a><b>%d</b></S></uax:Body></uax:ExtensionObject>" % (k, k) for k in (1, 2, 3)) + "</uax:ListOfExtensionObject></Value>")))
o = fine(run("server 0", "load 0 %s" % f, "sdump 0", "sdelete 0"))
v = str(dict(find(o[2]["nodes"], "2;i=7")["attr"])["Value"])
for k in (1, 2, 3):
    check(v.count("['a', '%d'" % k) + v.count("['a', %d" % k) == 1 and v.count("['b', '%d'" % k) + v.count("['b', %d" % k) == 1, v)
''')

seed("c09-list-member", "C09", [("src/Value.c", "        if (val->isExtensionObject && val->isArray &&\n            val->ctx->currentData->parent == NULL)", "        if (val->isExtensionObject && val->isArray &&\n            !strncmp(val->ctx->currentData->name, \"ListOf\", strlen(\"ListOf\")))")],
     "an array of structures with a member whose own name begins with ListOf",
     "the structure ends with the first element of that member, what follows is lost",
     r'''
body = "<S><ListOfThings><Int32>1</Int32><Int32>2</Int32></ListOfThings><z>9</z></S>"
f = file(doc(node("Variable", "ns=1;i=7", [("i=47", "i=85", False)], 'DataType="i=22" ValueRank="1"',
      "<Value><uax:ListOfExtensionObject><uax:ExtensionObject><uax:TypeId><uax:Identifier>ns=1;i=5</uax:Identifier></uax:TypeId><uax:Body>%s</uax:Body></uax:ExtensionObject></uax:ListOfExtensionObject></Value>" % body)))
o = fine(run("loader 0 cap", "nstable 0 1", "import 0 %s 0 0" % f, "sort 0", "dump 0", "delete 0"))
d = str(o[4]["nodes"][0]["value"])
check("['Int32', 'p', '2']" in d and "['z', 'p', '9']" in d, d)
''')

seed("c20-many-dimensions", "C20", [("backends/open62541/src/import.c", "    while (subString != NULL)\n", "    // no array has more dimensions\n    while (subString != NULL && arrSize < 8)\n")],
     "a variable or variable type with more than eight array dimensions",
     "the last dimensions are missing in the server",
     r'''
f = file(doc(node("VariableType", "ns=1;i=1", [("i=45", "i=63", False)], 'ValueRank="10" ArrayDimensions="1,2,3,4,5,6,7,8,9,10"')))
o = fine(run("server 0", "load 0 %s" % f, "sdump 0", "sdelete 0"))
d = dict((k.replace(" ", ""), v) for k, v in find(o[2]["nodes"], "2;i=1")["attr"])["ArrayDimensions"]
check(d == list(range(1, 11)), "%r" % d)
''')

seed("c20-notifier-bits", "C20", [("backends/open62541/src/import.c", "    oAttr.eventNotifier = (UA_Byte)atoi(node->eventNotifier);", "    // SubscribeToEvents, HistoryRead, HistoryWrite\n    oAttr.eventNotifier = (UA_Byte)(atoi(node->eventNotifier) & 0x0d);")],
     "an object whose event notifier has other than the three bits defined today",
     "the other bits are lost in the server",
     r'''
f = file(doc(node("Object", "ns=1;i=1", [("i=35", "i=85", False)], 'EventNotifier="255"') + node("Object", "ns=1;i=2", [("i=35", "i=85", False)], 'EventNotifier="2"')))
o = fine(run("server 0", "load 0 %s" % f, "sdump 0", "sdelete 0"))
g = [dict((k.replace(" ", ""), v) for k, v in find(o[2]["nodes"], "2;i=%d" % i)["attr"])["EventNotifier"] for i in (1, 2)]
check([int(x) for x in g] == [255, 2], "%r" % g)
''')

seed("c24-overlay", "C24", [("backends/open62541/src/DataTypeImporter.c", "    type->overlayable = false;\n}\n\nstatic void EnumDataType_init", "    type->overlayable = type->pointerFree && UA_BINARY_OVERLAYABLE_INTEGER;\n}\n\nstatic void EnumDataType_init")],
     "any structure, seen by whoever encodes arrays of it as plain memory",
     "structures with padding or pointers are marked as equal in memory and encoding",
     r'''
f = file(doc(node("DataType", "ns=1;i=3", [("i=45", "i=22", False)], body='<Definition Name="1:S"><Field Name="a" DataType="i=3"/><Field Name="b" DataType="i=8"/></Definition>', bn="1:S")
    + node("DataType", "ns=1;i=4", [("i=45", "i=22", False)], body='<Definition Name="1:T"><Field Name="a" DataType="i=12"/></Definition>', bn="1:T")))
o = fine(run("server 0", "load 0 %s" % f, "sdump 0", "sdelete 0"))
t = dict((x["id"], x) for x in o[2]["types"])
check(not t["2;i=3"]["ov"] and not t["2;i=4"]["ov"], "%r" % t)
''')
