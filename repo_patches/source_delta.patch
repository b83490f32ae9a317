From 1d0a5fed7862b531f58a8101cbf5621b849d6c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:22 +0000
Subject: [PATCH 01/47] fix: report malformed or truncated nodeset files and
 free the parser in every path

---
 src/Parser.c | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/Parser.c b/src/Parser.c
index aa5bf27..552f119 100644
--- a/src/Parser.c
+++ b/src/Parser.c
@@ -46,17 +46,37 @@ int Parser_run(Parser *parser, FILE *file, Parser_callbackStart start,
     xmlInitParser(); // Fix memory leak: https://gitlab.gnome.org/GNOME/libxml2/-/issues/9
     xmlParserCtxtPtr ctxt =
         xmlCreatePushParserCtxt(&hdl, parser->context, chars, res, NULL);
-    while ((res = (int)fread(chars, 1, sizeof(chars), file)) > 0)
+    if (!ctxt)
     {
-        if (xmlParseChunk(ctxt, chars, res, 0))
-        {
-            xmlParserError(ctxt, "xmlParseChunk");
-            return 1;
-        }
+        return 1;
+    }
+    int status = 0;
+    while (status == 0 &&
+           (res = (int)fread(chars, 1, sizeof(chars), file)) > 0)
+    {
+        status = xmlParseChunk(ctxt, chars, res, 0);
+    }
+    // only the terminating call detects a document which ends too early
+    if (status == 0)
+    {
+        status = xmlParseChunk(ctxt, chars, 0, 1);
+    }
+    if (status == 0 && ferror(file))
+    {
+        status = 1;
+    }
+    if (status != 0)
+    {
+        xmlParserError(ctxt, "xmlParseChunk");
+    }
+    // a DTD makes libxml2 keep a document for its entities
+    if (ctxt->myDoc)
+    {
+        xmlFreeDoc(ctxt->myDoc);
+        ctxt->myDoc = NULL;
     }
-    xmlParseChunk(ctxt, chars, 0, 1);
     xmlFreeParserCtxt(ctxt);
     xmlCleanupParser();
-    return 0;
+    return status != 0 ? 1 : 0;
 }
 void Parser_delete(Parser *parser) { free(parser); }
-- 
2.43.0


From 4eb746b9bf9688f2fea8c4914f63bc99b1b8ace5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:49 +0000
Subject: [PATCH 02/47] fix: replace entities in attribute values

---
 src/Parser.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Parser.c b/src/Parser.c
index 552f119..7799caa 100644
--- a/src/Parser.c
+++ b/src/Parser.c
@@ -50,6 +50,9 @@ int Parser_run(Parser *parser, FILE *file, Parser_callbackStart start,
     {
         return 1;
     }
+    // without this option libxml2 hands out attribute values in which some
+    // entities are not replaced (&amp; arrives as &#38;)
+    xmlCtxtUseOptions(ctxt, XML_PARSE_NOENT);
     int status = 0;
     while (status == 0 &&
            (res = (int)fread(chars, 1, sizeof(chars), file)) > 0)
-- 
2.43.0


From cbc3546b8691c70c4211e366ce2509cc9009941a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:49 +0000
Subject: [PATCH 03/47] fix: do not dereference a missing nodeset or file name

---
 src/NodesetLoader.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/NodesetLoader.c b/src/NodesetLoader.c
index 4e80577..55f5ecc 100644
--- a/src/NodesetLoader.c
+++ b/src/NodesetLoader.c
@@ -468,7 +468,7 @@ bool NodesetLoader_importFile(NodesetLoader *loader,
     }
 
     TParserCtx *ctx = NULL;
-    FILE *f = fopen(fileHandler->file, "r");
+    FILE *f = fileHandler->file ? fopen(fileHandler->file, "r") : NULL;
 
     if (!f)
     {
@@ -514,6 +514,11 @@ cleanup:
 
 bool NodesetLoader_sort(NodesetLoader *loader)
 {
+    // nothing imported, nothing to sort
+    if (!loader->nodeset)
+    {
+        return true;
+    }
     return Nodeset_sort(loader->nodeset);
 }
 
@@ -548,7 +553,10 @@ NodesetLoader *NodesetLoader_new(NodesetLoader_Logger *logger,
 
 void NodesetLoader_delete(NodesetLoader *loader)
 {
-    Nodeset_cleanup(loader->nodeset);
+    if (loader->nodeset)
+    {
+        Nodeset_cleanup(loader->nodeset);
+    }
     if (loader->internalLogger)
     {
         free(loader->logger);
@@ -563,6 +571,10 @@ void NodesetLoader_delete(NodesetLoader *loader)
 const NL_BiDirectionalReference *
 NodesetLoader_getBidirectionalRefs(const NodesetLoader *loader)
 {
+    if (!loader->nodeset)
+    {
+        return NULL;
+    }
     return Nodeset_getBiDirectionalRefs(loader->nodeset);
 }
 
@@ -570,5 +582,9 @@ size_t NodesetLoader_forEachNode(NodesetLoader *loader, NL_NodeClass nodeClass,
                                void *context,
                                NodesetLoader_forEachNode_Func fn)
 {
+    if (!loader->nodeset)
+    {
+        return 0;
+    }
     return Nodeset_forEachNode(loader->nodeset, nodeClass, context, fn);
 }
-- 
2.43.0


From a71d6485eb8304692176c357fe37879d1459a47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:49 +0000
Subject: [PATCH 04/47] fix: pass an empty Uri as empty string to the namespace
 callback

---
 src/Nodeset.c       | 2 +-
 src/Nodeset.h       | 2 +-
 src/NodesetLoader.c | 3 ++-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Nodeset.c b/src/Nodeset.c
index a3b3c88..53b4203 100644
--- a/src/Nodeset.c
+++ b/src/Nodeset.c
@@ -487,7 +487,7 @@ void Nodeset_newAliasFinish(Nodeset *nodeset, Alias *alias, char *idString)
 }
 
 void Nodeset_newNamespaceFinish(Nodeset *nodeset, void *userContext,
-                                char *namespaceUri)
+                                const char *namespaceUri)
 {
     NamespaceList_newNamespace(nodeset->namespaces, userContext, namespaceUri);
 }
diff --git a/src/Nodeset.h b/src/Nodeset.h
index bc67733..3957c10 100644
--- a/src/Nodeset.h
+++ b/src/Nodeset.h
@@ -54,7 +54,7 @@ struct Alias *Nodeset_newAlias(Nodeset *nodeset, int attributeSize,
 void Nodeset_newAliasFinish(Nodeset *nodeset, struct Alias *alias,
                             char *idString);
 void Nodeset_newNamespaceFinish(Nodeset *nodeset, void *userContext,
-                                char *namespaceUri);
+                                const char *namespaceUri);
 void Nodeset_addDataTypeDefinition(Nodeset *nodeset, NL_Node *node, int attributeSize,
                               const char **attributes);
 void Nodeset_addDataTypeField(Nodeset *nodeset, NL_Node *node, int attributeSize,
diff --git a/src/NodesetLoader.c b/src/NodesetLoader.c
index 55f5ecc..a2a884f 100644
--- a/src/NodesetLoader.c
+++ b/src/NodesetLoader.c
@@ -336,7 +336,8 @@ static void OnEndElementNs(void *ctx, const char *localname, const char *prefix,
     case PARSER_STATE_URI:
     {
         Nodeset_newNamespaceFinish(pctx->nodeset, pctx->userContext,
-                                   pctx->onCharacters);
+                                   pctx->onCharacters ? pctx->onCharacters
+                                                      : "");
         pctx->state = PARSER_STATE_NAMESPACEURIS;
     }
     break;
-- 
2.43.0


From a66c8570efd8cba59786074d1efd8eb310a80e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:00 +0000
Subject: [PATCH 05/47] fix: release every node, reference, value and node id
 with the loader

---
 src/Nodeset.c            | 23 ++++++++++++++---------
 src/Nodeset.h            |  1 +
 src/NodesetLoader.c      | 17 ++++++++++++++++-
 src/nodes/DataTypeNode.c | 10 +++++++++-
 src/nodes/Node.c         | 22 +++++++++++++++-------
 src/nodes/Node.h         |  2 ++
 6 files changed, 57 insertions(+), 18 deletions(-)

diff --git a/src/Nodeset.c b/src/Nodeset.c
index 53b4203..9d595c4 100644
--- a/src/Nodeset.c
+++ b/src/Nodeset.c
@@ -165,14 +165,16 @@ Nodeset *Nodeset_new(NL_addNamespaceCallback nsCallback,
     nodeset->aliasList = AliasList_new();
     nodeset->namespaces = NamespaceList_new(nsCallback);
     nodeset->charArena = CharArenaAllocator_new(1024 * 1024);
-    nodeset->nodes[NODECLASS_OBJECT] = NodeContainer_new(10000, true);
-    nodeset->nodes[NODECLASS_VARIABLE] = NodeContainer_new(10000, true);
-    nodeset->nodes[NODECLASS_METHOD] = NodeContainer_new(1000, true);
-    nodeset->nodes[NODECLASS_OBJECTTYPE] = NodeContainer_new(100, true);
-    nodeset->nodes[NODECLASS_DATATYPE] = NodeContainer_new(100, true);
-    nodeset->nodes[NODECLASS_REFERENCETYPE] = NodeContainer_new(100, true);
-    nodeset->nodes[NODECLASS_VARIABLETYPE] = NodeContainer_new(100, true);
-    nodeset->nodes[NODECLASS_VIEW] = NodeContainer_new(10, true);
+    // owns every node, no matter which of the other containers refer to it
+    nodeset->allNodes = NodeContainer_new(10000, true);
+    nodeset->nodes[NODECLASS_OBJECT] = NodeContainer_new(10000, false);
+    nodeset->nodes[NODECLASS_VARIABLE] = NodeContainer_new(10000, false);
+    nodeset->nodes[NODECLASS_METHOD] = NodeContainer_new(1000, false);
+    nodeset->nodes[NODECLASS_OBJECTTYPE] = NodeContainer_new(100, false);
+    nodeset->nodes[NODECLASS_DATATYPE] = NodeContainer_new(100, false);
+    nodeset->nodes[NODECLASS_REFERENCETYPE] = NodeContainer_new(100, false);
+    nodeset->nodes[NODECLASS_VARIABLETYPE] = NodeContainer_new(100, false);
+    nodeset->nodes[NODECLASS_VIEW] = NodeContainer_new(10, false);
     nodeset->nodesWithUnknownRefs = NodeContainer_new(100, false);
     nodeset->refTypesWithUnknownRefs = NodeContainer_new(100, false);
     nodeset->refService = refService;
@@ -274,6 +276,7 @@ void Nodeset_cleanup(Nodeset *nodeset)
     {
         NodeContainer_delete(nodeset->nodes[cnt]);
     }
+    NodeContainer_delete(nodeset->allNodes);
     NodeContainer_delete(nodeset->nodesWithUnknownRefs);
     NodeContainer_delete(nodeset->refTypesWithUnknownRefs);
     NamespaceList_delete(nodeset->namespaces);
@@ -414,6 +417,7 @@ NL_Node *Nodeset_newNode(Nodeset *nodeset, NL_NodeClass nodeClass,
                          int nb_attributes, const char **attributes)
 {
     NL_Node *node = Node_new(nodeClass);
+    NodeContainer_add(nodeset->allNodes, node);
     initNode(nodeset, nodeset->namespaces, nodeClass, node, nb_attributes,
              attributes);
     return node;
@@ -441,6 +445,7 @@ NL_Reference *Nodeset_newReference(Nodeset *nodeset, NL_Node *node,
         nodeset->refService->isHasTypeDefRef(nodeset->refService->context,
                                              newRef))
     {
+        Reference_delete(((NL_VariableNode *)node)->refToTypeDef);
         ((NL_VariableNode *)node)->refToTypeDef = newRef;
         return newRef;
     }
@@ -449,6 +454,7 @@ NL_Reference *Nodeset_newReference(Nodeset *nodeset, NL_Node *node,
         nodeset->refService->isHasTypeDefRef(nodeset->refService->context,
                                              newRef))
     {
+        Reference_delete(((NL_ObjectNode *)node)->refToTypeDef);
         ((NL_ObjectNode *)node)->refToTypeDef = newRef;
         return newRef;
     }
@@ -503,7 +509,6 @@ void Nodeset_newNodeFinish(Nodeset *nodeset, NL_Node *node)
                 nodeset->logger->log(nodeset->logger->context, NODESETLOADER_LOGLEVEL_ERROR,
                             "node was not added to sorting algorithm, already exists");
             }
-            Node_delete(node);
         }
         else
         {
diff --git a/src/Nodeset.h b/src/Nodeset.h
index 3957c10..736d13f 100644
--- a/src/Nodeset.h
+++ b/src/Nodeset.h
@@ -29,6 +29,7 @@ struct Nodeset
 {
     CharArenaAllocator *charArena;
     struct AliasList *aliasList;
+    struct NodeContainer *allNodes;
     struct NodeContainer *nodes[NL_NODECLASS_COUNT];
     struct NamespaceList *namespaces;
     struct SortContext *sortCtx;
diff --git a/src/NodesetLoader.c b/src/NodesetLoader.c
index a2a884f..781089b 100644
--- a/src/NodesetLoader.c
+++ b/src/NodesetLoader.c
@@ -368,7 +368,17 @@ static void OnEndElementNs(void *ctx, const char *localname, const char *prefix,
         {
             /* TODO: Enable VariableType to hold a valeu */
             if(pctx->node->nodeClass == NODECLASS_VARIABLE)
-                ((NL_VariableNode *)pctx->node)->value = pctx->val;
+            {
+                NL_VariableNode *varNode = (NL_VariableNode *)pctx->node;
+                if (varNode->value)
+                    Value_delete(varNode->value);
+                varNode->value = pctx->val;
+            }
+            else
+            {
+                Value_delete(pctx->val);
+            }
+            pctx->val = NULL;
             pctx->state = PARSER_STATE_NODE;
         }
         else
@@ -503,6 +513,11 @@ bool NodesetLoader_importFile(NodesetLoader *loader,
         retStatus = false;
     }
     Parser_delete(parser);
+    // the file ended within a value
+    if (ctx->val)
+    {
+        Value_delete(ctx->val);
+    }
 
 cleanup:
     free(ctx);
diff --git a/src/nodes/DataTypeNode.c b/src/nodes/DataTypeNode.c
index c2343e7..0c48872 100644
--- a/src/nodes/DataTypeNode.c
+++ b/src/nodes/DataTypeNode.c
@@ -7,6 +7,7 @@
 
 #include "DataTypeNode.h"
 #include <stdlib.h>
+#include <string.h>
 
 static NL_DataTypeDefinitionField *getNewField(NL_DataTypeDefinition *definition)
 {
@@ -18,7 +19,10 @@ static NL_DataTypeDefinitionField *getNewField(NL_DataTypeDefinition *definition
     {
         return NULL;
     }
-    return &definition->fields[definition->fieldCnt - 1];
+    NL_DataTypeDefinitionField *newField =
+        &definition->fields[definition->fieldCnt - 1];
+    memset(newField, 0, sizeof(NL_DataTypeDefinitionField));
+    return newField;
 }
 
 NL_DataTypeDefinition* DataTypeDefinition_new(NL_DataTypeNode* node)
@@ -41,6 +45,10 @@ void DataTypeNode_clear(NL_DataTypeNode *node)
 {
     if (node->definition)
     {
+        for (size_t i = 0; i < node->definition->fieldCnt; i++)
+        {
+            UA_NodeId_clear(&node->definition->fields[i].dataType);
+        }
         free(node->definition->fields);
     }
     free(node->definition);
diff --git a/src/nodes/Node.c b/src/nodes/Node.c
index f494a80..75c0a25 100644
--- a/src/nodes/Node.c
+++ b/src/nodes/Node.c
@@ -47,7 +47,7 @@ NL_Node *Node_new(NL_NodeClass nodeClass)
     return (NL_Node*)node;
 }
 
-static void deleteRef(NL_Reference *ref)
+void Reference_delete(NL_Reference *ref)
 {
     while (ref)
     {
@@ -62,8 +62,13 @@ static void deleteRef(NL_Reference *ref)
 void Node_delete(NL_Node *node)
 {
     UA_NodeId_clear(&node->id);
-    deleteRef(node->hierachicalRefs);
-    deleteRef(node->nonHierachicalRefs);
+    Reference_delete(node->hierachicalRefs);
+    Reference_delete(node->nonHierachicalRefs);
+    Reference_delete(node->unknownRefs);
+    if (NodesetLoader_isInstanceNode(node))
+    {
+        UA_NodeId_clear(&((NL_InstanceNode *)node)->parentNodeId);
+    }
     if (node->nodeClass == NODECLASS_DATATYPE)
     {
         DataTypeNode_clear((NL_DataTypeNode *)node);
@@ -71,8 +76,8 @@ void Node_delete(NL_Node *node)
     if(node->nodeClass == NODECLASS_VARIABLE)
     {
         NL_VariableNode* varNode = (NL_VariableNode*)node;
-        free(varNode->refToTypeDef);
-        UA_NodeId_clear(&varNode->parentNodeId);
+        Reference_delete(varNode->refToTypeDef);
+        UA_NodeId_clear(&varNode->datatype);
         if(varNode->value)
         {
             Value_delete(varNode->value);
@@ -81,8 +86,11 @@ void Node_delete(NL_Node *node)
     if(node->nodeClass==NODECLASS_OBJECT)
     {
         NL_ObjectNode *objNode = (NL_ObjectNode *)node;
-        UA_NodeId_clear(&objNode->parentNodeId);
-        free(objNode->refToTypeDef);
+        Reference_delete(objNode->refToTypeDef);
+    }
+    if (node->nodeClass == NODECLASS_VARIABLETYPE)
+    {
+        UA_NodeId_clear(&((NL_VariableTypeNode *)node)->datatype);
     }
     free(node);
 }
diff --git a/src/nodes/Node.h b/src/nodes/Node.h
index 8f96344..4290419 100644
--- a/src/nodes/Node.h
+++ b/src/nodes/Node.h
@@ -11,5 +11,7 @@
 
 NL_Node *Node_new(NL_NodeClass nodeClass);
 void Node_delete(NL_Node *node);
+// deletes the whole list starting with ref
+void Reference_delete(NL_Reference *ref);
 
 #endif
-- 
2.43.0


From d970e6967a22bdaecf2677888a7c079d97b3d0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:12 +0000
Subject: [PATCH 06/47] fix: classify reference types independent of their
 position in the file

---
 src/Nodeset.c | 130 +++++++++++++++++++++++++++++++++++++-------------
 src/Nodeset.h |   2 +-
 src/Sort.c    |  19 ++++++--
 src/Sort.h    |   4 ++
 4 files changed, 119 insertions(+), 36 deletions(-)

diff --git a/src/Nodeset.c b/src/Nodeset.c
index 9d595c4..8b4e375 100644
--- a/src/Nodeset.c
+++ b/src/Nodeset.c
@@ -176,7 +176,7 @@ Nodeset *Nodeset_new(NL_addNamespaceCallback nsCallback,
     nodeset->nodes[NODECLASS_VARIABLETYPE] = NodeContainer_new(100, false);
     nodeset->nodes[NODECLASS_VIEW] = NodeContainer_new(10, false);
     nodeset->nodesWithUnknownRefs = NodeContainer_new(100, false);
-    nodeset->refTypesWithUnknownRefs = NodeContainer_new(100, false);
+    nodeset->refTypesWithUnknownSupertype = NodeContainer_new(100, false);
     nodeset->refService = refService;
     nodeset->sortCtx = Sort_init();
     nodeset->logger = logger;
@@ -194,11 +194,35 @@ static void insertElementAtFront(NL_Reference **toList, NL_Reference *elem)
     *toList = elem;
 }
 
+static NL_Reference **getRefToTypeDef(NL_Node *node)
+{
+    if (node->nodeClass == NODECLASS_VARIABLE)
+    {
+        return &((NL_VariableNode *)node)->refToTypeDef;
+    }
+    if (node->nodeClass == NODECLASS_OBJECT)
+    {
+        return &((NL_ObjectNode *)node)->refToTypeDef;
+    }
+    return NULL;
+}
+
 static bool lookupUnknownReferences(Nodeset *nodeset, NL_Node *node)
 {
     while (node->unknownRefs)
     {
         NL_Reference *nextUnknown = node->unknownRefs->next;
+        NL_Reference **refToTypeDef = getRefToTypeDef(node);
+        if (refToTypeDef &&
+            nodeset->refService->isHasTypeDefRef(nodeset->refService->context,
+                                                 node->unknownRefs))
+        {
+            node->unknownRefs->next = NULL;
+            Reference_delete(*refToTypeDef);
+            *refToTypeDef = node->unknownRefs;
+            node->unknownRefs = nextUnknown;
+            continue;
+        }
         if (nodeset->refService->isHierachicalRef(nodeset->refService->context,
                                                   node->unknownRefs))
         {
@@ -218,24 +242,67 @@ static bool lookupUnknownReferences(Nodeset *nodeset, NL_Node *node)
     return true;
 }
 
-static void lookupReferenceTypes(Nodeset *nodeset)
+static bool isReferenceTypeKnown(const Nodeset *nodeset, const UA_NodeId *id)
 {
-    bool allRefTypesKnown = false;
-    while (!allRefTypesKnown)
+    NL_Reference ref;
+    memset(&ref, 0, sizeof(NL_Reference));
+    ref.refType = *id;
+    return nodeset->refService->isHierachicalRef(nodeset->refService->context,
+                                                 &ref) ||
+           nodeset->refService->isNonHierachicalRef(
+               nodeset->refService->context, &ref);
+}
+
+static bool areSupertypesKnown(const Nodeset *nodeset, const NL_Node *node)
+{
+    const UA_NodeId hasSubtypeId = UA_NODEID_NUMERIC(0, 45);
+    for (const NL_Reference *ref = node->hierachicalRefs; ref; ref = ref->next)
     {
-        allRefTypesKnown = true;
-        for (size_t i = 0; i < nodeset->refTypesWithUnknownRefs->size; i++)
+        if (!ref->isForward && UA_NodeId_equal(&ref->refType, &hasSubtypeId) &&
+            !isReferenceTypeKnown(nodeset, &ref->target))
         {
-            allRefTypesKnown = lookupUnknownReferences(
-                nodeset, nodeset->refTypesWithUnknownRefs->nodes[i]);
+            return false;
         }
     }
+    return true;
+}
 
-    for (size_t i = 0; i < nodeset->refTypesWithUnknownRefs->size; i++)
+static void addNewReferenceType(Nodeset *nodeset, NL_Node *node)
+{
+    nodeset->refService->addNewReferenceType(nodeset->refService->context,
+                                             (NL_ReferenceTypeNode *)node);
+}
+
+// A reference type can only be classified when its supertype is known, the
+// supertype may follow later in the file
+static void lookupReferenceTypes(Nodeset *nodeset)
+{
+    NodeContainer *pending = nodeset->refTypesWithUnknownSupertype;
+    bool progress = true;
+    while (progress)
+    {
+        progress = false;
+        size_t remaining = 0;
+        for (size_t i = 0; i < pending->size; i++)
+        {
+            if (areSupertypesKnown(nodeset, pending->nodes[i]))
+            {
+                addNewReferenceType(nodeset, pending->nodes[i]);
+                progress = true;
+            }
+            else
+            {
+                pending->nodes[remaining++] = pending->nodes[i];
+            }
+        }
+        pending->size = remaining;
+    }
+    // the supertype is neither known nor part of the nodeset
+    for (size_t i = 0; i < pending->size; i++)
     {
-        Sort_addNode(nodeset->sortCtx,
-                     nodeset->refTypesWithUnknownRefs->nodes[i]);
+        addNewReferenceType(nodeset, pending->nodes[i]);
     }
+    pending->size = 0;
 }
 
 bool Nodeset_sort(Nodeset *nodeset)
@@ -261,7 +328,8 @@ bool Nodeset_sort(Nodeset *nodeset)
             UA_String_clear(&nodeIdStr);
             return false;
         }
-        Sort_addNode(nodeset->sortCtx, nodeset->nodesWithUnknownRefs->nodes[i]);
+        Sort_addReferences(nodeset->sortCtx,
+                           nodeset->nodesWithUnknownRefs->nodes[i]);
     }
 
     return Sort_start(nodeset->sortCtx, nodeset, Nodeset_addNode,
@@ -278,7 +346,7 @@ void Nodeset_cleanup(Nodeset *nodeset)
     }
     NodeContainer_delete(nodeset->allNodes);
     NodeContainer_delete(nodeset->nodesWithUnknownRefs);
-    NodeContainer_delete(nodeset->refTypesWithUnknownRefs);
+    NodeContainer_delete(nodeset->refTypesWithUnknownSupertype);
     NamespaceList_delete(nodeset->namespaces);
     Sort_cleanup(nodeset->sortCtx);
     NL_BiDirectionalReference *ref = nodeset->hasEncodingRefs;
@@ -500,36 +568,34 @@ void Nodeset_newNamespaceFinish(Nodeset *nodeset, void *userContext,
 
 void Nodeset_newNodeFinish(Nodeset *nodeset, NL_Node *node)
 {
-    if (!node->unknownRefs)
+    if (!Sort_registerNode(nodeset->sortCtx, node))
     {
-        if(!Sort_addNode(nodeset->sortCtx, node))
-        {
-            if (nodeset->logger)
-            {
-                nodeset->logger->log(nodeset->logger->context, NODESETLOADER_LOGLEVEL_ERROR,
-                            "node was not added to sorting algorithm, already exists");
-            }
-        }
-        else
+        if (nodeset->logger)
         {
-            if (node->nodeClass == NODECLASS_REFERENCETYPE)
-            {
-                nodeset->refService->addNewReferenceType(
-                    nodeset->refService->context, (NL_ReferenceTypeNode *)node);
-            }
+            nodeset->logger->log(nodeset->logger->context, NODESETLOADER_LOGLEVEL_ERROR,
+                        "node was not added to sorting algorithm, already exists");
         }
+        return;
     }
-    else
+    if (node->nodeClass == NODECLASS_REFERENCETYPE)
     {
-        if (node->nodeClass == NODECLASS_REFERENCETYPE)
+        if (areSupertypesKnown(nodeset, node))
         {
-            NodeContainer_add(nodeset->refTypesWithUnknownRefs, node);
+            addNewReferenceType(nodeset, node);
         }
         else
         {
-            NodeContainer_add(nodeset->nodesWithUnknownRefs, node);
+            NodeContainer_add(nodeset->refTypesWithUnknownSupertype, node);
         }
     }
+    if (!node->unknownRefs)
+    {
+        Sort_addReferences(nodeset->sortCtx, node);
+    }
+    else
+    {
+        NodeContainer_add(nodeset->nodesWithUnknownRefs, node);
+    }
 }
 
 void Nodeset_newReferenceFinish(Nodeset *nodeset, NL_Reference *ref,
diff --git a/src/Nodeset.h b/src/Nodeset.h
index 736d13f..9ee5531 100644
--- a/src/Nodeset.h
+++ b/src/Nodeset.h
@@ -36,7 +36,7 @@ struct Nodeset
     NL_BiDirectionalReference *hasEncodingRefs;
     NodesetLoader_Logger* logger;
     struct NodeContainer *nodesWithUnknownRefs;
-    struct NodeContainer *refTypesWithUnknownRefs;
+    struct NodeContainer *refTypesWithUnknownSupertype;
     NL_ReferenceService* refService;
 };
 
diff --git a/src/Sort.c b/src/Sort.c
index 9ee81c3..0902e0c 100644
--- a/src/Sort.c
+++ b/src/Sort.c
@@ -279,7 +279,7 @@ void Sort_cleanup(SortContext *ctx)
     free(ctx);
 }
 
-bool Sort_addNode(SortContext *ctx, NL_Node *data) {
+bool Sort_registerNode(SortContext *ctx, NL_Node *data) {
     S_Node *j = NULL;
     // add node, no matter if there are references on it
     j = search_node(ctx->root1, &data->id);
@@ -289,6 +289,20 @@ bool Sort_addNode(SortContext *ctx, NL_Node *data) {
         return false;
     }
     j->data = data;
+    return true;
+}
+
+bool Sort_addNode(SortContext *ctx, NL_Node *data) {
+    if(!Sort_registerNode(ctx, data))
+    {
+        return false;
+    }
+    Sort_addReferences(ctx, data);
+    return true;
+}
+
+void Sort_addReferences(SortContext *ctx, NL_Node *data) {
+    S_Node *j = search_node(ctx->root1, &data->id);
     NL_Reference *hierachicalRef = data->hierachicalRefs;
     bool hierachicalRefRecorded = false;
     if (hierachicalRef) {
@@ -308,7 +322,7 @@ bool Sort_addNode(SortContext *ctx, NL_Node *data) {
         NL_InstanceNode *instanceNode = (NL_InstanceNode *)data;
         if(UA_NodeId_equal(&instanceNode->parentNodeId, &UA_NODEID_NULL))
         {
-            return true;
+            return;
         }
 
         S_Node *k = search_node(ctx->root1, &instanceNode->parentNodeId);
@@ -344,7 +358,6 @@ bool Sort_addNode(SortContext *ctx, NL_Node *data) {
             data->hierachicalRefs = newRef;
         }
     }
-    return true;
 }
 
 bool Sort_start(SortContext *ctx, struct Nodeset *nodeset,
diff --git a/src/Sort.h b/src/Sort.h
index 047172f..7a2fb7e 100644
--- a/src/Sort.h
+++ b/src/Sort.h
@@ -22,6 +22,10 @@ struct NodesetLoader_Logger;
 typedef struct SortContext SortContext;
 SortContext* Sort_init(void);
 void Sort_cleanup(SortContext * ctx);
+// returns false if there is already a node with the same id
+bool Sort_registerNode(SortContext* ctx, struct NL_Node *node);
+// adds the dependencies of a registered node
+void Sort_addReferences(SortContext* ctx, struct NL_Node *node);
 bool Sort_addNode(SortContext* ctx, struct NL_Node *node);
 typedef void (*Sort_SortedNodeCallback)(struct Nodeset *nodeset, struct NL_Node *node);
 bool Sort_start(SortContext* ctx, struct Nodeset *nodeset, Sort_SortedNodeCallback callback, struct NodesetLoader_Logger* logger);
-- 
2.43.0


From f848fe7db874033a19f333e3d5d59f2abfbd1015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:38 +0000
Subject: [PATCH 07/47] fix: order nodes after the parent given by ParentNodeId
 alone and take its reference type independent of the file order

---
 src/Sort.c | 69 ++++++++++++++++++++++++++++++------------------------
 1 file changed, 38 insertions(+), 31 deletions(-)

diff --git a/src/Sort.c b/src/Sort.c
index 0902e0c..912bac5 100644
--- a/src/Sort.c
+++ b/src/Sort.c
@@ -317,52 +317,59 @@ void Sort_addReferences(SortContext *ctx, NL_Node *data) {
             hierachicalRefRecorded = true;
         }
     }
-    // add reference generated by ParentNodeId, if dont have already a hierachical ref
+    // the parent given by ParentNodeId has to come first as well, the reference
+    // itself is added when all nodes are known
     if (!hierachicalRefRecorded && NodesetLoader_isInstanceNode(data)) {
         NL_InstanceNode *instanceNode = (NL_InstanceNode *)data;
         if(UA_NodeId_equal(&instanceNode->parentNodeId, &UA_NODEID_NULL))
         {
             return;
         }
+        record_relation(search_node(ctx->root1, &instanceNode->parentNodeId), j);
+    }
+}
 
-        S_Node *k = search_node(ctx->root1, &instanceNode->parentNodeId);
-        
-        //to we already have a reference for the node parentNode?
-        //parent references
-        bool refTypeFound = false;
-        if (k->data) {
-            NL_Reference *r = k->data->hierachicalRefs;
-            while (r) {
-                if (UA_NodeId_equal(&r->target, &data->id)) 
-                {
-                    NL_Reference *newRef = (NL_Reference *)calloc(1, sizeof(NL_Reference));
-                    newRef->isForward = !r->isForward;
-                    UA_NodeId_copy(&k->data->id, &newRef->target);
-                    UA_NodeId_copy(&r->refType, &newRef->refType);
-                    newRef->next = data->hierachicalRefs;
-                    data->hierachicalRefs = newRef;
-                    refTypeFound = true;
-                    break;
-                }
-                r = r->next;
+// add reference generated by ParentNodeId, if dont have already a hierachical ref
+static bool add_parent_reference(SortContext *ctx, S_Node *j)
+{
+    NL_Node *data = j->data;
+    if (!data || data->hierachicalRefs || !NodesetLoader_isInstanceNode(data))
+    {
+        return false;
+    }
+    NL_InstanceNode *instanceNode = (NL_InstanceNode *)data;
+    if(UA_NodeId_equal(&instanceNode->parentNodeId, &UA_NODEID_NULL))
+    {
+        return false;
+    }
+    S_Node *k = search_node(ctx->root1, &instanceNode->parentNodeId);
+
+    NL_Reference *newRef = (NL_Reference *)calloc(1, sizeof(NL_Reference));
+    newRef->isForward = false;
+    newRef->refType = UA_NODEID_NUMERIC(0, NL_HASCOMPONENT_ID);
+    UA_NodeId_copy(&instanceNode->parentNodeId, &newRef->target);
+    //to we already have a reference for the node parentNode?
+    //parent references
+    if (k->data) {
+        NL_Reference *r = k->data->hierachicalRefs;
+        while (r) {
+            if (UA_NodeId_equal(&r->target, &data->id))
+            {
+                newRef->isForward = !r->isForward;
+                UA_NodeId_copy(&r->refType, &newRef->refType);
+                break;
             }
-        }
-        if(!refTypeFound)
-        {
-            NL_Reference *newRef =
-            (NL_Reference *)calloc(1, sizeof(NL_Reference));
-            newRef->isForward = false;
-            UA_NodeId_copy(&instanceNode->parentNodeId, &newRef->target);
-            newRef->refType = UA_NODEID_NUMERIC(0, NL_HASCOMPONENT_ID);
-            newRef->next = data->hierachicalRefs;
-            data->hierachicalRefs = newRef;
+            r = r->next;
         }
     }
+    data->hierachicalRefs = newRef;
+    return false;
 }
 
 bool Sort_start(SortContext *ctx, struct Nodeset *nodeset,
                 Sort_SortedNodeCallback callback, NodesetLoader_Logger *logger)
 {
+    walk_tree(ctx, ctx->root1, add_parent_reference);
     walk_tree(ctx, ctx->root1, count_items);
 
     while (ctx->keyCnt > 0)
-- 
2.43.0


From 39185d8314d7fc33cbc95214f163e5270d50e925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:50 +0000
Subject: [PATCH 08/47] fix: keep the known reference types per loader and
 without limit

---
 src/InternalRefService.c | 178 +++++++++++----------------------------
 1 file changed, 50 insertions(+), 128 deletions(-)

diff --git a/src/InternalRefService.c b/src/InternalRefService.c
index 45e2f2c..b533b63 100644
--- a/src/InternalRefService.c
+++ b/src/InternalRefService.c
@@ -13,123 +13,23 @@
 struct InternalRefService
 {
     size_t hierachicalRefsSize;
-    NL_ReferenceTypeNode *hierachicalRefs;
+    UA_NodeId *hierachicalRefs;
     struct NodeContainer *nonHierachicalRefs;
 };
 
 typedef struct InternalRefService InternalRefService;
 
-#define MAX_HIERACHICAL_REFS 50
-NL_ReferenceTypeNode hierachicalRefs[MAX_HIERACHICAL_REFS] = {
-    {NODECLASS_REFERENCETYPE,
-     {0, UA_NODEIDTYPE_NUMERIC, {35}},
-     {0, "Organizes"},
-     {NULL, NULL},
-     {NULL, NULL},
-     NULL,
-     NULL,
-     NULL,
-     NULL,
-     NULL,
-     {NULL, NULL},
-     NULL,
-    },
-    {NODECLASS_REFERENCETYPE,
-     {0, UA_NODEIDTYPE_NUMERIC, {36}},
-     {0, "HasEventSource"},
-     {NULL, NULL},
-     {NULL, NULL},
-     NULL,
-     NULL,
-     NULL,
-     NULL,
-     NULL,
-     {NULL, NULL},
-     NULL},
-    {NODECLASS_REFERENCETYPE,
-     {0, UA_NODEIDTYPE_NUMERIC, {48}},
-     {0, "HasNotifier"},
-     {NULL, NULL},
-     {NULL, NULL},
-     NULL,
-     NULL,
-     NULL,
-     NULL,
-     NULL,
-     {NULL, NULL},
-     NULL},
-    {NODECLASS_REFERENCETYPE,
-     {0, UA_NODEIDTYPE_NUMERIC, {44}},
-     {0, "Aggregates"},
-     {NULL, NULL},
-     {NULL, NULL},
-     NULL,
-     NULL,
-     NULL,
-     NULL,
-     NULL,
-     {NULL, NULL},
-     NULL},
-    {NODECLASS_REFERENCETYPE,
-     {0, UA_NODEIDTYPE_NUMERIC, {45}},
-     {0, "HasSubtype"},
-     {NULL, NULL},
-     {NULL, NULL},
-     NULL,
-     NULL,
-     NULL,
-     NULL,
-     NULL,
-     {NULL, NULL},
-     NULL},
-    {NODECLASS_REFERENCETYPE,
-     {0, UA_NODEIDTYPE_NUMERIC, {47}},
-     {0, "HasComponent"},
-     {NULL, NULL},
-     {NULL, NULL},
-     NULL,
-     NULL,
-     NULL,
-     NULL,
-     NULL,
-     {NULL, NULL},
-     NULL},
-    {NODECLASS_REFERENCETYPE,
-     {0, UA_NODEIDTYPE_NUMERIC, {46}},
-     {0, "HasProperty"},
-     {NULL, NULL},
-     {NULL, NULL},
-     NULL,
-     NULL,
-     NULL,
-     NULL,
-     NULL,
-     {NULL, NULL},
-     NULL},
-    {NODECLASS_REFERENCETYPE,
-     {0, UA_NODEIDTYPE_NUMERIC, {38}},
-     {0, "HasEncoding"},
-     {NULL, NULL},
-     {NULL, NULL},
-     NULL,
-     NULL,
-     NULL,
-     NULL,
-     NULL,
-     {NULL, NULL},
-     NULL},
-    {NODECLASS_REFERENCETYPE,
-     {0, UA_NODEIDTYPE_NUMERIC, {33}},
-     {0, "HierarchicalReferences"},
-     {NULL, NULL},
-     {NULL, NULL},
-     NULL,
-     NULL,
-     NULL,
-     NULL,
-     NULL,
-     {NULL, NULL},
-     NULL},
+// hierachical reference types of namespace 0
+static const UA_UInt32 standardHierachicalRefs[] = {
+    35, // Organizes
+    36, // HasEventSource
+    48, // HasNotifier
+    44, // Aggregates
+    45, // HasSubtype
+    47, // HasComponent
+    46, // HasProperty
+    38, // HasEncoding
+    33, // HierarchicalReferences
 };
 
 static bool
@@ -152,7 +52,7 @@ static bool
 isReferenceHierachical(const InternalRefService *service,
                        const NL_Reference *ref) {
     for (size_t i = 0; i < service->hierachicalRefsSize; i++) {
-        if (UA_NodeId_equal(&ref->refType, &service->hierachicalRefs[i].id))
+        if (UA_NodeId_equal(&ref->refType, &service->hierachicalRefs[i]))
             return true;
     }
     return false;
@@ -164,26 +64,40 @@ isRefTypeDef(const InternalRefService* service, const NL_Reference* ref) {
     return UA_NodeId_equal(&ref->refType, &hasTypeDefId);
 }
 
+static bool
+isHierachicalRefType(const InternalRefService *service, const UA_NodeId *id) {
+    for (size_t i = 0; i < service->hierachicalRefsSize; i++) {
+        if (UA_NodeId_equal(&service->hierachicalRefs[i], id))
+            return true;
+    }
+    return false;
+}
+
+static bool
+addHierachicalRefType(InternalRefService *service, const UA_NodeId *id) {
+    UA_NodeId *ids = (UA_NodeId *)realloc(
+        service->hierachicalRefs,
+        (service->hierachicalRefsSize + 1) * sizeof(UA_NodeId));
+    if (!ids) {
+        return false;
+    }
+    service->hierachicalRefs = ids;
+    UA_NodeId_copy(id, &ids[service->hierachicalRefsSize]);
+    service->hierachicalRefsSize++;
+    return true;
+}
+
 static void
 addnewRefTypeImpl(InternalRefService *service, NL_ReferenceTypeNode *node) {
     NL_Reference *ref = node->hierachicalRefs;
-    bool isHierachical = false;
     while (ref) {
-        if (!ref->isForward) {
-            for (size_t i = 0; i < service->hierachicalRefsSize; i++) {
-                if (UA_NodeId_equal(&service->hierachicalRefs[i].id, &ref->target)) {
-                    service->hierachicalRefs[service->hierachicalRefsSize++] =
-                        *(NL_ReferenceTypeNode *)node;
-                    isHierachical = true;
-                    break;
-                }
-            }
+        if (!ref->isForward && isHierachicalRefType(service, &ref->target)) {
+            addHierachicalRefType(service, &node->id);
+            return;
         }
         ref = ref->next;
     }
-    if (!isHierachical) {
-        NodeContainer_add(service->nonHierachicalRefs, (NL_Node *)node);
-    }
+    NodeContainer_add(service->nonHierachicalRefs, (NL_Node *)node);
 }
 
 NL_ReferenceService *InternalRefService_new(void)
@@ -194,8 +108,11 @@ NL_ReferenceService *InternalRefService_new(void)
     {
         return NULL;
     }
-    service->hierachicalRefs = hierachicalRefs;
-    service->hierachicalRefsSize = 9;
+    for (size_t i = 0; i < sizeof(standardHierachicalRefs) /
+                               sizeof(standardHierachicalRefs[0]); i++) {
+        UA_NodeId id = UA_NODEID_NUMERIC(0, standardHierachicalRefs[i]);
+        addHierachicalRefType(service, &id);
+    }
     service->nonHierachicalRefs = NodeContainer_new(100, false);
 
     NL_ReferenceService *refService = (NL_ReferenceService *)calloc(1, sizeof(NL_ReferenceService));
@@ -219,6 +136,11 @@ void InternalRefService_delete(NL_ReferenceService *refService)
 {
     InternalRefService *internalService =
         (InternalRefService *)refService->context;
+    for (size_t i = 0; i < internalService->hierachicalRefsSize; i++)
+    {
+        UA_NodeId_clear(&internalService->hierachicalRefs[i]);
+    }
+    free(internalService->hierachicalRefs);
     NodeContainer_delete(internalService->nonHierachicalRefs);
     free(internalService);
     free(refService);
-- 
2.43.0


From 898a212bbdf8f43d68e0b04310e1c7c89d27c399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:04 +0000
Subject: [PATCH 09/47] fix: treat all hierarchical reference types of
 namespace 0 as hierarchical

---
 src/InternalRefService.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/InternalRefService.c b/src/InternalRefService.c
index b533b63..7c27ea3 100644
--- a/src/InternalRefService.c
+++ b/src/InternalRefService.c
@@ -30,6 +30,18 @@ static const UA_UInt32 standardHierachicalRefs[] = {
     46, // HasProperty
     38, // HasEncoding
     33, // HierarchicalReferences
+    34, // HasChild
+    49, // HasOrderedComponent
+    56, // HasHistoricalConfiguration
+    129, // HasArgumentDescription
+    131, // HasOptionalInputArgumentDescription
+    14476, // HasPubSubConnection
+    14936, // DataSetToWriter
+    15112, // HasGuard
+    15296, // HasDataSetWriter
+    15297, // HasDataSetReader
+    16361, // HasAlarmSuppressionGroup
+    16362, // AlarmGroupMember
 };
 
 static bool
-- 
2.43.0


From cba990b9b6f2b57e28bede24dca193573bfb3798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:37 +0000
Subject: [PATCH 10/47] fix: support any number of aliases and release their
 node ids

---
 src/AliasList.c | 44 ++++++++++++++++++++++++++------------------
 src/AliasList.h |  1 +
 src/Nodeset.c   |  5 ++++-
 3 files changed, 31 insertions(+), 19 deletions(-)

diff --git a/src/AliasList.c b/src/AliasList.c
index f187ad6..987bf99 100644
--- a/src/AliasList.c
+++ b/src/AliasList.c
@@ -9,12 +9,10 @@
 #include <stdlib.h>
 #include <string.h>
 
-#define MAX_ALIAS 300
-
 struct AliasList
 {
-    Alias *data;
-    size_t size;
+    Alias *first;
+    Alias *last;
 };
 
 AliasList *AliasList_new(void)
@@ -24,25 +22,28 @@ AliasList *AliasList_new(void)
     {
         return NULL;
     }
-    list->data = (Alias *)calloc(MAX_ALIAS, sizeof(Alias));
-    if(!list->data)
-    {
-        free(list);
-        return NULL;
-    }
     return list;
 }
 
 Alias *AliasList_newAlias(AliasList *list, char *name)
 {
-    if(list->size >= MAX_ALIAS)
+    Alias *alias = (Alias *)calloc(1, sizeof(Alias));
+    if(!alias)
     {
         return NULL;
     }
-    list->data[list->size].name = name;
-    UA_NodeId_init(&list->data[list->size].id);
-    list->size++;
-    return &list->data[list->size - 1];
+    alias->name = name;
+    UA_NodeId_init(&alias->id);
+    if(list->last)
+    {
+        list->last->next = alias;
+    }
+    else
+    {
+        list->first = alias;
+    }
+    list->last = alias;
+    return alias;
 }
 
 const UA_NodeId *
@@ -50,8 +51,8 @@ const UA_NodeId *
     if(!name)
         return NULL;
 
-    for(Alias* alias = list->data; alias != list->data + list->size; alias++) {
-        if (!strcmp(name, alias->name))
+    for(Alias* alias = list->first; alias; alias = alias->next) {
+        if (alias->name && !strcmp(name, alias->name))
             return &alias->id;
     }
     return NULL;
@@ -59,6 +60,13 @@ const UA_NodeId *
 
 void AliasList_delete(AliasList *list)
 {
-    free(list->data);
+    Alias *alias = list->first;
+    while(alias)
+    {
+        Alias *next = alias->next;
+        UA_NodeId_clear(&alias->id);
+        free(alias);
+        alias = next;
+    }
     free(list);
 }
diff --git a/src/AliasList.h b/src/AliasList.h
index b61436b..52f4723 100644
--- a/src/AliasList.h
+++ b/src/AliasList.h
@@ -14,6 +14,7 @@ struct Alias
 {
     char *name;
     UA_NodeId id;
+    struct Alias *next;
 };
 
 typedef struct Alias Alias;
diff --git a/src/Nodeset.c b/src/Nodeset.c
index 8b4e375..3da7446 100644
--- a/src/Nodeset.c
+++ b/src/Nodeset.c
@@ -150,7 +150,9 @@ static UA_NodeId alias2Id(const Nodeset *nodeset, char *name)
     {
         return extractNodedId(nodeset->namespaces, name);
     }
-    return *alias;
+    UA_NodeId id = UA_NODEID_NULL;
+    UA_NodeId_copy(alias, &id);
+    return id;
 }
 
 Nodeset *Nodeset_new(NL_addNamespaceCallback nsCallback,
@@ -557,6 +559,7 @@ Alias *Nodeset_newAlias(Nodeset *nodeset, int attributeSize,
 
 void Nodeset_newAliasFinish(Nodeset *nodeset, Alias *alias, char *idString)
 {
+    UA_NodeId_clear(&alias->id);
     alias->id = extractNodedId(nodeset->namespaces, idString);
 }
 
-- 
2.43.0


From 903acab506e3f2088f442c0bca09ec205b17e41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:51 +0000
Subject: [PATCH 11/47] fix: read namespaces and aliases of every file
 separately

---
 src/Nodeset.c       | 8 ++++++++
 src/Nodeset.h       | 2 ++
 src/NodesetLoader.c | 4 ++++
 3 files changed, 14 insertions(+)

diff --git a/src/Nodeset.c b/src/Nodeset.c
index 3da7446..21930f1 100644
--- a/src/Nodeset.c
+++ b/src/Nodeset.c
@@ -185,6 +185,14 @@ Nodeset *Nodeset_new(NL_addNamespaceCallback nsCallback,
     return nodeset;
 }
 
+void Nodeset_startFile(Nodeset *nodeset, NL_addNamespaceCallback nsCallback)
+{
+    NamespaceList_delete(nodeset->namespaces);
+    nodeset->namespaces = NamespaceList_new(nsCallback);
+    AliasList_delete(nodeset->aliasList);
+    nodeset->aliasList = AliasList_new();
+}
+
 static void Nodeset_addNode(Nodeset *nodeset, NL_Node *node)
 {
     NodeContainer_add(nodeset->nodes[node->nodeClass], node);
diff --git a/src/Nodeset.h b/src/Nodeset.h
index 9ee5531..7eee6cb 100644
--- a/src/Nodeset.h
+++ b/src/Nodeset.h
@@ -41,6 +41,8 @@ struct Nodeset
 };
 
 Nodeset *Nodeset_new(NL_addNamespaceCallback nsCallback, NodesetLoader_Logger* logger, NL_ReferenceService* refService);
+// namespace indices and aliases are only valid within one file
+void Nodeset_startFile(Nodeset *nodeset, NL_addNamespaceCallback nsCallback);
 void Nodeset_cleanup(Nodeset *nodeset);
 bool Nodeset_sort(Nodeset *nodeset);
 NL_Node *Nodeset_newNode(Nodeset *nodeset, NL_NodeClass nodeClass,
diff --git a/src/NodesetLoader.c b/src/NodesetLoader.c
index 781089b..fafef5e 100644
--- a/src/NodesetLoader.c
+++ b/src/NodesetLoader.c
@@ -477,6 +477,10 @@ bool NodesetLoader_importFile(NodesetLoader *loader,
         loader->nodeset = Nodeset_new(fileHandler->addNamespace, loader->logger,
                                       loader->refService);
     }
+    else
+    {
+        Nodeset_startFile(loader->nodeset, fileHandler->addNamespace);
+    }
 
     TParserCtx *ctx = NULL;
     FILE *f = fileHandler->file ? fopen(fileHandler->file, "r") : NULL;
-- 
2.43.0


From 562920df640652e22448427ada74ff8113ccb72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:04 +0000
Subject: [PATCH 12/47] fix: only read definitions of data types and release a
 repeated one

---
 src/Nodeset.c       | 1 +
 src/NodesetLoader.c | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Nodeset.c b/src/Nodeset.c
index 21930f1..443d99f 100644
--- a/src/Nodeset.c
+++ b/src/Nodeset.c
@@ -636,6 +636,7 @@ void Nodeset_addDataTypeDefinition(Nodeset *nodeset, NL_Node *node,
                                    int attributeSize, const char **attributes)
 {
     NL_DataTypeNode *dataTypeNode = (NL_DataTypeNode *)node;
+    DataTypeNode_clear(dataTypeNode);
     NL_DataTypeDefinition *def = DataTypeDefinition_new(dataTypeNode);
     def->isUnion =
         !strcmp("true", getAttributeValue(nodeset, &dataTypeDefinition_IsUnion,
diff --git a/src/NodesetLoader.c b/src/NodesetLoader.c
index fafef5e..e52e4ea 100644
--- a/src/NodesetLoader.c
+++ b/src/NodesetLoader.c
@@ -220,7 +220,8 @@ static void OnStartElementNs(void *ctx, const char *localname,
         {
             pctx->state = PARSER_STATE_EXTENSIONS;
         }
-        else if (!strcmp(localname, "Definition"))
+        else if (!strcmp(localname, "Definition") &&
+                 pctx->nodeClass == NODECLASS_DATATYPE)
         {
             Nodeset_addDataTypeDefinition(pctx->nodeset, pctx->node, nb_attributes,
                                      attributes);
-- 
2.43.0


From 7b5c23f2cd8c928779f1b8f01a5c289301f52ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:18 +0000
Subject: [PATCH 13/47] fix: accept nodes without browse name as source of
 HasEncoding references

---
 src/Nodeset.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Nodeset.c b/src/Nodeset.c
index 443d99f..d3cc26b 100644
--- a/src/Nodeset.c
+++ b/src/Nodeset.c
@@ -618,6 +618,7 @@ void Nodeset_newReferenceFinish(Nodeset *nodeset, NL_Reference *ref,
     // handle hasEncoding in a special way
     UA_NodeId hasEncodingRef = UA_NODEID("i=38");
     if (UA_NodeId_equal(&ref->refType, &hasEncodingRef) &&
+        node->browseName.name &&
         !strcmp(node->browseName.name, "Default Binary") && !ref->isForward)
     {
         NL_BiDirectionalReference *newRef = (NL_BiDirectionalReference *)calloc(
-- 
2.43.0


From 681328ff98610837ddc8063cefe918ce16457b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:32 +0000
Subject: [PATCH 14/47] fix: keep browse names which contain a colon but no
 namespace index

---
 src/Nodeset.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Nodeset.c b/src/Nodeset.c
index d3cc26b..35ff342 100644
--- a/src/Nodeset.c
+++ b/src/Nodeset.c
@@ -129,8 +129,10 @@ NL_BrowseName extractBrowseName(const NamespaceList *namespaces, char *s)
     bn.nsIdx = 0;
     bn.name = NULL;
     if (!s) return bn;
-    char *bnName = strchr(s, ':');
-    if (bnName == NULL)
+    // only digits in front of the colon are a namespace index, otherwise the
+    // colon is part of the name
+    char *bnName = s + strspn(s, "0123456789");
+    if (bnName == s || *bnName != ':')
     {
         bn.name = s;
         return bn;
-- 
2.43.0


From 0bf59c8743c649224e9b5226f91317ee2c01410c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:01 +0000
Subject: [PATCH 15/47] fix: accept 1 as lexical representation of a true
 boolean

---
 backends/open62541/src/DataTypeImporter.c |  2 +-
 backends/open62541/src/conversion.h       |  2 +-
 src/Nodeset.c                             | 22 ++++++++++++++--------
 3 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/backends/open62541/src/DataTypeImporter.c b/backends/open62541/src/DataTypeImporter.c
index 85e73eb..c864e5c 100644
--- a/backends/open62541/src/DataTypeImporter.c
+++ b/backends/open62541/src/DataTypeImporter.c
@@ -60,7 +60,7 @@ static const UA_DataType *getDataType(const UA_NodeId *id,
         {
             if (UA_NodeId_equal(&importer->nodes[i]->id, &type->typeId))
             {
-                if (strcmp(importer->nodes[i]->isAbstract, "true") == 0)
+                if (isValTrue(importer->nodes[i]->isAbstract))
                 {
                     return &UA_TYPES[UA_TYPES_VARIANT];
                 }
diff --git a/backends/open62541/src/conversion.h b/backends/open62541/src/conversion.h
index 4bc697d..a9eafa5 100644
--- a/backends/open62541/src/conversion.h
+++ b/backends/open62541/src/conversion.h
@@ -33,7 +33,7 @@ static inline UA_Boolean isValTrue(const char *s)
     {
         return UA_FALSE;
     }
-    if (strcmp(s, "true"))
+    if (strcmp(s, "true") && strcmp(s, "1"))
     {
         return UA_FALSE;
     }
diff --git a/src/Nodeset.c b/src/Nodeset.c
index 35ff342..df8df75 100644
--- a/src/Nodeset.c
+++ b/src/Nodeset.c
@@ -110,6 +110,12 @@ NL_BrowseName translateBrowseName(const NamespaceList *namespaces,
     return bn;
 }
 
+// lexical representations of xs:boolean
+static bool isTrue(const char *s)
+{
+    return s && (!strcmp(s, "true") || !strcmp(s, "1"));
+}
+
 UA_NodeId extractNodedId(const NamespaceList *namespaces, char *s)
 {
     UA_NodeId id = UA_NODEID_NULL;
@@ -507,8 +513,8 @@ NL_Reference *Nodeset_newReference(Nodeset *nodeset, NL_Node *node,
                                    int attributeSize, const char **attributes)
 {
     NL_Reference *newRef = (NL_Reference *)calloc(1, sizeof(NL_Reference));
-    if (!strcmp("true", getAttributeValue(nodeset, &attrIsForward, attributes,
-                                          attributeSize)))
+    if (isTrue(getAttributeValue(nodeset, &attrIsForward, attributes,
+                                 attributeSize)))
     {
         newRef->isForward = true;
     }
@@ -642,11 +648,11 @@ void Nodeset_addDataTypeDefinition(Nodeset *nodeset, NL_Node *node,
     DataTypeNode_clear(dataTypeNode);
     NL_DataTypeDefinition *def = DataTypeDefinition_new(dataTypeNode);
     def->isUnion =
-        !strcmp("true", getAttributeValue(nodeset, &dataTypeDefinition_IsUnion,
-                                          attributes, attributeSize));
-    def->isOptionSet = !strcmp(
-        "true", getAttributeValue(nodeset, &dataTypeDefinition_IsOptionSet,
-                                  attributes, attributeSize));
+        isTrue(getAttributeValue(nodeset, &dataTypeDefinition_IsUnion,
+                                 attributes, attributeSize));
+    def->isOptionSet =
+        isTrue(getAttributeValue(nodeset, &dataTypeDefinition_IsOptionSet,
+                                 attributes, attributeSize));
 }
 
 void Nodeset_addDataTypeField(Nodeset *nodeset, NL_Node *node,
@@ -680,7 +686,7 @@ void Nodeset_addDataTypeField(Nodeset *nodeset, NL_Node *node,
             nodeset, &attrValueRank, attributes, attributeSize));
         char *isOptional = getAttributeValue(nodeset, &dataTypeField_IsOptional,
                                              attributes, attributeSize);
-        newField->isOptional = !strcmp("true", isOptional);
+        newField->isOptional = isTrue(isOptional);
     }
 }
 
-- 
2.43.0


From 14076d9c598d559ca053e7a172eab6694319a1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:17 +0000
Subject: [PATCH 16/47] fix: ignore additional top level elements of a value

---
 src/Value.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/Value.c b/src/Value.c
index c14153b..fe453a4 100644
--- a/src/Value.c
+++ b/src/Value.c
@@ -48,7 +48,14 @@ void Value_start(NL_Value *val, const char *name)
     switch (val->ctx->state)
     {
     case PARSERSTATE_INIT:
-        if (!strncmp(name, "ListOf", strlen("ListOf")))
+        // a value has only one top level element, except for the elements of a
+        // list of extension objects
+        if (val->data && !(val->isArray && val->isExtensionObject &&
+                           !strcmp(name, "ExtensionObject")))
+        {
+            val->ctx->state = PARSERSTATE_FINISHED;
+        }
+        else if (!strncmp(name, "ListOf", strlen("ListOf")))
         {
             val->ctx->state = PARSERSTATE_LISTOF;
             val->isArray = true;
@@ -97,6 +104,12 @@ void Value_start(NL_Value *val, const char *name)
         }
         break;
     case PARSERSTATE_EXTENSIONOBJECT_BODY:
+        // only one element within the body
+        if (!val->ctx->currentData && val->data)
+        {
+            val->ctx->state = PARSERSTATE_FINISHED;
+            break;
+        }
         val->ctx->state = PARSERSTATE_DATA;
         if (!val->ctx->currentData)
         {
-- 
2.43.0


From 37f252aee43cd1cd72acc8055105f8943ac70df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:35 +0000
Subject: [PATCH 17/47] fix: print the arguments of a message in the default
 logger

---
 src/PrintfLogger.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/PrintfLogger.c b/src/PrintfLogger.c
index 6acf9c3..d67eb72 100644
--- a/src/PrintfLogger.c
+++ b/src/PrintfLogger.c
@@ -15,10 +15,12 @@ static const char *logLevel[3] = {"Debug", "Warning", "Error"};
 static void logStdOut(void *context, enum NodesetLoader_LogLevel level,
                       const char *message, ...)
 {
+    printf("NODESETLOADER: %s : ", logLevel[level]);
     va_list vl;
     va_start(vl, message);
+    vprintf(message, vl);
     va_end(vl);
-    printf("NODESETLOADER: %s : %s\n", logLevel[level], message);
+    printf("\n");
 }
 
 NodesetLoader_Logger *InternalLogger_new(void)
-- 
2.43.0


From 4f980526427c3a9f01a239fd3e2d6f0587cff96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:52 +0000
Subject: [PATCH 18/47] fix: do not finish an extension at a nested element of
 the same name

---
 src/NodesetLoader.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/NodesetLoader.c b/src/NodesetLoader.c
index e52e4ea..25679dd 100644
--- a/src/NodesetLoader.c
+++ b/src/NodesetLoader.c
@@ -285,6 +285,7 @@ static void OnStartElementNs(void *ctx, const char *localname,
         {
             pctx->extIf->start(pctx->extensionData, localname, nb_attributes, attributes);
         }
+        pctx->unknown_depth++;
         break;
 
     case PARSER_STATE_REFERENCES:
@@ -389,7 +390,7 @@ static void OnEndElementNs(void *ctx, const char *localname, const char *prefix,
         }
         break;
     case PARSER_STATE_EXTENSION:
-        if (!strcmp(localname, EXTENSION))
+        if (pctx->unknown_depth == 0)
         {
             if (pctx->extIf)
             {
@@ -405,6 +406,7 @@ static void OnEndElementNs(void *ctx, const char *localname, const char *prefix,
                 pctx->extIf->end(pctx->extensionData, localname,
                                  pctx->onCharacters);
             }
+            pctx->unknown_depth--;
         }
         break;
     case PARSER_STATE_EXTENSIONS:
-- 
2.43.0


From 6b1f3977044b5415fe6bb2666e812a459d0fab5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:09 +0000
Subject: [PATCH 19/47] fix: ignore attributes of foreign namespaces

---
 src/Nodeset.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Nodeset.c b/src/Nodeset.c
index df8df75..eadd811 100644
--- a/src/Nodeset.c
+++ b/src/Nodeset.c
@@ -389,6 +389,9 @@ static char *getAttributeValue(Nodeset *nodeset, const NodeAttribute *attr,
         const char *localname = attributes[i * fields + 0];
         if (strcmp((const char *)localname, attr->name))
             continue;
+        // an attribute of a foreign namespace
+        if (attributes[i * fields + 1])
+            continue;
         const char *value_start = attributes[i * fields + 3];
         const char *value_end = attributes[i * fields + 4];
         size_t size = (size_t)(value_end - value_start);
-- 
2.43.0


From ec686e3f8c2d7c2f647623f7ff59dbfaca99f179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:14 +0000
Subject: [PATCH 20/47] fix: determine the base of a data type by its
 HasSubtype reference only and release the browse results

---
 backends/open62541/src/import.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/backends/open62541/src/import.c b/backends/open62541/src/import.c
index 34cfbdc..1f1f699 100644
--- a/backends/open62541/src/import.c
+++ b/backends/open62541/src/import.c
@@ -28,14 +28,16 @@ static UA_NodeId getParentDataType(UA_Server *server, const UA_NodeId id)
     UA_BrowseDescription_init(&bd);
     bd.nodeId = id;
     bd.browseDirection = UA_BROWSEDIRECTION_INVERSE;
+    bd.referenceTypeId = UA_NODEID_NUMERIC(0, UA_NS0ID_HASSUBTYPE);
+    bd.includeSubtypes = true;
     bd.nodeClassMask = UA_NODECLASS_DATATYPE;
 
+    UA_NodeId parentId = UA_NODEID_NULL;
     UA_BrowseResult br = UA_Server_browse(server, 10, &bd);
-    if (br.statusCode != UA_STATUSCODE_GOOD || br.referencesSize != 1)
+    if (br.statusCode == UA_STATUSCODE_GOOD && br.referencesSize == 1)
     {
-        return UA_NODEID_NULL;
+        UA_NodeId_copy(&br.references[0].nodeId.nodeId, &parentId);
     }
-    UA_NodeId parentId = br.references[0].nodeId.nodeId;
     UA_BrowseResult_clear(&br);
     return parentId;
 }
@@ -58,10 +60,14 @@ static bool isKnownParent(const UA_NodeId typeId)
 
 static UA_NodeId getParentType(UA_Server *server, const UA_NodeId dataTypeId)
 {
-    UA_NodeId current = dataTypeId;
+    // the known parents have numeric ids, there is nothing to clear by the caller
+    UA_NodeId current = UA_NODEID_NULL;
+    UA_NodeId_copy(&dataTypeId, &current);
     while (!isKnownParent(current))
     {
-        current = getParentDataType(server, current);
+        UA_NodeId parent = getParentDataType(server, current);
+        UA_NodeId_clear(&current);
+        current = parent;
     }
     return current;
 }
-- 
2.43.0


From 816e471a4d697743392546fa0aae7a6a13da1626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:28 +0000
Subject: [PATCH 21/47] fix: add the encoding of a data type as forward
 reference with ids of its own

---
 backends/open62541/src/import.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/backends/open62541/src/import.c b/backends/open62541/src/import.c
index 1f1f699..d9aa5b6 100644
--- a/backends/open62541/src/import.c
+++ b/backends/open62541/src/import.c
@@ -506,8 +506,9 @@ static void addDataType(struct DataTypeImportCtx *ctx, NL_Node *node)
         if (UA_NodeId_equal(&r->source, &node->id))
         {
             NL_Reference *ref = (NL_Reference *)calloc(1, sizeof(NL_Reference));
-            ref->refType = r->refType;
-            ref->target = r->target;
+            ref->isForward = true;
+            UA_NodeId_copy(&r->refType, &ref->refType);
+            UA_NodeId_copy(&r->target, &ref->target);
 
             NL_Reference *lastRef = node->nonHierachicalRefs;
             node->nonHierachicalRefs = ref;
-- 
2.43.0


From 5be970fd93bc5100c20c46ad4a8fc1751a71c952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:43 +0000
Subject: [PATCH 22/47] fix: retry to add nodes as long as there is progress

---
 backends/open62541/src/import.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/backends/open62541/src/import.c b/backends/open62541/src/import.c
index d9aa5b6..f96b49d 100644
--- a/backends/open62541/src/import.c
+++ b/backends/open62541/src/import.c
@@ -570,16 +570,17 @@ static size_t secondChanceAddNodes(ServerContext *serverContext,
                                    NodeContainer **badStatusNodes,
                                    const NodesetLoader_Logger *logger)
 {
-    const size_t attemptsNum = 10;
-
     size_t numberOfAllAddedNodes = 0;
-    // We will try to add all failed nodes in a certain number of attempts.
+    // We will try to add all failed nodes as long as an attempt succeeds to add
+    // at least one of them.
     // This gives us the opportunity to add a chain like Object(child) ->
     // Variable(parent).
     // For example, this reference is used in the HasHistoricalConfiguration
     // reference type.
     size_t attempt = 1;
-    while (attempt != attemptsNum && (*badStatusNodes)->size != 0)
+    size_t counterOfAdddedNodesForOneAttempt = 1;
+    while (counterOfAdddedNodesForOneAttempt != 0 &&
+           (*badStatusNodes)->size != 0)
     {
         NodeContainer *local_badStatusNodes =
             NodeContainer_new((*badStatusNodes)->size, false);
@@ -591,7 +592,7 @@ static size_t secondChanceAddNodes(ServerContext *serverContext,
             // Import to server again
             addNodeImpl(&context, (*badStatusNodes)->nodes[counter]);
         }
-        size_t counterOfAdddedNodesForOneAttempt =
+        counterOfAdddedNodesForOneAttempt =
             (*badStatusNodes)->size - local_badStatusNodes->size;
         numberOfAllAddedNodes += counterOfAdddedNodesForOneAttempt;
         logger->log(logger->context, NODESETLOADER_LOGLEVEL_DEBUG,
-- 
2.43.0


From d7e22ed0548be4fcdc2fe18130c88804667eecb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:58 +0000
Subject: [PATCH 23/47] fix: pass on the array dimensions of variable types

---
 backends/open62541/src/import.c | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/backends/open62541/src/import.c b/backends/open62541/src/import.c
index f96b49d..4796576 100644
--- a/backends/open62541/src/import.c
+++ b/backends/open62541/src/import.c
@@ -349,21 +349,23 @@ static UA_StatusCode handleVariableTypeNode(const NL_VariableTypeNode *node, UA_
     attr.description = *description;
     attr.valueRank = atoi(node->valueRank);
     attr.isAbstract = isValTrue(node->isAbstract);
-    if (attr.valueRank >= 0)
+    UA_UInt32 *arrDims = NULL;
+    attr.arrayDimensionsSize =
+        getArrayDimensions(node->arrayDimensions, &arrDims);
+    attr.arrayDimensions = arrDims;
+    UA_UInt32 unknownDimension = 0;
+    if (attr.valueRank >= 0 && attr.arrayDimensionsSize == 0)
     {
-        if (!strcmp(node->arrayDimensions, ""))
-        {
-            attr.arrayDimensionsSize = 1;
-            UA_UInt32 arrayDimensions[1];
-            arrayDimensions[0] = 0;
-            attr.arrayDimensions = &arrayDimensions[0];
-        }
+        attr.arrayDimensionsSize = 1;
+        attr.arrayDimensions = &unknownDimension;
     }
 
-   return UA_Server_addNode_begin(server, UA_NODECLASS_VARIABLETYPE, *id, *parentId,
+    UA_StatusCode status = UA_Server_addNode_begin(server, UA_NODECLASS_VARIABLETYPE, *id, *parentId,
                             *parentReferenceId, *qn, UA_NODEID_NULL, &attr,
                             &UA_TYPES[UA_TYPES_VARIABLETYPEATTRIBUTES],
                             node->extension, NULL);
+    free(arrDims);
+    return status;
 }
 
 static UA_StatusCode handleDataTypeNode(const NL_DataTypeNode *node, UA_NodeId *id,
-- 
2.43.0


From bfb2860ddec6f2d31ae5546ec3bda9300a75c88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:36 +0000
Subject: [PATCH 24/47] fix: take parent and reference type of a new node from
 the same reference

---
 backends/open62541/src/import.c | 47 +++++++++++++++++++++------------
 1 file changed, 30 insertions(+), 17 deletions(-)

diff --git a/backends/open62541/src/import.c b/backends/open62541/src/import.c
index 4796576..1f32a72 100644
--- a/backends/open62541/src/import.c
+++ b/backends/open62541/src/import.c
@@ -90,36 +90,49 @@ static UA_NodeId getReferenceTarget(const NL_Reference *ref)
     return ref->target;
 }
 
-static NL_Reference *getHierachicalInverseReference(const NL_Node *node)
+static bool isParentReference(const NL_Node *node, const NL_Reference *ref)
 {
+    if (NodesetLoader_isInstanceNode(node))
+    {
+        return UA_NodeId_equal(&((const NL_InstanceNode *)node)->parentNodeId,
+                               &ref->target);
+    }
+    UA_NodeId hasSubtypeId = UA_NODEID_NUMERIC(0, UA_NS0ID_HASSUBTYPE);
+    return UA_NodeId_equal(&hasSubtypeId, &ref->refType);
+}
 
-    NL_Reference *hierachicalRef = node->hierachicalRefs;
-    while (hierachicalRef)
+// There may be several inverse references, the one to the node given by
+// ParentNodeId (instances) or to the supertype (types) is preferred
+static NL_Reference *getHierachicalInverseReference(const NL_Node *node)
+{
+    NL_Reference *inverseRef = NULL;
+    for (NL_Reference *ref = node->hierachicalRefs; ref; ref = ref->next)
     {
-        if (!hierachicalRef->isForward)
+        if (ref->isForward)
+        {
+            continue;
+        }
+        if (isParentReference(node, ref))
         {
-            return hierachicalRef;
+            return ref;
+        }
+        if (!inverseRef)
+        {
+            inverseRef = ref;
         }
-        hierachicalRef = hierachicalRef->next;
     }
-    return NULL;
+    return inverseRef;
 }
 
 static UA_NodeId getParentId(const NL_Node *node, UA_NodeId *parentRefId)
 {
-    UA_NodeId parentId = UA_NODEID_NULL;
-
-    if(NodesetLoader_isInstanceNode(node))
-    {
-        parentId = ((const NL_InstanceNode*)node)->parentNodeId;
-    }
-    NL_Reference *ref = getHierachicalInverseReference((const NL_Node *)node);
+    NL_Reference *ref = getHierachicalInverseReference(node);
     *parentRefId = getReferenceTypeId(ref);
-    if (UA_NodeId_equal(&parentId, &UA_NODEID_NULL))
+    if (!ref && NodesetLoader_isInstanceNode(node))
     {
-        parentId = getReferenceTarget(ref);
+        return ((const NL_InstanceNode *)node)->parentNodeId;
     }
-    return parentId;
+    return getReferenceTarget(ref);
 }
 
 static UA_StatusCode
-- 
2.43.0


From bbf16adf786440f2ed1f35f529eddf40e57cdd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:53 +0000
Subject: [PATCH 25/47] fix: add the parent reference also to nodes which only
 have forward hierarchical references

---
 src/Sort.c | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/Sort.c b/src/Sort.c
index 912bac5..ef98b70 100644
--- a/src/Sort.c
+++ b/src/Sort.c
@@ -304,22 +304,22 @@ bool Sort_addNode(SortContext *ctx, NL_Node *data) {
 void Sort_addReferences(SortContext *ctx, NL_Node *data) {
     S_Node *j = search_node(ctx->root1, &data->id);
     NL_Reference *hierachicalRef = data->hierachicalRefs;
-    bool hierachicalRefRecorded = false;
+    bool inverseRefRecorded = false;
     if (hierachicalRef) {
         while (hierachicalRef) {
             S_Node *k = search_node(ctx->root1, &hierachicalRef->target);
             if (!hierachicalRef->isForward) {
                 record_relation(k, j);
+                inverseRefRecorded = true;
             } else {
                 record_relation(j, k);
             }
             hierachicalRef = hierachicalRef->next;
-            hierachicalRefRecorded = true;
         }
     }
     // the parent given by ParentNodeId has to come first as well, the reference
     // itself is added when all nodes are known
-    if (!hierachicalRefRecorded && NodesetLoader_isInstanceNode(data)) {
+    if (!inverseRefRecorded && NodesetLoader_isInstanceNode(data)) {
         NL_InstanceNode *instanceNode = (NL_InstanceNode *)data;
         if(UA_NodeId_equal(&instanceNode->parentNodeId, &UA_NODEID_NULL))
         {
@@ -329,11 +329,21 @@ void Sort_addReferences(SortContext *ctx, NL_Node *data) {
     }
 }
 
-// add reference generated by ParentNodeId, if dont have already a hierachical ref
+static bool has_inverse_reference(const NL_Node *data)
+{
+    for (const NL_Reference *r = data->hierachicalRefs; r; r = r->next) {
+        if (!r->isForward)
+            return true;
+    }
+    return false;
+}
+
+// add reference generated by ParentNodeId, if dont have already an inverse
+// hierachical ref
 static bool add_parent_reference(SortContext *ctx, S_Node *j)
 {
     NL_Node *data = j->data;
-    if (!data || data->hierachicalRefs || !NodesetLoader_isInstanceNode(data))
+    if (!data || has_inverse_reference(data) || !NodesetLoader_isInstanceNode(data))
     {
         return false;
     }
@@ -362,6 +372,7 @@ static bool add_parent_reference(SortContext *ctx, S_Node *j)
             r = r->next;
         }
     }
+    newRef->next = data->hierachicalRefs;
     data->hierachicalRefs = newRef;
     return false;
 }
-- 
2.43.0


From ad1e96a8d96e3d50f17517a025eb3f5d7dd467be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:18 +0000
Subject: [PATCH 26/47] fix: consider all reference types of the server, not
 only 100 subtypes of each

---
 backends/open62541/src/RefServiceImpl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/backends/open62541/src/RefServiceImpl.c b/backends/open62541/src/RefServiceImpl.c
index f018c00..1ff47fa 100644
--- a/backends/open62541/src/RefServiceImpl.c
+++ b/backends/open62541/src/RefServiceImpl.c
@@ -50,7 +50,7 @@ static void iterate(UA_Server *server, const UA_NodeId *startId, browseFnc fnc,
     bd.resultMask = UA_BROWSERESULTMASK_BROWSENAME;
     bd.nodeId = *startId;
     bd.nodeClassMask = UA_NODECLASS_REFERENCETYPE;
-    UA_BrowseResult br = UA_Server_browse(server, 100, &bd);
+    UA_BrowseResult br = UA_Server_browse(server, 0, &bd);
     if (br.statusCode == UA_STATUSCODE_GOOD)
     {
         for (UA_ReferenceDescription *rd = br.references;
-- 
2.43.0


From da3e1a0caf56d75c2a28a15bafb4c88fbc648067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:48 +0000
Subject: [PATCH 27/47] fix: read and pass on the IsAbstract attribute of
 reference types

---
 backends/open62541/src/import.c       | 1 +
 include/NodesetLoader/NodesetLoader.h | 1 +
 src/Nodeset.c                         | 2 ++
 3 files changed, 4 insertions(+)

diff --git a/backends/open62541/src/import.c b/backends/open62541/src/import.c
index 1f32a72..ce5a373 100644
--- a/backends/open62541/src/import.c
+++ b/backends/open62541/src/import.c
@@ -339,6 +339,7 @@ static UA_StatusCode handleReferenceTypeNode(const NL_ReferenceTypeNode *node,
 {
     UA_ReferenceTypeAttributes attr = UA_ReferenceTypeAttributes_default;
     attr.symmetric = isValTrue(node->symmetric);
+    attr.isAbstract = isValTrue(node->isAbstract);
     attr.displayName = *lt;
     attr.description = *description;
     attr.inverseName =
diff --git a/include/NodesetLoader/NodesetLoader.h b/include/NodesetLoader/NodesetLoader.h
index a1d5642..6b94228 100644
--- a/include/NodesetLoader/NodesetLoader.h
+++ b/include/NodesetLoader/NodesetLoader.h
@@ -230,6 +230,7 @@ struct NL_ReferenceTypeNode
     NL_NODE_ATTRIBUTES
     NL_LocalizedText inverseName;
     char *symmetric;
+    char *isAbstract;
 };
 typedef struct NL_ReferenceTypeNode NL_ReferenceTypeNode;
 
diff --git a/src/Nodeset.c b/src/Nodeset.c
index eadd811..e833465 100644
--- a/src/Nodeset.c
+++ b/src/Nodeset.c
@@ -480,6 +480,8 @@ static void extractAttributes(Nodeset *nodeset, const NamespaceList *namespaces,
     case NODECLASS_REFERENCETYPE:
         ((NL_ReferenceTypeNode *)node)->symmetric = getAttributeValue(
             nodeset, &attrSymmetric, attributes, attributeSize);
+        ((NL_ReferenceTypeNode *)node)->isAbstract = getAttributeValue(
+            nodeset, &attrIsAbstract, attributes, attributeSize);
         break;
     case NODECLASS_VIEW:
         ((NL_ViewNode *)node)->parentNodeId = extractNodedId(
-- 
2.43.0


From 4073efc37c34e981ec872c587a020c734d443ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:18 +0000
Subject: [PATCH 28/47] fix: do not decode base64 texts with incomplete groups
 or misplaced padding

---
 backends/open62541/src/nodeset_base64.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/backends/open62541/src/nodeset_base64.h b/backends/open62541/src/nodeset_base64.h
index 8af13a6..5b7f4fb 100644
--- a/backends/open62541/src/nodeset_base64.h
+++ b/backends/open62541/src/nodeset_base64.h
@@ -26,6 +26,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <ctype.h>
+#include <string.h>
 
 static const char *b64 =
     "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
@@ -136,7 +137,7 @@ unsigned char *unbase64(const char *ascii, int len, int *flen)
     for (charNo = 0; charNo < len; charNo++)
     {
         // remove all space characters e.g. LF, CR, space and tab
-        if (!isspace(ascii[charNo]))
+        if (!isspace((unsigned char)ascii[charNo]))
         {
             if (((ascii[charNo] >= '0') &&
                  (ascii[charNo] <= '9')) ||
@@ -173,8 +174,18 @@ unsigned char *unbase64(const char *ascii, int len, int *flen)
     }
     if (safeAsciiPtr[len - 1] == '=')
         ++pad;
-    if (safeAsciiPtr[len - 2] == '=')
+    if (pad == 1 && safeAsciiPtr[len - 2] == '=')
         ++pad;
+    // only complete groups are accepted, with padding only at the very end
+    if (len % 4 != 0 ||
+        memchr(safeAsciiPtr, '=', (size_t)(len - pad)) != NULL)
+    {
+        puts("ERROR: You passed an invalid base64 string (wrong padding). You "
+             "get NULL back.");
+        *flen = 0;
+        free(safeAsciiPtr);
+        return 0;
+    }
 
     *flen = 3 * len / 4 - pad;
     bin = (unsigned char *)malloc((size_t)*flen);
@@ -182,6 +193,7 @@ unsigned char *unbase64(const char *ascii, int len, int *flen)
     {
         puts("ERROR: unbase64 could not allocate enough memory.");
         puts("I must stop because I could not get enough");
+        *flen = 0;
         free(safeAsciiPtr);
         return 0;
     }
-- 
2.43.0


From 70df817334465ff6dc81a2c2fd29915dc5bb9d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:32 +0000
Subject: [PATCH 29/47] fix: copy the ids of generated data types, which
 outlive the nodes

---
 backends/open62541/src/DataTypeImporter.c | 17 +++++++----------
 backends/open62541/src/customDataType.c   |  2 ++
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/backends/open62541/src/DataTypeImporter.c b/backends/open62541/src/DataTypeImporter.c
index c864e5c..e6a3947 100644
--- a/backends/open62541/src/DataTypeImporter.c
+++ b/backends/open62541/src/DataTypeImporter.c
@@ -499,8 +499,8 @@ static void StructureDataType_init(const DataTypeImporter *importer,
     {
         type->typeKind = UA_DATATYPEKIND_STRUCTURE;
     }
-    type->typeId = node->id;
-    type->binaryEncodingId = getBinaryEncodingId(node);
+    UA_NodeId encodingId = getBinaryEncodingId(node);
+    UA_NodeId_copy(&encodingId, &type->binaryEncodingId);
     type->pointerFree = true;
     if (!isOptionSet)
     {
@@ -509,11 +509,8 @@ static void StructureDataType_init(const DataTypeImporter *importer,
     type->overlayable = false;
 }
 
-static void EnumDataType_init(const DataTypeImporter *importer,
-                              UA_DataType *enumType,
-                              const NL_DataTypeNode *node)
+static void EnumDataType_init(UA_DataType *enumType)
 {
-    enumType->typeId = node->id;
     enumType->typeKind = UA_DATATYPEKIND_ENUM;
     enumType->binaryEncodingId = UA_NODEID_NULL;
     enumType->pointerFree = true;
@@ -531,8 +528,7 @@ static void SubtypeOfBase_init(const DataTypeImporter *importer,
 
     assert(parentType);
 
-    type->typeId = node->id;
-    type->binaryEncodingId = parentType->binaryEncodingId;
+    UA_NodeId_copy(&parentType->binaryEncodingId, &type->binaryEncodingId);
     type->members = NULL;
     type->membersSize = 0;
     type->memSize = parentType->memSize;
@@ -630,7 +626,8 @@ void DataTypeImporter_addCustomDataType(DataTypeImporter *importer,
     UA_DataType *type = (UA_DataType *)(uintptr_t)&importer->types
                             ->types[importer->types->typesSize];
     memset(type, 0, sizeof(UA_DataType));
-    type->typeId = node->id;
+    // the type outlives the node
+    UA_NodeId_copy(&node->id, &type->typeId);
     if (node->browseName.name)
     {
         size_t len = strlen(node->browseName.name);
@@ -643,7 +640,7 @@ void DataTypeImporter_addCustomDataType(DataTypeImporter *importer,
     UA_NodeId optionset = UA_NODEID_NUMERIC(0, UA_NS0ID_OPTIONSET);
     if (UA_NodeId_equal(&parent, &enumeration))
     {
-        EnumDataType_init(importer, type, node);
+        EnumDataType_init(type);
     }
     else if (UA_NodeId_equal(&parent, &optionset))
     {
diff --git a/backends/open62541/src/customDataType.c b/backends/open62541/src/customDataType.c
index f499d98..785fee2 100644
--- a/backends/open62541/src/customDataType.c
+++ b/backends/open62541/src/customDataType.c
@@ -43,6 +43,8 @@ static void cleanupCustomTypes(const UA_DataTypeArray *types)
             for (const UA_DataType *type = types->types;
                  type != types->types + types->typesSize; type++)
             {
+                UA_NodeId_clear((UA_NodeId *)(uintptr_t)&type->typeId);
+                UA_NodeId_clear((UA_NodeId *)(uintptr_t)&type->binaryEncodingId);
                 free((void*)(uintptr_t)type->typeName);
                 for (UA_DataTypeMember *m = type->members;
                      m != type->members + type->membersSize; m++)
-- 
2.43.0


From 463ac4313fb505ce82848ffe3b6fb04143c11645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:26 +0000
Subject: [PATCH 30/47] fix: handle data types without a known base type and
 members of such types as variants

---
 backends/open62541/src/DataTypeImporter.c | 25 ++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/backends/open62541/src/DataTypeImporter.c b/backends/open62541/src/DataTypeImporter.c
index e6a3947..9fa2503 100644
--- a/backends/open62541/src/DataTypeImporter.c
+++ b/backends/open62541/src/DataTypeImporter.c
@@ -382,10 +382,11 @@ static void setPaddingMemsize(UA_DataType *type,
 
 static UA_NodeId getParentNode(const NL_DataTypeNode *node)
 {
+    UA_NodeId hasSubtype = UA_NODEID_NUMERIC(0, UA_NS0ID_HASSUBTYPE);
     NL_Reference *ref = node->hierachicalRefs;
     while (ref)
     {
-        if (!ref->isForward)
+        if (!ref->isForward && UA_NodeId_equal(&hasSubtype, &ref->refType))
             return ref->target;
         ref = ref->next;
     }
@@ -445,6 +446,10 @@ static void setDataTypeMembersTypeIndex(DataTypeImporter *importer,
         UA_NodeId memberTypeId = node->definition->fields[i].dataType;
         member->memberType =
             getDataType(&memberTypeId, importer->types, importer);
+        if (!member->memberType)
+        {
+            member->memberType = &UA_TYPES[UA_TYPES_VARIANT];
+        }
         i++;
     }
 }
@@ -525,9 +530,6 @@ static void SubtypeOfBase_init(const DataTypeImporter *importer,
                                const UA_NodeId parent)
 {
     const UA_DataType *parentType = UA_findDataType(&parent);
-
-    assert(parentType);
-
     UA_NodeId_copy(&parentType->binaryEncodingId, &type->binaryEncodingId);
     type->members = NULL;
     type->membersSize = 0;
@@ -613,6 +615,18 @@ void DataTypeImporter_addCustomDataType(DataTypeImporter *importer,
                                         const NL_DataTypeNode *node,
                                         const UA_NodeId parent)
 {
+    UA_NodeId enumeration = UA_NODEID_NUMERIC(0, UA_NS0ID_ENUMERATION);
+    UA_NodeId structure = UA_NODEID_NUMERIC(0, UA_NS0ID_STRUCTURE);
+    UA_NodeId optionset = UA_NODEID_NUMERIC(0, UA_NS0ID_OPTIONSET);
+    // there is no type for subtypes of e.g. BaseDataType or Number, members of
+    // such a type are variants
+    if (!UA_NodeId_equal(&parent, &enumeration) &&
+        !UA_NodeId_equal(&parent, &structure) &&
+        !UA_NodeId_equal(&parent, &optionset) && !UA_findDataType(&parent))
+    {
+        return;
+    }
+
     // there is an open issue for that
     // the user of the library should provide the memory for the custom
     // dataTypes, then it is clear that he has to clean it up
@@ -635,9 +649,6 @@ void DataTypeImporter_addCustomDataType(DataTypeImporter *importer,
         memcpy((void *)(uintptr_t)type->typeName, node->browseName.name, len);
     }
 
-    UA_NodeId enumeration = UA_NODEID_NUMERIC(0, UA_NS0ID_ENUMERATION);
-    UA_NodeId structure = UA_NODEID_NUMERIC(0, UA_NS0ID_STRUCTURE);
-    UA_NodeId optionset = UA_NODEID_NUMERIC(0, UA_NS0ID_OPTIONSET);
     if (UA_NodeId_equal(&parent, &enumeration))
     {
         EnumDataType_init(type);
-- 
2.43.0


From a4fb4ffec13b98f6284b5dfa9d795fb80b1653fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:57 +0000
Subject: [PATCH 31/47] fix: lay out generated data types like a C compiler and
 in the order of their dependencies

---
 backends/open62541/src/DataTypeImporter.c | 260 +++++++++++-----------
 1 file changed, 132 insertions(+), 128 deletions(-)

diff --git a/backends/open62541/src/DataTypeImporter.c b/backends/open62541/src/DataTypeImporter.c
index 9fa2503..a3d5f3b 100644
--- a/backends/open62541/src/DataTypeImporter.c
+++ b/backends/open62541/src/DataTypeImporter.c
@@ -192,8 +192,25 @@ typedef struct
     UA_Guid member;
 } TempGuid;
 
-static int getAlignment(const UA_DataType *type,
-                        const UA_DataTypeArray *customTypes)
+typedef struct
+{
+    char c;
+    UA_DataValue member;
+} TempDataValue;
+typedef struct
+{
+    char c;
+    size_t member;
+} TempSizeT;
+typedef struct
+{
+    char c;
+    void *member;
+} TempVoidPtr;
+
+static int getMemberAlignment(const UA_DataTypeMember *member);
+
+static int getAlignment(const UA_DataType *type)
 {
     switch (type->typeKind)
     {
@@ -245,19 +262,26 @@ static int getAlignment(const UA_DataType *type,
         return offsetof(TempInt32, member);
     case UA_DATATYPEKIND_EXTENSIONOBJECT:
         return offsetof(TempExtensionObject, member);
-    case UA_DATATYPEKIND_UNION:
-        return 0;
     case UA_DATATYPEKIND_GUID:
         return offsetof(TempGuid, member);
+    case UA_DATATYPEKIND_DATAVALUE:
+        return offsetof(TempDataValue, member);
     case UA_DATATYPEKIND_STRUCTURE:
     case UA_DATATYPEKIND_OPTSTRUCT:
-        // here we have to take a look on the first member
-        assert(type->members);
-        int retAlignment = 0;
+    case UA_DATATYPEKIND_UNION:
+    {
+        // a type without members is represented by a pointer
+        if (type->membersSize == 0)
+        {
+            return offsetof(TempVoidPtr, member);
+        }
+        // the switch field of an union
+        int retAlignment = type->typeKind == UA_DATATYPEKIND_UNION
+                               ? (int)offsetof(TempUInt32, member)
+                               : 1;
         for (UA_UInt32 i = 0; i < type->membersSize; i++)
         {
-            const UA_DataType *memberType = type->members[i].memberType;
-            int tmp = getAlignment(memberType, customTypes);
+            int tmp = getMemberAlignment(&type->members[i]);
             if (tmp > retAlignment)
             {
                 retAlignment = tmp;
@@ -265,119 +289,76 @@ static int getAlignment(const UA_DataType *type,
         }
         return retAlignment;
     }
+    }
 
     assert(false && "typeKind not handled");
     return 0;
 }
 
-typedef struct
+static int getMemberAlignment(const UA_DataTypeMember *member)
 {
-    char c;
-    size_t member;
-} TempSizeT;
-typedef struct
+    // the size_t for the size of an array and the void* for its data have the
+    // same alignment, optional members are pointers
+    if (member->isArray || member->isOptional)
+    {
+        return offsetof(TempVoidPtr, member);
+    }
+    return getAlignment(member->memberType);
+}
+
+static int getMemberSize(const UA_DataTypeMember *member)
 {
-    char c;
-    void *member;
-} TempVoidPtr;
+    if (member->isArray)
+    {
+        // for arrays we have to take the size_t for the arraySize into
+        // account if the open changes the implementation of array
+        // serialization, we have a serious problem
+        // we rely here that its an size_t
+        return (int)(sizeof(size_t) + sizeof(void *));
+    }
+    if (member->isOptional)
+    {
+        return (int)sizeof(void *);
+    }
+    return member->memberType->memSize;
+}
 
-static void setPaddingMemsize(UA_DataType *type,
-                              const UA_DataTypeArray *customTypes)
+static void setPaddingMemsize(UA_DataType *type)
 {
     if (!type->members)
     {
         return;
     }
+    const int typeAlignment = getAlignment(type);
     int offset = 0;
-    int endPadding = 0;
-
-    UA_UInt16 biggestMemberSize = 0;
-
-    UA_Boolean hasArrayMember = false;
-
     for (UA_DataTypeMember *tm = type->members;
          tm < type->members + type->membersSize; tm++)
     {
-        const UA_DataType *memberType = tm->memberType;
-        type->pointerFree = type->pointerFree && memberType->pointerFree;
+        // arrays and optional members are not pointerfree
+        type->pointerFree = type->pointerFree && !tm->isArray &&
+                            !tm->isOptional && tm->memberType->pointerFree;
 
-        if (tm->isArray)
+        if (type->typeKind == UA_DATATYPEKIND_UNION)
         {
-            // for arrays we have to take the size_t for the arraySize into
-            // account if the open changes the implementation of array
-            // serialization, we have a serious problem
-            // we rely here that its an size_t
-            int align = offsetof(TempSizeT, member);
-            tm->padding = (UA_Byte)(0x3F & getPadding(align, offset));
-            offset = offset + tm->padding + (UA_Byte)sizeof(size_t);
-            // the void* for data
-            align = offsetof(TempVoidPtr, member);
-            int padding2 = getPadding(align, offset);
-            offset = offset + padding2 + (UA_Byte)sizeof(void *);
-            // datatype is not pointerfree
-            type->pointerFree = false;
-
-            if (sizeof(void *) > biggestMemberSize)
+            // all members start after the switchfield, at the alignment of the
+            // biggest one
+            tm->padding = (UA_Byte)(
+                0x3F & ((int)sizeof(UA_UInt32) +
+                        getPadding(typeAlignment, (int)sizeof(UA_UInt32))));
+            if (tm->padding + getMemberSize(tm) > offset)
             {
-                biggestMemberSize = sizeof(void *);
-            }
-
-            hasArrayMember = true;
-        }
-        else if (tm->isOptional)
-        {
-            int align = offsetof(TempVoidPtr, member);
-            tm->padding = (UA_Byte)(0x3F & getPadding(align, offset));
-            offset = offset + tm->padding + (UA_Byte)sizeof(void *);
-            type->pointerFree = false;
-            if (sizeof(void *) > biggestMemberSize)
-            {
-                biggestMemberSize = sizeof(void *);
+                offset = tm->padding + getMemberSize(tm);
             }
         }
         else
         {
-            // add the switchfield to the padding of the first datatype member
-            if (type->typeKind == UA_DATATYPEKIND_UNION)
-            {
-                tm->padding = (UA_Byte)sizeof(UA_UInt32);
-            }
-            else if (memberType->typeKind != UA_DATATYPEKIND_UNION)
-            {
-                int align = getAlignment(memberType, customTypes);
-                tm->padding = (UA_Byte)(0x3F & getPadding(align, offset));
-            }
-
-            offset = offset + tm->padding + memberType->memSize;
-            // padding after struct at end is needed
-            if (memberType->memSize > sizeof(size_t))
-            {
-                endPadding = memberType->memSize % sizeof(size_t);
-            }
-            if (memberType->memSize > biggestMemberSize)
-            {
-                biggestMemberSize = memberType->memSize;
-            }
-        }
-    }
-    if (type->typeKind == UA_DATATYPEKIND_UNION)
-    {
-        // add the switch field
-        type->memSize = sizeof(UA_Int32);
-        int padding = getPadding(offsetof(TempUInt32, member), 0);
-        type->memSize = (UA_UInt16)(type->memSize + padding);
-        type->memSize = (UA_UInt16)(type->memSize + biggestMemberSize);
-        if (hasArrayMember)
-        {
-            type->memSize = (UA_UInt16)(type->memSize + sizeof(size_t));
+            tm->padding =
+                (UA_Byte)(0x3F & getPadding(getMemberAlignment(tm), offset));
+            offset = offset + tm->padding + getMemberSize(tm);
         }
-        endPadding = getPadding(offsetof(TempSizeT, member), type->memSize);
-        type->memSize = (UA_UInt16)(type->memSize + endPadding);
-    }
-    else
-    {
-        type->memSize = (UA_UInt16)(offset + endPadding);
     }
+    // padding after struct at end is needed
+    type->memSize = (UA_UInt16)(offset + getPadding(typeAlignment, offset));
 }
 
 static UA_NodeId getParentNode(const NL_DataTypeNode *node)
@@ -458,7 +439,7 @@ static void addDataTypeMembers(const UA_DataTypeArray *customTypes,
                                UA_DataType *type, const NL_DataTypeNode *node)
 {
 
-    if (!node->definition)
+    if (!node->definition || node->definition->fieldCnt == 0)
     {
         type->membersSize = 0;
         type->members = NULL;
@@ -507,6 +488,7 @@ static void StructureDataType_init(const DataTypeImporter *importer,
     UA_NodeId encodingId = getBinaryEncodingId(node);
     UA_NodeId_copy(&encodingId, &type->binaryEncodingId);
     type->pointerFree = true;
+    type->memSize = sizeof(void *);
     if (!isOptionSet)
     {
         addDataTypeMembers(importer->types, type, node);
@@ -539,57 +521,79 @@ static void SubtypeOfBase_init(const DataTypeImporter *importer,
     type->typeKind = parentType->typeKind;
 }
 
-static bool readyForMemsizeCalc(const UA_DataType *type,
-                                const UA_DataType *customTypes)
+static void removeMembers(UA_DataType *type)
 {
-    if (type->typeKind != UA_DATATYPEKIND_STRUCTURE &&
-        type->typeKind != UA_DATATYPEKIND_OPTSTRUCT)
-    {
-        return true;
-    }
-    if (type->membersSize == 0)
+    for (UA_DataTypeMember *m = type->members;
+         m != type->members + type->membersSize; m++)
     {
-        return true;
+        UA_free((void *)(uintptr_t)m->memberName);
     }
-    bool ready = true;
-    for (UA_DataTypeMember *m = type->members;
+    free(type->members);
+    type->members = NULL;
+    type->membersSize = 0;
+    type->memSize = sizeof(void *);
+}
+
+static bool hasMembersToLayout(const UA_DataType *type)
+{
+    return (type->typeKind == UA_DATATYPEKIND_STRUCTURE ||
+            type->typeKind == UA_DATATYPEKIND_OPTSTRUCT ||
+            type->typeKind == UA_DATATYPEKIND_UNION) &&
+           type->membersSize > 0;
+}
+
+static bool readyForMemsizeCalc(const UA_DataType *type)
+{
+    for (const UA_DataTypeMember *m = type->members;
          m != type->members + type->membersSize; m++)
     {
-        if (m->memberType && m->memberType->memSize > 0)
+        // arrays and optional members are accessed by a pointer
+        if (!m->isArray && !m->isOptional && m->memberType->memSize == 0)
         {
-            continue;
+            return false;
         }
-        ready = false;
-        break;
     }
-    return ready;
+    return true;
 }
 
 static void calcMemSize(DataTypeImporter *importer)
 {
-    bool allTypesFinished = false;
-    // datatype nodes could be sorted upfront to detect cyclic dependencies
-    while (!allTypesFinished)
+    // the size of a type is 0 as long as it is not calculated
+    UA_DataType *begin = (UA_DataType *)(uintptr_t)importer->types->types +
+                         importer->firstNewDataType;
+    UA_DataType *end = (UA_DataType *)(uintptr_t)importer->types->types +
+                       importer->types->typesSize;
+    for (UA_DataType *type = begin; type != end; type++)
+    {
+        if (hasMembersToLayout(type))
+        {
+            type->memSize = 0;
+        }
+    }
+    bool progress = true;
+    while (progress)
     {
-        allTypesFinished = true;
-        for (UA_DataType *type =
-                 (UA_DataType *)(uintptr_t)importer->types->types +
-                 importer->firstNewDataType;
-             type != importer->types->types + importer->types->typesSize;
-             type++)
+        progress = false;
+        for (UA_DataType *type = begin; type != end; type++)
         {
             // we can calculate the memsize if the memsize of all membertypes is
             // known
-            if (readyForMemsizeCalc(type, importer->types->types))
+            if (type->memSize == 0 && hasMembersToLayout(type) &&
+                readyForMemsizeCalc(type))
             {
-                setPaddingMemsize(type, importer->types);
-            }
-            else
-            {
-                allTypesFinished = false;
+                setPaddingMemsize(type);
+                progress = true;
             }
         }
     }
+    // types which contain themselves have no size, they cannot be used
+    for (UA_DataType *type = begin; type != end; type++)
+    {
+        if (type->memSize == 0 && hasMembersToLayout(type))
+        {
+            removeMembers(type);
+        }
+    }
 }
 
 void DataTypeImporter_initMembers(DataTypeImporter *importer)
-- 
2.43.0


From a75a275307228c215fdf687da0475fa0735bc71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:15 +0000
Subject: [PATCH 32/47] fix: accept fields without a name

---
 backends/open62541/src/DataTypeImporter.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/backends/open62541/src/DataTypeImporter.c b/backends/open62541/src/DataTypeImporter.c
index a3d5f3b..2a0dece 100644
--- a/backends/open62541/src/DataTypeImporter.c
+++ b/backends/open62541/src/DataTypeImporter.c
@@ -458,10 +458,12 @@ static void addDataTypeMembers(const UA_DataTypeArray *customTypes,
         UA_NodeId typeId = node->definition->fields[i].dataType;
         member->memberType = getDataType(&typeId, customTypes, NULL);
 
-        char *memberNameCopy = (char *)UA_calloc(
-            strlen(node->definition->fields[i].name) + 1, sizeof(char));
-        memcpy(memberNameCopy, node->definition->fields[i].name,
-               strlen(node->definition->fields[i].name));
+        const char *name = node->definition->fields[i].name
+                               ? node->definition->fields[i].name
+                               : "";
+        char *memberNameCopy =
+            (char *)UA_calloc(strlen(name) + 1, sizeof(char));
+        memcpy(memberNameCopy, name, strlen(name));
         member->memberName = memberNameCopy;
         member->isOptional = node->definition->fields[i].isOptional;
         if (member->isOptional)
-- 
2.43.0


From 33326f0cb92beb905ff2731de4f3df536a02b2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:29 +0000
Subject: [PATCH 33/47] fix: inherit optional members and do not turn unions
 into structures

---
 backends/open62541/src/DataTypeImporter.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/backends/open62541/src/DataTypeImporter.c b/backends/open62541/src/DataTypeImporter.c
index 2a0dece..5aa1d2b 100644
--- a/backends/open62541/src/DataTypeImporter.c
+++ b/backends/open62541/src/DataTypeImporter.c
@@ -409,14 +409,21 @@ static void setDataTypeMembersTypeIndex(DataTypeImporter *importer,
                 cnt++;
             }
 
-            memcpy(members + parentType->membersSize, type->members,
-                   type->membersSize * sizeof(UA_DataTypeMember));
-            free(type->members);
+            if (type->members)
+            {
+                memcpy(members + parentType->membersSize, type->members,
+                       type->membersSize * sizeof(UA_DataTypeMember));
+                free(type->members);
+            }
             type->members = members;
             type->membersSize =
                 (uint8_t)(parentType->membersSize + type->membersSize);
-            type->memSize = parentType->memSize;
             memberOffset = parentType->membersSize;
+            // optional members are inherited as well
+            if (parentType->typeKind == UA_DATATYPEKIND_OPTSTRUCT)
+            {
+                type->typeKind = UA_DATATYPEKIND_OPTSTRUCT;
+            }
         }
     }
 
@@ -465,7 +472,9 @@ static void addDataTypeMembers(const UA_DataTypeArray *customTypes,
             (char *)UA_calloc(strlen(name) + 1, sizeof(char));
         memcpy(memberNameCopy, name, strlen(name));
         member->memberName = memberNameCopy;
-        member->isOptional = node->definition->fields[i].isOptional;
+        // the members of a union are never optional
+        member->isOptional = node->definition->fields[i].isOptional &&
+                             type->typeKind != UA_DATATYPEKIND_UNION;
         if (member->isOptional)
         {
             type->pointerFree = false;
-- 
2.43.0


From 6010b6837dd7a4842ccb445ce0de01dd7b7aea04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:15 +0000
Subject: [PATCH 34/47] fix: recognize abstract data types of earlier imports

---
 backends/open62541/src/DataTypeImporter.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/backends/open62541/src/DataTypeImporter.c b/backends/open62541/src/DataTypeImporter.c
index 5aa1d2b..1111162 100644
--- a/backends/open62541/src/DataTypeImporter.c
+++ b/backends/open62541/src/DataTypeImporter.c
@@ -17,6 +17,7 @@
 
 struct DataTypeImporter
 {
+    UA_Server *server;
     UA_DataTypeArray *types;
     const NL_DataTypeNode **nodes;
     size_t nodesSize;
@@ -60,12 +61,19 @@ static const UA_DataType *getDataType(const UA_NodeId *id,
         {
             if (UA_NodeId_equal(&importer->nodes[i]->id, &type->typeId))
             {
-                if (isValTrue(importer->nodes[i]->isAbstract))
-                {
-                    return &UA_TYPES[UA_TYPES_VARIANT];
-                }
+                return isValTrue(importer->nodes[i]->isAbstract)
+                           ? &UA_TYPES[UA_TYPES_VARIANT]
+                           : type;
             }
         }
+        // added by an earlier import
+        UA_Boolean isAbstract = false;
+        if (UA_Server_readIsAbstract(importer->server, type->typeId,
+                                     &isAbstract) == UA_STATUSCODE_GOOD &&
+            isAbstract)
+        {
+            return &UA_TYPES[UA_TYPES_VARIANT];
+        }
     }
     return type;
 }
@@ -700,6 +708,7 @@ DataTypeImporter *DataTypeImporter_new(struct UA_Server *server)
         return NULL;
     }
 
+    importer->server = server;
     UA_ServerConfig *config = UA_Server_getConfig(server);
     if (!config->customDataTypes)
     {
-- 
2.43.0


From 96c67268d020bff6ecc90d9b3465841bb28f3af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:13 +0000
Subject: [PATCH 35/47] fix: import any number of data types

---
 backends/open62541/src/DataTypeImporter.c | 76 ++++++++++++++---------
 1 file changed, 45 insertions(+), 31 deletions(-)

diff --git a/backends/open62541/src/DataTypeImporter.c b/backends/open62541/src/DataTypeImporter.c
index 1111162..b9fdbad 100644
--- a/backends/open62541/src/DataTypeImporter.c
+++ b/backends/open62541/src/DataTypeImporter.c
@@ -15,13 +15,15 @@
 
 #include <assert.h>
 
+#define TYPE_ARRAY_CAPACITY 1000
+
 struct DataTypeImporter
 {
     UA_Server *server;
     UA_DataTypeArray *types;
     const NL_DataTypeNode **nodes;
+    UA_DataType **newTypes;
     size_t nodesSize;
-    size_t firstNewDataType;
 };
 
 static UA_NodeId getBinaryEncodingId(const NL_DataTypeNode *node)
@@ -578,12 +580,9 @@ static bool readyForMemsizeCalc(const UA_DataType *type)
 static void calcMemSize(DataTypeImporter *importer)
 {
     // the size of a type is 0 as long as it is not calculated
-    UA_DataType *begin = (UA_DataType *)(uintptr_t)importer->types->types +
-                         importer->firstNewDataType;
-    UA_DataType *end = (UA_DataType *)(uintptr_t)importer->types->types +
-                       importer->types->typesSize;
-    for (UA_DataType *type = begin; type != end; type++)
+    for (size_t i = 0; i < importer->nodesSize; i++)
     {
+        UA_DataType *type = importer->newTypes[i];
         if (hasMembersToLayout(type))
         {
             type->memSize = 0;
@@ -593,8 +592,9 @@ static void calcMemSize(DataTypeImporter *importer)
     while (progress)
     {
         progress = false;
-        for (UA_DataType *type = begin; type != end; type++)
+        for (size_t i = 0; i < importer->nodesSize; i++)
         {
+            UA_DataType *type = importer->newTypes[i];
             // we can calculate the memsize if the memsize of all membertypes is
             // known
             if (type->memSize == 0 && hasMembersToLayout(type) &&
@@ -606,8 +606,9 @@ static void calcMemSize(DataTypeImporter *importer)
         }
     }
     // types which contain themselves have no size, they cannot be used
-    for (UA_DataType *type = begin; type != end; type++)
+    for (size_t i = 0; i < importer->nodesSize; i++)
     {
+        UA_DataType *type = importer->newTypes[i];
         if (type->memSize == 0 && hasMembersToLayout(type))
         {
             removeMembers(type);
@@ -617,23 +618,39 @@ static void calcMemSize(DataTypeImporter *importer)
 
 void DataTypeImporter_initMembers(DataTypeImporter *importer)
 {
-
-    size_t cnt = 0;
-    for (UA_DataType *type = (UA_DataType *)(uintptr_t)importer->types->types +
-                             importer->firstNewDataType;
-         type != importer->types->types + importer->types->typesSize; type++)
+    for (size_t i = 0; i < importer->nodesSize; i++)
     {
+        UA_DataType *type = importer->newTypes[i];
         if (type->typeKind == UA_DATATYPEKIND_STRUCTURE ||
             type->typeKind == UA_DATATYPEKIND_OPTSTRUCT ||
             type->typeKind == UA_DATATYPEKIND_UNION)
         {
-            setDataTypeMembersTypeIndex(importer, type, importer->nodes[cnt]);
+            setDataTypeMembersTypeIndex(importer, type, importer->nodes[i]);
         }
-        cnt++;
     }
     calcMemSize(importer);
 }
 
+// The custom data types are never moved, they are referenced by other types and
+// values. So a new array is added in front if the current one is full.
+static bool addTypeArray(DataTypeImporter *importer)
+{
+    UA_DataTypeArray *newCustomTypes =
+        (UA_DataTypeArray *)UA_calloc(1, sizeof(UA_DataTypeArray));
+    if (!newCustomTypes)
+    {
+        return false;
+    }
+#ifndef USE_CLEANUP_CUSTOM_DATATYPES
+    newCustomTypes->cleanup = UA_TRUE;
+#endif
+    UA_ServerConfig *config = UA_Server_getConfig(importer->server);
+    newCustomTypes->next = config->customDataTypes;
+    config->customDataTypes = newCustomTypes;
+    importer->types = newCustomTypes;
+    return true;
+}
+
 void DataTypeImporter_addCustomDataType(DataTypeImporter *importer,
                                         const NL_DataTypeNode *node,
                                         const UA_NodeId parent)
@@ -650,15 +667,19 @@ void DataTypeImporter_addCustomDataType(DataTypeImporter *importer,
         return;
     }
 
+    if (importer->types->typesSize >= TYPE_ARRAY_CAPACITY &&
+        !addTypeArray(importer))
+    {
+        return;
+    }
     // there is an open issue for that
     // the user of the library should provide the memory for the custom
     // dataTypes, then it is clear that he has to clean it up
     if (!importer->types->types)
     {
         importer->types->types =
-            (UA_DataType *)calloc(1000, sizeof(UA_DataType));
+            (UA_DataType *)calloc(TYPE_ARRAY_CAPACITY, sizeof(UA_DataType));
     }
-    assert(importer->types->typesSize < 1000);
 
     UA_DataType *type = (UA_DataType *)(uintptr_t)&importer->types
                             ->types[importer->types->typesSize];
@@ -694,6 +715,9 @@ void DataTypeImporter_addCustomDataType(DataTypeImporter *importer,
     importer->nodes = (const NL_DataTypeNode **)realloc(
         (void *)importer->nodes, (importer->nodesSize + 1) * sizeof(void *));
     importer->nodes[importer->nodesSize] = node;
+    importer->newTypes = (UA_DataType **)realloc(
+        (void *)importer->newTypes, (importer->nodesSize + 1) * sizeof(void *));
+    importer->newTypes[importer->nodesSize] = type;
     importer->nodesSize++;
 
     (*(size_t *)(uintptr_t)&importer->types->typesSize)++;
@@ -710,28 +734,18 @@ DataTypeImporter *DataTypeImporter_new(struct UA_Server *server)
 
     importer->server = server;
     UA_ServerConfig *config = UA_Server_getConfig(server);
-    if (!config->customDataTypes)
+    // we append all types to customTypes array
+    if (!config->customDataTypes && !addTypeArray(importer))
     {
-        // we append all types to customTypes array
-        UA_DataTypeArray *newCustomTypes =
-            (UA_DataTypeArray *)UA_calloc(1, sizeof(UA_DataTypeArray));
-        if (!newCustomTypes)
-        {
-            return importer;
-        }
-#ifndef USE_CLEANUP_CUSTOM_DATATYPES
-        newCustomTypes->cleanup = UA_TRUE;
-#endif
-        newCustomTypes->next = config->customDataTypes;
-        config->customDataTypes = newCustomTypes;
+        return importer;
     }
     importer->types = (UA_DataTypeArray *)(uintptr_t)config->customDataTypes;
-    importer->firstNewDataType = importer->types->typesSize;
     return importer;
 }
 
 void DataTypeImporter_delete(DataTypeImporter *importer)
 {
     free((void *)importer->nodes);
+    free((void *)importer->newTypes);
     free(importer);
 }
-- 
2.43.0


From 7e8c4395e4519933cf3c6442ee5aa2ab7cf07bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:32 +0000
Subject: [PATCH 36/47] fix: decode the full range of unsigned and 64 bit
 integers

---
 backends/open62541/src/Value.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/backends/open62541/src/Value.c b/backends/open62541/src/Value.c
index 59bd496..9ab4833 100644
--- a/backends/open62541/src/Value.c
+++ b/backends/open62541/src/Value.c
@@ -57,17 +57,17 @@ static void setInt32(uintptr_t adr, const char *value)
 
 static void setUInt32(uintptr_t adr, const char *value)
 {
-    *(UA_UInt32 *)adr = (UA_UInt32)atoi(value);
+    *(UA_UInt32 *)adr = (UA_UInt32)strtoul(value, NULL, 10);
 }
 
 static void setInt64(uintptr_t adr, const char *value)
 {
-    *(UA_Int64 *)adr = atoi(value);
+    *(UA_Int64 *)adr = (UA_Int64)strtoll(value, NULL, 10);
 }
 
 static void setUInt64(uintptr_t adr, const char *value)
 {
-    *(UA_UInt64 *)adr = (UA_UInt64)atoi(value);
+    *(UA_UInt64 *)adr = (UA_UInt64)strtoull(value, NULL, 10);
 }
 
 static void setFloat(uintptr_t adr, const char *value)
-- 
2.43.0


From 9db407a85c1258ce6cda66b3ba60b4f70d063afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:26 +0000
Subject: [PATCH 37/47] fix: decode values with missing, optional or unexpected
 members

---
 backends/open62541/src/Value.c  | 239 +++++++++++++++++++-------------
 backends/open62541/src/Value.h  |   3 +
 backends/open62541/src/import.c |  15 +-
 3 files changed, 158 insertions(+), 99 deletions(-)

diff --git a/backends/open62541/src/Value.c b/backends/open62541/src/Value.c
index 9ab4833..e54689c 100644
--- a/backends/open62541/src/Value.c
+++ b/backends/open62541/src/Value.c
@@ -13,8 +13,6 @@
 #include "nodeset_base64.h"
 #include "ServerContext.h"
 
-#include <assert.h>
-
 typedef struct TypeList TypeList;
 struct TypeList
 {
@@ -145,6 +143,10 @@ static void setPrimitiveValue(RawData *data, const char *value,
 
 static NL_Data *lookupMember(const NL_Data *value, const char *name)
 {
+    if (value->type != DATATYPE_COMPLEX)
+    {
+        return NULL;
+    }
     // is there a better way?
     for (size_t cnt = 0; cnt < value->val.complexData.membersSize; cnt++)
     {
@@ -156,11 +158,38 @@ static NL_Data *lookupMember(const NL_Data *value, const char *name)
     return NULL;
 }
 
+// text of a primitive, NULL if it is empty or has an unexpected form
+static const char *getText(const NL_Data *value)
+{
+    if (!value || value->type != DATATYPE_PRIMITIVE)
+    {
+        return NULL;
+    }
+    return value->val.primitiveData.value;
+}
+
+static const char *getMemberText(const NL_Data *value, const char *name)
+{
+    return getText(lookupMember(value, name));
+}
+
+size_t Value_getArraySize(const NL_Data *value)
+{
+    if (!value || value->type != DATATYPE_COMPLEX)
+    {
+        return 0;
+    }
+    return value->val.complexData.membersSize;
+}
+
 static void setDateTime(const NL_Data *value, RawData *data)
 {
     uintptr_t adr = (uintptr_t)data->mem + data->offset;
-    UA_DateTime time = UA_DateTime_fromString(value->val.primitiveData.value);
-    *(UA_DateTime*)adr = time;
+    const char *text = getText(value);
+    if (text)
+    {
+        *(UA_DateTime *)adr = UA_DateTime_fromString(text);
+    }
     data->offset = data->offset + sizeof(UA_DateTime);
 }
 
@@ -171,7 +200,7 @@ static void setQualifiedName(const NL_Data *value, RawData *data, const ServerCo
     setScalarValueWithAddress(
         (uintptr_t)&((UA_QualifiedName*)adr)->namespaceIndex,
         UA_DATATYPEKIND_UINT16,
-        value->val.complexData.members[0]->val.primitiveData.value);
+        getMemberText(value, "NamespaceIndex"));
     
     // Translate namespace index
     ((UA_QualifiedName*)adr)->namespaceIndex = 
@@ -180,7 +209,7 @@ static void setQualifiedName(const NL_Data *value, RawData *data, const ServerCo
     setScalarValueWithAddress(
         (uintptr_t)&((UA_QualifiedName*)adr)->name,
         UA_DATATYPEKIND_STRING,
-        value->val.complexData.members[1]->val.primitiveData.value);
+        getMemberText(value, "Name"));
 
     data->offset += sizeof(UA_QualifiedName);
 }
@@ -194,7 +223,7 @@ static void setLocalizedText(const NL_Data *value, RawData *data)
         setScalarValueWithAddress(data->offset + (uintptr_t) &
                                       ((UA_LocalizedText *)data->mem)->locale,
                                   UA_DATATYPEKIND_STRING,
-                                  localeData->val.primitiveData.value);
+                                  getText(localeData));
     }
 
     NL_Data *textData = lookupMember(value, "Text");
@@ -203,17 +232,15 @@ static void setLocalizedText(const NL_Data *value, RawData *data)
     {
         setScalarValueWithAddress(
             data->offset + (uintptr_t) & ((UA_LocalizedText *)data->mem)->text,
-            UA_DATATYPEKIND_STRING, textData->val.primitiveData.value);
+            UA_DATATYPEKIND_STRING, getText(textData));
     }
     data->offset += sizeof(UA_LocalizedText);
 }
 
 static void setNodeId(const NL_Data *value, RawData *data, const ServerContext *serverContext)
 {
-    assert(value->val.complexData.membersSize == 1);
     *(UA_NodeId *)((uintptr_t)data->mem + data->offset) =
-        extractNodeId((char *)(uintptr_t)value->val.complexData.members[0]
-                          ->val.primitiveData.value);
+        extractNodeId((char *)(uintptr_t)getMemberText(value, "Identifier"));
 
     // Translate namespace index
     (*(UA_NodeId *)((uintptr_t)data->mem + data->offset)).namespaceIndex =
@@ -228,9 +255,10 @@ static void setByteString(const NL_Data* value, RawData*data)
     int len = 0;
     unsigned char *val = NULL;
 
-    if (value->val.primitiveData.value)
+    const char *text = getText(value);
+    if (text)
     {
-        val = unbase64(value->val.primitiveData.value, (int)strlen(value->val.primitiveData.value), &len);
+        val = unbase64(text, (int)strlen(text), &len);
     }
 
     s->length = (size_t)len;
@@ -240,7 +268,11 @@ static void setByteString(const NL_Data* value, RawData*data)
 static void setGuid(const NL_Data* value, RawData*data)
 {
     uintptr_t adr = (uintptr_t)data->mem + data->offset;
-    *(UA_Guid*)adr = UA_GUID((const char *)(value->val.complexData.members[0]->val.primitiveData.value));
+    const char *text = getMemberText(value, "String");
+    if (text)
+    {
+        *(UA_Guid *)adr = UA_GUID(text);
+    }
     data->offset = data->offset + sizeof(UA_Guid);
 }
 
@@ -251,8 +283,13 @@ static void setArray(const NL_Data *value, const UA_DataType *type, RawData *dat
 
 static const char* getEnumValuePos(const char *string)
 {
-    // Enum value is either on <symbol>_<value> or <value> format
-    char *enumSepPos = strchr(string, '_');
+    if (!string)
+    {
+        return NULL;
+    }
+    // Enum value is either on <symbol>_<value> or <value> format, the symbol
+    // may contain underscores as well
+    const char *enumSepPos = strrchr(string, '_');
     if (enumSepPos)
     {
         return ++enumSepPos;
@@ -260,43 +297,64 @@ static const char* getEnumValuePos(const char *string)
     return string;
 }
 
+static size_t getMemberSize(const UA_DataTypeMember *m)
+{
+    if (m->isArray)
+    {
+        return sizeof(size_t) + sizeof(void *);
+    }
+    return m->isOptional ? sizeof(void *) : m->memberType->memSize;
+}
+
+static void setMember(const NL_Data *memberData, const UA_DataTypeMember *m,
+                      RawData *data, const UA_DataType *customTypes,
+                      const ServerContext *serverContext)
+{
+    const UA_DataType *memberType = m->memberType;
+    if (m->isArray)
+    {
+        RawData *rawdata = RawData_new(data);
+        rawdata->mem =
+            calloc(Value_getArraySize(memberData), memberType->memSize);
+        setArray(memberData, memberType, rawdata, customTypes, serverContext);
+        size_t *size = (size_t *)((uintptr_t)data->mem + data->offset);
+        *size = Value_getArraySize(memberData);
+        data->offset += sizeof(size_t);
+        void **d = (void **)((uintptr_t)data->mem + data->offset);
+        *d = rawdata->mem;
+    }
+    else if (m->isOptional)
+    {
+        RawData *rawdata = RawData_new(data);
+        rawdata->mem = calloc(1, memberType->memSize);
+        setScalar(memberData, memberType, rawdata, customTypes, serverContext);
+        void **d = (void **)((uintptr_t)data->mem + data->offset);
+        *d = rawdata->mem;
+    }
+    else
+    {
+        setScalar(memberData, memberType, data, customTypes, serverContext);
+    }
+}
+
 static void setStructure(const NL_Data *value, const UA_DataType *type,
                          RawData *data, const UA_DataType *customTypes,
                          const ServerContext *serverContext)
 {
-    assert(value->type == DATATYPE_COMPLEX);
     // there can be less members specified then the type requires
     for (const UA_DataTypeMember *m = type->members;
          m != type->members + type->membersSize; m++)
     {
-        const UA_DataType* memberType = m->memberType;
-
         data->offset += m->padding;
+        // the members of data have to end up at the right place, even if
+        // members in between are missing
+        const size_t nextOffset = data->offset + getMemberSize(m);
         NL_Data *memberData = lookupMember(value, m->memberName);
-        if (!memberData)
-        {
-            data->offset += memberType->memSize;
-            return;
-        }
-        if (m->isArray)
+        if (memberData)
         {
-            RawData *rawdata = RawData_new(data);
-            rawdata->mem = calloc(memberData->val.complexData.membersSize,
-                                  memberType->memSize);
-            setArray(memberData, memberType, rawdata, customTypes, serverContext);
-            size_t *size = (size_t *)((uintptr_t)data->mem + data->offset);
-            *size = memberData->val.complexData.membersSize;
-            data->offset += sizeof(size_t);
-            void **d = (void **)((uintptr_t)data->mem + data->offset);
-            *d = rawdata->mem;
-            data->offset += sizeof(void *);
-        }
-        else
-        {
-            size_t structOffset = data->offset + memberType->memSize;
-            setScalar(memberData, memberType, data, customTypes, serverContext);
-            data->offset = structOffset;
+            setMember(memberData, m, data, customTypes, serverContext);
         }
+        data->offset = nextOffset;
     }
 }
 
@@ -320,54 +378,36 @@ static void setUnion(const NL_Data *value, const UA_DataType *type, RawData *dat
     // Remember the initial offset of the complete union
     const size_t unionOffset = data->offset;
     // Extract the switchField value
-    const UA_UInt32 switchField = (UA_UInt32)atoi(value->val.complexData.members[0]->val.primitiveData.value);
-    // Write out the switchField value
-    *(UA_UInt32 *)((uintptr_t)data->mem + data->offset) = switchField;
-    // Insert the field padding
-
+    UA_UInt32 switchField = 0;
+    setScalarValueWithAddress((uintptr_t)&switchField, UA_DATATYPEKIND_UINT32,
+                              getMemberText(value, "SwitchField"));
     // If the switch field is 0 then no field is present.
     // A Union with no fields present has the same meaning as a NULL value.
     // See: https://reference.opcfoundation.org/v104/Core/docs/Part6/5.2.8/
-    if (switchField != 0) {
-        data->offset += type->members[switchField - 1].padding;
-        // For convenience setup direct pointers to data and type
-        NL_Data *memberData = value->val.complexData.members[1];
-        const UA_DataType* memberType = type->members[switchField - 1].memberType;
-
-        // Write out the field value
-        if (type->members[switchField - 1].isArray)
-        {
-            RawData *rawdata = RawData_new(data);
-            rawdata->mem = calloc(memberData->val.complexData.membersSize,
-                                    memberType->memSize);
-            setArray(memberData, memberType, rawdata, customTypes, serverContext);
-            size_t *size = (size_t *)((uintptr_t)data->mem + data->offset);
-            *size = memberData->val.complexData.membersSize;
-            data->offset += sizeof(size_t);
-            void **d = (void **)((uintptr_t)data->mem + data->offset);
-            *d = rawdata->mem;
-            data->offset += sizeof(void *);
-        }
-        else
+    if (switchField != 0 && switchField <= type->membersSize)
+    {
+        // Write out the switchField value
+        *(UA_UInt32 *)((uintptr_t)data->mem + data->offset) = switchField;
+        const UA_DataTypeMember *m = &type->members[switchField - 1];
+        NL_Data *memberData = lookupMember(value, m->memberName);
+        if (memberData)
         {
-            setScalar(memberData, memberType, data, customTypes, serverContext);
+            // Insert the field padding
+            data->offset += m->padding;
+            // Write out the field value
+            setMember(memberData, m, data, customTypes, serverContext);
         }
-        // Overwrite the offset using the size of the complete union, which includes also "end padding" of a C structure.
-        data->offset = unionOffset + type->memSize;
     }
+    // Overwrite the offset using the size of the complete union, which includes also "end padding" of a C structure.
+    data->offset = unionOffset + type->memSize;
 }
 
 static void setStatusCode(const NL_Data *value, RawData *data)
 {
     // StatusCode is a complex type with a primitive
-    assert(value->type == DATATYPE_COMPLEX);
-    if (value->val.complexData.membersSize == 1)
-    {
-        NL_Data *code = value->val.complexData.members[0];
-        setPrimitiveValue(
-            data, code->val.primitiveData.value, UA_DATATYPEKIND_UINT32,
-            UA_TYPES[UA_TYPES_UINT32].memSize);
-    }
+    setPrimitiveValue(data, getMemberText(value, "Code"),
+                      UA_DATATYPEKIND_UINT32,
+                      UA_TYPES[UA_TYPES_UINT32].memSize);
 }
 
 static void setScalar(const NL_Data *value, const UA_DataType *type, RawData *data,
@@ -375,7 +415,7 @@ static void setScalar(const NL_Data *value, const UA_DataType *type, RawData *da
 {
     if (type->typeKind < CONVERSION_TABLE_SIZE)
     {
-        setPrimitiveValue(data, value->val.primitiveData.value,
+        setPrimitiveValue(data, getText(value),
                           (UA_DataTypeKind)type->typeKind, type->memSize);
     }
     else if(type->typeKind == UA_DATATYPEKIND_BYTESTRING)
@@ -400,11 +440,12 @@ static void setScalar(const NL_Data *value, const UA_DataType *type, RawData *da
     }
     else if (type->typeKind == UA_DATATYPEKIND_ENUM)
     {
-        setPrimitiveValue(data, getEnumValuePos(value->val.primitiveData.value),
+        setPrimitiveValue(data, getEnumValuePos(getText(value)),
                           UA_DATATYPEKIND_INT32,
                           UA_TYPES[UA_TYPES_INT32].memSize);
     }
-    else if (type->typeKind == UA_DATATYPEKIND_STRUCTURE)
+    else if (type->typeKind == UA_DATATYPEKIND_STRUCTURE ||
+             type->typeKind == UA_DATATYPEKIND_OPTSTRUCT)
     {
         setStructure(value, type, data, customTypes, serverContext);
     }
@@ -420,40 +461,50 @@ static void setScalar(const NL_Data *value, const UA_DataType *type, RawData *da
     {
         setStatusCode(value, data);
     }
-    else
-    {
-        assert(false && "conversion not implemented");
-    }
+    // no conversion implemented for the other kinds, they are left null
 }
 
 static void setArray(const NL_Data *value, const UA_DataType *type, RawData *data,
                      const UA_DataType *customTypes, const ServerContext *serverContext)
 {
-    for (size_t i = 0; i < value->val.complexData.membersSize; i++)
+    for (size_t i = 0; i < Value_getArraySize(value); i++)
     {
         data->offset = i * type->memSize;
         setScalar(value->val.complexData.members[i], type, data, customTypes, serverContext);
     }
 }
 
+static bool isDecodable(const UA_DataType *type)
+{
+    switch (type->typeKind)
+    {
+    case UA_DATATYPEKIND_XMLELEMENT:
+    case UA_DATATYPEKIND_EXPANDEDNODEID:
+    case UA_DATATYPEKIND_EXTENSIONOBJECT:
+    case UA_DATATYPEKIND_DATAVALUE:
+    case UA_DATATYPEKIND_VARIANT:
+    case UA_DATATYPEKIND_DIAGNOSTICINFO:
+    case UA_DATATYPEKIND_DECIMAL:
+        return false;
+    default:
+        return true;
+    }
+}
+
 void Value_getData(RawData *outData, const NL_Value *value, const UA_DataType *type,
                    const UA_DataType *customTypes, const ServerContext *serverContext)
 {
-    if (!type)
+    if (!type || !isDecodable(type))
     {
         return;
     }
 
     if (value->isArray)
     {
-        if (value->data->val.complexData.membersSize == 0)
-        {
-            outData = NULL;
-        }
-        else
+        const size_t size = Value_getArraySize(value->data);
+        if (size > 0)
         {
-            outData->mem =
-                calloc(value->data->val.complexData.membersSize, type->memSize);
+            outData->mem = calloc(size, type->memSize);
             setArray(value->data, type, outData, customTypes, serverContext);
         }
     }
diff --git a/backends/open62541/src/Value.h b/backends/open62541/src/Value.h
index fe97559..c507580 100644
--- a/backends/open62541/src/Value.h
+++ b/backends/open62541/src/Value.h
@@ -25,6 +25,9 @@ typedef struct RawData RawData;
 RawData *RawData_new(RawData *old);
 void RawData_delete(RawData *data);
 
+// number of elements of an array value
+size_t Value_getArraySize(const NL_Data *value);
+
 void Value_getData(RawData *outData, const NL_Value *value, const UA_DataType* type, const UA_DataType* customTypes, const struct ServerContext *serverContext);
 
 #endif
diff --git a/backends/open62541/src/import.c b/backends/open62541/src/import.c
index ce5a373..b5f7f37 100644
--- a/backends/open62541/src/import.c
+++ b/backends/open62541/src/import.c
@@ -253,7 +253,7 @@ static UA_StatusCode handleVariableNode(const NL_VariableNode *node, UA_NodeId *
     {
         attr.arrayDimensions = UA_UInt32_new();
         *attr.arrayDimensions =
-            (UA_UInt32)node->value->data->val.complexData.membersSize;
+            (UA_UInt32)Value_getArraySize(node->value->data);
         attr.arrayDimensionsSize = 1;
     }
     RawData *data = NULL;
@@ -278,19 +278,24 @@ static UA_StatusCode handleVariableNode(const NL_VariableNode *node, UA_NodeId *
         data = RawData_new(data);
         Value_getData(data, node->value, dataType, types->types, serverContext);
 
-        if (data)
+        const size_t arraySize = Value_getArraySize(node->value->data);
+        if (data && data->mem)
         {
             if (node->value->isArray)
             {
-                UA_Variant_setArray(
-                    &attr.value, data->mem,
-                    node->value->data->val.complexData.membersSize, dataType);
+                UA_Variant_setArray(&attr.value, data->mem, arraySize,
+                                    dataType);
             }
             else
             {
                 UA_Variant_setScalar(&attr.value, data->mem, dataType);
             }
         }
+        else if (dataType && node->value->isArray && arraySize == 0)
+        {
+            UA_Variant_setArray(&attr.value, UA_EMPTY_ARRAY_SENTINEL, 0,
+                                dataType);
+        }
     }
     UA_NodeId typeDefId = UA_NODEID_NULL;
     if (node->refToTypeDef)
-- 
2.43.0


From 0c562da0194276b8c894555aa2355be4a6798795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:25 +0000
Subject: [PATCH 38/47] fix: decode fractions of a second

---
 backends/open62541/src/conversion.h | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/backends/open62541/src/conversion.h b/backends/open62541/src/conversion.h
index a9eafa5..cf30b51 100644
--- a/backends/open62541/src/conversion.h
+++ b/backends/open62541/src/conversion.h
@@ -62,8 +62,24 @@ static inline UA_DateTime UA_DateTime_fromString(const char *dateString)
 {
     UA_DateTimeStruct dt;
     memset(&dt, 0, sizeof(UA_DateTimeStruct));
-    sscanf(dateString, "%hi-%hu-%huT%hu:%hu:%huZ",
-           &dt.year, &dt.month, &dt.day, &dt.hour, &dt.min, &dt.sec);
+    int length = 0;
+    sscanf(dateString, "%hd-%hu-%huT%hu:%hu:%hu%n",
+           &dt.year, &dt.month, &dt.day, &dt.hour, &dt.min, &dt.sec, &length);
+    // fractions of a second with a resolution of 100 ns
+    if (length > 0 && dateString[length] == '.')
+    {
+        unsigned int fraction = 0;
+        unsigned int weight = 1000000;
+        for (const char *c = dateString + length + 1;
+             *c >= '0' && *c <= '9' && weight > 0; c++)
+        {
+            fraction += (unsigned int)(*c - '0') * weight;
+            weight /= 10;
+        }
+        dt.milliSec = (UA_UInt16)(fraction / 10000);
+        dt.microSec = (UA_UInt16)(fraction / 10 % 1000);
+        dt.nanoSec = (UA_UInt16)(fraction % 10 * 100);
+    }
     UA_DateTime dateTime = UA_DateTime_fromStruct(dt);
     return dateTime;
 }
-- 
2.43.0


From 69f0b4e973244b0220cc130e6c08ee3707196847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:44 +0000
Subject: [PATCH 39/47] fix: loading a reference type which references itself
 did not terminate

the reference type was found again in the list it was just added to
---
 backends/open62541/src/RefServiceImpl.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/backends/open62541/src/RefServiceImpl.c b/backends/open62541/src/RefServiceImpl.c
index 1ff47fa..0e916cd 100644
--- a/backends/open62541/src/RefServiceImpl.c
+++ b/backends/open62541/src/RefServiceImpl.c
@@ -131,11 +131,14 @@ static void addnewRefType(RefServiceImpl *service, NL_ReferenceTypeNode *node)
                 if (UA_NodeId_equal(&service->hierachicalRefs.ids[i], &ref->target)) {
                     addToRefs(&service->hierachicalRefs, node->id);
                     isHierachical = true;
+                    break;
                 }
             }
             for (size_t i = 0; i < service->hasTypeDefRefs.size; i++) {
-                if (UA_NodeId_equal(&service->hasTypeDefRefs.ids[i], &ref->target))
+                if (UA_NodeId_equal(&service->hasTypeDefRefs.ids[i], &ref->target)) {
                     addToRefs(&service->hasTypeDefRefs, node->id);
+                    break;
+                }
             }
         }
         ref = ref->next;
-- 
2.43.0


From d8d691be6281fbd13db1ad4c30d3e732a89ea3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:36 +0000
Subject: [PATCH 40/47] fix: loading into a server with a cycle of reference
 types did not terminate

---
 backends/open62541/src/RefServiceImpl.c | 33 +++++++++++++++++--------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/backends/open62541/src/RefServiceImpl.c b/backends/open62541/src/RefServiceImpl.c
index 0e916cd..d0cf096 100644
--- a/backends/open62541/src/RefServiceImpl.c
+++ b/backends/open62541/src/RefServiceImpl.c
@@ -37,7 +37,8 @@ RefContainer_clear(RefContainer *c) {
 
 typedef struct RefServiceImpl RefServiceImpl;
 
-typedef void (*browseFnc)(RefServiceImpl *impl, const UA_NodeId id);
+// returns false if the id was already known
+typedef bool (*browseFnc)(RefServiceImpl *impl, const UA_NodeId id);
 
 static void iterate(UA_Server *server, const UA_NodeId *startId, browseFnc fnc,
                     RefServiceImpl *impl)
@@ -56,9 +57,10 @@ static void iterate(UA_Server *server, const UA_NodeId *startId, browseFnc fnc,
         for (UA_ReferenceDescription *rd = br.references;
              rd != br.references + br.referencesSize; rd++)
         {
-            fnc(impl, rd->nodeId.nodeId);
-
-            iterate(server, &rd->nodeId.nodeId, fnc, impl);
+            if (fnc(impl, rd->nodeId.nodeId))
+            {
+                iterate(server, &rd->nodeId.nodeId, fnc, impl);
+            }
         }
     }
     UA_BrowseResult_clear(&br);
@@ -73,19 +75,30 @@ addToRefs(RefContainer *refs, const UA_NodeId id)
     refs->size++;
 }
 
-static void addToHierachicalRefs(RefServiceImpl *impl, const UA_NodeId id)
+static bool
+addNewToRefs(RefContainer *refs, const UA_NodeId id)
+{
+    for (size_t i = 0; i < refs->size; i++) {
+        if (UA_NodeId_equal(&refs->ids[i], &id))
+            return false;
+    }
+    addToRefs(refs, id);
+    return true;
+}
+
+static bool addToHierachicalRefs(RefServiceImpl *impl, const UA_NodeId id)
 {
-    addToRefs(&impl->hierachicalRefs, id);
+    return addNewToRefs(&impl->hierachicalRefs, id);
 }
 
-static void addToNonHierachicalRefs(RefServiceImpl *impl, const UA_NodeId id)
+static bool addToNonHierachicalRefs(RefServiceImpl *impl, const UA_NodeId id)
 {
-    addToRefs(&impl->nonHierachicalRefs, id);
+    return addNewToRefs(&impl->nonHierachicalRefs, id);
 }
 
-static void addToHasTypeDefRefs(RefServiceImpl *impl, const UA_NodeId id)
+static bool addToHasTypeDefRefs(RefServiceImpl *impl, const UA_NodeId id)
 {
-    addToRefs(&impl->hasTypeDefRefs, id);
+    return addNewToRefs(&impl->hasTypeDefRefs, id);
 }
 
 static void getRefs(UA_Server *server, RefServiceImpl *impl,
-- 
2.43.0


From c126b5b099e0b45092dcaabc196dad7f85ad82d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:26 +0000
Subject: [PATCH 41/47] fix: keep libxml2 initialized, other threads may be
 parsing

---
 src/Parser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Parser.c b/src/Parser.c
index 7799caa..23502c7 100644
--- a/src/Parser.c
+++ b/src/Parser.c
@@ -78,8 +78,9 @@ int Parser_run(Parser *parser, FILE *file, Parser_callbackStart start,
         xmlFreeDoc(ctxt->myDoc);
         ctxt->myDoc = NULL;
     }
+    // no xmlCleanupParser, the global state of libxml2 is in use by the parsers
+    // of other threads
     xmlFreeParserCtxt(ctxt);
-    xmlCleanupParser();
     return status != 0 ? 1 : 0;
 }
 void Parser_delete(Parser *parser) { free(parser); }
-- 
2.43.0


From c4315ddea4ced9c01759177a5d0a965e5b02b549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:57 +0000
Subject: [PATCH 42/47] fix: read decimal fractions in every locale

strtod and atof expect the decimal separator of the process' locale, a nodeset
always has a point. With e.g. a German locale 1.5 was loaded as 1.
---
 backends/open62541/src/Value.c      |  4 +--
 backends/open62541/src/conversion.h | 39 +++++++++++++++++++++++++++++
 backends/open62541/src/import.c     |  2 +-
 3 files changed, 42 insertions(+), 3 deletions(-)

diff --git a/backends/open62541/src/Value.c b/backends/open62541/src/Value.c
index e54689c..644288e 100644
--- a/backends/open62541/src/Value.c
+++ b/backends/open62541/src/Value.c
@@ -70,12 +70,12 @@ static void setUInt64(uintptr_t adr, const char *value)
 
 static void setFloat(uintptr_t adr, const char *value)
 {
-    *(UA_Float *)adr = (UA_Float)atof(value);
+    *(UA_Float *)adr = (UA_Float)extractDouble(value);
 }
 
 static void setDouble(uintptr_t adr, const char *value)
 {
-    *(UA_Double *)adr = atof(value);
+    *(UA_Double *)adr = extractDouble(value);
 }
 
 static void setString(uintptr_t adr, const char *value)
diff --git a/backends/open62541/src/conversion.h b/backends/open62541/src/conversion.h
index cf30b51..0cf9512 100644
--- a/backends/open62541/src/conversion.h
+++ b/backends/open62541/src/conversion.h
@@ -11,6 +11,9 @@
 
 #include "NodesetLoader/NodesetLoader.h"
 
+#include <locale.h>
+#include <stdlib.h>
+#include <string.h>
 #include <time.h>
 
 static inline UA_Boolean isNodeId(const char *s)
@@ -58,6 +61,42 @@ static inline UA_NodeId extractNodeId(char *s)
     return id;
 }
 
+// the decimal separator of a nodeset is always '.', the one strtod expects
+// depends on the locale of the process
+static inline UA_Double extractDouble(const char *s)
+{
+    const char *separator = localeconv()->decimal_point;
+    if (!strcmp(separator, "."))
+    {
+        return strtod(s, NULL);
+    }
+    // the separator of the locale has no meaning in a nodeset
+    const char *stop = strstr(s, separator);
+    size_t length = stop ? (size_t)(stop - s) : strlen(s);
+    size_t separatorLength = strlen(separator);
+    char *localized = (char *)calloc(length + separatorLength + 1, 1);
+    if (!localized)
+    {
+        return 0.0;
+    }
+    const char *point = (const char *)memchr(s, '.', length);
+    if (point)
+    {
+        size_t integerLength = (size_t)(point - s);
+        memcpy(localized, s, integerLength);
+        memcpy(localized + integerLength, separator, separatorLength);
+        memcpy(localized + integerLength + separatorLength, point + 1,
+               length - integerLength - 1);
+    }
+    else
+    {
+        memcpy(localized, s, length);
+    }
+    UA_Double value = strtod(localized, NULL);
+    free(localized);
+    return value;
+}
+
 static inline UA_DateTime UA_DateTime_fromString(const char *dateString)
 {
     UA_DateTimeStruct dt;
diff --git a/backends/open62541/src/import.c b/backends/open62541/src/import.c
index b5f7f37..a8cdaf2 100644
--- a/backends/open62541/src/import.c
+++ b/backends/open62541/src/import.c
@@ -238,7 +238,7 @@ static UA_StatusCode handleVariableNode(const NL_VariableNode *node, UA_NodeId *
     attr.userAccessLevel = (UA_Byte)atoi(node->userAccessLevel);
     attr.description = *description;
     attr.historizing = isValTrue(node->historizing);
-    attr.minimumSamplingInterval = atof(node->minimumSamplingInterval);
+    attr.minimumSamplingInterval = extractDouble(node->minimumSamplingInterval);
 
     // this case is only needed for the euromap83 comparison, think the nodeset
     // is not valid
-- 
2.43.0


From 18145ba03c0a40803e5fd54d2b2893cba2140f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:43 +0000
Subject: [PATCH 43/47] fix: leave data types without members which have more
 of them or are bigger than a UA_DataType can describe

---
 backends/open62541/src/DataTypeImporter.c | 54 ++++++++++++++++-------
 1 file changed, 39 insertions(+), 15 deletions(-)

diff --git a/backends/open62541/src/DataTypeImporter.c b/backends/open62541/src/DataTypeImporter.c
index b9fdbad..bf1f527 100644
--- a/backends/open62541/src/DataTypeImporter.c
+++ b/backends/open62541/src/DataTypeImporter.c
@@ -333,6 +333,19 @@ static int getMemberSize(const UA_DataTypeMember *member)
     return member->memberType->memSize;
 }
 
+static void removeMembers(UA_DataType *type)
+{
+    for (UA_DataTypeMember *m = type->members;
+         m != type->members + type->membersSize; m++)
+    {
+        UA_free((void *)(uintptr_t)m->memberName);
+    }
+    free(type->members);
+    type->members = NULL;
+    type->membersSize = 0;
+    type->memSize = sizeof(void *);
+}
+
 static void setPaddingMemsize(UA_DataType *type)
 {
     if (!type->members)
@@ -368,7 +381,14 @@ static void setPaddingMemsize(UA_DataType *type)
         }
     }
     // padding after struct at end is needed
-    type->memSize = (UA_UInt16)(offset + getPadding(typeAlignment, offset));
+    offset += getPadding(typeAlignment, offset);
+    if (offset > UINT16_MAX)
+    {
+        // the size cannot be represented, the type cannot be used
+        removeMembers(type);
+        return;
+    }
+    type->memSize = (UA_UInt16)offset;
 }
 
 static UA_NodeId getParentNode(const NL_DataTypeNode *node)
@@ -384,11 +404,21 @@ static UA_NodeId getParentNode(const NL_DataTypeNode *node)
     return UA_NODEID_NULL;
 }
 
+// the number of members of a type is limited
+static bool hasTooManyFields(const NL_DataTypeNode *node)
+{
+    return node->definition && node->definition->fieldCnt > UINT8_MAX;
+}
+
 static void setDataTypeMembersTypeIndex(DataTypeImporter *importer,
                                         UA_DataType *type,
                                         const NL_DataTypeNode *node)
 {
     // member of supertype have to be added, if there is one
+    if (hasTooManyFields(node))
+    {
+        return;
+    }
     UA_NodeId parent = getParentNode(node);
     UA_NodeId structId = UA_NODEID_NUMERIC(0, UA_NS0ID_STRUCTURE);
     size_t memberOffset = 0;
@@ -402,6 +432,12 @@ static void setDataTypeMembersTypeIndex(DataTypeImporter *importer,
         // open62541 would not generate a type if it had no members.
         if (parentType && parentType->members)
         {
+            if (parentType->membersSize + type->membersSize > UINT8_MAX)
+            {
+                // the type cannot be used
+                removeMembers(type);
+                return;
+            }
             UA_DataTypeMember *members = (UA_DataTypeMember *)calloc(
                 (size_t)(parentType->membersSize + type->membersSize),
                 sizeof(UA_DataTypeMember));
@@ -456,7 +492,8 @@ static void addDataTypeMembers(const UA_DataTypeArray *customTypes,
                                UA_DataType *type, const NL_DataTypeNode *node)
 {
 
-    if (!node->definition || node->definition->fieldCnt == 0)
+    if (!node->definition || node->definition->fieldCnt == 0 ||
+        hasTooManyFields(node))
     {
         type->membersSize = 0;
         type->members = NULL;
@@ -542,19 +579,6 @@ static void SubtypeOfBase_init(const DataTypeImporter *importer,
     type->typeKind = parentType->typeKind;
 }
 
-static void removeMembers(UA_DataType *type)
-{
-    for (UA_DataTypeMember *m = type->members;
-         m != type->members + type->membersSize; m++)
-    {
-        UA_free((void *)(uintptr_t)m->memberName);
-    }
-    free(type->members);
-    type->members = NULL;
-    type->membersSize = 0;
-    type->memSize = sizeof(void *);
-}
-
 static bool hasMembersToLayout(const UA_DataType *type)
 {
     return (type->typeKind == UA_DATATYPEKIND_STRUCTURE ||
-- 
2.43.0


From c8fa9f71139e91f57217866c798049dbf42d149c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:51 +0000
Subject: [PATCH 44/47] fix: choose the type of an added parent reference
 independent of the order of the file

---
 src/Sort.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/Sort.c b/src/Sort.c
index ef98b70..cc53e7c 100644
--- a/src/Sort.c
+++ b/src/Sort.c
@@ -361,16 +361,24 @@ static bool add_parent_reference(SortContext *ctx, S_Node *j)
     //to we already have a reference for the node parentNode?
     //parent references
     if (k->data) {
+        // the order of the references depends on the position of their types in
+        // the file, so it cannot decide which of several types is used
+        const NL_Reference *parentRef = NULL;
         NL_Reference *r = k->data->hierachicalRefs;
         while (r) {
-            if (UA_NodeId_equal(&r->target, &data->id))
+            if (UA_NodeId_equal(&r->target, &data->id) &&
+                (!parentRef || UA_NodeId_order(&r->refType, &parentRef->refType) ==
+                                   UA_ORDER_LESS))
             {
-                newRef->isForward = !r->isForward;
-                UA_NodeId_copy(&r->refType, &newRef->refType);
-                break;
+                parentRef = r;
             }
             r = r->next;
         }
+        if (parentRef)
+        {
+            newRef->isForward = !parentRef->isForward;
+            UA_NodeId_copy(&parentRef->refType, &newRef->refType);
+        }
     }
     newRef->next = data->hierachicalRefs;
     data->hierachicalRefs = newRef;
-- 
2.43.0


From 90048c225a9546cceff9491383fe10a6ed26bea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:09 +0000
Subject: [PATCH 45/47] fix: binary encoding of data types which list their
 encodings themselves

Without an inverse HasEncoding reference on the encoding node, the encoding
listed last by the data type became its binary encoding, also if it is the
XML or JSON encoding.
---
 backends/open62541/src/import.c | 47 +++++++++++++++++++++++++++++++++
 1 file changed, 47 insertions(+)

diff --git a/backends/open62541/src/import.c b/backends/open62541/src/import.c
index a8cdaf2..6d058fa 100644
--- a/backends/open62541/src/import.c
+++ b/backends/open62541/src/import.c
@@ -516,10 +516,56 @@ struct DataTypeImportCtx
     DataTypeImporter *importer;
     const NL_BiDirectionalReference *hasEncodingRef;
     UA_Server *server;
+    NodesetLoader *loader;
 };
 
+// moves the forward HasEncoding reference of the data type to the node in front
+// of its other references, if the node is its binary encoding
+static void preferBinaryEncoding(NL_Node *dataType, NL_Node *node)
+{
+    if (!node->browseName.name ||
+        strcmp(node->browseName.name, "Default Binary"))
+    {
+        return;
+    }
+    const UA_NodeId hasEncoding = UA_NODEID_NUMERIC(0, 38);
+    for (NL_Reference **pos = &dataType->nonHierachicalRefs; *pos;
+         pos = &(*pos)->next)
+    {
+        NL_Reference *ref = *pos;
+        if (ref->isForward && UA_NodeId_equal(&ref->refType, &hasEncoding) &&
+            UA_NodeId_equal(&ref->target, &node->id))
+        {
+            *pos = ref->next;
+            ref->next = dataType->nonHierachicalRefs;
+            dataType->nonHierachicalRefs = ref;
+            return;
+        }
+    }
+}
+
+static bool listsEncodings(const NL_Node *dataType)
+{
+    const UA_NodeId hasEncoding = UA_NODEID_NUMERIC(0, 38);
+    for (const NL_Reference *ref = dataType->nonHierachicalRefs; ref;
+         ref = ref->next)
+    {
+        if (ref->isForward && UA_NodeId_equal(&ref->refType, &hasEncoding))
+        {
+            return true;
+        }
+    }
+    return false;
+}
+
 static void addDataType(struct DataTypeImportCtx *ctx, NL_Node *node)
 {
+    if (listsEncodings(node))
+    {
+        NodesetLoader_forEachNode(
+            ctx->loader, NODECLASS_OBJECT, node,
+            (NodesetLoader_forEachNode_Func)preferBinaryEncoding);
+    }
     // add only the types
     const NL_BiDirectionalReference *r = ctx->hasEncodingRef;
     while (r)
@@ -554,6 +600,7 @@ static void importDataTypes(NodesetLoader *loader, UA_Server *server)
     ctx.hasEncodingRef = hasEncodingRef;
     ctx.server = server;
     ctx.importer = importer;
+    ctx.loader = loader;
     NodesetLoader_forEachNode(loader, NODECLASS_DATATYPE, &ctx,
                               (NodesetLoader_forEachNode_Func)addDataType);
 
-- 
2.43.0


From d2d77bd9797f019ecf19fa28e2336b57b35b0a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:49 +0000
Subject: [PATCH 46/47] fix: alignment of data types which use others
 repeatedly on every level

The alignment of a type was computed along all paths through the types of its
members, for a few unions of unions the load did not end in reasonable time.
---
 backends/open62541/src/DataTypeImporter.c | 66 +++++++++++++++++++----
 1 file changed, 57 insertions(+), 9 deletions(-)

diff --git a/backends/open62541/src/DataTypeImporter.c b/backends/open62541/src/DataTypeImporter.c
index bf1f527..ab6ff21 100644
--- a/backends/open62541/src/DataTypeImporter.c
+++ b/backends/open62541/src/DataTypeImporter.c
@@ -17,6 +17,12 @@
 
 #define TYPE_ARRAY_CAPACITY 1000
 
+typedef struct
+{
+    const UA_DataType *type;
+    int alignment;
+} KnownAlignment;
+
 struct DataTypeImporter
 {
     UA_Server *server;
@@ -24,6 +30,8 @@ struct DataTypeImporter
     const NL_DataTypeNode **nodes;
     UA_DataType **newTypes;
     size_t nodesSize;
+    KnownAlignment *alignments;
+    size_t alignmentsSize;
 };
 
 static UA_NodeId getBinaryEncodingId(const NL_DataTypeNode *node)
@@ -218,9 +226,40 @@ typedef struct
     void *member;
 } TempVoidPtr;
 
-static int getMemberAlignment(const UA_DataTypeMember *member);
+// types may use others repeatedly on every level, so each one is computed once
+static const KnownAlignment *findAlignment(const DataTypeImporter *importer,
+                                           const UA_DataType *type)
+{
+    for (size_t i = 0; i < importer->alignmentsSize; i++)
+    {
+        if (importer->alignments[i].type == type)
+        {
+            return &importer->alignments[i];
+        }
+    }
+    return NULL;
+}
+
+static void addAlignment(DataTypeImporter *importer, const UA_DataType *type,
+                         int alignment)
+{
+    KnownAlignment *alignments = (KnownAlignment *)realloc(
+        importer->alignments,
+        (importer->alignmentsSize + 1) * sizeof(KnownAlignment));
+    if (!alignments)
+    {
+        return;
+    }
+    importer->alignments = alignments;
+    importer->alignments[importer->alignmentsSize].type = type;
+    importer->alignments[importer->alignmentsSize].alignment = alignment;
+    importer->alignmentsSize++;
+}
+
+static int getMemberAlignment(DataTypeImporter *importer,
+                              const UA_DataTypeMember *member);
 
-static int getAlignment(const UA_DataType *type)
+static int getAlignment(DataTypeImporter *importer, const UA_DataType *type)
 {
     switch (type->typeKind)
     {
@@ -285,18 +324,24 @@ static int getAlignment(const UA_DataType *type)
         {
             return offsetof(TempVoidPtr, member);
         }
+        const KnownAlignment *known = findAlignment(importer, type);
+        if (known)
+        {
+            return known->alignment;
+        }
         // the switch field of an union
         int retAlignment = type->typeKind == UA_DATATYPEKIND_UNION
                                ? (int)offsetof(TempUInt32, member)
                                : 1;
         for (UA_UInt32 i = 0; i < type->membersSize; i++)
         {
-            int tmp = getMemberAlignment(&type->members[i]);
+            int tmp = getMemberAlignment(importer, &type->members[i]);
             if (tmp > retAlignment)
             {
                 retAlignment = tmp;
             }
         }
+        addAlignment(importer, type, retAlignment);
         return retAlignment;
     }
     }
@@ -305,7 +350,8 @@ static int getAlignment(const UA_DataType *type)
     return 0;
 }
 
-static int getMemberAlignment(const UA_DataTypeMember *member)
+static int getMemberAlignment(DataTypeImporter *importer,
+                              const UA_DataTypeMember *member)
 {
     // the size_t for the size of an array and the void* for its data have the
     // same alignment, optional members are pointers
@@ -313,7 +359,7 @@ static int getMemberAlignment(const UA_DataTypeMember *member)
     {
         return offsetof(TempVoidPtr, member);
     }
-    return getAlignment(member->memberType);
+    return getAlignment(importer, member->memberType);
 }
 
 static int getMemberSize(const UA_DataTypeMember *member)
@@ -346,13 +392,13 @@ static void removeMembers(UA_DataType *type)
     type->memSize = sizeof(void *);
 }
 
-static void setPaddingMemsize(UA_DataType *type)
+static void setPaddingMemsize(DataTypeImporter *importer, UA_DataType *type)
 {
     if (!type->members)
     {
         return;
     }
-    const int typeAlignment = getAlignment(type);
+    const int typeAlignment = getAlignment(importer, type);
     int offset = 0;
     for (UA_DataTypeMember *tm = type->members;
          tm < type->members + type->membersSize; tm++)
@@ -376,7 +422,8 @@ static void setPaddingMemsize(UA_DataType *type)
         else
         {
             tm->padding =
-                (UA_Byte)(0x3F & getPadding(getMemberAlignment(tm), offset));
+                (UA_Byte)(0x3F & getPadding(getMemberAlignment(importer, tm),
+                                            offset));
             offset = offset + tm->padding + getMemberSize(tm);
         }
     }
@@ -624,7 +671,7 @@ static void calcMemSize(DataTypeImporter *importer)
             if (type->memSize == 0 && hasMembersToLayout(type) &&
                 readyForMemsizeCalc(type))
             {
-                setPaddingMemsize(type);
+                setPaddingMemsize(importer, type);
                 progress = true;
             }
         }
@@ -771,5 +818,6 @@ void DataTypeImporter_delete(DataTypeImporter *importer)
 {
     free((void *)importer->nodes);
     free((void *)importer->newTypes);
+    free(importer->alignments);
     free(importer);
 }
-- 
2.43.0


From 9c45e8201f144a9c5c8867123d1720688b64855b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:14 +0000
Subject: [PATCH 47/47] fix: sorting again, alone or after importing further
 files

---
 src/Nodeset.c |  6 ++++++
 src/Sort.c    | 22 ++++++++++++++++++----
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/Nodeset.c b/src/Nodeset.c
index e833465..9b64264 100644
--- a/src/Nodeset.c
+++ b/src/Nodeset.c
@@ -349,7 +349,13 @@ bool Nodeset_sort(Nodeset *nodeset)
         Sort_addReferences(nodeset->sortCtx,
                            nodeset->nodesWithUnknownRefs->nodes[i]);
     }
+    nodeset->nodesWithUnknownRefs->size = 0;
 
+    // all nodes are sorted again, those of an earlier call included
+    for (size_t i = 0; i < NL_NODECLASS_COUNT; i++)
+    {
+        nodeset->nodes[i]->size = 0;
+    }
     return Sort_start(nodeset->sortCtx, nodeset, Nodeset_addNode,
                       nodeset->logger);
 }
diff --git a/src/Sort.c b/src/Sort.c
index cc53e7c..fc5cb5b 100644
--- a/src/Sort.c
+++ b/src/Sort.c
@@ -186,21 +186,32 @@ record_relation(S_Node *from, S_Node *to) {
     if(!e)
         return;
 
-    to->edgeCount++;
     e->dest = to;
     e->next = from->edges;
     from->edges = e;
 }
 
-static bool count_items(SortContext *ctx, S_Node *unused)
+// the counts are used up by a run, so every run counts again
+static bool count_items(SortContext *ctx, S_Node *k)
 {
     ctx->keyCnt++;
+    k->qlink = NULL;
+    k->edgeCount = 0;
+    return false;
+}
+
+static bool count_edges(SortContext *ctx, S_Node *k)
+{
+    for (S_Edge *e = k->edges; e; e = e->next)
+    {
+        e->dest->edgeCount++;
+    }
     return false;
 }
 
 static bool scan_zeros(SortContext *ctx, S_Node *k)
 {
-    if (k->edgeCount == 0 && k->id)
+    if (k->edgeCount == 0)
     {
         if (ctx->head == NULL)
             ctx->head = k;
@@ -389,7 +400,11 @@ bool Sort_start(SortContext *ctx, struct Nodeset *nodeset,
                 Sort_SortedNodeCallback callback, NodesetLoader_Logger *logger)
 {
     walk_tree(ctx, ctx->root1, add_parent_reference);
+    ctx->head = NULL;
+    ctx->zeros = NULL;
+    ctx->keyCnt = 0;
     walk_tree(ctx, ctx->root1, count_items);
+    walk_tree(ctx, ctx->root1, count_edges);
 
     while (ctx->keyCnt > 0)
     {
@@ -404,7 +419,6 @@ bool Sort_start(SortContext *ctx, struct Nodeset *nodeset,
                 callback(nodeset, ctx->head->data);
             }
 
-            ctx->head->id = NULL;
             ctx->keyCnt--;
 
             while (e)
-- 
2.43.0

