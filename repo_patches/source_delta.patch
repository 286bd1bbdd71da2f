From 5cdf67ab47fd5062296630aa6cddc2959b5765b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:37 +0000
Subject: [PATCH 001/111] fix: use the Graph.nodes view instead of Graph.node /
 nodes_iter, which current networkx no longer has

---
 metaknowledge/diffusion.py       | 16 ++++-----
 metaknowledge/grantCollection.py |  6 ++--
 metaknowledge/graphHelpers.py    |  8 ++---
 metaknowledge/mkCollection.py    | 58 ++++++++++++++++----------------
 4 files changed, 44 insertions(+), 44 deletions(-)

diff --git a/metaknowledge/diffusion.py b/metaknowledge/diffusion.py
index 92f9bb4..b9ce40a 100644
--- a/metaknowledge/diffusion.py
+++ b/metaknowledge/diffusion.py
@@ -105,7 +105,7 @@ def diffusionGraph(source, target, weighted = True, sourceType = "raw", targetTy
                     if val not in workingGraph:
                         workingGraph.add_node(val, source = False, target = True, **RtExtras)
                     else:
-                        workingGraph.node[val]["target"] = True
+                        workingGraph.nodes[val]["target"] = True
                     targetCites = Rt.get('CR')
                     if targetCites:
                         for Rs in (sourceDict[c] for c in targetCites if c in sourceDict):
@@ -419,24 +419,24 @@ def diffusionAddCountsFromSource(grph, source, target, nodeType = 'citations', e
         except StopIteration:
             pass
         count = 0
-        for n in grph.nodes_iter():
+        for n in grph.nodes():
             PBar.updateVal(.5 + .5 * (count / len(grph)), "Adding count for '{}'".format(n))
             if extraType is not None:
                 if extraKeys:
                     for key in extraKeys:
-                        grph.node[n][key] = 0
-                grph.node[n][diffusionLabel] = 0
+                        grph.nodes[n][key] = 0
+                grph.nodes[n][diffusionLabel] = 0
                 try:
                     for k, v in countsDict[n].items():
                         if k == 'TargetCount':
-                            grph.node[n][diffusionLabel] = v
+                            grph.nodes[n][diffusionLabel] = v
                         else:
                             if k:
-                                grph.node[n][k] = v
+                                grph.nodes[n][k] = v
                 except KeyError:
-                    grph.node[n][diffusionLabel] = 0
+                    grph.nodes[n][diffusionLabel] = 0
             else:
-                grph.node[n][diffusionLabel] = countsDict.get(n, 0)
+                grph.nodes[n][diffusionLabel] = countsDict.get(n, 0)
             count += 1
         PBar.finish("Done adding diffusion counts to a graph")
     return countsDict
diff --git a/metaknowledge/grantCollection.py b/metaknowledge/grantCollection.py
index 54fc347..8428c87 100644
--- a/metaknowledge/grantCollection.py
+++ b/metaknowledge/grantCollection.py
@@ -198,7 +198,7 @@ class GrantCollection(CollectionWithIDs):
                             else:
                                 grph.add_node(invest1[0], field = invest1[1])
                         elif count:
-                            grph.node[invest1[0]]['count'] += 1
+                            grph.nodes[invest1[0]]['count'] += 1
                         for invest2 in investList[i + 1:]:
                             if invest2[0] not in grph:
                                 if count:
@@ -206,7 +206,7 @@ class GrantCollection(CollectionWithIDs):
                                 else:
                                     grph.add_node(invest2[0], field = invest2[1])
                             elif count:
-                                grph.node[invest2[0]]['count'] += 1
+                                grph.nodes[invest2[0]]['count'] += 1
                             if grph.has_edge(invest1[0], invest2[0]) and weighted:
                                 grph.edges[invest1[0], invest2[0]]['weight'] += 1
                             elif weighted:
@@ -221,7 +221,7 @@ class GrantCollection(CollectionWithIDs):
                         else:
                             grph.add_node(invest1[0], field = invest1[1])
                     elif count:
-                        grph.node[invest1[0]]['count'] += 1
+                        grph.nodes[invest1[0]]['count'] += 1
             if _institutionLevel:
                 PBar.finish("Done making a co-institution network from {}".format(self))
             else:
diff --git a/metaknowledge/graphHelpers.py b/metaknowledge/graphHelpers.py
index 3eb5389..3e04123 100644
--- a/metaknowledge/graphHelpers.py
+++ b/metaknowledge/graphHelpers.py
@@ -439,9 +439,9 @@ def writeTnetFile(grph, name, modeNameString, weighted = False, sourceMode = Non
                 else:
                     eTimeString = ''
                 if weighted:
-                    f.write("{}{} {} {}\n".format(eTimeString, grph.node[n1][nodeIndexString], grph.node[n2][nodeIndexString], eDict[weightString]))
+                    f.write("{}{} {} {}\n".format(eTimeString, grph.nodes[n1][nodeIndexString], grph.nodes[n2][nodeIndexString], eDict[weightString]))
                 else:
-                    f.write("{}{} {}\n".format(eTimeString, grph.node[n1][nodeIndexString], grph.node[n2][nodeIndexString]))
+                    f.write("{}{} {}\n".format(eTimeString, grph.nodes[n1][nodeIndexString], grph.nodes[n2][nodeIndexString]))
         PBar.finish("Done writing tnet file '{}'".format(name))
 
 def getWeight(grph, nd1, nd2, weightString = "weight", returnType = int):
@@ -715,7 +715,7 @@ def mergeGraphs(targetGraph, addedGraph, incrementedNodeVal = 'count', increment
     for addedNode, attribs in addedGraph.nodes(data = True):
         if incrementedNodeVal:
             try:
-                targetGraph.node[addedNode][incrementedNodeVal] += attribs[incrementedNodeVal]
+                targetGraph.nodes[addedNode][incrementedNodeVal] += attribs[incrementedNodeVal]
             except KeyError:
                 targetGraph.add_node(addedNode, **attribs)
         else:
@@ -728,7 +728,7 @@ def mergeGraphs(targetGraph, addedGraph, incrementedNodeVal = 'count', increment
             except KeyError:
                 targetGraph.add_edge(edgeNode1, edgeNode2, **attribs)
         else:
-            if not targetGraph.Graph.has_edge(edgeNode1, edgeNode2):
+            if not targetGraph.has_edge(edgeNode1, edgeNode2):
                 targetGraph.add_edge(edgeNode1, edgeNode2, **attribs)
 
 def graphStats(G, stats = ('nodes', 'edges', 'isolates', 'loops', 'density', 'transitivity'), makeString = True, sentenceString = False):
diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index a9afbbe..3c80257 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -907,21 +907,21 @@ class CollectionWithIDs(Collection):
                                     grph.add_node(node1)
                                 if nodeCount:
                                     try:
-                                        grph.node[node1]['count'] += 1
+                                        grph.nodes[node1]['count'] += 1
                                     except KeyError:
-                                        grph.node[node1]['count'] = 1
+                                        grph.nodes[node1]['count'] = 1
                                 if nodeAttribute:
                                     try:
-                                        currentAttrib = grph.node[node1][nodeAttribute]
+                                        currentAttrib = grph.nodes[node1][nodeAttribute]
                                     except KeyError:
-                                        grph.node[node1][nodeAttribute] = nodeVals
+                                        grph.nodes[node1][nodeAttribute] = nodeVals
                                     else:
                                         for nodeValue in (n for n in nodeVals if n not in currentAttrib):
-                                            grph.node[node1][nodeAttribute].append(nodeValue)
+                                            grph.nodes[node1][nodeAttribute].append(nodeValue)
                         elif len(tmplst) == 1:
                             if nodeCount:
                                 try:
-                                    grph.node[tmplst[0]]['count'] += 1
+                                    grph.nodes[tmplst[0]]['count'] += 1
                                 except KeyError:
                                     grph.add_node(tmplst[0], count = 1)
                             else:
@@ -929,12 +929,12 @@ class CollectionWithIDs(Collection):
                                     grph.add_node(tmplst[0])
                             if nodeAttribute:
                                 try:
-                                    currentAttrib = grph.node[tmplst[0]][nodeAttribute]
+                                    currentAttrib = grph.nodes[tmplst[0]][nodeAttribute]
                                 except KeyError:
-                                    grph.node[tmplst[0]][nodeAttribute] = nodeVals
+                                    grph.nodes[tmplst[0]][nodeAttribute] = nodeVals
                                 else:
                                     for nodeValue in (n for n in nodeVals if n not in currentAttrib):
-                                        grph.node[tmplst[0]][nodeAttribute].append(nodeValue)
+                                        grph.nodes[tmplst[0]][nodeAttribute].append(nodeValue)
                         else:
                             pass
                     else:
@@ -944,7 +944,7 @@ class CollectionWithIDs(Collection):
                             nodeVal = str(contents)
                         if nodeCount:
                             try:
-                                grph.node[nodeVal]['count'] += 1
+                                grph.nodes[nodeVal]['count'] += 1
                             except KeyError:
                                 grph.add_node(nodeVal, count = 1)
                         else:
@@ -952,12 +952,12 @@ class CollectionWithIDs(Collection):
                                 grph.add_node(nodeVal)
                         if nodeAttribute:
                             try:
-                                currentAttrib = grph.node[nodeVal][nodeAttribute]
+                                currentAttrib = grph.nodes[nodeVal][nodeAttribute]
                             except KeyError:
-                                grph.node[nodeVal][nodeAttribute] = nodeVals
+                                grph.nodes[nodeVal][nodeAttribute] = nodeVals
                             else:
                                 for nodeValue in (n for n in nodeVals if n not in currentAttrib):
-                                    grph.node[nodeVal][nodeAttribute].append(nodeValue)
+                                    grph.nodes[nodeVal][nodeAttribute].append(nodeValue)
             if PBar:
                 PBar.finish("Done making a {} from {}".format(_networkTypeString, modes))
         return grph
@@ -1127,12 +1127,12 @@ class CollectionWithIDs(Collection):
                                 grph.add_edge(node1, node2)
                     if nodeCount:
                         try:
-                            grph.node[node1]['count'] += 1
+                            grph.nodes[node1]['count'] += 1
                         except KeyError:
                             try:
-                                grph.node[node1]['count'] = 1
+                                grph.nodes[node1]['count'] = 1
                                 if recordType:
-                                    grph.node[node1]['type'] = tag1
+                                    grph.nodes[node1]['type'] = tag1
                             except KeyError:
                                 if recordType:
                                     grph.add_node(node1, type = tag1)
@@ -1145,22 +1145,22 @@ class CollectionWithIDs(Collection):
                             else:
                                 grph.add_node(node1)
                         elif recordType:
-                            if 'type' not in grph.node[node1]:
-                                grph.node[node1]['type'] = tag1
+                            if 'type' not in grph.nodes[node1]:
+                                grph.nodes[node1]['type'] = tag1
 
                 for node2 in contents2:
                     if nodeCount:
                         try:
-                            grph.node[node2]['count'] += 1
+                            grph.nodes[node2]['count'] += 1
                         except KeyError:
                             try:
-                                grph.node[node2]['count'] = 1
+                                grph.nodes[node2]['count'] = 1
                                 if recordType:
-                                    grph.node[node2]['type'] = tag2
+                                    grph.nodes[node2]['type'] = tag2
                             except KeyError:
                                 grph.add_node(node2, count = 1)
                                 if recordType:
-                                    grph.node[node2]['type'] = tag2
+                                    grph.nodes[node2]['type'] = tag2
                     else:
                         if not grph.has_node(node2):
                             if recordType:
@@ -1168,8 +1168,8 @@ class CollectionWithIDs(Collection):
                             else:
                                 grph.add_node(node2)
                         elif recordType:
-                            if 'type' not in grph.node[node2]:
-                                grph.node[node2]['type'] = tag2
+                            if 'type' not in grph.nodes[node2]:
+                                grph.nodes[node2]['type'] = tag2
             if PBar:
                 PBar.finish("Done making a two mode network of " + tag1 + " and " + tag2)
         return grph
@@ -1281,12 +1281,12 @@ class CollectionWithIDs(Collection):
                                         grph.add_edge(node1, node2)
                         if nodeCount:
                             try:
-                                grph.node[node1]['count'] += 1
+                                grph.nodes[node1]['count'] += 1
                             except KeyError:
                                 try:
-                                    grph.node[node1]['count'] = 1
+                                    grph.nodes[node1]['count'] = 1
                                     if recordType:
-                                        grph.node[node1]['type'] = vlst1[0]
+                                        grph.nodes[node1]['type'] = vlst1[0]
                                 except KeyError:
                                     if recordType:
                                         grph.add_node(node1, type = vlst1[0])
@@ -1300,9 +1300,9 @@ class CollectionWithIDs(Collection):
                                     grph.add_node(node1)
                             elif recordType:
                                 try:
-                                    grph.node[node1]['type'] += vlst1[0]
+                                    grph.nodes[node1]['type'] += vlst1[0]
                                 except KeyError:
-                                    grph.node[node1]['type'] = vlst1[0]
+                                    grph.nodes[node1]['type'] = vlst1[0]
             if PBar:
                 PBar.finish("Done making a {}-mode network of: {}".format(len(tags), ', '.join(tags)))
         return grph
-- 
2.43.0


From 3418429f053e835bc34bd2cbc72e859e78cd084f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:12 +0000
Subject: [PATCH 002/111] fix: count the first occurrence of an edgeless node
 in two-mode and multi-mode networks

---
 metaknowledge/mkCollection.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index 3c80257..7d97816 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -1135,9 +1135,9 @@ class CollectionWithIDs(Collection):
                                     grph.nodes[node1]['type'] = tag1
                             except KeyError:
                                 if recordType:
-                                    grph.add_node(node1, type = tag1)
+                                    grph.add_node(node1, count = 1, type = tag1)
                                 else:
-                                    grph.add_node(node1)
+                                    grph.add_node(node1, count = 1)
                     else:
                         if not grph.has_node(node1):
                             if recordType:
@@ -1289,9 +1289,9 @@ class CollectionWithIDs(Collection):
                                         grph.nodes[node1]['type'] = vlst1[0]
                                 except KeyError:
                                     if recordType:
-                                        grph.add_node(node1, type = vlst1[0])
+                                        grph.add_node(node1, count = 1, type = vlst1[0])
                                     else:
-                                        grph.add_node(node1)
+                                        grph.add_node(node1, count = 1)
                         else:
                             if not grph.has_node(node1):
                                 if recordType:
-- 
2.43.0


From f1e9efe710a1d0dd5e0a1b437b5e68f1733f5b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:12 +0000
Subject: [PATCH 003/111] fix: do not repeat the tag in a multi-mode node's
 type for every occurrence

---
 metaknowledge/mkCollection.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index 7d97816..9c686cd 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -1299,9 +1299,7 @@ class CollectionWithIDs(Collection):
                                 else:
                                     grph.add_node(node1)
                             elif recordType:
-                                try:
-                                    grph.nodes[node1]['type'] += vlst1[0]
-                                except KeyError:
+                                if 'type' not in grph.nodes[node1]:
                                     grph.nodes[node1]['type'] = vlst1[0]
             if PBar:
                 PBar.finish("Done making a {}-mode network of: {}".format(len(tags), ', '.join(tags)))
-- 
2.43.0


From 0a3f0c92216361e823ad39d9aa021cf522f4db08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:12 +0000
Subject: [PATCH 004/111] fix: give every node its own attribute list and treat
 string attributes as one value

---
 metaknowledge/mkCollection.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index 9c686cd..a687966 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -862,9 +862,15 @@ class CollectionWithIDs(Collection):
                     count += 1
                     PBar.updateVal(count / len(self), "Analyzing: " + str(R))
                 if edgeAttribute:
-                    edgeVals = [str(v) for v in R.get(edgeAttribute, [])]
+                    edgeVals = R.get(edgeAttribute, [])
+                    if not isinstance(edgeVals, list):
+                        edgeVals = [edgeVals]
+                    edgeVals = [str(v) for v in edgeVals]
                 if nodeAttribute:
-                    nodeVals = [str(v) for v in R.get(nodeAttribute, [])]
+                    nodeVals = R.get(nodeAttribute, [])
+                    if not isinstance(nodeVals, list):
+                        nodeVals = [nodeVals]
+                    nodeVals = [str(v) for v in nodeVals]
                 contents = []
                 for attr in modes:
                     tmpContents = R.get(attr, [])
@@ -914,7 +920,7 @@ class CollectionWithIDs(Collection):
                                     try:
                                         currentAttrib = grph.nodes[node1][nodeAttribute]
                                     except KeyError:
-                                        grph.nodes[node1][nodeAttribute] = nodeVals
+                                        grph.nodes[node1][nodeAttribute] = list(nodeVals)
                                     else:
                                         for nodeValue in (n for n in nodeVals if n not in currentAttrib):
                                             grph.nodes[node1][nodeAttribute].append(nodeValue)
@@ -931,7 +937,7 @@ class CollectionWithIDs(Collection):
                                 try:
                                     currentAttrib = grph.nodes[tmplst[0]][nodeAttribute]
                                 except KeyError:
-                                    grph.nodes[tmplst[0]][nodeAttribute] = nodeVals
+                                    grph.nodes[tmplst[0]][nodeAttribute] = list(nodeVals)
                                 else:
                                     for nodeValue in (n for n in nodeVals if n not in currentAttrib):
                                         grph.nodes[tmplst[0]][nodeAttribute].append(nodeValue)
@@ -954,7 +960,7 @@ class CollectionWithIDs(Collection):
                             try:
                                 currentAttrib = grph.nodes[nodeVal][nodeAttribute]
                             except KeyError:
-                                grph.nodes[nodeVal][nodeAttribute] = nodeVals
+                                grph.nodes[nodeVal][nodeAttribute] = list(nodeVals)
                             else:
                                 for nodeValue in (n for n in nodeVals if n not in currentAttrib):
                                     grph.nodes[nodeVal][nodeAttribute].append(nodeValue)
-- 
2.43.0


From 488e4ea6ad40aaa5e13ac2a48a12c767480e84bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:12 +0000
Subject: [PATCH 005/111] fix: edgeAttribute in multi-level and multi-mode
 networks

---
 metaknowledge/mkCollection.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index a687966..07cd1bd 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -891,10 +891,7 @@ class CollectionWithIDs(Collection):
                                         for edgeVal in edgeVals:
                                             if grph.has_edge(node1, node2, key = edgeVal):
                                                 if edgeWeight:
-                                                    for i, a in grph.edges[node1, node2].items():
-                                                        if a['key'] == edgeVal:
-                                                            grph[node1][node2][i]['weight'] += 1
-                                                            break
+                                                    grph.edges[node1, node2, edgeVal]['weight'] += 1
                                             else:
                                                 if edgeWeight:
                                                     attrDict = {'key' : edgeVal, 'weight' : 1}
@@ -1244,6 +1241,11 @@ class CollectionWithIDs(Collection):
                 if PBar:
                     count += 1
                     PBar.updateVal(count / len(self), "Analyzing: " + str(R))
+                if edgeAttribute:
+                    edgeVals = R.get(edgeAttribute, [])
+                    if not isinstance(edgeVals, list):
+                        edgeVals = [edgeVals]
+                    edgeVals = [str(v) for v in edgeVals]
                 contents = []
                 for t in tags:
                     tmpVal = R.get(t)
@@ -1267,10 +1269,7 @@ class CollectionWithIDs(Collection):
                                     for edgeVal in edgeVals:
                                         if grph.has_edge(node1, node2, key = edgeVal):
                                             if edgeWeight:
-                                                for i, a in grph.edges[node1, node2].items():
-                                                    if a['key'] == edgeVal:
-                                                        grph[node1][node2][i]['weight'] += 1
-                                                        break
+                                                grph.edges[node1, node2, edgeVal]['weight'] += 1
                                         else:
                                             if edgeWeight:
                                                 attrDict = {'key' : edgeVal, 'weight' : 1}
-- 
2.43.0


From e233602e1c847efa9a8ff1d076e4b21e73372bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:18 +0000
Subject: [PATCH 006/111] fix: collections built from an iterable know their
 types and are not emptied by a one-shot iterator

---
 metaknowledge/grantCollection.py  | 4 +++-
 metaknowledge/recordCollection.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/grantCollection.py b/metaknowledge/grantCollection.py
index 8428c87..95ead52 100644
--- a/metaknowledge/grantCollection.py
+++ b/metaknowledge/grantCollection.py
@@ -123,10 +123,12 @@ class GrantCollection(CollectionWithIDs):
                 PBar.updateVal(.5, "GrantCollection started from {}".format(type(inGrants).__name__))
                 if not name:
                     name = "Grants-from-a-{}".format(type(inGrants).__name__)
+                grantsSet = set()
                 for G in inGrants:
                     if not isinstance(G, Grant):
                         raise GrantCollectionException("A GrantCollection cannot be created from a Iterable containing {}".format(G))
-                grantsSet = set(inGrants)
+                    grantsSet.add(G)
+                    grantTypes.add(type(G).__name__)
             else:
                 raise GrantCollectionException("A GrantCollection cannot be created from {}".format(inGrants))
             CollectionWithIDs.__init__(self, grantsSet, Grant, grantTypes, name, bad, errors, quietStart = quietStart)
diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index af0e417..5757c9b 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -151,10 +151,12 @@ class RecordCollection(CollectionWithIDs):
                     raise RCTypeError("'{}' is not a path to a directory or file. Strings cannot be used to initialize RecordCollections".format(inCollection))
             elif isinstance(inCollection, collections.abc.Iterable):
                 PBar.updateVal(.5, "RecordCollection from an iterable started")
+                recordsSet = set()
                 for R in inCollection:
                     if not isinstance(R, Record):
                         raise RCTypeError("RecordCollections can only contain Records, '{}' is not a valid part of an input iterable.".format(R))
-                recordsSet = set(inCollection)
+                    recordsSet.add(R)
+                    recordTypes.add(type(R).__name__)
             else:
                 raise RCTypeError("A RecordCollection cannot be created from {}.".format(inCollection))
             CollectionWithIDs.__init__(self, recordsSet, Record, recordTypes, name, bad, errors)
-- 
2.43.0


From a04e0d7dc49f7d2f9f6723bb40628b77ddb6a820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:18 +0000
Subject: [PATCH 007/111] fix: writeFile picks the file format from the records
 it writes, not from types that were once collected

---
 metaknowledge/recordCollection.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 5757c9b..f0fbfa4 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -224,7 +224,8 @@ class RecordCollection(CollectionWithIDs):
 
         > Default `None`, if given the output file will written to _fanme_, if `None` the `RecordCollection`'s name's first 200 characters are used with the suffix .isi
         """
-        if len(self._collectedTypes) < 2:
+        writtenTypes = {type(R).__name__ for R in self}
+        if len(writtenTypes) == 1:
             recEncoding = self.peek().encoding()
         else:
             recEncoding = 'utf-8'
@@ -232,17 +233,17 @@ class RecordCollection(CollectionWithIDs):
             f = open(fname, mode = 'w', encoding = recEncoding)
         else:
             f = open(self.name[:200] + '.txt', mode = 'w', encoding = recEncoding)
-        if self._collectedTypes == {'WOSRecord'}:
+        if writtenTypes == {'WOSRecord'}:
             f.write("\ufeffFN Thomson Reuters Web of Science\u2122\n")
             f.write("VR 1.0\n")
-        elif self._collectedTypes == {'MedlineRecord'}:
+        elif writtenTypes == {'MedlineRecord'}:
             f.write('\n')
-        elif self._collectedTypes == {'ScopusRecord'}:
+        elif writtenTypes == {'ScopusRecord'}:
             f.write("\ufeff{}\n".format(','.join(scopusHeader)))
         for R in self._collection:
             R.writeRecord(f)
             f.write('\n')
-        if self._collectedTypes == {'WOSRecord'}:
+        if writtenTypes == {'WOSRecord'}:
             f.write('EF')
         f.close()
 
-- 
2.43.0


From 2936d723c8b9c34f6eedfabe2eb7bf3b26da3259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:28 +0000
Subject: [PATCH 008/111] fix: keep the left operand's errors in the result of
 a binary set operation

---
 metaknowledge/mkCollection.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index 07cd1bd..680b4a4 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -237,6 +237,7 @@ class Collection(collections.abc.MutableSet, collections.abc.Hashable):
             retCollection = type(self)(self._collection | other._collection, name = '{} | {}'.format(self.name, other.name), quietStart = True)
             if other.bad or self.bad:
                 retCollection.bad = True
+                retCollection.errors.update(self.errors)
                 retCollection.errors.update(other.errors)
             return retCollection
 
@@ -247,6 +248,7 @@ class Collection(collections.abc.MutableSet, collections.abc.Hashable):
             retCollection = type(self)(self._collection & other._collection, name = '{} & {}'.format(self.name, other.name), quietStart = True)
             if other.bad or self.bad:
                 retCollection.bad = True
+                retCollection.errors.update(self.errors)
                 retCollection.errors.update(other.errors)
             return retCollection
 
@@ -257,6 +259,7 @@ class Collection(collections.abc.MutableSet, collections.abc.Hashable):
             retCollection = type(self)(self._collection - other._collection, name = '{} - {}'.format(self.name, other.name), quietStart = True)
             if other.bad or self.bad:
                 retCollection.bad = True
+                retCollection.errors.update(self.errors)
                 retCollection.errors.update(other.errors)
             return retCollection
 
@@ -267,6 +270,7 @@ class Collection(collections.abc.MutableSet, collections.abc.Hashable):
             retCollection = type(self)(self._collection ^ other._collection, name = '{} ^ {}'.format(self.name, other.name), quietStart = True)
             if other.bad or self.bad:
                 retCollection.bad = True
+                retCollection.errors.update(self.errors)
                 retCollection.errors.update(other.errors)
             return retCollection
 
-- 
2.43.0


From 8ccf7461e4ef6e8bef0f04ef5e5f054e1b696ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:38 +0000
Subject: [PATCH 009/111] fix: keep the parse error of a malformed record
 instead of reporting only its missing ID

---
 metaknowledge/WOS/recordWOS.py           | 7 ++++---
 metaknowledge/medline/recordMedline.py   | 7 ++++---
 metaknowledge/proquest/recordProQuest.py | 7 ++++---
 metaknowledge/scopus/recordScopus.py     | 7 ++++---
 4 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/metaknowledge/WOS/recordWOS.py b/metaknowledge/WOS/recordWOS.py
index a26acf3..0697285 100644
--- a/metaknowledge/WOS/recordWOS.py
+++ b/metaknowledge/WOS/recordWOS.py
@@ -78,8 +78,8 @@ class WOSRecord(ExtendedRecord):
             else:
                 raise TypeError("Unsupported input type '{}', WOSRecords cannot be created from '{}'".format(inRecord, type(inRecord)))
         except BadWOSRecord as b:
-            self.bad = True
-            self.error = b
+            bad = True
+            error = b
             fieldDict = collections.OrderedDict()
         if fieldDict is not None:
             if 'UT' in fieldDict:
@@ -87,7 +87,8 @@ class WOSRecord(ExtendedRecord):
             else:
                 self._wosNum = 'WOS:Missing'
                 bad = True
-                error = BadWOSRecord("Missing WOS number")
+                if error is None:
+                    error = BadWOSRecord("Missing WOS number")
         ExtendedRecord.__init__(self, fieldDict, self._wosNum, bad, error, sFile = sFile, sLine = sLine)
 
     def encoding(self):
diff --git a/metaknowledge/medline/recordMedline.py b/metaknowledge/medline/recordMedline.py
index ca077af..259f88a 100644
--- a/metaknowledge/medline/recordMedline.py
+++ b/metaknowledge/medline/recordMedline.py
@@ -35,8 +35,8 @@ class MedlineRecord(ExtendedRecord):
             else:
                 raise RCTypeError("Unsupported input type '{}', PubmedRecords cannot be created from '{}'".format(inRecord, type(inRecord)))
         except BadPubmedRecord as b:
-            self.bad = True
-            self.error = b
+            bad = True
+            error = b
             fieldDict = collections.OrderedDict()
         if fieldDict is not None:
             if 'PMID' in fieldDict:
@@ -44,7 +44,8 @@ class MedlineRecord(ExtendedRecord):
             else:
                 self._pubNum = None
                 bad = True
-                error = BadPubmedRecord("Missing PMID")
+                if error is None:
+                    error = BadPubmedRecord("Missing PMID")
         ExtendedRecord.__init__(self, fieldDict, self._pubNum, bad, error, sFile = sFile, sLine = sLine)
 
     def encoding(self):
diff --git a/metaknowledge/proquest/recordProQuest.py b/metaknowledge/proquest/recordProQuest.py
index e983fe3..adf31d0 100644
--- a/metaknowledge/proquest/recordProQuest.py
+++ b/metaknowledge/proquest/recordProQuest.py
@@ -36,15 +36,16 @@ class ProQuestRecord(ExtendedRecord):
             else:
                 raise TypeError("Unsupported input type '{}', ProQuestRecords cannot be created from '{}'".format(inRecord, type(inRecord)))
         except BadProQuestRecord as b:
-            self.bad = True
-            self.error = b
+            bad = True
+            error = b
             fieldDict = collections.OrderedDict()
         try:
             self._proID = "PROQUEST:{}".format(fieldDict["ProQuest document ID"][0])
         except KeyError:
             self._proID = "PROQUEST:MISSING"
             bad = True
-            error = BadProQuestRecord("Missing ProQuest document ID")
+            if error is None:
+                error = BadProQuestRecord("Missing ProQuest document ID")
         ExtendedRecord.__init__(self, fieldDict, self._proID, bad, error, sFile =sFile, sLine = sLine)
 
     def encoding(self):
diff --git a/metaknowledge/scopus/recordScopus.py b/metaknowledge/scopus/recordScopus.py
index a349075..23d13db 100644
--- a/metaknowledge/scopus/recordScopus.py
+++ b/metaknowledge/scopus/recordScopus.py
@@ -72,8 +72,8 @@ class ScopusRecord(ExtendedRecord):
             else:
                 raise RCTypeError("Unsupported input type '{}', ScopusRecords cannot be created from '{}'".format(inRecord, type(inRecord)))
         except (BadScopusRecord, IndexError) as b:
-            self.bad = True
-            self.error = b
+            bad = True
+            error = b
             fieldDict = collections.OrderedDict()
         if fieldDict is not None:
             if 'EID' in fieldDict:
@@ -81,7 +81,8 @@ class ScopusRecord(ExtendedRecord):
             else:
                 self._scopusNum = None
                 bad = True
-                error = BadScopusRecord("Missing EID")
+                if error is None:
+                    error = BadScopusRecord("Missing EID")
         ExtendedRecord.__init__(self, fieldDict, self._scopusNum, bad, error, sFile = sFile, sLine = sLine)
 
     def encoding(self):
-- 
2.43.0


From 1c693b965361122fa9c49394e1767a658531671a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:57 +0000
Subject: [PATCH 010/111] fix: a WOS record starting with a continuation line
 is bad instead of silently ending the file

---
 metaknowledge/WOS/recordWOS.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metaknowledge/WOS/recordWOS.py b/metaknowledge/WOS/recordWOS.py
index 0697285..6069687 100644
--- a/metaknowledge/WOS/recordWOS.py
+++ b/metaknowledge/WOS/recordWOS.py
@@ -184,6 +184,8 @@ def recordParser(paper):
             raise BadWOSFile("Field tag not formed correctly on line " + str(l[0]) + " : " + l[1])
         elif '   ' in l[1][:3]: #the string is three spaces in row
             #No new tag append line to current tag (last tag in tagList)
+            if len(tagList) < 1:
+                raise BadWOSRecord("Continuation line before the first tag on line {} : {}".format(l[0], l[1]))
             tagList[-1][1].append(l[1][3:-1])
         else:
             #New tag create new entry at the end of tagList
-- 
2.43.0


From 52bcc6a620b3ec341ec88e9cf60363bf808610cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:19 +0000
Subject: [PATCH 011/111] fix: report a WOS record dropped because of a
 malformed tag line

---
 metaknowledge/WOS/wosHandlers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metaknowledge/WOS/wosHandlers.py b/metaknowledge/WOS/wosHandlers.py
index 69c7da5..71dc024 100644
--- a/metaknowledge/WOS/wosHandlers.py
+++ b/metaknowledge/WOS/wosHandlers.py
@@ -79,6 +79,8 @@ def wosParser(isifile):
                                 s = f.__next__()[1]
                         except:
                             error =  BadWOSFile("The file {} was not terminated corrrectly caused the following error:\n{}".format(isifile, str(e)))
+                        else:
+                            error =  BadWOSFile("The file {} has a record that could not be read, it caused the following error:\n{}".format(isifile, str(e)))
             try:
                 f.__next__()
             except StopIteration:
-- 
2.43.0


From acb6ead94e26a40ab3f7e62cdb50ed002b21ec46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:19 +0000
Subject: [PATCH 012/111] fix: malformed Medline and ProQuest lines mark the
 file bad instead of raising

---
 metaknowledge/medline/recordMedline.py     | 2 +-
 metaknowledge/proquest/proQuestHandlers.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/medline/recordMedline.py b/metaknowledge/medline/recordMedline.py
index 259f88a..dd37be9 100644
--- a/metaknowledge/medline/recordMedline.py
+++ b/metaknowledge/medline/recordMedline.py
@@ -109,7 +109,7 @@ def medlineRecordParser(record):
     for lineNum, line in record:
         tmptag = line[:4].rstrip()
         contents = line[6:-1]
-        if tmptag.isalpha() and line[4] == '-':
+        if tmptag.isalpha() and line[4:5] == '-':
             tag = tmptag
             if tag == 'AU':
                 mostRecentAuthor = contents
diff --git a/metaknowledge/proquest/proQuestHandlers.py b/metaknowledge/proquest/proQuestHandlers.py
index b32a70c..6250845 100644
--- a/metaknowledge/proquest/proQuestHandlers.py
+++ b/metaknowledge/proquest/proQuestHandlers.py
@@ -94,7 +94,7 @@ def proQuestParser(proFile):
                     #Parsing failed
                     error = BadProQuestFile("The file '{}' has parts of it that are unparsable starting at line: {}. It is likely that the seperators between the records are incorrect".format(proFile, lineNum))
                     raise StopIteration
-    except (UnicodeDecodeError, StopIteration, ValueError) as e:
+    except (UnicodeDecodeError, StopIteration, ValueError, KeyError) as e:
         if error is None:
             error = BadProQuestFile("The file '{}' has parts of it that are unparsable starting at line: {}.\nThe error was: '{}'".format(proFile, lineNum, e))
     return recSet, error
-- 
2.43.0


From ca8d45431bc3c585047849c529f4c38b7210ce02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:54 +0000
Subject: [PATCH 013/111] fix: MedlineRecord.writeRecord no longer drops author
 fields read before the first author

---
 metaknowledge/medline/recordMedline.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/metaknowledge/medline/recordMedline.py b/metaknowledge/medline/recordMedline.py
index dd37be9..8723680 100644
--- a/metaknowledge/medline/recordMedline.py
+++ b/metaknowledge/medline/recordMedline.py
@@ -78,15 +78,21 @@ class MedlineRecord(ExtendedRecord):
                         authTags[split[0]].append("{0}{1}- {2}\n".format(tag, ' ' * (4 - len(tag)),' : '.join(split[1:]).replace('\n', '\n      ')))
                     except KeyError:
                         authTags[split[0]] = ["{0}{1}- {2}\n".format(tag, ' ' * (4 - len(tag)),' : '.join(split[1:]).replace('\n', '\n      '))]
+            #The values read before any author are stored under 'None', so they have to go above the first one
+            unboundVals = authTags.pop(str(None), [])
             for tag, value in self._fieldDict.items():
                 if tag in authorBasedTags:
                     continue
                 else:
+                    if tag == 'AU':
+                        f.writelines(unboundVals)
+                        unboundVals = []
                     for v in value:
                         f.write("{0}{1}- {2}\n".format(tag, ' ' * (4 - len(tag)), v.replace('\n', '\n      ')))
                         if tag == 'AU':
                             for authVal in authTags.get(v,[]):
                                 f.write(authVal)
+            f.writelines(unboundVals)
 
 def medlineRecordParser(record):
     """The parser [`MedlineRecord`](../classes/MedlineRecord.html#metaknowledge.medline.MedlineRecord) use. This takes an entry from [medlineParser()](#metaknowledge.medline.medlineHandlers.medlineParser) and parses it a part of the creation of a `MedlineRecord`.
-- 
2.43.0


From cfab1569386df7b29dd8211a821e3cbc75330d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:54 +0000
Subject: [PATCH 014/111] fix: do not cut the last character of a Medline or
 Scopus file without a final newline

---
 metaknowledge/medline/recordMedline.py | 2 ++
 metaknowledge/scopus/recordScopus.py   | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/metaknowledge/medline/recordMedline.py b/metaknowledge/medline/recordMedline.py
index 8723680..2ef9230 100644
--- a/metaknowledge/medline/recordMedline.py
+++ b/metaknowledge/medline/recordMedline.py
@@ -113,6 +113,8 @@ def medlineRecordParser(record):
     tag = 'PMID'
     mostRecentAuthor = None
     for lineNum, line in record:
+        if not line.endswith('\n'):
+            line += '\n' #the last line of a file
         tmptag = line[:4].rstrip()
         contents = line[6:-1]
         if tmptag.isalpha() and line[4:5] == '-':
diff --git a/metaknowledge/scopus/recordScopus.py b/metaknowledge/scopus/recordScopus.py
index 23d13db..c2f92b0 100644
--- a/metaknowledge/scopus/recordScopus.py
+++ b/metaknowledge/scopus/recordScopus.py
@@ -186,7 +186,9 @@ def scopusRecordParser(record, header = None):
     """
     if header is None:
         header = scopusHeader
-    splitRecord = record[:-1].split(',')
+    if record.endswith('\n'):
+        record = record[:-1]
+    splitRecord = record.split(',')
     tagDict = {}
     quoted = False
     for key in reversed(header):
-- 
2.43.0


From 9912103bddd03ba5e187067c7a945791e7da1e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:25 +0000
Subject: [PATCH 015/111] fix: a quoted empty Scopus field is absent, as it was
 before writeFile wrote it

---
 metaknowledge/scopus/recordScopus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/scopus/recordScopus.py b/metaknowledge/scopus/recordScopus.py
index c2f92b0..5502ec7 100644
--- a/metaknowledge/scopus/recordScopus.py
+++ b/metaknowledge/scopus/recordScopus.py
@@ -193,7 +193,7 @@ def scopusRecordParser(record, header = None):
     quoted = False
     for key in reversed(header):
         currentVal = splitRecord.pop()
-        if currentVal == '':
+        if currentVal == '' or currentVal == '""':
             pass
         elif currentVal[-1] == '"':
             if re.match(firstQuotingRegex, currentVal) is None:
-- 
2.43.0


From 8a95f4c82e21d247f8356c62bebb2a1a2b124b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:30 +0000
Subject: [PATCH 016/111] fix: a Scopus line with more fields than its header
 is bad instead of silently misaligned

---
 metaknowledge/scopus/recordScopus.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metaknowledge/scopus/recordScopus.py b/metaknowledge/scopus/recordScopus.py
index 5502ec7..51290fd 100644
--- a/metaknowledge/scopus/recordScopus.py
+++ b/metaknowledge/scopus/recordScopus.py
@@ -221,4 +221,6 @@ def scopusRecordParser(record, header = None):
             tagDict[key] = valString
         else:
             tagDict[key] = currentVal
+    if len(splitRecord) > 0:
+        raise BadScopusRecord("The record has more fields than its header")
     return tagDict
-- 
2.43.0


From fdd52872da3ecd20fcfbeef979990820490a8222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:00 +0000
Subject: [PATCH 017/111] fix: Medline and Scopus tags without a processing
 function give their raw value, as in WOS

---
 metaknowledge/medline/recordMedline.py | 2 +-
 metaknowledge/scopus/recordScopus.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/medline/recordMedline.py b/metaknowledge/medline/recordMedline.py
index 2ef9230..3c86260 100644
--- a/metaknowledge/medline/recordMedline.py
+++ b/metaknowledge/medline/recordMedline.py
@@ -57,7 +57,7 @@ class MedlineRecord(ExtendedRecord):
 
     @staticmethod
     def tagProcessingFunc(tag):
-        return medlineTagToFunc[tag]
+        return medlineTagToFunc.get(tag, lambda x : x)
 
     def specialFuncs(self, key):
         #This will usually raise a key error that needs to be caught higher up
diff --git a/metaknowledge/scopus/recordScopus.py b/metaknowledge/scopus/recordScopus.py
index 51290fd..aef98a4 100644
--- a/metaknowledge/scopus/recordScopus.py
+++ b/metaknowledge/scopus/recordScopus.py
@@ -94,7 +94,7 @@ class ScopusRecord(ExtendedRecord):
 
     @staticmethod
     def tagProcessingFunc(tag):
-        return scopusTagToFunction[tag]
+        return scopusTagToFunction.get(tag, lambda x : x)
 
     def specialFuncs(self, key):
         return scopusSpecialTagToFunc[key](self)
-- 
2.43.0


From c5eadb32646c57a282be8933ef914c444386d2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:53 +0000
Subject: [PATCH 018/111] fix: unweighted citation networks of
 author/journal/year nodes no longer raise, recordToCite=False is honoured
 everywhere

---
 metaknowledge/recordCollection.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index f0fbfa4..968a170 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -1672,8 +1672,10 @@ def addToNetwork(grph, nds, count, weighted, nodeType, nodeInfo, fullInfo, coreC
                             grph.add_edge(hID, nID, weight=1, yearDiff=yearDiff)
                         else:
                             grph.add_edge(nID, hID, weight=1, yearDiff=yearDiff)
-                elif nID not in grph[hID]:
+                elif recordToCite:
                     addedEdges.append((hID, nID))
+                else:
+                    addedEdges.append((nID, hID))
 
             elif weighted:
                 try:
@@ -1685,9 +1687,11 @@ def addToNetwork(grph, nds, count, weighted, nodeType, nodeInfo, fullInfo, coreC
                     if recordToCite:
                         grph.add_edge(hID, nID, weight=1)
                     else:
-                        grph.add_edge(hID, nID, weight=1)
-            elif nID not in grph[hID]:
-                addedEdges.append((hID, nID, {yearDiff: yearDiff}))
+                        grph.add_edge(nID, hID, weight=1)
+            elif recordToCite:
+                addedEdges.append((hID, nID))
+            else:
+                addedEdges.append((nID, hID))
     elif len(idList) > 1:
         for i, outerID in enumerate(idList):
             for innerID in idList[i + 1:]:
-- 
2.43.0


From 07d70c1674ebe523f41b755542cdce1027b2405f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:34 +0000
Subject: [PATCH 019/111] fix: count a citing record's occurrence also when its
 node is already in the citation network

---
 metaknowledge/recordCollection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 968a170..897c37a 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -1630,6 +1630,8 @@ def addToNetwork(grph, nds, count, weighted, nodeType, nodeInfo, fullInfo, coreC
         if hID not in grph:
             nodeName, nodeDat = makeNodeTuple(headNd, hID, nodeInfo, fullInfo, nodeType, count, coreCitesDict, coreValues, detailedValues, addCR)
             grph.add_node(nodeName, **nodeDat)
+        elif count:
+            grph.nodes[hID]['count'] += 1
     else:
         hID = None
     idList = []
-- 
2.43.0


From db5656744f20c0144016118ae30c986bf3e8a328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:45 +0000
Subject: [PATCH 020/111] fix: writeEdgeList without extra info and
 allSameAttribute no longer raise

---
 metaknowledge/graphHelpers.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/metaknowledge/graphHelpers.py b/metaknowledge/graphHelpers.py
index 3e04123..bcc0339 100644
--- a/metaknowledge/graphHelpers.py
+++ b/metaknowledge/graphHelpers.py
@@ -213,7 +213,7 @@ def writeEdgeList(grph, name, extraInfo = True, allSameAttribute = False, _progB
         if extraInfo:
             csvHeader = []
             if allSameAttribute:
-                csvHeader = ['Source'] +  ['Target'] + list(grph.edges(data = True).__next__()[2].keys())
+                csvHeader = ['Source'] +  ['Target'] + list(next(iter(grph.edges(data = True)))[2].keys())
             else:
                 extraAttribs = set()
                 for eTuple in grph.edges(data = True):
@@ -253,8 +253,7 @@ def writeEdgeList(grph, name, extraInfo = True, allSameAttribute = False, _progB
                 count += 1
                 if count % 1000 == 0:
                     PBar.updateVal(count / eMax * .90 + .10, "Writing edge: '{}' to '{}'".format(e[0], e[1]))
-                eDict['Source'] = e[0]
-                eDict['Target'] = e[1]
+                eDict = {'Source' : e[0], 'Target' : e[1]}
                 try:
                     outFile.writerow(eDict)
                 except UnicodeEncodeError:
@@ -305,7 +304,7 @@ def writeNodeAttributeFile(grph, name, allSameAttribute = False, _progBar = None
     else:
         csvHeader = []
         if allSameAttribute:
-            csvHeader = ['ID'] + list(grph.nodes(data = True).__next__()[1].keys())
+            csvHeader = ['ID'] + list(next(iter(grph.nodes(data = True)))[1].keys())
         else:
             extraAttribs = set()
             for n, attribs in grph.nodes(data = True):
-- 
2.43.0


From 71da1c59bd05c68cb056acc473bdc38353d3d22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:00 +0000
Subject: [PATCH 021/111] fix: dropEdges drops the edge whose weight is out of
 bounds, not an arbitrary parallel one

---
 metaknowledge/graphHelpers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metaknowledge/graphHelpers.py b/metaknowledge/graphHelpers.py
index bcc0339..2e15fa7 100644
--- a/metaknowledge/graphHelpers.py
+++ b/metaknowledge/graphHelpers.py
@@ -541,9 +541,9 @@ def dropEdges(grph, minWeight = - float('inf'), maxWeight = float('inf'), parame
                 grph.remove_edge(e[0], e[1])
         edgesToDrop = []
         if minWeight != - float('inf') or maxWeight != float('inf'):
-            for e in grph.edges(data = True):
+            for e in (grph.edges(data = True, keys = True) if grph.is_multigraph() else grph.edges(data = True)):
                 try:
-                    val = e[2][parameterName]
+                    val = e[-1][parameterName]
                 except KeyError:
                     if not ignoreUnweighted:
                         raise KeyError("One or more Edges do not have weight or " + str(parameterName), " is not the name of the weight")
@@ -555,7 +555,7 @@ def dropEdges(grph, minWeight = - float('inf'), maxWeight = float('inf'), parame
                     if count % 100000 == 0:
                         PBar.updateVal(count/ total, str(count) + " edges analysed and " + str(total -len(grph.edges())) + " edges dropped")
                     if val > maxWeight or  val < minWeight:
-                        edgesToDrop.append((e[0], e[1]))
+                        edgesToDrop.append(e[:-1])
         grph.remove_edges_from(edgesToDrop)
         PBar.finish(str(total - len(grph.edges())) + " edges out of " + str(total) + " dropped, " + str(len(grph.edges())) + " returned")
 
-- 
2.43.0


From 3ccdbacdb3355f6cfc95e3499814a88f5f4b290e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:20 +0000
Subject: [PATCH 022/111] fix: csv grant files read to their end are no longer
 reported as having decoding issues

---
 metaknowledge/grants/baseGrant.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/metaknowledge/grants/baseGrant.py b/metaknowledge/grants/baseGrant.py
index c0c443d..c2e8470 100644
--- a/metaknowledge/grants/baseGrant.py
+++ b/metaknowledge/grants/baseGrant.py
@@ -119,13 +119,10 @@ def csvAndLinesReader(enumeratedFile, *csvArgs, **csvKwargs):
     'currentLineString' : '',
     }
     def readerWithSideEffects(target, datDict):
-        while True:
-            datDict['currentLineNum'], datDict['currentLineString'] = next(target)
+        for datDict['currentLineNum'], datDict['currentLineString'] in target:
             yield datDict['currentLineString']
     reader = csv.DictReader(readerWithSideEffects(enumeratedFile, currentData), *csvArgs, **csvKwargs)
-    readerIter = reader.__iter__()
-    while True:
-        row = next(readerIter)
+    for row in reader:
         yield currentData['currentLineNum'], currentData['currentLineString'], row
 
 class FallbackGrant(Grant):
-- 
2.43.0


From de8e5974f2950846daa90f833263f0109bdde3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:21 +0000
Subject: [PATCH 023/111] fix: damaged directory caches are reread and
 GrantCollection caches work at all

---
 metaknowledge/grantCollection.py | 5 +++--
 metaknowledge/mkCollection.py    | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/metaknowledge/grantCollection.py b/metaknowledge/grantCollection.py
index 95ead52..0944a03 100644
--- a/metaknowledge/grantCollection.py
+++ b/metaknowledge/grantCollection.py
@@ -31,6 +31,7 @@ class GrantCollection(CollectionWithIDs):
             errors = {}
             name = name
             grantTypes = set()
+            cacheName = None
 
             if inGrants is None:
                 PBar.updateVal(.5, "Empty GrantCollection created")
@@ -67,7 +68,7 @@ class GrantCollection(CollectionWithIDs):
                     flist = []
                     for f in os.listdir(inGrants):
                         fullF = os.path.join(os.path.abspath(inGrants), f)
-                        if fullF.endswith(extension) and os.path.isfile(fullF):
+                        if fullF.endswith(extension) and not fullF.endswith('mkGrantDirCache') and os.path.isfile(fullF):
                             flist.append(fullF)
                     if cached:
                         cacheName = os.path.join(inGrants, '{}.[{}].mkGrantDirCache'.format(os.path.basename(os.path.abspath(inGrants)), extension))
@@ -132,7 +133,7 @@ class GrantCollection(CollectionWithIDs):
             else:
                 raise GrantCollectionException("A GrantCollection cannot be created from {}".format(inGrants))
             CollectionWithIDs.__init__(self, grantsSet, Grant, grantTypes, name, bad, errors, quietStart = quietStart)
-            if cached:
+            if cached and cacheName is not None:
                 PBar.updateVal(1, "Writing GrantCollection cache to {}".format(cacheName))
                 self._createCache(cacheName, flist, name, extension)
             try:
diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index 680b4a4..f941fa9 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -372,7 +372,7 @@ class Collection(collections.abc.MutableSet, collections.abc.Hashable):
             with open(cacheFile, 'rb') as f:
                 try:
                     dat, RC = pickle.load(f)
-                except pickle.PickleError as e:
+                except Exception as e: #A damaged pickle can raise nearly anything
                     raise cacheError("pickle Error: {}".format(e))
             if dat["metaknowledge Version"] != __version__:
                 raise cacheError("mk version mismatch")
-- 
2.43.0


From 34e808e1aa9cff732321f60d9a38cf02ed6d5f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:11 +0000
Subject: [PATCH 024/111] fix: co-author and co-investigator counts and
 citation profiles count every occurrence once

---
 metaknowledge/grantCollection.py  | 34 ++++++++-----------------------
 metaknowledge/recordCollection.py | 16 +++------------
 2 files changed, 12 insertions(+), 38 deletions(-)

diff --git a/metaknowledge/grantCollection.py b/metaknowledge/grantCollection.py
index 0944a03..8d99981 100644
--- a/metaknowledge/grantCollection.py
+++ b/metaknowledge/grantCollection.py
@@ -193,31 +193,7 @@ class GrantCollection(CollectionWithIDs):
                     investList = G.getInstitutions(tags = targetTags, seperator = tagSeperator, _getTag = True)
                 else:
                     investList = G.getInvestigators(tags = targetTags, seperator = tagSeperator, _getTag = True)
-                if len(investList) > 1:
-                    for i, invest1 in enumerate(investList):
-                        if invest1[0] not in grph:
-                            if count:
-                                grph.add_node(invest1[0], count = 1, field = invest1[1])
-                            else:
-                                grph.add_node(invest1[0], field = invest1[1])
-                        elif count:
-                            grph.nodes[invest1[0]]['count'] += 1
-                        for invest2 in investList[i + 1:]:
-                            if invest2[0] not in grph:
-                                if count:
-                                    grph.add_node(invest2[0], count = 1, field = invest2[1])
-                                else:
-                                    grph.add_node(invest2[0], field = invest2[1])
-                            elif count:
-                                grph.nodes[invest2[0]]['count'] += 1
-                            if grph.has_edge(invest1[0], invest2[0]) and weighted:
-                                grph.edges[invest1[0], invest2[0]]['weight'] += 1
-                            elif weighted:
-                                grph.add_edge(invest1[0], invest2[0], weight = 1)
-                            else:
-                                grph.add_edge(invest1[0], invest2[0])
-                elif len(investList) > 0:
-                    invest1 = investList[0]
+                for invest1 in investList:
                     if invest1[0] not in grph:
                         if count:
                             grph.add_node(invest1[0], count = 1, field = invest1[1])
@@ -225,6 +201,14 @@ class GrantCollection(CollectionWithIDs):
                             grph.add_node(invest1[0], field = invest1[1])
                     elif count:
                         grph.nodes[invest1[0]]['count'] += 1
+                for i, invest1 in enumerate(investList):
+                    for invest2 in investList[i + 1:]:
+                        if grph.has_edge(invest1[0], invest2[0]) and weighted:
+                            grph.edges[invest1[0], invest2[0]]['weight'] += 1
+                        elif weighted:
+                            grph.add_edge(invest1[0], invest2[0], weight = 1)
+                        else:
+                            grph.add_edge(invest1[0], invest2[0])
             if _institutionLevel:
                 PBar.finish("Done making a co-institution network from {}".format(self))
             else:
diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 897c37a..3a04c12 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -1026,12 +1026,11 @@ class RecordCollection(CollectionWithIDs):
                     authsList = R.get('authorsFull', [])
                 if authsList:
                     authsList = list(authsList)
-                    detailedInfo = attributeMaker(R)
                     if citeProfile:
                         citesLst = R.get('citations', [])
-                    for i, auth1 in enumerate(authsList):
+                    for auth1 in authsList:
                         if auth1 not in grph:
-                            grph.add_node(auth1, **detailedInfo.copy())
+                            grph.add_node(auth1, **attributeMaker(R))
                         elif count:
                             grph.nodes[auth1]['count'] += 1
                         if citeProfile:
@@ -1040,17 +1039,8 @@ class RecordCollection(CollectionWithIDs):
                                     grph.nodes[auth1]['citeProfile'][c] += 1
                                 except KeyError:
                                     grph.nodes[auth1]['citeProfile'][c] = 1
+                    for i, auth1 in enumerate(authsList):
                         for auth2 in authsList[i + 1:]:
-                            if auth2 not in grph:
-                                grph.add_node(auth2, **detailedInfo.copy())
-                            elif count:
-                                grph.nodes[auth2]['count'] += 1
-                            if citeProfile:
-                                for c in citesLst:
-                                    try:
-                                        grph.nodes[auth2]['citeProfile'][c] += 1
-                                    except KeyError:
-                                        grph.nodes[auth2]['citeProfile'][c] = 1
                             if grph.has_edge(auth1, auth2) and weighted:
                                 grph.edges[auth1, auth2]['weight'] += 1
                             elif weighted:
-- 
2.43.0


From a852d89d04bf2f644bdd74da32b7d7f94993fe1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:59 +0000
Subject: [PATCH 025/111] fix: weights of labelled diffusionGraph edges,
 diffusionCount compares like with like, diffusionAddCountsFromSource leaves
 the given counts intact

---
 metaknowledge/diffusion.py | 24 +++++++-----------------
 1 file changed, 7 insertions(+), 17 deletions(-)

diff --git a/metaknowledge/diffusion.py b/metaknowledge/diffusion.py
index b9ce40a..677640a 100644
--- a/metaknowledge/diffusion.py
+++ b/metaknowledge/diffusion.py
@@ -114,13 +114,9 @@ def diffusionGraph(source, target, weighted = True, sourceType = "raw", targetTy
                                     for edgeVal in (str(ev) for ev in edgeVals):
                                         if weighted:
                                             if workingGraph.has_edge(sVal, val, key = edgeVal):
-                                                for i, a in workingGraph[sVal][val].items():
-                                                    if a['key'] == edgeVal:
-                                                        workingGraph[sVal][val][i]['weight'] += 1
-                                                        break
+                                                workingGraph.edges[sVal, val, edgeVal]['weight'] += 1
                                             else:
-                                                attrDict = {'key' : edgeVal, 'weight' : 1}
-                                                workingGraph.add_edge(sVal, val, attr_dict = attrDict)
+                                                workingGraph.add_edge(sVal, val, key = edgeVal, weight = 1)
                                         else:
                                             if not workingGraph.has_edge(sVal, val, key = edgeVal):
                                                 workingGraph.add_edge(sVal, val, key = edgeVal)
@@ -270,7 +266,7 @@ def diffusionCount(source, target, sourceType = "raw", extraValue = None, pandas
                 else:
                     sourceCounts[RsourceVals] += 1
     if compareCounts:
-        localCounts = diffusionCount(source, source, sourceType = sourceType, pandasFriendly = False,  compareCounts = False, extraValue = extraValue, _ProgBar = PBar)
+        localCounts = diffusionCount(source, source, sourceType = sourceType, pandasFriendly = False,  compareCounts = False, extraValue = extraValue, useAllAuthors = useAllAuthors, _ProgBar = PBar, extraMapping = extraMapping)
     if PBar and not _ProgBar:
         PBar.finish("Done counting the diffusion of {} sources into {} targets".format(len(source), len(target)))
     if pandasFriendly:
@@ -295,7 +291,7 @@ def diffusionCount(source, target, sourceType = "raw", extraValue = None, pandas
                     for extraVal, occCount in occ.items():
                         retDict[extraValue].append(extraVal)
                         if numAuthors:
-                            retDict["numAuthors"].append(len(R.get('authorsShort')))
+                            retDict["numAuthors"].append(len(R.get('authorsShort', [])))
                         for tag in retrievedFields:
                             retDict[tag].append(Rvals[tag])
                         retDict[targetCountString].append(occCount)
@@ -307,7 +303,7 @@ def diffusionCount(source, target, sourceType = "raw", extraValue = None, pandas
                 else:
                     Rvals = R.subDict(retrievedFields)
                     if numAuthors:
-                        retDict["numAuthors"].append(len(R.get('authorsShort')))
+                        retDict["numAuthors"].append(len(R.get('authorsShort', [])))
                     for tag in retrievedFields:
                         retDict[tag].append(Rvals[tag])
                     retDict[targetCountString].append(occ)
@@ -327,7 +323,7 @@ def diffusionCount(source, target, sourceType = "raw", extraValue = None, pandas
                         extraValueLst.append(extraVal)
                         if compareCounts:
                             try:
-                                locLst.append(localCounts[R][extraValue])
+                                locLst.append(localCounts[R][extraVal])
                             except KeyError:
                                 locLst.append(0)
                 else:
@@ -408,13 +404,7 @@ def diffusionAddCountsFromSource(grph, source, target, nodeType = 'citations', e
         try:
             if not isinstance(countsDict.keys().__iter__().__next__(), str):
                 PBar.updateVal(.5, "Prepping the counts")
-                newCountsDict = {}
-                while True:
-                    try:
-                        k, v = countsDict.popitem()
-                    except KeyError:
-                        break
-                    newCountsDict[str(k)] = v
+                newCountsDict = {str(k) : v for k, v in countsDict.items()}
                 countsDict = newCountsDict
         except StopIteration:
             pass
-- 
2.43.0


From bbe2bd49575d6bc25eb7ecdc05e66a2e3caeefaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:30 +0000
Subject: [PATCH 026/111] fix: Scopus citations that could not be parsed no
 longer raise AttributeError in networks, statistics and Extra()

---
 metaknowledge/citation.py         | 2 +-
 metaknowledge/recordCollection.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/metaknowledge/citation.py b/metaknowledge/citation.py
index 13557e8..90e3fde 100644
--- a/metaknowledge/citation.py
+++ b/metaknowledge/citation.py
@@ -253,7 +253,7 @@ class Citation(collections.abc.Hashable):
         extraTags = ['V', 'P', 'DOI', 'misc']
         retVal = ""
         for tag in extraTags:
-            if getattr(self, tag):
+            if getattr(self, tag, None):
                 retVal += getattr(self, tag) + ', '
         if len(retVal) > 2:
             return retVal[:-2]
diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 3a04c12..4a7ef8c 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -1424,13 +1424,13 @@ class RecordCollection(CollectionWithIDs):
                 rCites = R.get('citations')
                 if PBar:
                     count += 1
-                    PBar.updateVal(count / recCount, "Analysing: {}".format(R.UT))
+                    PBar.updateVal(count / recCount, "Analysing: {}".format(R.id))
                 if rCites:
                     for c in rCites:
                         if keyType == keyTypesLst[0]:
                             cVal = c
                         else:
-                            cVal = getattr(c, keyType)
+                            cVal = getattr(c, keyType, None)
                             if cVal is None:
                                 continue
                         if cVal in citesDict:
@@ -1762,7 +1762,7 @@ def makeNodeTuple(citation, idVal, nodeInfo, fullInfo, nodeType, count, coreCite
 def filterCites(cites, nodeType, dropAnon, dropNonJournals, keyWords, coreCites):
     filteredCites = []
     for c in cites:
-        if nodeType != "full" and hasattr(c, nodeType) and not getattr(c, nodeType):
+        if nodeType != "full" and not getattr(c, nodeType, None):
             pass
         elif dropNonJournals and not c.isJournal():
             pass
-- 
2.43.0


From 27753f314839ff3e8b7774748ca9314b4c6a2da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:54 +0000
Subject: [PATCH 027/111] fix: localCitesOf accepts Records and citation
 strings, as documented

---
 metaknowledge/recordCollection.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 4a7ef8c..fa31599 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -1467,19 +1467,12 @@ class RecordCollection(CollectionWithIDs):
         localCites = []
         if isinstance(rec, Record):
             recCite = rec.createCitation()
-        if isinstance(rec, str):
-            try:
-                recCite = self.getID(rec)
-            except ValueError:
-                try:
-                    recCite = Citation(rec)
-                except AttributeError:
-                    raise ValueError("{} is not a valid WOS string or a valid citation string".format(recCite))
+        elif isinstance(rec, str):
+            recCite = self.getID(rec)
+            if recCite is None:
+                recCite = Citation(rec)
             else:
-                if recCite is None:
-                    return RecordCollection(inCollection = localCites, name = "Records_citing_{}".format(rec), quietStart = True)
-                else:
-                    recCite = recCite.createCitation()
+                recCite = recCite.createCitation()
         elif isinstance(rec, Citation):
             recCite = rec
         else:
-- 
2.43.0


From 4e108220db5db06c364c76656687aa367d869988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:16 +0000
Subject: [PATCH 028/111] fix: separate the author from the title in the
 citations of a multi author Scopus record

---
 metaknowledge/scopus/recordScopus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/scopus/recordScopus.py b/metaknowledge/scopus/recordScopus.py
index aef98a4..40bcdb0 100644
--- a/metaknowledge/scopus/recordScopus.py
+++ b/metaknowledge/scopus/recordScopus.py
@@ -143,7 +143,7 @@ class ScopusRecord(ExtendedRecord):
         if self.get("beginningPage", False):
             valsStr += 'PP. ' + str(self.get('beginningPage'))
         if multiCite and len(auths) > 0:
-            ret = (tuple((Citation(a + valsStr, scopusMode = True) for a in auths)))
+            ret = (tuple((Citation(a + ', ' + valsStr, scopusMode = True) for a in auths)))
         elif multiCite:
             ret = Citation(valsStr, scopusMode = True),
         else:
-- 
2.43.0


From 97b1cd2bc664634612ad3d561eba1a0aa5ae6b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:40 +0000
Subject: [PATCH 029/111] fix: ProQuest authors are lists of names and years
 are integers, as for the other record types

---
 metaknowledge/proquest/tagProcessing/specialFunctions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metaknowledge/proquest/tagProcessing/specialFunctions.py b/metaknowledge/proquest/tagProcessing/specialFunctions.py
index b694d22..d3342b7 100644
--- a/metaknowledge/proquest/tagProcessing/specialFunctions.py
+++ b/metaknowledge/proquest/tagProcessing/specialFunctions.py
@@ -1,6 +1,6 @@
 proQuestSpecialTagToFunc = {
     #'DOI' : lambda R : None,
-    'authorsShort' : lambda R : R['Author'],
+    'authorsShort' : lambda R : [R['Author']],
     #'grants' : lambda R : [],
     #'address' : '',
     'selfCitation' : lambda R: R.createCitation(),
@@ -8,9 +8,9 @@ proQuestSpecialTagToFunc = {
     'keywords' : lambda R : R['Identifier / keyword'],
     'abstract' : lambda R : R['Abstract'],
     #'citations' : '',
-    'authorsFull' : lambda R : 'Author',
+    'authorsFull' : lambda R : [R['Author']],
     #'volume' : '',
-    'year' : lambda R : R['Degree date'],
+    'year' : lambda R : int(R['Degree date']),
     #'j9' : '',
     #'journal' : '',
     'title' : lambda R : R['Title'],
-- 
2.43.0


From 4091297cb90a23c7620164e0159e8501412e21ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:05 +0000
Subject: [PATCH 030/111] fix: rankedSeries orders its pandas output least to
 greatest when asked to

---
 metaknowledge/mkCollection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index f941fa9..55bba64 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -659,6 +659,8 @@ class CollectionWithIDs(Collection):
                         retList.append((valString, currentRank))
             if not greatestFirst:
                 retList.reverse()
+                for column in panDict.values():
+                    column.reverse()
             if pandasMode:
                 return panDict
             else:
-- 
2.43.0


From bc30b1ec37d545771fa68f9abee1416789078ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:29 +0000
Subject: [PATCH 031/111] fix: do not pickle a Citation's cached hash, it is
 wrong in another process

---
 metaknowledge/citation.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/metaknowledge/citation.py b/metaknowledge/citation.py
index 90e3fde..bb7e409 100644
--- a/metaknowledge/citation.py
+++ b/metaknowledge/citation.py
@@ -190,6 +190,12 @@ class Citation(collections.abc.Hashable):
         return hash(self) == hash(other)
 
 
+    def __getstate__(self):
+        #String hashes differ between processes so the cached one cannot be pickled
+        d = self.__dict__.copy()
+        d.pop('_hash', None)
+        return d
+
     def isAnonymous(self):
         """
         Checks if the author is given as `'[ANONYMOUS]'` and returns `True` if so.
-- 
2.43.0


From eae9bab82dd424fbb5c4c41a2c39ead33961ba00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:51 +0000
Subject: [PATCH 032/111] fix: do not change the lists of tags given as
 arguments

---
 metaknowledge/grants/nsercGrant.py | 4 ++++
 metaknowledge/grants/nsfGrant.py   | 4 ++--
 metaknowledge/recordCollection.py  | 4 ++++
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/grants/nsercGrant.py b/metaknowledge/grants/nsercGrant.py
index 75ff383..849f34a 100644
--- a/metaknowledge/grants/nsercGrant.py
+++ b/metaknowledge/grants/nsercGrant.py
@@ -38,6 +38,8 @@ class NSERCGrant(Grant):
             tags = []
         elif isinstance(tags, str):
             tags = [tags]
+        else:
+            tags = list(tags)
         for k in self.keys():
             if 'name-' in k.lower() and k not in tags:
                 tags.append(k)
@@ -56,6 +58,8 @@ class NSERCGrant(Grant):
             tags = []
         elif isinstance(tags, str):
             tags = [tags]
+        else:
+            tags = list(tags)
         for k in self.keys():
             if 'institution' in k.lower() and k not in tags:
                 tags.append(k)
diff --git a/metaknowledge/grants/nsfGrant.py b/metaknowledge/grants/nsfGrant.py
index 0a4953e..fcd1399 100644
--- a/metaknowledge/grants/nsfGrant.py
+++ b/metaknowledge/grants/nsfGrant.py
@@ -33,7 +33,7 @@ class NSFGrant(Grant):
         elif isinstance(tags, str):
             tags = ['Investigator', tags]
         else:
-            tags.append('Investigator')
+            tags = list(tags) + ['Investigator']
         return super().getInvestigators(tags = tags, seperator = seperator, _getTag = _getTag)
 
     def getInstitutions(self, tags = None, seperator = ";", _getTag = False):
@@ -50,7 +50,7 @@ class NSFGrant(Grant):
         elif isinstance(tags, str):
             tags = ['Institution', tags]
         else:
-            tags.append('Institution')
+            tags = list(tags) + ['Institution']
         return super().getInvestigators(tags = tags, seperator = seperator, _getTag = _getTag)
 
 def isNSFfile(fileName, useFileName = True):
diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index fa31599..1c9d358 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -296,10 +296,12 @@ class RecordCollection(CollectionWithIDs):
         """
         if firstTags is None:
             firstTags = ['id', 'title', 'authorsFull', 'citations', 'keywords', 'DOI']
+        firstTags = list(firstTags)
         for i in range(len(firstTags)):
             if firstTags[i] in fullToTagDict:
                 firstTags[i] = fullToTagDict[firstTags[i]]
         if onlyTheseTags:
+            onlyTheseTags = list(onlyTheseTags)
             for i in range(len(onlyTheseTags)):
                 if onlyTheseTags[i] in fullToTagDict:
                     onlyTheseTags[i] = fullToTagDict[onlyTheseTags[i]]
@@ -656,6 +658,7 @@ class RecordCollection(CollectionWithIDs):
         if extraColumns is None:
             extraColumns = []
         else:
+            extraColumns = list(extraColumns)
             for builtinColumn in ['id', 'year', 'title', 'keywords', 'abstract']:
                 if builtinColumn in extraColumns:
                     extraColumns.remove(builtinColumn)
@@ -724,6 +727,7 @@ class RecordCollection(CollectionWithIDs):
         > Default `True`, if `True` adds the number of authors as the column `'numAuthors'`.
         """
         if onlyTheseTags:
+            onlyTheseTags = list(onlyTheseTags)
             for i in range(len(onlyTheseTags)):
                 if onlyTheseTags[i] in fullToTagDict:
                     onlyTheseTags[i] = fullToTagDict[onlyTheseTags[i]]
-- 
2.43.0


From de5882bb66f49f66ef8afbba811b43791d3efd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:25 +0000
Subject: [PATCH 033/111] fix: writeBib skips bad records instead of raising on
 the first one

---
 metaknowledge/recordCollection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 1c9d358..3592d85 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -416,7 +416,7 @@ class RecordCollection(CollectionWithIDs):
             try:
                 f.write('\n\n')
                 f.write(R.bibString(maxLength =  maxStringLength, WOSMode = wosMode, restrictedOutput = reducedOutput, niceID = niceIDs))
-            except BadWOSRecord:
+            except BadRecord:
                 pass
             except AttributeError:
                 raise RecordsNotCompatible("The Record '{}', with ID '{}' does not support writing to bibtext files.".format(R, R.id))
-- 
2.43.0


From 6414d0cfcf06928cda4a1c56431709150cdbe6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:49 +0000
Subject: [PATCH 034/111] fix: rpys no longer raises when there are no
 citations or some have implausible years

---
 metaknowledge/recordCollection.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 3592d85..22e60e5 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -837,13 +837,9 @@ class RecordCollection(CollectionWithIDs):
                     yearCounts[cYear] = 1
 
         if minYear is None:
-            smallest = min(yearCounts.keys())
-            if smallest > 1000:
-                minYear = smallest
+            minYear = min((y for y in yearCounts.keys() if y > 1000), default = 0)
         if maxYear is None:
-            biggest = max(yearCounts.keys())
-            if biggest < 2100:
-                maxYear = biggest
+            maxYear = max((y for y in yearCounts.keys() if y < 2100), default = minYear - 1)
 
         targetYears = set(( i for i in range(minYear, maxYear + 1) if i not in dropYears))
 
-- 
2.43.0


From 5c34328182205f37b68c697fd21bc5ad03c0987c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:12 +0000
Subject: [PATCH 035/111] fix: forNLP finds the abstract of every record type,
 adjacent repeats of a dropped word are all dropped

---
 metaknowledge/recordCollection.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 22e60e5..e282d9c 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -499,7 +499,7 @@ class RecordCollection(CollectionWithIDs):
             if dropList is not None:
                 inString = " {} ".format(inString)
                 for dropS in (" {} ".format(s) for s in dropList):
-                    if dropS in inString:
+                    while dropS in inString:
                         inString = inString.replace(dropS, ' ')
                 inString = inString[1:-1]
             if removeWhitespace:
@@ -622,7 +622,7 @@ class RecordCollection(CollectionWithIDs):
                 #incase a drop string is on the edge
                 abst = " {} ".format(abst.replace('\n', ' '))
                 for dropS in (" {} ".format(s) for s in dropList):
-                    if dropS in abst:
+                    while dropS in abst:
                         abst = abst.replace(dropS, ' ')
                 abst = abst[1:-1]
             if removeWhitespace:
@@ -668,7 +668,7 @@ class RecordCollection(CollectionWithIDs):
             for R in self:
                 pcount += 1
                 PBar.updateVal(pcount/ pmax, "Analyzing: {}".format(R))
-                abstract, copyrightString = abPrep(R.get('AB', ''))
+                abstract, copyrightString = abPrep(R.get('abstract', ''))
 
                 retDict['id'].append(R.id)
                 retDict['year'].append(R.get('year', ''))
-- 
2.43.0


From ca67b1602d3929c21b2091e119fdb4c7dfce56b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:54 +0000
Subject: [PATCH 036/111] fix: IDs of csv grants are the same in every process

---
 metaknowledge/grants/baseGrant.py  | 7 ++++++-
 metaknowledge/grants/cihrGrant.py  | 4 ++--
 metaknowledge/grants/nsercGrant.py | 4 ++--
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/metaknowledge/grants/baseGrant.py b/metaknowledge/grants/baseGrant.py
index c2e8470..da037c2 100644
--- a/metaknowledge/grants/baseGrant.py
+++ b/metaknowledge/grants/baseGrant.py
@@ -4,6 +4,7 @@ except ImportError:
     import collections
     collections.abc = collections
 import csv
+import hashlib
 import os
 
 from ..mkRecord import Record
@@ -113,6 +114,10 @@ class Grant(Record, collections.abc.MutableMapping):
                 self.bad = True
             self._fieldDict.update(other._fieldDict)
 
+def stableHash(s):
+    """`hash()` of a string is different in every process, IDs need to stay the same"""
+    return int.from_bytes(hashlib.md5(s.encode('utf-8', 'backslashreplace')).digest()[:8], 'big')
+
 def csvAndLinesReader(enumeratedFile, *csvArgs, **csvKwargs):
     currentData = {
     'currentLineNum' : -1,
@@ -133,7 +138,7 @@ class FallbackGrant(Grant):
     def __init__(self, original, grantdDict, sFile = "", sLine = 0):
         #We do not known anything about the structure of the grant so there is nothing to check about causing an error
         #The id needs to be unique so hashing the original will always give us that
-        idValue = "{}-l:{}-{:0=20}".format(os.path.basename(sFile), sLine, hash(original))
+        idValue = "{}-l:{}-{:0=20}".format(os.path.basename(sFile), sLine, stableHash(original))
         Grant.__init__(self, original, grantdDict, idValue, False, None, sFile = sFile, sLine = sLine)
 
 def isFallbackGrantFile(fileName, useFileName = True, encoding = 'latin-1', dialect = 'excel'):
diff --git a/metaknowledge/grants/cihrGrant.py b/metaknowledge/grants/cihrGrant.py
index 7ff9f09..a77c799 100644
--- a/metaknowledge/grants/cihrGrant.py
+++ b/metaknowledge/grants/cihrGrant.py
@@ -1,7 +1,7 @@
 import os.path
 import csv
 
-from .baseGrant import Grant, csvAndLinesReader
+from .baseGrant import Grant, csvAndLinesReader, stableHash
 from ..mkExceptions import BadGrant
 
 class CIHRGrant(Grant):
@@ -13,7 +13,7 @@ class CIHRGrant(Grant):
             error = BadGrant("Missing 'PI Names'")
 
         #Source file - line number - 6 character long numeric hash
-        idValue = "{}-l:{}-{:0=20}".format(os.path.basename(sFile), sLine, hash(original))
+        idValue = "{}-l:{}-{:0=20}".format(os.path.basename(sFile), sLine, stableHash(original))
 
         Grant.__init__(self, original, grantdDict, idValue, bad, error, sFile = sFile, sLine = sLine)
 
diff --git a/metaknowledge/grants/nsercGrant.py b/metaknowledge/grants/nsercGrant.py
index 849f34a..0b17976 100644
--- a/metaknowledge/grants/nsercGrant.py
+++ b/metaknowledge/grants/nsercGrant.py
@@ -1,7 +1,7 @@
 import csv
 import os.path
 
-from .baseGrant import Grant, csvAndLinesReader
+from .baseGrant import Grant, csvAndLinesReader, stableHash
 from ..mkExceptions import BadGrant
 
 class NSERCGrant(Grant):
@@ -11,7 +11,7 @@ class NSERCGrant(Grant):
         if grantdDict.get('Cle', '') == '':
             bad = True
             error = BadGrant("Missing 'CLE'")
-            idValue = "NSERC:{}".format(hash(original))
+            idValue = "NSERC:{}".format(stableHash(original))
         else:
             idValue = "NSERC:{}".format(grantdDict.get('Cle', ''))
         Grant.__init__(self, original, grantdDict, idValue, bad, error, sFile = sFile, sLine = sLine)
-- 
2.43.0


From ee1106254f48674939661a63fc9ae77c76b5a7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:52 +0000
Subject: [PATCH 037/111] fix: a Scopus file with the standard columns in
 another order is read by its own header

---
 metaknowledge/scopus/scopusHandlers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/scopus/scopusHandlers.py b/metaknowledge/scopus/scopusHandlers.py
index 6cc1077..d778c7b 100644
--- a/metaknowledge/scopus/scopusHandlers.py
+++ b/metaknowledge/scopus/scopusHandlers.py
@@ -69,7 +69,7 @@ def scopusParser(scopusFile):
             #Get rid of the BOM
             openfile.read(1)
             header = openfile.readline()[:-1].split(',')
-            if len(set(header) ^ set(scopusHeader)) == 0:
+            if header == scopusHeader:
                 header = None
             lineNum = 0
             try:
-- 
2.43.0


From 79d3a81bd758a3d78ff91b13d3bfce6fb971d1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:58 +0000
Subject: [PATCH 038/111] fix: quoted Scopus fields starting with a dollar
 sign, bar or comma no longer make their record bad

---
 metaknowledge/scopus/recordScopus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/scopus/recordScopus.py b/metaknowledge/scopus/recordScopus.py
index 40bcdb0..2862a38 100644
--- a/metaknowledge/scopus/recordScopus.py
+++ b/metaknowledge/scopus/recordScopus.py
@@ -165,7 +165,7 @@ class ScopusRecord(ExtendedRecord):
             return ret
 
 firstQuotingRegex = re.compile(r'("")*"([^"]|"$)')
-innerQuotingRegex = re.compile(r'("")*"([^"|$])')
+innerQuotingRegex = re.compile(r'("")*"([^"]|$)')
 
 def scopusRecordParser(record, header = None):
     """The parser [ScopusRecords](../classes/ScopusRecord.html#metaknowledge.scopus.ScopusRecord) use. This takes a line from [scopusParser()](#metaknowledge.scopus.scopusHandlers.scopusParser) and parses it as a part of the creation of a `ScopusRecord`.
-- 
2.43.0


From 97a80391934714437ab9c790fe3af20e71973769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:57 +0000
Subject: [PATCH 039/111] fix: citeFilter looks at all citations of a record,
 not only those before the first without the searched field

---
 metaknowledge/recordCollection.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index e282d9c..82979d8 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -1545,7 +1545,7 @@ class RecordCollection(CollectionWithIDs):
                             if keyString.upper() in cite.journal:
                                 retRecs.append(R)
                                 break
-                        except AttributeError:
+                        except (AttributeError, TypeError):
                             pass
                 elif field == 'year':
                     for cite in R.get('citations'):
@@ -1561,7 +1561,7 @@ class RecordCollection(CollectionWithIDs):
                             if keyString.upper() in cite.V:
                                 retRecs.append(R)
                                 break
-                        except AttributeError:
+                        except (AttributeError, TypeError):
                             pass
                 elif field == 'P':
                     for cite in R.get('citations'):
@@ -1569,7 +1569,7 @@ class RecordCollection(CollectionWithIDs):
                             if keyString.upper() in cite.P:
                                 retRecs.append(R)
                                 break
-                        except AttributeError:
+                        except (AttributeError, TypeError):
                             pass
                 elif field == 'misc':
                     for cite in R.get('citations'):
@@ -1577,7 +1577,7 @@ class RecordCollection(CollectionWithIDs):
                             if keyString.upper() in cite.misc:
                                 retRecs.append(R)
                                 break
-                        except AttributeError:
+                        except (AttributeError, TypeError):
                             pass
                 elif field == 'anonymous':
                     for cite in R.get('citations'):
-- 
2.43.0


From bf917b6bd4eae08c6b97921e6e2f15bd6d3e0bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:57 +0000
Subject: [PATCH 040/111] fix: Citation.addToDB keeps the loaded journal names
 in the form they are loaded in

---
 metaknowledge/citation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metaknowledge/citation.py b/metaknowledge/citation.py
index bb7e409..7c4350c 100644
--- a/metaknowledge/citation.py
+++ b/metaknowledge/citation.py
@@ -365,7 +365,8 @@ class Citation(collections.abc.Hashable):
         except KeyError:
             raise KeyError("This citation does not have a journal field.")
         else:
-            abbrevDict.update(d)
+            if abbrevDict is not None:
+                abbrevDict.update({k : v.split('|') for k, v in d.items()})
 
 def filterNonJournals(citesLst, invert = False):
     """Removes the `Citations` from _citesLst_ that are not journals
-- 
2.43.0


From 9663ea43d6b7d72393a95ed7e003086e9f3e70c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:57 +0000
Subject: [PATCH 041/111] fix: nameStringGender raises its exception instead of
 returning it

---
 metaknowledge/genders/nameGender.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/genders/nameGender.py b/metaknowledge/genders/nameGender.py
index 2bc9dac..db0fdf7 100644
--- a/metaknowledge/genders/nameGender.py
+++ b/metaknowledge/genders/nameGender.py
@@ -60,7 +60,7 @@ def nameStringGender(s, noExcept = False):
         if noExcept:
             return 'Unknown'
         else:
-            return GenderException("The given String: '{}' does not have a  last name, first name pair in with a ', ' seperation.".format(s))
+            raise GenderException("The given String: '{}' does not have a  last name, first name pair in with a ', ' seperation.".format(s))
     if mappingDict is None:
         mappingDict = getMapping()
     return mappingDict.get(first, 'Unknown')
-- 
2.43.0


From 9c356e4c9e95560d84d30314c862f89607352665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:39 +0000
Subject: [PATCH 042/111] fix: two Medline records run together are bad instead
 of silently merged

---
 metaknowledge/medline/recordMedline.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metaknowledge/medline/recordMedline.py b/metaknowledge/medline/recordMedline.py
index 3c86260..a2f8ec8 100644
--- a/metaknowledge/medline/recordMedline.py
+++ b/metaknowledge/medline/recordMedline.py
@@ -119,6 +119,8 @@ def medlineRecordParser(record):
         contents = line[6:-1]
         if tmptag.isalpha() and line[4:5] == '-':
             tag = tmptag
+            if tag == 'PMID' and tag in tagDict:
+                raise BadPubmedRecord("Second PMID in one record on line {}: '{}'".format(lineNum, line))
             if tag == 'AU':
                 mostRecentAuthor = contents
             if tag in authorBasedTags:
-- 
2.43.0


From 5a5d32cd520fe773b635517850a2c184f448c123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:15 +0000
Subject: [PATCH 043/111] fix: expanding core records connects all their
 authors and does not change the graph it iterates over

---
 metaknowledge/recordCollection.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 82979d8..d7a3783 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -1800,7 +1800,9 @@ def expandRecs(G, RecCollect, nodeType, weighted):
                                 G.edges[citeID1, citeID2]['weight'] += 1
                             except KeyError:
                                 G.add_edge(citeID1, citeID2, weight = 1)
-                        for e1, e2, data in G.edges(citeID1, data = True):
+                        elif not G.has_edge(citeID1, citeID2):
+                            G.add_edge(citeID1, citeID2)
+                        for e1, e2, data in list(G.edges(citeID1, data = True)):
                             G.add_edge(citeID2, e2, **data)
 
 
-- 
2.43.0


From b2a8c71b787c92f0fe5cf35b2b72fbeaf9e408e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:05 +0000
Subject: [PATCH 044/111] fix: getCitations drops the citations missing the
 given field, as documented

---
 metaknowledge/mkRecord.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/metaknowledge/mkRecord.py b/metaknowledge/mkRecord.py
index 5a2b314..7bc69a3 100644
--- a/metaknowledge/mkRecord.py
+++ b/metaknowledge/mkRecord.py
@@ -576,12 +576,10 @@ class ExtendedRecord(Record, metaclass = abc.ABCMeta):
                 values = [values]
         if field is not None:
             for cite in self.get('citations', []):
-                try:
-                    targetVal = getattr(cite, field)
-                    if values is None or targetVal in values:
-                        retCites.append(cite)
-                except AttributeError:
-                    pass
+                #fields that were not found are either None or not set at all
+                targetVal = getattr(cite, field, None)
+                if targetVal is not None and (values is None or targetVal in values):
+                    retCites.append(cite)
         else:
             retCites = self.get('citations', [])
         if pandasFriendly:
-- 
2.43.0


From a799ecb3f49f0a8de8f7b823931b4a8eafc8ef77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:23 +0000
Subject: [PATCH 045/111] fix: merging graphs keeps the target's attributes
 where a count or weight is missing

---
 metaknowledge/graphHelpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/graphHelpers.py b/metaknowledge/graphHelpers.py
index 2e15fa7..b5b9ba2 100644
--- a/metaknowledge/graphHelpers.py
+++ b/metaknowledge/graphHelpers.py
@@ -716,7 +716,7 @@ def mergeGraphs(targetGraph, addedGraph, incrementedNodeVal = 'count', increment
             try:
                 targetGraph.nodes[addedNode][incrementedNodeVal] += attribs[incrementedNodeVal]
             except KeyError:
-                targetGraph.add_node(addedNode, **attribs)
+                targetGraph.add_node(addedNode, **dict(attribs, **targetGraph.nodes.get(addedNode, {})))
         else:
             if not targetGraph.has_node(addedNode):
                 targetGraph.add_node(addedNode, **attribs)
@@ -725,7 +725,7 @@ def mergeGraphs(targetGraph, addedGraph, incrementedNodeVal = 'count', increment
             try:
                 targetGraph.edges[edgeNode1, edgeNode2][incrementedEdgeVal] += attribs[incrementedEdgeVal]
             except KeyError:
-                targetGraph.add_edge(edgeNode1, edgeNode2, **attribs)
+                targetGraph.add_edge(edgeNode1, edgeNode2, **dict(attribs, **targetGraph.get_edge_data(edgeNode1, edgeNode2, {})))
         else:
             if not targetGraph.has_edge(edgeNode1, edgeNode2):
                 targetGraph.add_edge(edgeNode1, edgeNode2, **attribs)
-- 
2.43.0


From b28382b95c600525520b2d1b2e09e826d7255399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:00 +0000
Subject: [PATCH 046/111] fix: dropping nodes by degree counts all edges
 touching a node of a directed graph

---
 metaknowledge/graphHelpers.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/graphHelpers.py b/metaknowledge/graphHelpers.py
index b5b9ba2..b284e82 100644
--- a/metaknowledge/graphHelpers.py
+++ b/metaknowledge/graphHelpers.py
@@ -607,8 +607,11 @@ def dropNodesByDegree(grph, minDegree = -float('inf'), maxDegree = float('inf'),
                 if count % 10000 == 0:
                     PBar.updateVal(count/ total, str(count) + " nodes analysed and " + str(len(badNodes)) + " nodes dropped")
             val = 0
+            nodeEdges = list(grph.edges(n, data = True))
+            if grph.is_directed():
+                nodeEdges += [e for e in grph.in_edges(n, data = True) if e[0] != n]
             if useWeight:
-                for e in grph.edges(n, data = True):
+                for e in nodeEdges:
                     try:
                         val += e[2][parameterName]
                     except KeyError:
@@ -617,7 +620,7 @@ def dropNodesByDegree(grph, minDegree = -float('inf'), maxDegree = float('inf'),
                         else:
                             val += 1
             else:
-                val = len(grph.edges(n))
+                val = len(nodeEdges)
             if val < minDegree or val > maxDegree:
                 badNodes.append(n)
         if PBar:
-- 
2.43.0


From 8851b137d2951a622de2188b581f02cc22e6b494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:40 +0000
Subject: [PATCH 047/111] fix: a diffusion table whose extra value is a field
 of the records has one column for it

---
 metaknowledge/diffusion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/diffusion.py b/metaknowledge/diffusion.py
index 677640a..fc9a7a8 100644
--- a/metaknowledge/diffusion.py
+++ b/metaknowledge/diffusion.py
@@ -281,7 +281,7 @@ def diffusionCount(source, target, sourceType = "raw", extraValue = None, pandas
             retrievedFields = []
             targetCount = []
             for R in sourceCounts.keys():
-                tagsLst = [t for t in R.keys() if t not in retrievedFields]
+                tagsLst = [t for t in R.keys() if t not in retrievedFields and t != extraValue]
                 retrievedFields += tagsLst
             for tag in retrievedFields:
                 retDict[tag] = []
-- 
2.43.0


From d413544e3529457dd60abcdbe1b62afe4b8202bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:23 +0000
Subject: [PATCH 048/111] fix: tables with long names keep the names common to
 all records, like the default first column

---
 metaknowledge/recordCollection.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index d7a3783..f01ca1f 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -10,7 +10,7 @@ except ImportError:
     collections.abc = collections
 import networkx as nx
 
-from .constants import __version__
+from .constants import __version__, commonRecordFields
 from .mkRecord import Record, _pandasPrep
 from .progressBar import _ProgressBar
 from .WOS.tagProcessing.funcDicts import tagToFullDict, fullToTagDict, normalizeToTag
@@ -313,7 +313,7 @@ class RecordCollection(CollectionWithIDs):
                 retrievedFields += tagsLst
         if longNames:
             try:
-                retrievedFields = [tagToFullDict[t] for t in retrievedFields]
+                retrievedFields = [t if t in commonRecordFields else tagToFullDict[t] for t in retrievedFields]
             except KeyError:
                 raise KeyError("One of the tags could not be converted to a long name.")
         if fname:
@@ -739,7 +739,7 @@ class RecordCollection(CollectionWithIDs):
                 retrievedFields += tagsLst
         if longNames:
             try:
-                retrievedFields = [tagToFullDict[t] for t in retrievedFields]
+                retrievedFields = [t if t in commonRecordFields else tagToFullDict[t] for t in retrievedFields]
             except KeyError:
                 raise KeyError("One of the tags could not be converted to a long name.")
         retDict = {k : [] for k in retrievedFields}
-- 
2.43.0


From 61bcbda34307f972b7272545b2d7fccc93b715ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:23 +0000
Subject: [PATCH 049/111] fix: splitting a csv file by a field writes each
 record once per value and takes citations as values

---
 metaknowledge/recordCollection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index f01ca1f..49a7c9b 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -340,7 +340,8 @@ class RecordCollection(CollectionWithIDs):
                     continue
                 else:
                     if not isinstance(splitVal, list):
-                        splitVal = [str(splitVal)]
+                        splitVal = [splitVal]
+                    splitVal = list(collections.OrderedDict.fromkeys(str(v) for v in splitVal))
             recDict = {}
             for t in retrievedFields:
                 value = R.get(t)
-- 
2.43.0


From 0a34649900f0ca4dec1a57c659369cbc6e751280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:20 +0000
Subject: [PATCH 050/111] fix: dropping records by publication type copes with
 records that have none

---
 metaknowledge/recordCollection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 49a7c9b..d9aeb27 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -211,9 +211,9 @@ class RecordCollection(CollectionWithIDs):
         if dropBad:
             self.dropBadEntries()
         if invert:
-            self._collection = {r for r in self._collection if r['pubType'] != ptVal.upper()}
+            self._collection = {r for r in self._collection if r.get('pubType') != ptVal.upper()}
         else:
-            self._collection = {r for r in self._collection if r['pubType'] == ptVal.upper()}
+            self._collection = {r for r in self._collection if r.get('pubType') == ptVal.upper()}
 
     def writeFile(self, fname = None):
         """Writes the `RecordCollection` to a file, the written file's format is identical to those download from WOS. The order of `Records` written is random.
-- 
2.43.0


From b7d7dcb07b3de86b1afe82e93a0a2becc55fcc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:20 +0000
Subject: [PATCH 051/111] fix: filtering by the year of citations takes a blank
 key, matching all that have a year

---
 metaknowledge/recordCollection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index d9aeb27..b3caa24 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -1551,7 +1551,7 @@ class RecordCollection(CollectionWithIDs):
                 elif field == 'year':
                     for cite in R.get('citations'):
                         try:
-                            if int(keyString) == cite.year:
+                            if cite.year is not None if keyString == '' else int(keyString) == cite.year:
                                 retRecs.append(R)
                                 break
                         except AttributeError:
-- 
2.43.0


From 5acf9ab858829b409fb9a72c5f058599e4ef275b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:14 +0000
Subject: [PATCH 052/111] fix: what a citation has beyond its known parts is
 kept whole, not just its first character

---
 metaknowledge/citation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/citation.py b/metaknowledge/citation.py
index 7c4350c..bf44a0e 100644
--- a/metaknowledge/citation.py
+++ b/metaknowledge/citation.py
@@ -58,7 +58,7 @@ class Citation(collections.abc.Hashable):
 
     > A str containing a WOS style citation.
     """
-    wosCiteRegex = re.compile(r"([^0-9,][^,]+)?(, )?(-?[0-9]{1,5})?(, )?([^,]+)?(, (V[^,]+))?(, (P[^,]+))?($|, DOI (.+)|((.+?)(, DOI (.+))?))")
+    wosCiteRegex = re.compile(r"([^0-9,][^,]+)?(, )?(-?[0-9]{1,5})?(, )?([^,]+)?(, (V[^,]+))?(, (P[^,]+))?($|, DOI (.+)|((.+?)(, DOI (.+))?$))", re.DOTALL)
 
     scopusCiteRegex = re.compile(r"([\w\- ]+,? [\w\.\-]+\.), (([\w\- ]+,? [\w\-\.]+\., )+)?([^(]+? )?\((\d{2,5})\) ([^,]+)(, ([\w-]+)( \(([\w-]*)\))?)?(, P?P\. ([\w-]*))?(.*)")
 
@@ -119,7 +119,7 @@ class Citation(collections.abc.Hashable):
             self.P = regex.group(9)
             self.DOI = regex.group(11)
             if regex.group(12) is not None:
-                self.misc = regex.group(12)
+                self.misc = regex.group(13)[2:] if regex.group(13).startswith(', ') else regex.group(13)
                 self.DOI = regex.group(15)
                 self.bad = True
                 self.error = BadCitation("The citation did not fully match the expected pattern")
-- 
2.43.0


From d40cbe3350ad15a46dd54ec4aad09a6a69f665d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:54 +0000
Subject: [PATCH 053/111] fix: the words for burst analysis do not include
 empty ones

---
 metaknowledge/recordCollection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index b3caa24..4c5529a 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -508,7 +508,7 @@ class RecordCollection(CollectionWithIDs):
             if lower:
                 inString = inString.lower()
             inString = re.sub(otherDropsRegex, otherRepl, inString, count = 0)
-            sTokens = inString.split(' ')
+            sTokens = [t for t in inString.split(' ') if t != '']
             if stemmer is not None:
                 retTokens = []
                 for token in sTokens:
-- 
2.43.0


From 0a66f9a3e5dce3701dffc60d1e0a4c43513fc531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:01 +0000
Subject: [PATCH 054/111] fix: a column asked for twice in a text table is
 filled once per record

---
 metaknowledge/recordCollection.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 4c5529a..9453a92 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -659,10 +659,7 @@ class RecordCollection(CollectionWithIDs):
         if extraColumns is None:
             extraColumns = []
         else:
-            extraColumns = list(extraColumns)
-            for builtinColumn in ['id', 'year', 'title', 'keywords', 'abstract']:
-                if builtinColumn in extraColumns:
-                    extraColumns.remove(builtinColumn)
+            extraColumns = [c for c in collections.OrderedDict.fromkeys(extraColumns) if c not in retDict]
         for column in extraColumns:
             retDict[column] = []
         with _ProgressBar(*progArgs, **progKwargs) as PBar:
-- 
2.43.0


From 20798b06f6b000393c2898de20bb072572beb8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:35 +0000
Subject: [PATCH 055/111] fix: the rows of rpys come in the order of the years

---
 metaknowledge/recordCollection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 9453a92..a32b010 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -839,7 +839,7 @@ class RecordCollection(CollectionWithIDs):
         if maxYear is None:
             maxYear = max((y for y in yearCounts.keys() if y < 2100), default = minYear - 1)
 
-        targetYears = set(( i for i in range(minYear, maxYear + 1) if i not in dropYears))
+        targetYears = [i for i in range(minYear, maxYear + 1) if i not in dropYears]
 
         ranks = {}
         yearDeviances = {}
-- 
2.43.0


From 68892569e4031a3b28da3cc40e6ca9f37177bfa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:35 +0000
Subject: [PATCH 056/111] fix: rpys takes a single year to drop, as documented

---
 metaknowledge/recordCollection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index a32b010..ab55485 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -807,6 +807,8 @@ class RecordCollection(CollectionWithIDs):
 
         if dropYears is None:
             dropYears = set()
+        elif isinstance(dropYears, int):
+            dropYears = {dropYears}
         yearCounts = {}
         retDict = {'year' : [], 'count' : [], 'abs-deviation' : [], 'rank' : []}
 
-- 
2.43.0


From 67c18fe809fa1573d3f1c46519d220ab537a35ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:35 +0000
Subject: [PATCH 057/111] fix: rpys without any plausible year counted is
 empty, whatever the upper bound

---
 metaknowledge/recordCollection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index ab55485..ca72314 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -837,7 +837,7 @@ class RecordCollection(CollectionWithIDs):
                     yearCounts[cYear] = 1
 
         if minYear is None:
-            minYear = min((y for y in yearCounts.keys() if y > 1000), default = 0)
+            minYear = min((y for y in yearCounts.keys() if y > 1000), default = 2100 if maxYear is None else maxYear + 1)
         if maxYear is None:
             maxYear = max((y for y in yearCounts.keys() if y < 2100), default = minYear - 1)
 
-- 
2.43.0


From 0e2176c03537717ebb7725c95072ecf71d5baef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:18 +0000
Subject: [PATCH 058/111] fix: a grant field without a value names no
 investigators instead of raising

---
 metaknowledge/grants/baseGrant.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/grants/baseGrant.py b/metaknowledge/grants/baseGrant.py
index da037c2..c31000d 100644
--- a/metaknowledge/grants/baseGrant.py
+++ b/metaknowledge/grants/baseGrant.py
@@ -67,7 +67,7 @@ class Grant(Record, collections.abc.MutableMapping):
                 except KeyError:
                     pass
                 except AttributeError:
-                    tval = [auth.split(seperator)[0] for auth in self[tag]]
+                    tval = [auth.split(seperator)[0] for auth in self[tag] or []]
                     if _getTag:
                         investVal += [(t.strip(), tag) for t in tval]
                     else:
-- 
2.43.0


From 8c5605e653294739f7b1b6fa89d5c31fd0210245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:21 +0000
Subject: [PATCH 059/111] fix: grants whose identifying field has no value are
 bad and stay apart

---
 metaknowledge/grants/cihrGrant.py  | 2 +-
 metaknowledge/grants/nsercGrant.py | 6 +++---
 metaknowledge/grants/nsfGrant.py   | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/metaknowledge/grants/cihrGrant.py b/metaknowledge/grants/cihrGrant.py
index a77c799..8f1dfe8 100644
--- a/metaknowledge/grants/cihrGrant.py
+++ b/metaknowledge/grants/cihrGrant.py
@@ -8,7 +8,7 @@ class CIHRGrant(Grant):
     def __init__(self, original, grantdDict, sFile, sLine):
         bad = False
         error = None
-        if grantdDict.get('PI Names', '') == '':
+        if not grantdDict.get('PI Names'):
             bad = True
             error = BadGrant("Missing 'PI Names'")
 
diff --git a/metaknowledge/grants/nsercGrant.py b/metaknowledge/grants/nsercGrant.py
index 0b17976..de81088 100644
--- a/metaknowledge/grants/nsercGrant.py
+++ b/metaknowledge/grants/nsercGrant.py
@@ -8,7 +8,7 @@ class NSERCGrant(Grant):
     def __init__(self, original, grantdDict, sFile, sLine):
         bad = False
         error = None
-        if grantdDict.get('Cle', '') == '':
+        if not grantdDict.get('Cle'):
             bad = True
             error = BadGrant("Missing 'CLE'")
             idValue = "NSERC:{}".format(stableHash(original))
@@ -18,9 +18,9 @@ class NSERCGrant(Grant):
 
     def update(self, other):
         for field, value in other._fieldDict.items():
-            if value == '':
+            if not value:
                 continue
-            elif self._fieldDict.get(field, '') == '':
+            elif not self._fieldDict.get(field):
                 self._fieldDict[field] = value
             else:
                 self._fieldDict[field] += "; {}".format(value)
diff --git a/metaknowledge/grants/nsfGrant.py b/metaknowledge/grants/nsfGrant.py
index fcd1399..6744ffd 100644
--- a/metaknowledge/grants/nsfGrant.py
+++ b/metaknowledge/grants/nsfGrant.py
@@ -11,7 +11,7 @@ class NSFGrant(Grant):
         bad = False
         error = None
         originalName = os.path.basename(sFile)
-        if grantdDict.get('AwardID', '') == '':
+        if not grantdDict.get('AwardID'):
             bad = True
             error = BadGrant("Missing 'AwardID'")
             idValue = "NSF:{}".format(originalName)
-- 
2.43.0


From a0746716ccf28dd0d29ede89c669dbaa117e426b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:30 +0000
Subject: [PATCH 060/111] fix: grant files the csv reader refuses are reported
 as bad input

---
 metaknowledge/grants/cihrGrant.py  | 2 +-
 metaknowledge/grants/nsercGrant.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/grants/cihrGrant.py b/metaknowledge/grants/cihrGrant.py
index 8f1dfe8..0bc45a7 100644
--- a/metaknowledge/grants/cihrGrant.py
+++ b/metaknowledge/grants/cihrGrant.py
@@ -32,7 +32,7 @@ def isCIHRfile(fileName, useFileName = True):
             for row in reader:
                 if 'PI Names' not in row:
                     return False
-    except (StopIteration, UnicodeDecodeError):
+    except (StopIteration, UnicodeDecodeError, csv.Error):
         return False
     else:
         return True
diff --git a/metaknowledge/grants/nsercGrant.py b/metaknowledge/grants/nsercGrant.py
index de81088..2a48303 100644
--- a/metaknowledge/grants/nsercGrant.py
+++ b/metaknowledge/grants/nsercGrant.py
@@ -78,7 +78,7 @@ def isNSERCfile(fileName, useFileName = True):
                     return False
             if length < 1:
                 return False
-    except (StopIteration, UnicodeDecodeError, KeyError):
+    except (StopIteration, UnicodeDecodeError, KeyError, csv.Error):
         return False
     else:
         return True
-- 
2.43.0


From dc0027c58c85dd0036595dff2fed7964e0b03190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:55 +0000
Subject: [PATCH 061/111] fix: xml files in unknown encodings are reported as
 bad input

---
 metaknowledge/grants/nsfGrant.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/grants/nsfGrant.py b/metaknowledge/grants/nsfGrant.py
index 6744ffd..f186d57 100644
--- a/metaknowledge/grants/nsfGrant.py
+++ b/metaknowledge/grants/nsfGrant.py
@@ -63,7 +63,7 @@ def isNSFfile(fileName, useFileName = True):
             return False
         else:
             return True
-    except (ET.ParseError, UnicodeError):
+    except (ET.ParseError, ValueError, LookupError):
         return False
 
 def parserNSFfile(fileName):
-- 
2.43.0


From 134af70f01467cc72da89c5c8e81a696f0ac7f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:45 +0000
Subject: [PATCH 062/111] fix: gender fractions of records without authors are
 zero instead of raising

---
 metaknowledge/mkRecord.py         | 2 +-
 metaknowledge/recordCollection.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/mkRecord.py b/metaknowledge/mkRecord.py
index 7bc69a3..fa6daca 100644
--- a/metaknowledge/mkRecord.py
+++ b/metaknowledge/mkRecord.py
@@ -682,7 +682,7 @@ class ExtendedRecord(Record, metaclass = abc.ABCMeta):
             for k in ('Male','Female','Unknown'):
                 countsList.append(rawList.count(k))
             if fractionsMode:
-                tot = sum(countsList)
+                tot = sum(countsList) or 1
                 for i in range(3):
                     countsList.append(countsList.pop(0) / tot)
             if _countsTuple:
diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index ca72314..3f27533 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -896,7 +896,7 @@ class RecordCollection(CollectionWithIDs):
             femaleCount += f
             unknownCount += u
         if asFractions:
-            tot = maleCount + femaleCount + unknownCount
+            tot = maleCount + femaleCount + unknownCount or 1
             return {'Male' : maleCount / tot, 'Female' : femaleCount / tot, 'Unknown' : unknownCount / tot}
         return {'Male' : maleCount, 'Female' : femaleCount, 'Unknown' : unknownCount}
 
-- 
2.43.0


From ca975f146c052f6a60a43c9bff7c697dedf9eaf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:25 +0000
Subject: [PATCH 063/111] fix: further https links of a ProQuest field are
 lines of that field

---
 metaknowledge/proquest/recordProQuest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/proquest/recordProQuest.py b/metaknowledge/proquest/recordProQuest.py
index adf31d0..823bc89 100644
--- a/metaknowledge/proquest/recordProQuest.py
+++ b/metaknowledge/proquest/recordProQuest.py
@@ -98,7 +98,7 @@ def proQuestRecordParser(enRecordFile, recNum):
         elif currentEntry is 'Name' or currentEntry is 'url':
             tagDict[currentEntry] = [line.rstrip()]
             currentEntry = None
-        elif ':' in line and not line.startswith('http://'):
+        elif ':' in line and not line.startswith(('http://', 'https://')):
             splitLine = line.split(': ')
             currentEntry = splitLine[0]
             tagDict[currentEntry] = [': '.join(splitLine[1:]).rstrip()]
-- 
2.43.0


From ee939212f4b01ae2fbfe726f6057b43feb39accc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:06 +0000
Subject: [PATCH 064/111] fix: end the progress bars of writeEdgeList,
 writeNodeAttributeFile and diffusionCount when nothing is written or they
 fail

---
 metaknowledge/diffusion.py    | 20 ++++++++-----------
 metaknowledge/graphHelpers.py | 36 ++++++++++++++++-------------------
 2 files changed, 24 insertions(+), 32 deletions(-)

diff --git a/metaknowledge/diffusion.py b/metaknowledge/diffusion.py
index fc9a7a8..9d2aaec 100644
--- a/metaknowledge/diffusion.py
+++ b/metaknowledge/diffusion.py
@@ -187,16 +187,14 @@ def diffusionCount(source, target, sourceType = "raw", extraValue = None, pandas
         raise RuntimeError("{} is not a valid extraValue, only tags are allowed".format(extraValue))
     if extraMapping is None:
         extraMapping = lambda x : x
-    if metaknowledge.VERBOSE_MODE or _ProgBar:
-        if _ProgBar:
-            PBar = _ProgBar
-            PBar.updateVal(0, "Starting to analyse a diffusion network")
-        else:
-            PBar = _ProgressBar(0, "Starting to analyse a diffusion network")
-        count = 0
-        maxCount = len(source)
-    else:
-        PBar = _ProgressBar("Starting to analyse a diffusion network", dummy = True)
+    if _ProgBar is None:
+        #The bar made here has to be ended here, even if the counting fails
+        with _ProgressBar(0, "Starting to analyse a diffusion network", dummy = not metaknowledge.VERBOSE_MODE) as PBar:
+            counts = diffusionCount(source, target, sourceType = sourceType, extraValue = extraValue, pandasFriendly = pandasFriendly, compareCounts = compareCounts, numAuthors = numAuthors, useAllAuthors = useAllAuthors, _ProgBar = PBar, extraMapping = extraMapping)
+            PBar.finish("Done counting the diffusion of {} sources into {} targets".format(len(source), len(target)))
+        return counts
+    PBar = _ProgBar
+    PBar.updateVal(0, "Starting to analyse a diffusion network")
     count = 0
     maxCount = len(source)
     sourceDict = {}
@@ -267,8 +265,6 @@ def diffusionCount(source, target, sourceType = "raw", extraValue = None, pandas
                     sourceCounts[RsourceVals] += 1
     if compareCounts:
         localCounts = diffusionCount(source, source, sourceType = sourceType, pandasFriendly = False,  compareCounts = False, extraValue = extraValue, useAllAuthors = useAllAuthors, _ProgBar = PBar, extraMapping = extraMapping)
-    if PBar and not _ProgBar:
-        PBar.finish("Done counting the diffusion of {} sources into {} targets".format(len(source), len(target)))
     if pandasFriendly:
         retDict = {targetCountString : []}
         if numAuthors:
diff --git a/metaknowledge/graphHelpers.py b/metaknowledge/graphHelpers.py
index b284e82..c9dd5e6 100644
--- a/metaknowledge/graphHelpers.py
+++ b/metaknowledge/graphHelpers.py
@@ -194,16 +194,16 @@ def writeEdgeList(grph, name, extraInfo = True, allSameAttribute = False, _progB
 
     > Default `False`, if `True` all the edges must have the same attributes or an exception will be raised. If `False` the missing attributes will be left blank.
     """
+    if not isinstance(_progBar, _ProgressBar):
+        #The bar made here has to be ended here, even if the writing fails
+        with _ProgressBar(0, "Writing edge list {}".format(name), dummy = not metaknowledge.VERBOSE_MODE) as PBar:
+            writeEdgeList(grph, name, extraInfo = extraInfo, allSameAttribute = allSameAttribute, _progBar = PBar)
+            PBar.finish("Done edge list {}, {} edges written.".format(name, grph.number_of_edges()))
+        return
     count = 0
     eMax = len(grph.edges())
-    if metaknowledge.VERBOSE_MODE or isinstance(_progBar, _ProgressBar):
-        if isinstance(_progBar, _ProgressBar):
-            PBar = _progBar
-            PBar.updateVal(0, "Writing edge list {}".format(name))
-        else:
-            PBar = _ProgressBar(0, "Writing edge list {}".format(name))
-    else:
-        PBar = _ProgressBar(0, "Writing edge list {}".format(name), dummy = True)
+    PBar = _progBar
+    PBar.updateVal(0, "Writing edge list {}".format(name))
     if len(grph.edges(data = True)) < 1:
         outFile = open(os.path.expanduser(os.path.abspath(name)), 'w')
         outFile.write('"Source","Target"\n')
@@ -262,8 +262,6 @@ def writeEdgeList(grph, name, extraInfo = True, allSameAttribute = False, _progB
                     outFile.writerow(newDict)
         PBar.updateVal(1, "Closing {}".format(name))
         f.close()
-        if not isinstance(_progBar, _ProgressBar):
-            PBar.finish("Done edge list {}, {} edges written.".format(name, count))
 
 def writeNodeAttributeFile(grph, name, allSameAttribute = False, _progBar = None):
     """Writes a node attribute list of _grph_ to the file given by the path _name_.
@@ -286,16 +284,16 @@ def writeNodeAttributeFile(grph, name, allSameAttribute = False, _progBar = None
 
     > Default `False`, if `True` all the nodes must have the same attributes or an exception will be raised. If `False` the missing attributes will be left blank.
     """
+    if not isinstance(_progBar, _ProgressBar):
+        #The bar made here has to be ended here, even if the writing fails
+        with _ProgressBar(0, "Writing node list {}".format(name), dummy = not metaknowledge.VERBOSE_MODE) as PBar:
+            writeNodeAttributeFile(grph, name, allSameAttribute = allSameAttribute, _progBar = PBar)
+            PBar.finish("Done node attribute list: {}, {} nodes written.".format(name, len(grph)))
+        return
     count = 0
     nMax = len(grph.nodes())
-    if metaknowledge.VERBOSE_MODE or isinstance(_progBar, _ProgressBar):
-        if isinstance(_progBar, _ProgressBar):
-            PBar = _progBar
-            PBar.updateVal(0, "Writing node list {}".format(name))
-        else:
-            PBar = _ProgressBar(0, "Writing node list {}".format(name))
-    else:
-        PBar = _ProgressBar(0, "Writing node list {}".format(name), dummy = True)
+    PBar = _progBar
+    PBar.updateVal(0, "Writing node list {}".format(name))
     if len(grph.nodes(data = True)) < 1:
         outFile = open(os.path.expanduser(os.path.abspath(name)), 'w')
         outFile.write('ID\n')
@@ -337,8 +335,6 @@ def writeNodeAttributeFile(grph, name, allSameAttribute = False, _progBar = None
                 raise ValueError("Some nodes in the graph do not have the same attributes")
         PBar.updateVal(1, "Closing {}".format(name))
         f.close()
-        if not isinstance(_progBar, _ProgressBar):
-            PBar.finish("Done node attribute list: {}, {} nodes written.".format(name, count))
 
 def writeTnetFile(grph, name, modeNameString, weighted = False, sourceMode = None, timeString = None, nodeIndexString = 'tnet-ID', weightString = 'weight'):
     """Writes an edge list designed for reading by the _R_ package [tnet](https://toreopsahl.com/tnet/).
-- 
2.43.0


From ec7dc3f8901a12d401848fbb88c6f0f1e1f62978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:43 +0000
Subject: [PATCH 065/111] fix: the command line asks again after its python
 console is left

---
 metaknowledge/bin/metaknowledgeCLI.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/metaknowledge/bin/metaknowledgeCLI.py b/metaknowledge/bin/metaknowledgeCLI.py
index b0eaa29..ba552c4 100644
--- a/metaknowledge/bin/metaknowledgeCLI.py
+++ b/metaknowledge/bin/metaknowledgeCLI.py
@@ -62,6 +62,7 @@ def inputMenu(inputDict, header = None, footer = None, errorMsg = 'That is not a
             else:
                 bannerMsg += '.'
         code.interact(local = globals(), banner = bannerMsg)
+        return inputMenu(inputDict, header = header, footer = footer, errorMsg = errorMsg, promptMsg = promptMsg)
     else:
         print('\033[93m\a' + errorMsg + '\033[0m') #Not windows compatible
         return inputMenu(inputDict, header = header, footer = footer, errorMsg = errorMsg, promptMsg = promptMsg)
-- 
2.43.0


From a66b325a1e6338a56592c94e6efec857658ab34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:43 +0000
Subject: [PATCH 066/111] fix: the command line refuses empty names of output
 files of every type

---
 metaknowledge/bin/metaknowledgeCLI.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/bin/metaknowledgeCLI.py b/metaknowledge/bin/metaknowledgeCLI.py
index ba552c4..1e26c4d 100644
--- a/metaknowledge/bin/metaknowledgeCLI.py
+++ b/metaknowledge/bin/metaknowledgeCLI.py
@@ -70,11 +70,12 @@ def inputMenu(inputDict, header = None, footer = None, errorMsg = 'That is not a
 def getOutputName(clargs, suffix, prompt = "What do you wish to call the output file? ", errorMsg = 'That is not a valid file name.', checking = True):
     if clargs.name:
         return clargs.name + suffix
-    s  = input(prompt) + suffix
+    s = input(prompt)
     if len(s) == 0:
         print(errorMsg)
-        return getOutputName(clargs, suffix, prompt = prompt, errorMsg = errorMsg)
+        return getOutputName(clargs, suffix, prompt = prompt, errorMsg = errorMsg, checking = checking)
     else:
+        s += suffix
         if os.path.lexists(s) and checking:
             overWrite = yesorNo("{} already exists overwrite (y/n)? ".format(s))
             if overWrite:
-- 
2.43.0


From 0cc74d8a6b53e5ff345a7d2397d4becfd2315ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:43 +0000
Subject: [PATCH 067/111] fix: journals skipped at the command line go to the
 chosen database

---
 metaknowledge/bin/metaknowledgeCLI.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/bin/metaknowledgeCLI.py b/metaknowledge/bin/metaknowledgeCLI.py
index 1e26c4d..205164b 100644
--- a/metaknowledge/bin/metaknowledgeCLI.py
+++ b/metaknowledge/bin/metaknowledgeCLI.py
@@ -202,7 +202,7 @@ def getWhatToDo(clargs, inRC):
                             c.addToDB(manualDB= dbName)
                             print("{} added as a journal abbrviation.".format(c.journal))
                         else:
-                            c.addToDB(invert = True)
+                            c.addToDB(manualDB = dbName, invert = True)
                             print("{} will now be skipped".format(c.journal))
         except KeyboardInterrupt:
             print('\nExiting manual citation clasification', end = '')
-- 
2.43.0


From 0f1927a2c27e2e59b0e310b97441ca63d8fc3a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:57 +0000
Subject: [PATCH 068/111] fix: going over citations at the command line passes
 those without a journal

---
 metaknowledge/bin/metaknowledgeCLI.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/bin/metaknowledgeCLI.py b/metaknowledge/bin/metaknowledgeCLI.py
index 205164b..02ca8cf 100644
--- a/metaknowledge/bin/metaknowledgeCLI.py
+++ b/metaknowledge/bin/metaknowledgeCLI.py
@@ -190,7 +190,7 @@ def getWhatToDo(clargs, inRC):
         try:
             for R in inRC:
                 for c in R.get('citations', []):
-                    if not hasattr(c, 'journal'):
+                    if getattr(c, 'journal', None) is None:
                         print("{} does not have a journal field".format(c))
                     elif c.isJournal(manualDB= dbName, returnDict ='both'):
                         print("the journal field of {} is in the database".format(c.journal))
-- 
2.43.0


From 43bdc8bca28df76868728c56b38735550a311e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:55 +0000
Subject: [PATCH 069/111] fix: errors of the disk while reading a Web of
 Science file are raised instead of losing its other records

---
 metaknowledge/WOS/wosHandlers.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/metaknowledge/WOS/wosHandlers.py b/metaknowledge/WOS/wosHandlers.py
index 71dc024..7655205 100644
--- a/metaknowledge/WOS/wosHandlers.py
+++ b/metaknowledge/WOS/wosHandlers.py
@@ -77,7 +77,7 @@ def wosParser(isifile):
                             s = f.__next__()[1]
                             while s[:2] != 'ER':
                                 s = f.__next__()[1]
-                        except:
+                        except (StopIteration, UnicodeDecodeError):
                             error =  BadWOSFile("The file {} was not terminated corrrectly caused the following error:\n{}".format(isifile, str(e)))
                         else:
                             error =  BadWOSFile("The file {} has a record that could not be read, it caused the following error:\n{}".format(isifile, str(e)))
@@ -90,14 +90,9 @@ def wosParser(isifile):
     except UnicodeDecodeError:
         try:
             error =  BadWOSFile("'{}' has a unicode issue on line: {}.".format(isifile, f.__next__()[0]))
-        except:
+        except Exception:
             #Fallback needed incase f.__next__() causes issues
             error =  BadWOSFile("'{}' has a unicode issue. Probably when being opened or possibly on the first line".format(isifile))
     except StopIteration:
         error =  BadWOSFile("The file '{}' ends before EF was found".format(isifile))
-    except KeyboardInterrupt as e:
-        error = e
-    finally:
-        if isinstance(error, KeyboardInterrupt):
-            raise error
-        return plst, error
+    return plst, error
-- 
2.43.0


From 9943b54d550dd5ab23a904e320aef98475294394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:55 +0000
Subject: [PATCH 070/111] fix: reading grant files does not swallow a request
 to exit

---
 metaknowledge/grants/baseGrant.py  | 7 +------
 metaknowledge/grants/cihrGrant.py  | 7 +------
 metaknowledge/grants/nsercGrant.py | 7 +------
 3 files changed, 3 insertions(+), 18 deletions(-)

diff --git a/metaknowledge/grants/baseGrant.py b/metaknowledge/grants/baseGrant.py
index c31000d..e06bf3f 100644
--- a/metaknowledge/grants/baseGrant.py
+++ b/metaknowledge/grants/baseGrant.py
@@ -186,9 +186,4 @@ def parserFallbackGrantFile(fileName, encoding = 'latin-1', dialect = 'excel'):
     except Exception:
         if error is None:
             error = BadGrant("The file '{}' is having decoding issues. It may have been modifed since it was downloaded or not be a CIHR grant file.".format(fileName))
-    except KeyboardInterrupt as e:
-        error = e
-    finally:
-        if isinstance(error, KeyboardInterrupt):
-            raise error
-        return grantSet, error
+    return grantSet, error
diff --git a/metaknowledge/grants/cihrGrant.py b/metaknowledge/grants/cihrGrant.py
index 0bc45a7..ed27925 100644
--- a/metaknowledge/grants/cihrGrant.py
+++ b/metaknowledge/grants/cihrGrant.py
@@ -52,9 +52,4 @@ def parserCIHRfile(fileName):
     except Exception:
         if error is None:
             error = BadGrant("The file '{}' is having decoding issues. It may have been modifed since it was downloaded or not be a CIHR grant file.".format(fileName))
-    except KeyboardInterrupt as e:
-        error = e
-    finally:
-        if isinstance(error, KeyboardInterrupt):
-            raise error
-        return grantSet, error
+    return grantSet, error
diff --git a/metaknowledge/grants/nsercGrant.py b/metaknowledge/grants/nsercGrant.py
index 2a48303..3aab8c0 100644
--- a/metaknowledge/grants/nsercGrant.py
+++ b/metaknowledge/grants/nsercGrant.py
@@ -102,9 +102,4 @@ def parserNSERCfile(fileName):
     except Exception:
         if error is None:
             error = BadGrant("The file '{}' is having decoding issues. It may have been modifed since it was downloaded or not be a NSERC grant file.".format(fileName))
-    except KeyboardInterrupt as e:
-        error = e
-    finally:
-        if isinstance(error, KeyboardInterrupt):
-            raise error
-        return grantSet, error
+    return grantSet, error
-- 
2.43.0


From 049dc4a9bb6cc6e9ae364f37e91b08aecd6852fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:55 +0000
Subject: [PATCH 071/111] fix: an interrupt while a citation network is made is
 not taken for a missing year

---
 metaknowledge/recordCollection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 3f27533..6064e73 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -1624,7 +1624,7 @@ def addToNetwork(grph, nds, count, weighted, nodeType, nodeInfo, fullInfo, coreC
         if nodeType == 'full' or nodeType == 'original':
             try:
                 nYear = getattr(n, "year")
-            except:
+            except Exception:
                 nYear = None
             yearList.append(nYear)
 
@@ -1643,7 +1643,7 @@ def addToNetwork(grph, nds, count, weighted, nodeType, nodeInfo, fullInfo, coreC
                 nYear = yearList[i]
                 try:
                     yearDiff = abs(hYear - nYear)
-                except:
+                except Exception:
                     yearDiff = None
 
                 if weighted:
-- 
2.43.0


From 3e11801a5306715d3976c79364f3d61de6a1526d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:02 +0000
Subject: [PATCH 072/111] fix: errors of the disk while reading grant files are
 raised, not taken for damage and kept in the cache

---
 metaknowledge/grants/baseGrant.py  | 3 +++
 metaknowledge/grants/cihrGrant.py  | 3 +++
 metaknowledge/grants/nsercGrant.py | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/metaknowledge/grants/baseGrant.py b/metaknowledge/grants/baseGrant.py
index e06bf3f..e99249b 100644
--- a/metaknowledge/grants/baseGrant.py
+++ b/metaknowledge/grants/baseGrant.py
@@ -183,6 +183,9 @@ def parserFallbackGrantFile(fileName, encoding = 'latin-1', dialect = 'excel'):
             reader = csvAndLinesReader(f, fieldnames = None, dialect = dialect)
             for lineNum, lineString, lineDict in reader:
                 grantSet.add(FallbackGrant(lineString, lineDict, sFile = fileName, sLine = lineNum))
+    except OSError:
+        #The disk failed, that says nothing about the file
+        raise
     except Exception:
         if error is None:
             error = BadGrant("The file '{}' is having decoding issues. It may have been modifed since it was downloaded or not be a CIHR grant file.".format(fileName))
diff --git a/metaknowledge/grants/cihrGrant.py b/metaknowledge/grants/cihrGrant.py
index ed27925..4fc8a33 100644
--- a/metaknowledge/grants/cihrGrant.py
+++ b/metaknowledge/grants/cihrGrant.py
@@ -49,6 +49,9 @@ def parserCIHRfile(fileName):
             reader = csvAndLinesReader(f, fieldnames = None, dialect = 'excel')
             for lineNum, lineString, lineDict in reader:
                 grantSet.add(CIHRGrant(lineString, lineDict, sFile = fileName, sLine = lineNum))
+    except OSError:
+        #The disk failed, that says nothing about the file
+        raise
     except Exception:
         if error is None:
             error = BadGrant("The file '{}' is having decoding issues. It may have been modifed since it was downloaded or not be a CIHR grant file.".format(fileName))
diff --git a/metaknowledge/grants/nsercGrant.py b/metaknowledge/grants/nsercGrant.py
index 3aab8c0..a077533 100644
--- a/metaknowledge/grants/nsercGrant.py
+++ b/metaknowledge/grants/nsercGrant.py
@@ -99,6 +99,9 @@ def parserNSERCfile(fileName):
                             break
                 else:
                     grantSet.add(G)
+    except OSError:
+        #The disk failed, that says nothing about the file
+        raise
     except Exception:
         if error is None:
             error = BadGrant("The file '{}' is having decoding issues. It may have been modifed since it was downloaded or not be a NSERC grant file.".format(fileName))
-- 
2.43.0


From 024a51773bc9aaeff5eec55911bab1ca4247a9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:57 +0000
Subject: [PATCH 073/111] fix: graphStats states numbers of nodes and edges of
 a million or more exactly

---
 metaknowledge/graphHelpers.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/metaknowledge/graphHelpers.py b/metaknowledge/graphHelpers.py
index c9dd5e6..ab01fab 100644
--- a/metaknowledge/graphHelpers.py
+++ b/metaknowledge/graphHelpers.py
@@ -777,33 +777,33 @@ def graphStats(G, stats = ('nodes', 'edges', 'isolates', 'loops', 'density', 'tr
     if 'nodes' in stats:
         if makeString:
             if sentenceString:
-                stsData.append("{:G} nodes".format(len(G.nodes())))
+                stsData.append("{} nodes".format(len(G.nodes())))
             else:
-                stsData.append("Nodes: {:G}".format(len(G.nodes())))
+                stsData.append("Nodes: {}".format(len(G.nodes())))
         else:
             stsData['nodes'] = len(G.nodes())
     if 'edges' in stats:
         if makeString:
             if sentenceString:
-                stsData.append("{:G} edges".format(len(G.edges())))
+                stsData.append("{} edges".format(len(G.edges())))
             else:
-                stsData.append("Edges: {:G}".format(len(G.edges())))
+                stsData.append("Edges: {}".format(len(G.edges())))
         else:
             stsData['edges'] = len(G.edges())
     if 'isolates' in stats:
         if makeString:
             if sentenceString:
-                stsData.append("{:G} isolates".format(len(list(nx.isolates(G)))))
+                stsData.append("{} isolates".format(len(list(nx.isolates(G)))))
             else:
-                stsData.append("Isolates: {:G}".format(len(list(nx.isolates(G)))))
+                stsData.append("Isolates: {}".format(len(list(nx.isolates(G)))))
         else:
             stsData['isolates'] = len(list(nx.isolates(G)))
     if 'loops' in stats:
         if makeString:
             if sentenceString:
-                stsData.append("{:G} self loops".format(len(list(nx.selfloop_edges(G)))))
+                stsData.append("{} self loops".format(len(list(nx.selfloop_edges(G)))))
             else:
-                stsData.append("Self loops: {:G}".format(len(list(nx.selfloop_edges(G)))))
+                stsData.append("Self loops: {}".format(len(list(nx.selfloop_edges(G)))))
         else:
             stsData['loops'] = len(list(nx.selfloop_edges(G)))
     if 'density' in stats:
-- 
2.43.0


From 7180fcb64ea2ae3086f3d1312d78b530a0c2c9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:01 +0000
Subject: [PATCH 074/111] fix: writeCSV split by values that share their first
 200 characters no longer overwrites the rows of the first

---
 metaknowledge/recordCollection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 6064e73..439de54 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -341,7 +341,7 @@ class RecordCollection(CollectionWithIDs):
                 else:
                     if not isinstance(splitVal, list):
                         splitVal = [splitVal]
-                    splitVal = list(collections.OrderedDict.fromkeys(str(v) for v in splitVal))
+                    splitVal = list(collections.OrderedDict.fromkeys(str(v)[:200] for v in splitVal))
             recDict = {}
             for t in retrievedFields:
                 value = R.get(t)
@@ -362,7 +362,7 @@ class RecordCollection(CollectionWithIDs):
                     if sTag in filesDict:
                         filesDict[sTag][1].writerow(recDict)
                     else:
-                        fname = "{}-{}".format(sTag[:200], baseFileName)
+                        fname = "{}-{}".format(sTag, baseFileName)
                         f = open(fname, mode = 'w', encoding = 'utf-8', newline = '')
                         csvWriter = csv.DictWriter(f, csvWriterFields, delimiter = csvDelimiter, quotechar = csvQuote, quoting=csv.QUOTE_ALL)
                         csvWriter.writeheader()
-- 
2.43.0


From ad30315b005bc7084284c604394aa861d32c9656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:01 +0000
Subject: [PATCH 075/111] fix: writeCSV split by a tag writes into the
 directory its file name asks for

---
 metaknowledge/recordCollection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 439de54..b656865 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -362,7 +362,7 @@ class RecordCollection(CollectionWithIDs):
                     if sTag in filesDict:
                         filesDict[sTag][1].writerow(recDict)
                     else:
-                        fname = "{}-{}".format(sTag, baseFileName)
+                        fname = os.path.join(os.path.dirname(baseFileName), "{}-{}".format(sTag, os.path.basename(baseFileName)))
                         f = open(fname, mode = 'w', encoding = 'utf-8', newline = '')
                         csvWriter = csv.DictWriter(f, csvWriterFields, delimiter = csvDelimiter, quotechar = csvQuote, quoting=csv.QUOTE_ALL)
                         csvWriter.writeheader()
-- 
2.43.0


From 6c6df11a682d3803e72a28fed30acd38f2a9e872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:01 +0000
Subject: [PATCH 076/111] fix: writeCSV split by values with a slash writes
 files instead of raising or leaving its directory

---
 metaknowledge/recordCollection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index b656865..3a23c49 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -341,7 +341,7 @@ class RecordCollection(CollectionWithIDs):
                 else:
                     if not isinstance(splitVal, list):
                         splitVal = [splitVal]
-                    splitVal = list(collections.OrderedDict.fromkeys(str(v)[:200] for v in splitVal))
+                    splitVal = list(collections.OrderedDict.fromkeys(str(v)[:200].replace(os.sep, '_') for v in splitVal))
             recDict = {}
             for t in retrievedFields:
                 value = R.get(t)
-- 
2.43.0


From 21b46cf2852eb6b464635e0914689031bcb90469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:18 +0000
Subject: [PATCH 077/111] fix: writeCSV split by a tag with more values than
 files can be open writes all of them

---
 metaknowledge/recordCollection.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 3a23c49..fd22424 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -359,20 +359,17 @@ class RecordCollection(CollectionWithIDs):
                 recDict['num-Male'], recDict['num-Female'], recDict['num-Unknown'] = R.authGenders(_countsTuple = True)
             if splitByTag:
                 for sTag in splitVal:
-                    if sTag in filesDict:
-                        filesDict[sTag][1].writerow(recDict)
-                    else:
-                        fname = os.path.join(os.path.dirname(baseFileName), "{}-{}".format(sTag, os.path.basename(baseFileName)))
-                        f = open(fname, mode = 'w', encoding = 'utf-8', newline = '')
-                        csvWriter = csv.DictWriter(f, csvWriterFields, delimiter = csvDelimiter, quotechar = csvQuote, quoting=csv.QUOTE_ALL)
-                        csvWriter.writeheader()
-                        csvWriter.writerow(recDict)
-                        filesDict[sTag] = (f, csvWriter)
+                    filesDict.setdefault(sTag, []).append(recDict)
             else:
                 csvWriter.writerow(recDict)
         if splitByTag:
-            for f, c in filesDict.values():
-                f.close()
+            #The files are written one after another, there can be more of them than can be open at once
+            for sTag, rows in filesDict.items():
+                fname = os.path.join(os.path.dirname(baseFileName), "{}-{}".format(sTag, os.path.basename(baseFileName)))
+                with open(fname, mode = 'w', encoding = 'utf-8', newline = '') as f:
+                    csvWriter = csv.DictWriter(f, csvWriterFields, delimiter = csvDelimiter, quotechar = csvQuote, quoting=csv.QUOTE_ALL)
+                    csvWriter.writeheader()
+                    csvWriter.writerows(rows)
         else:
             f.close()
 
-- 
2.43.0


From 350c14aab435a83da90d9314622d029446fbe6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:44 +0000
Subject: [PATCH 078/111] fix: the default file names of collections named
 after a directory path can be written

---
 metaknowledge/recordCollection.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index fd22424..3b9e53c 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -232,7 +232,7 @@ class RecordCollection(CollectionWithIDs):
         if fname:
             f = open(fname, mode = 'w', encoding = recEncoding)
         else:
-            f = open(self.name[:200] + '.txt', mode = 'w', encoding = recEncoding)
+            f = open(self.name[:200].replace(os.sep, '_') + '.txt', mode = 'w', encoding = recEncoding)
         if writtenTypes == {'WOSRecord'}:
             f.write("\ufeffFN Thomson Reuters Web of Science\u2122\n")
             f.write("VR 1.0\n")
@@ -319,7 +319,7 @@ class RecordCollection(CollectionWithIDs):
         if fname:
             baseFileName = fname
         else:
-            baseFileName = "{}.csv".format(self.name[:200])
+            baseFileName = "{}.csv".format(self.name[:200].replace(os.sep, '_'))
         if numAuthors:
             csvWriterFields = retrievedFields + ["num-Authors"]
         else:
@@ -407,7 +407,7 @@ class RecordCollection(CollectionWithIDs):
         if fname:
             f = open(fname, mode = 'w', encoding = 'utf-8')
         else:
-            f = open(self.name[:200] + '.bib', mode = 'w', encoding = 'utf-8')
+            f = open(self.name[:200].replace(os.sep, '_') + '.bib', mode = 'w', encoding = 'utf-8')
         f.write("%This file was generated by the metaknowledge Python package.\n%The contents have been automatically generated and are likely to not work with\n%LaTeX without some human intervention. This file is meant for other automatic\n%systems and not to be used directly for making citations\n")
         #I figure this is worth mentioning, as someone will get annoyed at none of the special characters being escaped and how terrible some of the fields look to humans
         for R in self:
-- 
2.43.0


From 30ef5d9e86c99efbaf86f3197ead5ef38abd2c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:10 +0000
Subject: [PATCH 079/111] fix: graphDensityContourPlot makes its axes in a way
 current versions of matplotlib have

---
 metaknowledge/contour/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/contour/plotting.py b/metaknowledge/contour/plotting.py
index 8576ff4..45c824c 100644
--- a/metaknowledge/contour/plotting.py
+++ b/metaknowledge/contour/plotting.py
@@ -110,7 +110,7 @@ def graphDensityContourPlot(G, iters = 50, layout = None, layoutScaleFactor = 1,
         raise TypeError("{} is not a valid input.".format(type(layout)))
     fig = plt.figure()
     #axis = fig.add_subplot(111)
-    axis = fig.gca(projection='3d')
+    axis = fig.add_subplot(projection = '3d')
     if overlay:
         nx.draw_networkx(G, pos = layout, ax = axis, node_size = nodeSize, with_labels = False, edgelist = [])
     grid = ndi.gaussian_filter(grid, (blurringFactor * axisSamples, blurringFactor * axisSamples))
-- 
2.43.0


From 8fb7e04ee8578d8445cc07886c2ea883360d507b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:10 +0000
Subject: [PATCH 080/111] fix: graphDensityContourPlot counts nodes left of and
 below the origin in cells of their own

---
 metaknowledge/contour/plotting.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metaknowledge/contour/plotting.py b/metaknowledge/contour/plotting.py
index 45c824c..e195314 100644
--- a/metaknowledge/contour/plotting.py
+++ b/metaknowledge/contour/plotting.py
@@ -92,7 +92,7 @@ def graphDensityContourPlot(G, iters = 50, layout = None, layoutScaleFactor = 1,
     if not isinstance(G, nx.classes.digraph.DiGraph) and not isinstance(G, nx.classes.graph.Graph):
         raise TypeError("{} is not a valid input.".format(type(G)))
     if layout is None:
-        layout = nx.spring_layout(G, scale = axisSamples - 1, iterations = iters)
+        layout = nx.spring_layout(G, scale = (axisSamples - 1) / 2, center = [(axisSamples - 1) / 2] * 2, iterations = iters)
         grid = np.zeros( [axisSamples, axisSamples],dtype=np.float32)
         for v in layout.values():
             x, y = tuple(int(x) for x in v.round(0))
@@ -100,9 +100,9 @@ def graphDensityContourPlot(G, iters = 50, layout = None, layoutScaleFactor = 1,
     elif isinstance(layout, dict):
         layout = layout.copy()
         grid = np.zeros([axisSamples, axisSamples],dtype=np.float32)
-        multFactor = (axisSamples - 1) / layoutScaleFactor
+        multFactor = (axisSamples - 1) / (2 * layoutScaleFactor)
         for k in layout.keys():
-            tmpPos = layout[k] * multFactor
+            tmpPos = (layout[k] + layoutScaleFactor) * multFactor
             layout[k] = tmpPos
             x, y = tuple(int(x) for x in tmpPos.round(0))
             grid[y][x] += 1
-- 
2.43.0


From f6c4eed62dcb8cee97715fe73dbe076db0bfd84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:10 +0000
Subject: [PATCH 081/111] fix: quickVisual notices nodes without a type
 wherever they are among those with one

---
 metaknowledge/contour/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/contour/plotting.py b/metaknowledge/contour/plotting.py
index e195314..17e1703 100644
--- a/metaknowledge/contour/plotting.py
+++ b/metaknowledge/contour/plotting.py
@@ -25,8 +25,8 @@ def quickVisual(G, showLabel = False):
             if nd[1]['type'] not in ndTypes:
                 ndTypes.append(nd[1]['type'])
             ndColours.append(colours[ndTypes.index(nd[1]['type']) % len(colours)])
-        elif len(ndColours) > 1:
-            raise RuntimeError("Some nodes do not have a type")
+    if 0 < len(ndColours) < len(G.nodes()):
+        raise RuntimeError("Some nodes do not have a type")
     if len(ndColours) < 1:
         nx.draw_networkx_nodes(G, pos = layout, node_color = colours[0], node_shape = '8', node_size = 100, ax = ax)
     else:
-- 
2.43.0


From b989fdb61b2753c1e8f3032a0046cf0a169f9746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:10 +0000
Subject: [PATCH 082/111] fix: quickVisual draws graphs without nodes

---
 metaknowledge/contour/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/contour/plotting.py b/metaknowledge/contour/plotting.py
index 17e1703..67217c0 100644
--- a/metaknowledge/contour/plotting.py
+++ b/metaknowledge/contour/plotting.py
@@ -19,7 +19,7 @@ def quickVisual(G, showLabel = False):
     ax = f.add_subplot(1,1,1)
     ndTypes = []
     ndColours = []
-    layout = nx.spring_layout(G, k = 4 / math.sqrt(len(G.nodes())))
+    layout = nx.spring_layout(G, k = 4 / math.sqrt(max(len(G.nodes()), 1)))
     for nd in G.nodes(data = True):
         if 'type' in nd[1]:
             if nd[1]['type'] not in ndTypes:
-- 
2.43.0


From 4c9b6a4d953727eca304c66216901c69b8833b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:59 +0000
Subject: [PATCH 083/111] fix: notebooks made from markdown hold backslashes,
 tabs and last lines without a line end

---
 metaknowledge/bin/metaknowledgeMdToNb.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/metaknowledge/bin/metaknowledgeMdToNb.py b/metaknowledge/bin/metaknowledgeMdToNb.py
index 7f5616b..bc8f6b6 100644
--- a/metaknowledge/bin/metaknowledgeMdToNb.py
+++ b/metaknowledge/bin/metaknowledgeMdToNb.py
@@ -1,5 +1,6 @@
 #Written by Reid McIlroy-Young for Dr. John McLevey, University of Waterloo 2015
 import argparse
+import json
 import re
 import os.path
 import subprocess
@@ -103,9 +104,11 @@ def convert(file):
 
 def stringPreprossesing(s):
     s = s.lstrip('\n')
-    s = s.replace(r'"', r'\"')
-    s = s.replace('\n', '\\n",\n     "')[:-11]
-    return s
+    lines = s.split('\n')
+    if lines[-1] == '':
+        lines.pop()
+    #Every line becomes a JSON string, the quotes around all of them are already in the cells
+    return '\\n",\n     "'.join(json.dumps(line, ensure_ascii = False)[1:-1] for line in lines)
 
 
 def writeMDcell(s):
-- 
2.43.0


From 8ed82a57647b31379c75cb85682d3cd8860f317f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:37 +0000
Subject: [PATCH 084/111] fix: readGraph keeps the line ends within names and
 values

---
 metaknowledge/graphHelpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/graphHelpers.py b/metaknowledge/graphHelpers.py
index ab01fab..7964522 100644
--- a/metaknowledge/graphHelpers.py
+++ b/metaknowledge/graphHelpers.py
@@ -65,7 +65,7 @@ def readGraph(edgeList, nodeList = None, directed = False, idKey = 'ID', eSource
             grph = nx.Graph()
         if nodeList:
             PBar.updateVal(0, "Reading " + nodeList)
-            f = open(os.path.expanduser(os.path.abspath(nodeList)))
+            f = open(os.path.expanduser(os.path.abspath(nodeList)), newline = '')
             nFile = csv.DictReader(f)
             for line in nFile:
                 vals = line
@@ -77,7 +77,7 @@ def readGraph(edgeList, nodeList = None, directed = False, idKey = 'ID', eSource
                     grph.add_node(ndID)
             f.close()
         PBar.updateVal(.25, "Reading " + edgeList)
-        f = open(os.path.expanduser(os.path.abspath(edgeList)))
+        f = open(os.path.expanduser(os.path.abspath(edgeList)), newline = '')
         eFile = csv.DictReader(f)
         for line in eFile:
             vals = line
-- 
2.43.0


From 6ca3d64850c9bc280931b5f6a69e458027af2117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:04 +0000
Subject: [PATCH 085/111] fix: a directory cache replaced by a pickle of
 something else is read afresh instead of failing

---
 metaknowledge/mkCollection.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index 55bba64..c1ef28f 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -387,12 +387,14 @@ class Collection(collections.abc.MutableSet, collections.abc.Hashable):
                 workingFile = flist.pop()
                 if os.stat(workingFile).st_mtime != dat["File dict"][workingFile]:
                     raise cacheError("File modification mismatch")
+            if type(RC) is not type(self):
+                raise cacheError("Collection type mismatch")
             return RC.__dict__
 
         if os.path.isfile(cacheName):
             try:
                 self.__dict__ = loadCache(cacheName, flist, name, extension)
-            except (cacheError, KeyError, FileNotFoundError):
+            except (cacheError, KeyError, FileNotFoundError, TypeError, AttributeError): #The last two are from files holding something that is not a cache
                 os.remove(cacheName)
                 return False
             else:
-- 
2.43.0


From ac2307902c08c55f5f0f6f8cc5700b8be61f4e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:14 +0000
Subject: [PATCH 086/111] fix: the address of a Medline record whose first
 affiliation is empty is missing instead of an IndexError

---
 metaknowledge/medline/tagProcessing/specialFunctions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/metaknowledge/medline/tagProcessing/specialFunctions.py b/metaknowledge/medline/tagProcessing/specialFunctions.py
index 079224e..ef4735a 100644
--- a/metaknowledge/medline/tagProcessing/specialFunctions.py
+++ b/metaknowledge/medline/tagProcessing/specialFunctions.py
@@ -41,7 +41,10 @@ def DOI(R):
 
 def address(R):
     """Gets the first address of the first author"""
-    return R['AD'][R['AU'][0]][0]
+    try:
+        return R['AD'][R['AU'][0]][0]
+    except IndexError:
+        raise KeyError("The first author has no address")
 
 medlineSpecialTagToFunc = {
     'year' : year,
-- 
2.43.0


From 9f22695db9a53a401dbd5a0965902732fed63e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:30 +0000
Subject: [PATCH 087/111] fix: graph files are written and read as UTF-8 on
 every machine, characters are not dropped where the default encoding lacks
 them

---
 metaknowledge/graphHelpers.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/metaknowledge/graphHelpers.py b/metaknowledge/graphHelpers.py
index 7964522..7c3016e 100644
--- a/metaknowledge/graphHelpers.py
+++ b/metaknowledge/graphHelpers.py
@@ -65,7 +65,7 @@ def readGraph(edgeList, nodeList = None, directed = False, idKey = 'ID', eSource
             grph = nx.Graph()
         if nodeList:
             PBar.updateVal(0, "Reading " + nodeList)
-            f = open(os.path.expanduser(os.path.abspath(nodeList)), newline = '')
+            f = open(os.path.expanduser(os.path.abspath(nodeList)), newline = '', encoding = 'utf-8')
             nFile = csv.DictReader(f)
             for line in nFile:
                 vals = line
@@ -77,7 +77,7 @@ def readGraph(edgeList, nodeList = None, directed = False, idKey = 'ID', eSource
                     grph.add_node(ndID)
             f.close()
         PBar.updateVal(.25, "Reading " + edgeList)
-        f = open(os.path.expanduser(os.path.abspath(edgeList)), newline = '')
+        f = open(os.path.expanduser(os.path.abspath(edgeList)), newline = '', encoding = 'utf-8')
         eFile = csv.DictReader(f)
         for line in eFile:
             vals = line
@@ -205,7 +205,7 @@ def writeEdgeList(grph, name, extraInfo = True, allSameAttribute = False, _progB
     PBar = _progBar
     PBar.updateVal(0, "Writing edge list {}".format(name))
     if len(grph.edges(data = True)) < 1:
-        outFile = open(os.path.expanduser(os.path.abspath(name)), 'w')
+        outFile = open(os.path.expanduser(os.path.abspath(name)), 'w', encoding = 'utf-8')
         outFile.write('"Source","Target"\n')
         outFile.close()
         PBar.updateVal(1, "Done edge list '{}', 0 edges written.".format(name))
@@ -229,7 +229,7 @@ def writeEdgeList(grph, name, extraInfo = True, allSameAttribute = False, _progB
             csvHeader = ['Source'] +  ['Target']
         count = 0
         PBar.updateVal(.01, "Opening file {}".format(name))
-        f = open(os.path.expanduser(os.path.abspath(name)), 'w', newline = '')
+        f = open(os.path.expanduser(os.path.abspath(name)), 'w', newline = '', encoding = 'utf-8')
         outFile = csv.DictWriter(f, csvHeader, delimiter = ',', quotechar = '"', quoting=csv.QUOTE_NONNUMERIC)
         outFile.writeheader()
         if extraInfo:
@@ -295,7 +295,7 @@ def writeNodeAttributeFile(grph, name, allSameAttribute = False, _progBar = None
     PBar = _progBar
     PBar.updateVal(0, "Writing node list {}".format(name))
     if len(grph.nodes(data = True)) < 1:
-        outFile = open(os.path.expanduser(os.path.abspath(name)), 'w')
+        outFile = open(os.path.expanduser(os.path.abspath(name)), 'w', encoding = 'utf-8')
         outFile.write('ID\n')
         outFile.close()
         PBar.updateVal(1, "Done node attribute list: {}, 0 nodes written.".format(name))
@@ -316,7 +316,7 @@ def writeNodeAttributeFile(grph, name, allSameAttribute = False, _progBar = None
             csvHeader = ['ID'] + list(extraAttribs)
         count = 0
         PBar.updateVal(.10, "Opening '{}'".format(name))
-        f = open(name, 'w', newline = '')
+        f = open(name, 'w', newline = '', encoding = 'utf-8')
         outFile = csv.DictWriter(f, csvHeader, delimiter = ',', quotechar = '"', quoting = csv.QUOTE_NONNUMERIC)
         outFile.writeheader()
         for n in grph.nodes(data = True):
-- 
2.43.0


From 1eef4271a008fc869012db3c36579bdd02c8016a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:30 +0000
Subject: [PATCH 088/111] fix: the tables of forBurst, forNLP, rankedSeries and
 timeSeries are UTF-8 without blank rows on every machine

---
 metaknowledge/mkCollection.py     | 4 ++--
 metaknowledge/recordCollection.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index c1ef28f..f3b5beb 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -631,7 +631,7 @@ class CollectionWithIDs(Collection):
                     seriesDict[entry] = 1
         seriesList = sorted(seriesDict.items(), key = lambda x: x[1], reverse = greatestFirst)
         if outputFile is not None:
-            with open(outputFile, 'w') as f:
+            with open(outputFile, 'w', newline = '', encoding = 'utf-8') as f:
                 writer = csv.writer(f, dialect = 'excel')
                 writer.writerow((str(tag), 'count'))
                 writer.writerows(seriesList)
@@ -738,7 +738,7 @@ class CollectionWithIDs(Collection):
             seriesList += [(e, y) for y in yd.keys()]
         seriesList = sorted(seriesList, key = lambda x: x[1], reverse = greatestFirst)
         if outputFile is not None:
-            with open(outputFile, 'w') as f:
+            with open(outputFile, 'w', newline = '', encoding = 'utf-8') as f:
                 writer = csv.writer(f, dialect = 'excel')
                 writer.writerow((str(tag), 'years'))
                 writer.writerows(((k,'|'.join((str(y) for y in v))) for k,v in seriesDict.items()))
diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 3b9e53c..18ca1e6 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -548,7 +548,7 @@ class RecordCollection(CollectionWithIDs):
 
             if outputFile is not None:
                 PBar.updateVal(.99, "Writing to file: {}".format(outputFile))
-                with open(outputFile, 'w', newline = '') as f:
+                with open(outputFile, 'w', newline = '', encoding = 'utf-8') as f:
                     writer = csv.DictWriter(f, ['year', 'word'])
                     for row in range(len(retDict['year'])):
                         writer.writerow({k : retDict[k][row] for k in retDict.keys()})
@@ -682,7 +682,7 @@ class RecordCollection(CollectionWithIDs):
 
             if outputFile is not None:
                 PBar.updateVal(.99, "Writing to file: {}".format(outputFile))
-                with open(outputFile, 'w', newline = '') as f:
+                with open(outputFile, 'w', newline = '', encoding = 'utf-8') as f:
                     fieldNames = list(retDict.keys())
                     fieldNames.remove('id')
                     fieldNames.remove('title')
-- 
2.43.0


From 4396a2716aea17c9b210b49d63dfbe6427c19b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:30 +0000
Subject: [PATCH 089/111] fix: the list of names is read as UTF-8 on every
 machine

---
 metaknowledge/genders/nameGender.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/genders/nameGender.py b/metaknowledge/genders/nameGender.py
index db0fdf7..ff6ad03 100644
--- a/metaknowledge/genders/nameGender.py
+++ b/metaknowledge/genders/nameGender.py
@@ -44,7 +44,7 @@ def getMapping(useUK = False):
     if not os.path.isfile(targetFilePath):
         downloadData(useUK)
     retDict = {}
-    with open(targetFilePath) as f:
+    with open(targetFilePath, encoding = 'utf-8') as f:
         reader = csv.DictReader(f, fieldnames = csvFields)
         next(reader)
         for line in reader:
-- 
2.43.0


From ce593cc54f62b5764c89b00e29cb3a64a56edf6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:30 +0000
Subject: [PATCH 090/111] fix: markdown files and the notebooks made from them
 are UTF-8 on every machine

---
 metaknowledge/bin/metaknowledgeMdToNb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/bin/metaknowledgeMdToNb.py b/metaknowledge/bin/metaknowledgeMdToNb.py
index bc8f6b6..68b1f68 100644
--- a/metaknowledge/bin/metaknowledgeMdToNb.py
+++ b/metaknowledge/bin/metaknowledgeMdToNb.py
@@ -40,7 +40,7 @@ def argumentParser():
     parser = argparse.ArgumentParser(description="A simple script to convert markdown (.md) files to iPython Notebooks (.ipynb)")
     #parser.add_argument("--output", "-o")
     #parser.add_argument("--execute", "-e", action = "store_true", default = False)
-    parser.add_argument("files", type=argparse.FileType('r'), default = [], nargs = '*')
+    parser.add_argument("files", type=argparse.FileType('r', encoding = 'utf-8'), default = [], nargs = '*')
 
     return parser.parse_args()
 
@@ -97,7 +97,7 @@ def convertString(file):
 def convert(file):
     nameCompts = os.path.splitext( os.path.expanduser(os.path.normpath(file.name)))
     fileName = nameCompts[0] + '.ipynb'
-    outFile = open(fileName, 'w+')
+    outFile = open(fileName, 'w+', encoding = 'utf-8')
     outFile.write(convertString(file))
     return fileName
 
-- 
2.43.0


From 0e7f9557f2c260baac2967a9afa73aeb07dce8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:30 +0000
Subject: [PATCH 091/111] fix: the command line writes citations as UTF-8 on
 every machine

---
 metaknowledge/bin/metaknowledgeCLI.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/bin/metaknowledgeCLI.py b/metaknowledge/bin/metaknowledgeCLI.py
index 02ca8cf..f65ed96 100644
--- a/metaknowledge/bin/metaknowledgeCLI.py
+++ b/metaknowledge/bin/metaknowledgeCLI.py
@@ -179,7 +179,7 @@ def getWhatToDo(clargs, inRC):
         fName = getOutputName(clargs, '.csv')
         cites = set(cites)
         print("Writing {}".format(fName))
-        with open(fName, 'w') as f:
+        with open(fName, 'w', encoding = 'utf-8') as f:
             f.writelines(cites)
         return False
     else:
-- 
2.43.0


From 0dd58308223f292ac6abf6ba7d25daf4d1617f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:16 +0000
Subject: [PATCH 092/111] fix: the month of a publication date that starts with
 the year is its number, not the text of the year

---
 metaknowledge/WOS/tagProcessing/helpFuncs.py    | 2 +-
 metaknowledge/WOS/tagProcessing/tagFunctions.py | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/WOS/tagProcessing/helpFuncs.py b/metaknowledge/WOS/tagProcessing/helpFuncs.py
index 5446afe..79cc0d5 100644
--- a/metaknowledge/WOS/tagProcessing/helpFuncs.py
+++ b/metaknowledge/WOS/tagProcessing/helpFuncs.py
@@ -18,7 +18,7 @@ def getMonth(s):
     else:
         monthOrSeason = s.split('-')[-1].upper()
         if monthOrSeason.isdigit():
-            return monthOrSeason
+            return int(monthOrSeason)
         else:
             return monthDict[monthOrSeason]
 
diff --git a/metaknowledge/WOS/tagProcessing/tagFunctions.py b/metaknowledge/WOS/tagProcessing/tagFunctions.py
index 672acc2..f8999b9 100644
--- a/metaknowledge/WOS/tagProcessing/tagFunctions.py
+++ b/metaknowledge/WOS/tagProcessing/tagFunctions.py
@@ -839,7 +839,11 @@ def month(val):
     > A integer giving the month
 
     """
-    return getMonth(val[0].split(' ')[0])
+    parts = val[0].split(' ')
+    if len(parts) > 1 and len(parts[0]) == 4 and parts[0].isdigit():
+        #Year Month Day
+        return getMonth(parts[1])
+    return getMonth(parts[0])
 
 def fundingText(val):
     """
-- 
2.43.0


From 98c75edb6d7defa491e94090032522286e9be4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:05 +0000
Subject: [PATCH 093/111] fix: the pages of a Scopus citation without a volume
 are its pages, not a volume called P or PP

---
 metaknowledge/citation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/citation.py b/metaknowledge/citation.py
index bf44a0e..d73b3d2 100644
--- a/metaknowledge/citation.py
+++ b/metaknowledge/citation.py
@@ -60,7 +60,7 @@ class Citation(collections.abc.Hashable):
     """
     wosCiteRegex = re.compile(r"([^0-9,][^,]+)?(, )?(-?[0-9]{1,5})?(, )?([^,]+)?(, (V[^,]+))?(, (P[^,]+))?($|, DOI (.+)|((.+?)(, DOI (.+))?$))", re.DOTALL)
 
-    scopusCiteRegex = re.compile(r"([\w\- ]+,? [\w\.\-]+\.), (([\w\- ]+,? [\w\-\.]+\., )+)?([^(]+? )?\((\d{2,5})\) ([^,]+)(, ([\w-]+)( \(([\w-]*)\))?)?(, P?P\. ([\w-]*))?(.*)")
+    scopusCiteRegex = re.compile(r"([\w\- ]+,? [\w\.\-]+\.), (([\w\- ]+,? [\w\-\.]+\., )+)?([^(]+? )?\((\d{2,5})\) ([^,]+)(, (?!P?P\. )([\w-]+)( \(([\w-]*)\))?)?(, P?P\. ([\w-]*))?(.*)")
 
 
     #(.*?, )?[^,(]*\((\d{2,5}\))[^,]*(, [^,(]*( \(\d+\))?)?(, (p?p\. .*))?")
-- 
2.43.0


From 9fb3101316883580db3f9540eafdb0ce77d1db36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:04 +0000
Subject: [PATCH 094/111] fix: updating the journal database adds the new names
 of the abbreviations it already has

---
 metaknowledge/journalAbbreviations/backend.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/metaknowledge/journalAbbreviations/backend.py b/metaknowledge/journalAbbreviations/backend.py
index fb94759..2cb1316 100644
--- a/metaknowledge/journalAbbreviations/backend.py
+++ b/metaknowledge/journalAbbreviations/backend.py
@@ -119,9 +119,10 @@ def updatej9DB(dbname = abrevDBname, saveRawHTML = False):
                 raise urllib.error.URLError("Unable to access server, check your connection")
             for k, v in j9Dict.items():
                 if k in db:
-                    for jName in v:
-                        if jName not in j9Dict[k]:
-                            j9Dict[k] += '|' + jName
+                    names = db[k].decode('utf-8').split('|')
+                    newNames = [jName for jName in v if jName not in names]
+                    if newNames:
+                        db[k] = '|'.join(names + newNames)
                 else:
                     db[k] = '|'.join(v)
     except dbm.dumb.error as e:
-- 
2.43.0


From 26fc0fa53060157320d2638ec66bd68fd3e79b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:04 +0000
Subject: [PATCH 095/111] fix: an abbreviation that is on several pages of the
 journal list keeps the names of all of them

---
 metaknowledge/journalAbbreviations/backend.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metaknowledge/journalAbbreviations/backend.py b/metaknowledge/journalAbbreviations/backend.py
index 2cb1316..44fa4d6 100644
--- a/metaknowledge/journalAbbreviations/backend.py
+++ b/metaknowledge/journalAbbreviations/backend.py
@@ -89,7 +89,8 @@ def _getCurrentj9Dict():
         d = _getDict(urllib.request.urlopen(url))
         if len(d) == 0:
             raise RuntimeError("Parsing failed, this is could require an update of the parser.")
-        j9Dict.update(d)
+        for k, v in d.items():
+            j9Dict.setdefault(k, []).extend(v)
     return j9Dict
 
 def updatej9DB(dbname = abrevDBname, saveRawHTML = False):
-- 
2.43.0


From f76808152435481aa273b326b71db6c969b2a16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:04 +0000
Subject: [PATCH 096/111] fix: a page that is no list of journals or not
 received completely raises a JournalDataBaseError as documented

---
 metaknowledge/journalAbbreviations/backend.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/metaknowledge/journalAbbreviations/backend.py b/metaknowledge/journalAbbreviations/backend.py
index 44fa4d6..dc59620 100644
--- a/metaknowledge/journalAbbreviations/backend.py
+++ b/metaknowledge/journalAbbreviations/backend.py
@@ -4,6 +4,7 @@ import string
 import os
 import datetime
 import dbm.dumb
+import http.client
 
 from ..mkExceptions import JournalDataBaseError
 
@@ -86,9 +87,12 @@ def _getCurrentj9Dict():
     urls = j9urlGenerator()
     j9Dict = {}
     for url in urls:
-        d = _getDict(urllib.request.urlopen(url))
-        if len(d) == 0:
-            raise RuntimeError("Parsing failed, this is could require an update of the parser.")
+        try:
+            d = _getDict(urllib.request.urlopen(url))
+        except (IndexError, UnicodeDecodeError):
+            raise JournalDataBaseError("Parsing failed, this is could require an update of the parser.")
+        except http.client.HTTPException as e:
+            raise JournalDataBaseError("The page {} was not received completely, check your connection. The error was '{!r}'".format(url, e))
         for k, v in d.items():
             j9Dict.setdefault(k, []).extend(v)
     return j9Dict
-- 
2.43.0


From 2ea8cdf0a5fd51616070d2a34cb0f01e3b0ef643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:04 +0000
Subject: [PATCH 097/111] fix: saving the pages of the journal list does not
 change the working directory

---
 metaknowledge/journalAbbreviations/backend.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/metaknowledge/journalAbbreviations/backend.py b/metaknowledge/journalAbbreviations/backend.py
index dc59620..8585c13 100644
--- a/metaknowledge/journalAbbreviations/backend.py
+++ b/metaknowledge/journalAbbreviations/backend.py
@@ -46,13 +46,11 @@ def _j9SaveCurrent(sDir = '.'):
     dname = os.path.normpath(sDir + '/' +  datetime.datetime.now().strftime("%Y-%m-%d_J9_AbbreviationDocs"))
     if not os.path.isdir(dname):
         os.mkdir(dname)
-        os.chdir(dname)
-    else:
-        os.chdir(dname)
     for urlID, urlString in j9urlGenerator(nameDict = True).items():
-        fname = "{}_abrvjt.html".format(urlID)
-        f = open(fname, 'wb')
-        f.write(urllib.request.urlopen(urlString).read())
+        fname = os.path.join(dname, "{}_abrvjt.html".format(urlID))
+        page = urllib.request.urlopen(urlString).read()
+        with open(fname, 'wb') as f:
+            f.write(page)
 
 def _getDict(j9Page):
     """Parses a Journal Title Abbreviations page
-- 
2.43.0


From 6248f29de645361b93a1b03018c9bdd05862e0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:04 +0000
Subject: [PATCH 098/111] fix: a journal database with another name that is
 missing is fetched instead of fetching the usual one forever

---
 metaknowledge/journalAbbreviations/backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/journalAbbreviations/backend.py b/metaknowledge/journalAbbreviations/backend.py
index 8585c13..fbe4975 100644
--- a/metaknowledge/journalAbbreviations/backend.py
+++ b/metaknowledge/journalAbbreviations/backend.py
@@ -159,7 +159,7 @@ def getj9dict(dbname = abrevDBname, manualDB = manualDBname, returnDict ='both')
                 for k, v in db.items():
                     retDict[k.decode('utf-8')] = v.decode('utf-8').split('|')
     except JournalDataBaseError:
-        updatej9DB()
+        updatej9DB(dbname = dbname)
         return getj9dict(dbname = dbname, manualDB = manualDB, returnDict = returnDict)
     try:
         if returnDict == 'both' or returnDict == 'manual':
-- 
2.43.0


From 7a9987239030e045c69aed17575a93b179e63676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:04 +0000
Subject: [PATCH 099/111] fix: asking for a manual journal database that does
 not exist says so instead of filling it with the downloaded one

---
 metaknowledge/journalAbbreviations/backend.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/metaknowledge/journalAbbreviations/backend.py b/metaknowledge/journalAbbreviations/backend.py
index fbe4975..65d1bb1 100644
--- a/metaknowledge/journalAbbreviations/backend.py
+++ b/metaknowledge/journalAbbreviations/backend.py
@@ -161,18 +161,13 @@ def getj9dict(dbname = abrevDBname, manualDB = manualDBname, returnDict ='both')
     except JournalDataBaseError:
         updatej9DB(dbname = dbname)
         return getj9dict(dbname = dbname, manualDB = manualDB, returnDict = returnDict)
-    try:
-        if returnDict == 'both' or returnDict == 'manual':
-            if os.path.isfile(dbLoc + '/{}.dat'.format(manualDB)):
-                with dbm.dumb.open(dbLoc + '/{}'.format(manualDB)) as db:
-                    for k, v in db.items():
-                        retDict[k.decode('utf-8')] = v.decode('utf-8').split('|')
-            else:
-                if returnDict == 'manual':
-                    raise JournalDataBaseError("Manual J9 Database ({0}) missing, to create it run addToDB(dbname = {0})".format(manualDB))
-    except JournalDataBaseError:
-        updatej9DB(dbname = manualDB)
-        return getj9dict(dbname = dbname, manualDB = manualDB, returnDict = returnDict)
+    if returnDict == 'both' or returnDict == 'manual':
+        if os.path.isfile(dbLoc + '/{}.dat'.format(manualDB)):
+            with dbm.dumb.open(dbLoc + '/{}'.format(manualDB)) as db:
+                for k, v in db.items():
+                    retDict[k.decode('utf-8')] = v.decode('utf-8').split('|')
+        elif returnDict == 'manual':
+            raise JournalDataBaseError("Manual J9 Database ({0}) missing, to create it run addToDB(dbname = '{0}')".format(manualDB))
     return retDict
 
 def addToDB(abbr = None, dbname = manualDBname):
-- 
2.43.0


From d3183ba8f993c46bb15a73159d370f15897161e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:04 +0000
Subject: [PATCH 100/111] fix: a list of names that cannot be downloaded or
 written completely is not used

---
 metaknowledge/genders/nameGender.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/genders/nameGender.py b/metaknowledge/genders/nameGender.py
index ff6ad03..39c455e 100644
--- a/metaknowledge/genders/nameGender.py
+++ b/metaknowledge/genders/nameGender.py
@@ -3,6 +3,7 @@ import zipfile
 import io
 import csv
 import os.path
+import threading
 import urllib
 
 from ..mkExceptions import GenderException
@@ -34,11 +35,18 @@ def downloadData(useUK = False):
         namesFile = zipfile.ZipFile(zipFile).open(ukNamesPath)
     else:
         namesFile = zipfile.ZipFile(zipFile).open(americanNamesPath)
+    names = namesFile.read()
+    #Only a list that was written completely becomes the one that is used
+    partFilePath = '{}.{}-{}.part'.format(targetFilePath, os.getpid(), threading.get_ident())
     try:
-        with open(targetFilePath, 'wb') as f:
-            f.write(namesFile.read())
+        with open(partFilePath, 'wb') as f:
+            f.write(names)
+        os.replace(partFilePath, targetFilePath)
     except PermissionError:
         raise PermissionError("Can not write to {}, you try rerunning with higher privileges".format(targetFilePath))
+    finally:
+        if os.path.exists(partFilePath):
+            os.remove(partFilePath)
 
 def getMapping(useUK = False):
     if not os.path.isfile(targetFilePath):
-- 
2.43.0


From b7f491cbe3989b3d7bac25f86f13feeb338c5df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:23 +0000
Subject: [PATCH 101/111] fix: a journal database whose index is damaged raises
 a JournalDataBaseError as documented

---
 metaknowledge/journalAbbreviations/backend.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metaknowledge/journalAbbreviations/backend.py b/metaknowledge/journalAbbreviations/backend.py
index 65d1bb1..093dcc9 100644
--- a/metaknowledge/journalAbbreviations/backend.py
+++ b/metaknowledge/journalAbbreviations/backend.py
@@ -128,7 +128,7 @@ def updatej9DB(dbname = abrevDBname, saveRawHTML = False):
                         db[k] = '|'.join(names + newNames)
                 else:
                     db[k] = '|'.join(v)
-    except dbm.dumb.error as e:
+    except (dbm.dumb.error, SyntaxError, ValueError, TypeError) as e: #The last three are from a damaged index
         raise JournalDataBaseError("Something happened with the database of WOS journal names. To fix this you should delete the 1 to 3 files whose names start with {}. If this doesn't work (sorry), deleteing everything in '{}' and reinstalling metaknowledge should.\nThe error was '{}'".format(dbLoc, os.path.dirname(__file__), e))
 
 def getj9dict(dbname = abrevDBname, manualDB = manualDBname, returnDict ='both'):
@@ -161,6 +161,8 @@ def getj9dict(dbname = abrevDBname, manualDB = manualDBname, returnDict ='both')
     except JournalDataBaseError:
         updatej9DB(dbname = dbname)
         return getj9dict(dbname = dbname, manualDB = manualDB, returnDict = returnDict)
+    except (SyntaxError, ValueError, TypeError) as e: #These are from a damaged index
+        raise JournalDataBaseError("The database of WOS journal names is damaged. To fix this you should delete the 1 to 3 files whose names start with {}.\nThe error was '{}'".format(os.path.join(dbLoc, dbname), e))
     if returnDict == 'both' or returnDict == 'manual':
         if os.path.isfile(dbLoc + '/{}.dat'.format(manualDB)):
             with dbm.dumb.open(dbLoc + '/{}'.format(manualDB)) as db:
-- 
2.43.0


From 7b5bbebe614b5b87c5bef36893cc592a39f93c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:53 +0000
Subject: [PATCH 102/111] fix: a first download of the journal list that is
 interrupted while it is stored is not taken for the whole list

---
 metaknowledge/journalAbbreviations/backend.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/metaknowledge/journalAbbreviations/backend.py b/metaknowledge/journalAbbreviations/backend.py
index 093dcc9..785e0b5 100644
--- a/metaknowledge/journalAbbreviations/backend.py
+++ b/metaknowledge/journalAbbreviations/backend.py
@@ -114,8 +114,10 @@ def updatej9DB(dbname = abrevDBname, saveRawHTML = False):
             os.mkdir(rawDir)
         _j9SaveCurrent(sDir = rawDir)
     dbLoc = os.path.join(os.path.normpath(os.path.dirname(__file__)), dbname)
+    wasEmpty = complete = False
     try:
         with dbm.dumb.open(dbLoc, flag = 'c') as db:
+            wasEmpty = len(db) == 0
             try:
                 j9Dict = _getCurrentj9Dict()
             except urllib.error.URLError:
@@ -128,8 +130,13 @@ def updatej9DB(dbname = abrevDBname, saveRawHTML = False):
                         db[k] = '|'.join(names + newNames)
                 else:
                     db[k] = '|'.join(v)
+            complete = True
     except (dbm.dumb.error, SyntaxError, ValueError, TypeError) as e: #The last three are from a damaged index
         raise JournalDataBaseError("Something happened with the database of WOS journal names. To fix this you should delete the 1 to 3 files whose names start with {}. If this doesn't work (sorry), deleteing everything in '{}' and reinstalling metaknowledge should.\nThe error was '{}'".format(dbLoc, os.path.dirname(__file__), e))
+    finally:
+        if wasEmpty and not complete:
+            #A part of the list would be taken for all of it
+            dbm.dumb.open(dbLoc, flag = 'n').close()
 
 def getj9dict(dbname = abrevDBname, manualDB = manualDBname, returnDict ='both'):
     """Returns the dictionary of journal abbreviations mapping to a list of the associated journal names. By default the local database is used. The database is in the file _dbname_ in the same directory as this source file
-- 
2.43.0


From e56508ee9e8a0ad1d8bf1af65e3ca20e16d09edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:48 +0000
Subject: [PATCH 103/111] fix: what a directory is read as does not depend on
 the order the system lists its files in

---
 metaknowledge/grantCollection.py  | 2 +-
 metaknowledge/recordCollection.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/grantCollection.py b/metaknowledge/grantCollection.py
index 8d99981..1a95984 100644
--- a/metaknowledge/grantCollection.py
+++ b/metaknowledge/grantCollection.py
@@ -66,7 +66,7 @@ class GrantCollection(CollectionWithIDs):
                         name = "files-from-{}".format(inGrants)
                     grantsSet = set()
                     flist = []
-                    for f in os.listdir(inGrants):
+                    for f in sorted(os.listdir(inGrants)):
                         fullF = os.path.join(os.path.abspath(inGrants), f)
                         if fullF.endswith(extension) and not fullF.endswith('mkGrantDirCache') and os.path.isfile(fullF):
                             flist.append(fullF)
diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 18ca1e6..984e337 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -114,7 +114,7 @@ class RecordCollection(CollectionWithIDs):
                         name = "files-from-{}".format(inCollection)
                     recordsSet = set()
                     flist = []
-                    for f in os.listdir(inCollection):
+                    for f in sorted(os.listdir(inCollection)):
                         fullF = os.path.join(os.path.abspath(inCollection), f)
                         if fullF.endswith(extension) and not fullF.endswith('mkRecordDirCache') and os.path.isfile(fullF):
                             flist.append(fullF)
-- 
2.43.0


From 92e6bf2ebd497f68339f0468dccd04dfe41221a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:17 +0000
Subject: [PATCH 104/111] fix: a grant's original is its whole row, which may
 go over several lines, and its line the first of them

---
 metaknowledge/grants/baseGrant.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/metaknowledge/grants/baseGrant.py b/metaknowledge/grants/baseGrant.py
index e99249b..0b8a431 100644
--- a/metaknowledge/grants/baseGrant.py
+++ b/metaknowledge/grants/baseGrant.py
@@ -119,16 +119,21 @@ def stableHash(s):
     return int.from_bytes(hashlib.md5(s.encode('utf-8', 'backslashreplace')).digest()[:8], 'big')
 
 def csvAndLinesReader(enumeratedFile, *csvArgs, **csvKwargs):
-    currentData = {
-    'currentLineNum' : -1,
-    'currentLineString' : '',
-    }
-    def readerWithSideEffects(target, datDict):
-        for datDict['currentLineNum'], datDict['currentLineString'] in target:
-            yield datDict['currentLineString']
-    reader = csv.DictReader(readerWithSideEffects(enumeratedFile, currentData), *csvArgs, **csvKwargs)
+    """Gives every row with its text and the number of its first line, as a row can go over several lines"""
+    rowLines = []
+    def readerWithSideEffects(target):
+        for lineNum, lineString in target:
+            #blank lines between rows are not part of any row
+            if len(rowLines) > 0 or lineString.strip('\r\n') != '':
+                rowLines.append((lineNum, lineString))
+            yield lineString
+    reader = csv.DictReader(readerWithSideEffects(enumeratedFile), *csvArgs, **csvKwargs)
+    #Reading the header before the first row
+    reader.fieldnames
+    rowLines.clear()
     for row in reader:
-        yield currentData['currentLineNum'], currentData['currentLineString'], row
+        yield rowLines[0][0], ''.join(lineString for lineNum, lineString in rowLines), row
+        rowLines.clear()
 
 class FallbackGrant(Grant):
     """A subclass of [Grant](./grants.html#metaknowledge.grants.Grant), it has the same attributes and is returned from the fall back constructor for grants.
-- 
2.43.0


From 202f21b46af01b6743e50d9d3de1107ad971dc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:17 +0000
Subject: [PATCH 105/111] fix: WOS records count the lines of their file from
 one, as the records of all other sources do

---
 metaknowledge/WOS/wosHandlers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/WOS/wosHandlers.py b/metaknowledge/WOS/wosHandlers.py
index 7655205..4431769 100644
--- a/metaknowledge/WOS/wosHandlers.py
+++ b/metaknowledge/WOS/wosHandlers.py
@@ -56,14 +56,14 @@ def wosParser(isifile):
     error = None
     try:
         with open(isifile, 'r', encoding='utf-8-sig') as openfile:
-            f = enumerate(openfile, start = 0)
+            f = enumerate(openfile, start = 1)
             while "VR 1.0" not in f.__next__()[1]:
                 pass
             notEnd = True
             while notEnd:
                 line = f.__next__()
                 if line[1] == '':
-                    error =  BadWOSFile("'{}' does not have an 'EF', lines 1 to {} were checked".format(isifile, line[0] + 1))
+                    error =  BadWOSFile("'{}' does not have an 'EF', lines 1 to {} were checked".format(isifile, line[0]))
                 elif line[1].isspace():
                     continue
                 elif 'EF' in line[1][:2]:
-- 
2.43.0


From 090e91f55e7d9dc5592947a131735484198de0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:29 +0000
Subject: [PATCH 106/111] fix: dropEdges leaves the graph as it was when an
 edge has no weight

---
 metaknowledge/graphHelpers.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/metaknowledge/graphHelpers.py b/metaknowledge/graphHelpers.py
index 7c3016e..cc660af 100644
--- a/metaknowledge/graphHelpers.py
+++ b/metaknowledge/graphHelpers.py
@@ -529,15 +529,11 @@ def dropEdges(grph, minWeight = - float('inf'), maxWeight = float('inf'), parame
         progArgs = (0, "Dropping edges")
         progKwargs = {'dummy' : True}
     with _ProgressBar(*progArgs, **progKwargs) as PBar:
-        if dropSelfLoops:
-            slps = list(nx.selfloop_edges(grph))
-
-            PBar.updateVal(0, "Dropping self {} loops".format(len(slps)))
-            for e in slps:
-                grph.remove_edge(e[0], e[1])
         edgesToDrop = []
         if minWeight != - float('inf') or maxWeight != float('inf'):
             for e in (grph.edges(data = True, keys = True) if grph.is_multigraph() else grph.edges(data = True)):
+                if dropSelfLoops and e[0] == e[1]:
+                    continue
                 try:
                     val = e[-1][parameterName]
                 except KeyError:
@@ -552,6 +548,13 @@ def dropEdges(grph, minWeight = - float('inf'), maxWeight = float('inf'), parame
                         PBar.updateVal(count/ total, str(count) + " edges analysed and " + str(total -len(grph.edges())) + " edges dropped")
                     if val > maxWeight or  val < minWeight:
                         edgesToDrop.append(e[:-1])
+        if dropSelfLoops:
+            #Only now, so that nothing is dropped when an edge has no weight
+            slps = list(nx.selfloop_edges(grph))
+
+            PBar.updateVal(0, "Dropping self {} loops".format(len(slps)))
+            for e in slps:
+                grph.remove_edge(e[0], e[1])
         grph.remove_edges_from(edgesToDrop)
         PBar.finish(str(total - len(grph.edges())) + " edges out of " + str(total) + " dropped, " + str(len(grph.edges())) + " returned")
 
-- 
2.43.0


From b056322e3406bf0dc768d1c15e93825330ef42dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:47 +0000
Subject: [PATCH 107/111] fix: writeTnetFile leaves graph and file as they were
 when the network is not 2-mode

---
 metaknowledge/graphHelpers.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/metaknowledge/graphHelpers.py b/metaknowledge/graphHelpers.py
index cc660af..424df91 100644
--- a/metaknowledge/graphHelpers.py
+++ b/metaknowledge/graphHelpers.py
@@ -393,7 +393,7 @@ def writeTnetFile(grph, name, modeNameString, weighted = False, sourceMode = Non
             modes = []
         mode1Set = set()
         PBar.updateVal(.1, "Indexing nodes for tnet")
-        for nodeIndex, node in enumerate(grph.nodes(data = True), start = 1):
+        for node in grph.nodes(data = True):
             try:
                 nMode = node[1][modeNameString]
             except KeyError:
@@ -407,9 +407,14 @@ def writeTnetFile(grph, name, modeNameString, weighted = False, sourceMode = Non
                     raise RCValueError("Too many modes of '{}' found in the network or one of the nodes was missing its mode. There must be exactly 2 modes.".format(modeNameString))
             if nMode == modes[0]:
                 mode1Set.add(node[0])
-            node[1][nodeIndexString] = nodeIndex
         if len(modes) != 2:
             raise RCValueError("Too few modes of '{}' found in the network. There must be exactly 2 modes.".format(modeNameString))
+        for n1, n2 in grph.edges():
+            if (n1 in mode1Set) == (n2 in mode1Set):
+                raise RCValueError("The nodes '{}' and '{}' have an edge and the same type. The network must be purely 2-mode.".format(n1, n2))
+        #Only now, so that nothing is written or added to a graph that is not 2-mode
+        for nodeIndex, node in enumerate(grph.nodes(data = True), start = 1):
+            node[1][nodeIndexString] = nodeIndex
         with open(name, 'w', encoding = 'utf-8') as f:
             edgesCaller = {'data' : True}
             if timeString is not None:
@@ -422,13 +427,8 @@ def writeTnetFile(grph, name, modeNameString, weighted = False, sourceMode = Non
                 count += 1
                 if count % 1000 == 1:
                     PBar.updateVal(count/ eMax * .9 + .1, "writing edge: '{}'-'{}'".format(n1, n2))
-                if n1 in mode1Set:
-                    if n2 in mode1Set:
-                        raise RCValueError("The nodes '{}' and '{}' have an edge and the same type. The network must be purely 2-mode.".format(n1, n2))
-                elif n2 in mode1Set:
+                if n1 not in mode1Set:
                     n1, n2 = n2, n1
-                else:
-                    raise RCValueError("The nodes '{}' and '{}' have an edge and the same type. The network must be purely 2-mode.".format(n1, n2))
                 if timeString is not None:
                     eTimeString = '"{}" '.format(keyVal)
                 else:
-- 
2.43.0


From ba687223a96085853a2946362579b323104bf294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:47 +0000
Subject: [PATCH 108/111] fix: tagToFull raises a KeyError for an unknown tag,
 not a TypeError about its own message

---
 metaknowledge/WOS/tagProcessing/funcDicts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/WOS/tagProcessing/funcDicts.py b/metaknowledge/WOS/tagProcessing/funcDicts.py
index 740dbf7..af7f4ef 100644
--- a/metaknowledge/WOS/tagProcessing/funcDicts.py
+++ b/metaknowledge/WOS/tagProcessing/funcDicts.py
@@ -35,7 +35,7 @@ def tagToFull(tag):
     try:
         return tagToFullDict[tag]
     except KeyError:
-        raise("Tag not in list of known tags")
+        raise KeyError("Tag not in list of known tags")
 
 
 def normalizeToTag(val):
-- 
2.43.0


From f1b5787298d8baaa82e92f6a55ca4e5b9600db18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:26 +0000
Subject: [PATCH 109/111] fix: glimpses do not fail on terminals of six short
 lines

---
 metaknowledge/RCglimpse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/RCglimpse.py b/metaknowledge/RCglimpse.py
index cea6180..d626dea 100644
--- a/metaknowledge/RCglimpse.py
+++ b/metaknowledge/RCglimpse.py
@@ -28,7 +28,7 @@ def _glimpse(RC, *tags, compact = False):
         tRows = 24
     glimpseVals = collections.OrderedDict()
     if len(descriptionStringFull) > tColumns:
-        maxRows = tRows - 7
+        maxRows = max(tRows - 7, 0) #There might be no room for any
     else:
         maxRows = tRows - 6
     for name, tag in targetTags.items():
-- 
2.43.0


From 43f90485c7e1803e326e4a8fef9b9e6c63e14fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:40 +0000
Subject: [PATCH 110/111] fix: a record's copy is decoupled from it, as
 documented, with its lists of values

---
 metaknowledge/mkRecord.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metaknowledge/mkRecord.py b/metaknowledge/mkRecord.py
index fa6daca..37a45a1 100644
--- a/metaknowledge/mkRecord.py
+++ b/metaknowledge/mkRecord.py
@@ -209,7 +209,8 @@ class Record(collections.abc.Mapping, collections.abc.Hashable):
         > A completely decoupled copy of the original
         """
         c = copy.copy(self)
-        c._fieldDict = c._fieldDict.copy()
+        #The values are lists, so they have to be copied as well
+        c._fieldDict = copy.deepcopy(c._fieldDict)
         return c
 
     #Making these immutable
-- 
2.43.0


From f7648c3b125fea4232fbcd7de3ef078ed8723493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:36 +0000
Subject: [PATCH 111/111] fix: paths that start with ~ are in the home
 directory when graphs are read or edge and node lists written

---
 metaknowledge/graphHelpers.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/metaknowledge/graphHelpers.py b/metaknowledge/graphHelpers.py
index 424df91..ab1b81e 100644
--- a/metaknowledge/graphHelpers.py
+++ b/metaknowledge/graphHelpers.py
@@ -65,7 +65,7 @@ def readGraph(edgeList, nodeList = None, directed = False, idKey = 'ID', eSource
             grph = nx.Graph()
         if nodeList:
             PBar.updateVal(0, "Reading " + nodeList)
-            f = open(os.path.expanduser(os.path.abspath(nodeList)), newline = '', encoding = 'utf-8')
+            f = open(os.path.abspath(os.path.expanduser(nodeList)), newline = '', encoding = 'utf-8')
             nFile = csv.DictReader(f)
             for line in nFile:
                 vals = line
@@ -77,7 +77,7 @@ def readGraph(edgeList, nodeList = None, directed = False, idKey = 'ID', eSource
                     grph.add_node(ndID)
             f.close()
         PBar.updateVal(.25, "Reading " + edgeList)
-        f = open(os.path.expanduser(os.path.abspath(edgeList)), newline = '', encoding = 'utf-8')
+        f = open(os.path.abspath(os.path.expanduser(edgeList)), newline = '', encoding = 'utf-8')
         eFile = csv.DictReader(f)
         for line in eFile:
             vals = line
@@ -205,7 +205,7 @@ def writeEdgeList(grph, name, extraInfo = True, allSameAttribute = False, _progB
     PBar = _progBar
     PBar.updateVal(0, "Writing edge list {}".format(name))
     if len(grph.edges(data = True)) < 1:
-        outFile = open(os.path.expanduser(os.path.abspath(name)), 'w', encoding = 'utf-8')
+        outFile = open(os.path.abspath(os.path.expanduser(name)), 'w', encoding = 'utf-8')
         outFile.write('"Source","Target"\n')
         outFile.close()
         PBar.updateVal(1, "Done edge list '{}', 0 edges written.".format(name))
@@ -229,7 +229,7 @@ def writeEdgeList(grph, name, extraInfo = True, allSameAttribute = False, _progB
             csvHeader = ['Source'] +  ['Target']
         count = 0
         PBar.updateVal(.01, "Opening file {}".format(name))
-        f = open(os.path.expanduser(os.path.abspath(name)), 'w', newline = '', encoding = 'utf-8')
+        f = open(os.path.abspath(os.path.expanduser(name)), 'w', newline = '', encoding = 'utf-8')
         outFile = csv.DictWriter(f, csvHeader, delimiter = ',', quotechar = '"', quoting=csv.QUOTE_NONNUMERIC)
         outFile.writeheader()
         if extraInfo:
@@ -295,7 +295,7 @@ def writeNodeAttributeFile(grph, name, allSameAttribute = False, _progBar = None
     PBar = _progBar
     PBar.updateVal(0, "Writing node list {}".format(name))
     if len(grph.nodes(data = True)) < 1:
-        outFile = open(os.path.expanduser(os.path.abspath(name)), 'w', encoding = 'utf-8')
+        outFile = open(os.path.abspath(os.path.expanduser(name)), 'w', encoding = 'utf-8')
         outFile.write('ID\n')
         outFile.close()
         PBar.updateVal(1, "Done node attribute list: {}, 0 nodes written.".format(name))
@@ -316,7 +316,7 @@ def writeNodeAttributeFile(grph, name, allSameAttribute = False, _progBar = None
             csvHeader = ['ID'] + list(extraAttribs)
         count = 0
         PBar.updateVal(.10, "Opening '{}'".format(name))
-        f = open(name, 'w', newline = '', encoding = 'utf-8')
+        f = open(os.path.abspath(os.path.expanduser(name)), 'w', newline = '', encoding = 'utf-8')
         outFile = csv.DictWriter(f, csvHeader, delimiter = ',', quotechar = '"', quoting = csv.QUOTE_NONNUMERIC)
         outFile.writeheader()
         for n in grph.nodes(data = True):
-- 
2.43.0

