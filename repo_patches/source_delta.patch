From 76029d09fb00ca463228425f037fb0caba7d907c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:45 +0000
Subject: [PATCH 01/86] fix: BaseReference keeps its shape when copied or
 unpickled

---
 MyCapytain/common/reference/_base.py          | 4 ++++
 MyCapytain/common/reference/_capitains_cts.py | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/MyCapytain/common/reference/_base.py b/MyCapytain/common/reference/_base.py
index 674042a..9597fa0 100644
--- a/MyCapytain/common/reference/_base.py
+++ b/MyCapytain/common/reference/_base.py
@@ -327,6 +327,10 @@ class BaseReference(tuple):
 
         return obj
 
+    def __getnewargs__(self):
+        # On copy and unpickling, start and end are fed back separately
+        return tuple(self)
+
     def is_range(self) -> int:
         return bool(self[1])
 
diff --git a/MyCapytain/common/reference/_capitains_cts.py b/MyCapytain/common/reference/_capitains_cts.py
index 0353b07..caea70a 100644
--- a/MyCapytain/common/reference/_capitains_cts.py
+++ b/MyCapytain/common/reference/_capitains_cts.py
@@ -171,6 +171,9 @@ class CtsReference(BaseReference):
 
         return o
 
+    def __getnewargs__(self):
+        return tuple(self),
+
     @property
     def parent(self) -> Optional['CtsReference']:
         """ Parent of the actual URN, for example, 1.1 for 1.1.1
-- 
2.43.0


From 86249af4d8e236848714cba371ca51cec490798a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:58 +0000
Subject: [PATCH 02/86] fix: CtsWordReference does not grow a second @ when
 copied or unpickled

---
 MyCapytain/common/reference/_capitains_cts.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/MyCapytain/common/reference/_capitains_cts.py b/MyCapytain/common/reference/_capitains_cts.py
index caea70a..0e87122 100644
--- a/MyCapytain/common/reference/_capitains_cts.py
+++ b/MyCapytain/common/reference/_capitains_cts.py
@@ -47,6 +47,10 @@ class CtsWordReference(str):
 
         return obj
 
+    def __getnewargs__(self):
+        # __new__ adds the leading "@" : do not feed it back on copy or unpickling
+        return str(self)[1:],
+
     def tuple(self) -> Tuple[str, int]:
         return self.word, self.counter
 
-- 
2.43.0


From 74b6ab45bf036cab2d8eaf1d8f2032ce54051cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:09 +0000
Subject: [PATCH 03/86] fix: a reference set built from one reference holds
 that reference

---
 MyCapytain/common/reference/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/common/reference/_base.py b/MyCapytain/common/reference/_base.py
index 9597fa0..0a998a5 100644
--- a/MyCapytain/common/reference/_base.py
+++ b/MyCapytain/common/reference/_base.py
@@ -360,7 +360,7 @@ class BaseReferenceSet(tuple):
 
     """
     def __new__(cls, *refs, citation: BaseCitationSet=None, level: int=1):
-        if len(refs) == 1 and not isinstance(refs, BaseReference):
+        if len(refs) == 1 and not isinstance(refs[0], BaseReference):
             refs = refs[0]
         obj = tuple.__new__(cls, refs)
         obj._citation = None
-- 
2.43.0


From 012a3bf9cdec42534452c18bf460b6cf93fe7f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:13 +0000
Subject: [PATCH 04/86] fix: range extraction compares nodes by identity, not
 by their text value

---
 MyCapytain/common/utils/xml.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/MyCapytain/common/utils/xml.py b/MyCapytain/common/utils/xml.py
index 8b9d15d..e758427 100644
--- a/MyCapytain/common/utils/xml.py
+++ b/MyCapytain/common/utils/xml.py
@@ -223,7 +223,7 @@ def passageLoop(parent, new_tree, xpath1, xpath2=None, preceding_siblings=False,
         # For each sibling, when we need them in the context of a range
         if preceding_siblings or following_siblings:
             for sibling in xmliter(parent):
-                if sibling == result_1:
+                if sibling is result_1:
                     central = True
                     # We copy the node we looked for (Result_1)
                     child = copyNode(result_1, children=has_no_queue, parent=new_tree)
@@ -264,7 +264,7 @@ def passageLoop(parent, new_tree, xpath1, xpath2=None, preceding_siblings=False,
         else:
             result_2 = result_1
 
-        if result_1 == result_2:
+        if result_1 is result_2:
             has_no_queue = len(queue_1) == 0
             child = copyNode(result_1, children=has_no_queue, parent=new_tree)
             if not has_no_queue:
@@ -283,13 +283,13 @@ def passageLoop(parent, new_tree, xpath1, xpath2=None, preceding_siblings=False,
                 if start:
                     # If we are at the end
                     # We break the copy
-                    if sibling == result_2:
+                    if sibling is result_2:
                         break
                     else:
                         copyNode(sibling, parent=new_tree, children=True)
                 # If this is start
                 # Then we copy it and initiate star
-                elif sibling == result_1:
+                elif sibling is result_1:
                     start = True
                     has_no_queue_1 = len(queue_1) == 0
                     node = copyNode(sibling, children=has_no_queue_1, parent=new_tree)
-- 
2.43.0


From 7200bf0954bc099a2bbb36c76a48d92cd8d86527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:25 +0000
Subject: [PATCH 05/86] fix: range extraction copes with comments and
 processing instructions between units

---
 MyCapytain/common/utils/xml.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/MyCapytain/common/utils/xml.py b/MyCapytain/common/utils/xml.py
index e758427..4cb8526 100644
--- a/MyCapytain/common/utils/xml.py
+++ b/MyCapytain/common/utils/xml.py
@@ -67,14 +67,15 @@ def make_xml_node(graph, name, close=False, attributes=None, text="", complete=F
     return "<{}>".format(name)
 
 
-def xmliter(node):
+def xmliter(node, tag=None):
     """ Provides a simple XML Iter method which complies with either _Element or _ObjectifiedElement
 
     :param node: XML Node
+    :param tag: Restrict to some type of children (eg. etree.Element to leave comments out)
     :return: Iterator for iterating over children of said node.
     """
     if hasattr(node, "iterchildren"):
-        return node.iterchildren()
+        return node.iterchildren(tag=tag)
     else:
         return node
 
@@ -222,7 +223,7 @@ def passageLoop(parent, new_tree, xpath1, xpath2=None, preceding_siblings=False,
         has_no_queue = len(queue_1) == 0
         # For each sibling, when we need them in the context of a range
         if preceding_siblings or following_siblings:
-            for sibling in xmliter(parent):
+            for sibling in xmliter(parent, tag=etree.Element):
                 if sibling is result_1:
                     central = True
                     # We copy the node we looked for (Result_1)
@@ -277,7 +278,7 @@ def passageLoop(parent, new_tree, xpath1, xpath2=None, preceding_siblings=False,
         else:
             start = False
             # For each sibling
-            for sibling in xmliter(parent):
+            for sibling in xmliter(parent, tag=etree.Element):
                 # If we have found start
                 # We copy the node because we are between start and end
                 if start:
-- 
2.43.0


From 69c0e1dccafdc137aca3a81edad5f8ed4d5f92f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:50 +0000
Subject: [PATCH 06/86] fix: scope and xpath keep every character of the
 refsDecl steps

---
 MyCapytain/common/reference/_capitains_cts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/common/reference/_capitains_cts.py b/MyCapytain/common/reference/_capitains_cts.py
index 0e87122..45cc210 100644
--- a/MyCapytain/common/reference/_capitains_cts.py
+++ b/MyCapytain/common/reference/_capitains_cts.py
@@ -7,7 +7,7 @@ from MyCapytain.common.utils.xml import make_xml_node
 
 from ._base import BaseCitation, BaseReference, BaseReferenceSet
 
-REFSDECL_SPLITTER = re.compile(r"/+[*()|\sa-zA-Z0-9:\[\]@=\\{$'\".\s]+")
+REFSDECL_SPLITTER = re.compile(r"/+(?:[^/\[]|\[[^\]]*\])+")
 REFSDECL_REPLACER = re.compile(r"\$[0-9]+")
 SUBREFERENCE = re.compile(r"(\w*)\[?([0-9]*)\]?", re.UNICODE)
 REFERENCE_REPLACER = re.compile(r"(@[a-zA-Z0-9:]+)(=)([\\$'\"?0-9]{3,6})")
-- 
2.43.0


From 3c36995399e077889765ec85c8132d3b53b062a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:03 +0000
Subject: [PATCH 07/86] fix: every level of a citation scheme knows the root of
 the whole scheme

---
 MyCapytain/common/reference/_base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MyCapytain/common/reference/_base.py b/MyCapytain/common/reference/_base.py
index 0a998a5..e194527 100644
--- a/MyCapytain/common/reference/_base.py
+++ b/MyCapytain/common/reference/_base.py
@@ -242,6 +242,9 @@ class BaseCitation(BaseCitationSet):
         :return:
         """
         self._root = value
+        # A scheme shares a single root: what is below follows
+        for child in self.children:
+            child.root = self.root
 
     @property
     def name(self) -> str:
-- 
2.43.0


From c986a287b81fd9c1644a5e5c14ebb638341e3b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:36 +0000
Subject: [PATCH 08/86] fix: XML attribute values are escaped on export

---
 MyCapytain/common/utils/xml.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/common/utils/xml.py b/MyCapytain/common/utils/xml.py
index 4cb8526..244804a 100644
--- a/MyCapytain/common/utils/xml.py
+++ b/MyCapytain/common/utils/xml.py
@@ -44,7 +44,7 @@ def make_xml_node(graph, name, close=False, attributes=None, text="", complete=F
                 name,
                 " ".join(
                     [
-                        "{}=\"{}\"".format(attr_name, attr_value)
+                        "{}=\"{}\"".format(attr_name, escape(str(attr_value), {"\"": "&quot;"}))
                         for attr_name, attr_value in attributes.items()
                     ]
                 ),
@@ -59,7 +59,7 @@ def make_xml_node(graph, name, close=False, attributes=None, text="", complete=F
             name,
             " ".join(
                 [
-                    "{}=\"{}\"".format(attr_name, attr_value)
+                    "{}=\"{}\"".format(attr_name, escape(str(attr_value), {"\"": "&quot;"}))
                     for attr_name, attr_value in attributes.items()
                 ]
             )
-- 
2.43.0


From 961a6e74ffbb2f5170573d0af9052da02ea7b708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:20 +0000
Subject: [PATCH 09/86] fix: TEI citation export escapes names and XPaths

---
 MyCapytain/common/reference/_capitains_cts.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/common/reference/_capitains_cts.py b/MyCapytain/common/reference/_capitains_cts.py
index 45cc210..7ff8228 100644
--- a/MyCapytain/common/reference/_capitains_cts.py
+++ b/MyCapytain/common/reference/_capitains_cts.py
@@ -1,5 +1,6 @@
 import re
 from typing import Optional, List, Union, Tuple
+from xml.sax.saxutils import escape
 from lxml.etree import _Element
 
 from MyCapytain.common.constants import Mimetypes, get_graph, RDF_NAMESPACES, XPATH_NAMESPACES
@@ -917,8 +918,8 @@ class Citation(BaseCitation):
             return \
                 "<tei:cRefPattern n=\"{label}\" matchPattern=\"{regexp}\" replacementPattern=\"#xpath({refsDecl})\">" \
                 "<tei:p>This pointer pattern extracts {label}</tei:p></tei:cRefPattern>".format(
-                    refsDecl=self.refsDecl,
-                    label=label,
+                    refsDecl=escape(self.refsDecl),
+                    label=escape(label, {"\"": "&quot;"}),
                     regexp="\.".join(["(\w+)"]*self.refsDecl.count("$"))
                 )
 
-- 
2.43.0


From 749749ce3a52fd61a940822d2870f9500e94f874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:25 +0000
Subject: [PATCH 10/86] fix: next and previous passages know the text they come
 from

---
 MyCapytain/resources/texts/local/capitains/cts.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/resources/texts/local/capitains/cts.py b/MyCapytain/resources/texts/local/capitains/cts.py
index ef01fc8..ba601e0 100644
--- a/MyCapytain/resources/texts/local/capitains/cts.py
+++ b/MyCapytain/resources/texts/local/capitains/cts.py
@@ -678,14 +678,14 @@ class CapitainsCtsPassage(_SharedMethods, PrototypeCtsPassage):
         """ Next CapitainsCtsPassage (Interactive CapitainsCtsPassage)
         """
         if self.nextId is not None:
-            return super(CapitainsCtsPassage, self).getTextualNode(subreference=self.nextId)
+            return self.getTextualNode(subreference=self.nextId)
 
     @property
     def prev(self):
         """ Previous CapitainsCtsPassage (Interactive CapitainsCtsPassage)
         """
         if self.prevId is not None:
-            return super(CapitainsCtsPassage, self).getTextualNode(subreference=self.prevId)
+            return self.getTextualNode(subreference=self.prevId)
 
     def getTextualNode(self, subreference=None, *args, **kwargs):
         if not isinstance(subreference, CtsReference):
-- 
2.43.0


From 9b2bd7178d82dbd4f897d8e5ed5218798f103b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:46 +0000
Subject: [PATCH 11/86] fix: siblings of a range are computed from its own span

---
 MyCapytain/resources/texts/local/capitains/cts.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/MyCapytain/resources/texts/local/capitains/cts.py b/MyCapytain/resources/texts/local/capitains/cts.py
index ba601e0..36543d1 100644
--- a/MyCapytain/resources/texts/local/capitains/cts.py
+++ b/MyCapytain/resources/texts/local/capitains/cts.py
@@ -634,13 +634,12 @@ class CapitainsCtsPassage(_SharedMethods, PrototypeCtsPassage):
 
         if self.reference.is_range():
             start, end = self.reference.start, self.reference.end
-            range_length = len(self.getReffs(level=0))
         else:
             start = end = self.reference.start
-            range_length = 1
 
         start = document_references.index(start)
         end = document_references.index(end)
+        range_length = end - start + 1
 
         if start == 0:
             # If the passage is already at the beginning
-- 
2.43.0


From 48c4e994e61e0786af8d031ff0bd3b80f90d1726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:20 +0000
Subject: [PATCH 12/86] fix: a passage can be exported to a nested dictionary

---
 MyCapytain/resources/texts/base/tei.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resources/texts/base/tei.py b/MyCapytain/resources/texts/base/tei.py
index 96bdd68..2dd0ba4 100644
--- a/MyCapytain/resources/texts/base/tei.py
+++ b/MyCapytain/resources/texts/base/tei.py
@@ -109,7 +109,7 @@ class TeiResource(InteractiveTextualNode):
             text = nested_ordered_dictionary()
             for reff in reffs:
                 _r = str(reff).split(".")  # Only works for non range of course
-                nested_set(text, _r, self.getTextualNode(_r).export(
+                nested_set(text, _r, self.getTextualNode(reff).export(
                     Mimetypes.PLAINTEXT,
                     exclude=exclude,
                     _preformatted=True
-- 
2.43.0


From 42a006a49ccb84297cff622d1b77598fed933398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:27 +0000
Subject: [PATCH 13/86] fix: metadata values that are not literals can be
 filtered by language

---
 MyCapytain/common/metadata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/common/metadata.py b/MyCapytain/common/metadata.py
index 082e1c2..dfcd54e 100644
--- a/MyCapytain/common/metadata.py
+++ b/MyCapytain/common/metadata.py
@@ -87,7 +87,7 @@ class Metadata(Exportable):
         """
         if lang is not None:
             for o in self.graph.objects(self.asNode(), key):
-                if o.language == lang:
+                if getattr(o, "language", None) == lang:
                     yield o
         else:
             for o in self.graph.objects(self.asNode(), key):
@@ -107,7 +107,7 @@ class Metadata(Exportable):
             default = None
             for o in self.graph.objects(self.asNode(), key):
                 default = o
-                if o.language == lang:
+                if getattr(o, "language", None) == lang:
                     return o
             return default
         else:
-- 
2.43.0


From 48450edf17a53aaecc047465a3217ad0679795d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:39 +0000
Subject: [PATCH 14/86] fix: the only filter of metadata export takes plain
 strings and leaves its argument alone

---
 MyCapytain/common/metadata.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/MyCapytain/common/metadata.py b/MyCapytain/common/metadata.py
index dfcd54e..688edf5 100644
--- a/MyCapytain/common/metadata.py
+++ b/MyCapytain/common/metadata.py
@@ -166,13 +166,12 @@ class Metadata(Exportable):
         graph.namespace_manager = get_graph().namespace_manager
 
         if only is not None:
-            _only = only
+            _only = []
             only = [str(s) for s in only]
             for predicate in set(self.graph.predicates(subject=self.asNode())):
-                if str(predicate) not in only:
-                    prefix, namespace, name = self.graph.compute_qname(predicate)
-                    if str(namespace) in only:
-                        _only.append(predicate)
+                prefix, namespace, name = self.graph.compute_qname(predicate)
+                if str(predicate) in only or str(namespace) in only:
+                    _only.append(predicate)
             for predicate, obj in self.graph[self.asNode()]:
                 if predicate in _only:
                     graph.add((self.asNode(), predicate, obj))
-- 
2.43.0


From 7657c5ed1ad63823a331c6dedece182f2fa85d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:32 +0000
Subject: [PATCH 15/86] fix: deleting a member of a collection leaves the
 metadata of the collection alone

---
 MyCapytain/resources/prototypes/metadata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/resources/prototypes/metadata.py b/MyCapytain/resources/prototypes/metadata.py
index 7209e90..eefdffd 100644
--- a/MyCapytain/resources/prototypes/metadata.py
+++ b/MyCapytain/resources/prototypes/metadata.py
@@ -231,8 +231,8 @@ class Collection(Exportable):
         # Delete the graph Item
         self.graph.remove((item.asNode(), None, None))
         self.graph.remove((None, None, item.asNode()))
-        self.metadata.remove()
-        self.metadata.unlink()
+        item.metadata.remove()
+        item.metadata.unlink()
         # Delete the Python item
         if len(item.parents) > 0:
             del item.parents[0].children[item.id]
-- 
2.43.0


From db514d05f345903750c57b18811ed21de48c4dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:42 +0000
Subject: [PATCH 16/86] fix: asking for a CTS property that is not there gives
 None

---
 MyCapytain/resources/prototypes/cts/inventory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resources/prototypes/cts/inventory.py b/MyCapytain/resources/prototypes/cts/inventory.py
index d8003e4..4eead7a 100644
--- a/MyCapytain/resources/prototypes/cts/inventory.py
+++ b/MyCapytain/resources/prototypes/cts/inventory.py
@@ -80,7 +80,7 @@ class PrototypeCtsCollection(Collection):
         if lang is not None:
             if lang in x:
                 return x[lang]
-            return next(iter(x.values()))
+            return next(iter(x.values()), None)
         return x
 
     def set_cts_property(self, prop, value, lang=None):
-- 
2.43.0


From 4605fd7572925e6b8299ffb947e94008fde9fc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:11 +0000
Subject: [PATCH 17/86] fix: title and creator of a CTS text come from the
 labels of its work and text group

---
 MyCapytain/resources/prototypes/cts/inventory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/resources/prototypes/cts/inventory.py b/MyCapytain/resources/prototypes/cts/inventory.py
index 4eead7a..01cf77a 100644
--- a/MyCapytain/resources/prototypes/cts/inventory.py
+++ b/MyCapytain/resources/prototypes/cts/inventory.py
@@ -346,7 +346,7 @@ class CtsTextMetadata(ResourceCollection, PrototypeCtsCollection):
         :return: Creator string representation
         :rtype: Literal
         """
-        return self.parent.parent.metadata.get_label(lang=lang)
+        return self.parent.parent.get_label(lang=lang)
 
     def get_title(self, lang=None):
         """ Get the DC Title of the object
@@ -355,7 +355,7 @@ class CtsTextMetadata(ResourceCollection, PrototypeCtsCollection):
         :return: Title string representation
         :rtype: Literal
         """
-        return self.parent.metadata.get_label(lang=lang)
+        return self.parent.get_label(lang=lang)
 
     def get_description(self, lang=None):
         """ Get the DC description of the object
-- 
2.43.0


From 1972f6500a613452fb51034c2261c4f13acacaa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:27 +0000
Subject: [PATCH 18/86] fix: a collection of inventories exports to CapiTainS
 XML as advertised

---
 MyCapytain/resources/prototypes/cts/inventory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/resources/prototypes/cts/inventory.py b/MyCapytain/resources/prototypes/cts/inventory.py
index 01cf77a..f536cfd 100644
--- a/MyCapytain/resources/prototypes/cts/inventory.py
+++ b/MyCapytain/resources/prototypes/cts/inventory.py
@@ -728,7 +728,7 @@ class CtsTextInventoryCollection(PrototypeCtsCollection):
         :param namespaces: List namespaces in main node
         :returns: Desired output formated resource
         """
-        if output == Mimetypes.XML.CTS:
+        if output == Mimetypes.XML.CTS or output == Mimetypes.XML.CapiTainS.CTS:
             attrs = {}
             if self.id:
                 attrs["tiid"] = self.id
@@ -739,7 +739,7 @@ class CtsTextInventoryCollection(PrototypeCtsCollection):
                 members=[
                     m for inv in self.members for m in inv.members
                 ],
-                output=Mimetypes.XML.CTS
+                output=output
             )
         elif output == Mimetypes.JSON.DTS.Std:
             if len(self.members) > 1:
-- 
2.43.0


From f494f87923f011c9f1c1ad4eed3d75c4a83c20c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:44 +0000
Subject: [PATCH 19/86] fix: CapiTainS XML metadata carries datatypes in the
 attribute the reader looks for

---
 MyCapytain/common/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/common/metadata.py b/MyCapytain/common/metadata.py
index 688edf5..da04de7 100644
--- a/MyCapytain/common/metadata.py
+++ b/MyCapytain/common/metadata.py
@@ -222,7 +222,7 @@ class Metadata(Exportable):
                 if hasattr(obj, "language") and obj.language is not None:
                     kwargs["xml:lang"] = obj.language
                 if hasattr(obj, "datatype") and obj.datatype is not None:
-                    kwargs["rdf:type"] = obj.datatype
+                    kwargs["rdf:datatype"] = obj.datatype
                 strings.append(make_xml_node(graph, pred, text=obj, attributes=kwargs, complete=True))
             del graph
             return "\n".join(strings)
-- 
2.43.0


From de6ca626ef05f7aea7e2032e359201aaf277fd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:02 +0000
Subject: [PATCH 20/86] fix: structured metadata keeps its text as written

---
 MyCapytain/resources/collections/cts.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/resources/collections/cts.py b/MyCapytain/resources/collections/cts.py
index 0b19ef7..f26e66c 100644
--- a/MyCapytain/resources/collections/cts.py
+++ b/MyCapytain/resources/collections/cts.py
@@ -111,11 +111,11 @@ def _parse_structured_metadata(obj, xml):
         if "{" in tag:
             ns, tag = tuple(tag.split("}"))
             tag = URIRef(ns[1:]+tag)
-            s_m = str(metadata)
+            s_m = metadata.text or ""
             if s_m.startswith("urn:") or s_m.startswith("http:") or s_m.startswith("https:") or s_m.startswith("hdl:"):
                 obj.metadata.add(
                     tag,
-                    URIRef(str(metadata))
+                    URIRef(s_m)
                 )
             elif '{http://www.w3.org/XML/1998/namespace}lang' in metadata.attrib:
                 obj.metadata.add(
-- 
2.43.0


From 97a0260577c6026edab4e2df3ba03c6bfcf9d273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:45 +0000
Subject: [PATCH 21/86] fix: an empty name or description in an inventory is
 empty, not 'None'

---
 MyCapytain/resources/collections/cts.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/MyCapytain/resources/collections/cts.py b/MyCapytain/resources/collections/cts.py
index f26e66c..024e514 100644
--- a/MyCapytain/resources/collections/cts.py
+++ b/MyCapytain/resources/collections/cts.py
@@ -165,12 +165,12 @@ class XmlCtsTextMetadata(cts.CtsTextMetadata):
         for child in xml.xpath("ti:description", namespaces=XPATH_NAMESPACES):
             lg = child.get("{http://www.w3.org/XML/1998/namespace}lang")
             if lg is not None:
-                obj.set_cts_property("description", child.text, lg)
+                obj.set_cts_property("description", child.text or "", lg)
 
         for child in xml.xpath("ti:label", namespaces=XPATH_NAMESPACES):
             lg = child.get("{http://www.w3.org/XML/1998/namespace}lang")
             if lg is not None:
-                obj.set_cts_property("label", child.text, lg)
+                obj.set_cts_property("label", child.text or "", lg)
 
         obj.citation = cls.CLASS_CITATION.ingest(xml, obj.citation, "ti:online/ti:citationMapping/ti:citation")
 
@@ -270,7 +270,7 @@ class XmlCtsWorkMetadata(cts.CtsWorkMetadata):
         for child in xml.xpath("ti:title", namespaces=XPATH_NAMESPACES):
             lg = child.get("{http://www.w3.org/XML/1998/namespace}lang")
             if lg is not None:
-                o.set_cts_property("title", child.text, lg)
+                o.set_cts_property("title", child.text or "", lg)
 
         # Parse children
         children = []
@@ -312,7 +312,7 @@ class XmlCtsTextgroupMetadata(cts.CtsTextgroupMetadata):
         for child in xml.xpath("ti:groupname", namespaces=XPATH_NAMESPACES):
             lg = child.get("{http://www.w3.org/XML/1998/namespace}lang")
             if lg is not None:
-                o.set_cts_property("groupname", child.text, lg)
+                o.set_cts_property("groupname", child.text or "", lg)
 
         # Parse Works
         _xpathDict(xml=xml, xpath='ti:work', cls=cls.CLASS_WORK, parent=o)
-- 
2.43.0


From 4e2eaa6ba6ea8b19d4f10160b350929c2e846ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:59 +0000
Subject: [PATCH 22/86] fix: a work or text without language has none, instead
 of the language 'None'

---
 MyCapytain/resources/prototypes/cts/inventory.py | 13 +++++++++----
 MyCapytain/resources/prototypes/metadata.py      |  3 ++-
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/MyCapytain/resources/prototypes/cts/inventory.py b/MyCapytain/resources/prototypes/cts/inventory.py
index f536cfd..fabbbff 100644
--- a/MyCapytain/resources/prototypes/cts/inventory.py
+++ b/MyCapytain/resources/prototypes/cts/inventory.py
@@ -217,7 +217,7 @@ class CtsTextMetadata(ResourceCollection, PrototypeCtsCollection):
 
         if parent is not None:
             self.parent = parent
-            if lang is None:
+            if lang is None and self.parent.lang is not None:
                 self.lang = self.parent.lang
 
     @property
@@ -282,7 +282,9 @@ class CtsTextMetadata(ResourceCollection, PrototypeCtsCollection):
         :returns: Desired output formatted resource
         """
         if output == Mimetypes.XML.CTS or output == Mimetypes.XML.CapiTainS.CTS:
-            attrs = {"urn": self.id, "xml:lang": self.lang}
+            attrs = {"urn": self.id}
+            if self.lang is not None:
+                attrs["xml:lang"] = self.lang
             if self.parent is not None and self.parent.id:
                 attrs["workUrn"] = self.parent.id
             if namespaces is True:
@@ -463,7 +465,8 @@ class CtsWorkMetadata(PrototypeCtsCollection):
 
         :return: List of available languages
         """
-        return str(self.graph.value(self.asNode(), DC.language))
+        lang = self.graph.value(self.asNode(), DC.language)
+        return None if lang is None else str(lang)
 
     @lang.setter
     def lang(self, lang):
@@ -535,7 +538,9 @@ class CtsWorkMetadata(PrototypeCtsCollection):
         :returns: Desired output formated resource
         """
         if output == Mimetypes.XML.CTS or output == Mimetypes.XML.CapiTainS.CTS:
-            attrs = {"urn": self.id, "xml:lang": self.lang}
+            attrs = {"urn": self.id}
+            if self.lang is not None:
+                attrs["xml:lang"] = self.lang
             if self.parent is not None and self.parent.id:
                 attrs["groupUrn"] = self.parent.id
             return self.__xml_export_generic__(attrs, namespaces=namespaces, output=output)
diff --git a/MyCapytain/resources/prototypes/metadata.py b/MyCapytain/resources/prototypes/metadata.py
index eefdffd..63b6620 100644
--- a/MyCapytain/resources/prototypes/metadata.py
+++ b/MyCapytain/resources/prototypes/metadata.py
@@ -447,7 +447,8 @@ class ResourceCollection(Collection):
 
         :return: List of available languages
         """
-        return str(self.graph.value(self.asNode(), DC.language))
+        lang = self.graph.value(self.asNode(), DC.language)
+        return None if lang is None else str(lang)
 
     @lang.setter
     def lang(self, lang):
-- 
2.43.0


From 2631da62e42ea491bff635224177f9956b40ced0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:32 +0000
Subject: [PATCH 23/86] fix: merged works keep recording their metadata in the
 shared store

---
 MyCapytain/resources/prototypes/cts/inventory.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/resources/prototypes/cts/inventory.py b/MyCapytain/resources/prototypes/cts/inventory.py
index fabbbff..1d4a740 100644
--- a/MyCapytain/resources/prototypes/cts/inventory.py
+++ b/MyCapytain/resources/prototypes/cts/inventory.py
@@ -600,10 +600,12 @@ class CtsTextgroupMetadata(PrototypeCtsCollection):
             raise InvalidURN("Cannot add CtsTextgroupMetadata %s to CtsTextgroupMetadata %s " % (self.urn, other.urn))
 
         for urn, work in other.works.items():
+            # The copy has its own tree, but keeps recording in the same triple store
+            copied = deepcopy(work, {id(work.graph): work.graph})
             if urn in self.works:
-                self.works[urn].update(deepcopy(work))
+                self.works[urn].update(copied)
             else:
-                self.works[urn] = deepcopy(work)
+                self.works[urn] = copied
             self.works[urn].parent = self
             self.works[urn].resource = None
 
-- 
2.43.0


From de9b3b9dee67fb97f41bf8d2d6796127b4576b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:24 +0000
Subject: [PATCH 24/86] fix: collections export to RDF/XML and JSON-LD as
 advertised

---
 MyCapytain/resources/prototypes/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resources/prototypes/metadata.py b/MyCapytain/resources/prototypes/metadata.py
index 63b6620..de81d05 100644
--- a/MyCapytain/resources/prototypes/metadata.py
+++ b/MyCapytain/resources/prototypes/metadata.py
@@ -432,7 +432,7 @@ class Collection(Exportable):
                 or output == Mimetypes.XML.RDF:
 
             # We create a temp graph
-            store = Subgraph(get_graph().namespace_manager)
+            store = Subgraph(dict(get_graph().namespace_manager.namespaces()))
             store.graphiter(self.graph, self.asNode(), ascendants=1, descendants=-1)
 
             o = store.serialize(format=RDFLIB_MAPPING[output], auto_compact=True, indent="")
-- 
2.43.0


From 2ae961f6c287349fdce9fa2bd61d178df8fe07f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:50 +0000
Subject: [PATCH 25/86] fix: repositories are found whatever characters their
 folder names hold

---
 MyCapytain/resolvers/cts/local.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/MyCapytain/resolvers/cts/local.py b/MyCapytain/resolvers/cts/local.py
index 0b22428..04e27d5 100644
--- a/MyCapytain/resolvers/cts/local.py
+++ b/MyCapytain/resolvers/cts/local.py
@@ -4,7 +4,7 @@
 import io
 import logging
 import os.path
-from glob import glob
+from glob import glob, escape
 from math import ceil
 
 from MyCapytain.common.reference._capitains_cts import CtsReference, URN
@@ -284,13 +284,15 @@ class CtsCapitainsLocalResolver(Resolver):
         invalids = []
 
         for folder in resource:
-            cts_files = glob("{base_folder}/data/*/__cts__.xml".format(base_folder=folder))
+            cts_files = glob("{base_folder}/data/*/__cts__.xml".format(base_folder=escape(folder)))
             for cts_file in cts_files:
                 textgroup, cts_file = self._parse_textgroup_wrapper(cts_file)
                 textgroups.append((textgroup, cts_file))
 
         for textgroup, cts_textgroup_file in textgroups:
-            cts_work_files = glob("{parent}/*/__cts__.xml".format(parent=os.path.dirname(cts_textgroup_file)))
+            cts_work_files = glob("{parent}/*/__cts__.xml".format(
+                parent=escape(os.path.dirname(cts_textgroup_file))
+            ))
 
             for cts_work_file in cts_work_files:
                 _, parsed_texts, directory = self._parse_work_wrapper(cts_work_file, textgroup)
-- 
2.43.0


From 30e24473f205dc03aa337bee07a581426e14fa98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:04 +0000
Subject: [PATCH 26/86] fix: metadata files that cannot be parsed are skipped
 when parsing errors are not raised

---
 MyCapytain/resolvers/cts/local.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/MyCapytain/resolvers/cts/local.py b/MyCapytain/resolvers/cts/local.py
index 04e27d5..ce3dd08 100644
--- a/MyCapytain/resolvers/cts/local.py
+++ b/MyCapytain/resolvers/cts/local.py
@@ -286,8 +286,9 @@ class CtsCapitainsLocalResolver(Resolver):
         for folder in resource:
             cts_files = glob("{base_folder}/data/*/__cts__.xml".format(base_folder=escape(folder)))
             for cts_file in cts_files:
-                textgroup, cts_file = self._parse_textgroup_wrapper(cts_file)
-                textgroups.append((textgroup, cts_file))
+                parsed = self._parse_textgroup_wrapper(cts_file)
+                if parsed is not None:
+                    textgroups.append(parsed)
 
         for textgroup, cts_textgroup_file in textgroups:
             cts_work_files = glob("{parent}/*/__cts__.xml".format(
@@ -295,8 +296,10 @@ class CtsCapitainsLocalResolver(Resolver):
             ))
 
             for cts_work_file in cts_work_files:
-                _, parsed_texts, directory = self._parse_work_wrapper(cts_work_file, textgroup)
-                texts.extend([(text, directory) for text in parsed_texts])
+                parsed = self._parse_work_wrapper(cts_work_file, textgroup)
+                if parsed is not None:
+                    _, parsed_texts, directory = parsed
+                    texts.extend([(text, directory) for text in parsed_texts])
 
         for text, directory in texts:
             # If text_id is not none, the text parsing errored
-- 
2.43.0


From 0d6aa69ee20a37df06b8ba48f0e75e1319769e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:20 +0000
Subject: [PATCH 27/86] fix: the edition found for a work belongs to that work

---
 MyCapytain/resolvers/cts/local.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resolvers/cts/local.py b/MyCapytain/resolvers/cts/local.py
index ce3dd08..bda547f 100644
--- a/MyCapytain/resolvers/cts/local.py
+++ b/MyCapytain/resolvers/cts/local.py
@@ -331,7 +331,7 @@ class CtsCapitainsLocalResolver(Resolver):
                 urn = [
                     t.id
                     for t in self.texts
-                    if t.id.startswith(str(urn)) and isinstance(t, CtsEditionMetadata)
+                    if t.id.startswith(str(urn) + ".") and isinstance(t, CtsEditionMetadata)
                 ]
                 if len(urn) > 0:
                     urn = URN(urn[0])
-- 
2.43.0


From 5c4f3fa88ec58a0a00f8dfa5c9f89e9179df3ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:33 +0000
Subject: [PATCH 28/86] fix: pagination never goes beyond the last page and
 always tells which page it gives

---
 MyCapytain/resolvers/cts/local.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/MyCapytain/resolvers/cts/local.py b/MyCapytain/resolvers/cts/local.py
index bda547f..a2773a2 100644
--- a/MyCapytain/resolvers/cts/local.py
+++ b/MyCapytain/resolvers/cts/local.py
@@ -408,8 +408,8 @@ class CtsCapitainsLocalResolver(Resolver):
         :param length: Length of the list to paginate
         :return: (Start Index, End Index, Page Number, Item Count)
         """
-        realpage = page
         page = page or CtsCapitainsLocalResolver.DEFAULT_PAGE
+        realpage = page
         limit = limit or CtsCapitainsLocalResolver.PER_PAGE[1]
 
         if limit < CtsCapitainsLocalResolver.PER_PAGE[0] or limit > CtsCapitainsLocalResolver.PER_PAGE[2]:
@@ -417,8 +417,8 @@ class CtsCapitainsLocalResolver(Resolver):
 
         page = (page - 1) * limit
 
-        if page > length:
-            realpage = int(ceil(length / limit))
+        if page >= length:
+            realpage = max(int(ceil(length / limit)), 1)
             page = limit * (realpage - 1)
             count = length - 1
         elif limit - 1 + page < length:
-- 
2.43.0


From 320970f6374314d987b3840c07b8768bf5639ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:03 +0000
Subject: [PATCH 29/86] fix: a collection without label has an empty title in
 DTS, not 'None'

---
 MyCapytain/resources/prototypes/metadata.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MyCapytain/resources/prototypes/metadata.py b/MyCapytain/resources/prototypes/metadata.py
index de81d05..72b1887 100644
--- a/MyCapytain/resources/prototypes/metadata.py
+++ b/MyCapytain/resources/prototypes/metadata.py
@@ -312,10 +312,11 @@ class Collection(Exportable):
         :return: Dict
         """
 
+        label = obj.get_label()
         o = {
             "@id": str(obj.asNode()),
             "@type": nsm.qname(obj.type),
-            nsm.qname(RDF_NAMESPACES.HYDRA.title): str(obj.get_label()),
+            nsm.qname(RDF_NAMESPACES.HYDRA.title): str(label) if label is not None else "",
             nsm.qname(RDF_NAMESPACES.HYDRA.totalItems): obj.size
         }
 
-- 
2.43.0


From fbd13f9098d0bb331bebea98b7938288cf08ae3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:41 +0000
Subject: [PATCH 30/86] fix: typed literals without JSON equivalent are
 exported as JSON-LD typed values

---
 MyCapytain/common/utils/_json_ld.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/MyCapytain/common/utils/_json_ld.py b/MyCapytain/common/utils/_json_ld.py
index ffcdeb6..5cbf22a 100644
--- a/MyCapytain/common/utils/_json_ld.py
+++ b/MyCapytain/common/utils/_json_ld.py
@@ -11,7 +11,13 @@ def literal_to_dict(value):
     if isinstance(value, Literal):
         if value.language is not None:
             return {"@value": str(value), "@language": value.language}
-        return value.toPython()
+        native = value.toPython()
+        if isinstance(native, (str, int, float)) and not isinstance(native, Literal):
+            return native
+        # No JSON equivalent : dates, decimals, unknown datatypes...
+        elif value.datatype is not None:
+            return {"@value": str(value), "@type": str(value.datatype)}
+        return str(value)
     elif isinstance(value, URIRef):
         return {"@id": str(value)}
     elif value is None:
-- 
2.43.0


From 8b061381ed7e7cd50972c5752dbe736535eb0cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:54 +0000
Subject: [PATCH 31/86] fix: DTS metadata whose values are references to
 resources can be parsed

---
 MyCapytain/common/utils/_json_ld.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/MyCapytain/common/utils/_json_ld.py b/MyCapytain/common/utils/_json_ld.py
index 5cbf22a..e3270b2 100644
--- a/MyCapytain/common/utils/_json_ld.py
+++ b/MyCapytain/common/utils/_json_ld.py
@@ -28,7 +28,9 @@ def literal_to_dict(value):
 def dict_to_literal(dict_container: dict):
     """ Transforms a JSON+LD PyLD dictionary into
     an RDFLib object"""
-    if isinstance(dict_container["@value"], int):
+    if "@id" in dict_container:
+        return URIRef(dict_container["@id"]),
+    elif isinstance(dict_container["@value"], int):
         return dict_container["@value"],
     else:
         return dict_container["@value"], dict_container.get("@language", None)
\ No newline at end of file
-- 
2.43.0


From ee95313315a33bc35b670d1e806d9310eddce10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:34 +0000
Subject: [PATCH 32/86] fix: the context of DTS exports declares the prefixes
 of types

---
 MyCapytain/resources/prototypes/metadata.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/MyCapytain/resources/prototypes/metadata.py b/MyCapytain/resources/prototypes/metadata.py
index 72b1887..b93ebe0 100644
--- a/MyCapytain/resources/prototypes/metadata.py
+++ b/MyCapytain/resources/prototypes/metadata.py
@@ -366,6 +366,11 @@ class Collection(Exportable):
                 prefix, namespace, name = nsm.compute_qname(predicate)
                 if prefix not in bindings and str(namespace) not in ignore_ns_for_bindings:
                     bindings[prefix] = str(URIRef(namespace))
+            # Types are written with prefixes as well
+            for described in [self] + (self.members if self.size else []):
+                prefix, namespace, name = nsm.compute_qname(described.type)
+                if prefix and prefix not in bindings:
+                    bindings[prefix] = str(URIRef(namespace))
 
             # Builds the specific Store data
             extensions = {}
-- 
2.43.0


From bc92db7b5e1698cd5df8d4da2f943a472c82f050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:28 +0000
Subject: [PATCH 33/86] fix: the citation structure of single level texts is
 part of their DTS export

---
 MyCapytain/resources/prototypes/metadata.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/MyCapytain/resources/prototypes/metadata.py b/MyCapytain/resources/prototypes/metadata.py
index b93ebe0..6aa555c 100644
--- a/MyCapytain/resources/prototypes/metadata.py
+++ b/MyCapytain/resources/prototypes/metadata.py
@@ -425,7 +425,9 @@ class Collection(Exportable):
                 if self.citation.depth:
                     o[graph.qname(RDF_NAMESPACES.DTS.term("citeDepth"))] = self.citation.depth
 
-                if not self.citation.is_empty():
+                # The root of a CTS scheme is itself a level, even when nothing lies below
+                if not self.citation.is_empty() or \
+                        (hasattr(self.citation, "is_set") and self.citation.is_set()):
                     o[graph.qname(RDF_NAMESPACES.DTS.term("citeStructure"))] = self.citation.export(
                         Mimetypes.JSON.DTS.Std,
                         context=False,
-- 
2.43.0


From adfb643b83fa482c69c2a0d290cb3e3f5808c912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:58 +0000
Subject: [PATCH 34/86] fix: a collection without any inventory exports to DTS

---
 MyCapytain/resources/prototypes/cts/inventory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resources/prototypes/cts/inventory.py b/MyCapytain/resources/prototypes/cts/inventory.py
index 1d4a740..360eb80 100644
--- a/MyCapytain/resources/prototypes/cts/inventory.py
+++ b/MyCapytain/resources/prototypes/cts/inventory.py
@@ -749,7 +749,7 @@ class CtsTextInventoryCollection(PrototypeCtsCollection):
                 output=output
             )
         elif output == Mimetypes.JSON.DTS.Std:
-            if len(self.members) > 1:
+            if len(self.members) != 1:
                 return Collection.__export__(self, output=output)
             else:
                 return self.members[0].export(output=output)
-- 
2.43.0


From e749959928146edc269a3afe2c870bc605665425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:30 +0000
Subject: [PATCH 35/86] fix: parents of a DTS collection can be parsed

---
 MyCapytain/resources/collections/dts/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resources/collections/dts/_base.py b/MyCapytain/resources/collections/dts/_base.py
index 91af7fe..e4ab733 100644
--- a/MyCapytain/resources/collections/dts/_base.py
+++ b/MyCapytain/resources/collections/dts/_base.py
@@ -111,7 +111,7 @@ class DtsCollection(Collection):
                 for coll in members
             })
         else:
-            self.parents.add(members)
+            self.parents.update(members)
 
     def _parse_metadata(self, data: dict):
 
-- 
2.43.0


From 54b1694e34aaecab1b0ef75597a47046d9661b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:00 +0000
Subject: [PATCH 36/86] fix: the size of a DTS collection is the last one known

---
 MyCapytain/resources/collections/dts/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resources/collections/dts/_base.py b/MyCapytain/resources/collections/dts/_base.py
index e4ab733..5fb03c0 100644
--- a/MyCapytain/resources/collections/dts/_base.py
+++ b/MyCapytain/resources/collections/dts/_base.py
@@ -131,7 +131,7 @@ class DtsCollection(Collection):
             self.citation.depth = data[_cite_depth_term][0]["@value"]
 
         for val_dict in data[str(_hyd.totalItems)]:
-            self.metadata.add(_hyd.totalItems, val_dict["@value"])
+            self.metadata.set(_hyd.totalItems, val_dict["@value"])
 
         for val_dict in data.get(str(_hyd.description), []):
             self.metadata.add(_hyd.description, val_dict["@value"], None)
-- 
2.43.0


From 30753daf33dd293e373cf70edcd6971557314d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:39 +0000
Subject: [PATCH 37/86] fix: CTS responses without a declared charset are UTF-8

---
 MyCapytain/retrievers/cts5.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/MyCapytain/retrievers/cts5.py b/MyCapytain/retrievers/cts5.py
index ac35030..58260bd 100644
--- a/MyCapytain/retrievers/cts5.py
+++ b/MyCapytain/retrievers/cts5.py
@@ -53,7 +53,9 @@ class HttpCtsRetriever(MyCapytain.retrievers.prototypes.CtsRetriever):
 
         request = requests.get(self.endpoint, params=parameters)
         request.raise_for_status()
-        if request.encoding is None:
+        if request.encoding is None or (
+                # The fallback of requests for text/* without a declared charset, while XML is UTF-8
+                request.encoding == "ISO-8859-1" and "charset" not in request.headers.get("Content-Type", "").lower()):
             request.encoding = "utf-8"
         return request.text
 
-- 
2.43.0


From e379d9d3e4d8b0e4b17694873f3a98a4e92a7dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:02 +0000
Subject: [PATCH 38/86] fix: passages of a CTS text know their parent

---
 MyCapytain/resources/prototypes/cts/text.py | 12 ++++++++++++
 MyCapytain/resources/prototypes/text.py     |  3 ++-
 MyCapytain/resources/texts/remote/cts.py    |  3 ++-
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/resources/prototypes/cts/text.py b/MyCapytain/resources/prototypes/cts/text.py
index 0584a19..da392ef 100644
--- a/MyCapytain/resources/prototypes/cts/text.py
+++ b/MyCapytain/resources/prototypes/cts/text.py
@@ -152,6 +152,12 @@ class PrototypeCtsPassage(PrototypeCtsNode):
     def reference(self) -> BaseReference:
         return self.urn.reference
 
+    @property
+    def parentId(self) -> BaseReference:
+        """ Reference of the parent passage, None when there is none (first level, whole text)
+        """
+        return self.reference.parent if self.reference else None
+
 
 class PrototypeCtsText(PrototypeCtsNode):
     """ A CTS CtsText
@@ -161,6 +167,12 @@ class PrototypeCtsText(PrototypeCtsNode):
         super(PrototypeCtsText, self).__init__(citation=citation, metadata=metadata, **kwargs)
         self._cts = None
 
+    @property
+    def parentId(self) -> None:
+        """ A text has no parent
+        """
+        return None
+
     @property
     def reffs(self) -> BaseReferenceSet:
         """ Get all valid reffs for every part of the CtsText
diff --git a/MyCapytain/resources/prototypes/text.py b/MyCapytain/resources/prototypes/text.py
index 03fa4bc..62864ed 100644
--- a/MyCapytain/resources/prototypes/text.py
+++ b/MyCapytain/resources/prototypes/text.py
@@ -306,7 +306,8 @@ class InteractiveTextualNode(TextualGraph):
         """ Parent TextualNode
 
         """
-        return self.getTextualNode(self.parentId)
+        if self.parentId is not None:
+            return self.getTextualNode(self.parentId)
 
     @property
     def first(self) -> TextualNode:
diff --git a/MyCapytain/resources/texts/remote/cts.py b/MyCapytain/resources/texts/remote/cts.py
index 3abdd76..3ce5807 100644
--- a/MyCapytain/resources/texts/remote/cts.py
+++ b/MyCapytain/resources/texts/remote/cts.py
@@ -425,7 +425,8 @@ class CtsPassage(_SharedMethod, PrototypeCtsPassage, TeiResource):
         :rtype: CtsReference
         :returns: Following passage reference
         """
-        return str(self.urn.reference.parent)
+        parent = super(CtsPassage, self).parentId
+        return str(parent) if parent is not None else None
 
     @property
     def nextId(self):
-- 
2.43.0


From 86052cde1b9f8a02b54fda0edf0edbe193530223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:10 +0000
Subject: [PATCH 39/86] fix: requests from a remote passage target its text

---
 MyCapytain/resources/texts/remote/cts.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/MyCapytain/resources/texts/remote/cts.py b/MyCapytain/resources/texts/remote/cts.py
index 3ce5807..8426577 100644
--- a/MyCapytain/resources/texts/remote/cts.py
+++ b/MyCapytain/resources/texts/remote/cts.py
@@ -71,7 +71,7 @@ class _SharedMethod(InteractiveTextualNode):
         :returns: List of levels
         """
         if reference:
-            urn = "{0}:{1}".format(self.urn, reference)
+            urn = "{0}:{1}".format(self.urn.upTo(URN.NO_PASSAGE), reference)
         else:
             urn = str(self.urn)
 
@@ -100,14 +100,14 @@ class _SharedMethod(InteractiveTextualNode):
         if isinstance(subreference, URN):
             urn = str(subreference)
         elif isinstance(subreference, CtsReference):
-            urn = "{0}:{1}".format(self.urn, str(subreference))
+            urn = "{0}:{1}".format(self.urn.upTo(URN.NO_PASSAGE), str(subreference))
         elif isinstance(subreference, str):
             if ":" in subreference:
                 urn = subreference
             else:
                 urn = "{0}:{1}".format(self.urn.upTo(URN.NO_PASSAGE), subreference)
         elif isinstance(subreference, list):
-            urn = "{0}:{1}".format(self.urn, ".".join(subreference))
+            urn = "{0}:{1}".format(self.urn.upTo(URN.NO_PASSAGE), ".".join(subreference))
         else:
             urn = str(self.urn)
 
@@ -141,7 +141,7 @@ class _SharedMethod(InteractiveTextualNode):
         :raises: *TypeError* when reference is not a list or a Reference
         """
         if reference:
-            urn = "{0}:{1}".format(self.urn, reference)
+            urn = "{0}:{1}".format(self.urn.upTo(URN.NO_PASSAGE), reference)
         else:
             urn = str(self.urn)
 
-- 
2.43.0


From 63aab9f97af7df53cdcc213245f33ff043cde8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:24 +0000
Subject: [PATCH 40/86] fix: metadata of remote CTS texts keep their language

---
 MyCapytain/resources/texts/remote/cts.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/MyCapytain/resources/texts/remote/cts.py b/MyCapytain/resources/texts/remote/cts.py
index 8426577..0614c2e 100644
--- a/MyCapytain/resources/texts/remote/cts.py
+++ b/MyCapytain/resources/texts/remote/cts.py
@@ -159,22 +159,22 @@ class _SharedMethod(InteractiveTextualNode):
         :type xml: Union[lxml.etree._Element]
         """
         for node in xml.xpath(".//ti:groupname", namespaces=XPATH_NAMESPACES):
-            lang = node.get("xml:lang") or CtsText.DEFAULT_LANG
+            lang = node.get("{http://www.w3.org/XML/1998/namespace}lang") or CtsText.DEFAULT_LANG
             self.metadata.add(RDF_NAMESPACES.CTS.groupname, lang=lang, value=node.text)
             self.set_creator(node.text, lang)
 
         for node in xml.xpath(".//ti:title", namespaces=XPATH_NAMESPACES):
-            lang = node.get("xml:lang") or CtsText.DEFAULT_LANG
+            lang = node.get("{http://www.w3.org/XML/1998/namespace}lang") or CtsText.DEFAULT_LANG
             self.metadata.add(RDF_NAMESPACES.CTS.title, lang=lang, value=node.text)
             self.set_title(node.text, lang)
 
         for node in xml.xpath(".//ti:label", namespaces=XPATH_NAMESPACES):
-            lang = node.get("xml:lang") or CtsText.DEFAULT_LANG
+            lang = node.get("{http://www.w3.org/XML/1998/namespace}lang") or CtsText.DEFAULT_LANG
             self.metadata.add(RDF_NAMESPACES.CTS.label, lang=lang, value=node.text)
             self.set_subject(node.text, lang)
 
         for node in xml.xpath(".//ti:description", namespaces=XPATH_NAMESPACES):
-            lang = node.get("xml:lang") or CtsText.DEFAULT_LANG
+            lang = node.get("{http://www.w3.org/XML/1998/namespace}lang") or CtsText.DEFAULT_LANG
             self.metadata.add(RDF_NAMESPACES.CTS.description, lang=lang, value=node.text)
             self.set_description(node.text, lang)
 
-- 
2.43.0


From 31ceff12c70e6ad8020c8a0d3ebec723f093d43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:35 +0000
Subject: [PATCH 41/86] fix: empty names of remote CTS texts are not 'None'

---
 MyCapytain/resources/texts/remote/cts.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/MyCapytain/resources/texts/remote/cts.py b/MyCapytain/resources/texts/remote/cts.py
index 0614c2e..b039d7d 100644
--- a/MyCapytain/resources/texts/remote/cts.py
+++ b/MyCapytain/resources/texts/remote/cts.py
@@ -160,23 +160,23 @@ class _SharedMethod(InteractiveTextualNode):
         """
         for node in xml.xpath(".//ti:groupname", namespaces=XPATH_NAMESPACES):
             lang = node.get("{http://www.w3.org/XML/1998/namespace}lang") or CtsText.DEFAULT_LANG
-            self.metadata.add(RDF_NAMESPACES.CTS.groupname, lang=lang, value=node.text)
-            self.set_creator(node.text, lang)
+            self.metadata.add(RDF_NAMESPACES.CTS.groupname, lang=lang, value=node.text or "")
+            self.set_creator(node.text or "", lang)
 
         for node in xml.xpath(".//ti:title", namespaces=XPATH_NAMESPACES):
             lang = node.get("{http://www.w3.org/XML/1998/namespace}lang") or CtsText.DEFAULT_LANG
-            self.metadata.add(RDF_NAMESPACES.CTS.title, lang=lang, value=node.text)
-            self.set_title(node.text, lang)
+            self.metadata.add(RDF_NAMESPACES.CTS.title, lang=lang, value=node.text or "")
+            self.set_title(node.text or "", lang)
 
         for node in xml.xpath(".//ti:label", namespaces=XPATH_NAMESPACES):
             lang = node.get("{http://www.w3.org/XML/1998/namespace}lang") or CtsText.DEFAULT_LANG
-            self.metadata.add(RDF_NAMESPACES.CTS.label, lang=lang, value=node.text)
-            self.set_subject(node.text, lang)
+            self.metadata.add(RDF_NAMESPACES.CTS.label, lang=lang, value=node.text or "")
+            self.set_subject(node.text or "", lang)
 
         for node in xml.xpath(".//ti:description", namespaces=XPATH_NAMESPACES):
             lang = node.get("{http://www.w3.org/XML/1998/namespace}lang") or CtsText.DEFAULT_LANG
-            self.metadata.add(RDF_NAMESPACES.CTS.description, lang=lang, value=node.text)
-            self.set_description(node.text, lang)
+            self.metadata.add(RDF_NAMESPACES.CTS.description, lang=lang, value=node.text or "")
+            self.set_description(node.text or "", lang)
 
         # Need to code that p
         if not self.citation.is_set() and xml.xpath("//ti:citation", namespaces=XPATH_NAMESPACES):
-- 
2.43.0


From 7213b7b52b945a0e370e24e726f2d62c0c4b9d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:48 +0000
Subject: [PATCH 42/86] fix: a remote CTS passage implements its urn, not
 'None'

---
 MyCapytain/resources/texts/remote/cts.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/MyCapytain/resources/texts/remote/cts.py b/MyCapytain/resources/texts/remote/cts.py
index b039d7d..ccfcc24 100644
--- a/MyCapytain/resources/texts/remote/cts.py
+++ b/MyCapytain/resources/texts/remote/cts.py
@@ -391,8 +391,7 @@ class CtsPassage(_SharedMethod, PrototypeCtsPassage, TeiResource):
 
     def __init__(self, urn, resource, *args, **kwargs):
         SuperKwargs = {key: value for key, value in kwargs.items() if key not in ["parent"]}
-        super(CtsPassage, self).__init__(resource=resource, *args, **SuperKwargs)
-        self.urn = urn
+        super(CtsPassage, self).__init__(resource=resource, urn=urn, *args, **SuperKwargs)
 
         # Could be set during parsing
         self._next_id = False
-- 
2.43.0


From 82f92255cb7905e524c4546b0705065bba5cd6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:48 +0000
Subject: [PATCH 43/86] fix: remote passages without children have no last
 child

---
 MyCapytain/resources/texts/remote/cts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resources/texts/remote/cts.py b/MyCapytain/resources/texts/remote/cts.py
index ccfcc24..638b3fe 100644
--- a/MyCapytain/resources/texts/remote/cts.py
+++ b/MyCapytain/resources/texts/remote/cts.py
@@ -267,7 +267,7 @@ class _SharedMethod(InteractiveTextualNode):
         """
         if self._last is False:
             # Request the next urn
-            self._last = self.childIds[-1]
+            self._last = self.childIds[-1] if self.childIds else None
         return self._last
 
     @staticmethod
-- 
2.43.0


From bc3a1a7194ec38d42b7d02483f4a4eae5f44d087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:31 +0000
Subject: [PATCH 44/86] fix: XML export of a passage leaves out what follows
 its element

---
 MyCapytain/resources/texts/base/tei.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resources/texts/base/tei.py b/MyCapytain/resources/texts/base/tei.py
index 2dd0ba4..6b47247 100644
--- a/MyCapytain/resources/texts/base/tei.py
+++ b/MyCapytain/resources/texts/base/tei.py
@@ -101,7 +101,7 @@ class TeiResource(InteractiveTextualNode):
 
         elif output == Mimetypes.XML.Std or output == Mimetypes.XML.TEI:
             # Exports the whole resource formatted as XML but as string object
-            return tostring(self.resource, encoding=str)
+            return tostring(self.resource, encoding=str, with_tail=False)
 
         elif output == Mimetypes.PYTHON.NestedDict:
             # Exports the whole resource into a NestedDict
-- 
2.43.0


From 05a5ed685d15d37e2e974c3904a0bed224f047f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:42 +0000
Subject: [PATCH 45/86] fix: ranges of a text keep the text between their units

---
 MyCapytain/common/utils/xml.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/MyCapytain/common/utils/xml.py b/MyCapytain/common/utils/xml.py
index 244804a..0d01582 100644
--- a/MyCapytain/common/utils/xml.py
+++ b/MyCapytain/common/utils/xml.py
@@ -223,7 +223,9 @@ def passageLoop(parent, new_tree, xpath1, xpath2=None, preceding_siblings=False,
         has_no_queue = len(queue_1) == 0
         # For each sibling, when we need them in the context of a range
         if preceding_siblings or following_siblings:
-            for sibling in xmliter(parent, tag=etree.Element):
+            if preceding_siblings and parent.text:
+                new_tree._setText(parent.text)
+            for sibling in xmliter(parent):
                 if sibling is result_1:
                     central = True
                     # We copy the node we looked for (Result_1)
@@ -243,10 +245,11 @@ def passageLoop(parent, new_tree, xpath1, xpath2=None, preceding_siblings=False,
                     # As we don't need to go further
                     if preceding_siblings:
                         break
+                    child.tail = result_1.tail
                 elif not central and preceding_siblings:
-                    copyNode(sibling, parent=new_tree, children=True)
+                    new_tree.append(copy(sibling))
                 elif central and following_siblings:
-                    copyNode(sibling, parent=new_tree, children=True)
+                    new_tree.append(copy(sibling))
     else:
         result_1, loop = performXpath(parent, current_1)
         if loop is True:
@@ -278,7 +281,7 @@ def passageLoop(parent, new_tree, xpath1, xpath2=None, preceding_siblings=False,
         else:
             start = False
             # For each sibling
-            for sibling in xmliter(parent, tag=etree.Element):
+            for sibling in xmliter(parent):
                 # If we have found start
                 # We copy the node because we are between start and end
                 if start:
@@ -287,7 +290,7 @@ def passageLoop(parent, new_tree, xpath1, xpath2=None, preceding_siblings=False,
                     if sibling is result_2:
                         break
                     else:
-                        copyNode(sibling, parent=new_tree, children=True)
+                        new_tree.append(copy(sibling))
                 # If this is start
                 # Then we copy it and initiate star
                 elif sibling is result_1:
@@ -296,6 +299,7 @@ def passageLoop(parent, new_tree, xpath1, xpath2=None, preceding_siblings=False,
                     node = copyNode(sibling, children=has_no_queue_1, parent=new_tree)
                     if not has_no_queue_1:
                         passageLoop(sibling, node, queue_1, None, following_siblings=True)
+                    node.tail = sibling.tail
 
             continue_loop = len(queue_2) == 0
             node = copyNode(result_2, children=continue_loop, parent=new_tree)
-- 
2.43.0


From 900cac73e7f08de5b434a979cf43ecfbfb23147b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:27 +0000
Subject: [PATCH 46/86] fix: DTS requests send a plain tuple as a range, as
 documented

---
 MyCapytain/retrievers/dts/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MyCapytain/retrievers/dts/__init__.py b/MyCapytain/retrievers/dts/__init__.py
index cf833bf..1b701b3 100644
--- a/MyCapytain/retrievers/dts/__init__.py
+++ b/MyCapytain/retrievers/dts/__init__.py
@@ -25,6 +25,8 @@ def _parse_ref_parameters(parameters, ref):
             parameters["start"], parameters["end"] = ref
         else:
             parameters["ref"] = ref.start
+    elif isinstance(ref, tuple):
+        parameters["start"], parameters["end"] = ref
     elif ref:
         parameters["ref"] = ref
 
-- 
2.43.0


From 91dda9179c51c8c6fd67ffe723ac90344f9af5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:39 +0000
Subject: [PATCH 47/86] fix: DTS routes on another host are asked there

---
 MyCapytain/common/utils/_http.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/common/utils/_http.py b/MyCapytain/common/utils/_http.py
index 68d212f..cacfde1 100644
--- a/MyCapytain/common/utils/_http.py
+++ b/MyCapytain/common/utils/_http.py
@@ -38,8 +38,8 @@ def parse_uri(uri, endpoint_uri):
     :return: Parsed route
     :rtype: _Route
     """
-    temp_parse = urlparse(uri)
+    temp_parse = urlparse(urljoin(endpoint_uri, uri))
     return _Route(
-        urljoin(endpoint_uri, temp_parse.path),
+        temp_parse._replace(query="", fragment="").geturl(),
         parse_qs(temp_parse.query)
     )
-- 
2.43.0


From 70a1cbed2b1591a7f16c364f9c5ce74d994377e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:50 +0000
Subject: [PATCH 48/86] fix: DTS routes keep their query parameters without a
 value

---
 MyCapytain/common/utils/_http.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/common/utils/_http.py b/MyCapytain/common/utils/_http.py
index cacfde1..3f7c666 100644
--- a/MyCapytain/common/utils/_http.py
+++ b/MyCapytain/common/utils/_http.py
@@ -41,5 +41,5 @@ def parse_uri(uri, endpoint_uri):
     temp_parse = urlparse(urljoin(endpoint_uri, uri))
     return _Route(
         temp_parse._replace(query="", fragment="").geturl(),
-        parse_qs(temp_parse.query)
+        parse_qs(temp_parse.query, keep_blank_values=True)
     )
-- 
2.43.0


From ef67029bd421251210823ad446f7696f58d151d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:02 +0000
Subject: [PATCH 49/86] fix: pages of Link headers are found wherever the
 parameter is

---
 MyCapytain/common/utils/_http.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/common/utils/_http.py b/MyCapytain/common/utils/_http.py
index 3f7c666..547f54c 100644
--- a/MyCapytain/common/utils/_http.py
+++ b/MyCapytain/common/utils/_http.py
@@ -16,7 +16,7 @@ def parse_pagination(headers):
     :rtype: _Navigation
     """
     links = {
-        link.rel: parse_qs(link.href).get("page", None)
+        link.rel: parse_qs(urlparse(link.href).query).get("page", [None])
         for link in link_header.parse(headers.get("Link", "")).links
     }
     return _Navigation(
-- 
2.43.0


From ea9f8cbbfadc0c717f5cedf487600237a50b4e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:13 +0000
Subject: [PATCH 50/86] fix: DTS responses without a declared charset are UTF-8

---
 MyCapytain/retrievers/dts/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/MyCapytain/retrievers/dts/__init__.py b/MyCapytain/retrievers/dts/__init__.py
index 1b701b3..95dfeaa 100644
--- a/MyCapytain/retrievers/dts/__init__.py
+++ b/MyCapytain/retrievers/dts/__init__.py
@@ -70,7 +70,9 @@ class HttpDtsRetriever(MyCapytain.retrievers.prototypes.API):
             }
         )
         request.raise_for_status()
-        if request.encoding is None:
+        if request.encoding is None or (
+                # The fallback of requests for text/* without a declared charset, while XML is UTF-8
+                request.encoding == "ISO-8859-1" and "charset" not in request.headers.get("Content-Type", "").lower()):
             request.encoding = "utf-8"
         return request
 
-- 
2.43.0


From 6facd0df29bfd36462cc0a545e121861df71faf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:29 +0000
Subject: [PATCH 51/86] fix: members of a DTS collection are complete even when
 its parents are already known

---
 MyCapytain/resources/collections/dts/_resolver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resources/collections/dts/_resolver.py b/MyCapytain/resources/collections/dts/_resolver.py
index cb07add..0693e3a 100644
--- a/MyCapytain/resources/collections/dts/_resolver.py
+++ b/MyCapytain/resources/collections/dts/_resolver.py
@@ -89,7 +89,7 @@ class HttpResolverDtsCollection(DtsCollection):
             self,
             "_children",
             update_lambda=lambda: self._parse_paginated_members(direction="children"),
-            condition_lambda=lambda: self._parsed["parents"]
+            condition_lambda=lambda: self._parsed["children"]
         )
         self._parents = PaginatedProxy(
             self,
-- 
2.43.0


From 4e853cb9683fdaad333e31b7b33dc7bdeb0cf1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:46 +0000
Subject: [PATCH 52/86] fix: members of a DTS collection can be counted

---
 MyCapytain/resources/collections/dts/_resolver.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MyCapytain/resources/collections/dts/_resolver.py b/MyCapytain/resources/collections/dts/_resolver.py
index 0693e3a..219b513 100644
--- a/MyCapytain/resources/collections/dts/_resolver.py
+++ b/MyCapytain/resources/collections/dts/_resolver.py
@@ -52,6 +52,9 @@ class PaginatedProxy:
     def __iter__(self):
         return iter(self._run())
 
+    def __len__(self):
+        return len(self._run())
+
     def __getitem__(self, item):
         if isinstance(self._proxied, (list, dict, set, tuple)):
             # If it is in, we do not update the object
-- 
2.43.0


From fa3648291602ca1566141af949459d2cd770577e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:00 +0000
Subject: [PATCH 53/86] fix: a DTS collection is retrieved once

---
 MyCapytain/resources/collections/dts/_resolver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/MyCapytain/resources/collections/dts/_resolver.py b/MyCapytain/resources/collections/dts/_resolver.py
index 219b513..8fefdf4 100644
--- a/MyCapytain/resources/collections/dts/_resolver.py
+++ b/MyCapytain/resources/collections/dts/_resolver.py
@@ -184,6 +184,7 @@ class HttpResolverDtsCollection(DtsCollection):
                     "The contacted endpoint seems to not have any data about collection %s " % self.id
                 )
             self._parse_metadata(expand(data)[0])
+            self._parsed["metadata"] = True
         return True
 
     @classmethod
-- 
2.43.0


From d128ceed98a9e119a2e251b561b3ea2985b681a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:22 +0000
Subject: [PATCH 54/86] fix: the next page of a DTS answer is the one its link
 names

---
 MyCapytain/resolvers/dts/api_v1.py                | 2 +-
 MyCapytain/resources/collections/dts/_resolver.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/resolvers/dts/api_v1.py b/MyCapytain/resolvers/dts/api_v1.py
index 1defc8a..c59f9cd 100644
--- a/MyCapytain/resolvers/dts/api_v1.py
+++ b/MyCapytain/resolvers/dts/api_v1.py
@@ -26,7 +26,7 @@ __all__ = [
 ]
 
 _empty = [{"@value": None}]
-_re_page = re.compile("page=(\d+)")
+_re_page = re.compile(r"[?&]page=(\d+)")
 
 
 def _parse_ref(ref_dict, default_type: str=None):
diff --git a/MyCapytain/resources/collections/dts/_resolver.py b/MyCapytain/resources/collections/dts/_resolver.py
index 8fefdf4..9109390 100644
--- a/MyCapytain/resources/collections/dts/_resolver.py
+++ b/MyCapytain/resources/collections/dts/_resolver.py
@@ -9,7 +9,7 @@ from ._base import DtsCollection
 
 _hyd = RDF_NAMESPACES.HYDRA
 _empty = [{"@value": None}]
-_re_page = re.compile("page=(\d+)")
+_re_page = re.compile(r"[?&]page=(\d+)")
 
 
 class PaginatedProxy:
-- 
2.43.0


From 917df898db15e2412d84e6fc446ca327d692f53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:01 +0000
Subject: [PATCH 55/86] fix: members and parents of a DTS collection appear
 once and stay the same

---
 MyCapytain/resources/collections/dts/_resolver.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/MyCapytain/resources/collections/dts/_resolver.py b/MyCapytain/resources/collections/dts/_resolver.py
index 9109390..9ce5000 100644
--- a/MyCapytain/resources/collections/dts/_resolver.py
+++ b/MyCapytain/resources/collections/dts/_resolver.py
@@ -107,6 +107,12 @@ class HttpResolverDtsCollection(DtsCollection):
         """ Launch parsing of children
         """
 
+        # Collections met before all pages are parsed stay the ones they are
+        if direction == "children":
+            known = set(self._children._proxied)
+        else:
+            known = {o.id for o in self._parents._proxied}
+
         page = self._last_page_parsed[direction]
         if not page:
             page = 1
@@ -135,6 +141,7 @@ class HttpResolverDtsCollection(DtsCollection):
                     for o in type(self).parse_member(
                         obj=data, collection=self, direction=direction, resolver=self._resolver
                     )
+                    if o.id not in known
                 })
             else:
                 self.parents.update({
@@ -142,6 +149,7 @@ class HttpResolverDtsCollection(DtsCollection):
                     for o in type(self).parse_member(
                         obj=data, collection=self, direction=direction, resolver=self._resolver
                     )
+                    if o.id not in known
                 })
             self._last_page_parsed[direction] = page
 
-- 
2.43.0


From ee2fb392dee2a1064fb6eb98e1c5070c6e67002a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:20 +0000
Subject: [PATCH 56/86] fix: XML given as text can declare its encoding

---
 MyCapytain/common/utils/xml.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/MyCapytain/common/utils/xml.py b/MyCapytain/common/utils/xml.py
index 0d01582..2a26d71 100644
--- a/MyCapytain/common/utils/xml.py
+++ b/MyCapytain/common/utils/xml.py
@@ -1,3 +1,4 @@
+import re
 from copy import copy
 from io import StringIO, IOBase
 from xml.sax.saxutils import escape
@@ -24,6 +25,9 @@ __all__ = [
 _parser = etree.XMLParser(collect_ids=False, resolve_entities=False)
 
 
+_encoding_declaration = re.compile(r"^(<\?xml\b[^>]*?)\s+encoding\s*=\s*(?:\"[^\"]*\"|'[^']*')")
+
+
 def make_xml_node(graph, name, close=False, attributes=None, text="", complete=False, innerXML=""):
     """ Create an XML Node
 
@@ -94,7 +98,8 @@ def xmlparser(xml, objectify=True):
     if isinstance(xml, (etree._Element, ObjectifiedElement, etree._ElementTree)):
         return xml
     elif isinstance(xml, text_type):
-        xml = StringIO(xml)
+        # The text is decoded already, and lxml refuses text that declares an encoding
+        xml = StringIO(_encoding_declaration.sub(r"\1", xml, count=1))
         doclose = True
     elif not isinstance(xml, IOBase):
         raise TypeError("Unsupported type of resource {}".format(type(xml)))
-- 
2.43.0


From 8ef27937cc31cbbfdba98f278f5910d3037883ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:48 +0000
Subject: [PATCH 57/86] fix: a navigation answer without data is reported as
 such

---
 MyCapytain/resolvers/dts/api_v1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resolvers/dts/api_v1.py b/MyCapytain/resolvers/dts/api_v1.py
index c59f9cd..1c8c2dd 100644
--- a/MyCapytain/resolvers/dts/api_v1.py
+++ b/MyCapytain/resolvers/dts/api_v1.py
@@ -113,7 +113,7 @@ class HttpDtsResolver(Resolver):
             data = expand(data)
             if not len(data):
                 raise PaginationBrowsingError(
-                    "The contacted endpoint seems to not have any data about collection %s " % self.id
+                    "The contacted endpoint seems to not have any data about text %s " % textId
                 )
             data = data[0]
 
-- 
2.43.0


From f65e2beb67a3f173148fc39ab99e4b4daedda55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:00 +0000
Subject: [PATCH 58/86] fix: references of a DTS document are those of the
 requested level

---
 MyCapytain/resources/texts/remote/dts/_resolver_v1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resources/texts/remote/dts/_resolver_v1.py b/MyCapytain/resources/texts/remote/dts/_resolver_v1.py
index 19c466f..f4b62a5 100644
--- a/MyCapytain/resources/texts/remote/dts/_resolver_v1.py
+++ b/MyCapytain/resources/texts/remote/dts/_resolver_v1.py
@@ -66,7 +66,7 @@ class DtsResolverDocument(TeiResource):
         return obj
 
     def getReffs(self, level: int=1, subreference: DtsReference=None):
-        return self.resolver.getReffs(textId=self.id, subreference=(subreference or self.reference))
+        return self.resolver.getReffs(textId=self.id, level=level, subreference=(subreference or self.reference))
 
     def _dict_to_ref(self, header_dic):
         ref = header_dic.get("ref", [None])[0]
-- 
2.43.0


From 3af2267d60d10889067872e047693b6ed4d49e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:14 +0000
Subject: [PATCH 59/86] fix: the parent of a DTS passage is the one its up link
 names

---
 MyCapytain/resources/texts/remote/dts/_resolver_v1.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/resources/texts/remote/dts/_resolver_v1.py b/MyCapytain/resources/texts/remote/dts/_resolver_v1.py
index f4b62a5..2a4a63c 100644
--- a/MyCapytain/resources/texts/remote/dts/_resolver_v1.py
+++ b/MyCapytain/resources/texts/remote/dts/_resolver_v1.py
@@ -96,11 +96,11 @@ class DtsResolverDocument(TeiResource):
             o._next_id = o._dict_to_ref(links.get("next"))
         if links.get("prev"):
             o._prev_id = o._dict_to_ref(links.get("prev"))
-        if links.get("parent"):
+        if links.get("up"):
             o._parent = o._dict_to_ref(links.get("up"))
         if links.get("first"):
             o._first_id = o._dict_to_ref(links.get("first"))
-        if links.get("parent"):
+        if links.get("last"):
             o._last_id = o._dict_to_ref(links.get("last"))
         if links.get("collection"):
             o._collection = o._dict_to_ref(links.get("collection"))
-- 
2.43.0


From fd4101ca678db9a0dc50a01820482133728ebb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:52 +0000
Subject: [PATCH 60/86] fix: files of a local repository are read in the
 encoding they declare

---
 MyCapytain/resolvers/cts/local.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/MyCapytain/resolvers/cts/local.py b/MyCapytain/resolvers/cts/local.py
index a2773a2..2efbc4b 100644
--- a/MyCapytain/resolvers/cts/local.py
+++ b/MyCapytain/resolvers/cts/local.py
@@ -118,7 +118,7 @@ class CtsCapitainsLocalResolver(Resolver):
         :return: Parsed Text
         :rtype: CapitainsCtsText
         """
-        with open(path) as f:
+        with open(path, "rb") as f:
             o = self.classes["text"](urn=identifier, resource=self.xmlparse(f))
         return o
 
@@ -143,7 +143,7 @@ class CtsCapitainsLocalResolver(Resolver):
         :type cts_file: str
         :return: CtsTextgroupMetadata and Current file
         """
-        with io.open(cts_file) as __xml__:
+        with io.open(cts_file, "rb") as __xml__:
             return self.classes["textgroup"].parse(
                 resource=__xml__
             ), cts_file
@@ -173,7 +173,7 @@ class CtsCapitainsLocalResolver(Resolver):
         :type textgroup: CtsTextgroupMetadata
         :return: Parsed Work and the Texts, as well as the current file directory
         """
-        with io.open(cts_file) as __xml__:
+        with io.open(cts_file, "rb") as __xml__:
             work, texts = self.classes["work"].parse(
                 resource=__xml__,
                 parent=textgroup,
@@ -343,7 +343,7 @@ class CtsCapitainsLocalResolver(Resolver):
         text = self.inventory[str(urn)]
 
         if os.path.isfile(text.path):
-            with io.open(text.path) as __xml__:
+            with io.open(text.path, "rb") as __xml__:
                 resource = self.classes["text"](urn=urn, resource=self.xmlparse(__xml__))
         else:
             resource = None
-- 
2.43.0


From cc2b096a207633d2500953765f8bfc6f6d5ef07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:46 +0000
Subject: [PATCH 61/86] fix: a literal that reads like the identifier of a
 resource does not hide the resource from exports

---
 MyCapytain/common/utils/_graph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/MyCapytain/common/utils/_graph.py b/MyCapytain/common/utils/_graph.py
index fe043b0..f97dcd9 100644
--- a/MyCapytain/common/utils/_graph.py
+++ b/MyCapytain/common/utils/_graph.py
@@ -38,7 +38,7 @@ class Subgraph(object):
         if desc != 0:
             desc -= 1
 
-        t = str(target)
+        t = target
 
         if descendants != 0 and self.downwards[t] is True:
             self.downwards[t] = False
@@ -48,7 +48,7 @@ class Subgraph(object):
                 self.add((target, pred, obj))
 
                 # Retrieve triples about the object
-                if desc != 0 and self.downwards[str(obj)] is True:
+                if desc != 0 and self.downwards[obj] is True:
                     self.graphiter(graph, target=obj, ascendants=0, descendants=desc)
 
         if ascendants != 0 and self.updwards[t] is True:
@@ -59,7 +59,7 @@ class Subgraph(object):
                 self.add((s, p, target))
 
                 # Retrieve triples about the parent as object
-                if asc != 0 and self.updwards[str(s)] is True:
+                if asc != 0 and self.updwards[s] is True:
                     self.graphiter(graph, target=s, ascendants=asc, descendants=0)
 
     def serialize(self, *args, **kwargs):
-- 
2.43.0


From 44a95369ad8093a6a4d8f1e72b7ee8eeefb9a343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:58 +0000
Subject: [PATCH 62/86] fix: metadata do not advertise RDFa, which they cannot
 be exported to

---
 MyCapytain/common/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/common/metadata.py b/MyCapytain/common/metadata.py
index da04de7..458ee52 100644
--- a/MyCapytain/common/metadata.py
+++ b/MyCapytain/common/metadata.py
@@ -29,7 +29,7 @@ class Metadata(Exportable):
     :cvar DEFAULT_EXPORT: Default export (CTS XML Inventory)
     :cvar STORE: RDF Store
     """
-    EXPORT_TO = [Mimetypes.JSON.Std, Mimetypes.XML.RDF, Mimetypes.XML.RDFa, Mimetypes.JSON.LD,
+    EXPORT_TO = [Mimetypes.JSON.Std, Mimetypes.XML.RDF, Mimetypes.JSON.LD,
                  Mimetypes.XML.CapiTainS.CTS]
     DEFAULT_EXPORT = Mimetypes.JSON.Std
     
-- 
2.43.0


From d813b2259d542ae4a10e50ad9d6fd670e78570c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:56 +0000
Subject: [PATCH 63/86] fix: the nested dictionary of a passage goes down to
 the smallest units

---
 MyCapytain/resources/texts/base/tei.py            |  8 +++++++-
 MyCapytain/resources/texts/local/capitains/cts.py | 10 ++++++++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/MyCapytain/resources/texts/base/tei.py b/MyCapytain/resources/texts/base/tei.py
index 6b47247..53d8ff4 100644
--- a/MyCapytain/resources/texts/base/tei.py
+++ b/MyCapytain/resources/texts/base/tei.py
@@ -39,6 +39,12 @@ class TeiResource(InteractiveTextualNode):
         self.resource = xmlparser(resource)
         self._plaintext_string_join = "" + self.PLAINTEXT_STRING_JOIN
 
+    @property
+    def _lowest_level(self) -> int:
+        """ Level to give to getReffs to retrieve the smallest units of the resource
+        """
+        return len(self.citation)
+
     @property
     def plaintext_string_join(self) -> str:
         """ String used to join xml node's texts in export
@@ -105,7 +111,7 @@ class TeiResource(InteractiveTextualNode):
 
         elif output == Mimetypes.PYTHON.NestedDict:
             # Exports the whole resource into a NestedDict
-            reffs = self.getReffs(level=len(self.citation))
+            reffs = self.getReffs(level=self._lowest_level)
             text = nested_ordered_dictionary()
             for reff in reffs:
                 _r = str(reff).split(".")  # Only works for non range of course
diff --git a/MyCapytain/resources/texts/local/capitains/cts.py b/MyCapytain/resources/texts/local/capitains/cts.py
index 36543d1..5de027b 100644
--- a/MyCapytain/resources/texts/local/capitains/cts.py
+++ b/MyCapytain/resources/texts/local/capitains/cts.py
@@ -337,6 +337,11 @@ class _SimplePassage(_SharedMethods, PrototypeCtsPassage):
             self._depth = reference.depth
         self._prev_next = None
 
+    @property
+    def _lowest_level(self):
+        # Levels of a simple passage are counted from the passage
+        return len(self.citation.root) - self.depth
+
     @property
     def reference(self):
         """ URN CapitainsCtsPassage CtsReference
@@ -567,6 +572,11 @@ class CapitainsCtsPassage(_SharedMethods, PrototypeCtsPassage):
 
         self._prev_next = None  # For caching purpose
 
+    @property
+    def _lowest_level(self):
+        # Levels of a passage with its context are those of the text
+        return len(self.citation.root)
+
     @property
     def reference(self):
         """ CtsReference of the object
-- 
2.43.0


From fa2cd977aea10def4757b97a3ef4bc5774a3ab5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:09 +0000
Subject: [PATCH 64/86] fix: the datatype of a value in a DTS collection
 document is kept

---
 MyCapytain/common/utils/_json_ld.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MyCapytain/common/utils/_json_ld.py b/MyCapytain/common/utils/_json_ld.py
index e3270b2..90ee9fb 100644
--- a/MyCapytain/common/utils/_json_ld.py
+++ b/MyCapytain/common/utils/_json_ld.py
@@ -30,6 +30,8 @@ def dict_to_literal(dict_container: dict):
     an RDFLib object"""
     if "@id" in dict_container:
         return URIRef(dict_container["@id"]),
+    elif "@type" in dict_container:
+        return Literal(dict_container["@value"], datatype=URIRef(dict_container["@type"])),
     elif isinstance(dict_container["@value"], int):
         return dict_container["@value"],
     else:
-- 
2.43.0


From 4eb2f18424b04d0bbb84b2e62ffed0bbe13521fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:23 +0000
Subject: [PATCH 65/86] fix: the position of a reference can be asked within
 bounds, as in any sequence

---
 MyCapytain/common/reference/_capitains_cts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/common/reference/_capitains_cts.py b/MyCapytain/common/reference/_capitains_cts.py
index 7ff8228..fdd360e 100644
--- a/MyCapytain/common/reference/_capitains_cts.py
+++ b/MyCapytain/common/reference/_capitains_cts.py
@@ -302,7 +302,7 @@ class CtsReferenceSet(BaseReferenceSet):
         _o = obj
         if not isinstance(obj, CtsReference):
             _o = CtsReference(obj)
-        return super(CtsReferenceSet, self).index(_o)
+        return super(CtsReferenceSet, self).index(_o, *args, **kwargs)
 
 
 class URN(object):
-- 
2.43.0


From e3e949b9e6e4b3d562a1542233b3218071d3c878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:13 +0000
Subject: [PATCH 66/86] fix: the text of a DTS reference is found in a set
 whatever the type of the reference

---
 MyCapytain/common/reference/_dts_1.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/MyCapytain/common/reference/_dts_1.py b/MyCapytain/common/reference/_dts_1.py
index 6074313..d00250f 100644
--- a/MyCapytain/common/reference/_dts_1.py
+++ b/MyCapytain/common/reference/_dts_1.py
@@ -46,9 +46,17 @@ class DtsReference(BaseReference):
 
 class DtsReferenceSet(BaseReferenceSet):
     def __contains__(self, item: str) -> bool:
+        if isinstance(item, str):
+            # The text of a reference says nothing of its type
+            return (item, None) in [tuple(ref) for ref in self]
         return BaseReferenceSet.__contains__(self, item) or \
                BaseReferenceSet.__contains__(self, DtsReference(item))
 
+    def index(self, obj, *args, **kwargs) -> int:
+        if isinstance(obj, str):
+            return [tuple(ref) for ref in self].index((obj, None), *args, **kwargs)
+        return super(DtsReferenceSet, self).index(obj, *args, **kwargs)
+
     def __eq__(self, other):
         return super(DtsReferenceSet, self).__eq__(other) and \
             self.level == other.level and \
-- 
2.43.0


From af273cbf5354ac9e2f1cfade23e30162d9059be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:27 +0000
Subject: [PATCH 67/86] fix: write numbers that JSON has no form for as typed
 values in DTS exports

---
 MyCapytain/common/utils/_json_ld.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/common/utils/_json_ld.py b/MyCapytain/common/utils/_json_ld.py
index 90ee9fb..3346b39 100644
--- a/MyCapytain/common/utils/_json_ld.py
+++ b/MyCapytain/common/utils/_json_ld.py
@@ -1,3 +1,5 @@
+from math import isfinite
+
 from rdflib import Literal, URIRef
 
 
@@ -12,9 +14,10 @@ def literal_to_dict(value):
         if value.language is not None:
             return {"@value": str(value), "@language": value.language}
         native = value.toPython()
-        if isinstance(native, (str, int, float)) and not isinstance(native, Literal):
+        if isinstance(native, (str, int, float)) and not isinstance(native, Literal) and \
+                not (isinstance(native, float) and not isfinite(native)):
             return native
-        # No JSON equivalent : dates, decimals, unknown datatypes...
+        # No JSON equivalent : dates, decimals, infinity, unknown datatypes...
         elif value.datatype is not None:
             return {"@value": str(value), "@type": str(value.datatype)}
         return str(value)
-- 
2.43.0


From ad91906a453d0e8531a1386ea9145fa76c88da98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:26 +0000
Subject: [PATCH 68/86] fix: write structured metadata with the prefixes of the
 store it is recorded in

---
 MyCapytain/common/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/common/metadata.py b/MyCapytain/common/metadata.py
index 458ee52..715cb0b 100644
--- a/MyCapytain/common/metadata.py
+++ b/MyCapytain/common/metadata.py
@@ -163,7 +163,7 @@ class Metadata(Exportable):
         .. warning:: exclude and warning cannot be used together
         """
         graph = Graph()
-        graph.namespace_manager = get_graph().namespace_manager
+        graph.namespace_manager = self.graph.namespace_manager
 
         if only is not None:
             _only = []
-- 
2.43.0


From 18fef8efdc4dbadef08ebabfebc4f8930bc6f9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:29 +0000
Subject: [PATCH 69/86] fix: delete items of DTS collections

---
 MyCapytain/resources/prototypes/metadata.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/resources/prototypes/metadata.py b/MyCapytain/resources/prototypes/metadata.py
index 6aa555c..e1d9ff7 100644
--- a/MyCapytain/resources/prototypes/metadata.py
+++ b/MyCapytain/resources/prototypes/metadata.py
@@ -234,8 +234,9 @@ class Collection(Exportable):
         item.metadata.remove()
         item.metadata.unlink()
         # Delete the Python item
-        if len(item.parents) > 0:
-            del item.parents[0].children[item.id]
+        for parent in item.parents:
+            if parent.children.get(item.id) is item:
+                parent.children.pop(item.id)
 
     def __contains__(self, item):
         """ Retrieve an item by its ID in the tree of a collection
-- 
2.43.0


From 8362cd54a2540d4d0880c889591c6910b537d1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:31 +0000
Subject: [PATCH 70/86] fix: let text nodes know the neighbours, parent and
 children they are made with

---
 MyCapytain/resources/prototypes/text.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/MyCapytain/resources/prototypes/text.py b/MyCapytain/resources/prototypes/text.py
index 62864ed..d52c227 100644
--- a/MyCapytain/resources/prototypes/text.py
+++ b/MyCapytain/resources/prototypes/text.py
@@ -190,7 +190,11 @@ class TextualNode(TextualElement, NodeId):
     :cvar default_exclude: Default exclude for exports
     """
 
-    def __init__(self, identifier: str=None, citation: Citation=None, **kwargs):
+    def __init__(self, identifier: str=None, citation: Citation=None,
+                 children=None, parent=None, siblings=(None, None), depth=None, **kwargs):
+        NodeId.__init__(
+            self, identifier=identifier, children=children, parent=parent, siblings=siblings, depth=depth
+        )
         super(TextualNode, self).__init__(identifier=identifier, **kwargs)
         self._citation = citation or Citation()
 
@@ -275,9 +279,9 @@ class InteractiveTextualNode(TextualGraph):
 
     :cvar default_exclude: Default exclude for exports
     """
-    def __init__(self, identifier: str=None, **kwargs):
-        super(InteractiveTextualNode, self).__init__(identifier=identifier, **kwargs)
-        self._childIds = None
+    def __init__(self, identifier: str=None, children=None, **kwargs):
+        super(InteractiveTextualNode, self).__init__(identifier=identifier, children=children, **kwargs)
+        self._childIds = children
 
     @property
     def prev(self) -> "InteractiveTextualNode":
-- 
2.43.0


From 1feb0cd9c62d6b46fdcbef800cc49e2daf97a5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:31 +0000
Subject: [PATCH 71/86] fix: describe a text from a catalogue entry that has no
 citation

---
 MyCapytain/resources/prototypes/cts/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resources/prototypes/cts/text.py b/MyCapytain/resources/prototypes/cts/text.py
index da392ef..8659a05 100644
--- a/MyCapytain/resources/prototypes/cts/text.py
+++ b/MyCapytain/resources/prototypes/cts/text.py
@@ -119,7 +119,7 @@ class PrototypeCtsNode(InteractiveTextualNode):
             self.metadata.add(RDF_NAMESPACES.CTS.description, lang=lang, value=str(node))
             self.set_description(str(node), lang)
 
-        if not self.citation.is_set() and edition.citation.is_set():
+        if not self.citation.is_set() and edition.citation is not None and edition.citation.is_set():
             self.citation = edition.citation
 
 
-- 
2.43.0


From 1a5574a1a0cf41fbd502761c4c463ecb6d0d6bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:22 +0000
Subject: [PATCH 72/86] fix: a citation added to a scheme knows the root of
 that scheme

---
 MyCapytain/common/reference/_base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/MyCapytain/common/reference/_base.py b/MyCapytain/common/reference/_base.py
index e194527..b1f3dae 100644
--- a/MyCapytain/common/reference/_base.py
+++ b/MyCapytain/common/reference/_base.py
@@ -61,6 +61,10 @@ class BaseCitationSet(Exportable):
         :return:
         """
         if isinstance(child, BaseCitation):
+            if isinstance(self, BaseCitation):
+                child.root = self.root
+            else:
+                child.root = self
             self._children.append(child)
 
     def __iter__(self):
-- 
2.43.0


From a07acfc25eaee19bb8aa85e3dbcab00db3298b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:29 +0000
Subject: [PATCH 73/86] fix: an answer that does not repeat the citation of a
 remote text leaves the one that is known

---
 MyCapytain/resources/texts/remote/cts.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MyCapytain/resources/texts/remote/cts.py b/MyCapytain/resources/texts/remote/cts.py
index 638b3fe..98986b8 100644
--- a/MyCapytain/resources/texts/remote/cts.py
+++ b/MyCapytain/resources/texts/remote/cts.py
@@ -149,7 +149,8 @@ class _SharedMethod(InteractiveTextualNode):
 
         passage = CtsPassage(urn=urn, resource=response, retriever=self.retriever)
         passage._parse_request(response.xpath("//ti:reply/ti:label", namespaces=XPATH_NAMESPACES)[0])
-        self.citation = passage.citation
+        if passage.citation.is_set():
+            self.citation = passage.citation
         return passage
 
     def _parse_request(self, xml):
-- 
2.43.0


From bab463b0c371b87dad91fcb97d74d4d7af56c325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:42 +0000
Subject: [PATCH 74/86] fix: the citation of a remote text is read wherever the
 answer gives it

---
 MyCapytain/resources/texts/remote/cts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resources/texts/remote/cts.py b/MyCapytain/resources/texts/remote/cts.py
index 98986b8..04572c6 100644
--- a/MyCapytain/resources/texts/remote/cts.py
+++ b/MyCapytain/resources/texts/remote/cts.py
@@ -183,7 +183,7 @@ class _SharedMethod(InteractiveTextualNode):
         if not self.citation.is_set() and xml.xpath("//ti:citation", namespaces=XPATH_NAMESPACES):
             self.citation = CtsCollection.XmlCtsCitation.ingest(
                 xml,
-                xpath=".//ti:citation[not(ancestor::ti:citation)]"
+                xpath="//ti:citation[not(ancestor::ti:citation)]"
             )
 
     def getLabel(self):
-- 
2.43.0


From 5c4de54473526db36c58a4f3aac6a3dbecf6d499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:53 +0000
Subject: [PATCH 75/86] fix: ask a DTS endpoint for the passage numbered 0

---
 MyCapytain/retrievers/dts/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/retrievers/dts/__init__.py b/MyCapytain/retrievers/dts/__init__.py
index 95dfeaa..0d447cd 100644
--- a/MyCapytain/retrievers/dts/__init__.py
+++ b/MyCapytain/retrievers/dts/__init__.py
@@ -27,7 +27,7 @@ def _parse_ref_parameters(parameters, ref):
             parameters["ref"] = ref.start
     elif isinstance(ref, tuple):
         parameters["start"], parameters["end"] = ref
-    elif ref:
+    elif ref is not None and ref != "":
         parameters["ref"] = ref
 
 
-- 
2.43.0


From b54a79fbf7e6236d93f5632a5ae24fae2d7dc3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:43 +0000
Subject: [PATCH 76/86] fix: references below a passage without context are
 listed for a reference given as text too

---
 MyCapytain/resources/texts/local/capitains/cts.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MyCapytain/resources/texts/local/capitains/cts.py b/MyCapytain/resources/texts/local/capitains/cts.py
index 5de027b..3c8db52 100644
--- a/MyCapytain/resources/texts/local/capitains/cts.py
+++ b/MyCapytain/resources/texts/local/capitains/cts.py
@@ -381,6 +381,8 @@ class _SimplePassage(_SharedMethods, PrototypeCtsPassage):
         level += self.depth
         if not subreference:
             subreference = self.reference
+        elif not isinstance(subreference, CtsReference):
+            subreference = CtsReference(subreference)
         return self.textObject.getValidReff(level, reference=subreference)
 
     def getTextualNode(self, subreference: CtsReference=None):
-- 
2.43.0


From 7195706729b4d6eefc05b21c998c6f0a15034c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:32 +0000
Subject: [PATCH 77/86] fix: rebuilding a passage does not annotate the
 elements of the source

---
 MyCapytain/common/utils/xml.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/common/utils/xml.py b/MyCapytain/common/utils/xml.py
index 2a26d71..bb1cf0f 100644
--- a/MyCapytain/common/utils/xml.py
+++ b/MyCapytain/common/utils/xml.py
@@ -5,7 +5,7 @@ from xml.sax.saxutils import escape
 
 from lxml.etree import SubElement
 import lxml.etree as etree
-from lxml.objectify import ObjectifiedElement, parse, Element
+from lxml.objectify import ObjectifiedElement, parse, makeparser
 from six import text_type
 
 from MyCapytain.common.constants import XPATH_NAMESPACES
@@ -23,6 +23,7 @@ __all__ = [
 
 
 _parser = etree.XMLParser(collect_ids=False, resolve_entities=False)
+_objectify_parser = makeparser()
 
 
 _encoding_declaration = re.compile(r"^(<\?xml\b[^>]*?)\s+encoding\s*=\s*(?:\"[^\"]*\"|'[^']*')")
@@ -175,7 +176,8 @@ def copyNode(node, children=False, parent=False):
             nsmap={None: "http://www.tei-c.org/ns/1.0"}
         )
     else:
-        element = Element(
+        # lxml.objectify.Element would annotate the attributes it is given, those of the source
+        element = _objectify_parser.makeelement(
             node.tag,
             attrib=node.attrib,
             nsmap={None: "http://www.tei-c.org/ns/1.0"}
-- 
2.43.0


From 81a8e9456cf325a172ca2953b72b86e74cba6a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:50 +0000
Subject: [PATCH 78/86] fix: a remote passage with its neighbours can be asked
 for by a list

---
 MyCapytain/resources/texts/remote/cts.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MyCapytain/resources/texts/remote/cts.py b/MyCapytain/resources/texts/remote/cts.py
index 04572c6..5ca8403 100644
--- a/MyCapytain/resources/texts/remote/cts.py
+++ b/MyCapytain/resources/texts/remote/cts.py
@@ -140,6 +140,8 @@ class _SharedMethod(InteractiveTextualNode):
         :returns: Object representing the passage
         :raises: *TypeError* when reference is not a list or a Reference
         """
+        if isinstance(reference, list):
+            reference = ".".join(reference)
         if reference:
             urn = "{0}:{1}".format(self.urn.upTo(URN.NO_PASSAGE), reference)
         else:
-- 
2.43.0


From 59c68c3a89aa3f8e210f468451f3c4d4baad1f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:07 +0000
Subject: [PATCH 79/86] fix: a passage too can be asked for a unit by a list

---
 MyCapytain/resources/texts/local/capitains/cts.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/resources/texts/local/capitains/cts.py b/MyCapytain/resources/texts/local/capitains/cts.py
index 3c8db52..6eb37e0 100644
--- a/MyCapytain/resources/texts/local/capitains/cts.py
+++ b/MyCapytain/resources/texts/local/capitains/cts.py
@@ -391,7 +391,7 @@ class _SimplePassage(_SharedMethods, PrototypeCtsPassage):
         :param subreference:
         :return:
         """
-        if not isinstance(subreference, CtsReference):
+        if not isinstance(subreference, (CtsReference, list)):
             subreference = CtsReference(subreference)
         return self.textObject.getTextualNode(subreference)
 
@@ -699,7 +699,7 @@ class CapitainsCtsPassage(_SharedMethods, PrototypeCtsPassage):
             return self.getTextualNode(subreference=self.prevId)
 
     def getTextualNode(self, subreference=None, *args, **kwargs):
-        if not isinstance(subreference, CtsReference):
+        if not isinstance(subreference, (CtsReference, list)):
             subreference = CtsReference(subreference)
         X = super(CapitainsCtsPassage, self).getTextualNode(subreference=subreference)
         X._text = self._text
-- 
2.43.0


From 93ef24c442048941981b7da57f1e8015bbb0b7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:26:16 +0000
Subject: [PATCH 80/86] fix: labels with quotes, slashes or backslashes can be
 cited

---
 MyCapytain/common/reference/_capitains_cts.py | 14 +++----
 MyCapytain/common/utils/xml.py                | 40 +++++++++++++++++++
 .../resources/texts/local/capitains/cts.py    |  4 +-
 3 files changed, 49 insertions(+), 9 deletions(-)

diff --git a/MyCapytain/common/reference/_capitains_cts.py b/MyCapytain/common/reference/_capitains_cts.py
index fdd360e..182cc27 100644
--- a/MyCapytain/common/reference/_capitains_cts.py
+++ b/MyCapytain/common/reference/_capitains_cts.py
@@ -4,7 +4,7 @@ from xml.sax.saxutils import escape
 from lxml.etree import _Element
 
 from MyCapytain.common.constants import Mimetypes, get_graph, RDF_NAMESPACES, XPATH_NAMESPACES
-from MyCapytain.common.utils.xml import make_xml_node
+from MyCapytain.common.utils.xml import make_xml_node, xpath_literal
 
 from ._base import BaseCitation, BaseReference, BaseReferenceSet
 
@@ -860,11 +860,11 @@ class Citation(BaseCitation):
         if xpath is True:  # Then passage is a string or None
             xpath = self.xpath
 
-            replacement = r"\1"
-            if isinstance(passage, str):
-                replacement = r"\1\2'" + passage + "'"
-
-            return REFERENCE_REPLACER.sub(replacement, xpath)
+            passage = passage if isinstance(passage, str) else None
+            return REFERENCE_REPLACER.sub(
+                lambda m: _ref_replacer(m, iter([passage])),
+                xpath
+            )
         else:
             if isinstance(passage, CtsReference):
                 passage = passage.start.list
@@ -980,4 +980,4 @@ def _ref_replacer(match, passage):
     if ref is None:
         return groups[0]
     else:
-        return "{1}='{0}'".format(ref, groups[0])
\ No newline at end of file
+        return "{1}={0}".format(xpath_literal(ref), groups[0])
\ No newline at end of file
diff --git a/MyCapytain/common/utils/xml.py b/MyCapytain/common/utils/xml.py
index bb1cf0f..4a4d96a 100644
--- a/MyCapytain/common/utils/xml.py
+++ b/MyCapytain/common/utils/xml.py
@@ -14,6 +14,8 @@ from MyCapytain.common.constants import XPATH_NAMESPACES
 __all__ = [
     "make_xml_node",
     "xmlparser",
+    "xpath_literal",
+    "splitXpath",
     "normalizeXpath",
     "xmliter",
     "performXpath",
@@ -190,6 +192,44 @@ def copyNode(node, children=False, parent=False):
     return element
 
 
+def xpath_literal(value):
+    """ Write a string as an XPath literal, whatever quotes it holds
+
+    :param value: String to write
+    :type value: str
+    :return: XPath expression for this string
+    :rtype: str
+    """
+    if "'" not in value:
+        return "'{}'".format(value)
+    elif "\"" not in value:
+        return "\"{}\"".format(value)
+    return "concat('{}')".format("', \"'\", '".join(value.split("'")))
+
+
+def splitXpath(xpath):
+    """ Split an XPath around its slashes, but for those that stand in predicates or literals
+
+    :param xpath: XPath to split
+    :type xpath: str
+    :return: List of xpath elements
+    :rtype: [str]
+    """
+    steps, opened, quote = [""], 0, None
+    for char in xpath:
+        if quote:
+            quote = None if char == quote else quote
+        elif char in "'\"":
+            quote = char
+        elif char in "[]":
+            opened += 1 if char == "[" else -1
+        elif char == "/" and not opened:
+            steps.append("")
+            continue
+        steps[-1] += char
+    return steps
+
+
 def normalizeXpath(xpath):
     """ Normalize XPATH split around slashes
 
diff --git a/MyCapytain/resources/texts/local/capitains/cts.py b/MyCapytain/resources/texts/local/capitains/cts.py
index 6eb37e0..8091dce 100644
--- a/MyCapytain/resources/texts/local/capitains/cts.py
+++ b/MyCapytain/resources/texts/local/capitains/cts.py
@@ -13,7 +13,7 @@ import warnings
 
 from typing import Tuple, Optional
 from MyCapytain.errors import DuplicateReference, MissingAttribute, RefsDeclError, EmptyReference, CitationDepthError, MissingRefsDecl
-from MyCapytain.common.utils.xml import copyNode, normalizeXpath, passageLoop
+from MyCapytain.common.utils.xml import copyNode, normalizeXpath, passageLoop, splitXpath
 from MyCapytain.common.constants import XPATH_NAMESPACES
 from MyCapytain.common.reference import CtsReference, URN, Citation, CtsReferenceSet
 
@@ -84,7 +84,7 @@ class _SharedMethods(TeiResource):
         citation_end = self.citation.root[len(end)-1]
 
         start, end = citation_start.fill(passage=start), citation_end.fill(passage=end)
-        start, end = normalizeXpath(start.split("/")[2:]), normalizeXpath(end.split("/")[2:])
+        start, end = normalizeXpath(splitXpath(start)[2:]), normalizeXpath(splitXpath(end)[2:])
 
         xml = self.textObject.xml
 
-- 
2.43.0


From a7df0adee17bc521bae88328d2795a9fdad39365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:21 +0000
Subject: [PATCH 81/86] fix: a number written in a citation scheme is not a
 place for a label

---
 MyCapytain/common/reference/_capitains_cts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/common/reference/_capitains_cts.py b/MyCapytain/common/reference/_capitains_cts.py
index 182cc27..811aa69 100644
--- a/MyCapytain/common/reference/_capitains_cts.py
+++ b/MyCapytain/common/reference/_capitains_cts.py
@@ -11,7 +11,7 @@ from ._base import BaseCitation, BaseReference, BaseReferenceSet
 REFSDECL_SPLITTER = re.compile(r"/+(?:[^/\[]|\[[^\]]*\])+")
 REFSDECL_REPLACER = re.compile(r"\$[0-9]+")
 SUBREFERENCE = re.compile(r"(\w*)\[?([0-9]*)\]?", re.UNICODE)
-REFERENCE_REPLACER = re.compile(r"(@[a-zA-Z0-9:]+)(=)([\\$'\"?0-9]{3,6})")
+REFERENCE_REPLACER = re.compile(r"(@[a-zA-Z0-9:]+)(=)(\\?['\"](?:\$[0-9]+|\?)\\?['\"])")
 
 
 def _child_or_none(liste):
-- 
2.43.0


From acf62ec25a5f570dc452359a748d1ac4ac955e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:49 +0000
Subject: [PATCH 82/86] fix: passages of schemes that begin with // can be
 extracted

---
 MyCapytain/resources/texts/local/capitains/cts.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/MyCapytain/resources/texts/local/capitains/cts.py b/MyCapytain/resources/texts/local/capitains/cts.py
index 8091dce..2817aaa 100644
--- a/MyCapytain/resources/texts/local/capitains/cts.py
+++ b/MyCapytain/resources/texts/local/capitains/cts.py
@@ -46,6 +46,17 @@ def _make_passage_kwargs(urn, reference):
     return kwargs
 
 
+def _steps_below_root(xpath):
+    """ Steps of a filled XPath that are to be taken from the root element, which is copied apart
+
+    :param xpath: XPath to a passage
+    :return: List of steps
+    """
+    steps = splitXpath(xpath)
+    # "//tei:body" looks below the root, "/tei:TEI/tei:text" names it
+    return normalizeXpath(steps[1:] if not steps[1] else steps[2:])
+
+
 class _SharedMethods(TeiResource):
     """ Set of shared methods between objects in local TEI. Avoid recoding functions
     """
@@ -84,7 +95,7 @@ class _SharedMethods(TeiResource):
         citation_end = self.citation.root[len(end)-1]
 
         start, end = citation_start.fill(passage=start), citation_end.fill(passage=end)
-        start, end = normalizeXpath(splitXpath(start)[2:]), normalizeXpath(splitXpath(end)[2:])
+        start, end = _steps_below_root(start), _steps_below_root(end)
 
         xml = self.textObject.xml
 
-- 
2.43.0


From 7df943c46b224205df71b64b19ac4b8a77db3eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:23 +0000
Subject: [PATCH 83/86] fix: true and false in structured metadata are not
 numbers

---
 MyCapytain/resources/collections/cts.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/resources/collections/cts.py b/MyCapytain/resources/collections/cts.py
index 024e514..a25318b 100644
--- a/MyCapytain/resources/collections/cts.py
+++ b/MyCapytain/resources/collections/cts.py
@@ -11,7 +11,7 @@ from __future__ import unicode_literals
 
 from rdflib import URIRef, Literal
 from rdflib.namespace import XSD
-from lxml.objectify import IntElement, FloatElement
+from lxml.objectify import BoolElement, IntElement, FloatElement
 
 from MyCapytain.resources.prototypes.cts import inventory as cts
 from MyCapytain.common.reference._capitains_cts import Citation as CitationPrototype
@@ -129,7 +129,7 @@ def _parse_structured_metadata(obj, xml):
                     if not datatype.startswith("http") and ":" in datatype:
                         datatype = expand_namespace(metadata.nsmap, datatype)
                     obj.metadata.add(tag, Literal(s_m, datatype=URIRef(datatype)))
-                elif isinstance(metadata, IntElement):
+                elif isinstance(metadata, IntElement) and not isinstance(metadata, BoolElement):
                     obj.metadata.add(tag, Literal(int(metadata), datatype=XSD.integer))
                 elif isinstance(metadata, FloatElement):
                     obj.metadata.add(tag, Literal(float(metadata), datatype=XSD.float))
-- 
2.43.0


From b9ca6138f57a44433d419d6dca44849344ac8492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:09:31 +0000
Subject: [PATCH 84/86] fix: names and descriptions in no language stay so
 through inventories

---
 MyCapytain/common/utils/xml.py          |  2 +-
 MyCapytain/resources/collections/cts.py | 12 ++++--------
 2 files changed, 5 insertions(+), 9 deletions(-)

diff --git a/MyCapytain/common/utils/xml.py b/MyCapytain/common/utils/xml.py
index 4a4d96a..df7fd22 100644
--- a/MyCapytain/common/utils/xml.py
+++ b/MyCapytain/common/utils/xml.py
@@ -52,7 +52,7 @@ def make_xml_node(graph, name, close=False, attributes=None, text="", complete=F
                 " ".join(
                     [
                         "{}=\"{}\"".format(attr_name, escape(str(attr_value), {"\"": "&quot;"}))
-                        for attr_name, attr_value in attributes.items()
+                        for attr_name, attr_value in attributes.items() if attr_value is not None
                     ]
                 ),
                 escape(text),
diff --git a/MyCapytain/resources/collections/cts.py b/MyCapytain/resources/collections/cts.py
index a25318b..becdbc3 100644
--- a/MyCapytain/resources/collections/cts.py
+++ b/MyCapytain/resources/collections/cts.py
@@ -164,13 +164,11 @@ class XmlCtsTextMetadata(cts.CtsTextMetadata):
 
         for child in xml.xpath("ti:description", namespaces=XPATH_NAMESPACES):
             lg = child.get("{http://www.w3.org/XML/1998/namespace}lang")
-            if lg is not None:
-                obj.set_cts_property("description", child.text or "", lg)
+            obj.set_cts_property("description", child.text or "", lg)
 
         for child in xml.xpath("ti:label", namespaces=XPATH_NAMESPACES):
             lg = child.get("{http://www.w3.org/XML/1998/namespace}lang")
-            if lg is not None:
-                obj.set_cts_property("label", child.text or "", lg)
+            obj.set_cts_property("label", child.text or "", lg)
 
         obj.citation = cls.CLASS_CITATION.ingest(xml, obj.citation, "ti:online/ti:citationMapping/ti:citation")
 
@@ -269,8 +267,7 @@ class XmlCtsWorkMetadata(cts.CtsWorkMetadata):
 
         for child in xml.xpath("ti:title", namespaces=XPATH_NAMESPACES):
             lg = child.get("{http://www.w3.org/XML/1998/namespace}lang")
-            if lg is not None:
-                o.set_cts_property("title", child.text or "", lg)
+            o.set_cts_property("title", child.text or "", lg)
 
         # Parse children
         children = []
@@ -311,8 +308,7 @@ class XmlCtsTextgroupMetadata(cts.CtsTextgroupMetadata):
 
         for child in xml.xpath("ti:groupname", namespaces=XPATH_NAMESPACES):
             lg = child.get("{http://www.w3.org/XML/1998/namespace}lang")
-            if lg is not None:
-                o.set_cts_property("groupname", child.text or "", lg)
+            o.set_cts_property("groupname", child.text or "", lg)
 
         # Parse Works
         _xpathDict(xml=xml, xpath='ti:work', cls=cls.CLASS_WORK, parent=o)
-- 
2.43.0


From 2690acab59955507ef638a86101385cb32b16bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:30 +0000
Subject: [PATCH 85/86] fix: dollars and question marks in the constants of a
 scheme are not places for labels

---
 MyCapytain/common/reference/_capitains_cts.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/MyCapytain/common/reference/_capitains_cts.py b/MyCapytain/common/reference/_capitains_cts.py
index 811aa69..652f855 100644
--- a/MyCapytain/common/reference/_capitains_cts.py
+++ b/MyCapytain/common/reference/_capitains_cts.py
@@ -1,4 +1,5 @@
 import re
+from itertools import count
 from typing import Optional, List, Union, Tuple
 from xml.sax.saxutils import escape
 from lxml.etree import _Element
@@ -779,7 +780,7 @@ class Citation(BaseCitation):
         """ Attribute that serves as a reference getter
         """
         refs = re.findall(
-            "\@([a-zA-Z:]+)=\\\?[\'\"]\$"+str(self.refsDecl.count("$"))+"\\\?[\'\"]",
+            "\@([a-zA-Z:]+)=\\\?[\'\"]\$"+str(len(REFSDECL_REPLACER.findall(self.refsDecl)))+"\\\?[\'\"]",
             self.refsDecl
         )
         return refs[-1]
@@ -798,14 +799,8 @@ class Citation(BaseCitation):
 
         """
         if scope is not None and xpath is not None:
-            _xpath = scope + xpath
-            i = _xpath.find("?")
-            ii = 1
-            while i >= 0:
-                _xpath = _xpath[:i] + "$" + str(ii) + _xpath[i+1:]
-                i = _xpath.find("?")
-                ii += 1
-            self.refsDecl = _xpath
+            places = count(1)
+            self.refsDecl = re.sub(r"(?<=['\"])\?(?=\\?['\"])", lambda m: "$" + str(next(places)), scope + xpath)
 
     def __getitem__(self, item):
         if not isinstance(item, int) or item > len(self)-1:
@@ -920,7 +915,7 @@ class Citation(BaseCitation):
                 "<tei:p>This pointer pattern extracts {label}</tei:p></tei:cRefPattern>".format(
                     refsDecl=escape(self.refsDecl),
                     label=escape(label, {"\"": "&quot;"}),
-                    regexp="\.".join(["(\w+)"]*self.refsDecl.count("$"))
+                    regexp="\.".join(["(\w+)"]*len(REFSDECL_REPLACER.findall(self.refsDecl)))
                 )
 
     def export(self, output=None, **kwargs):
-- 
2.43.0


From 076d4d12621f7d1b141e89f524a0b1efcc7a9827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:23:04 +0000
Subject: [PATCH 86/86] fix: folder resolvers leave the quotes within the
 literals of a scheme as they are

---
 MyCapytain/resolvers/cts/local.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/MyCapytain/resolvers/cts/local.py b/MyCapytain/resolvers/cts/local.py
index 2efbc4b..6f371bd 100644
--- a/MyCapytain/resolvers/cts/local.py
+++ b/MyCapytain/resolvers/cts/local.py
@@ -4,6 +4,7 @@
 import io
 import logging
 import os.path
+import re
 from glob import glob, escape
 from math import ceil
 
@@ -26,6 +27,21 @@ __all__ = [
 ]
 
 
+def _double_quoted(xpath):
+    """ Write the literals of an XPath between double quotes, but for those that hold some
+
+    :param xpath: XPath
+    :type xpath: str
+    :return: Same XPath
+    :rtype: str
+    """
+    return re.sub(
+        r"\"[^\"]*\"|'[^']*'",
+        lambda literal: literal.group() if "\"" in literal.group() else "\"{}\"".format(literal.group()[1:-1]),
+        xpath
+    )
+
+
 class CtsCapitainsLocalResolver(Resolver):
     """ XML Folder Based resolver. CtsTextMetadata and metadata resolver based on local directories
 
@@ -206,15 +222,15 @@ class CtsCapitainsLocalResolver(Resolver):
                 for cite in [c for c in text.citation][::-1]:
                     if len(cites) >= 1:
                         cites.append(self.classes["citation"](
-                            xpath=cite.xpath.replace("'", '"'),
-                            scope=cite.scope.replace("'", '"'),
+                            xpath=_double_quoted(cite.xpath),
+                            scope=_double_quoted(cite.scope),
                             name=cite.name,
                             child=cites[-1]
                         ))
                     else:
                         cites.append(self.classes["citation"](
-                            xpath=cite.xpath.replace("'", '"'),
-                            scope=cite.scope.replace("'", '"'),
+                            xpath=_double_quoted(cite.xpath),
+                            scope=_double_quoted(cite.scope),
                             name=cite.name
                         ))
                 del text
-- 
2.43.0

