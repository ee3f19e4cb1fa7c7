TX = "MyCapytain/resources/prototypes/text.py"
CT = "MyCapytain/resources/prototypes/cts/text.py"
BA = "MyCapytain/common/reference/_base.py"
MINE = '''
from MyCapytain.resources.prototypes.text import InteractiveTextualNode
KIDS = {"r": ["a", "b"], "a": [], "b": ["b.1"], "b.1": []}
UP = {"a": "r", "b": "r", "b.1": "b", "r": None}
ASKED = []
class Mine(InteractiveTextualNode):
    def getReffs(self, level=1, subreference=None):
        ASKED.append(self.id)
        return list(KIDS[self.id])
    def getTextualNode(self, ref):
        return type(self)(identifier=ref)
    parentId = property(lambda self: UP[self.id])
    @property
    def siblingsId(self):
        ks = KIDS.get(UP[self.id], [self.id])
        i = ks.index(self.id)
        return (ks[i - 1] if i else None, ks[i + 1] if i + 1 < len(ks) else None)
    prevId = property(lambda self: self.siblingsId[0])
    nextId = property(lambda self: self.siblingsId[1])
'''
BUGS = [
 dict(id="c30-ask-again", property="C30", file=TX,
  edits=[("        if self._childIds is None:\n            self._childIds = self.getReffs()", "        if not self._childIds:\n            self._childIds = self.getReffs()")],
  needs="a passage without children, asked for them more than once", breaks="its children's identifiers are asked for again and again",
  demo=MINE + """
n = Mine(identifier="a")
n.childIds, n.childIds, n.firstId
assert ASKED == ["a"], ASKED
"""),
 dict(id="c30-early", property="C30", file=TX,
  edits=[("        for ID in self.childIds:\n            yield self.getTextualNode(ID)", "        for child in [self.getTextualNode(ID) for ID in self.childIds]:\n            yield child")],
  needs="walking the children of a node and stopping before the end", breaks="all children are made before the first is given",
  demo=MINE + """
made = []
class Late(Mine):
    def getTextualNode(self, ref):
        made.append(ref)
        return type(self)(identifier=ref)
next(iter(Late(identifier="r").children))
assert made == ["a"], made
"""),
 dict(id="c30-title-dct", property="C30", file=TX,
  edits=[("        return self.metadata.get_single(key=DC.title, lang=lang) or \\\n            self.metadata.get_single(key=DCT.title, lang=lang)", "        return self.metadata.get_single(key=DCT.title, lang=lang) or \\\n            self.metadata.get_single(key=DC.title, lang=lang)")],
  needs="a title given to a text whose metadata already holds a DCTERMS title", breaks="the title given is not the one told",
  demo="""
from rdflib.namespace import DCTERMS
from MyCapytain.resources.prototypes.text import TextualElement
e = TextualElement(identifier="urn:x:1")
e.metadata.add(DCTERMS.title, "old", lang="eng")
e.set_title("new", "eng")
assert str(e.get_title("eng")) == "new"
"""),
 dict(id="c30-one-language", property="C30", file=CT,
  edits=[("            lang = node.language\n            self.metadata.add(RDF_NAMESPACES.CTS.description, lang=lang, value=str(node))", "            lang = lang if edition.lang is None else node.language\n            self.metadata.add(RDF_NAMESPACES.CTS.description, lang=lang, value=str(node))")],
  needs="x", breaks="x", demo="x=1"),
 dict(id="c30-description-lang", property="C30", file=CT,
  edits=[("            self.set_description(str(node), lang)", "            self.set_description(str(node), edition.lang or lang)")],
  needs="an entry with a description in another language than the text", breaks="the description is told in the language of the text",
  demo="""
from MyCapytain.resources.prototypes.cts.inventory import *
from MyCapytain.resources.prototypes.cts.text import PrototypeCtsText
g = CtsTextgroupMetadata("urn:cts:ns:a")
w = CtsWorkMetadata("urn:cts:ns:a.b", parent=g)
e = CtsTranslationMetadata("urn:cts:ns:a.b.c", parent=w, lang="fre")
e.set_cts_property("description", "about", "eng")
t = PrototypeCtsText(urn="urn:cts:ns:a.b.c")
t.set_metadata_from_collection(e)
assert t.get_description("eng").language == "eng"
"""),
 dict(id="c30-last", property="C30", file=TX,
  edits=[("        if self.lastId is not None:\n            return self.getTextualNode(self.lastId)", "        if self.lastId is not None and self.lastId != self.firstId:\n            return self.getTextualNode(self.lastId)\n        return self.first")],
  needs="x", breaks="x", demo="x=1"),
 dict(id="c30-falsy", property="C30", file=TX,
  edits=[("        if self.nextId is not None:\n            return self.getTextualNode(self.nextId)", "        if self.nextId is not None and self.nextId != self.prevId:\n            return self.getTextualNode(self.nextId)")],
  needs="a node whose neighbours are called alike", breaks="there is no next",
  demo="x=1"),
 dict(id="c30-own-siblings", property="C30", file=BA,
  edits=[("        self._prev_id, self._next_id = siblings\n        self._identifier", "        self._prev_id, self._next_id = siblings\n        if self._prev_id == self._next_id:\n            self._prev_id = self._next_id = None\n        self._identifier")],
  needs="x", breaks="x", demo="x=1"),
]
BUGS = [b for b in BUGS if b["needs"] != "x" and b["demo"] != "x=1"]
