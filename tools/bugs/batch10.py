exec(open("/verif/tools/bugs/batch8.py").read().split("BUGS = [")[0])
CR = "MyCapytain/common/reference/_capitains_cts.py"
R5 = "MyCapytain/retrievers/cts5.py"
TD = "MyCapytain/resources/texts/remote/dts/_resolver_v1.py"
PM = "MyCapytain/resources/prototypes/metadata.py"
CB = "MyCapytain/common/base.py"
BUGS = [
 dict(id="c05-fill-memo", property="C05", file=CR,
  edits=[("            passage = iter(passage)\n            return REFERENCE_REPLACER.sub(\n                lambda m: _ref_replacer(m, passage),\n                self.refsDecl\n            )",
          "            known = self.__dict__.setdefault(\"_filled\", {})\n            key = \"\".join(str(p) for p in passage)\n            if key not in known:\n                passage = iter(passage)\n                known[key] = REFERENCE_REPLACER.sub(\n                    lambda m: _ref_replacer(m, passage),\n                    self.refsDecl\n                )\n            return known[key]")],
  needs="two units of a text whose labels, put together, are the same (1.12 and 11.2)", breaks="the second is answered with what belongs to the first",
  demo='''
from MyCapytain.resources.texts.local.capitains.cts import CapitainsCtsText
from MyCapytain.common.constants import Mimetypes
TEXT = """<TEI xmlns="http://www.tei-c.org/ns/1.0"><teiHeader><encodingDesc><refsDecl n="CTS">
<cRefPattern n="line" matchPattern="(\\\\w+)" replacementPattern="#xpath(/tei:TEI/tei:text/tei:body/tei:div[@n='$1']/tei:l[@n='$2'])"/>
<cRefPattern n="book" matchPattern="(\\\\w+)" replacementPattern="#xpath(/tei:TEI/tei:text/tei:body/tei:div[@n='$1'])"/>
</refsDecl></encodingDesc></teiHeader><text><body><div n="1"><l n="12">arma</l></div><div n="11"><l n="2">virum</l></div></body></text></TEI>"""
t = CapitainsCtsText(resource=TEXT, urn="urn:cts:ns:a.b.c")
assert t.getTextualNode("1.12").export(Mimetypes.PLAINTEXT).strip() == "arma"
assert t.getTextualNode("11.2").export(Mimetypes.PLAINTEXT).strip() == "virum"
'''),
 dict(id="c19-inventory-kept", property="C19", file=R5,
  edits=[("            parameters[\"inv\"] = self.inventory\n", "            parameters[\"inv\"] = self.inventory\n        elif self.inventory is None:\n            self.inventory = parameters.get(\"inv\")\n")],
  needs="a client without default inventory, asked with an inventory and then without", breaks="the second request names the inventory of the first",
  demo='''
from unittest import mock
from MyCapytain.retrievers.cts5 import HttpCtsRetriever
r = HttpCtsRetriever("http://localhost/cts")
with mock.patch("MyCapytain.retrievers.cts5.requests.get") as get:
    get.return_value = mock.MagicMock(encoding="utf-8", text="<a/>", headers={})
    r.getValidReff("urn:cts:a:b.c.d", inventory="one")
    r.getValidReff("urn:cts:a:b.c.d")
    assert "inv" not in get.call_args[1]["params"], get.call_args
'''),
 dict(id="c22-charset", property="C22", file=TD,
  edits=[("            resource=xmlparser(response.text)", "            resource=xmlparser(response.content.decode(\"utf-8\", \"replace\"))")],
  needs="a document sent in another charset than UTF-8", breaks="its characters are lost, or it cannot be read",
  demo='''
from unittest import mock
from MyCapytain.resources.texts.remote.dts._resolver_v1 import DtsResolverDocument as D
import requests
r = requests.Response()
r._content, r.encoding = "<TEI xmlns='http://www.tei-c.org/ns/1.0'><l>\\u00e9</l></TEI>".encode("iso-8859-1"), "iso-8859-1"
d = D.parse("urn:x", None, mock.MagicMock(), r)
assert "\\u00e9" in d.export("text/plain")
'''),
 dict(id="c12-readable-memo", property="C12", file=PM,
  edits=[("        return [member for member in self.descendants if member.readable]", "        found = self.descendants\n        if len(found) != getattr(self, \"_among\", None):\n            self._among, self._readable = len(found), [member for member in found if member.readable]\n        return list(self._readable)")],
  needs="an item deleted and another one added since the question was last asked", breaks="the deleted one is still listed",
  demo='''
from MyCapytain.resources.prototypes.metadata import Collection, ResourceCollection
class R(ResourceCollection):
    readable = True
a = Collection("urn:a"); b = R("urn:b"); b.parent = a
assert [x.id for x in a.readableDescendants] == ["urn:b"]
del a["urn:b"]
c = R("urn:c"); c.parent = a
assert [x.id for x in a.readableDescendants] == ["urn:c"]
'''),
 dict(id="c26-exporter-by-name", property="C26", file=CB,
  edits=[("            for cls in getmro(type(self)):\n                if hasattr(cls, \"EXPORT_TO\") and output in cls.EXPORT_TO:\n                    return cls.__export__(self, output, **kwargs)",
          "            known, key = Exportable.__dict__[\"_known\"], (type(self).__name__, output)\n            if key not in known:\n                known[key] = next(cls for cls in getmro(type(self)) if output in getattr(cls, \"EXPORT_TO\", []))\n            return known[key].__export__(self, output, **kwargs)"),
         ("    @property\n    def export_capacities(self):", "    _known = {}\n\n    @property\n    def export_capacities(self):")],
  needs="two classes of the same name that give the same format", breaks="objects of the second are exported as the first does",
  demo='''
from MyCapytain.common.base import Exportable
def make(what):
    class Own(Exportable):
        EXPORT_TO = ["text/x"]
        def __export__(self, output=None, **kw):
            return what
    return Own()
assert make("one").export("text/x") == "one"
assert make("two").export("text/x") == "two"
'''),
]
