# One entry per property: prop(id, title, statement, over, quantifier text, why tests can't, files, mechanism, technique, note)
TRUST = (" Trusts CPython, lxml, rdflib and the reference model in the check. A passing run means no monitored execution "
         "deviated; it is not a proof.")

prop("C01", "CTS passage references are faithful, immutable values",
     "A passage reference built from any valid string, pair, or URN prints back exactly that string and exposes exactly its "
     "levels, its range ends, its word sub-references (with their counters), its depth and its closest common 'highest' "
     "part; its parent is the reference one level up. Two references are equal (and hash equally) exactly when they denote "
     "the same string, whichever way they were built. Copying, deep-copying or pickling a reference, one of its ends or its "
     "word part yields an equal value of the same type with the same answers.",
     ["inputs"], "all single and range references of any depth, any label alphabet, with or without @word[n] on either end",
     "The tests probe a few dozen fixed references of depth 1-3; they never copy or pickle one, nor combine sub-references "
     "with ranges of unequal depth or non-ASCII labels.",
     ["MyCapytain/common/reference/_capitains_cts.py", "MyCapytain/common/reference/_base.py"],
     [("CtsReference, CtsSinglePassageId, CtsWordReference", "MyCapytain/common/reference/_capitains_cts.py"),
      ("BaseReference", "MyCapytain/common/reference/_base.py")],
     "reference-model monitor on generated references", "Every observable of each generated reference is compared with an "
     "independent model that never parses the string." + TRUST)

prop("C02", "CTS URNs decompose, truncate, compare and update faithfully",
     "A CTS URN splits into namespace, text group, work, version and passage; each truncation of it is the URN of exactly "
     "those components (ignoring a trailing #fragment), truncations that need an absent component are refused, and "
     "strings too short to name a namespace are refused. Equality is equality of the printed URN and ordering follows the number of components. "
     "Assigning a component at any time changes that component and nothing else, and the printed URN, the truncations and "
     "the components always agree afterwards.",
     ["inputs", "histories"], "all URNs from namespace-only to version plus passage, and all histories of component assignments "
     "interleaved with reads",
     "Tests fix a handful of URNs and single assignments; the cached printed form makes the outcome depend on the history "
     "of reads and assignments.",
     ["MyCapytain/common/reference/_capitains_cts.py"], [("URN", "MyCapytain/common/reference/_capitains_cts.py")],
     "reference-model monitor over assignment histories", "Component model kept beside the URN through random histories of "
     "reads and writes." + TRUST)

prop("C03", "Reference sets are faithful ordered containers",
     "A set of references, whether CTS, DTS or generic, holds exactly the references it was given in the order given, "
     "including when it is given none or only one, by whichever construction form. Membership and position questions asked "
     "with a reference or with its text agree with the contents, and the set keeps the level and citation it was built "
     "with, also after being copied or pickled. DTS sets are equal only when references, level and citation all are.",
     ["inputs"], "all lists of 0-12 references, every construction form, every reference type and DTS citation type",
     "Tests build sets of several references only; singletons, empty sets, typed references and copies are not sampled.",
     ["MyCapytain/common/reference/_base.py", "MyCapytain/common/reference/_capitains_cts.py",
      "MyCapytain/common/reference/_dts_1.py"],
     [("BaseReferenceSet", "MyCapytain/common/reference/_base.py"),
      ("CtsReferenceSet", "MyCapytain/common/reference/_capitains_cts.py"),
      ("DtsReferenceSet", "MyCapytain/common/reference/_dts_1.py")],
     "container-model monitor", "List model beside every generated set." + TRUST)

prop("C04", "Citation schemes mean the same thing in every form",
     "A citation scheme built by hand, from scope/xpath pairs, from TEI refsDecl or from CTS XML exposes the same ordered "
     "levels, names, scopes, XPaths, depth, emptiness, children and root, and exports to TEI and CTS forms that read back as "
     "the same scheme; a DTS citation structure likewise keeps its tree, levels and depth through reading, JSON export and "
     "copying. Filling a level with labels gives the XPath that selects exactly those labels (open where no label is "
     "given), and matching a reference gives the level as deep as the reference. Changing scope, XPath or child of one "
     "level changes that level only, and copies are whole and independent.",
     ["inputs", "configurations"], "all schemes of 1-5 levels with any names and XPath shapes (hyphens, attributes, descendant "
     "steps), every construction route, all DTS citation forests",
     "Tests use two or three literal schemes with @n predicates and one construction route each.",
     ["MyCapytain/common/reference/_capitains_cts.py", "MyCapytain/common/reference/_dts_1.py",
      "MyCapytain/common/reference/_base.py", "MyCapytain/resources/collections/cts.py"],
     [("Citation", "MyCapytain/common/reference/_capitains_cts.py"),
      ("XmlCtsCitation.ingest", "MyCapytain/resources/collections/cts.py"),
      ("DtsCitationSet / DtsCitation", "MyCapytain/common/reference/_dts_1.py"),
      ("BaseCitationSet", "MyCapytain/common/reference/_base.py")],
     "differential (all routes) and round-trip monitors", "All construction routes of one generated scheme are compared with "
     "the model and with each other; exports are read back." + TRUST)

prop("C05", "Listing references enumerates every citable unit once, in document order",
     "For a local edition with a consistent citation scheme, the references listed at any level of the whole text, or under "
     "any unit or range, are exactly the citable units of that level there, in document order, carrying the right level and "
     "citation; what is not cited, or lies outside the edition, is never listed. Asking deeper than the scheme or for an "
     "unknown container fails with an error rather than a wrong list. Duplicate and empty identifiers are reported with "
     "warnings, never silently; an edition that does not say how it is cited is refused unless it is told, and a scheme that "
     "leads nowhere fails the text's own test.",
     ["inputs"], "all TEI editions of 1-4 citation levels (wrappers, ragged branches, look-alike structures, hostile labels), every "
     "level, unit and range, each source form",
     "Tests list references of a few real texts; ranges, ragged branches, wrappers and odd labels are not enumerated.",
     ["MyCapytain/resources/texts/local/capitains/cts.py"],
     [("_SharedMethods.getReffs / getValidReff", "MyCapytain/resources/texts/local/capitains/cts.py"),
      ("CapitainsCtsText.test", "MyCapytain/resources/texts/local/capitains/cts.py")],
     "reference-model monitor on generated editions", "Each edition is generated together with its ground-truth tree of units; "
     "the code never sees the latter." + TRUST)

prop("C06", "Extracting a unit returns exactly that unit",
     "Extracting any citable unit of a local edition, with or without its surrounding context, returns a passage that holds "
     "exactly the content of that unit, in the same elements and (in context) under copies of exactly its ancestors, and "
     "carries the identity of the text, the requested reference and the rest of the citation scheme. No reference gives "
     "the whole text. A reference that does not exist or goes deeper than the scheme is an error, never another passage.",
     ["inputs"], "all TEI editions of 1-4 levels and all units of them, in both extraction modes and every source form",
     "Tests check a few passages of a few texts and mostly the plain text of them, not the extracted tree.",
     ["MyCapytain/resources/texts/local/capitains/cts.py", "MyCapytain/common/utils/xml.py"],
     [("getTextualNode / _getSimplePassage", "MyCapytain/resources/texts/local/capitains/cts.py"),
      ("passageLoop", "MyCapytain/common/utils/xml.py")],
     "reference-model monitor (pruned source tree)", "The extracted tree is compared, canonically, with the source tree pruned by "
     "an independent implementation." + TRUST)

prop("C07", "Extracting a range returns its units, complete and nothing else",
     "Extracting a range of units of a local edition returns the units from the first through the last, both included, with "
     "everything that lies between them, in document order, each once, under copies of exactly their ancestors. This holds "
     "for ends at the same level in the same or in different parents, and for ends of different depths, whatever equal text, "
     "comments or uncited elements lie in between.",
     ["inputs"], "all TEI editions of 1-4 levels and all ranges over them whose ends do not contain one another",
     "Tests cover under a dozen ranges on two texts without equal-valued units, comments or wrappers in between.",
     ["MyCapytain/common/utils/xml.py", "MyCapytain/resources/texts/local/capitains/cts.py"],
     [("passageLoop, performXpath, copyNode", "MyCapytain/common/utils/xml.py"),
      ("getTextualNode", "MyCapytain/resources/texts/local/capitains/cts.py")],
     "reference-model monitor (pruned source tree)", "As C06, for ranges; the expected tree is cut by node positions, not by "
     "XPath." + TRUST)

prop("C08", "Reading an edition never changes it, and passages can be cited again",
     "What an opened edition answers to a request does not depend on what was asked before: after any history of listings, "
     "extractions, navigation, exports and failed requests, every answer equals that of a freshly opened copy and the source "
     "document is unchanged. Editing an extracted passage changes neither the edition nor other passages. Citing again "
     "inside an extracted passage returns the same units, content and references as citing the edition.",
     ["histories", "inputs"], "all histories of read operations over generated editions, all sub-references of extracted passages",
     "Tests open a text, ask one thing and stop; they never compare an answer after a history with a fresh one.",
     ["MyCapytain/resources/texts/local/capitains/cts.py", "MyCapytain/common/utils/xml.py",
      "MyCapytain/resources/texts/base/tei.py"],
     [("copyNode / normalizeXpath / passageLoop", "MyCapytain/common/utils/xml.py"),
      ("CapitainsCtsPassage", "MyCapytain/resources/texts/local/capitains/cts.py")],
     "differential trace monitor (long-lived vs fresh)", "Every operation of a random history is answered by the long-lived "
     "edition and by a fresh one, and compared." + TRUST)

prop("C09", "Walking from passage to passage visits the text in order",
     "From any passage of a local edition, the previous and next references are the neighbouring units (or, for ranges, "
     "neighbouring windows as wide as the range, cut short at the ends of the text), and there are none beyond the first and "
     "last. First, last and children references agree with the listing of references below the passage, and the linked "
     "passages hold the content their references announce. Following next from the first unit visits every unit exactly "
     "once in order, and previous undoes next.",
     ["inputs", "histories"], "all editions of 1-4 levels, all start units and same-level ranges, all hop sequences",
     "Tests walk one or two hops around fixed passages; ends of the text, one-unit ranges and full traverses are not sampled.",
     ["MyCapytain/resources/texts/local/capitains/cts.py", "MyCapytain/resources/prototypes/cts/text.py"],
     [("prev/next/siblingsId/childIds/firstId/lastId", "MyCapytain/resources/texts/local/capitains/cts.py")],
     "reference-model monitor over walks", "Expected neighbours computed from the ground-truth unit list." + TRUST)

prop("C10", "Exports of a passage are faithful to its content",
     "Exporting a text or passage to plain text, XML, TEI, a tree or a nested dictionary carries exactly its text in document "
     "order: nothing is lost, duplicated or reordered, characters special to the format survive, and the nested dictionary "
     "has one entry per unit at the place its reference says. Excluded elements, and only they, disappear with their content. "
     "The result does not depend on the form the source was given in.",
     ["inputs", "configurations"], "all editions and passages, all exclusion lists and join strings, each export format and source form",
     "Tests compare a few exports of fixed passages; special characters, nested exclusions and tails are not explored.",
     ["MyCapytain/resources/texts/base/tei.py", "MyCapytain/common/utils/xml.py", "MyCapytain/common/base.py"],
     [("TeiResource.__export__", "MyCapytain/resources/texts/base/tei.py"), ("nested_ordered_dictionary, xmlparser",
      "MyCapytain/common/utils/xml.py")],
     "reference-model monitor on exports", "Expected output computed from the ground-truth document." + TRUST)

prop("C11", "Metadata holders answer for exactly what was recorded about them",
     "A metadata holder returns exactly the values that were added or set and not removed, with their language and type, for "
     "any history of changes; asking for one value in a language gives a value of that language when there is one and "
     "otherwise some recorded value. Holders that share the triple store never see or lose each other's values. Exports "
     "(JSON, JSON-LD, RDF/XML), whole or restricted to namespaces or predicates, contain exactly the recorded statements.",
     ["histories", "inputs"], "all histories of set/add/remove over several holders sharing a store, all value kinds, all export filters",
     "Tests add two or three titles to one holder; removals, several holders, non-literal values and filters are barely touched.",
     ["MyCapytain/common/metadata.py", "MyCapytain/common/utils/_graph.py", "MyCapytain/common/constants.py",
      "MyCapytain/resources/texts/base/tei.py"],
     [("Metadata", "MyCapytain/common/metadata.py"), ("Subgraph", "MyCapytain/common/utils/_graph.py")],
     "multiset-model monitor over change histories", "Multiset of statements kept beside the real store through random "
     "histories; exports are parsed back." + TRUST)

prop("C12", "Collection trees answer lookups, descent, ancestry and deletion consistently",
     "In any tree of collections, members, parents, descendants and readable descendants are exactly those the tree was "
     "built with, each once, in order, and the number of readable items agrees with the list of them. Looking an identifier "
     "up anywhere in the tree finds that very item when it lies below the place asked, and is refused otherwise; membership "
     "agrees with lookup. Deleting an item removes it, with what lies below, from every view of the tree, and leaves all other items, with their labels and "
     "metadata, as they were.",
     ["histories", "inputs"], "all trees of collections and readable resources, all orders of growth, all histories of lookups and "
     "deletions",
     "Tests use three-level CTS trees of fixed shape and delete nothing that has neighbours or metadata.",
     ["MyCapytain/resources/prototypes/metadata.py"],
     [("Collection, ResourceCollection", "MyCapytain/resources/prototypes/metadata.py")],
     "reference-model monitor over histories", "A plain tree kept beside the real one; everything is re-checked after every "
     "deletion." + TRUST)

prop("C13", "CTS inventories are read, questioned and written without loss",
     "Reading a CTS inventory, text group, work or text from XML yields exactly the items of the document, with their names in every "
     "language, descriptions, languages, links to what they are about, citation scheme and structured metadata, and the "
     "questions an inventory answers (languages, translations, editions, labels, titles, creators) agree with them. Writing "
     "it in CTS or CapiTainS XML and reading that again yields the same items. Inventories built in code behave the same as "
     "those read from XML, and a collection of inventories exports all of them.",
     ["inputs"], "all inventories with names and texts in any language and characters, every value type, every XML shape "
     "(prefixes, comments, white space), alone or as parts",
     "Tests read one real inventory and compare counts and a few names; round trips of special characters, empty names, typed "
     "values and partial documents are not covered.",
     ["MyCapytain/resources/collections/cts.py", "MyCapytain/resources/prototypes/cts/inventory.py"],
     [("Xml*Metadata.parse", "MyCapytain/resources/collections/cts.py"),
      ("__export__ of CTS collections", "MyCapytain/resources/prototypes/cts/inventory.py")],
     "reference-model and round-trip monitors", "The model is generated first and the XML written from it; re-reading happens "
     "in an emptied triple store so that only the document can supply the answers." + TRUST)

prop("C14", "Merging partial descriptions of a text group or work loses nothing",
     "Merging text groups (or works) with the same identifier yields the union of their works and texts, each once, linked "
     "to the surviving parents, with the names and descriptions from all the parts; the item merged in keeps its own members. "
     "Merging with another identifier or another kind of item is refused and changes nothing. What is recorded on a merged "
     "item afterwards is found again in lookups and exports.",
     ["histories", "inputs"], "all ways of cutting a text group or work into 2-4 overlapping parts, all orders of merging, with "
     "refused merges in between",
     "Tests merge two fixed fragments once and count the result.",
     ["MyCapytain/resources/prototypes/cts/inventory.py"],
     [("CtsTextgroupMetadata.update, CtsWorkMetadata.update", "MyCapytain/resources/prototypes/cts/inventory.py")],
     "reference-model monitor over merge histories", "Model merge of the generating trees; the merged object is checked as in "
     "C13." + TRUST)

prop("C15", "A folder resolver finds, checks and files exactly what its repositories hold",
     "A resolver over local repositories knows exactly the groups, works and texts that the metadata files describe and whose files can be "
     "read with a citation scheme, whatever the folder names, and with the citation scheme of the file; a group spread over several folders is one "
     "group. A missing, malformed, empty or undeclared text is left out without harming anything else; broken metadata is an "
     "error, or skipped when the resolver is told not to raise. Each group is filed in the inventory of the last added "
     "dispatching rule that accepts it, and one that no rule accepts is an error, or left out when so configured.",
     ["inputs", "configurations", "fault_sequences"], "all repository trees on disk, folder names, splits over folders, file "
     "faults and sets of dispatching rules",
     "Tests read a few fixed repositories; faults, awkward folder names and rule precedence are not sampled.",
     ["MyCapytain/resolvers/cts/local.py", "MyCapytain/resolvers/utils.py"],
     [("CtsCapitainsLocalResolver.parse", "MyCapytain/resolvers/cts/local.py"),
      ("CollectionDispatcher", "MyCapytain/resolvers/utils.py")],
     "reference-model monitor with fault injection on disk", "Repositories are generated in scratch folders with injected "
     "faults; the resolver's inventory is compared with the model." + TRUST)

prop("C16", "A folder resolver answers every question from the files, or refuses it",
     "For every text it holds, the folder resolver returns the passage, references, neighbours and metadata that the files "
     "hold at that time, whether identifiers are given as text or as objects; asked with a work it answers for one of its "
     "editions. Metadata asked for an item shows that item, what can be read below it and its ancestors, and asking never "
     "changes what is known. Unknown items, unknown or too deep references, and identifiers that name no single text are errors, and "
     "pages of any size partition a list exactly.",
     ["inputs", "histories"], "all generated repositories, all questions in any order, existing or not; all list lengths, pages and "
     "limits",
     "Tests ask a few fixed questions of one repository, and pagination of a few sizes.",
     ["MyCapytain/resolvers/cts/local.py"], [("CtsCapitainsLocalResolver", "MyCapytain/resolvers/cts/local.py")],
     "reference-model monitor over question histories", "Answers are compared with the model the files were written from." + TRUST)

prop("C17", "Collections export to DTS JSON-LD that says exactly what they hold",
     "Any collection, plain or from a CTS inventory, exports to a JSON document that a standard JSON-LD processor reads as exactly: "
     "its identifier, type, title and description, its size, its recorded statements under the right predicates with text, language and "
     "type, its members (or parents) with theirs, and, for texts, their citation structure and depth. Exporting changes "
     "nothing, and another reader learns the same from the document.",
     ["inputs"], "all collections with statements in known or unknown namespaces, every value type, branching citation structures",
     "Tests compare a few exports literally; unknown namespaces, typed values, empty titles and branching citations are not "
     "covered.",
     ["MyCapytain/resources/prototypes/metadata.py", "MyCapytain/common/utils/_json_ld.py", "MyCapytain/common/reference/_dts_1.py"],
     [("Collection.__export__ (JSON.DTS.Std)", "MyCapytain/resources/prototypes/metadata.py"),
      ("DtsCitationSet/DtsCitation.export", "MyCapytain/common/reference/_dts_1.py")],
     "reference-model monitor through an independent JSON-LD processor", "The export is expanded by pyld and compared with the "
     "model." + TRUST)

prop("C18", "DTS collection documents are read in full, however they are spelled",
     "Reading a DTS collection document yields the identifier, title, description, size, kind, metadata, members or parents "
     "and citation structure it states, whatever equivalent JSON-LD spelling is used; each level of the citation structure "
     "is found where the document puts it and its depth is the deepest branch. Reading again replaces what changes and "
     "duplicates nothing; documents without an identifier or of unknown type are refused.",
     ["inputs"], "all DTS collection documents in all equivalent spellings, with members and citation trees of any shape",
     "Tests read three or four literal documents in one spelling.",
     ["MyCapytain/resources/collections/dts/_base.py", "MyCapytain/common/reference/_dts_1.py"],
     [("DtsCollection.parse", "MyCapytain/resources/collections/dts/_base.py"),
      ("DtsCitationSet.ingest", "MyCapytain/common/reference/_dts_1.py")],
     "reference-model monitor over equivalent spellings", "Documents are generated from a model in random equivalent JSON-LD "
     "spellings. Known finding: relative member identifiers." + TRUST)

prop("C19", "The CTS client sends exactly what was asked and returns exactly what came back",
     "Every request of the CTS client reaches the endpoint as one GET request carrying exactly the identifier, reference, level, context and "
     "inventory asked for (or the default inventory), whatever characters they hold, and no parameter that was not given. "
     "The answer is the text the server sent, decoded as the server declares (UTF-8 when it declares nothing). A status of failure, or "
     "no server at all, is an error and never an answer.",
     ["inputs", "fault_sequences"], "all request kinds, identifiers and references with any characters, inventories, response charsets, "
     "error codes, redirections",
     "Tests replace the HTTP layer by a stub, so that nothing is ever encoded, sent or decoded.",
     ["MyCapytain/retrievers/cts5.py", "MyCapytain/retrievers/prototypes.py", "MyCapytain/resolvers/cts/api.py"],
     [("HttpCtsRetriever", "MyCapytain/retrievers/cts5.py")],
     "wire monitor on a real loopback server", "What the server received is recorded before the code under test can interpret "
     "it." + TRUST)

prop("C20", "Texts of a remote CTS endpoint read like the texts behind it",
     "Through a CTS endpoint, texts and passages give the content, references, neighbours, first and last and other children, "
     "parents, labels in every language and citation scheme that the endpoint holds for them, whichever way a reference is given and from "
     "whichever passage the walk comes. The catalogue, or the part of it asked for, is likewise complete. A request always names one "
     "text and passage, what a passage already knows is not asked again, and unknown texts or passages are errors.",
     ["inputs", "histories"], "all inventories and editions behind the endpoint, all references and ways to ask, all walks",
     "Tests give the same canned response to every request, so a wrong request still gets a right answer.",
     ["MyCapytain/resources/texts/remote/cts.py", "MyCapytain/resolvers/cts/api.py", "MyCapytain/resources/prototypes/text.py"],
     [("CtsText, CtsPassage", "MyCapytain/resources/texts/remote/cts.py"), ("HttpCtsResolver", "MyCapytain/resolvers/cts/api.py")],
     "model server on the wire, reference-model monitor", "A model CTS server answers over real HTTP from generated "
     "editions." + TRUST)

prop("C21", "The DTS client asks the announced routes for exactly what was asked",
     "Every request of the DTS client reaches the route that the entry point announced for it, however that route is written, as one GET "
     "request with the route's own query parameters and exactly the identifier, reference or range, level, grouping, page and other "
     "parameters asked for, and nothing that was not given. What came back is handed over unaltered, pages announced in Link headers "
     "included; failures are never taken for answers.",
     ["inputs", "fault_sequences"], "all forms of entry points and routes, all parameters with any characters, all Link headers, "
     "charsets and statuses",
     "Tests use one entry point with two relative routes and canned responses keyed by plain URLs.",
     ["MyCapytain/retrievers/dts/__init__.py", "MyCapytain/retrievers/prototypes.py", "MyCapytain/common/utils/_http.py"],
     [("HttpDtsRetriever", "MyCapytain/retrievers/dts/__init__.py"), ("parse_uri", "MyCapytain/common/utils/_http.py")],
     "wire monitor on a real loopback server", "What the server received is recorded before the code under test can interpret "
     "it." + TRUST)

prop("C22", "Texts of a DTS endpoint read like the texts behind it",
     "Through a DTS endpoint, references are listed completely and in order at every level, below any reference or range, grouped "
     "or not, across any number of pages, with the kind and metadata the endpoint gives each. Documents and passages give the content, "
     "neighbours, parent, children and collection that the endpoint holds for them, from wherever the walk comes. An answer that "
     "fails or says nothing is an error, never a shorter list.",
     ["inputs", "histories", "fault_sequences"], "all editions behind the endpoint, all levels, references, ranges and groupings, all page "
     "sizes, all walks, failures at any page",
     "Tests replay a handful of recorded answers, at most two pages, and never walk from one passage to the next.",
     ["MyCapytain/resolvers/dts/api_v1.py", "MyCapytain/resources/texts/remote/dts/_resolver_v1.py",
      "MyCapytain/resources/prototypes/text.py"],
     [("HttpDtsResolver", "MyCapytain/resolvers/dts/api_v1.py"),
      ("DtsResolverDocument", "MyCapytain/resources/texts/remote/dts/_resolver_v1.py")],
     "model server on the wire, reference-model monitor", "A model DTS server answers over real HTTP from generated "
     "editions." + TRUST)

prop("C23", "Collections of a DTS endpoint are complete across pages, in any order of asking",
     "However members and parents of a remote collection are asked for, first or later, by listing, counting, lookup or descendants, "
     "the answer is everything the endpoint holds, once each and in its order, whatever the page size and whatever was known "
     "before. Each page is requested once and only when needed. A page that fails is an error, and asking again after the "
     "failure gives the complete answer.",
     ["inputs", "histories", "fault_sequences"], "all catalogues (with several parents too), all page sizes, all walks, failures at any "
     "request of the walk",
     "Tests follow one fixed walk through recorded answers and never fail in the middle.",
     ["MyCapytain/resources/collections/dts/_resolver.py", "MyCapytain/resolvers/dts/api_v1.py"],
     [("HttpResolverDtsCollection, PaginatedProxy", "MyCapytain/resources/collections/dts/_resolver.py")],
     "model server on the wire, reference-model monitor, fault injection", "A model DTS server answers over real HTTP from generated "
     "catalogues." + TRUST)

prop("C24", "A client of the common interface cannot tell one resolver from another",
     "One library behind a folder of files, a CTS endpoint and a DTS endpoint gives a client of the common resolver interface the "
     "same catalogue, the same references at every level and below every reference, the same text, neighbours, parents, children and "
     "exports of every passage, and the same walks from start to end and back. What one of them refuses, the others do "
     "not answer.",
     ["inputs", "histories"], "all libraries of editions, all sequences of questions",
     "Every resolver has tests of its own, on data of its own; none asks two of them the same question.",
     ["MyCapytain/resolvers/prototypes.py", "MyCapytain/resolvers/cts/local.py", "MyCapytain/resolvers/cts/api.py",
      "MyCapytain/resolvers/dts/api_v1.py", "MyCapytain/resources/prototypes/text.py"],
     [("Resolver", "MyCapytain/resolvers/prototypes.py"), ("InteractiveTextualNode", "MyCapytain/resources/prototypes/text.py")],
     "differential monitor of three resolvers with a reference model", "Both endpoints are model servers over real HTTP on "
     "the loopback." + TRUST)

prop("C25", "A collection exported as RDF is everything that can be reached from it",
     "Exporting a collection to RDF/XML or JSON-LD gives exactly the statements about everything that can be reached from it, however far "
     "and through circles too, with those that point at it from elsewhere: values, languages, types, unnamed nodes and all. What "
     "is not connected to it is left out, and exporting changes nothing in the store.",
     ["inputs", "histories"], "all stores of statements about collections, literals of every kind and circular "
     "structures",
     "Tests compare two or three exports with literal documents of flat collections.",
     ["MyCapytain/resources/prototypes/metadata.py", "MyCapytain/common/utils/_graph.py"],
     [("Collection.__export__", "MyCapytain/resources/prototypes/metadata.py"), ("Subgraph", "MyCapytain/common/utils/_graph.py")],
     "reference-model monitor on exports read back", "Reachability is computed on the store by the check itself; exports are "
     "read back by rdflib and pyld. Empty plain literals beside others are not judged in JSON-LD, where rdflib drops "
     "them." + TRUST)

prop("C26", "An advertised export format can be had, and no other is given",
     "Every object that can be exported lists the formats it and its ancestors declare, gives each of them through the most specific "
     "class that declares it, and its default when none is asked for. Any other format is refused with an error. Objects of "
     "the library give every format they advertise, the same one every time.",
     ["inputs"], "all class hierarchies of exportable objects, all formats, all objects of the library",
     "Tests export the formats they expect, never the whole advertised list, and no hierarchy with more than two parents.",
     ["MyCapytain/common/base.py", "MyCapytain/common/metadata.py", "MyCapytain/resources/prototypes/metadata.py",
      "MyCapytain/resources/prototypes/text.py"],
     [("Exportable", "MyCapytain/common/base.py")],
     "reference-model monitor over generated class hierarchies", "Classes are generated as users of the library would write "
     "them." + TRUST)

prop("C27", "Reading a document reads that document and nothing else",
     "Whatever XML a text, an inventory or an endpoint's answer holds, reading it opens no other file and sends no request to an address "
     "that the document names: external entities, DTDs, inclusions and stylesheets are never fetched, and nothing of them shows in "
     "what is read. A document that only mentions them is read in full, with its own entities, character references and CDATA "
     "sections as the text they stand for.",
     ["inputs"], "all documents with declarations of any kind, through all ways of reading texts, inventories and answers",
     "No test file has a document type declaration, an entity or a CDATA section.",
     ["MyCapytain/common/utils/xml.py", "MyCapytain/resources/texts/base/tei.py", "MyCapytain/resources/collections/cts.py",
      "MyCapytain/resolvers/cts/local.py"],
     [("xmlparser", "MyCapytain/common/utils/xml.py")],
     "canary files under inotify and canary addresses, with content monitor", "Files are watched by the kernel, addresses by the "
     "server that owns them." + TRUST)

prop("C28", "Readers that work at the same time get what each would get alone",
     "When several threads share a text, a passage or a resolver and read through it at the same time, every answer about references, "
     "passages, ranges, neighbours, children and plain or XML content is the one that reader would have had alone, whatever order "
     "the threads are scheduled in; none fails and none waits forever. Nothing is said of writing, nor of exports of "
     "collections.",
     ["schedules", "inputs"], "all interleavings of readers, all texts and questions",
     "No test starts a thread.",
     ["MyCapytain/resources/texts/local/capitains/cts.py", "MyCapytain/resources/prototypes/text.py",
      "MyCapytain/resources/texts/base/tei.py", "MyCapytain/resolvers/cts/local.py", "MyCapytain/resolvers/cts/api.py",
      "MyCapytain/resolvers/dts/api_v1.py"],
     [("CapitainsCtsText, CapitainsCtsPassage", "MyCapytain/resources/texts/local/capitains/cts.py"),
      ("CtsCapitainsLocalResolver", "MyCapytain/resolvers/cts/local.py")],
     "stress, injected yields and seeded turns against a reference model", "Threads are switched every microsecond, or put aside half done at lines of the library while others go on; "
     "interleavings are sampled." + TRUST)

prop("C29", "Triple stores put in use one after another stay separate",
     "Putting another triple store in use moves what is read or made from then on - metadata, inventories, collections, texts, "
     "folder resolvers - to that store and to no other. Whatever was made before keeps answering from, exporting and recording in its own "
     "store, whichever is in use: descriptions, labels, links, merges, deletions. So two stores may say different things of "
     "one identifier, neither shows in the other, and no question writes anything.",
     ["histories", "inputs"], "all histories of changes of store, of things made, described, questioned, merged, deleted and exported",
     "Tests change the store only to start afresh; none comes back to an object of an earlier store.",
     ["MyCapytain/common/constants.py", "MyCapytain/common/metadata.py", "MyCapytain/resources/prototypes/metadata.py",
      "MyCapytain/resources/prototypes/cts/inventory.py", "MyCapytain/resources/prototypes/text.py",
      "MyCapytain/resources/collections/dts/_base.py"],
     [("get_graph, set_graph, bind_graph", "MyCapytain/common/constants.py"), ("Metadata", "MyCapytain/common/metadata.py"),
      ("Collection", "MyCapytain/resources/prototypes/metadata.py")],
     "non-interference monitor on interleaved histories of several stores, against each history alone",
     "Passages and folder lookups asked while a foreign store is in use are left out, as are stores without the usual prefixes." + TRUST)

prop("C30", "Texts written on the prototypes can be told, walked and described",
     "A text or passage class of one's own needs to say only what is particular to it. A node made with children, parent, "
     "siblings or depth knows exactly these, and nothing it was not told. A node over getReffs and getTextualNode can be walked in "
     "every direction: previous, next, parent, first, last and children are the nodes of these identifiers, made by its own "
     "getTextualNode, at the moment they are asked for; beyond an end there is None; the children's identifiers are asked for once at most. "
     "Creator, title, description and subject are those it was given, per language. Described from a catalogue entry, a text "
     "carries the names of group, work and version, in every language, and the entry's citation only if it has none.",
     ["inputs", "histories"], "all trees of passages, all ways to tell nodes of them what surrounds them, all walks, all descriptions",
     "Tests look at a few attributes of the prototypes; none derives a class from them, walks it, or makes one with the documented parameters.",
     ["MyCapytain/resources/prototypes/text.py", "MyCapytain/resources/prototypes/cts/text.py", "MyCapytain/common/reference/_base.py"],
     [("TextualElement, TextualNode, InteractiveTextualNode", "MyCapytain/resources/prototypes/text.py"),
      ("PrototypeCtsNode, PrototypeCtsText", "MyCapytain/resources/prototypes/cts/text.py"), ("NodeId", "MyCapytain/common/reference/_base.py")],
     "reference-model monitor over walks of derived classes", "Classes are derived from the prototypes over a random tree, which is the oracle; "
     "what they are asked on the way is recorded and judged too." + TRUST)
