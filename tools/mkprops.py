#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line) from the table below."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Cached answers equal fresh answers",
  "For any sequence and any overlap of catalog, grid, source-document and single-fact requests over unchanged folders, every response equals the response a cache-less instance gives to the same request. "
  "A failing request never turns into a success by being repeated, and a request is never answered with the result of a different request.",
  ["histories", "schedules", "inputs"],
  "all request histories (requests possibly failing, identifiers possibly colliding as strings) and all interleavings of requests with the delayed cache writes they start",
  "The tests call the cache entry points once each with one client; they never repeat a failing request, overlap requests, or use identifiers that clash with other cache keys.",
  ["pkg/cache/cache.go", "internal/web/web.go", "cmd/telefacts/main.go", "pkg/hydratables/global.go", "pkg/hydratables/measurement.go"],
  [("cache keys per request kind", "pkg/cache/cache.go"), ("store only successful results", "pkg/cache/cache.go"), ("RW lock around the shared cache", "pkg/cache/cache.go")],
  ["HTTP responses", "exported marshal functions of the cache package"],
  [("appCache", "hydrated folders and rendered bytes by string key", "pkg/cache/cache.go")])

prop("C02", "No request or folder content takes the service down",
  "Whatever files a folder holds (well-formed or not) and whatever identifiers a request carries, the request ends in bounded time with an answer or an error and the process survives. "
  "Afterwards requests for other folders are answered as before.",
  ["inputs", "histories"],
  "all folders obtained from valid ones by removing, emptying, duplicating, dangling or corrupting parts, and all request histories over them",
  "The tests use half a dozen real filings that are almost entirely valid; a panic in a background goroutine or an endless loop needs a specific defect in the input.",
  ["pkg/hydratables/instance.go", "pkg/hydratables/document.go", "pkg/renderables/contexts.go", "pkg/renderables/expressable.go", "pkg/serializables/folder.go", "pkg/attr/name.go", "pkg/cache/cache.go"],
  [("skip unusable elements", "pkg/hydratables/*.go"), ("error returns up to the HTTP handlers", "internal/web/web.go")],
  ["HTTP responses", "process exit"])

prop("C03", "Discovery loads exactly the reachable files and always stops",
  "Loading a folder terminates for every reference graph, cyclic ones included, and yields exactly the local schemas and linkbases reachable from the instance through schema references, includes, imports and the linkbase references of schemas, each with its own content. "
  "Every namespace introduced by a reference is known afterwards with a location some reference gave it. Missing or unreadable files are left out without affecting the others.",
  ["inputs", "schedules"],
  "all reference graphs over the four reference kinds (cycles, sharing, missing files, remote targets) and all interleavings of the concurrent exploration",
  "All sample filings have one extension schema that references linkbases directly; no test has an include, a chain, a cycle, or a missing file in the middle.",
  ["pkg/serializables/folder.go"],
  [("concurrent closure with wait groups", "pkg/serializables/folder.go"), ("mutex around the shared maps", "pkg/serializables/folder.go")],
  ["result of folder discovery"],
  [("Folder maps", "loaded files by reference", "pkg/serializables/folder.go")])

prop("C04", "Catalog addresses and grids agree",
  "The catalog lists every entity of the instance and every declared role once, in order, and gives each entity/role pair an address of its own. "
  "Requesting a listed address returns the grid of exactly that entity and role with the same titles and entity name as the catalog; an address not listed is refused.",
  ["inputs", "configurations"],
  "all folders with any number of entities, roles and role-declaring annotations, with or without a registered entity name or name registry",
  "The tests look at one entity per filing and pin a few addresses; they never check all pairs, several entities, or a missing name registry.",
  ["pkg/renderables/catalog.go", "pkg/renderables/renderable.go", "pkg/renderables/relationshipSet.go", "pkg/renderables/contexts.go", "pkg/hydratables/schema.go", "pkg/hydratables/query.go"],
  [("address = hash of entity, role and title", "pkg/renderables/catalog.go"), ("sorted, deduplicated entities and roles", "pkg/renderables/relationshipSet.go")],
  ["catalog and grid JSON"])

prop("C05", "The same folder always gives the same answer",
  "Processing unchanged folder content gives the same catalog, grid and single-fact answers byte for byte, however often it is repeated, in one process or several, and however the parallel work is scheduled.",
  ["schedules", "inputs", "histories"],
  "all folders (several linkbases per kind, several footnotes, several typed dimensions, labels in several languages) and all schedules and map iteration orders of repeated processing",
  "Each test renders each view once and compares selected fields, so an answer that varies from run to run passes whenever the sampled run is lucky.",
  ["pkg/renderables/renderable.go", "pkg/renderables/factualQuadrant.go", "pkg/renderables/labelPack.go", "pkg/renderables/label.go", "pkg/renderables/calculationGrid.go", "pkg/renderables/presentationGrid.go", "pkg/renderables/effectiveDomainGrid.go", "pkg/renderables/typedMember.go"],
  [("sorting before emission", "pkg/renderables/*.go"), ("results merged after the parallel parts finish", "pkg/renderables/renderable.go")],
  ["catalog, grid and single-fact JSON bytes"])

prop("C06", "Concurrent processing shares no unsynchronised data",
  "Requests processed at the same time, and the parallel work inside a single request, never access the same memory without synchronisation when one of them writes.",
  ["schedules"],
  "all schedules of concurrent loading, hydration and rendering of the same and of different folders, including inline documents",
  "The suite runs single requests without the race detector; unsynchronised access only shows under particular schedules.",
  ["pkg/serializables/folder.go", "pkg/serializables/document.go", "pkg/hydratables/document.go", "pkg/hydratables/global.go", "pkg/renderables/renderable.go", "pkg/cache/cache.go"],
  [("mutexes and wait groups", "pkg/serializables/folder.go"), ("per-goroutine results", "pkg/renderables/renderable.go")],
  ["race detector reports while serving"])

prop("C07", "Presentation rows are the role's ordered concept tree",
  "The presentation view of a role has one row per relationship of its network plus one per root, a parent immediately before its subtree, children one level deeper, and siblings in ascending order value with ties in document order and orders that are not finite numbers last. "
  "Every row names the concept its locator points to, and nothing from other roles appears.",
  ["inputs"],
  "all presentation networks that are forests, split over any number of extended links, with repeated concepts, equal and fractional order values and unrelated roles in the same or other linkbases",
  "The tests compare a handful of rows of a few filings; order and nesting depend on the whole shape of the network.",
  ["pkg/renderables/presentationGrid.go", "pkg/renderables/concepts.go", "pkg/hydratables/presentationLinkbase.go", "internal/graph/graph.go"],
  [("tree built from ordered arcs", "internal/graph/graph.go"), ("pre-order walk with indentation", "pkg/renderables/presentationGrid.go")],
  ["grid JSON"])

prop("C08", "Columns are exactly the contexts that matter",
  "Every grid has exactly one column for each context of the viewed entity that carries a fact for some non-abstract concept among its rows, and no other column. "
  "Columns are ordered by period text and then by number of dimension members.",
  ["inputs"],
  "all assignments of facts to contexts of several entities, periods and dimension combinations, for the presentation, definition and calculation grids",
  "The samples have one entity each and the tests count columns of single grids.",
  ["pkg/renderables/contexts.go", "pkg/renderables/contextualQuadrant.go"],
  [("relevant-context selection", "pkg/renderables/contexts.go"), ("column sort", "pkg/renderables/contexts.go")],
  ["grid JSON"])

prop("C09", "A cell shows its own fact and nothing else",
  "The cell at a row and column expresses the fact reported for the row's concept in the column's context: its value, 'nil' for a nil fact, and empty when there is none. "
  "No fact of another concept, context, entity or role shows up there; of duplicates the one first in id order is shown.",
  ["inputs"],
  "all filings with facts, nil facts, missing facts, duplicates, similar identifiers and several entities, in all three grids",
  "The tests read a few cells of real filings; a systematic shift or mix-up of rows and columns elsewhere stays invisible.",
  ["pkg/renderables/factualQuadrant.go", "pkg/hydratables/fact.go", "pkg/renderables/fact.go", "pkg/hydratables/instance.go"],
  [("lookup by concept and context", "pkg/hydratables/fact.go"), ("row/column aligned matrices", "pkg/renderables/factualQuadrant.go")],
  ["grid JSON"])

prop("C10", "Dimension headers match each column's context",
  "For every column the dimension header shows exactly the explicit and typed members of that column's context, from segment and scenario, each under its own dimension and typed domain element, and blanks elsewhere. "
  "Every dimension that a shown context uses has its header row and no unused dimension has one.",
  ["inputs"],
  "all combinations of explicit and typed dimensions in segments and scenarios over the columns of a grid, typed members nested or with several children",
  "Only one sample has several hypercubes and none combines several typed dimensions.",
  ["pkg/renderables/contextualQuadrant.go", "pkg/renderables/contexts.go", "pkg/renderables/typedMember.go", "pkg/hydratables/instance.go"],
  [("header rows from used dimensions", "pkg/renderables/contextualQuadrant.go"), ("typed member parsing", "pkg/hydratables/instance.go")],
  ["grid JSON"])

prop("C11", "Footnote marks point at the right footnotes",
  "The footnote numbers of a cell denote, as positions in the grid's footnote list, exactly the footnotes linked to the cell's fact. "
  "The list holds every footnote used in the grid once and nothing else.",
  ["inputs", "schedules"],
  "all footnote links (several links, several footnotes per fact, shared footnotes, labels different from ids) and all iteration orders",
  "The only sample with footnotes has one footnote per fact and its test cannot tell a permuted numbering.",
  ["pkg/renderables/factualQuadrant.go", "pkg/hydratables/fact.go", "pkg/hydratables/instance.go"],
  [("footnote resolution", "pkg/hydratables/fact.go"), ("numbering", "pkg/renderables/factualQuadrant.go")],
  ["grid JSON"])

prop("C12", "Calculation view mirrors the summation relationships",
  "The calculation view of a role lists every summation concept once, each with its contributing concepts in ascending order value, sign and magnitude of the weight, balance type and whether the contributor is itself a sum. "
  "The rows of its grid are the contributors in that order followed by the sum itself.",
  ["inputs"],
  "all summation networks with positive and negative weights, shared contributors, nested sums, equal orders and several locators per concept",
  "The tests inspect one calculation of one filing.",
  ["pkg/renderables/calculationGrid.go", "pkg/hydratables/calculationLinkbase.go", "pkg/renderables/concepts.go"],
  [("grouping by summation concept", "pkg/renderables/calculationGrid.go")],
  ["grid JSON"])

prop("C13", "Dimensional relationship list is complete and exact",
  "The dimensional relationship view of a role has one link per definition relationship with its source, target, kind, order and attributes (closed defaults to false, usable to true, default only for default relationships), and one node per concept involved.",
  ["inputs"],
  "all definition networks over the six relationship kinds with present, absent and malformed attributes",
  "No test looks at attribute values of these links.",
  ["pkg/renderables/dimensionRelationshipSet.go", "pkg/hydratables/definitionLinkbase.go"],
  [("attribute defaults", "pkg/hydratables/definitionLinkbase.go"), ("link classification by arcrole", "pkg/renderables/dimensionRelationshipSet.go")],
  ["grid JSON"])

prop("C14", "Definition view shows each item's effective domains",
  "The definition view has one table per primary-item tree, its rows being that tree in order, and its dimensions being exactly those attached to a hypercube in the role. "
  "For a row item and a dimension it lists the members of that dimension's own domain and its default when a hypercube of that item includes the dimension, marked as excluded when a negative hypercube does, and nothing otherwise.",
  ["inputs"],
  "all dimensional networks with several hypercubes, dimensions with separate domains and defaults, inclusive and exclusive hypercubes, over one or several definition linkbases",
  "The samples with dimensions have one dimension per hypercube or are not rendered for lack of taxonomy files.",
  ["pkg/renderables/effectiveDomainGrid.go", "pkg/renderables/definitionGrid.go"],
  [("domain networks per arcrole", "pkg/renderables/effectiveDomainGrid.go")],
  ["grid JSON"])

prop("C15", "Labels belong to their concept and all languages are offered",
  "Every concept shown carries, per label kind and supported language, a label linked to that concept in the folder's label linkbases and its reference when unlabelled; no label of another concept, kind or language is shown. "
  "The page's language and label-kind selectors include every one used by a row or column header and only ones for which the folder has labels.",
  ["inputs"],
  "all label linkbases (several files and links, several locators and labels per concept, supported and unsupported languages and kinds)",
  "The tests compare a few English labels.",
  ["pkg/renderables/label.go", "pkg/renderables/labelPack.go", "pkg/hydratables/labelLinkbase.go"],
  [("label resolution through locators and arcs", "pkg/renderables/label.go"), ("union of label packs", "pkg/renderables/labelPack.go")],
  ["grid and single-fact JSON"])

prop("C16", "Numeric expressions denote the reported value and unit",
  "Read back as a number, the expression of a numeric fact is the reported value, or that value cut off within its stated precision, times one hundred for percentages, with the sign kept. "
  "Its unit text is the registered symbol or name of the fact's own unit and of its denominator, and languages differ only in digit grouping; facts without stated precision, or with a precision too extreme to be applied (twelve digits or more), are shown verbatim.",
  ["inputs"],
  "all decimal values, precisions, item types and simple or divided units",
  "The high-precision test covers a few values with one unit; no test has a divided unit.",
  ["pkg/renderables/fact.go", "pkg/renderables/english.go", "pkg/renderables/spanish.go", "pkg/hydratables/measurement.go", "pkg/hydratables/precision.go"],
  [("digit expression", "pkg/renderables/fact.go"), ("unit lookup in the registry", "pkg/hydratables/measurement.go")],
  ["grid and single-fact JSON"])

prop("C17", "Period wording denotes the context's dates",
  "Each column's raw period is its context's instant or start/end dates, and its English and Spanish wording denote the same end date and, for durations of at least thirty days, the same number of calendar months touched. "
  "Anything that is not a pair of valid dates, and shorter durations, are shown raw.",
  ["inputs"],
  "all valid calendar dates and pairs, including leap days, year ends and inverted ranges, and malformed date text",
  "The tests show two or three period headers.",
  ["pkg/renderables/formatPeriod.go", "pkg/renderables/english.go", "pkg/renderables/spanish.go", "pkg/renderables/contexts.go"],
  [("month counting", "pkg/renderables/formatPeriod.go")],
  ["grid and single-fact JSON"])

prop("C18", "The single-fact view agrees with the grid",
  "For a concept and context tagged in the inline document, the single-fact view gives the concept, labels, raw period, dimension members, footnotes and value that the grid shows for that fact. "
  "For any name or context the document does not tag, or a pair without a fact, it gives no fact.",
  ["inputs"],
  "all inline filings and all name/context pairs, tagged or not",
  "The tests fetch single facts without comparing them to the grid and never ask for untagged pairs.",
  ["pkg/renderables/expressable.go", "pkg/hydratables/document.go"],
  [("tag maps of the inline document", "pkg/hydratables/document.go"), ("shared fact and context lookup", "pkg/renderables/expressable.go")],
  ["single-fact JSON"])

prop("C19", "Folder creation is exclusive and all or nothing",
  "Of any number of concurrent or repeated creations with the same key exactly one succeeds and the others report that it exists, with the same identifier; different keys and key-less creations never share a folder, and a created folder records the entry it was given. "
  "A creation that fails or is killed part-way leaves nothing behind that makes a later creation with that key fail.",
  ["schedules", "crash_points", "fault_sequences"],
  "all interleavings of concurrent creators and all points at which a creator fails or is killed",
  "No test creates a folder concurrently, with a failing file system, or interrupted.",
  ["pkg/serializables/underscore.go"],
  [("identifier derived from the key", "pkg/serializables/underscore.go"), ("atomic directory creation", "pkg/serializables/underscore.go")],
  ["result of folder creation", "folders directory"])

prop("C20", "File access stays inside folder and taxonomy set",
  "Loading and rendering a folder reads nothing outside that folder, the shared taxonomy set and the name registry, whatever its references say (parent steps, absolute paths, encoded or odd URLs). "
  "A taxonomy URL always resolves below the taxonomy set, and URLs that differ in scheme, host name or normalised path never resolve to the same file. Loading a taxonomy URL gives the bytes of that file, and fails when there is none.",
  ["inputs"],
  "all reference strings and URLs",
  "The tests only resolve well-behaved taxonomy URLs.",
  ["pkg/serializables/global.go", "pkg/serializables/folder.go"],
  [("URL to path mapping", "pkg/serializables/global.go"), ("path join under the folder", "pkg/serializables/folder.go")],
  ["files reached", "resolved paths"])

prop("C21", "Concept names resolve to the right concept",
  "Every concept declared in the loaded schemas of a namespace is found by its qualified name and by its reference, both giving the same declaration, and undeclared names give none. "
  "In inline documents a prefix always stands for the namespace bound to it on the document element, and names of different namespaces never get the same rewritten prefix.",
  ["inputs"],
  "all sets of schemas (also several per namespace), concepts and prefix bindings, including clashes with reserved prefixes and more than twenty-six clashes",
  "The samples bind conventional prefixes to one schema each.",
  ["pkg/hydratables/query.go", "pkg/attr/name.go", "pkg/attr/attr.go"],
  [("namespace table", "pkg/hydratables/query.go"), ("prefix allocation", "pkg/attr/name.go")],
  ["lookup results", "rewritten names"])

prop("C22", "The source document is served whole with images inlined",
  "The source document of an inline filing is served with all its text and elements; an image element whose reference ends in the name of a JPEG or PNG file of the folder carries that file's content, and every other attribute is unchanged. "
  "Without image files in the folder the filed bytes are served unchanged.",
  ["inputs"],
  "all inline documents and all sets of image and non-image files next to them",
  "One test checks one image of one filing.",
  ["pkg/serializables/image.go", "pkg/serializables/folder.go", "pkg/cache/cache.go"],
  [("image table by content type", "pkg/serializables/folder.go"), ("attribute rewrite", "pkg/serializables/image.go")],
  ["served document"])

prop("C23", "Text blocks are reduced to safe markup without losing text",
  "The markup shown for a text-block fact contains only table, row, cell and line-break elements without attributes. "
  "Its text is the text of the fact in order, and characters that were text in the fact never become markup.",
  ["inputs"],
  "all HTML fragments, escaped once as facts hold them, including scripts, attributes, nested tables, spanning cells and text that looks like markup",
  "One narrative fact of one filing is rendered by the tests.",
  ["pkg/renderables/textBlock.go"],
  [("token filter", "pkg/renderables/textBlock.go")],
  ["grid and single-fact JSON"])

prop("C24", "Unusable parts are dropped without side effects",
  "Adding unusable pieces to a folder (elements without a required attribute or of a foreign namespace, facts, labels or footnotes of unknown concepts, contexts or facts, references to missing files) leaves everything shown for the rest unchanged.",
  ["inputs"],
  "all filings and all insertions of unusable contexts, units, facts, locators, arcs, labels, roles, footnotes and references at any position",
  "The samples contain hardly any unusable piece, and no test compares a filing with and without one.",
  ["pkg/hydratables/instance.go", "pkg/hydratables/presentationLinkbase.go", "pkg/hydratables/definitionLinkbase.go", "pkg/hydratables/calculationLinkbase.go", "pkg/hydratables/labelLinkbase.go", "pkg/hydratables/schema.go"],
  [("element validation while hydrating", "pkg/hydratables/*.go")],
  ["catalog and grid JSON"])

prop("C25", "HTTP answers carry exactly the produced result",
  "A GET for a folder's catalog, an address, the source document or a single fact answers with status 200 and exactly the produced bytes when there is a result, and with an error status and no result bytes when processing fails. "
  "Other methods are never answered with data.",
  ["inputs", "histories"],
  "all methods, identifiers (escaped, unknown, empty) and query strings, over valid and broken folders",
  "No test goes through the HTTP router.",
  ["internal/web/web.go"],
  [("route table and handlers", "internal/web/web.go")],
  ["HTTP responses"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for p in P:
        p["statement"] = p["statement"].strip()
        assert len(p["title"]) <= 80
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
