#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=(), state=()):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=qtext),
        why_tests_cant=why,
        anchors=dict(files=list(files),
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=list(observe), hook_needed=None)))

MIX = 'xigt/mixins.py'; MOD = 'xigt/model.py'; MET = 'xigt/metadata.py'; REF = 'xigt/ref.py'
QRY = 'xigt/query.py'; XML = 'xigt/codecs/xigtxml.py'; JSN = 'xigt/codecs/xigtjson.py'; XP = 'xigt/xigtpath.py'

p('C01', 'Containers: document order and lookup by id always agree',
  'For every container of the model (corpus/igts, igt/tiers, tier/items, metadata list, metadata/metas, meta/children, child/children), after any history of append, insert, extend, +=, item assignment, deletion by index or id, remove, pop, clear, collection assignment, sort/reverse and rename-plus-refresh, the document order is the one those list edits prescribe (removing an object removes that very object). '
  'At every point iteration, len and index access (positive, negative, numeric string, slices) agree with that order, and lookup by id finds the object that carries the id and is currently contained - never a removed or replaced one - and finds nothing for an id no contained object carries.',
  ['histories'], 'all edit histories of every container kind, with objects with and without ids, equal-valued and distinct, out-of-range and negative positions',
  'the unit tests run each edit once from one fresh fixture; the order list and the id table are two copies of the truth that can only drift apart over sequences of edits (equal-valued objects, deletion by id then re-adding, replace then remove).',
  [MIX, MOD, MET], [('XigtContainerMixin list methods and id table', MIX), ('igts/tiers/items/metas/children setters', MOD)],
  ['iteration, len, c[i], c[id], c.get(id)'], [('id table', 'maps id to contained object', MIX), ('list content', 'document order', MIX)])
p('C02', 'Containers: a rejected edit changes nothing',
  'An edit that is refused (object of the wrong kind, id already used by another contained object, index out of range, unknown id, object not contained, editing a slice, one Metadata where the list of them belongs, an id that does not start with a letter) raises an error and leaves the container observably unchanged: same order, same lookups, same owners, and the refused object keeps the owner it had. '
  'A bulk edit (extend, +=, collection assignment) refused part way keeps exactly the new objects before the refused one. Edits that violate none of these conditions are accepted.',
  ['histories', 'fault_sequences'], 'every refusable edit at every point of every edit history, followed by further edits',
  'tests assert that an exception is raised but not what state it leaves, and never continue editing after a refused edit.',
  [MIX, MET], [('type assertion and id registration in append/insert/extend/__setitem__/__delitem__/remove', MIX)],
  ['exceptions raised; iteration, lookup and owner navigation afterwards'])
p('C03', 'Containers: every contained object knows its owner',
  'After any history of edits, each object contained in the document reports the object it was placed in as its owner (igt.corpus, tier.igt/corpus, item.tier/igt/corpus, and navigation to the parent for metadata, metas and children), whichever operation placed it there. '
  'Attribute inheritance and namespace lookup therefore see the whole chain of owners. An object placed in several containers reports the last one that accepted it.',
  ['histories'], 'all placement operations (constructor, append, insert, extend, +=, item assignment, collection assignment) at all levels, after any preceding edits',
  'tests check owners only for constructor/append; item assignment, collection assignment and moves between containers are untested.',
  [MIX, MOD, MET, XP], [('owner link set on placement', MIX), ('corpus/igt/tier properties', MOD)],
  ['.corpus, .igt, .tier, XigtPath "..", inherited attributes'])
p('C04', 'Equality is structural, symmetric, and != is its exact negation',
  'Two model objects of the same kind compare equal exactly when their id, type, attributes (as key/value maps), namespace, text or name, metadata and ordered contents are all equal, recursively; objects of different kinds, or compared with non-model values, are unequal. '
  'Equality is symmetric and transitive, ignores owners and namespace-prefix tables, never raises, and a != b is always the opposite of a == b.',
  ['inputs'], 'all pairs of model trees, in particular pairs that differ in exactly one field at any depth',
  'tests compare a few hand-written pairs with == only; a field dropped from a comparison or a wrong != shows only on a pair that differs in just that place.',
  [MIX, MOD, MET], [('__eq__ of each model class and mixin', MOD), ('container and attribute mixin __eq__', MIX)], ['==, !='])
p('C05', 'A refreshed IGT index mirrors the document exactly',
  'After an IGT is built or refreshed, looking up an item id anywhere in the IGT (get_item) returns the item of the IGT with that id (the last one in document order if several share it) and nothing for ids no item carries now, and get_any prefers the tier with that id over an item. '
  'This holds after any history of edits to tiers and items followed by a refresh, and items without ids or the lookup of an absent id never return an object.',
  ['histories'], 'all edit histories over the tiers and items of an IGT interleaved with refreshes',
  'tests refresh a freshly built IGT once; stale entries of removed, replaced or renamed items survive only across edit-refresh sequences.',
  [MOD], [('Igt.refresh_indices / get_item / get_any', MOD)], ['get_item, get_any'], [('item index', 'item id to item over all tiers', MOD)])
p('C06', 'Referents and referrers are exact inverses',
  'For every IGT the referents of an object are, per reference attribute, exactly the ids mentioned in that attribute in order of mention, and the referrers of an id are exactly the ids of the tiers (if the id names a tier) or items whose attribute mentions it, once each and in document order; so b refers to a exactly when a is referred to by b. '
  'The precomputed answers (no attribute list given) on a refreshed IGT agree with the computed ones (attribute list given), following edits and refresh; dereferencing an attribute yields the objects its ids name, first or all of them; asking about an unknown id, or an object that has no id or is in no IGT, raises an error.',
  ['inputs', 'histories'], 'all IGTs with arbitrary reference attributes (repeated, dangling, self and cross references, objects without ids) and all edit histories followed by refresh',
  'tests check one small well-formed IGT; repeated mentions, missing ids, stale caches after edits and disagreement between the two computation paths are not sampled.',
  [MOD, REF], [('Igt.referents/referrers caches', MOD), ('ref.referents/referrers/dereference', REF)], ['referents(), referrers(), dereference()'])
p('E01', 'Alignment expressions resolve to the text they denote',
  'Resolving a reference expression against a tier (or IGT) gives the concatenation, in order, of the denoted pieces: a bare id denotes the whole value of that item (empty if it has none) and id[a:b] the characters a to b of that value; "," contributes a space and "+" nothing. '
  'Multiple spans inside one bracket use the same delimiters, surrounding whitespace is ignored, other delimiters contribute nothing, and an id that does not exist raises a structure error instead of producing text.',
  ['inputs'], 'all well-formed expressions (any number of selections and spans, both delimiters, out-of-range and empty spans) over all tiers and texts',
  'tests resolve about a dozen expressions over one ASCII item set.',
  [REF, MOD], [('ref.resolve', REF), ('selection and span regular expressions', REF)], ['ref.resolve, Item.value'])
p('E02', 'Rewriting alignment expressions preserves their meaning',
  'For every well-formed reference expression, expand and compress produce expressions that denote the same sequence of (delimiter, id, span) pieces and resolve to the same text, expanding is idempotent, and compressing an expanded expression is idempotent too. '
  'selections() and spans() with delimiters rejoin to the (expanded) expression without losing a character, without delimiters they are the same list minus delimiters, and ids() lists the ids of the selections in order of mention.',
  ['inputs'], 'all well-formed alignment expressions and whitespace-separated id lists',
  'doctests check five expressions each and never compose the functions.',
  [REF], [('expand/compress/selections/spans/ids', REF)], ['the returned strings and lists'])
p('E03', 'Item values follow text, then content, then segmentation',
  'The value of an item is its own text if it has one (even empty), else what its content expression resolves to in the tier its tier names for content, else the same for segmentation, else nothing; chains of references are followed through any number of tiers. '
  'value(refattrs) and resolve_ref follow only the attributes given, in that order. Changing the text or references of an item in the chain is reflected immediately in every value derived from it, a span of an item is that slice of its value, and a reference whose tier is unspecified, missing or unattached raises an error rather than producing text.',
  ['inputs', 'histories'], 'all chains of tiers and items, all combinations of text/content/segmentation, and all edits between two evaluations',
  'tests evaluate two-tier chains in one configuration.',
  [MOD, REF], [('Item.value / resolve_ref / span', MOD)], ['Item.value, Item.span, deprecated get_content'])
p('E04', 'The older alignment functions agree with the current ones',
  'For every reference expression the deprecated functions keep working like their replacements: get_alignment_expression_ids gives what ids gives, get_alignment_expression_spans lists in order the "," and "+" delimiters, the bare ids and the (id, start, end) spans, and resolve_alignment_expression gives the same text as resolve, except that a selection of an id that does not exist is left out with an XigtWarning. '
  'get_aligned_tier gives the tier of the same IGT that an attribute of a tier names (None if there is none) and raises an XigtAttributeError naming the tier if it lacks the attribute.',
  ['inputs'], 'all well-formed expressions over all tiers and texts',
  'no test calls these functions.',
  [REF], [('functions below "deprecated"', REF)], ['returned lists, texts, tiers, warnings and errors'])
p('G01', 'Ancestors follow the whole chain of referred tiers and terminate',
  'Walking the ancestors of an item or tier yields, step by step, the current tier, the first of the given attributes its tier specifies, the tier that attribute names, and exactly the items there that the current items mention through it, in document order; each step continues from the tier and items just reached. '
  'The walk ends when a tier has none of the attributes or right after a tier is reached for the second time, so it terminates on every reference graph, including cyclic ones.',
  ['inputs'], 'all tier graphs (chains, shared ancestors, self and longer cycles, any ids) and all starting objects and attribute priorities',
  'tests walk one acyclic four-tier IGT; cycle handling and ids longer than one character are not exercised.',
  [QRY], [('query.ancestors with visited set', QRY)], ['yielded tuples'])
p('G02', 'Descendants enumerate every dependent tier breadth-first and terminate',
  'Walking the descendants of an item or tier yields, breadth first, for each visited tier and each followed attribute, every tier that refers to it by that attribute in document order, with exactly the items that refer to the current items; an attribute of a tier is expanded only once. '
  'With follow="first" only the first attribute that has referrers is followed, with "all" every one, and the walk terminates on every reference graph.',
  ['inputs'], 'all tier graphs including cyclic, diamond-shaped and multi-attribute ones, all starting objects, attribute priorities and follow modes',
  'tests walk one acyclic IGT with follow="first" and one with "all".',
  [QRY, MOD], [('query.descendants agenda and visited set', QRY)], ['yielded tuples'])
p('G03', 'Sorting tiers puts referred tiers first and loses nothing',
  'Sorting the tiers of an IGT by reference dependencies terminates on every input, including self, cyclic and dangling references, and keeps exactly the same tiers with lookups and owners intact. '
  'Taking for each tier the first of the given attributes it specifies, the order is depth first: unreferring tiers in original order, each followed by the tiers that refer to it - ordered by priority of the attribute used, then by original position - each with its own dependents. '
  'A reference to a tier that does not exist counts as no reference, tiers on or below a cycle may stand anywhere, and sorting again changes nothing for acyclic references.',
  ['inputs'], 'all tier graphs and all attribute priorities',
  'sort_tiers has no unit test at all.',
  [MOD], [('Igt.sort_tiers', MOD)], ['tier order and lookups afterwards'])
p('X01', 'Loading XigtXML reproduces the file faithfully',
  'Loading a XigtXML document (from string, bytes or file) yields exactly the corpus it describes: every corpus, igt, tier, item, metadata, meta and nested metadata element in order, with id, type, every other attribute, namespaces, the prefix table in scope, and the text of items and metadata, whatever the encoding, entity or attribute order used. '
  'Nothing is dropped, duplicated, merged or reordered, including ids and types of nested metadata elements.',
  ['inputs'], 'all well-formed XigtXML documents produced by an independent writer (all optional parts, non-ASCII and markup characters, namespaced metadata, large documents spanning parse buffers)',
  'the doctest loads three small documents.',
  [XML], [('decode_* functions and iterparse driver', XML)], ['the decoded corpus through the public model'])
p('X02', 'XigtXML output parses back to an equal corpus',
  'Writing any corpus as XigtXML (string or file, with or without indentation) and parsing the result gives back an equal corpus, and an independent XML parser sees the same elements, attributes, namespaces and text; writing does not alter the corpus. '
  'Item text survives exactly (including surrounding whitespace), and dumping what was loaded gives the same document again.',
  ['inputs'], 'all corpora whose strings XML can represent (no empty or carriage-return texts, no whitespace-only metadata texts, namespaces bound to prefixes and only on attributes and nested metadata), all indent settings and encodings',
  'the doctest round-trips one small corpus.',
  [XML], [('_build_* functions, _indent, encode_xigtcorpus, dump', XML)], ['the output text and the re-loaded corpus'])
p('X03', 'XigtJSON output parses back to an equal corpus',
  'Writing any corpus as XigtJSON (string or file) and loading it gives back an equal corpus, including empty texts, corpus type, namespaced attributes and nested metadata, and the same effective namespace prefixes at every level; writing does not alter the corpus. '
  'A corpus carried XML to JSON to XML or JSON to XML to JSON is equal to the original.',
  ['inputs'], 'all corpora whose prefix tables extend those of their owners (and, for the cross-format part, whose strings XML can represent)',
  'the doctest round-trips one small corpus without namespaced attributes.',
  [JSN, XML], [('encode_*/decode_* functions and namespace tables', JSN)], ['the JSON data and the re-loaded corpus'])
p('X05', 'Parts of a corpus can be written and read on their own',
  'Encoding any part of a corpus (igt, tier, item, metadata, meta, nested metadata element) on its own with the encode_ function for it gives one element (XigtXML) or object (XigtJSON) that carries everything the part holds in the corpus, including every prefix in scope there that the given JSON namespace context does not supply, and does not alter the corpus. '
  'The matching decode_ function gives back an equal part from it (for JSON with the same context).',
  ['inputs'], 'all parts of all corpora whose strings XML can represent, all encodings, indent settings and namespace contexts',
  'no test encodes or decodes a part.',
  [XML, JSN], [('encode_* and decode_* functions', XML), ('encode_*, decode_*, namespace context', JSN)], ['the encoded text or object and the decoded part'])
p('X06', 'Loading XigtJSON reproduces the document faithfully',
  'Loading a XigtJSON document (string, bytes or file) written by any writer yields exactly the corpus it describes: every object in order with id, type, text, attributes and namespaces, whether prefixed names, full names or a prefix given as namespace are used, with the prefixes declared on each object added to those in scope above. '
  'Absent, null or empty optional members mean that there is nothing, member order and escapes mean nothing, and names with prefixes that are not declared stay as they are (for nested metadata elements the prefix is the namespace).',
  ['inputs'], 'all XigtJSON documents of an independent writer (all optional members, styles of naming, redeclared prefixes, non-ASCII text, layouts and encodings)',
  'the doctest loads one small document.',
  [JSN], [('decode_* functions and active_namespaces', JSN)], ['the decoded corpus through the public model'])
p('X04', 'Incremental and transient loading deliver each IGT exactly once',
  'For both formats, iterating a corpus opened in incremental or transient mode delivers exactly the IGTs of full loading, equal, in order, each exactly once even if iteration is interrupted and resumed by later iterations, whether iterated directly, selected from, searched with XigtPath or written to a file. '
  'In incremental mode the corpus afterwards holds exactly the delivered IGTs with lookups and owners; in transient mode it holds none but each delivered IGT had the corpus as owner; corpus-level attributes and metadata are available from the start.',
  ['histories', 'inputs'], 'all documents and all interleavings of partial iterations, whole iterations of any kind (loop, select, paths, writing), len and lookups',
  'tests and doctests only use full mode.',
  [MOD, XML, JSN], [('XigtCorpus.__iter__ modes', MOD), ('iter_elements generator', XML)], ['delivered IGTs, corpus content afterwards'], [('generator', 'remaining IGTs', MOD)])
p('A01', 'Attribute lookup honours namespaces and inheritance',
  'Looking up an attribute returns the value of the object itself under the key that results from resolving prefix or namespace (a prefix in the table of the object asked maps to its URI, any other namespace argument is taken as URI), else, if inheritance is requested, the value of the nearest owner that has that same key, else the given default. '
  'An attribute is found on an ancestor under exactly the same key as it would be found there directly, at any depth, and without inheritance owners are never consulted.',
  ['inputs'], 'all chains corpus-igt-tier-item and metadata chains, all prefix tables at any level (inherited or overridden), all key forms',
  'tests inherit one plain attribute one level.',
  [MIX], [('get_attribute and nsmap inheritance', MIX)], ['get_attribute, nsmap'])
p('A02', 'Metadata lookup and selection return exactly the matches',
  'get_meta returns, in document order, exactly the metas of the requested type that satisfy all conditions in the nearest owner level that has any, looking at owners only if inheritance is on, and the default if there are none; metadata of other types is ignored. '
  'select on a container yields exactly the contained objects whose named members all equal the requested values, in order, with a namespace prefix standing for its URI.',
  ['inputs'], 'all corpora with metadata at any levels and all query combinations',
  'tests do not cover get_meta and select at most one keyword.',
  [MET, MIX], [('get_meta', MET), ('select', MIX)], ['returned lists'])
p('P01', 'XigtPath location paths select what their steps denote',
  'Evaluating a location path (child, "//", ".", "..", "*", attribute and wildcard-attribute steps, predicates with existence, "=" and "!=", grouped alternatives, absolute and relative, namespace prefixes) from any object returns exactly the objects and values the steps denote, step by step from the results of the previous step, in document order per context object and alternative by alternative. '
  'An absolute path gives the same result from every object of the corpus, "//" reaches every descendant regardless of depth, and an attribute step gives one value per context object (None if absent; nothing for an absent id, type or name). An empty path has no results, and a path that ends with a separator is refused with XigtPathError.',
  ['inputs'], 'all supported paths composed from these steps over all corpora',
  'tests evaluate about thirty fixed paths over one corpus.',
  [XP], [('tokenizer, step and predicate evaluation', XP)], ['xigtpath.findall'])
p('P02', 'XigtPath functions and find agree with the model',
  'text() and value() give the text and resolved value of each context object, referent() and referrer() give exactly the objects the reference index names, grouped by attribute in sorted order and restricted to the listed attributes, anywhere in a path, including inside predicates. '
  'find returns the first result of findall or nothing if there is none, and iterating lazily gives the same sequence.',
  ['inputs'], 'all paths with function steps over all corpora and reference graphs',
  'tests use each function in one or two paths.',
  [XP, REF], [('_function, _find_referent, _find_referrer, find/findall/iterfind', XP)], ['xigtpath.find/findall/iterfind'])
p('T01', 'Partitioning distributes every IGT to exactly one file',
  'Partitioning corpora by a key writes every IGT of every input file to exactly one output file, unchanged, together with exactly the IGTs whose key is written to the same file name, in input order per file; nothing is lost, duplicated or overwritten, also when different keys map to the same file name or the key is missing (default key). '
  'An existing output directory is refused without touching it, and inputs are never modified.',
  ['inputs'], 'all sets of input corpora with distinct igt ids, all key paths that stay within the igt or the data of its corpus, and all keys usable in file names (missing, containing ":", equal to the default key, non-ASCII)',
  'there are no tests for the scripts.',
  ['xigt/scripts/xigt_partition.py'], [('index and write', 'xigt/scripts/xigt_partition.py')], ['files in the output directory'])
p('T02', 'The sort script orders by key and loses nothing',
  'Sorting igts, tiers or items by one or more XigtPath keys yields a permutation of exactly the same objects ordered by the keys lexicographically (first key first), digit runs compared as numbers, missing values as empty, and ties kept in original order. '
  'Sorting is idempotent, touches no other level, in-place and stdout output describe the same corpus, and it never fails on mixed textual and numeric values.',
  ['inputs'], 'all corpora and all lists of keys at the three levels',
  'there are no tests for the scripts.',
  ['xigt/scripts/xigt_sort.py'], [('make_sortkey, run', 'xigt/scripts/xigt_sort.py')], ['printed or rewritten corpus'])
p('T03', 'Validation reports exactly the violations present',
  'Validating files succeeds exactly when no rule at or above the reporting level is violated in any of them: ids present and unique within their scope, tier types present, reference attributes of items also on their tier, tier references naming a tier of the IGT, alignment ids existing in the referred tier, spans lying inside the text of the referred item, and spans of one expression not overlapping. '
  'Each violation is reported at the object concerned and nothing is reported elsewhere; files are judged independently except for the uniqueness of corpus ids, and validation never fails on a document that loads, nor modifies it; a file that cannot be loaded makes validation fail without keeping the others from being judged.',
  ['inputs'], 'all documents that load, with any combination of violations, and all verbosity levels',
  'there are no tests for the scripts.',
  ['xigt/scripts/xigt_validate.py'], [('validate_* and rule functions', 'xigt/scripts/xigt_validate.py')], ['exit status and printed report'])
p('T04', 'The query script counts exactly the matches',
  'For each query on each file, find prints every match in order, count prints the number of matches, unique the number of distinct matches, and tally groups the matches by the tuple of subquery results with counts that sum to the number of matches, most frequent first and ties in first-seen order. '
  'Descriptions given by the user replace the default line with their own text in which {query}, {subquery} and {match} are substituted; files and agenda entries do not influence each other.',
  ['inputs'], 'all corpora, queries, subqueries, descriptions and sequences of actions',
  'there are no tests for the scripts.',
  ['xigt/scripts/xigt_query.py'], [('process_agenda, tally/unique/count, SafeFormatter', 'xigt/scripts/xigt_query.py')], ['printed output'])
p('L01', 'LaTeX export keeps every item once, in its aligned column',
  'In the exported interlinear table of an IGT whose alignments are monotone, every item of every exported tier appears exactly once, on the line of its tier, in tier order, all lines have the same number of columns, and an aligned item stands in the column that holds the items it is aligned to (columns being merged when it spans several). '
  'Unaligned items get a column of their own at their place (unless their neighbours share one column), translations follow the table, and an IGT with fewer than two exportable tiers gives only a comment.',
  ['inputs'], 'all IGTs with words/morphemes/glosses tiers and monotone alignments (one-to-one, one-to-many, many-to-one, missing)',
  'there are no tests for the exporters.',
  ['xigt/exporters/latex.py'], [('group_alignments, align_tier, merge_columns, add_delayed', 'xigt/exporters/latex.py')], ['exported text'])
p('L02', 'LaTeX escaping is faithful character by character',
  'Escaping a text for LaTeX renders each special character by its LaTeX command and leaves every other character alone, so that reading the commands back gives the original text; no character is escaped twice, dropped or merged with a neighbour. '
  'Escaping a concatenation equals concatenating the escaped parts.',
  ['inputs'], 'all strings',
  'there are no tests for the exporters.',
  ['xigt/exporters/latex.py'], [('escape, LATEX_CHARMAP', 'xigt/exporters/latex.py')], ['escape()'])
p('I01', 'ODIN import keeps every block and every line',
  'Importing ODIN text yields one IGT per input block, in order, carrying the block\'s id, document id, line range, tag types and language, and a raw tier that holds every line of the block once, in order, with its own tag and line attributes and its text, where only characters outside the accepted XML range are replaced by the configured replacement character. '
  'Header lines are kept exactly when requested, and no block or line is lost, duplicated or attributed to another block.',
  ['inputs', 'configurations'], 'all sequences of ODIN blocks and lines, all options; the external ODIN reader is replaced by a stand-in',
  'there are no tests for the importers.',
  ['xigt/importers/odin.py'], [('odin_igts, make_igt, make_igt_raw_tier, replace_invalid_xml_chars', 'xigt/importers/odin.py')], ['the imported XML file'])
p('I02', 'Toolbox import keeps every record and aligned token',
  'Importing Toolbox records yields one IGT per non-header record, in order, with one tier per mapped field, whose items carry exactly the tokens of the field in order, with ids unique in the IGT and each item referring to the token it is aligned with. '
  'A segmentation that gives a span selects a substring range of the referred item that starts where the previous matched segment of the same token ended; attribute fields go to the IGT, the phrase joins the words, and no token is lost, duplicated or moved to another record. A record whose tokens the reader cannot align is reported and left out without affecting the others.',
  ['inputs', 'configurations'], 'all sequences of Toolbox records, all names of markers and tiers; the external Toolbox reader is replaced by a stand-in',
  'there are no tests for the importers.',
  ['xigt/importers/toolbox.py'], [('toolbox_igts, make_all_tiers, make_tier, align_word', 'xigt/importers/toolbox.py')], ['the imported XML file'])
p('I03', '[incr tsdb()] export emits one row per IGT with the configured cells',
  'Exporting a corpus produces exactly one row per IGT in order, with the item identifier start + position * skip, and for every configured cell exactly that cell\'s own mapping evaluated on that IGT. '
  'The cells do not influence each other whatever their number or order.',
  ['inputs'], 'all corpora and all configurations of ids and cells',
  'there are no tests for the exporters.',
  ['xigt/exporters/itsdb.py'], [('prepare_config, export_corpus, export_igt', 'xigt/exporters/itsdb.py')], ['rows handed to the profile writer'])

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x, ensure_ascii=False) + '\n')
print(len(P), 'properties')
