{
'containers': (
 'TLA+ spec of containers, TLC; generated transitions replayed in the real containers, recorded edit sessions validated',
 'Model checking of spec/Containers.tla within bounds (two containers, six objects, up to 3-4 in a container) with every '
 'transition replayed in one of seven real container kinds, plus random edit sessions over whole documents validated '
 'against the specification. Trusts TLC and the harness that maps objects to numbers.'),
'equality': (
 'TLA+ definition of structural equality, TLC; generated pairs replayed and random pairs validated against it',
 'All pairs of a document holding every kind of object and every document one change away (spec/MC_Equality.tla), built '
 'and compared in the code, plus random document pairs validated by spec/Trace_Equality.tla. Trusts TLC and the builder.'),
'exprs': (
 'TLA+ grammar and meaning of reference expressions, TLC; code outputs on generated and random expressions judged by the specification',
 'spec/Refs.tla defines parsing, pieces, expansion, compression and resolution; TLC proves the rewriting laws for all small '
 'expressions (spec/MC_Expr.tla) and judges what the code did with them and with random larger ones (spec/Trace_Expr.tla). '
 'Characters beyond ASCII are a fixed sample.'),
'values': (
 'TLA+ specification of item values, TLC; generated edits replayed, random documents with edit histories validated',
 'Every edit of a three-tier chain (to the configured depth) replayed with all values compared, and random documents of up to '
 '40 tiers with edit histories judged by spec/Trace_Resolve.tla. Cyclic value references are outside the domain.'),
'index': (
 'TLA+ specification of IGT lookups and the reference relation, TLC; generated edits replayed, recorded edit sessions validated',
 'Every edit to depth 2 of a two-tier IGT replayed with all lookups, referents and referrers compared, and random edit '
 'sessions with refreshes checked against spec/IgtIndex.tla. Referrer lists are compared without repeats if items share an id.'),
'graph': (
 'TLA+ specification of reference walks and tier order, TLC; all small reference graphs replayed, random documents validated',
 'All reference graphs over 3 tiers with two attributes and over 4 (5) tiers with one, and all item mention patterns over five '
 'graph shapes, replayed; random documents of up to 8 tiers judged by spec/Trace_RefGraph.tla. What ancestors does at a '
 'dangling tier reference is left open.'),
'attrs': (
 'TLA+ specification of attribute inheritance and metadata selection, TLC; generated requests replayed, random documents validated',
 'All attribute placements on a four-level document with namespaces at each level, and all small metadata lists, for every '
 'request (spec/MC_Attributes.tla), replayed in the code; random documents judged by spec/Trace_Attributes.tla. What an '
 'unmapped prefix in the requested name does is left open.'),
'xpath': (
 'TLA+ semantics of the path language, TLC; all small paths replayed from every object, random paths over random corpora validated',
 'spec/XPath.tla gives each path its results; TLC checks its laws and enumerates all paths over a step vocabulary (2 steps or '
 'predicates quick, 3 thorough) from every object of two documents, replayed in the code; random paths over random corpora are '
 'judged by spec/Trace_XPath.tla. Paths whose steps have no meaning for their context (e.g. value() of a tier) are unconstrained.'),
'codec': (
 'TLA+ specification of the XML and JSON encodings, TLC; generated documents replayed, random documents read/written by the code judged by it',
 'spec/Codec.tla relates documents to XML element trees and JSON objects with namespace scoping; all small documents (every '
 'placement of namespaces, ids, texts) and random large ones are read, written, re-read and crossed between formats by the code '
 'and judged by spec/Trace_Codec.tla, with expat / json as independent readers and a writer of our own for input. Trusts these readers.'),
'stream': (
 'TLA+ state machine of streamed corpora, TLC; generated histories replayed, random sessions validated',
 'All histories of two iterators, lookups and whole iterations to depth 5 (6) over up to 3 IGTs replayed in the three modes and '
 'both formats; random sessions over documents of up to 150 IGTs validated by spec/Trace_Stream.tla against full loading.'),
'scripts': (
 'TLA+ specification of the scripts over documents and paths, TLC; generated cases replayed, recorded runs of the scripts validated',
 'spec/Scripts.tla gives the files, orders, findings and printed lines the scripts owe for a document; TLC checks its laws on '
 'all small key sequences, groupings and a document with every combination of defects (spec/MC_Scripts.tla), replayed through '
 'the scripts\' main functions; random runs are judged by spec/Trace_Scripts.tla. Keys without meaning for their object, cyclic '
 'tier dependencies and unreadable or negative spans are unconstrained.'),
'latex': (
 'TLA+ specification of interlinear tables and LaTeX escaping, TLC; all small tables and texts replayed, random exports validated',
 'spec/Latex.tla builds the table of an IGT tier by tier and the text of the exported file; TLC checks that every item stands once, '
 'in order, with what it is aligned to, and that escaped texts read back, for all tables of 2-3 (3) items in three tiers and all texts '
 'of 4 (5) characters, all replayed; whole exported files of random corpora and configurations are judged by spec/Trace_Latex.tla. '
 'Non-monotone alignments and undefined values are unconstrained; substitutions are literal ones.'),
'odins': (
 'TLA+ specification of the imported corpus as a function of blocks and options, TLC; generated blocks imported, random imports validated',
 'TLC checks on all texts of 2 (3) characters at the edges of the accepted ranges, six replacements, and all presences of the parts of '
 'blocks that only unacceptable characters change and nothing is lost or shared (spec/MC_Odin.tla); all are imported through the script or '
 'the function, and random files and directories are judged by spec/Trace_Odin.tla. The ODIN reader is a stand-in; characters beyond '
 'U+FFFD count as unacceptable, carriage returns and unacceptable characters in attributes are left out.'),
'toolboxes': (
 'TLA+ specification of imported records with morpheme spans, TLC; generated records imported, random imports validated',
 'All segmentations of eight words into 3 (4) of seven morphemes and all records of two words with every small number of morphemes '
 'and glosses in nine layouts, checked for span laws and kept tokens (spec/MC_Toolbox.tla) and imported; random files with renamed '
 'markers and tiers, encodings and block layouts are judged by spec/Trace_Toolbox.tla. The Toolbox reader is a stand-in that aligns columns.'),
'profiles': (
 'TLA+ specification of exported rows with cell expressions, TLC; generated configurations exported, random exports validated',
 'All sequences of 2 (3) cells over thirty cells checked for independence (spec/MC_Itsdb.tla) and exported; random corpora, ids and '
 'nested cell expressions through the script or the function, and ways to name the relations file, judged by spec/Trace_Itsdb.tla. '
 'The profile writer is a stand-in that records what it is given.'),
}
