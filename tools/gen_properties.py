#!/usr/bin/env python3
"""Regenerates properties.jsonl (one object per line, schema /root/.vp/PROPERTIES.schema.json)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=hook)))

CP = "crates/context-processing/src/"
EX = "crates/expansion/src/"
CO = "crates/compaction/src/"
CORE = "crates/core/src/"
W = ("The stable test suite only asserts that a handful of entry points run (most expand/compact/flatten results are never "
     "compared, the W3C suites are not in the tree); ")

p("C01", "Context processing computes the JSON-LD 1.1 active context",
  "Processing any local context against any active context either fails with an error JSON-LD 1.1 prescribes for it, or yields exactly the active context the standard defines: base IRI, vocabulary, default language and direction, and for every term its IRI mapping, prefix, reverse and protected flags, type mapping, containers, index, language, direction, nest and scoped context. Terms the context does not mention are left unchanged.",
  ["inputs", "histories"], "over all local contexts (objects, arrays, null, IRIs, inline imports), all active contexts reachable by processing earlier contexts, both processing modes",
  W + "no test looks at an active context, and term definitions interact (dependency order, prefixes, keywords, vocabulary) in combinations a sample cannot cover.",
  [CP+"algorithm/mod.rs", CP+"algorithm/define.rs", CP+"algorithm/iri.rs", "crates/syntax/src/context/try_from_json.rs", CORE+"context/definition.rs", CORE+"container.rs"],
  [("process_context", CP+"algorithm/mod.rs"), ("define", CP+"algorithm/define.rs"), ("expand_iri_with", CP+"algorithm/iri.rs")],
  ["Process::process_full result", "Context::definitions(), base_iri(), vocabulary(), default_language(), default_base_direction()"],
  [("active context", "term definitions plus base/vocab/language/direction", CORE+"context/mod.rs"), ("defined", "terms being/already defined", CP+"algorithm/define.rs")])
p("C02", "Protected terms cannot be altered",
  "Once a term is protected in the active context, no sequence of later embedded or remote contexts changes or removes its definition or clears its protection: an attempt fails with a protected term redefinition or invalid context nullification error. Only property-scoped contexts override it; redefinition with an identical definition is accepted and stays protected.",
  ["histories", "inputs"], "over all sequences of contexts applied one after another, embedded, remote, type-scoped and property-scoped, including null contexts and @protected on contexts and on single terms",
  W + "protection is a safety property of context histories; none of the existing tests applies two contexts in a row.",
  [CP+"algorithm/mod.rs", CP+"algorithm/define.rs", CORE+"context/definition.rs"],
  [("override_protected / has_protected_items", CP+"algorithm/mod.rs"), ("modulo_protected_field comparison", CP+"algorithm/define.rs")],
  ["Process::process_full result", "JsonLdProcessor::expand error"],
  [("protected flag", "term may not be changed", CORE+"context/definition.rs")])
p("C03", "Scoped contexts apply exactly where JSON-LD scopes them",
  "While expanding, property-scoped, type-scoped and embedded contexts are in force exactly on the nodes and values JSON-LD 1.1 gives them: a type-scoped or non-propagating context is rolled back on entering a nested node, a property-scoped one holds below the property, types are applied in lexicographic order, and rollback restores precisely the previous context.",
  ["inputs", "histories"], "over all documents nesting nodes, type- and property-scoped contexts, @propagate, and null contexts to any depth",
  W + "context scoping is a stack discipline over document depth; no test has more than one scoped context.",
  [EX+"element.rs", EX+"node.rs", EX+"array.rs", CP+"algorithm/mod.rs", CORE+"context/mod.rs"],
  [("previous_context handling", EX+"element.rs"), ("type-scoped contexts", EX+"element.rs"), ("previous context", CORE+"context/mod.rs")],
  ["JsonLdProcessor::expand output"],
  [("previous context", "context restored when entering a node", CORE+"context/mod.rs")])
p("C04", "Remote contexts are resolved, loaded and bounded as specified",
  "A context reference is resolved against the document or context it appears in, exactly the resulting IRIs are requested from the loader in order, recursive inclusion always terminates, @base in a remote context has no effect, @import merges exactly one plain context with the importing entries winning, and every loading or shape failure is reported as an error and never silently ignored.",
  ["inputs", "histories", "fault_sequences"], "over all graphs of remote context documents (chains, diamonds, cycles, imports, scoped references, relative IRIs) and all loader outcomes (ok, missing, no @context, wrong shape)",
  W + "no test loads a remote context at all besides one embedded constant.",
  [CP+"algorithm/mod.rs", CP+"algorithm/merged.rs", CP+"stack.rs", CORE+"loader/mod.rs", "src/processor/remote_document.rs"],
  [("ProcessingStack", CP+"stack.rs"), ("Merged", CP+"algorithm/merged.rs"), ("into_ld_context", CORE+"loader/mod.rs")],
  ["sequence of Loader::load calls", "Process::process_full / JsonLdProcessor::expand result"],
  [("remote contexts", "stack of contexts being processed", CP+"stack.rs")])
p("E01", "Expansion produces the JSON-LD 1.1 expanded document",
  "For every document the expansion algorithm accepts, the result is the expanded document defined by JSON-LD 1.1: same nodes, ids, types, properties, reverse properties, graphs, included and nested blocks, values, lists and sets, with every term, compact and relative IRI replaced by its expansion and only what the standard drops being dropped.",
  ["inputs"], "over all JSON documents and contexts, base IRIs, processing modes and expansion options",
  W + "expanded output is compared for one document only; the keyword/value/container interactions are combinatorial.",
  [EX+"element.rs", EX+"node.rs", EX+"array.rs", EX+"value.rs", EX+"literal.rs", EX+"document.rs"],
  [("expand_element", EX+"element.rs"), ("expand_node", EX+"node.rs"), ("expand_value", EX+"value.rs"), ("expand_literal", EX+"literal.rs")],
  ["JsonLdProcessor::expand output"])
p("E02", "Container maps expand to the values they index",
  "Values under a term with an index, language, id, type, graph or combined container expand to exactly the items of the map with the key carried as JSON-LD 1.1 says (@index, index property, @language, @id, @type, graph object), @none keys add nothing, and no item is lost, duplicated or given another item's key.",
  ["inputs"], "over all container mappings, type/language/direction coercions and map value shapes (scalars, arrays, nodes, values, graphs, nulls)",
  W + "the product of container kinds with value shapes is never enumerated.",
  [EX+"node.rs", EX+"element.rs"],
  [("expand_node_entries container cases", EX+"node.rs")],
  ["JsonLdProcessor::expand output"])
p("E03", "Invalid input is rejected with the right error, valid input never",
  "Expansion fails exactly on the documents and contexts JSON-LD 1.1 declares invalid, and the error code it reports is one the standard prescribes for that document; it never succeeds with a silently repaired meaning and never fails, panics or hangs on valid input.",
  ["inputs"], "over all JSON documents, including every misplaced or ill-typed keyword, alias clash, colliding keyword and malformed term definition",
  W + "no test asserts an error code.",
  [EX+"error.rs", EX+"element.rs", EX+"node.rs", EX+"value.rs", CP+"lib.rs", "crates/syntax/src/context/try_from_json.rs", "crates/syntax/src/error.rs"],
  [("Error::code", EX+"error.rs"), ("Error::code", CP+"lib.rs"), ("InvalidContext::code", "crates/syntax/src/context/try_from_json.rs")],
  ["JsonLdProcessor::expand error code"])
p("E04", "Expansion is idempotent and its output well-formed",
  "The output of expansion is always in expanded document form (only absolute or dropped property IRIs, arrays of node or value objects, no context, no free-floating values), and expanding it again without a context or base IRI returns an equal document. (What a graph container wraps directly is let through by the standard even when it is a plain value or an empty node; those say nothing and are ignored. In json-ld-1.0 mode the direction a term gives to its values is lost, as that mode does not read @direction entries.)",
  ["inputs"], "over all documents accepted by expansion",
  W + "no test expands an output again.",
  [EX+"node.rs", EX+"value.rs", CORE+"document/expanded.rs", CORE+"object/mod.rs"],
  [("expand_element", EX+"element.rs"), ("expanded document invariants", CORE+"document/expanded.rs")],
  ["JsonLdProcessor::expand output fed back"])
p("E05", "Entry order and ordering option never change the meaning",
  "Permuting the entries of any JSON object in a document, or the entries of a context whose definitions do not rely on which scoped context is checked first, or toggling the ordered option, never changes whether expansion succeeds nor the expanded document, up to array order where JSON-LD arrays are unordered; list order is always preserved.",
  ["inputs"], "over all documents and all permutations of their object entries",
  W + "every test feeds one fixed order.",
  [EX+"node.rs", EX+"element.rs", CP+"algorithm/mod.rs", CP+"algorithm/define.rs"],
  [("dependency-driven term definition", CP+"algorithm/define.rs"), ("options.ordered sort", EX+"node.rs")],
  ["JsonLdProcessor::expand output on permuted inputs"])
p("K01", "Compaction produces the JSON-LD 1.1 compacted document",
  "Compacting an expanded document with a context yields the document JSON-LD 1.1 defines: terms chosen by the inverse context and by container, type, language and direction, shortest compact or relative IRIs, containers, nesting, reverse properties, aliases and array compaction applied, and the given context attached.",
  ["inputs"], "over all expanded documents, contexts and compaction options (compactArrays, compactToRelative, processing mode)",
  W + "compaction output is never compared with an expected document.",
  [CO+"lib.rs", CO+"iri.rs", CO+"node.rs", CO+"property.rs", CO+"value.rs", CO+"document.rs", CORE+"context/inverse.rs"],
  [("compact_iri", CO+"iri.rs"), ("compact_property", CO+"property.rs"), ("InverseContext", CORE+"context/inverse.rs")],
  ["JsonLdProcessor::compact output"])
p("K02", "Compaction loses nothing: expand after compact gives back the input",
  "Expanding a compacted document yields the expanded document that was compacted (up to unordered arrays), for every context and every compaction option; in particular no value, type, id, language, direction, index, list order, graph or reverse link is lost or changed, except where the algorithms of the standard themselves lose it (such as JSON arrays under a @set container).",
  ["inputs"], "over all expanded documents and contexts whose compaction succeeds",
  W + "no test expands a compacted result.",
  [CO+"lib.rs", CO+"iri.rs", CO+"node.rs", CO+"property.rs", CO+"value.rs"],
  [("term selection", CO+"iri.rs"), ("compact_value", CO+"value.rs")],
  ["JsonLdProcessor::compact output re-expanded"])
p("F01", "Flattening yields one merged node object per identifier and graph",
  "Flattening produces exactly the node map of JSON-LD 1.1: every graph lists each of its subjects once with all types and property values of all its occurrences merged and none invented, nested nodes replaced by references, named graphs attached to the node naming them, lists kept in order, and an index conflict reported as an error.",
  ["inputs"], "over all documents, with repeated ids, nested and reverse nodes, lists, named graphs and included blocks",
  W + "the flatten suite is not in the tree and nothing compares a flattened document.",
  [CORE+"flattening/mod.rs", CORE+"flattening/node_map.rs", CORE+"flattening/environment.rs"],
  [("extend_node_map", CORE+"flattening/node_map.rs"), ("flatten", CORE+"flattening/mod.rs")],
  ["JsonLdProcessor::flatten output"],
  [("node map", "graph name -> id -> node", CORE+"flattening/node_map.rs")])
p("F02", "Flattening and node identifier generation preserve the RDF dataset",
  "The RDF dataset of a flattened document is isomorphic to the dataset of the original document, blank node identifiers being renamed consistently and injectively: equal labels stay equal, distinct labels and anonymous nodes stay distinct, and a generated label never captures an existing one.",
  ["inputs"], "over all documents, with any mix of explicit blank node labels (also ones that look generated), anonymous nodes, and blank node properties, types and graph names",
  W + "no test compares datasets, and label capture needs specific labels.",
  [CORE+"flattening/node_map.rs", CORE+"flattening/environment.rs", CORE+"object/mod.rs", CORE+"object/node/mod.rs"],
  [("Environment blank id substitution", CORE+"flattening/environment.rs"), ("identify_all", CORE+"object/node/mod.rs")],
  ["JsonLdProcessor::to_rdf on original and flattened document"])
p("R01", "RDF conversion emits exactly the dataset JSON-LD 1.1 defines",
  "Converting any document to RDF emits exactly the quads of JSON-LD 1.1 up to blank node isomorphism: one per type and property value in the right graph with the right direction for reverse properties, relative or invalid IRIs and blank node predicates skipped (unless generalized RDF is asked for), and nothing else. (Conflicting indexes of a node are a matter of flattening and do not concern the conversion.)",
  ["inputs", "configurations"], "over all documents, rdf directions and generalized RDF settings",
  W + "one hand-written document is converted and only a stack overflow is looked for.",
  [CORE+"quad.rs", CORE+"rdf/mod.rs", CORE+"rdf/quad.rs"],
  [("Quads", CORE+"quad.rs"), ("RdfQuads", CORE+"rdf/quad.rs")],
  ["JsonLdProcessor::to_rdf quads"])
p("R02", "RDF lists are complete, ordered, nil-terminated chains",
  "Every list becomes, in the graph it occurs in, a chain of fresh blank nodes, one per item, each with exactly one rest and one first (none when the item has no RDF value, such as a node with a relative identifier), spelling the list items in order and ending in rdf:nil; an empty list is rdf:nil itself, nested lists give nested chains, and two lists never share a cell.",
  ["inputs"], "over all lists of any length and nesting, as property values, in containers, in named graphs and with items of every kind",
  W + "no test looks at a list chain.",
  [CORE+"rdf/mod.rs", CORE+"rdf/quad.rs"],
  [("ListTriples", CORE+"rdf/mod.rs")],
  ["JsonLdProcessor::to_rdf quads"])
p("R03", "RDF literals keep lexical form, datatype, language and direction",
  "Every value object becomes the literal JSON-LD 1.1 defines: booleans, integers and doubles in canonical form with the right datatype, typed and language-tagged strings unchanged, JSON literals in canonical form, and base direction encoded according to the rdf direction option (dropped, i18n datatype, or compound literal).",
  ["inputs", "configurations"], "over all value objects and rdf direction settings",
  W + "no test inspects a literal produced from JSON-LD.",
  [CORE+"rdf/mod.rs", CORE+"object/value.rs"],
  [("Value::rdf_value_with", CORE+"rdf/mod.rs")],
  ["JsonLdProcessor::to_rdf quads"])
p("S01", "Expanded documents survive serialization to JSON and back",
  "Writing any expanded document as JSON and reading it back as an expanded document yields an equal document, and reading any JSON either yields an expanded document that writes back to the same JSON or a reported error.",
  ["inputs"], "over all expanded documents",
  W + "reading expanded JSON directly is exercised by no test.",
  [CORE+"deserialization/object/mod.rs", CORE+"deserialization/object/node.rs", CORE+"deserialization/object/value.rs", CORE+"deserialization/object/list.rs", CORE+"object/mod.rs", CORE+"object/node/mod.rs", CORE+"object/value.rs"],
  [("TryFromJson/IntoJson", CORE+"object/mod.rs")],
  ["IntoJson output", "TryFromJson for ExpandedDocument"])
p("S02", "RDF datasets serialize to equivalent expanded JSON-LD",
  "Turning an RDF dataset into an expanded document gives a document whose RDF dataset is isomorphic to the one given: each subject, type, property, literal (with datatype and language) and named graph appears, and well-formed list chains become lists without losing or reordering items.",
  ["inputs"], "over all RDF datasets, with lists (well-formed, shared, cyclic, malformed), named graphs, and typed literals",
  W + "only a few derive-macro examples are run.",
  [CORE+"serialization.rs", "crates/serialization/src/lib.rs", "crates/serialization/src/expanded/mod.rs"],
  [("serialize", CORE+"serialization.rs"), ("SerializeExpandedDocument", "crates/serialization/src/expanded/mod.rs")],
  ["ExpandedDocument returned", "its to_rdf dataset"])
p("L01", "The file system loader serves exactly the mounted files",
  "The file system loader maps an IRI to a file under the first mount point whose IRI, taken as a directory with or without a final slash, covers it (segment-wise) and returns that file's content with the requested IRI, fails for IRIs no mount covers and for missing or malformed files, and never reads a file outside the mounted directories.",
  ["inputs", "histories", "fault_sequences"], "over all mount tables, requested IRIs (with dot segments, empty and percent-encoded segments, queries) and file contents",
  W + "no test uses the file system loader.",
  [CORE+"loader/fs.rs"],
  [("FsLoader::filepath", CORE+"loader/fs.rs"), ("FsLoader::load", CORE+"loader/fs.rs")],
  ["FsLoader::load result", "FsLoader::filepath"])
p("L02", "Loader combinators compose and fail over faithfully",
  "A chain of loaders tries its members in order, returns the first success unchanged and otherwise an error accounting for every failure; a map loader returns exactly the stored document; the null loader always fails; each member is asked at most once per request and never after a success.",
  ["histories", "fault_sequences"], "over all loader trees and sequences of requests with arbitrary per-member outcomes",
  W + "no test chains loaders.",
  [CORE+"loader/chain.rs", CORE+"loader/map.rs", CORE+"loader/none.rs", CORE+"loader/mod.rs"],
  [("ChainLoader::load", CORE+"loader/chain.rs")],
  ["Loader::load results and call sequence"])
p("L03", "The HTTP loader follows the JSON-LD remote document protocol",
  "For any server behaviour the HTTP loader ends with the document the JSON-LD remote document rules give (content type decides, alternate and context Link headers are followed or recorded, profile and content type reported) or an error; it never accepts a non-JSON body, an error status, several context links or an endless redirect chain.",
  ["histories", "fault_sequences"], "over all server scripts: statuses, content types with parameters, Link headers, redirects, alternates, truncated or malformed bodies",
  W + "the HTTP loader is only compiled.",
  [CORE+"loader/reqwest/mod.rs", CORE+"loader/reqwest/link.rs", CORE+"loader/reqwest/content_type.rs"],
  [("ReqwestLoader::load", CORE+"loader/reqwest/mod.rs"), ("Link::new", CORE+"loader/reqwest/link.rs"), ("ContentType::new", CORE+"loader/reqwest/content_type.rs")],
  ["requests seen by a loopback server", "Loader::load result"])
p("A01", "Equivalent entry points give equivalent results",
  "Passing a document by value or by reference to be loaded, with or without an explicit vocabulary, with its context embedded, given by the expand context option or by the document's context link, and calling flatten, compact or to_rdf directly or after expanding oneself, give the same result for the same content and base IRI.",
  ["inputs", "configurations"], "over all documents, contexts and combinations of entry points and options",
  W + "each test uses one entry point.",
  ["src/processor/mod.rs", "src/processor/remote_document.rs", "crates/core/src/document/mod.rs", EX+"document.rs"],
  [("JsonLdProcessor", "src/processor/mod.rs")],
  ["results of JsonLdProcessor methods"])
p("A02", "Comparison and normal forms agree with document equality",
  "Two JSON-LD documents compare equal exactly when they are equal up to object entry order and the order of arrays that JSON-LD leaves unordered, lists and JSON literals excepted: comparison is reflexive and symmetric, and canonicalizing an expanded document changes numbers and JSON literals only to their canonical form.",
  ["inputs"], "over all pairs of JSON documents, in particular permutations and near misses",
  W + "comparison is used by tests as an oracle but is itself never tested.",
  ["crates/syntax/src/compare.rs", "src/processor/mod.rs", CORE+"object/mod.rs"],
  [("Compare::compare", "crates/syntax/src/compare.rs")],
  ["Compare::compare result", "JsonLdProcessor::compare"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
import re
for x in P:
    assert len(x["title"]) <= 80, x["title"]
    for fn in x["anchors"]["files"]:
        assert os.path.exists("/repo/" + fn), fn
print(len(P), "properties")
