P = "crates/context-processing/src/algorithm/mod.rs"
D = "crates/context-processing/src/algorithm/define.rs"
EL = "crates/expansion/src/element.rs"
N = "crates/expansion/src/node.rs"
V = "http://v/"
e = lambda doc, **k: dict(op="expand", doc=doc, **k)
r = lambda doc, **k: dict(op="rdf", doc=doc, **k)
KI = "crates/compaction/src/iri.rs"
KP = "crates/compaction/src/property.rs"
RDF = "http://www.w3.org/1999/02/22-rdf-syntax-ns#"
k = lambda doc, ctx, **o: dict(op="compact", doc=doc, ctx=ctx, **o)
s = lambda *quads: dict(op="fromrdf", quads=[list(q) + [None] * (4 - len(q)) for q in quads])
f = lambda doc, **k: dict(op="flatten", doc=doc, ordered=True, **k)

SEEDS = {
"remote-override": dict(property="C02", edits=[(P, "override_protected: false,\n", "override_protected: options.override_protected,\n")],
  needs="a property-scoped context that refers to a remote context which redefines a protected term",
  breaks="a remote context loaded from a property-scoped context overrides protected terms",
  cases=[e({"@context": {"@version": 1.1, "t": {"@id": V + "t", "@protected": True}, "p": {"@id": V + "p", "@context": "http://r/c"}}, "p": {"t": "x"}},
           remote={"http://r/c": {"@context": {"t": V + "other"}}})]),
"protection-lost": dict(property="C02", edits=[(D, """								// Set `definition` to `previous definition` to retain the value of
								// protected.
								definition.protected = true;
							}
						}
					}

					// Set the term definition of `term` in `active_context` to `definition` and
					// set""", """								// The definition is the same.
							}
						}
					}

					// Set the term definition of `term` in `active_context` to `definition` and
					// set""")],
  needs="three contexts: one protecting a term, one repeating its definition without protection, one changing it",
  breaks="repeating the definition of a protected term removes its protection",
  cases=[e({"@context": [{"t": {"@id": V + "t", "@protected": True}}, {"t": V + "t"}, {"t": V + "u"}], "t": "x"})]),
"prefix-expanded": dict(property="C01", edits=[(D, "&& !key.as_str().contains('/') && simple_term\n", "&& !key.as_str().contains('/')\n")],
  needs="an expanded term definition whose IRI ends with a gen-delim, used as a prefix",
  breaks="terms with an expanded definition may be used as prefixes without @prefix",
  cases=[e({"@context": {"ex": {"@id": V}}, "ex:a": "x"})]),
"container-type-default": dict(property="C01", edits=[(D, """								definition.typ = Some(Type::Id)
""", """								if simple_term || value.type_.is_none() && value.container.is_some() && value.context.is_none() {
									definition.typ = Some(Type::Id)
								}
""")],
  needs="a type-map term with a scoped context and no type mapping whose values are strings",
  breaks="the default type mapping @id of type maps is missing on terms with a scoped context",
  cases=[e({"@context": {"@vocab": V, "p": {"@id": V + "p", "@container": "@type", "@context": {"q": V + "q"}}}, "p": {"T": "http://x/a"}})]),
"types-rollback": dict(property="C03", edits=[(P, "	if !options.propagate && result.previous_context().is_none() {", "	if !options.propagate {")],
  needs="a node with two types having scoped contexts and a nested node",
  breaks="leaving a node with several type-scoped contexts only rolls the last one back",
  cases=[e({"@context": {"@vocab": V, "A": {"@context": {"p": "http://a/p"}}, "B": {"@context": {"q": "http://b/q"}}}, "@type": ["A", "B"], "p": 1, "n": {"p": 1, "q": 2}})]),
"type-term-context": dict(property="C03", edits=[(EL, "if let Some(term_definition) = type_scoped_context.get(term) {\n						if let Some(local_context) = term_definition.context() {", "if let Some(term_definition) = active_context.clone().get(term) {\n						if let Some(local_context) = term_definition.context() {")],
  needs="a type whose scoped context redefines the scoped context of a type sorted after it",
  breaks="scoped contexts of types are looked up in the context of the previous type",
  cases=[e({"@context": {"@vocab": V, "A": {"@context": {"B": {"@id": V + "B", "@context": {"q": "http://evil/q"}}}}, "B": {"@context": {"q": "http://b/q"}}}, "@type": ["B", "A"], "q": 2})]),
"import-protected": dict(property="C04", edits=[("crates/context-processing/src/algorithm/merged.rs", """		self.base
			.protected
			.or_else(|| self.imported().and_then(|i| i.protected))
""", """		self.base.protected
""")],
  needs="an imported context with @protected whose terms are redefined afterwards",
  breaks="@protected of an imported context is ignored",
  cases=[e({"@context": [{"@import": "http://r/c"}, {"t": V + "u"}], "t": "x"}, remote={"http://r/c": {"@context": {"@protected": True, "t": V + "t"}}})]),
"included-twice": dict(property="E01", edits=[(N, "if let Some(included) = result.included_entry_mut() {\n							included.extend(expanded_nodes.into_iter());\n						} else {\n							result.set_included(Some(expanded_nodes.into_iter().collect()));\n						}", "result.set_included(Some(expanded_nodes.into_iter().collect()));")],
  needs="a node with two entries expanding to @included",
  breaks="only the last included block is kept",
  cases=[e({"@context": {"@vocab": V, "inc": "@included"}, "@id": "http://x/n", "@included": {"@id": "http://x/a", "p": 1}, "inc": {"@id": "http://x/b", "p": 2}})]),
"index-kept": dict(property="E02", edits=[(N, "										} else if container_mapping.contains(ContainerKind::Index)\n											&& item.index().is_none()\n", "										} else if container_mapping.contains(ContainerKind::Index)\n")],
  needs="an item of an index map with an @index of its own",
  breaks="the map key replaces the index an item has",
  cases=[e({"@context": {"p": {"@id": V + "p", "@container": "@index"}}, "p": {"k": {"@value": "x", "@index": "own"}}})]),
"map-type-order": dict(property="E02", edits=[(N, """									if let Some(previous_context) =
										active_context.previous_context()
									{
										map_context = Mown::Borrowed(previous_context)
									}
""", """									if let Some(previous_context) = active_context
										.previous_context()
										.filter(|_| container_mapping.contains(ContainerKind::Id))
									{
										map_context = Mown::Borrowed(previous_context)
									}
""")],
  needs="a type map used inside a node with a type-scoped context that defines a term used in the items",
  breaks="items of a type map are expanded with the type-scoped context of the node holding the map",
  cases=[e({"@context": {"@vocab": V, "A": {"@context": {"q": "http://a/q"}}, "p": {"@id": V + "p", "@container": "@type"}}, "@type": "A", "p": {"T": {"q": 1}}})]),
"alias-order": dict(property="E05", edits=[(EL, "			type_entries.sort_unstable_by_key(|entry| &entry.key);\n", "			type_entries.sort_unstable_by_key(|entry| entry.key.len());\n")],
  needs="two aliases of @type whose scoped contexts conflict, written in the other order",
  breaks="the order of the entries decides which type-scoped context is applied last",
  cases=[e({"@context": {"@vocab": V, "ta": "@type", "tb": "@type", "A": {"@context": {"q": "http://a/q"}}, "B": {"@context": {"q": "http://b/q"}}}, "tb": "B", "ta": "A", "q": 2}),
         e({"@context": {"@vocab": V, "ta": "@type", "tb": "@type", "A": {"@context": {"q": "http://a/q"}}, "B": {"@context": {"q": "http://b/q"}}}, "ta": "A", "tb": "B", "q": 2})]),
"included-graph": dict(property="R01", edits=[("crates/core/src/quad.rs", ".push(QuadsFrame::IndexedNodeSet(graph, included.iter()))", ".push(QuadsFrame::IndexedNodeSet(\n						node.graph_entry().map(|_| id).or(graph),\n						included.iter(),\n					))")],
  needs="a node with both @graph and @included",
  breaks="nodes included by a named graph end up inside that graph",
  cases=[r({"@id": "http://x/g", "@graph": [{"@id": "http://x/a", V + "p": 1}], "@included": [{"@id": "http://x/b", V + "p": 2}]})]),
"empty-sublist": dict(property="R02", edits=[("crates/core/src/rdf/mod.rs", "							self.stack.pop();\n							if let Some(previous_id) = previous {", "							self.stack.pop();\n							if let Some(previous_id) = previous.filter(|_| self.stack.len() != 1) {")],
  needs="a list directly inside a list",
  breaks="nested lists are not terminated",
  cases=[r({V + "p": {"@list": [{"@list": ["x"]}, "y"]}, "@id": "http://x/a"})]),
"canonical-reverse": dict(property="R03", edits=[("crates/core/src/object/node/mod.rs", """			for (_, nodes) in reverse_properties.iter_mut() {
				for node in nodes {
					node.canonicalize_with(buffer)
				}
			}
""", """			for (_, nodes) in reverse_properties.iter_mut() {
				for node in nodes.iter_mut().filter(|node| node.id.is_none()) {
					node.canonicalize_with(buffer)
				}
			}
""")],
  needs="a JSON literal with unsorted keys inside a node given under @reverse",
  breaks="JSON literals of reverse nodes are not written in canonical form",
  cases=[r({"@id": "http://x/a", "@reverse": {V + "p": {"@id": "http://x/b", V + "q": {"@type": "@json", "@value": {"b": 1, "a": 2}}}}})]),
"compound-in-list": dict(property="R03", edits=[("crates/core/src/rdf/mod.rs", """										CompoundValueTriples::Literal(lit) => {
											self.stack.push(ListItemTriples::CompoundLiteral(lit))
										}
""", """										CompoundValueTriples::Literal(mut lit) => {
											lit.direction = lit.direction.filter(|_| previous.is_none());
											self.stack.push(ListItemTriples::CompoundLiteral(lit))
										}
""")],
  needs="a list whose second item is a string with a direction, converted with compound literals",
  breaks="the direction of compound literals is lost after the first item of a list",
  cases=[r({"@id": "http://x/a", V + "p": {"@list": ["x", {"@value": "y", "@direction": "rtl"}]}}, rdfDirection="compound-literal")]),
"reverse-label": dict(property="F02", edits=[("crates/core/src/flattening/node_map.rs", "Indexed::none(Object::node(Node::with_id(id.clone()))),\n				)", "Indexed::none(Object::node(Node::with_id(\n						node.id.clone().unwrap_or_else(|| id.clone()),\n					))),\n				)")],
  needs="a node with a blank label that is the object of a reverse property",
  breaks="the object of a reverse property keeps its old label",
  cases=[f({"@id": "_:x", V + "q": 1, "@reverse": {V + "p": {"@id": "http://x/b"}}})]),
"long-cycle": dict(property="C04", edits=[("crates/context-processing/src/stack.rs", "Some(prev) => prev.contains(url),", "Some(prev) => prev.url == *url,")],
  needs="a cycle of at least three remote contexts",
  breaks="longer cycles of remote contexts are not detected: processing never ends",
  cases=[e({"@context": "http://r/a", "t": "x"}, remote={"http://r/a": {"@context": ["http://r/b", {"t": V + "t"}]}, "http://r/b": {"@context": "http://r/c"}, "http://r/c": {"@context": "http://r/a"}})]),
"second-included": dict(property="E03", edits=[(N, """								Err(_) => {
									return Err(Error::InvalidIncludedValue);
								}
""", """								Err(_) => {
									if result.included_entry().is_none() {
										return Err(Error::InvalidIncludedValue);
									}
								}
""")],
  needs="a node with two entries expanding to @included, the second with an invalid value",
  breaks="invalid values of a second included block are dropped silently",
  cases=[e({"@context": {"@vocab": V, "inc": "@included"}, "@id": "http://x/n", "@included": {"@id": "http://x/a", "p": 1}, "inc": {"@value": "b"}})]),
"list-language": dict(property="K01", edits=[(KI, "								} else if is_value && common_lang_dir != item_lang_dir {\n", "								} else if common_lang_dir != item_lang_dir {\n")],
  needs="a list of strings in one language and of references, with a term for lists in that language",
  breaks="the references of a list count as values without language when its term is chosen",
  cases=[k({V + "p": {"@list": [{"@value": "a", "@language": "en"}, {"@id": "http://x/a"}]}}, {"en": {"@id": V + "p", "@container": "@list", "@language": "en"}, "no": {"@id": V + "p", "@container": "@list", "@language": None}})]),
"graph-id-lost": dict(property="K02", edits=[(KP, """		&& container.contains(ContainerKind::Index)
		&& node.is_simple_graph()
	{
""", """		&& container.contains(ContainerKind::Index)
	{
""")],
  needs="a named graph that has an identifier, under a term for maps of graphs by index",
  breaks="the identifiers of graphs are lost in maps of graphs by index",
  cases=[k({V + "p": {"@id": "http://x/g", "@graph": [{"@id": "http://x/a", V + "q": 1}]}}, {"g": {"@id": V + "p", "@container": ["@graph", "@index"]}})]),
"direction-gained": dict(property="K02", edits=[("crates/compaction/src/value.rs", "						if ty.is_some() || (language.is_none() && direction.is_none()) {\n", "						if ty.is_some() || language.is_none() {\n")],
  needs="a string without direction compacted with a context that gives a default direction and no language",
  breaks="plain strings get the default direction of the context when expanded again",
  cases=[k({V + "p": ["x", {"@value": "y", "@direction": "rtl"}]}, {"@direction": "ltr", "@vocab": V})]),
"json-index": dict(property="K01", edits=[("crates/compaction/src/value.rs", "			if type_mapping == Some(Type::Json) && remove_index {\n", "			if type_mapping == Some(Type::Json) {\n")],
  needs="a JSON literal with an index under a term of type @json without index container",
  breaks="the index of JSON literals is lost",
  cases=[k({V + "p": {"@value": [1], "@type": "@json", "@index": "i"}}, {"j": {"@id": V + "p", "@type": "@json"}})]),
"reverse-set": dict(property="K01", edits=[("crates/compaction/src/node.rs", """						let as_array = term_definition.container().contains(ContainerKind::Set)
							|| !options.compact_arrays;
""", """						let as_array = (term_definition.container().contains(ContainerKind::Set)
							&& value.is_array())
							&& !options.compact_arrays;
""")],
  needs="one subject under a reverse term whose container is @set",
  breaks="the single subject of a reverse term is not in an array although its term or the options ask for it",
  cases=[k({"@id": "http://x/a", "@reverse": {V + "p": {"@id": "http://x/b", V + "q": 1}}}, {"r": {"@reverse": V + "p", "@container": "@set"}})]),
"type-order-compact": dict(property="K01", edits=[("crates/compaction/src/node.rs", "		compacted_types.sort_by(|a, b| a.as_ref().unwrap().cmp(b.as_ref().unwrap()));\n", "		compacted_types.sort_by_key(|ty| ty.as_ref().unwrap().len());\n")],
  needs="a node with two types whose terms have scoped contexts that disagree, the shorter name last",
  breaks="type-scoped contexts are applied in another order when compacting",
  cases=[k({"@type": [V + "BB", V + "AAA"], V + "p": 1}, {"AAA": {"@id": V + "AAA", "@context": {"x": V + "p", "p": None}}, "BB": {"@id": V + "BB", "@context": {"y": V + "p", "x": None}}})]),
"included-moved": dict(property="F01", edits=[("crates/core/src/flattening/node_map.rs", "			extend_node_map_from_node(env, node_map, inode.inner(), inode.index(), active_graph)?;\n", "			extend_node_map_from_node(\n				env,\n				node_map,\n				inode.inner(),\n				inode.index(),\n				active_graph.filter(|_| node.graph_entry().is_some()),\n			)?;\n")],
  needs="a node of a named graph that includes other nodes",
  breaks="nodes included inside a named graph move to the default graph",
  cases=[f({"@id": "http://x/g", "@graph": [{"@id": "http://x/a", V + "p": 1, "@included": [{"@id": "http://x/h", "@graph": [{"@id": "http://x/c", V + "p": 3}]}, {"@id": "http://x/b", V + "p": 2}]}]})]),
"index-only": dict(property="F01", edits=[("crates/core/src/flattening/mod.rs", "	if node.index().is_none() && node.is_empty() {\n", "	if node.is_empty() {\n")],
  needs="a node with an index and nothing else",
  breaks="nodes that only have an index are dropped",
  cases=[f([{"@id": "http://x/a", "@index": "i", "@graph": []}, {"@id": "http://x/c", V + "p": {"@id": "http://x/d", "@index": "k"}}])]),
"typed-cell": dict(property="S02", edits=[("crates/core/src/serialization.rs", "		self.types.iter().all(|ty| ty.is_list())\n", "		(self.types.iter().any(|ty| ty.is_list()) || self.types.is_empty())\n")],
  needs="a list cell with rdf:type rdf:List and another type",
  breaks="the other types of list cells are lost",
  cases=[s(["http://x/a", V + "p", "_:l"], ["_:l", RDF + "first", "http://x/b"], ["_:l", RDF + "rest", RDF + "nil"], ["_:l", RDF + "type", RDF + "List"], ["_:l", RDF + "type", V + "T"])]),
}
