p("P01", "Container combinations are exact sets of kinds",
  "A container mapping denotes a set of container kinds, and only the combinations JSON-LD 1.1 allows exist. Adding a kind, in any order, yields exactly the union when that is an allowed combination and is refused, leaving the container unchanged, otherwise; membership, length and emptiness agree with the set. Writing a container to its syntax form and reading it back gives the same container.",
  ["inputs", "histories"], "all containers, all kinds, all sequences of insertions",
  "The existing tests never combine kinds, and a wrong combination only shows for one order of one set of kinds.",
  ["crates/core/src/container.rs", "crates/syntax/src/container.rs"],
  [("Container::with / add", "crates/core/src/container.rs"), ("Container::as_slice", "crates/core/src/container.rs"), ("Container::from_syntax / into_syntax", "crates/core/src/container.rs")],
  note="All functions of Container under contract except Container::from over an arbitrary iterator and iter() (bounded).")
p("P02", "Language tags compare, order and hash ignoring ASCII case",
  "Two language tags, well-formed or not, are equal exactly when their texts agree up to ASCII letter case. Comparing tags is a total order whose equality is that equality, and equal tags hash alike, for owned and borrowed tags alike, so that maps keyed by tags find an entry whatever the case.",
  ["inputs"], "all pairs and triples of byte strings",
  "The laws relate pairs and triples of arbitrary strings; tests use a few lower-case tags.",
  ["crates/syntax/src/lang.rs", "crates/syntax/src/utils.rs"],
  [("case_insensitive_eq / _cmp / _hash", "crates/syntax/src/utils.rs"), ("PartialEq, Ord, Hash for LenientLangTag(Buf)", "crates/syntax/src/lang.rs")],
  note="Byte-level comparison, ordering and hashing are proved for all inputs; the view of a tag as its bytes (as_bytes, transmute) is assumed.")
p("P04", "Keywords are recognised exactly, wherever a string may be one",
  "A string is a JSON-LD keyword exactly when it is one of the keyword texts, and every place that tells keywords from ordinary strings (context keys, term identifiers, types, nest values, containers, directions, versions, expandable strings) recognises exactly the keywords it accepts and keeps the text of everything else. A string is keyword-like exactly when it is an at sign followed by one or more ASCII letters. Printing a keyword and reading the text back gives the same keyword, and values compare equal exactly when their texts do.",
  ["inputs"], "all strings",
  "Recognition must hold for every string, including near misses of each keyword; tests read a few well-formed contexts.",
  ["crates/syntax/src/keyword.rs", "crates/syntax/src/container.rs", "crates/syntax/src/direction.rs", "crates/syntax/src/context/definition/key.rs", "crates/syntax/src/context/definition/type_.rs", "crates/syntax/src/context/definition/version.rs", "crates/syntax/src/context/term_definition/id.rs", "crates/syntax/src/context/term_definition/type_.rs", "crates/syntax/src/context/term_definition/nest.rs", "crates/syntax/src/expandable.rs"],
  [("Keyword::try_from / into_str", "crates/syntax/src/keyword.rs"), ("is_keyword_like", "crates/syntax/src/keyword.rs"), ("ContainerKind, Direction, Version, TypeKeyword, Id, Type, Nest, Key conversions", "crates/syntax/src")],
  note="All listed conversions are proved for all strings; string equality being equality of characters is assumed.")
p("P03", "Value objects carry exactly the entries they were made from",
  "A value object holds a literal with an optional type, a language string with a language, a direction or both, or a JSON literal, never a mixture: every constructor and setter that would leave a language string without language and direction is refused and changes nothing. The entries, accessors and size of a value object are exactly its @value, @type, @language and @direction; writing it to expanded JSON and reading it back gives an equal value, and reading refuses value objects with missing, conflicting or unexpected entries.",
  ["inputs", "histories"], "all value objects and all JSON objects read as one",
  "The invariant must survive any sequence of setters and hold for every combination of entries; the tests expand a few documents.",
  ["crates/core/src/lang_string.rs", "crates/core/src/object/value.rs"],
  [("LangString / LangStr", "crates/core/src/lang_string.rs"), ("Value::try_from_json_object_in, into_json_with, entries", "crates/core/src/object/value.rs")],
  note="LangString, LangStr, Literal, Value and its entry iterator are proved; JSON objects, vocabularies and language tags are modelled by contracts.")
p("P05", "Equality and hashing ignore the order of what is unordered",
  "Two expanded objects or documents are equal exactly when they differ at most by the order of unordered members: property and reverse-property values and types count as multisets, graphs, included nodes and documents as sets, lists stay ordered. Equal objects hash alike, so sets of objects find their members, and equality under a renaming of blank nodes is equality of the renamed objects. A multiset keeps every member inserted, and insert_unique adds exactly what is not there.",
  ["inputs"], "all pairs of expanded objects, all permutations of their members",
  "The laws relate every pair of permutations, including repeated members, where a greedy match can go wrong; tests compare documents in the order they were written.",
  ["crates/core/src/object/node/multiset.rs", "crates/core/src/object/node/mod.rs", "crates/core/src/object/mapped_eq.rs", "crates/core/src/utils/hash.rs"],
  [("compare_unordered", "crates/core/src/object/node/multiset.rs"), ("Multiset eq / hash", "crates/core/src/object/node/multiset.rs"), ("Node eq / hash", "crates/core/src/object/node/mod.rs"), ("hash_set / hash_map", "crates/core/src/utils/hash.rs"), ("unordered_mapped_eq", "crates/core/src/object/mapped_eq.rs")],
  note="Comparison, hashing and the laws linking them are proved over any component equality that is an equivalence; hashers and index sets are modelled by contracts.")
p("P06", "Context processing always terminates and never re-enters a document",
  "Processing a local context whose remote contexts refer to each other in any way, cyclically or not, ends, with a result or an error. A document that is on the current chain of inclusion is not entered again; every other reference is applied in the order written, each document's relative references being resolved against that document, and the result is the one the JSON-LD 1.1 context processing algorithm gives.",
  ["inputs", "histories"], "all finite sets of context documents and references between them",
  "Cycles and shared documents are a property of the whole graph of documents; the tests load one remote context at a time.",
  ["crates/context-processing/src/stack.rs", "crates/context-processing/src/algorithm/mod.rs"],
  [("ProcessingStack::push / cycle", "crates/context-processing/src/stack.rs"), ("process_context", "crates/context-processing/src/algorithm/mod.rs")],
  note="The stack is proved to refuse exactly what is on the chain and to grow otherwise; process_context around it is compared with an independent reference (bounded).")
p("P07", "Term definitions do not depend on entry order and cycles are errors",
  "Defining the terms of a context gives the same IRI mappings whatever the order of the entries. A term whose definition depends on itself, through any number of other terms and of compact IRIs, is reported as a cyclic IRI mapping, and only such terms are; every term is defined once.",
  ["inputs", "schedules"], "all contexts and all orders of their entries",
  "The order in which dependent terms are met, and the chains that lead back, range over all graphs of terms; tests fix a few.",
  ["crates/context-processing/src/algorithm/define.rs"],
  [("DefinedTerms::begin / end", "crates/context-processing/src/algorithm/define.rs"), ("define", "crates/context-processing/src/algorithm/define.rs")],
  note="The bookkeeping of defined and pending terms is proved; define() around it is compared with an independent reference (bounded).")
p("P08", "A protected definition is never replaced by a different one",
  "Once a context protects a term or @type, no later context, embedded, scoped or remote, changes that definition unless overriding is explicitly allowed (property-scoped contexts) or the new definition is the same but for protection, in which case it stays protected; everything else is a protected term redefinition error, and so is a null context while something is protected.",
  ["histories", "inputs"], "all sequences of contexts processed one after the other",
  "Protection relates two definitions that may differ in any one of a dozen fields; tests change the IRI of one term.",
  ["crates/core/src/context/mod.rs", "crates/core/src/context/definition.rs", "crates/context-processing/src/algorithm/mod.rs", "crates/context-processing/src/algorithm/define.rs"],
  [("modulo_protected_field eq", "crates/core/src/context/definition.rs"), ("Context::has_protected_items", "crates/core/src/context/mod.rs"), ("Definitions::get / set / insert", "crates/core/src/context/definition.rs")],
  note="Equality but for protection, the store of definitions and has_protected_items are proved; where define() uses them is compared with an independent reference (bounded).")
p("P09", "Own entries of a context override those of its @import",
  "A context definition with @import means the imported definition with the importing one's entries laid over it: for every keyword and every term the importing definition's entry is used when it has one, and the imported one's otherwise, and each term appears once. An imported document that imports, or is not one context definition, is an error, and @import is refused in JSON-LD 1.0.",
  ["inputs"], "all pairs of context definitions",
  "The merge must be right for each of the entries and for every overlap of term sets; the tests import a few fixed contexts.",
  ["crates/context-processing/src/algorithm/merged.rs", "crates/syntax/src/context/definition/mod.rs"],
  [("Merged accessors", "crates/context-processing/src/algorithm/merged.rs"), ("MergedBindings::next", "crates/context-processing/src/algorithm/merged.rs")],
  note="Merged and its accessors are proved; loading the imported document is compared with an independent reference (bounded).")
p("P18", "IRI expansion gives the identifier the active context assigns",
  "Expanding a string against an active context gives the keyword, the null mapping, the blank node, the absolute IRI or the plain term that JSON-LD 1.1 IRI expansion gives, for every combination of vocabulary-relative and document-relative expansion: keywords first, keyword-like strings to null, then terms, compact IRIs, the vocabulary mapping, and the base IRI.",
  ["inputs"], "all active contexts and all strings",
  "The order of the rules only shows for strings several rules apply to; tests expand ordinary terms.",
  ["crates/context-processing/src/algorithm/iri.rs", "crates/core/src/id.rs", "crates/core/src/term.rs", "crates/syntax/src/compact_iri.rs"],
  [("expand_iri_simple", "crates/context-processing/src/algorithm/iri.rs"), ("CompactIri::new / prefix / suffix", "crates/syntax/src/compact_iri.rs")],
  note="expand_iri_simple is proved against a functional specification for all inputs; IRI parsing and resolution (iref) are assumed.")
p("P19", "IRI compaction chooses the right term",
  "Compacting an identifier, keyword or property, alone or for a value, gives the text JSON-LD 1.1 IRI compaction gives: among the terms mapped to it, the first, in the order of preference of containers and of types, languages and directions the value calls for, and of several fitting terms the shortest and then the least; failing that, the rest after the vocabulary mapping if no term is named so; then the shortest and least compact IRI made with a prefix term and not defined otherwise; then, for identifiers, the form relative to the base IRI if it resolves back to the identifier (disambiguated from keywords); then the identifier itself. An IRI that would be read back as a compact IRI is refused.",
  ["inputs"], "all active contexts, identifiers and values",
  "Which of several competing terms is chosen depends on containers, types, languages, directions, lengths and alphabetical order at once; the tests have few competing terms.",
  ["crates/core/src/context/inverse.rs", "crates/compaction/src/iri.rs"],
  [("From<&Context> for InverseContext / InverseDefinition::select", "crates/core/src/context/inverse.rs"), ("compact_iri_full", "crates/compaction/src/iri.rs")],
  note="The inverse context and the whole of IRI compaction are proved against a functional specification; the relative form itself, IRI parsing and resolution (iref), hashing and sorting (std) are assumed, and termination of the one recursive call is not proved.")
p("P26", "Documents compact as the algorithm says",
  "Compacting an expanded document with a context gives the document JSON-LD 1.1 compaction gives: values become scalars exactly when the type, language and direction of their term say what the value object would, and value objects (with compacted keys) otherwise; types are compacted with the type-scoped context; each item goes under the term chosen for it, in its nest, alone or in an array as its container and the options require; index, language, id, type and graph maps, lists and graphs take the form their container calls for, adding to and never replacing what other items put there; an index is written unless the container holds it; property- and type-scoped contexts apply where they should. A document that cannot be written in the context (a nest that is not a nest, an IRI that would be read as something else) is refused.",
  ["inputs"], "all expanded documents, contexts and options",
  "Terms, containers, scoped contexts, nests, arrays and the kinds of objects combine freely, and an item is placed according to what earlier items left; the tests compact only a few documents.",
  ["crates/compaction/src/lib.rs", "crates/compaction/src/value.rs", "crates/compaction/src/node.rs", "crates/compaction/src/property.rs"],
  [("add_value / compact_collection_with", "crates/compaction/src/lib.rs"), ("compact_indexed_value_with", "crates/compaction/src/value.rs"), ("compact_types", "crates/compaction/src/node.rs"), ("add_indexed_object / compact_property_list / compact_property_graph / select_nest_result", "crates/compaction/src/property.rs"), ("compact_property", "crates/compaction/src/property.rs"), ("compact_indexed_node_with", "crates/compaction/src/node.rs")],
  note="Value compaction, types, collections, lists, graphs, nest selection, Add Value and index entries are proved against a functional specification; the assembly of property maps (compact_property) and of nodes (compact_indexed_node_with) is compared with a reference implementation on generated documents (bounded). The reference keeps string values under a typed term as value objects and an index unless the container holds it (lossless choices of the implementation).")
p("P12", "Expanded form survives its JSON text",
  "Reading an expanded document from JSON and writing it back gives the same JSON (up to the order of entries and of unordered arrays), and writing then reading gives the same document: no value, type, language, direction, index, identifier, list position, graph, included, reverse or repeated object is lost or invented. Entries may come in any order; JSON that is not in expanded form (a keyword given twice, a @context, a value object with other entries, and the like) is refused rather than read as something else.",
  ["inputs"], "all documents in expanded form and all JSON values",
  "Every kind of object can occur under every other and with any mix of entries; the tests read expected outputs only to compare them.",
  ["crates/core/src/object/mod.rs", "crates/core/src/object/node/mod.rs", "crates/core/src/object/list.rs", "crates/core/src/indexed.rs", "crates/core/src/object/value.rs", "crates/core/src/object/node/properties.rs"],
  [("Node::try_from_json_object_in / into_json_with", "crates/core/src/object/node/mod.rs"), ("Object::try_from_json_object_in", "crates/core/src/object/mod.rs"), ("Indexed / List reading and writing", "crates/core/src/indexed.rs")],
  note="Reading and writing of nodes, lists, indexed objects, arrays and the choice between kinds are proved; value objects and property maps are compared on generated documents (bounded).")
p("P17", "Documents expand as the algorithm says",
  "Expanding a document gives exactly the objects the JSON-LD 1.1 expansion algorithm gives, from the scalars up: a scalar becomes the reference, typed value, JSON literal, language string or plain literal its property's type, language and direction (or the context's defaults) call for; a value object is accepted exactly when its entries are those of one and keeps its value, type, language, direction and index; arrays expand item by item in order (nested arrays of a list container become lists); sets, lists, nests, reverse properties, and index, language, id, type and graph maps give the objects they denote; null and free-floating values are dropped; a lone top-level map with only @graph stands for its graph. Documents the algorithm refuses are refused, with the error code of the first fault. With the ordered option the result does not depend on the order of entries.",
  ["inputs"], "all documents, contexts and options (processing mode 1.1; base with or without)",
  "Containers, types, scoped contexts, nests and keywords combine freely; almost none of the shipped tests expand anything.",
  ["crates/expansion/src/lib.rs", "crates/expansion/src/element.rs", "crates/expansion/src/literal.rs", "crates/expansion/src/value.rs", "crates/expansion/src/array.rs", "crates/expansion/src/node.rs", "crates/expansion/src/document.rs"],
  [("expand_literal", "crates/expansion/src/literal.rs"), ("expand_value", "crates/expansion/src/value.rs"), ("expand_array", "crates/expansion/src/array.rs"), ("document::expand", "crates/expansion/src/document.rs"), ("Expanded iteration", "crates/expansion/src/expanded.rs"), ("expand_element / expand_node", "crates/expansion/src/element.rs")],
  note="Value expansion, value objects, arrays and the treatment of the top level are proved; expand_element's dispatch and expand_node are compared with a reference implementation on generated documents (bounded).")
p("P13", "Blank nodes are labelled consistently and nothing else changes",
  "Identification gives a fresh identifier of the generator to every node without identifier, wherever it is (graphs, included nodes, properties, reverse properties, lists), and changes nothing else. Relabelling does so too and replaces every blank node identifier, as identifier, type, property or reverse property, by its label: the one the label map holds for it, or else a fresh one that the map then holds; labels once given never change, so that all occurrences of a blank node, and no others, get the same label, over the whole document and over all calls with the same map. Objects of properties that become the same property are put together. Values, other identifiers, indexes, the order of properties, lists and values stay as they are. Putting literals into canonical form replaces numbers and JSON literals by their canonical form, everywhere, and changes nothing else; doing both is the one and then the other. Renaming by functions applies them to every identifier and type. The blank identifiers of a document are those that occur in it, as identifiers, types, properties and reverse properties at any depth, lists included.",
  ["inputs"], "all documents in expanded form, label maps, generators and vocabularies",
  "Blank node labels are what connects the parts of a document; a missed or doubled label silently splits or merges nodes. The tests relabel a few documents through RDF serialisation.",
  ["crates/core/src/object/node/mod.rs", "crates/core/src/object/mod.rs", "crates/core/src/object/list.rs", "crates/core/src/object/value.rs", "crates/core/src/document/expanded.rs", "crates/core/src/document/flattened.rs"],
  [("Node::relabel_with / identify_all_with / canonicalize_with / relabel_property", "crates/core/src/object/node/mod.rs"), ("Object and List: relabel_with / identify_all_with / canonicalize_with", "crates/core/src/object/mod.rs"), ("ExpandedDocument::relabel_with / relabel_and_canonicalize_with / blank_ids / map_ids", "crates/core/src/document/expanded.rs")],
  note="The generator is taken to be a function of its state and the vocabulary; that its identifiers are new is its own affair. Hash maps and sets, canonical numbers and canonical JSON are dependencies. Renaming by functions and the set of blank identifiers are decided by bounded comparison only.")
p("P30", "Nodes, lists and property maps hold what is put into them",
  "A property map (and a map of reverse properties) holds, for each property, the objects put in for it, in the order they were put in: inserting one or several objects adds them after those already there, inserting them uniquely adds those that are not equivalent to one already there (equivalent are equal values with the same index, and equal nodes that have an identifier; for objects of properties with the same index too), setting replaces them, removing gives them back and leaves the property out, clearing leaves no property; nothing of this changes what other properties have. Extending and collecting do so for each pair in turn. Looking a property up gives exactly its objects, one of them, or none when there are none; membership, length, emptiness and iteration (each property once) agree with it. A multiset and a list hold what was inserted, pushed and popped, in order; a multiset's unique insertion adds what is not a member yet and says whether it did. The accessors and setters of indexed objects, objects and nodes give and change exactly the part they name, the defaulting ones make it, empty or as given, only when it is missing; a node has a key exactly when it has that entry, has a type exactly when it is one of its types, is empty when it has no entry but @id, is a graph object when it has @graph and no other entry but @id, and a simple or unnamed graph when it has @graph alone; its entries are each iterated once, with the exact number to come; turning an object into a value, list, node or unnamed graph succeeds exactly when it is one and otherwise loses nothing.",
  ["inputs", "histories"], "all objects in expanded form and all sequences of operations on property maps, multisets and lists",
  "Every document the library gives is read and built through these; a value dropped or an entry overwritten shows only for the right sequence of operations. The tests call few of them.",
  ["crates/core/src/object/node/properties.rs", "crates/core/src/object/node/reverse_properties.rs", "crates/core/src/object/node/multiset.rs", "crates/core/src/object/node/mod.rs", "crates/core/src/object/mod.rs", "crates/core/src/object/list.rs", "crates/core/src/indexed.rs"],
  [("Properties: insert / insert_unique / insert_all / insert_all_unique / set / remove / get", "crates/core/src/object/node/properties.rs"), ("ReverseProperties: the same", "crates/core/src/object/node/reverse_properties.rs"), ("Multiset::insert / insert_unique / extend / from_iter", "crates/core/src/object/node/multiset.rs"), ("Node accessors, Node::is_empty / is_graph / has_key / entries", "crates/core/src/object/node/mod.rs"), ("Object accessors", "crates/core/src/object/mod.rs"), ("List and Indexed accessors", "crates/core/src/object/list.rs")],
  note="Index maps, slices and options are dependencies with assumed contracts; keys are looked up through `Equivalent`, taken to find the key asked for. What equality of objects decides is P05.")
p("P14", "Flattening keeps everything and makes it flat",
  "Flattening a document gives one node object per identifier and graph, holding everything the document says about that identifier in that graph: every type, index, property value and reverse property of every occurrence, with blank nodes renamed consistently; nodes without identifier get one; embedded nodes, included nodes and reverse properties become references between top-level nodes; graphs hold the nodes recorded in them; nothing else is said, and nodes of which nothing is said are left out. Two different indexes for one node, and only those, are a conflicting indexes error. The ordered option sorts graphs and nodes by identifier.",
  ["inputs"], "all documents in expanded form and all generators",
  "One node may be described in any number of places, nested in others, in lists, graphs, included and reverse positions; the tests flatten nothing.",
  ["crates/core/src/flattening/mod.rs", "crates/core/src/flattening/node_map.rs", "crates/core/src/flattening/environment.rs", "crates/core/src/object/node/properties.rs"],
  [("extend_node_map_from_node", "crates/core/src/flattening/node_map.rs"), ("NodeMap::flatten_with / flatten_unordered", "crates/core/src/flattening/mod.rs"), ("NodeMapGraph::declare_node", "crates/core/src/flattening/node_map.rs"), ("Environment::assign_node_id", "crates/core/src/flattening/environment.rs"), ("Properties::insert_all_unique", "crates/core/src/object/node/properties.rs")],
  note="Node map generation and flattening are proved to lose nothing and to give flat objects, for all inputs; that nothing is invented is compared with an independent reference (bounded). Hash maps and index sets are modelled by contracts.")
p("P15", "The RDF quads of a document are those the deserialisation algorithm gives",
  "The RDF quads of an expanded document, a flattened document or a node map are exactly those its nodes state: one for every type, property value and reverse property of a node, in the graph the node is in; one linked sequence of rdf:first and rdf:rest cells ending in rdf:nil for every list, nested lists included; the triples of a compound literal for a string with direction if that is asked for. Values become literals with the lexical form, datatype and language the algorithm prescribes. Quads with an invalid graph, subject, predicate or object are left out, and quads with a blank predicate unless generalized RDF is asked for. Nothing else is stated, and everything is stated once.",
  ["inputs"], "all documents in expanded or flattened form, generators, direction options; generalized RDF or not",
  "Quads come out of two nested lazy iterators with explicit stacks and a pending triple; lists in lists, compound literals in lists, reverse properties and named graphs combine freely, and no test asks for a single quad of most of them.",
  ["crates/core/src/rdf/mod.rs", "crates/core/src/rdf/quad.rs", "crates/core/src/quad.rs", "crates/core/src/object/node/properties.rs", "crates/core/src/object/node/reverse_properties.rs"],
  [("rdf::Quads::next", "crates/core/src/rdf/quad.rs"), ("RdfQuads::rdf_quads_full / rdf_quads_with", "crates/core/src/rdf/quad.rs"), ("ListTriples::next", "crates/core/src/rdf/mod.rs"), ("Value::rdf_value_with", "crates/core/src/rdf/mod.rs"), ("Object::rdf_value_with", "crates/core/src/rdf/mod.rs"), ("quad::Quads::next", "crates/core/src/quad.rs"), ("LdQuads::quads", "crates/core/src/quad.rs")],
  note="Proved for all inputs: the LD quads and the RDF quads are exactly a recursively defined sequence. Lexical forms of numbers and JSON are functions of the number and of the JSON value here, and compared with a reference on generated values (bounded). Interning in the vocabulary is taken to be a function; termination of the iterators is not proved.")
p("P21", "Loaders answer the document of the URL and nothing of it is lost",
  "A map loads exactly the document registered under the URL and otherwise fails with that URL as its target; the empty loader always fails; a chain asks its first loader and only if that fails its second, and reports both failures; the file loader reads, for the first directory mounted on a start of the URL, the file whose path is the remaining segments, and gives its parsed content under the URL asked as application/ld+json, or fails with the reason (no mount point, reading, parsing). A loader behind a reference answers like the loader. Loading in a vocabulary gives the same document with its URL, context URL and custom profiles as identifiers of the vocabulary. Mapping a document's content or IRIs changes nothing else; an IRI is one of the five standard profiles exactly when it is that profile's address and otherwise a custom profile with that IRI. The context of a document is the value of its only top-level @context. A reference to a document or context loads it, one already loaded is given as it is without asking the loader.",
  ["inputs"], "all documents, URLs, maps, mount points and loaders",
  "Remote contexts decide what every document means; loading the wrong document or losing its URL on the way silently changes all relative IRIs. The tests only ever load through one map-like loader.",
  ["crates/core/src/loader/mod.rs", "crates/core/src/loader/map.rs", "crates/core/src/loader/none.rs", "crates/core/src/loader/chain.rs", "crates/core/src/loader/fs.rs"],
  [("Loader::load_with / impls for references", "crates/core/src/loader/mod.rs"), ("RemoteDocument / Profile / RemoteDocumentReference / into_ld_context", "crates/core/src/loader/mod.rs"), ("HashMap / BTreeMap::load", "crates/core/src/loader/map.rs"), ("ChainLoader::load", "crates/core/src/loader/chain.rs"), ("FsLoader::mount / filepath / load", "crates/core/src/loader/fs.rs")],
  note="Map look-up, file reading, JSON parsing, IRI prefixes and the interning closure are assumed to do what they say (dependencies and the standard library); the HTTP loader is not part of this property.")
p("P20", "The HTTP loader follows the remote document rules of the standard",
  "The HTTP loader asks for the URL with the Accept header `application/ld+json` (with the requested profiles, in order, separated by blanks in one quoted profile parameter, if there are any) and `application/json`. An answer that is not 200 OK fails with its status. If a Content-Type of the answer is application/json or has the suffix +json, the document is the JSON of the body, its URL that of the answer (after HTTP redirections), its content type the media type without parameters, its profiles the IRIs in the profile parameter, and its context URL, unless the media type is application/ld+json, the target of the only context link (rel http://www.w3.org/ns/json-ld#context) of its Link headers, resolved against that URL; several such links are an error. Otherwise the first link with rel alternate and type application/ld+json is loaded instead, resolved against that URL, up to the maximal number of redirections, beyond which the loader fails; without such a link the content type is invalid. A Link header may hold several links, each a reference in angle brackets followed by parameters `;name=value`, quoted or not; a Content-Type is `type/subtype` followed by such parameters. Failures name the URL they concern.",
  ["inputs"], "all answers of a server, header values, bodies, requested profiles and redirection limits",
  "What a remote context or document means depends on its final URL, media type and linked context. The tests parse a few header values and never load anything.",
  ["crates/core/src/loader/reqwest/mod.rs", "crates/core/src/loader/reqwest/link.rs", "crates/core/src/loader/reqwest/content_type.rs"],
  [("ReqwestLoader::load / new_using", "crates/core/src/loader/reqwest/mod.rs"), ("Link::parse / all / rel / type_ / href", "crates/core/src/loader/reqwest/link.rs"), ("ContentType::new / is_json_ld / profile", "crates/core/src/loader/reqwest/content_type.rs")],
  note="The HTTP client is assumed (an answer is a function of the URL and Accept header during one load); media type syntax, +json suffix, IRI resolution, UTF-8 and JSON parsing are dependencies. An ill-formed link ends the reading of its header; rel and type are compared exactly; blanks before `;` and other oddities of Content-Type are unspecified.")
p("P28", "The processor puts the algorithms together as its options say",
  "Expanding a remote document starts from an empty context whose base is the base option, or else the document's URL; enters the expandContext option, then the context linked to the document (contextUrl, with its own URL as base); and expands the document with its URL, or else the base option. Compacting expands (ignoring the ordered option), loads and processes the given context on an empty one, gives it as base IRI the base option, or else its own, or else, if compactToRelative is set, the document's URL, and compacts with the given options. Flattening expands, flattens (ordered as asked), and compacts only if a context is given. Comparison is true exactly when the documents are the same JSON up to order and expand to equal documents. A document in both forms keeps the given document beside its expansion. RDF serialisation uses the expansion with fresh labels and the given direction and generalized RDF options. A failure of a part is reported as that failure, and no later part runs. The shorter forms are the full ones with the standard options, no vocabulary and no warning handler, and a reference to a document behaves as the document it loads. Every option has its documented default.",
  ["inputs"], "all documents, references, contexts, options, loaders and vocabularies",
  "The parts combine options, URLs, linked contexts and failures; the tests of the processor use the defaults and one document.",
  ["src/processor/mod.rs", "src/processor/remote_document.rs", "crates/core/src/loader/mod.rs", "crates/context-processing/src/processed.rs"],
  [("JsonLdProcessor for RemoteDocument", "src/processor/remote_document.rs"), ("JsonLdProcessor for RemoteDocumentReference", "src/processor/remote_document.rs"), ("compact_expanded_full / Options / ToRdf / default methods", "src/processor/mod.rs"), ("load_with / loaded_with / load_context_with", "crates/core/src/loader/mod.rs")],
  note="Every function is proved to be the stated composition of context processing, expansion, compaction, flattening and RDF serialisation, which are decided under their own properties and are uninterpreted functions here; loading is a function of the address.")
p("P29", "Failures carry the standard's error codes",
  "Every error of context parsing, context processing, expansion, compaction, flattening, RDF serialisation and loading has exactly the error code JSON-LD 1.1 gives that failure, passed on unchanged through every layer; a context that is loaded but holds no context is an invalid remote context, one that cannot be loaded is loading remote context failed, and a document that cannot be loaded is loading document failed. Each code prints as the name the standard gives it, reading that name gives the code back, and no other text is read as a code.",
  ["inputs"], "all error values and all strings",
  "Users branch on codes; an error passes through up to four nested types on its way out, and no test looks at a code of most of them.",
  ["crates/syntax/src/error.rs", "crates/syntax/src/context/try_from_json.rs", "crates/context-processing/src/lib.rs", "crates/expansion/src/error.rs", "crates/expansion/src/value.rs", "crates/expansion/src/literal.rs", "crates/compaction/src/lib.rs", "crates/core/src/loader/mod.rs", "src/processor/mod.rs"],
  [("ErrorCode::as_str / try_from", "crates/syntax/src/error.rs"), ("InvalidContext::code", "crates/syntax/src/context/try_from_json.rs"), ("Error::code", "crates/context-processing/src/lib.rs"), ("Error::code", "crates/expansion/src/error.rs"), ("Error::code", "crates/compaction/src/lib.rs"), ("ExpandError / CompactError / FlattenError / ToRdfError::code", "src/processor/mod.rs")],
  note="Proved for every variant and every string. That each fault raises the variant it should is decided under the algorithms' own properties, and here on one faulty document per code (bounded).")
