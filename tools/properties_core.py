CORE = "rdftk_core/src/model/"
GRAPH, DATA, LITERAL, RESOURCE = CORE + "graph.rs", CORE + "data_set.rs", CORE + "literal.rs", CORE + "resource.rs"
STATEMENT, SUBJECT, OBJECT = CORE + "statement.rs", CORE + "statement/subject.rs", CORE + "statement/object.rs"
BNODE, COLLECTION = CORE + "statement/bnode.rs", CORE + "statement/collection.rs"
NO_TESTS = "The stable tests do not reach this crate at all; those written for it build one or two fixed values."

prop("C01", "A graph holds the statements that its history put into it and left in it",
     """After any history of inserting, extending, merging, removing a statement, removing all statements of a subject,
     deduplicating and clearing, a graph has exactly the statements, with their numbers of copies, that the history
     leaves; a graph of unique statements has each once at most, and reports that it admits no duplicates. Removing and
     deduplicating report what they removed and nothing else is removed. Name and prefix mappings change only where they
     are set, and a copy is independent of the original.""",
     ["histories"], "every history of operations on graphs, unique or not, named or not, with statements nested to any depth",
     NO_TESTS, [GRAPH], [("insert, extend, merge, dedup, remove, remove_all_for, clear, From, FromIterator", GRAPH)],
     [("statements", "the bag or set of statements", GRAPH + " Graph")],
     ["Graph: statements, len, is_empty, name, prefix_mappings, ==, features"],
     TV, """Exhaustive: every graph of the model (bags of up to three of the statements of a small universe, unique or
     not) with every operation in each, and pairs of graphs that are merged, copied and assigned; random histories with
     nested statements and collections.""")

prop("C02", "Every query of a graph answers from the statements that it has",
     """Whether a graph contains a statement, a subject or several statements, what matches a pattern of optional
     components, and the sets of subjects, blank and other subjects, predicates, predicates of a subject, objects and
     objects of a subject and predicate are exactly those that its statements give. An absent component of a pattern
     matches everything.""",
     ["inputs", "histories"], "every graph that a history reaches and every query of it",
     NO_TESTS, [GRAPH], [("contains, contains_subject, contains_all, matches, subjects, predicates_for, objects_for…", GRAPH)],
     [], ["Graph: the queries"], TV,
     "Exhaustive over the graphs of the model and all 8 shapes of a pattern; random graphs with nested nodes besides.")

prop("C03", "A data set maps each graph name to the graph last inserted under it",
     """A data set has at most one graph for each name and for the absence of one: the one inserted last under that
     name and not removed or cleared since, with what has been edited in it in place. Its size, its tests for graphs, its
     lookups and its iteration agree with that, however it was made.""",
     ["histories"], "every history of operations on a data set",
     NO_TESTS, [DATA, GRAPH], [("insert, extend, remove, clear, graph_mut, From, FromIterator", DATA)],
     [("graphs", "the graphs by their optional names", DATA + " DataSet")],
     ["DataSet: len, is_empty, contains_graph, has_default_graph, has_graph_named, graph, graph_named, graphs"],
     TV, "Exhaustive over data sets of three names; random histories over five names and edited graphs.")

prop("C04", "Simplifying and reifying keep what is said and leave flat statements",
     """Simplifying a graph keeps its name, its prefix mappings and every statement of it that has no nested statement or
     collection, and replaces each nested node by a fresh blank node that is described by the standard reification
     (type, subject, predicate and object of a statement) or by the standard first/rest list of the elements (rdf:nil
     when there are none), to any depth. The result has neither nested statements nor collections, nothing but what
     this takes, and the original is unchanged; reifying a single statement or collection gives the same.""",
     ["inputs"], "every graph, statement and collection, with nodes nested to any depth",
     NO_TESTS, [GRAPH, STATEMENT, COLLECTION],
     [("Graph::simplify", GRAPH), ("Statement::reify", STATEMENT), ("Collection::reify", COLLECTION)], [],
     ["Graph::simplify, Statement::reify, Collection::reify"],
     TV, """The specification decides, for the recorded result, whether a one-to-one assignment of the fresh labels to the
     nested nodes exists; exhaustive for nesting to depth two, random to depth four. The input has no label that is
     generated later (finding of C10).""")

prop("C05", "Skolemizing gives every blank node one IRI of its own, and changes nothing else",
     """Skolemizing a graph replaces each blank node, wherever it stands (subject, object, nested statement, collection or
     graph name), by one IRI that is the same for all its occurrences, is different from those of all other blank nodes
     and from the IRIs of the graph, and is a well-known genid IRI on the base. Name, mappings and everything else are
     kept, the original is unchanged.""",
     ["inputs"], "every graph and every base IRI",
     NO_TESTS, [GRAPH], [("skolemize", GRAPH)], [], ["Graph::skolemize"],
     TV, "Exhaustive over the graphs of the model; random graphs nested to depth three.")

prop("C06", "A resource that was built flattens to exactly the statements that it describes",
     """Turning a resource into statements gives, for each property in it, exactly the statements that say it: the value
     itself, or the node of the nested resource and, once, what that says of itself. Bags, alternatives, sequences and
     other containers become one blank node each with its type and its members numbered from rdf:_1 in the order given.
     Nothing else is stated.""",
     ["inputs"], "every resource, nested to any depth, built with any of the builder's operations",
     NO_TESTS, [RESOURCE], [("Resource, Predicate builders, From<Resource> for Vec<Statement>", RESOURCE)], [],
     ["Resource: into Vec<Statement> and Graph"],
     TV, "392 resources of the model and random ones to depth three, with all 30 builder operations.")

prop("C07", "A typed literal has its value's data type, lexical form and value",
     """A literal made from a value (integer of any width, boolean, float, decimal, duration, IRI, qualified name, name,
     language tag, string or bytes) has the data type of the value's kind and a lexical form of that XSD type for exactly
     that value, and is equal to that value and to no other. Bytes written as hexBinary or base64Binary decode to
     themselves, texts that are no such encoding are refused, and an anyURI literal turns into its IRI.""",
     ["inputs"], "every value of every supported kind and every text to decode",
     NO_TESTS, [LITERAL], [("From<T> for Literal, PartialEq<T>, hex_encoded, base64_encoded, TryFrom<Literal>", LITERAL),
                           ("DataType: as_iri, From<Iri>, Display", LITERAL)], [],
     ["Literal: data_type, lexical_form, ==, TryFrom"],
     TV, """All data types; all byte sequences of a small set to length three, all single bytes, random ones to length
     257; the borders of all integer types and random values of the rest.""")

prop("C08", "A literal's text is escaped so that it reads back as the same literal",
     """The lexical form of a literal is its text with quotes, backslashes, line breaks, tabs and other control characters
     as the escapes that the RDF line formats have (\\", \\\\, \\n, \\r, \\t and \\uXXXX), all else kept; the unescaped form
     is the text. A literal prints as its quoted lexical form with its data type or language, in the plain form with the
     shorthands for numbers, booleans and IRIs, in the alternate form without; equal texts make equal literals however
     they are made.""",
     ["inputs"], "every text, with no data type, any data type or a language",
     NO_TESTS, [LITERAL], [("Literal::lexical_form, unescaped_form, Display", LITERAL)], [],
     ["Literal: lexical_form, unescaped_form, to_string, {:#}"],
     TV, """All texts of an alphabet with every class to length three (thorough: four), every code point below U+0180, a
     sample of the rest (thorough: 20,000), long random texts; the model proves that unescaping inverts escaping.""")

prop("C09", "Nodes, literals and statements have a total order that agrees with equality",
     """Comparing subjects, objects, literals and statements is antisymmetric and transitive, says equal exactly for equal
     values, and equal values hash alike; kinds are ordered blank nodes, resources, literals, collections, statements, and
     within a kind by text, elements or components. Sorting by it is a permutation in that order.""",
     ["inputs"], "all pairs and triples of nodes, nested to any depth",
     NO_TESTS, [SUBJECT, OBJECT, STATEMENT, LITERAL, COLLECTION], [("Ord, PartialOrd, PartialEq, Hash", "the files above")], [],
     ["cmp, partial_cmp, ==, Hash, sort"],
     TV, """All triples of the nodes of the model (quick: 9,000 of them), for which the model proves that the order is
     one; random nested nodes. The order among data types is left open.""")

prop("C10", "Blank nodes have valid labels, and generated ones never repeat",
     """A text is accepted as the label of a blank node, with or without the prefix _:, exactly when it is a name of the
     grammar; it is kept without the prefix, a node of it and its qualified name print with it, and two blank nodes are equal exactly when their labels are.
     No two labels that a process generates are equal, whichever threads generate them, and each is valid.""",
     ["inputs", "schedules"], "every text; any number of generated labels on any threads",
     NO_TESTS, [BNODE], [("BlankNode: FromStr, is_valid_str, generate, Display, to_qname", BNODE)],
     [("counter", "the number of the next label", BNODE)], ["BlankNode"],
     TV, """All 11,111 texts of the grammar model with and without prefix; tens of thousands of labels per run from up to 16
     threads. Known finding: labels that are in use already are not avoided.""")

prop("C11", "Nodes print, convert and say what they are coherently",
     """Exactly one of the kinds that a node can be tested for is true, and it converts to that kind and no other; a
     subject turned into an object and back is the same node. Blank nodes, IRIs, literals, collections, nested statements,
     statements and graph names print in the documented notation, IRIs in one pair of angle brackets, and a
     collection keeps its elements in order.""",
     ["inputs"], "every node, statement, collection and graph name, nested to any depth",
     NO_TESTS, [SUBJECT, OBJECT, STATEMENT, COLLECTION, GRAPH],
     [("is_*, as_*, to_subject, to_object, From, PartialEq, Display", "the files above")], [],
     ["SubjectNode, ObjectNode, Statement, Collection, GraphName"],
     TV, "Every node of the model (depth two) and random nodes to depth three, compared and converted in pairs.")

NAMES = "rdftk_names/src/"
prop("N01", "Every vocabulary term is the published one, by IRI, name and qualified name",
     """For each term of each vocabulary that the library declares (Dublin Core, FOAF, Geo, OWL, RDF, RDF Schema, SKOS and its
     extensions, XSD) the IRI is the published one, the name is its last part and the qualified name is the name with the
     vocabulary's usual prefix, such that expanding and compressing with that prefix goes from one to the other. The same
     is so for namespaces that users declare and for numbered container members, whichever thread asks first.""",
     ["inputs", "schedules"], "every function of every vocabulary, every member number, first use from any thread",
     "No stable test reaches this crate; its own look at two terms of one declared namespace.",
     [NAMES + "lib.rs", NAMES + "rdf.rs", NAMES + "rdfs.rs", NAMES + "owl.rs", NAMES + "xsd.rs", NAMES + "skos.rs", NAMES + "foaf.rs",
      NAMES + "geo.rs", NAMES + "dc/terms.rs", NAMES + "dc/elements.rs", NAMES + "dc/dcam.rs", NAMES + "dc/dcmi_type.rs", VOCAB],
     [("namespace! and nsname! macros", NAMES + "lib.rs"), ("member, member_qname", NAMES + "rdf.rs"),
      ("Vocabulary constants", VOCAB)], [("NS_CACHE", "the terms of a vocabulary, made on first use", NAMES + "lib.rs")],
     ["the functions of every module"], TV,
     """Complete: all 399 terms of 14 vocabularies against a table of the published ones. Known findings: seven names that
     their vocabulary does not have.""")
