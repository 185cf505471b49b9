IO = "rdftk_io/src/"
PEST, PARSER = IO + "common/common.pest", IO + "common/parser/"
NT, NQ, JSON, XML, TURTLE, DOT = IO + "nt/", IO + "nq/", IO + "json/", IO + "xml/", IO + "turtle/", IO + "dot/"
NO_IO_TESTS = "The stable tests do not reach this crate; its own compare one or two fixed documents or only print them."

prop("W01", "What is written in N-Triples or N-Quads is the graph, and reads back as it",
     """Every graph, and for N-Quads every data set, is written as a document that the grammar of the format admits and that
     says exactly what the graph says: the same statements, with nested statements and collections described by flat ones,
     each quad in its graph, literals with exactly their text, data type or language. Reading the document back gives exactly
     what is in it. One writer writes any number of graphs.""",
     ["inputs", "histories"], "every graph and data set of canonical IRIs, with any text, nested to any depth; any options",
     NO_IO_TESTS, [NT + "writer.rs", NQ + "writer.rs", NT + "reader.rs", NQ + "reader.rs", PARSER + "ntriples.rs", PARSER + "nquads.rs", PEST],
     [("NTripleWriter, NQuadWriter: write", NT + "writer.rs, " + NQ + "writer.rs"), ("nt_*, nquad: from parse tree to statement", PARSER)],
     [], ["ObjectWriter::write_to_string, ObjectReader::read"], TV,
     """Graphs of up to two statements over all kinds of nodes (4,200; quick: 700 per format), all ways of connecting three
     blank nodes, every character below U+0180 and at the borders of classes in every place, random nested graphs, graphs of over a hundred statements.""")

prop("W02", "N-Triples and N-Quads are read exactly as their grammars say",
     """A document that the grammar of N-Triples or N-Quads admits is read as the statements that it says, in the graphs that
     it says, with escape sequences replaced by their characters; one that has a term, escape, character, position or end that
     the grammar does not admit is refused as a whole, without a panic. Where the reader is more lenient than the grammar about
     line ends, comments and space, it still reads what the terms say.""",
     ["inputs"], "every text", NO_IO_TESTS, [PEST, PARSER + "mod.rs", PARSER + "ntriples.rs", PARSER + "nquads.rs", NT + "reader.rs", NQ + "reader.rs"],
     [("the grammar rules of both formats", PEST), ("nt_*, nquad, unescape", PARSER)], [], ["NTripleReader, NQuadReader: read"], TV,
     """36,800 documents that are put together from right and wrong terms, gaps and lines, for which the model proves that the
     verdict on the text is that on its parts; 34 places of a document with every character class in each (23,600); random
     documents, half of them with random edits, also of over a hundred lines.""")

prop("W03", "RDF/JSON is written as the graph and read exactly as the format says",
     """Every graph is written as a JSON document, pretty or not, that says exactly what the graph says and reads back as it.
     A document is read as the statements that it says when it is JSON of the shape of RDF/JSON with valid terms, and refused
     when it is no JSON or when a term, type or shape is wrong, without a panic.""",
     ["inputs"], "every graph of canonical IRIs; every text", NO_IO_TESTS, [JSON + "reader.rs", JSON + "writer.rs", JSON + "syntax.rs"],
     [("parse_graph … parse_uri_object", JSON + "reader.rs"), ("JsonWriter::write", JSON + "writer.rs")], [], ["JsonReader: read, JsonWriter: write"], TV,
     """Writing as for W01; 4,200 documents (thorough: 9,400) with every combination of an object's members, right, wrong or
     absent, all kinds of keys, structures, escapes and characters; random documents, half of them with random edits; large ones.""")

prop("W04", "What is written in RDF/XML is well-formed and says exactly what the graph says",
     """Every graph that RDF/XML can say is written, flat or striped, pretty or plain, as a well-formed XML document with all
     its prefixes declared that says exactly the statements of the graph, whatever shared, unconnected or cyclic blank nodes
     there are. A graph with a predicate that cannot be the name of an element, or with a character that XML does not have, is
     refused. Reading a document back gives exactly what is in it. One writer writes any number of graphs, none of which shows
     in another's document.""",
     ["inputs", "histories"], "every graph of canonical IRIs, with any text, nested to any depth; any options",
     NO_IO_TESTS, [XML + "writer.rs", XML + "syntax.rs", IO + "common/nesting.rs"], [("XmlWriter: write", XML + "writer.rs")], [], ["XmlWriter: write_to_string"], TV,
     """As for W01; the document is read by a specification of XML 1.1 with namespaces and of RDF/XML. All 630 ways of connecting
     blank nodes are written striped.""")

prop("W08", "RDF/XML is read as the statements that it says",
     """A document in RDF/XML is read as exactly the statements that it says, whatever abbreviations it uses: typed nodes,
     property attributes, nested and empty nodes, languages and bases in scope, resources, collections, containers and XML literals, with any
     prefixes, references, comments and CDATA, and with different fresh blank nodes for different nodes that have no label. One
     that is not well-formed, that uses prefixes it does not declare, or that has text or elements where there can be
     none, is refused, without a panic.""",
     ["inputs"], "every text; what XML and RDF/XML leave to readers is left open", NO_IO_TESTS, [XML + "reader.rs", XML + "syntax.rs"],
     [("parse_document … parse_attributes", XML + "reader.rs")],
     [("language and base in scope, members counted so far", "of the element that is being read", XML + "reader.rs")], ["XmlReader: read"], TV,
     """29,700 documents (quick: 12,000 of them) that are put together from node and property elements of all kinds, alone, in pairs and in
     each other, for which the model proves that the text says what its parts say (of an XML literal, the elements,
     attributes and text in it); every character in eight places; things put in and
     cut out everywhere; random documents, four in ten with random edits; large ones.""")

prop("W05", "What is written in Turtle is valid and says exactly what the graph says",
     """Every graph is written, with any options, as a document that the grammar of Turtle admits, with the prefixes that it
     uses declared, and that says exactly the statements of the graph: blank nodes lose their labels only where they are
     nested in the one place that they are in, compressed names and references to a base stand for the IRIs of the graph (where it was asked to move IRIs to the
     base, for those that result), shorthands are only used for literals
     that they are. One writer writes any number of graphs.""",
     ["inputs", "histories"], "every graph of canonical IRIs, with any text, prefixes and nesting; all options",
     NO_IO_TESTS, [TURTLE + "writer.rs", IO + "common/nesting.rs", IO + "common/indenter.rs"], [("TurtleWriter: write", TURTLE + "writer.rs")],
     [("indentation", "of the line that is being written", TURTLE + "writer.rs")], ["TurtleWriter: write_to_string"], TV,
     """As for W01, with 15 combinations of options in turn (thorough: each); the document is read by a specification of
     Turtle, which resolves references as RFC 3986 has it. All 630 ways of connecting blank nodes are written nested. MC_Reference
     has bases and IRIs of every shape and proves which references may be shortened; all of them are written.""")

prop("W06", "What is drawn in DOT is the graph, node for node and edge for edge",
     """Every graph is drawn as a valid DOT document with one node for each subject and object and one edge for each statement,
     between the nodes of its subject and object and with its predicate as label. Each node has the shape, colour, label and
     link of its kind with the options that were given, an identifier with the prefix that was given, and no two nodes share one.""",
     ["inputs"], "every graph, with any text, nested to any depth; any options", NO_IO_TESTS, [DOT + "writer.rs"],
     [("DotWriter: write", DOT + "writer.rs")], [], ["DotWriter: write_to_string"], TV,
     """As for W01, with eight combinations of options; the specification looks for a one-to-one assignment of drawn nodes to the
     nodes of the graph.""")

prop("W07", "A failing sink or source is an error, and nothing is taken for a whole document",
     """A writer whose sink fails or has no more room, at any byte, returns an error, and the same writer's next document is
     right; a sink that takes a few bytes at a time or is interrupted gets the whole document. A reader whose source fails, at
     any byte, or whose bytes are no UTF-8 returns an error and no graph; one that gets a few bytes at a time reads the same.""",
     ["inputs", "crash_points"], "every graph and document, every byte at which the sink or source fails", NO_IO_TESTS,
     [NT + "writer.rs", NQ + "writer.rs", JSON + "writer.rs", XML + "writer.rs", TURTLE + "writer.rs", DOT + "writer.rs", NT + "reader.rs", NQ + "reader.rs", JSON + "reader.rs", XML + "reader.rs"],
     [("write, read", "the files above")], [], ["ObjectWriter::write, ObjectReader::read"], TV,
     """A model of sinks and sources that take or give little, fail or are interrupted, of up to two (thorough: three) documents in turn,
     of which every combination is replayed with random graphs and documents in all six formats; every byte from 0 to 600 of graphs in each format
     at which a sink may be full, and every byte of documents at which a source may fail.""")

CLI = "rdftk_cli/src/"
prop("T01", "The command-line tool succeeds only with a document that says the same",
     """When the command-line tool converts or draws a document and ends with success, all of a document in the syntax that was asked
     for has reached the output, that says exactly what the input says, with no more than other labels of blank nodes, and nothing
     else is there, whatever is logged. When the input is missing, unreadable or wrong, when the output has no room, or when the
     syntax cannot say what was read, it ends with an error code and without a panic; otherwise it succeeds.""",
     ["inputs", "configurations", "fault_sequences"], "every document, pair of syntaxes, kind of input and output, and log level; outputs that are full after any byte",
     "No test runs the tool.", [CLI + "main.rs", CLI + "commands/mod.rs", CLI + "commands/representations.rs", CLI + "commands/draw.rs"],
     [("ConvertCmd, DrawCmd: execute", CLI + "commands"), ("read_graph, write_graph, read_dataset, write_dataset", CLI + "commands/mod.rs"), ("main, init_logging", CLI + "main.rs")],
     [], ["exit code, standard output, output file of rdftk convert, rdftk draw"], TV,
     """A model of a run, with buffering, limited room and every job (6,200; two commands, four syntaxes read, six written, five inputs, eight outputs, five
     kinds of documents); every job and 1,500 (thorough: 30,000) random ones are run by the tool itself, and documents that are larger than the
     buffers; output, input and code are compared by the specifications of the syntaxes.""")
