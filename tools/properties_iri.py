TV = "TLA+ model checked exhaustively with TLC; its behaviours replayed on the real code and traces of it validated by TLC"

prop("I01", "A prefix map is a one-to-one map of prefixes and namespaces, last writer wins",
     """After any history of operations a prefix map binds each prefix to at most one IRI and each IRI to at most one
     prefix, namely those last inserted and not removed, cleared or overwritten from either side since. Every view of
     it (lookups from either side, iterators, size, emptiness, the default namespace, equality, printed and serialized
     form) agrees with those bindings, and a copy of it is independent of the original.""",
     ["histories"], "every history of operations on prefix maps, with any prefixes and IRIs, including rebinding one side",
     """The tests insert a handful of fixed prefixes once and look them up; no test rebinds a prefix or an IRI, compares
     all views, or follows a history of mixed operations.""",
     [MAP, VOCAB], [("insert, set_default_namespace, remove, clear on a BiBTreeMap", MAP + " IriPrefixMap"),
                    ("prefix_as_namespace, iri_as_iri", VOCAB)],
     [("map", "the bindings of prefixes and IRIs", MAP + " IriPrefixMap::map")],
     ["IriPrefixMap::mappings, get_namespace, get_prefix, prefixes, iris, len, is_empty, Display, serde"],
     TV, """Exhaustive: all 146 states of a map over three prefixes and four IRIs and all 441 states of two maps, every
     operation in each, replayed on the real code; random histories over larger domains.""")

prop("I02", "Expanding and compressing names are inverse to each other",
     """Expanding a local name whose prefix is bound to a namespace IRI gives that IRI with the name appended, and
     compressing the result gives the same local name back; compressing any IRI gives nothing or a local name that
     expands to exactly that IRI. A prefix that is not bound, or is bound to an IRI that is no namespace, expands to
     nothing, and an IRI that no binding covers is passed through unchanged where an IRI or a name is asked for.""",
     ["inputs", "histories"], "every prefix map reached by any history, every local name and every IRI",
     "The tests expand and compress about ten names in two fixed maps; the inverse is never checked for a computed input.",
     [MAP, IRI], [("expand, compress, compress_to_iriref", MAP), ("split, make_name", IRI)], [],
     ["IriPrefixMap::expand, compress, compress_to_iriref"],
     TV, """The inverse is an invariant of the model in all its states and is demanded of the real code in each of
     them; random maps, names and IRIs besides. One known finding: names that are not ASCII.""")

prop("I03", "Names, namespaces and local names are exactly those of the grammar",
     """A text is accepted as a namespace, a name or a local name if and only if the documented grammar (PNAME_NS, the
     unescaped PN_LOCAL without ':', and the two together) derives it, by every way of making one from text: parsing,
     validity tests, conversions and deserialization. A text that is refused is refused with the error of what is wrong
     with it, and an accepted text is kept as it is.""",
     ["inputs"], "every text of Unicode code points",
     """The property tests generate valid names from a few ASCII ranges and a few invalid ones; the borders of the
     Unicode ranges, the position-dependent rules and the agreement of the entry points are not covered.""",
     [PNAME], [("FromStr, is_valid_str, TryFrom, Deserialize of Namespace, Name and LocalName", PNAME)], [],
     ["Name, Namespace, LocalName: FromStr, is_valid_str, TryFrom<String>, serde"],
     TV, """All 1.1 million code points in each of six positions; all 11111 texts of up to 4 symbols (thorough: 111111
     of up to 5) of an alphabet with every class; random longer texts.""")

prop("I04", "Names compose, print, compare and serialize coherently",
     """However a local name is composed of a namespace and a name, it is the same value, its parts are the two, it
     prints as their concatenation, its CURIE is that in brackets, and parsing what was printed gives it back. Namespaces,
     names and local names are equal exactly when their texts are, order as their texts (a local name by its namespace,
     then its name), and equal values hash alike.""",
     ["inputs"], "every pair of namespaces and names in the grammar",
     "The tests compose single fixed names; they never compare the ways of composing, or order and hash with equality.",
     [PNAME], [("LocalName::new, qualify, new_unchecked, as_curie, Display, derived Eq/Ord/Hash", PNAME)], [],
     ["LocalName, Namespace, Name: accessors, Display, serde, Eq, Ord, Hash"],
     TV, "Sampled pairs of valid parts, all small texts of the grammar model; ordering on random pairs with repeats.")

prop("I05", "Editing an IRI changes the edited component only; splitting undoes making",
     """Replacing, emptying or removing the fragment, or replacing the path, changes that component and no other, and
     leaves the IRI that it was asked of as it was. An IRI looks like a namespace exactly when its fragment is empty but
     present, or its path ends in '/' and it has no query; making a name on a namespace and splitting the result gives
     back the two, and an IRI that splits is made again from its parts. No IRI makes any of these operations panic.""",
     ["inputs"], "every IRI, hierarchical or opaque, with or without authority, query and fragment; every fragment, path and name",
     "The tests have one or two examples of each operation, all http IRIs without a query; opaque IRIs made it panic.",
     [IRI], [("with_new_fragment, with_empty_fragment, with_no_fragment, with_new_path", IRI),
             ("looks_like_namespace, split, namespace, name, make_name", IRI)], [],
     ["Iri: the methods above, AsRef<str>"],
     TV, """Exhaustive: 1524 IRIs that edits reach from 8 shapes, every operation on each, laws as invariants; random
     IRIs and edits besides.""")

prop("I06", "Generated identifiers are well-known genid IRIs and never repeat",
     """An identifier generated from an IRI is on the same scheme and authority, its path is /.well-known/genid/
     followed by 32 lower-case hexadecimal digits, and it has neither query nor fragment. No two identifiers that a
     process generates are equal, whichever threads generate them.""",
     ["schedules", "inputs"], "every IRI with an authority or an absolute path; any number of calls from any threads",
     "The tests look at the beginning and end of one identifier.",
     [IRI], [("genid", IRI + " Iri::genid")], [], ["Iri::genid"],
     TV, "80,000 identifiers per run (thorough: several million) from 8 threads that start together, from many bases.")

prop("I07", "An IRI round-trips through its text, and is its text for Eq, Ord and Hash",
     """The text of an IRI, in angle brackets or bare, parses back to an equal IRI, as do its conversions to and from
     URLs and its serialized form; it prints in angle brackets, and bare in the alternate form. Two IRIs are equal, and
     hash alike, exactly when their texts are equal, and order as their texts; a text that is no absolute IRI is refused.""",
     ["inputs"], "every IRI in canonical form, and texts that are none",
     "The tests parse and print a few http IRIs.",
     [IRI], [("FromStr, Display, From/TryFrom conversions, serde, derived Eq/Ord/Hash", IRI)], [],
     ["Iri: FromStr, Display, AsRef<str>, From<Url>, serde, Eq, Ord, Hash"],
     TV, "1524 IRIs of the exhaustive model and hundreds of random ones through nine conversions; random pairs compared.")
