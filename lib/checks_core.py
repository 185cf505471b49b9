"""Graphs, data sets, nodes, literals and resources (rdftk_core)."""
from checks import check, ops_of
from engine import behaviours, cps, tours

RDF = "http://www.w3.org/1999/02/22-rdf-syntax-ns#"
XSD = "http://www.w3.org/2001/XMLSchema#"
LABELS = ["n", "m", "b1", "g", "N"]
IRIS = ["http://a/", "http://b/x#y", "urn:c", "http://a/d?e", "http://p/", "urn:C"]
PREDICATES = ["http://p/", "http://q/x", "http://a/", RDF + "type", RDF + "value", "http://q/X"]
LEXICAL = ["", "x", "X", "1", "a\"b", "a\\b", "\n", "caf\u00e9", "\\u0041", "\U0001f600 \u0001"]
LONG = "all of this is in both of these texts, of which one ends with another letter than the other: "
TYPES = [XSD + "string", XSD + "long", XSD + "anyURI", "http://t/u", RDF + "XMLLiteral", XSD + "boolean", "http://t/U"]
LANGUAGES = ["en", "en-GB", "fr"]
MAPPINGS = [["m:", "http://m/"], [":", "http://p/"], ["n:", "http://b/x#"]]


def literal(rng):
    kind = rng.randrange(3)
    return ["l", rng.choice(LEXICAL), rng.choice(TYPES) if kind == 1 else "", rng.choice(LANGUAGES) if kind == 2 else ""]


def subject(rng, depth=0):
    if depth and rng.random() < 0.3:
        return ["s", statement(rng, depth - 1, PREDICATES[:3])]
    return ["b", rng.choice(LABELS)] if rng.random() < 0.4 else ["i", rng.choice(IRIS)]


def an_object(rng, depth=0):
    if depth and rng.random() < 0.35:
        if rng.random() < 0.5:
            return ["s", statement(rng, depth - 1, PREDICATES[:3])]
        return ["c", [an_object(rng, depth - 1) for _ in range(rng.randint(0, 3))]]
    return literal(rng) if rng.random() < 0.4 else subject(rng)


def statement(rng, depth=0, predicates=PREDICATES):
    s = subject(rng, depth)
    # What a blank node for a nested subject says itself is told from what is said of it by the predicate.
    p = rng.choice(PREDICATES[:3] if s[0] == "s" else predicates)
    return [s, p, an_object(rng, depth)]


def graph_name(rng):
    return rng.choice([["none"], ["b", "n"], ["b", "g"], ["i", "http://g/"], ["i", "http://a/"]])


def mappings(rng):
    return rng.sample(MAPPINGS, rng.randint(0, 2))


def wide(rng, depth=0):
    """A statement of which there are many."""
    s, p, o = statement(rng, depth)
    if s[0] != "s" and rng.random() < 0.7:
        s = ["b", f"w{rng.randrange(40)}"] if rng.random() < 0.5 else ["i", f"http://a/w{rng.randrange(40)}"]
    if o[0] == "c" and rng.random() < 0.3:
        o = ["c", [an_object(rng, 1) for _ in range(rng.randint(4, 20))]]
    elif rng.random() < 0.4:
        o = ["l", str(rng.randrange(30)), "", ""]
    return [s, p, o]


def a_graph(rng, pool, most=4):
    return [rng.random() < 0.5, graph_name(rng), [rng.choice(pool) for _ in range(rng.randint(0, most))], mappings(rng)]


def deep_object(rng, depth):
    """A statement or a collection in another, many times."""
    n = an_object(rng)
    for _ in range(depth):
        n = rng.choice([["s", [subject(rng), rng.choice(PREDICATES[:3]), n]], ["c", [an_object(rng), n, an_object(rng)]]])
        if n[0] == "s" and rng.random() < 0.3:
            n = ["s", [n, rng.choice(PREDICATES[:3]), an_object(rng)]]
    return n


def iris_in(v):
    if isinstance(v, str):
        return {v}
    if isinstance(v, list):
        return set().union(*map(iris_in, v)) if v else set()
    return set()


MUTATORS = ["new", "insert", "insert", "insert", "extend", "with", "from", "merge", "clone", "dedup", "remove",
            "remove_all_for", "set_name", "unset_name", "set_mappings", "with_mappings", "clear"]
QUERIES = ["size", "has", "match", "sets", "for"]


def graph_ops(rng, kinds, count, length, depth=0, most=4):
    """Random histories; those with more than a few statements at a time draw them from many."""
    ops = []
    for _ in range(count):
        ops.append({"op": "reset"})
        pool = [wide(rng, depth) for _ in range(rng.randint(most // 2, most))] if most > 4 else []
        pool += [statement(rng, depth) for _ in range(rng.randint(2, 7))]
        for _ in range(length):
            kind = rng.choice(kinds)
            o = {"op": "graph." + kind, "g": rng.randrange(2)}
            if kind == "clear" and rng.random() < 0.6:
                continue
            st = rng.choice(pool)
            if kind == "new":
                o["v"] = a_graph(rng, pool, most)
            elif kind in ("insert", "remove"):
                o["s"] = st
            elif kind in ("extend", "with"):
                o["v"] = [rng.choice(pool) for _ in range(rng.randint(0, most))]
            elif kind == "from":
                o["via"] = rng.choice(["vec", "iter", "one"])
                o["v"] = [rng.choice(pool) for _ in range(1 if o["via"] == "one" else rng.randint(0, most))]
            elif kind == "remove_all_for":
                o["n"] = st[0]
            elif kind == "set_name":
                o["n"] = rng.choice([["b", "n"], ["b", "g"], ["i", "http://g/"]])
            elif kind in ("set_mappings", "with_mappings"):
                o["v"] = mappings(rng)
            elif kind == "has":
                o["s"] = st if rng.random() < 0.6 else [rng.choice(pool)[0], rng.choice(pool)[1], rng.choice(pool)[2]]
            elif kind == "match":
                for name, part in (("s", 0), ("p", 1), ("o", 2)):
                    o[name] = ["some", rng.choice([st, st, rng.choice(pool)])[part]] if rng.random() < 0.5 else ["none"]
            elif kind == "for":
                o["n"], o["p"] = st[0], rng.choice([st, rng.choice(pool)])[1]
            elif kind == "skolemize":
                base = rng.choice(["http://b/", "https://u@e.org:8080/x?y#z", "foo://h"])
                o["base"] = cps(base)
                o["known"] = sorted(set(IRIS + PREDICATES + ["http://g/"]))
            ops.append(o)
    return ops


def edges_for(edges, wanted):
    """The edges that change the state, to get everywhere, and those of the operations that are wanted."""
    return [e for e in edges if e[1]["op"].split(".")[1] in wanted or e[0] != e[2]]


@check("C01", "a graph is only changed through its own methods, by one thread")
def graph_history(c):
    queries = QUERIES + ["simplify", "skolemize"]
    edges = [e for e in c.model("MC_Graph") if e[1]["op"].split(".")[1] not in queries or e[1]["op"] == "graph.size"]
    c.conform("core", "TraceGraph", tours(edges), "one graph, every state and operation")
    c.conform("core", "TraceGraph", tours(c.model("MC_Graph", "MC_Graph2.cfg")), "two graphs")
    c.conform("core", "TraceGraph", graph_ops(c.random, MUTATORS + ["size"], 200 if c.quick else 4000, 30, 2),
              "random histories")
    c.conform("core", "TraceGraph", graph_ops(c.random, MUTATORS + ["size"], 20 if c.quick else 400, 25, 1, 60),
              "random histories of large graphs")


@check("C02")
def graph_queries(c):
    edges = c.model("MC_Graph")
    c.conform("core", "TraceGraph", tours(edges_for(edges, QUERIES)), "every query of every graph of the model")
    ops = graph_ops(c.random, MUTATORS[:8] + QUERIES * 6, 300 if c.quick else 5000, 40, 2)
    c.conform("core", "TraceGraph", ops, "random graphs")
    ops = graph_ops(c.random, MUTATORS[:8] + QUERIES * 3, 20 if c.quick else 400, 40, 1, 60)
    c.conform("core", "TraceGraph", ops, "large random graphs")


NAMES = [["none"], ["b", "n"], ["b", "g"], ["i", "http://g/"], ["i", "http://a/"]]


@check("C03", "a graph in a data set that is renamed in place stays under the name that it was inserted with")
def data_set(c):
    ops = tours(c.model("MC_DataSet"), reset={"op": "reset", "names": NAMES})
    c.conform("core", "TraceGraph", ops, "every data set of the model and every operation")
    rng, ops = c.random, []
    for i in range(220 if c.quick else 4400):
        names = NAMES if i % 11 else NAMES + [["b", f"g{n}"] for n in range(12)] + [["i", f"http://g/{n}"] for n in range(12)]
        few = len(names) == len(NAMES)
        ops.append({"op": "reset", "names": names})
        pool = [statement(rng, 1) for _ in range(4)]

        def one():
            g = a_graph(rng, pool)
            g[1] = rng.choice(names)
            return g
        for _ in range(30):
            kind = rng.choice(["insert"] * 3 + ["from", "extend", "remove", "look", "look", "edit", "edit", "clear"])
            o = {"op": "data." + kind}
            if kind == "clear" and rng.random() < 0.6:
                continue
            if kind == "insert":
                o["v"] = one()
            elif kind == "from":
                o["via"] = rng.choice(["vec", "iter", "one", "map"])
                o["v"] = [one() for _ in range(1 if o["via"] == "one" else rng.randint(0, 4 if few else 30))]
            elif kind == "extend":
                o["v"] = [one() for _ in range(rng.randint(0, 3 if few else 20))]
            elif kind != "clear":
                o["n"] = rng.choice(names)
            if kind == "edit":
                o["s"] = rng.choice(pool)
            ops.append(o)
    c.conform("core", "TraceGraph", ops, "random histories")


@check("C04", "the input has no blank nodes with labels that the process generates (see the finding of C10)",
       "nested subjects have no predicates of the reification vocabulary")
def simplify(c):
    edges = c.model("MC_Graph")
    c.conform("core", "TraceGraph", tours(edges_for(edges, ["simplify"])), "every graph of the model")
    ops = graph_ops(c.random, ["new", "new", "insert", "insert", "set_name", "simplify", "simplify"],
                    300 if c.quick else 5000, 12, 4)
    c.conform("core", "TraceGraph", ops, "random graphs with nodes nested to depth 4")
    ops = graph_ops(c.random, ["new", "insert", "extend", "set_name", "simplify", "simplify"], 20 if c.quick else 400, 8, 1, 40)
    c.conform("core", "TraceGraph", ops, "large random graphs, with collections of up to 20 elements")
    c.conform("core", "TraceNodes", behaviours(ops_of(c.model("MC_Reify")), 50), "every statement and collection of the model")
    rng, ops = c.random, []
    for _ in range(1500 if c.quick else 30000):
        ops.append({"op": "node.reify", "s": statement(rng, 4)})
        ops.append({"op": "node.reify_list", "c": ["c", [an_object(rng, 3) for _ in range(rng.randint(0, 5))]]})
    for n in range(6, 40):
        ops.append({"op": "node.reify_list", "c": ["c", [an_object(rng, 1) for _ in range(n)]]})
        deep = statement(rng)
        for _ in range(n // 2):
            deep = [["s", deep] if rng.random() < 0.5 else subject(rng), rng.choice(PREDICATES[:3]),
                    rng.choice([["s", deep], ["c", [["s", deep]]], ["c", [subject(rng), ["c", [["s", deep]]]]]])]
            if len(str(deep)) > 4000:
                break
        ops.append({"op": "node.reify", "s": deep})
    c.conform("core", "TraceNodes", behaviours(ops, 50), "random statements and collections")


@check("C05")
def skolemize(c):
    edges = c.model("MC_Graph")
    c.conform("core", "TraceGraph", tours(edges_for(edges, ["skolemize"])), "every graph of the model")
    ops = graph_ops(c.random, ["new", "new", "insert", "insert", "set_name", "skolemize", "skolemize"],
                    200 if c.quick else 4000, 12, 3)
    c.conform("core", "TraceGraph", ops, "random graphs")
    rng, ops = c.random, []
    for _ in range(30 if c.quick else 600):
        ops.append({"op": "reset"})
        n = rng.choice([5, 8, 13, 30])
        pool = [with_blanks(rng, n) for _ in range(rng.randint(n, 3 * n))]
        ops.append({"op": "graph.new", "g": 0, "v": [rng.random() < 0.5, graph_name(rng), pool, mappings(rng)]})
        ops.append({"op": "graph.skolemize", "g": 0, "base": cps("http://b/"), "known": sorted({i for i in iris_in(pool) if ":" in i} | {"http://g/", "http://a/"})})
    c.conform("core", "TraceGraph", ops, "random graphs of up to thirty blank nodes")


def with_blanks(rng, n):
    """A statement of blank nodes that there are n of, with predicates that tell most of them from each other."""
    def node(depth):
        kind = rng.randrange(6 if depth else 4)
        if kind == 4:
            return ["s", [node(0), rng.choice(PREDICATES[:3]), node(depth - 1)]]
        if kind == 5:
            return ["c", [node(depth - 1) for _ in range(rng.randint(0, 4))]]
        return ["b", f"x{rng.randrange(n)}"] if kind else ["i", rng.choice(IRIS)]
    s = node(1)
    while s[0] == "c":
        s = node(1)
    return [s, f"http://p/{rng.randrange(4 * n)}" if s[0] != "s" else rng.choice(PREDICATES[:3]), node(2)]


VALUES = ["property", "value_of", "literal", "literal_str", "literal_typed_str", "literal_language_str",
          "literal_language_str_str", "predicate.property"]
CONTAINERS = ["alternatives", "bag", "sequence", "container"]
RDF = "http://www.w3.org/1999/02/22-rdf-syntax-ns#"
KINDS = ["http://k/", RDF + "Bag", RDF + "Alt", RDF + "Seq", RDF + "List", RDF + "Container", RDF, "http://k/a#B", "urn:k:1",
         "http://www.w3.org/2000/01/rdf-schema#Container"]


def a_resource(rng, depth=3):
    properties = []
    for _ in range(rng.randint(0, 4)):
        p = rng.choice(PREDICATES[:4])
        both = rng.choice(["", "predicate."])
        kind = rng.randrange(6 if depth else 4)
        if kind == 0:
            how = rng.choice(VALUES)
            value = literal(rng)
            if how == "literal_typed_str":
                value = ["l", value[1], rng.choice(TYPES), ""]
            elif how.startswith("literal_language"):
                value = ["l", value[1], "", rng.choice(LANGUAGES)]
            elif how == "literal_str":
                value = ["l", value[1], "", ""]
            properties.append([p, how, value])
        elif kind == 1:
            k = rng.choice(CONTAINERS)
            e = [p, both + "property_" + k, [literal(rng) for _ in range(rng.choice([0, 1, 2, 3, 12, 30]))]]
            properties.append(e + ([rng.choice(KINDS)] if k == "container" else []))
        elif kind == 2:
            properties.append([p, both + "resource_named", [["i", rng.choice(IRIS)], []]])
        elif kind == 3:
            how = rng.choice([both + "resource_blank_named", "instance_of"])
            node = ["i", rng.choice(IRIS)] if how == "instance_of" else ["b", rng.choice(LABELS)]
            properties.append([p, how, [node, []]])
        elif kind == 4:
            properties.append([p, both + "resource", a_resource(rng, depth - 1)])
        else:
            k = rng.choice(CONTAINERS)
            e = [p, both + "resource_" + k, [a_resource(rng, depth - 1) for _ in range(rng.randint(0, 3))]]
            properties.append(e + ([rng.choice(KINDS)] if k == "container" else []))
    return [subject(rng), properties]


@check("C06", "no property is written with rdf:type, or with rdf:_1 and the like, on the label of a container: those are generated")
def flatten(c):
    c.conform("core", "TraceResource", behaviours(ops_of(c.model("MC_Resource")), 20), "every resource of the model")
    rng = c.random
    ops = [{"op": "res.flatten", "r": a_resource(rng)} for _ in range(1500 if c.quick else 40000)]
    for n in range(4, 16 if c.quick else 40):
        # One in another, and many of one.
        deep = a_resource(rng, 0)
        for _ in range(n):
            deep = [subject(rng), a_resource(rng, 0)[1] + [[rng.choice(PREDICATES[:4]), rng.choice(["resource", "predicate.resource"]), deep]]]
        ops.append({"op": "res.flatten", "r": deep})
        ops.append({"op": "res.flatten", "r": [subject(rng), [e for _ in range(3 * n) for e in a_resource(rng, 0)[1]]]})
        many = [a_resource(rng, 0) for _ in range(n)]
        ops.append({"op": "res.flatten", "r": [subject(rng), [["http://p/", "resource_" + rng.choice(CONTAINERS[:3]), many]]]})
    c.conform("core", "TraceResource", behaviours(ops, 20), "random resources, nested to depth 3, and deep and large ones")


INTEGERS = {"long": (-2**63, 2**63 - 1), "int": (-2**31, 2**31 - 1), "short": (-2**15, 2**15 - 1), "byte": (-128, 127),
            "unsignedLong": (0, 2**64 - 1), "unsignedInt": (0, 2**32 - 1), "unsignedShort": (0, 2**16 - 1),
            "unsignedByte": (0, 255)}


def some_text(rng, most=8):
    alphabet = "abcXYZ019 ~\"\\\n\r\t\b\f\0\x1b\x7f\u0080\u009f\u00a0\u00e9\u2028\ufffd\U0001f600u0041'<>"
    return "".join(rng.choice(alphabet) for _ in range(rng.randint(0, most)))


def real(rng, digits):
    """A number that a float has exactly, as Rust prints it."""
    n = rng.randint(-2**digits, 2**digits)
    whole, part = divmod(abs(n), 8)
    t = str(whole) + (("." + str(part * 125).zfill(3)).rstrip("0") if part else "")
    return ("-" if n < 0 else "") + t


def seconds(rng, trim):
    t = "PT" + str(rng.choice([0, 1, 59, 3600, rng.randint(0, 10**9)]))
    n = rng.choice([0, 0, 1, 5 * 10**8, 10**6, 123456789, 999999999, 10**7 * rng.randint(1, 99)])
    if n:
        t += "." + (str(n).zfill(9).rstrip("0") if trim else str(n).zfill(9))
    # The shortest form of no time at all, as chrono prints it.
    return "P0D" if trim and t == "PT0" else t + "S"


def typed(rng, ty):
    if ty in INTEGERS:
        low, high = INTEGERS[ty]
        return str(rng.choice([low, high, 0, low + 1, high - 1, 1, rng.randint(low, high), rng.randint(low, high)]))
    if ty == "boolean":
        return rng.choice(["true", "false"])
    if ty == "double":
        return rng.choice(["INF", "-INF", "0", "-0", "0.1", "1", "9007199254740993".replace("3", "2"), real(rng, 40), real(rng, 10)])
    if ty == "float":
        return rng.choice(["INF", "-INF", "0", "-0", "0.1", "1", "16777216", real(rng, 20)])
    if ty == "decimal":
        n, k = rng.choice([rng.randint(-10**6, 10**6), rng.randint(-10**27, 10**27)]), rng.randint(0, 9)
        t = str(abs(n)).zfill(k + 1)
        t = t[:-k] + "." + t[-k:] if k else t
        return ("-" if n < 0 else "") + t
    if ty == "anyURI":
        return rng.choice(IRIS + ["http://e.org/a'x'?q=1#f", "urn:isbn:1", "foo:/a\\b".replace("\\", "/"), "http://h/#\"".replace('"', "")])
    if ty == "QName":
        return rng.choice(["a:b", ":x", "rdf:type", "a-b:c.d"])
    if ty == "Name":
        return rng.choice(["a", "b1", "x-y.z", "_n", "\u00e9\u00e9"])
    if ty == "language":
        return rng.choice(LANGUAGES + ["de-CH-1996"])
    if ty == "duration":
        return seconds(rng, False)
    if ty == "chrono":
        return seconds(rng, True)
    return some_text(rng)


ALL_TYPES = list(INTEGERS) + ["boolean", "double", "float", "decimal", "anyURI", "QName", "Name", "language", "string",
                              "duration", "chrono"]


@check("C07", "numbers are those that have one shortest decimal form, which is the one that Rust prints")
def literal_values(c):
    model = [o for o in ops_of(c.model("MC_Literal", None if c.quick else "MC_LiteralDeep.cfg")) if o["op"] != "lit.text"]
    c.conform("core", "TraceLiterals", behaviours(model, 50), "data types and binary data of the model")
    rng, ops = c.random, []
    for ty in ALL_TYPES:
        for _ in range(150 if c.quick else 4000):
            t = typed(rng, ty)
            other = t if rng.random() < 0.2 else typed(rng, ty)
            if ty == "decimal" and other != t and number(other) == number(t):
                continue
            if ty in ("double", "float") and other != t and float(other) == float(t):
                continue
            ops.append({"op": "lit.typed", "ty": ty, "t": cps(t), "other": cps(other)})
    for n in list(range(0, 40)) + [255, 256, 257, 1000]:
        for _ in range(4 if c.quick else 40):
            v = [rng.randrange(256) for _ in range(n)]
            ops += [{"op": "lit.bytes", "how": how, "v": v} for how in ("hex", "base64")]
    for b in range(256):
        ops += [{"op": "lit.bytes", "how": how, "v": [b]} for how in ("hex", "base64")]
    for _ in range(1500 if c.quick else 30000):
        dt = rng.choice([XSD + "hexBinary", XSD + "base64Binary", XSD + "string", "http://t/"])
        alphabet = rng.choice(["0189afAF", "0189afAFg+ -", "ABZabz019+/", "AQgw=", "AB=-_ \n"])
        t = "".join(rng.choice(alphabet) for _ in range(rng.randint(0, 9)))
        ops.append({"op": "lit.decode", "t": cps(t), "dt": cps(dt)})
    for _ in range(500):
        ok = rng.random() < 0.7
        t = rng.choice(IRIS) if ok else rng.choice(["", "a", "/a", "//b", "#c", "a b", "1:", "http://a b/"])
        dt = rng.choice([XSD + "anyURI", XSD + "anyURI", XSD + "string", ""])
        ops.append({"op": "lit.to_iri", "l": ["l", cps(t), cps(dt), []], "ok": ok})
    c.conform("core", "TraceLiterals", behaviours(ops, 50), "values of every type, and other texts")


def number(t):
    from decimal import Decimal
    return Decimal(t)


@check("C08", "data types and languages are given as such, never as part of the text")
def literal_text(c):
    model = [o for o in ops_of(c.model("MC_Literal", None if c.quick else "MC_LiteralDeep.cfg")) if o["op"] == "lit.text"]
    c.conform("core", "TraceLiterals", behaviours(model, 50), "every text of the model")
    rng, ops = c.random, []
    hows = ["plain", "string", "str", "language", "type", "type_iri"]
    # Every code point that has an escape of its own or is next to one that has, and a sample of the others.
    points = list(range(0, 0x180)) + [0x2028, 0x2029, 0x200B, 0xFEFF, 0xFFFD, 0xD7FF, 0xE000, 0x10000, 0x10FFFF]
    points += [p for p in (rng.randrange(0x180, 0x110000) for _ in range(500 if c.quick else 20000)) if not 0xD800 <= p < 0xE000]
    for i, p in enumerate(points):
        ops.append({"op": "lit.text", "t": [97, p, 98], "how": hows[i % 6], "dt": cps("http://t/")})
    for _ in range(3000 if c.quick else 60000):
        how = rng.choice(hows)
        ops.append({"op": "lit.text", "t": cps(some_text(rng, rng.choice([3, 8, 60] * 30 + [2000]))), "how": how,
                    "dt": cps("http://t/u" if how == "type" else rng.choice(TYPES + [XSD + "integer", XSD + "double", XSD + "decimal"]))})
    c.conform("core", "TraceLiterals", behaviours(ops, 50), "texts")


def in_cps(v):
    """A node with its texts as code points; its tag is kept."""
    if v[0] == "s":
        return ["s", [in_cps(v[1][0]), cps(v[1][1]), in_cps(v[1][2])]]
    if v[0] == "c":
        return ["c", [in_cps(x) for x in v[1]]]
    return [v[0]] + [cps(x) for x in v[1:]]


def longer(v, what="b"):
    """The same with long texts that have their beginnings in common."""
    if isinstance(v, str):
        return {"b": "all_of_this_is_in_both_of_these_labels_of_which_one_ends_with_another_letter_" + v, "l": LONG + v,
                "i": v + "/all/of/this/is/in/both/of/these/texts"}[what]
    if v[0] == "s":
        return ["s", longer(v[1])]
    if v[0] == "c":
        return ["c", [longer(x) for x in v[1]]]
    if isinstance(v[0], str):
        return [v[0], longer(v[1], v[0])] + v[2:]
    return [longer(v[0]), v[1], longer(v[2])]


def close(rng, make):
    """Values of which some are equal and some nearly so."""
    vs = [make() for _ in range(rng.randint(2, 6))]
    if rng.random() < 0.2:
        vs = [longer(v) for v in vs]
    return [rng.choice(vs) for _ in range(rng.randint(2, 9))]


@check("C09", "the order of the data types themselves is left open")
def ordering(c):
    model = [o for o in ops_of(c.model("MC_Nodes")) if o["op"].startswith("node.cmp_")]
    if c.quick:
        model = c.random.sample(model, 9000)
    c.conform("core", "TraceNodes", behaviours(model, 50), "triples of nodes of the model")
    rng, ops = c.random, []
    for _ in range(500 if c.quick else 8000):
        ops.append({"op": "node.cmp_object", "v": [in_cps(v) for v in close(rng, lambda: an_object(rng, 3))]})
        ops.append({"op": "node.cmp_subject", "v": [in_cps(v) for v in close(rng, lambda: subject(rng, 3))]})
        ops.append({"op": "node.cmp_literal", "v": [in_cps(v) for v in close(rng, lambda: literal(rng))]})
        ops.append({"op": "node.cmp_statement", "v": [in_cps(["s", v])[1] for v in close(rng, lambda: statement(rng, 3))]})
        ops.append({"op": "node.sort", "v": [in_cps(an_object(rng, 2)) for _ in range(rng.randint(0, 20))]})
    c.conform("core", "TraceNodes", behaviours(ops, 40), "random nodes")


@check("C10", "labels are told apart by comparing every one that a run of the check has made")
def blank_nodes(c):
    names = [o["t"] for o in ops_of(c.model("MC_Names")) if o["op"] == "name.name"]
    rng = c.random
    ops = [{"op": "node.blank", "t": p + t} for t in names for p in ([], cps("_:"))]
    ops += [{"op": "node.blank", "t": cps(t)} for t in ["_:_:a", ":a", "_:", "_", "__:a", "_:a:b", "_::", "B1", "_:B1"]]
    if c.quick:
        ops = rng.sample(ops, 8000)
    valid = ["a", "b", "ab", "a.b", "_a", "0", "\u00e9", "_:a", "_:b", "_:ab", "_:0"] + ["a" * n + x for n in (20, 70, 300) for x in "ab"]
    ops += [{"op": "node.blank", "t": cps("a" * n + x)} for n in (20, 70, 300) for x in "ab:."]
    ops += [{"op": "node.blank_eq", "a": cps(a), "b": cps(b)} for a in valid for b in valid]
    c.conform("core", "TraceNodes", behaviours(ops, 50), "labels")
    ops = [{"op": "reset"}] + [{"op": "node.generate", "n": 2000 if c.quick else 10000, "threads": t}
                               for t in [1, 2, 8, 8, 8, 16] * (1 if c.quick else 10)]
    c.conform("core", "TraceNodes", ops, "generated labels, from up to 16 threads")
    c.conform("core", "TraceNodes", [{"op": "reset"}, {"op": "node.collide"}], "a graph that uses a label that is generated later")


@check("C11")
def nodes(c):
    model = [o for o in ops_of(c.model("MC_Nodes")) if not o["op"].startswith("node.cmp_")]
    c.conform("core", "TraceNodes", behaviours(model, 50), "every node of the model")
    rng, ops = c.random, []
    for _ in range(1000 if c.quick else 15000):
        n = in_cps(an_object(rng, 3) if rng.random() < 0.97 else deep_object(rng, rng.randint(4, 9)))
        ops.append({"op": "node.display", "n": n})
        ops.append({"op": "node.display_statement", "s": in_cps(["s", statement(rng, 3)])[1]})
        ops.append({"op": "node.variants", "n": n, "other": in_cps(an_object(rng, 2)), "p": cps(rng.choice(IRIS)),
                    "q": cps(rng.choice(IRIS))})
        ops.append({"op": "node.collection", "c": ["c", [in_cps(an_object(rng, 2)) for _ in range(rng.randint(0, 5))]]})
        ops.append({"op": "node.ways", "n": n})
        ops.append({"op": "node.equal", "a": n, "b": rng.choice([n, in_cps(an_object(rng, 2))])})
        ops.append({"op": "node.rdf_type", "n": in_cps(subject(rng, 2)), "p": cps(rng.choice(IRIS))})
    c.conform("core", "TraceNodes", behaviours(ops, 50), "random nodes")
