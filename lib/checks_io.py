"""Reading and writing N-Triples, N-Quads, JSON, XML, Turtle and DOT (rdftk_io)."""
import itertools
import re

from checks import check, ops_of
from checks_core import RDF, XSD
from engine import behaviours, cps, uncps

OPTIONS = {
    "nt": [{}, {"force": True}],
    "nq": [{}],
    "json": [{"pretty": p, "set": s} for p in (False, True) for s in (False, True)],
    "xml": [{"striped": s, "pretty": p} for s in (False, True) for p in (False, True)] + [{"encoding": "UTF-8"}],
    "turtle": [{"nest": n, "sparql": n == s, "intellij": i, "padding": i != s, "type_line": n != i, "set": s}
               for n in (False, True) for s in (False, True) for i in (False, True)]
              + [{"nest": True}, {"nest": True, "indent": 1}, {"nest": False, "indent": 8, "set": True},
                 {"nest": True, "base": "http://m/"}, {"nest": False, "set": True, "base": "http://b/x#", "to_base": "http://m/"},
                 {"sparql": True, "base": RDF}, {"intellij": True, "nest": True, "base": "http://a/", "to_base": "http://q/"}],
    "dot": [{}] + [{"set": s, "labels": s == b, "blank": "x", "iri": "y", "literal": "z", **({"prefix": "n_"} if b else {})}
                   for s in (False, True) for b in (False, True)]
           + [{"labels": True}, {"iri": "z", "set": True}, {"literal": "x"}, {"blank": "z", "prefix": "n_"}],
}
VOCABULARY = [RDF + n for n in ("type", "Statement", "subject", "predicate", "object", "List", "first", "rest", "nil")]
WORDS = [XSD + "string", XSD + "boolean", ""]


def strings_in(v):
    if isinstance(v, str):
        return {v}
    if isinstance(v, (list, tuple)):
        return set().union(*map(strings_in, v)) if v else set()
    if isinstance(v, dict):
        return strings_in(list(v.values()))
    return set()


def dictionary(vs):
    """Every text of the graphs; a language is also found by its lower case."""
    pairs = {}
    for s in sorted(strings_in(vs) | set(VOCABULARY) | set(WORDS)):
        pairs.setdefault(tuple(cps(s)), s)
    for s in sorted(strings_in(vs)):
        if s in LANGUAGES:
            pairs.setdefault(tuple(cps(s.lower())), s)
    return [[list(k), v] for k, v in pairs.items()]


def written(fmt, options, vs, op="io.write"):
    texts = [vs]
    if "base" in options:
        base, moved = options["base"], options.get("to_base", options["base"])
        texts += [base, moved] + [base + s[len(moved):] for s in strings_in(vs) if s.startswith(moved)]
    return {"op": op, "fmt": fmt, "with": options, "vs": vs, "dict": dictionary(texts)}


LANGUAGES = ["en", "en-GB", "fr", "de-DE", "zh-Hant-TW", "sl-rozaj-biske", "de-CH-1996", "en-x-lang", "es-419", "en-a-bbb-x-a-ccc", "x-a",
             "zh-yue-HK", "abcd", "de-1901-a-b2-u-co-phonebk"]

# What graphs are made of.  A predicate is not a term that describes collections or nested statements:
# what these say is told from their descriptions.
IRIS = ["http://a/", "http://b/x#y", "urn:c", "http://a/d?e=f&g", "http://p/", "http://m/n.m", "http://m/n.", "http://m/%C3%A9",
        "http://m/a/b", "http://m/a:b", "http://b/x#", "http://b/x#1a", "http://m/a-b", "http://m/A-b", "http://m/N/x", "http://m/-a", RDF + "nil1", "http://m/" + 90 * "l", "http://a/" + 270 * "m"]
LEXICAL = ["", "x", "X", "1", "01", "-1.5", "true", "a\"b", "a\\b", "\n", "\r", "\t", "a \n b", "caf\u00e9", "\\u0041", "\U0001f600",
           "'", "\"\"\"", "a\\", "<a & b>", "]]>", " ", " a ", "\u007f", "\u0085", "\u2028", "http://a/", 70 * "text ", 300 * "l"]
CONTROLS = ["\u0001", "\u0008\u000c", "\u001f", "\u009f"]
NO_XML = ["\u0000", "\ufffe", "a\uffff"]
TYPES = [XSD + n for n in ("string", "long", "anyURI", "boolean", "decimal", "double", "integer", "dateTime")] \
    + ["http://t/u", "http://t/U", "http://b/x#t", RDF + "XMLLiteral", RDF + "langString1"]
PREDICATES = ["http://q/x", "http://q/X", "http://p/a#b", "urn:c:d", "http://q/x.y", "http://q/?a&b=c", "http://q/%C3%A9", "http://m/x-1", RDF + "type", RDF + "value",
              RDF + "_1", "http://xmlns.com/foaf/0.1/name", "http://purl.org/dc/elements/1.1/title",
              "http://www.w3.org/2000/01/rdf-schema#label", "http://www.w3.org/2002/07/owl#sameAs",
              "http://www.w3.org/2003/01/geo/wgs84_pos#lat", "http://q/" + 30 * "l", "http://q/" + 90 * "m", "http://q/" + 280 * "n"]
NAMES_OF_RDF = ["http://q/" + n for n in ("Description", "RDF", "li", "about", "resource", "parseType", "lang")]
NOT_XML = ["http://p/", "http://q/x#", "http://q/1", "http://q/x/"]
MAPPINGS = [["m:", "http://m/"], [":", "http://p/"], ["n:", "http://b/x#"], ["rdf:", RDF], ["x:", XSD], ["foaf:", "http://xmlns.com/foaf/0.1/"],
            ["q.r:", "http://q/"], ["M:", "http://m/N/"]]
NAMES = [["none"], ["none"], ["b", "n"], ["b", "g"], ["i", "http://g/"], ["i", "http://a/"]]


class Terms:
    """What the graphs that a syntax can say are made of."""

    def __init__(self, rng, fmt, depth=2):
        self.rng, self.depth = rng, depth
        self.labels = ["n", "N", "m", "b1", "g", "a.b", "a-b", "_u", "Bx", "\u00e9", 80 * "l", 280 * "m"] + ([] if fmt == "xml" else ["0", "0.x"])
        # Some of the graphs are more than XML can say.
        rare = fmt == "xml" and rng.random() < 0.9
        self.lexical = LEXICAL + CONTROLS + ([] if rare else NO_XML)
        self.predicates = PREDICATES + ([] if rare else NOT_XML)
        self.types = TYPES

    def literal(self):
        kind = self.rng.randrange(3)
        return ["l", self.rng.choice(self.lexical), self.rng.choice(self.types) if kind == 1 else "",
                self.rng.choice(LANGUAGES) if kind == 2 else ""]

    def node(self, labels):
        return ["b", self.rng.choice(labels)] if self.rng.random() < 0.5 else ["i", self.rng.choice(IRIS)]

    def object(self, labels, depth):
        if depth and self.rng.random() < 0.3:
            if self.rng.random() < 0.5:
                return ["s", self.statement(labels, depth - 1)]
            return ["c", [self.object(labels, depth - 1) for _ in range(self.rng.randint(0, 3))]]
        return self.literal() if self.rng.random() < 0.4 else self.node(labels)

    def statement(self, labels, depth):
        nested = depth and self.rng.random() < 0.3
        s = ["s", self.statement(labels, depth - 1)] if nested else self.node(labels)
        # What a node that stands for a nested statement says itself is told from what is said of it.
        plain = [p for p in self.predicates if not p.startswith(RDF)]
        return [s, self.rng.choice(plain if nested else self.predicates), self.object(labels, depth)]

    def graph(self, most=6, name=None):
        rng = self.rng
        # Blank nodes that lose their labels are matched by trying: only a few different ones.
        labels = rng.sample(self.labels, 3)
        depth = rng.choice([0, 0, 1, self.depth]) if self.depth else 0
        pool = [self.statement(labels, depth) for _ in range(rng.randint(1, 4))]
        sts = [rng.choice(pool) if rng.random() < 0.3 else self.statement(labels, depth) for _ in range(rng.randint(0, most))]
        prefixes = rng.sample(MAPPINGS, rng.randint(0, 3))
        return [rng.random() < 0.5, name or rng.choice(NAMES), sts, prefixes]


def key(x):
    return (x[0], x[1] if isinstance(x[1], str) else "")


def alike(sts):
    """The same for graphs that differ in the labels a, b and c only."""
    forms = []
    for names in itertools.permutations("abc"):
        name = dict(zip("abc", names))
        forms.append(sorted((s[0], name.get(s[1], s[1]), p, o[0], name.get(o[1], o[1])) for s, p, o in sts))
    return repr(min(forms))


def model_graphs(c):
    """The graphs of MC_Io: of statements of all kinds, and of edges between blank nodes."""
    wide, shapes, seen = [], [], set()
    for o in ops_of(c.model("MC_Io", "MC_Io.cfg" if c.quick else "MC_IoDeep.cfg")):
        form = alike(o["sts"]) if o["of"] != "wide" else repr(o["sts"])
        if (o["of"], form) in seen:
            continue
        seen.add((o["of"], form))
        (wide if o["of"] == "wide" else shapes).append(o["sts"])
    return wide, shapes


# Both sides of the boundaries of the classes of characters in the syntaxes.
CHARACTERS = list(range(0, 384)) + [0x37d, 0x37e, 0x37f, 0x1fff, 0x200b, 0x200c, 0x200d, 0x203f, 0x2040, 0x206f, 0x2070, 0x2028, 0x2029, 0x218f, 0x2190,
                                    0x2c00, 0x3000, 0x3001, 0xd7ff, 0xe000, 0xf900, 0xfdcf, 0xfdd0, 0xfdf0, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1f600,
                                    0xeffff, 0xf0000, 0x10ffff]
IN_IRI = "!$&'()*+,-.:;=@_~%/aZ09"
LABEL_CHARACTERS = [0x30, 0x2d, 0x5f, 0xb7, 0xc0, 0xd6, 0xd8, 0xf6, 0xf8, 0x2ff, 0x300, 0x36f, 0x370, 0x37d, 0x37f, 0x1fff, 0x200c, 0x200d, 0x203f, 0x2040,
                    0x2070, 0x218f, 0x2c00, 0x2fef, 0x3001, 0xd7ff, 0xf900, 0xfdcf, 0xfdf0, 0xfffd, 0x10000, 0xeffff]


def character_graphs(fmt):
    """Every character in every place of a graph where it may be."""
    graphs = []

    def graph(sts, mappings=()):
        graphs.append([False, ["none"], sts, list(mappings)])

    chars = [chr(c) for c in CHARACTERS]
    if fmt == "xml":
        for c in "\u0000\ufffe\uffff":
            chars.remove(c)
            graph([[["i", "http://a/"], "http://q/x", ["l", "a" + c, "", ""]]])
    for i in range(0, len(chars), 8):
        part = chars[i:i + 8]
        graph([[["i", "http://a/"], "http://q/x", ["l", c, "", ""]] for c in part])
        graph([[["b", "n"], "http://q/x", ["l", "a" + c + "b" + c, "", "en"]] for c in part])
        graph([[["i", "http://a/"], "http://q/x", ["l", c + c + "\"", XSD + "string", ""]] for c in part])
    for c in IN_IRI:
        for text in (c, "a" + c, c + "a", "a" + c + "b"):
            if text.strip("./%") != text or text[0] == "/" or "%" in text and len(text) < 3 or text == "a%b":
                continue
            iris = ["http://m/" + text, "http://m/#" + text] + (["http://m/?q=" + text] if c != "'" else [])
            graph([[["i", i], "http://m/x", ["i", i]] for i in iris], [["m:", "http://m/"], ["h:", "http://m/#"]])
            graph([[["i", "http://a/"], i, ["l", "x", i, ""]] for i in iris if fmt != "xml" or text[-1] in "aZb"],
                  [["m:", "http://m/"]])
    for i in range(0, len(LABEL_CHARACTERS), 3):
        labels = ["a" + chr(c) for c in LABEL_CHARACTERS[i:i + 3]]
        graph([[["b", x], "http://q/x", ["b", y]] for x in labels for y in labels])
    return graphs


def with_names(rng, graphs, prefixed=True):
    """Graphs of statements: unique or not, with names and mappings."""
    return [[rng.random() < 0.5, rng.choice(NAMES), sts, rng.sample(MAPPINGS, rng.randint(0, 3)) if prefixed else []] for sts in graphs]


def writing(c, fmt, op="io.write", only=None, shapes_with=None, share=700, count=250):
    """The graphs of the model, every character and random graphs, written in all the ways that there are."""
    rng = c.random
    options = [o for o in OPTIONS[fmt] if only is None or only(o)]
    turn = itertools.cycle(options)
    wide, shapes = model_graphs(c)
    if c.quick:
        wide = rng.sample(wide, min(share, len(wide)))
    ops = []

    def groups(graphs, n):
        return [graphs[i:i + n] for i in range(0, len(graphs), n)]

    for vs in groups(with_names(rng, wide), 2):
        for o in [next(turn)] if c.quick else options:
            ops.append(written(fmt, o, vs, op))
    nesting = itertools.cycle(shapes_with or options)
    for vs in groups(with_names(rng, shapes, prefixed=False), 2):
        for o in [next(nesting)] if c.quick else options:
            ops.append(written(fmt, o, vs, op))
    c.conform("io", "TraceIo", behaviours(ops, 1), f"{fmt}: graphs of the model")
    ops = [written(fmt, o, vs, op) for vs in groups(character_graphs(fmt), 2) for o in ([next(turn)] if c.quick else options)]
    c.conform("io", "TraceIo", behaviours(ops, 1), f"{fmt}: every character")
    ops = []
    for _ in range(count if c.quick else 10 * count):
        terms = Terms(rng, fmt, 2 if c.quick else 3)
        ops.append(written(fmt, next(turn), [terms.graph(4 if op == "io.draw" else 6) for _ in range(rng.randint(1, 3))], op))
    c.conform("io", "TraceIo", behaviours(ops, 1), f"{fmt}: random graphs")
    # Graphs whose documents are larger than any buffer.
    ops = []
    for _ in range(12 if c.quick else 120):
        ops.append(written(fmt, next(turn), [large_graph(rng, fmt) for _ in range(rng.randint(1, 2))], op))
    c.conform("io", "TraceIo", behaviours(ops, 1), f"{fmt}: large graphs")


def large_graph(rng, fmt):
    """Many statements about a few dozen nodes, or nodes in each other or after each other, many times."""
    terms = Terms(rng, fmt, 0)
    g = terms.graph(0)
    labels = rng.sample(terms.labels, 3)
    kind = rng.randrange(4)
    if kind < 2:
        nodes = [["i", f"http://h/n{i}"] for i in range(30)] + [["b", x] for x in labels]
        for _ in range(rng.randint(80, 120) if fmt != "dot" else rng.randint(40, 60)):
            s, p, o = terms.statement(labels, 0)
            g[2].append([rng.choice(nodes), p, rng.choice(nodes) if rng.random() < 0.4 else o])
        g[3] += [[f"p{i}:", f"http://h/{i}/"] for i in range(30)]
    elif kind == 2:
        # Statements and collections, each in the one before.
        plain = [p for p in terms.predicates if not p.startswith(RDF)]
        for _ in range(2 if fmt != "dot" else 1):
            n = terms.object(labels, 0)
            for _ in range(rng.randint(5, 9) if fmt != "dot" else 4):
                few = [terms.object(labels, 0) for _ in range(rng.choice([0, 1, 2]))]
                n = rng.choice([["s", [terms.node(labels), rng.choice(plain), n]], ["c", few + [n] + few]])
            g[2].append([terms.node(labels), rng.choice(plain), n])
        g[2].append([terms.node(labels), rng.choice(plain), ["c", [terms.object(labels, 0) for _ in range(7 if fmt == "dot" else 30)]]])
        g[2].append([terms.node(labels), rng.choice(plain), ["l", "".join(rng.choice(terms.lexical[:20]) for _ in range(100)), "", ""]])
    else:
        # Blank nodes after each other, and a few more that are the objects of each of them.
        chain = [["b", f"c{i}"] for i in range(rng.randint(6, 14 if fmt != "dot" else 8))]
        for i, n in enumerate(chain[1:]):
            g[2].append([chain[i], f"http://q/x{i}", n])
            g[2] += [[n, rng.choice(terms.predicates[:9]), terms.object([labels[0]], 0)] for _ in range(rng.choice([0, 1, 2]))]
        if rng.random() < 0.3:
            g[2].append([chain[-1], "http://q/again", rng.choice(chain)])
        rng.shuffle(g[2])
    return g


def reading(c, fmt, model, deep, share):
    """The documents of a model."""
    ops = ops_of(c.model(model, model + ".cfg" if c.quick else deep))
    known = next(o["known"] for o in ops if o["op"] == "known")
    ops = [dict(o, known=known) for o in ops if o["op"] == "io.read"]
    if fmt:
        ops = [o for o in ops if o["fmt"] == fmt]
    if c.quick and len(ops) > share:
        ops = c.random.sample(ops, share)
    if model == "MC_Xml":
        # The same with other prefixes, of which one is the usual one of another namespace.
        for o in ops if not c.quick else c.random.sample(ops, len(ops) // 4):
            other = re.sub(r"\brdf([:=])", r"rdf-\1", uncps(o["t"]))
            ops.append(dict(o, t=cps(re.sub(r"\be([:=])", r"rdf\1", other).replace("rdf-", "r"))))
    c.conform("io", "TraceIo", behaviours(ops, 1), f"documents of {model}")
    return ops


def mutated(rng, text, alphabet):
    text = list(text)
    for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
        i = rng.randrange(len(text) + 1)
        kind = rng.randrange(4)
        if kind == 0:
            text[i:i + 1] = []
        elif kind == 1:
            text[i:i] = [rng.choice(alphabet)]
        elif kind == 2:
            text[i:i + 1] = [rng.choice(alphabet)]
        else:
            k = min(len(text), i + rng.randint(1, 6))
            text[i:i] = text[i:k]
    return text


def line_document(rng, fmt, spoil=0.5, least=0, most=5):
    """Statements that are put together from terms, with escapes and gaps of all kinds, perhaps spoilt."""
    def escaped(c):
        return rng.choice([f"\\u{ord(c):04X}" if ord(c) < 0x10000 else f"\\U{ord(c):08x}", f"\\U{ord(c):08X}"])

    def iri(i):
        return "<" + "".join(escaped(c) if rng.random() < 0.05 else c for c in i) + ">"

    def blank():
        return "_:" + rng.choice(["n", "m", "0", "a.b", "b1", "_u", "a-b", "\u00e9"])

    def literal():
        special = {"\t": "\\t", "\b": "\\b", "\n": "\\n", "\r": "\\r", "\f": "\\f", '"': '\\"', "\\": "\\\\"}
        text = "".join(
            special.get(c) or escaped(c) if c in special or rng.random() < 0.1 else c for c in rng.choice(LEXICAL + CONTROLS))
        kind = rng.randrange(3)
        return f'"{text}"' + ("" if kind == 0 else "@" + rng.choice(LANGUAGES + ["EN"]) if kind == 1 else "^^" + iri(rng.choice(TYPES)))

    def gap():
        return rng.choice([" ", " ", " ", "  ", "\t", "", "\n", " # c . \n"]) if wild else " "

    wild = rng.random() < 0.3
    lines = []
    for _ in range(rng.randint(least, most)):
        o = rng.choice([blank, literal, literal, lambda: iri(rng.choice(IRIS))])()
        terms = [rng.choice([blank, lambda: iri(rng.choice(IRIS))])(), iri(rng.choice(PREDICATES)), o]
        if fmt == "nq" and rng.random() < 0.6:
            terms.append(rng.choice([blank, lambda: iri(rng.choice(IRIS))])())
        lines.append("".join(t + gap() for t in terms) + "." + rng.choice(["", "", " ", " # x", "#"]))
        if rng.random() < 0.2:
            lines.append(rng.choice(["", "# comment", " \t", "#"]))
    text = rng.choice(["\n", "\n", "\r\n", "\r"]).join(lines) + rng.choice(["", "\n"])
    return cps(mutated(rng, text, "<>_:.\"\\@^ab0 \n#\tu-") if rng.random() < spoil else text)


def json_document(rng, graphs, spoil=0.5):
    """RDF/JSON of statements, with escapes, white space and members in any order, perhaps spoilt."""
    def string(s):
        special = {'"': '\\"', "\\": "\\\\"}
        out = ""
        for c in s:
            if c in special or c < " ":
                out += special.get(c) or f"\\u{ord(c):04x}"
            elif rng.random() < 0.05:
                out += "".join(f"\\u{u:04X}" for u in [int.from_bytes(c.encode("utf-16-be")[i:i + 2], "big") for i in range(0, len(c.encode("utf-16-be")), 2)])
            else:
                out += c
        return f'"{out}"'

    def white():
        return rng.choice(["", "", "", " ", "\n  ", "\t"])

    def members(ms, brackets="{}"):
        return brackets[0] + white() + ("," + white()).join(ms) + white() + brackets[1]

    def node(n):
        if n[0] == "l":
            ms = [("type", "literal"), ("value", n[1])] + ([("datatype", n[2])] if n[2] else []) + ([("lang", n[3])] if n[3] else [])
        else:
            ms = [("type", "uri"), ("value", n[1])] if n[0] == "i" else [("type", "bnode"), ("value", "_:" + n[1])]
        rng.shuffle(ms)
        return members([string(k) + white() + ":" + white() + string(v) for k, v in ms])

    tree = {}
    for s, p, o in graphs:
        tree.setdefault(("_:" if s[0] == "b" else "") + s[1], {}).setdefault(p, []).append(node(o))
    text = members([string(s) + white() + ":" + white() + members(
        [string(p) + ":" + white() + members(os, "[]") for p, os in ps.items()]) for s, ps in tree.items()])
    return cps(mutated(rng, text, "{}[]:,\"\\ub0 \n") if rng.random() < spoil else text)


def xml_document(rng, spoil=0.4, large=0):
    """RDF/XML of node and property elements of all kinds, with prefixes and languages in scope here and there, perhaps spoilt."""
    names = [p for p in PREDICATES if re.search(r"[A-Za-z_][-.\w]*$", p)] + [RDF + "_1", RDF + "value"]
    # Names that mean something in the namespace of RDF only.
    names += NAMES_OF_RDF
    labels = ["n", "m", "a.b", "a-b", "_u", "\u00e9"]
    lexical = [t for t in LEXICAL + ["  ", "a&b;", "<![CDATA[", "-->"] if not set(t) & set("\u0085\u2028\u007f")]

    def quoted(value):
        q = rng.choice("'\"")
        special = {"<": "&lt;", "&": "&amp;", q: "&quot;" if q == '"' else "&apos;", "\n": "&#10;", "\r": "&#xD;", "\t": "&#x9;", ">": rng.choice([">", "&gt;"])}
        return rng.choice(["=", "=", " = "]) + q + "".join(
            special.get(c) or (rng.choice([f"&#{ord(c)};", f"&#x{ord(c):X};"]) if rng.random() < 0.03 else c) for c in value) + q

    def text(value):
        out = ""
        for c in value:
            kind = rng.random()
            out += {"<": "&lt;", "&": "&amp;", "\r": "&#xd;"}.get(c) or ("&gt;" if c == ">" else f"&#{ord(c)};" if kind < 0.03 else c)
            out += rng.choice(["<!--x-->", "<?x y?>", "<![CDATA[]]>"]) if rng.random() < (0.1 if len(value) < 9 else 0.02) else ""
        return f"<![CDATA[{value}]]>" if not re.search("]]>|\r", value) and rng.random() < 0.1 else out

    def gap():
        return rng.choice(["", "", "", " ", "\n  ", "<!-- x -->"])

    class Scope:
        """What prefixes are bound to, by the element itself and outside of it."""

        def __init__(self, outer=None):
            self.bound, self.own = dict(outer.bound) if outer else {}, []

        def name(self, iri, attribute=False):
            at = [i for i in range(1, len(iri)) if re.fullmatch(r"[A-Za-z_][-.\w]*", iri[i:])]
            split = rng.choice(at) if rng.random() < 0.3 else at[0]
            if iri.startswith(RDF):
                split = len(RDF)
            space, local = iri[:split], iri[split:]
            ready = [p for p, n in self.bound.items() if n == space and (p or not attribute)]
            if ready and rng.random() < 0.8:
                return (rng.choice(ready) + ":").lstrip(":") + local
            used = [p for p, _ in self.own]
            prefix = "rdf" if rng.random() < 0.15 and "rdf" not in used + self.names else rng.choice([p for p in ["a", "b", "c", "d", "", "rdf2", "rdf", "rdfs", "foaf", "x.y", "_z", "n1", "n2", "n3", "n4", "n5"]
                                 if p not in used + self.names and (p or not attribute)])
            self.bound[prefix] = space
            self.own.append((prefix, space))
            return (prefix + ":").lstrip(":") + local

    def element(scope, iri, attributes, content):
        """attributes are pairs of an IRI and a value, or of a name in the namespace of XML; content is a function of the scope."""
        scope = Scope(scope)
        scope.names = []
        # Names that are made with a prefix must not be bound anew by the next one.
        name = scope.name(iri)
        scope.names.append(name.split(":")[0] if ":" in name else "")
        parts = []
        for k, v in attributes:
            n = k if k.startswith("xml:") else scope.name(k, True)
            scope.names.append(n.split(":")[0])
            parts.append(n + quoted(v))
        parts += ["xmlns" + (":" + p if p else "") + quoted(n) for p, n in scope.own]
        rng.shuffle(parts)
        inner = content(scope) if content else ""
        start = "<" + name + "".join(rng.choice([" ", " ", "\n "]) + x for x in parts)
        return start + "/>" if inner == "" and rng.random() < 0.7 else start + rng.choice(["", " "]) + ">" + inner + f"</{name}>"

    def language():
        base = [("xml:base", rng.choice(["http://b/", "http://b/x#", "http://a/d?e=f&g", "urn:c"]))] if rng.random() < 0.08 else []
        return base + ([("xml:lang", rng.choice(LANGUAGES + ["EN", ""]))] if rng.random() < 0.2 else [])

    def properties(most=2):
        chosen = rng.sample(sorted(set(names) - {RDF + "type"}), rng.randint(1, most)) if rng.random() < 0.25 else []
        return [(n, rng.choice(lexical)) for n in chosen] + ([(RDF + "type", rng.choice(IRIS))] if rng.random() < 0.1 else [])

    def node(scope, depth):
        iri = rng.choice([RDF + "Description"] * 8 + types)
        who = rng.choice([[(RDF + "about", rng.choice(IRIS))], [(RDF + "nodeID", rng.choice(labels))], [],
                          [("xml:base", "http://b/"), (RDF + "ID", "x")] if rng.random() < 0.5 else [],
                          [(RDF + "ID", "x-1")] if rng.random() < 0.2 else []][:2 if large else None])
        return element(scope, iri, list(dict(language() + who + properties()).items()),
                       lambda inner: "".join(gap() + prop(inner, depth) for _ in range(rng.choice([0, 1, 1, 2, 3]))) + gap())

    def prop(scope, depth):
        iri = rng.choice(names + [RDF + "li"] * 2)
        # Nodes without a label are matched by trying: there are none of them in large documents.
        kind = rng.choice([0, 1, 2, 3, 7, 8, 9] if depth else [0, 1, 2, 3]) if large else rng.randrange(10 if depth else 4)
        if kind == 0:
            return element(scope, iri, language(), lambda _: text(rng.choice(lexical)))
        if kind == 1:
            return element(scope, iri, language() + [(RDF + "datatype", rng.choice(TYPES))], lambda _: text(rng.choice(lexical)))
        if kind == 2:
            return element(scope, iri, [(RDF + "resource", rng.choice(IRIS))] + language() + properties(1), None)
        if kind == 3:
            return element(scope, iri, [(RDF + "nodeID", rng.choice(labels))] + language() + properties(1), None)
        if kind == 4:
            return element(scope, iri, language() + properties(), None)
        if kind == 5:
            return element(scope, iri, [(RDF + "parseType", "Resource")] + language(),
                           lambda inner: "".join(gap() + prop(inner, depth - 1) for _ in range(rng.choice([0, 1, 2]))) + gap())
        if kind == 6:
            return element(scope, iri, [(RDF + "parseType", "Collection")] + language(),
                           lambda inner: "".join(gap() + node(inner, depth - 1) for _ in range(rng.choice([0, 1, 2]))) + gap())
        if kind == 7:
            return element(scope, iri, [(RDF + "parseType", "Literal")] + language(), lambda inner: fragment(inner, 3))
        return element(scope, iri, language(), lambda inner: gap() + node(inner, depth - 1) + gap())

    def fragment(scope, depth):
        """Any XML."""
        return "".join(inside(scope, depth) if depth and rng.random() < 0.6 else text(rng.choice(lexical)) for _ in range(rng.choice([0, 1, 2, 3])))

    def inside(scope, depth):
        attributes = properties() + ([("xml:space", "preserve")] if rng.random() < 0.1 else [])
        if rng.random() < 0.6:
            return element(scope, rng.choice(names), attributes, lambda inner: fragment(inner, depth - 1))
        # A name without a namespace.
        inner = Scope(scope)
        name, own = rng.choice(["y", "z-1", "rdf"]), ""
        if inner.bound.get("") or rng.random() < 0.1:
            inner.bound[""], own = "", " xmlns=''"
        own += " q=" + "'x'" if rng.random() < 0.3 else ""
        return f"<{name}{own}>{fragment(inner, depth - 1)}</{name}>"

    types = [n for n in names if not n.startswith(RDF)]
    outer = Scope()
    outer.bound = {}
    document = element(outer, RDF + "RDF", language(), lambda inner: "".join(gap() + node(inner, rng.choice([2] * 15 + [6])) for _ in range(large or rng.choice([0, 1, 1, 2]))) + gap())
    document = rng.choice(["", "", "<?xml version='1.0'?>", "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n", "<!-- x -->"]) + document
    return cps(mutated(rng, document, "<>/&;'\"= :ax0\n") if rng.random() < spoil else document)


def document(rng, fmt, **spoil):
    if fmt == "json":
        return json_document(rng, Terms(rng, "json", 0).graph(4)[2], **spoil)
    return xml_document(rng, **spoil) if fmt == "xml" else line_document(rng, fmt, **spoil)


def random_documents(c, fmt, count):
    ops = []
    for _ in range(count if c.quick else 12 * count):
        t = document(c.random, fmt)
        if not any(0xd800 <= x < 0xe000 for x in t):
            ops.append({"op": "io.read", "fmt": fmt, "t": t, "known": KNOWN})
    c.conform("io", "TraceIo", behaviours(ops, 1), f"{fmt}: random documents")
    large_documents(c, fmt)


def large_documents(c, fmt):
    """Documents of tens of thousands of characters, larger than any buffer."""
    rng, ops = c.random, []
    for _ in range(6 if c.quick else 60):
        if fmt == "json":
            t = json_document(rng, [s for _ in range(30) for s in Terms(rng, "json", 0).graph(4)[2]], spoil=0.2)
        elif fmt == "xml":
            t = xml_document(rng, spoil=0.2, large=rng.randint(20, 50))
        else:
            t = line_document(rng, fmt, spoil=0.2, least=80, most=160)
        if not any(0xd800 <= x < 0xe000 for x in t):
            ops.append({"op": "io.read", "fmt": fmt, "t": t, "known": KNOWN})
    c.conform("io", "TraceIo", behaviours(ops, 1), f"{fmt}: large documents")


KNOWN = [cps(i) for i in IRIS + PREDICATES + NAMES_OF_RDF + NOT_XML + TYPES + ["http://b/"] + [RDF + f"_{n}" for n in range(1, 4)]
         + [RDF + n for n in ("nil", "first", "rest")]]


def flat(rng, fmt):
    return Terms(rng, fmt, 0).graph(4)


def ends_of(rng, end):
    """A sink or a source that is one of the model."""
    result = {"step": rng.choice([1, 3, 7])} if end["step"] == 1 else {}
    if end["limit"] < 3:
        result["limit"] = 0 if end["limit"] == 0 else rng.randrange(1, 80) if end["limit"] == 1 else rng.randrange(80, rng.choice([120, 400, 1500]))
        result["silent"], result["once"] = end["silent"], end["once"]
    return result


def bases(c):
    """IRIs that begin with the base, in every place of a statement; some of them after they were moved to it."""
    rng = c.random
    found = {}
    for o in ops_of(c.model("MC_Reference", "MC_Reference.cfg" if c.quick else "MC_ReferenceDeep.cfg")):
        found.setdefault(uncps(o["base"]), []).extend(uncps(t) for t in o["iris"])
    ops = []
    for base, iris in sorted(found.items()):
        iris = sorted(set(iris))
        if not c.quick:
            iris = sorted(rng.sample(iris, min(len(iris), 30000 // len(found) + 20)))
        for k in range(0, len(iris), 6):
            some = iris[k:k + 6]
            moved = rng.random() < 0.3
            if moved:
                some = ["http://from.here/#" + t[len(base):] if t.startswith(base) else t for t in some]
            node = lambda: rng.choice([["b", "n"], ["i", "http://p/"]])
            sts = []
            for i, t in enumerate(some):
                o = ["i", t]
                sts.append(rng.choice([[o, "http://q/x", node()], [node(), t, node()], [node(), "http://q/y", o], [node(), "http://q/z", ["l", "x", t, ""]],
                                       [node(), "http://q/c", ["c", [node(), o]]], [node(), RDF + "type", o], [["s", [o, t, o]], "http://q/s", node()]]))
            options = dict(rng.choice(OPTIONS["turtle"]), base=base)
            options.pop("to_base", None)
            if moved:
                options["to_base"] = "http://from.here/#"
            ops.append(written("turtle", options, [[True, ["none"], sts, rng.choice([[], [["m:", "http://h/"]], [["m:", base]] if base[-1] in "#/" else []])]]))
    c.conform("io", "TraceIo", behaviours(ops, 1), "turtle: IRIs that begin with the base")


def faults(c, count):
    """Writers whose sinks have no more room and readers whose sources fail, at any point, and the writes after that."""
    rng = c.random
    ends = ops_of(c.model("MC_Faults", "MC_Faults.cfg" if c.quick else "MC_FaultsDeep.cfg"))
    ends = [o for o in ends if o["op"] == "ends"]
    writes, reads = [o["ends"] for o in ends if o["kind"] == "write"], [o["ends"][0] for o in ends if o["kind"] == "read"]
    ops = []
    for fmt in ("nt", "nq", "json", "xml", "turtle", "dot"):
        for es in writes if not c.quick else rng.sample(writes, count):
            vs = [flat(rng, fmt) if fmt == "dot" else Terms(rng, fmt, 1).graph(5) for _ in es]
            ops.append(dict(written(fmt, rng.choice(OPTIONS[fmt]), vs, "io.write_to"), sinks=[ends_of(rng, e) for e in es]))
    c.conform("io", "TraceIo", behaviours(ops, 1), "sinks without room and with little")
    # Every point of a document at which a sink may be full.
    ops = []
    for fmt in ("nt", "nq", "json", "xml", "turtle", "dot"):
        for options in rng.sample(OPTIONS[fmt], min(2, len(OPTIONS[fmt]))) if c.quick else OPTIONS[fmt] * 4:
            g = flat(rng, fmt) if fmt == "dot" else Terms(rng, fmt, 1).graph(3)
            for at in range(0, 600, 40):
                vs, sinks = [], []
                for k in range(at, at + 40):
                    vs.append(g)
                    sinks.append({"limit": k, "silent": k % 5 == 4, "once": rng.random() < 0.5, **({"step": 3} if k % 7 == 6 else {})})
                ops.append(dict(written(fmt, options, vs + [g], "io.write_to"), sinks=sinks + [{}]))
        # And full at any point that is near the end of the document.
        for options in OPTIONS[fmt] if not c.quick else rng.sample(OPTIONS[fmt], min(4, len(OPTIONS[fmt]))):
            g = flat(rng, fmt) if fmt == "dot" else Terms(rng, fmt, 1).graph(5)
            sinks = [{"back": k, "silent": k % 5 == 4, "once": rng.random() < 0.5} for k in range(0, 40)]
            ops.append(dict(written(fmt, options, [g] * 41, "io.write_to"), sinks=sinks + [{}]))
    c.conform("io", "TraceIo", behaviours(ops, 1), "sinks that are full at any point")
    ops = []
    for fmt in ("nt", "nq", "json", "xml"):
        for _ in range(count if c.quick else 8 * count):
            t = document(rng, fmt)
            data = list("".join(map(chr, t)).encode("utf-8", "surrogatepass"))
            e = rng.choice(reads)
            source = {"step": rng.choice([1, 2, 5])} if e["step"] == 1 else {}
            if e["limit"] < 3:
                source["once"] = e["once"]
                source["fail"] = 0 if e["limit"] == 0 else len(data) if e["limit"] == 2 else rng.randrange(len(data) + 1)
            elif rng.random() < 0.5:
                # Bytes that are no text.
                for _ in range(rng.randint(1, 2)):
                    i = rng.randrange(len(data) + 1)
                    bad = rng.choice([[0x80], [0xc0, 0x80], [0xff], [0xed, 0xa0, 0x80], [0xf4, 0x90, 0x80, 0x80], [0xe2, 0x82], [0xc3, 0xa9], [0xf0, 0x9f, 0x98, 0x80],
                                      [0xe0, 0x80, 0xaf], [0xef, 0xbb, 0xbf]])
                    data[i:i] = bad
            ops.append({"op": "io.read_bytes", "fmt": fmt, "bytes": data, "source": source, "known": KNOWN})
        # Every point of a document at which a source may fail.
        for _ in range(2 if c.quick else 20):
            data = list("".join(map(chr, document(rng, fmt, spoil=0))).encode("utf-8", "surrogatepass"))[:1500]
            for k in range(len(data) + 1):
                ops.append({"op": "io.read_bytes", "fmt": fmt, "bytes": data, "source": {"fail": k, "step": rng.choice([4096, 1, 3]), "once": rng.random() < 0.5}, "known": []})
    c.conform("io", "TraceIo", behaviours(ops, 1), "sources that fail, and bytes that are no text")


def data_sets(c, count):
    """Data sets in one document: graphs with different names that share blank nodes."""
    rng = c.random
    ops = []
    names = [["none"], ["b", "n"], ["b", "x"], ["i", "http://g/"], ["i", "http://a/"]]
    for _ in range(count if c.quick else 8 * count):
        terms = Terms(rng, "nq", 2)
        vs = [terms.graph(4, name) for name in rng.sample(names, rng.randint(0, 4))]
        ops.append(written("nq", {}, vs, "io.write_set"))
    c.conform("io", "TraceIo", behaviours(ops, 1), "nq: data sets")


@check("W01", "IRIs are in their canonical form", "no label is one that is generated (finding of C10)",
       "language tags are compared without case")
def line_writers(c):
    for fmt in ("nt", "nq"):
        writing(c, fmt, count=150)
    data_sets(c, 250)


@check("W02", "documents whose IRIs are not in canonical form, that have labels with ':' or language tags that are not well-formed "
       "(RFC 5646, without its irregular tags) are left open", "line ends and comments in statements may be refused or read")
def line_readers(c):
    reading(c, None, "MC_Lines", "MC_LinesDeep.cfg", 16000)
    reading(c, None, "MC_Chars", "MC_CharsDeep.cfg", 12000)
    for fmt in ("nt", "nq"):
        random_documents(c, fmt, 2500)


@check("W03", "IRIs are in their canonical form", "no label is one that is generated (finding of C10)",
       "documents with a key twice, or with members that RDF/JSON does not have, are left open")
def json(c):
    writing(c, "json", count=150)
    reading(c, None, "MC_Json", "MC_JsonDeep.cfg", 100000)
    random_documents(c, "json", 2000)


@check("W04", "IRIs are in their canonical form", "labels are NCNames", "no label is one that is generated (finding of C10)")
def xml(c):
    writing(c, "xml", shapes_with=[o for o in OPTIONS["xml"] if o.get("striped")])


@check("W08", "documents with document types, other encodings than UTF-8, control characters, rdf:ID on properties, reserved names, "
       "or IRIs that are not in canonical form are left open", "no label is one that is generated (finding of C10)")
def xml_reader(c):
    reading(c, None, "MC_Xml", "MC_XmlDeep.cfg", 12000)
    random_documents(c, "xml", 1500)


@check("W05", "IRIs are in their canonical form", "no label is one that is generated (finding of C10)")
def turtle(c):
    writing(c, "turtle", shapes_with=[o for o in OPTIONS["turtle"] if o.get("nest")])
    bases(c)


@check("W06", "a graph is drawn as it is after simplifying, which C04 is about")
def dot(c):
    writing(c, "dot", "io.draw", share=500, count=150)


@check("W07", "faults are those of the sink or the source")
def faulty(c):
    faults(c, 120)
