"""IRIs, names and prefix maps (rdftk_iri)."""
from checks import check, ops_of
from engine import behaviours, cps, tours

SAFE = "abcxyzABZ019-._~"
NAME_FIRST = "abzAZ_059"
NAME_REST = "abzAZ_059-."
# One or more of each range of the grammar, and the neighbours of their ends.
WIDE = [0xB6, 0xB7, 0xB8, 0xBF, 0xC0, 0xD6, 0xD7, 0xD8, 0xF6, 0xF7, 0xF8, 0x2FF, 0x300, 0x36F, 0x370, 0x37D,
        0x37E, 0x37F, 0x1FFF, 0x2000, 0x200B, 0x200C, 0x200D, 0x200E, 0x203E, 0x203F, 0x2040, 0x2041, 0x206F,
        0x2070, 0x218F, 0x2190, 0x2BFF, 0x2C00, 0x2FEF, 0x2FF0, 0x3000, 0x3001, 0xD7FF, 0xE000, 0xF8FF, 0xF900,
        0xFDCF, 0xFDD0, 0xFDEF, 0xFDF0, 0xFFFD, 0xFFFE, 0x10000, 0xEFFFF, 0xF0000, 0x10FFFF]


def text(rng, alphabet, low, high):
    """A text that is at most high long, now and then ten times as long."""
    if high > 2 and rng.random() < 0.05:
        high *= 10
    return "".join(rng.choice(alphabet) for _ in range(rng.randint(low, high)))


def a_name(rng):
    while True:
        n = rng.choice(NAME_FIRST) + text(rng, NAME_REST, 0, 6)
        if not n.endswith("."):
            return n


def a_prefix(rng):
    while True:
        p = rng.choice(["", text(rng, "abzAZ", 1, 1) + text(rng, NAME_REST, 0, 4)])
        if not p.endswith("."):
            return p + ":"


def an_iri(rng, fragments=True):
    """The text of an IRI in canonical form."""
    kind = rng.randrange(6)
    segments = ["a", "b1", "c.d", "e-f", "n_1", "x~", "%20"]
    path = "".join("/" + rng.choice(segments) for _ in range(rng.choice([0, 1, 2, 3] * 6 + [20]))) + rng.choice(["", "/"])
    if kind == 0:
        t = "urn:" + rng.choice(["isbn:1234", "a", "x:y", "a/b", "a/"])
    elif kind == 1:
        t = "http://" + rng.choice(["a.org", "b.example:8080", "u:p@h", "127.0.0.1"]) + (path or "/")
    elif kind == 2:
        t = "https://" + rng.choice(["a.org", "www.example.com"]) + (path or "/")
    elif kind == 3:
        t = "foo://" + rng.choice(["h", "h:1", "H.x"]) + path
    elif kind == 4:
        t = "file://" + (path or "/")
    else:
        t = "foo:" + (path or "/")
    if rng.random() < 0.3:
        t += "?" + rng.choice(["", "q", "q=1&r=2", "a/b", "n/"] * 4 + ["&".join(f"k{i}={i * i}" for i in range(20))])
    if fragments and rng.random() < 0.4:
        t += "#" + rng.choice(["", "f", "n1", "a/b", "x?y", "_n", ".n", "n."])
    return t


def is_opaque(t):
    return not t[t.index(":") + 1:].startswith("/")


@check("I01", "a prefix map is only changed through its own methods, by one thread")
def prefix_map(c):
    """The prefix map is the one-to-one map that its history says it is."""
    c.conform("iri", "TracePrefixMap", tours(c.model("MC_PrefixMap")), "one map, every state and operation")
    c.conform("iri", "TracePrefixMap", tours(c.model("MC_PrefixMap", "MC_PrefixMap2.cfg")), "two maps")
    c.conform("iri", "TracePrefixMap", tours(c.model("MC_PrefixMap", "MC_PrefixMap3.cfg")), "what vocabularies bind, bound otherwise")
    c.conform("iri", "TracePrefixMap", map_histories(c, 60 if c.quick else 2500), "random histories")


def map_histories(c, count):
    rng = c.random
    ops = []
    for _ in range(count):
        ops.append({"op": "reset"})
        # Now and then a map of many.
        many = rng.random() < 0.1
        prefixes = [a_prefix(rng) for _ in range(60 if many else 6)] + [":", "rdf:", "skos:"]
        iris = [an_iri(rng) for _ in range(60 if many else 10)] + ["http://www.w3.org/2004/02/skos/core#", "http://xmlns.com/foaf/0.1/"]
        names = [a_name(rng) for _ in range(4)]
        for _ in range(150 if many else 40):
            kind = rng.choice(["insert"] * (60 if many else 6) + ["with"] * 3 + [
                "set_default", "with_default", "remove", "remove", "remove_default", "insert_vocab", "with_vocab",
                "clone", "get_namespace", "get_prefix", "expand", "compress", "compress_ref", "views", "eq", "serde",
                "default", "common", "clear", "empty", "expand", "compress"])
            if kind in ("clear", "empty") and rng.random() < 0.7:
                continue
            o = {"op": "map." + kind, "m": rng.randrange(2)}
            if kind in ("insert", "with", "remove", "get_namespace", "expand"):
                o["p"] = cps(rng.choice(prefixes))
            if kind in ("insert", "with", "set_default", "with_default", "get_prefix", "compress", "compress_ref"):
                i = rng.choice(iris)
                if kind.startswith("compress") and (i.endswith("#") or i.endswith("/") and "?" not in i):
                    i += rng.choice(names)
                o["i"] = cps(i)
            if kind == "expand":
                o["n"] = cps(rng.choice(names))
            if kind.endswith("vocab"):
                o["v"] = rng.choice(["rdf", "owl", "skos", "foaf", "xsd", "void", "dcterms", "wot"])
            if kind in ("clone", "eq"):
                o["to"] = 1 - o["m"]
            ops.append(o)
    return ops


@check("I02", "a namespace is an IRI that looks like one: an empty fragment, or a path that ends in '/' and no query or fragment",
       "names of ASCII characters; for others see the known finding")
def expand_compress(c):
    rng = c.random
    edges = c.model("MC_PrefixMap")
    wanted = ("map.expand", "map.compress", "map.compress_ref", "map.trip")
    c.conform("iri", "TracePrefixMap",
              tours([e for e in edges if e[1]["op"] in wanted or e[0] != e[2]]), "every state of one map")
    ops = []
    for _ in range(300 if c.quick else 6000):
        ops.append({"op": "reset"})
        spaces = []
        many = rng.random() < 0.05
        for _ in range(rng.randint(20, 40) if many else rng.randint(1, 5)):
            i = an_iri(rng, False)
            spaces.append(i + "#" if "?" in i or not i.endswith("/") else rng.choice([i, i + "#"]))
        prefixes = [a_prefix(rng) for _ in range(40 if many else 4)]
        for _ in range(60 if many else rng.randint(1, 6)):
            ops.append({"op": "map.insert", "m": 0, "p": cps(rng.choice(prefixes)), "i": cps(rng.choice(spaces))})
        for _ in range(6):
            n = a_name(rng)
            ops.append({"op": "map.trip", "m": 0, "p": cps(rng.choice(prefixes)), "n": cps(n)})
            for kind in ("map.compress", "map.compress_ref"):
                ops.append({"op": kind, "m": 0, "i": cps(rng.choice(spaces) + n)})
            ops.append({"op": "map.compress", "m": 0, "i": cps(an_iri(rng))})
    c.conform("iri", "TracePrefixMap", ops, "random maps")
    finding = [{"op": "reset"}, {"op": "map.insert", "m": 0, "p": cps("x:"), "i": cps("http://a/x#")},
               {"op": "map.trip", "m": 0, "p": cps("x:"), "n": cps("\u00e9")}]
    c.conform("iri", "TracePrefixMap", finding, "a name that is not ASCII")


@check("I03", "the grammar is decided for one code point in a context of one on either side, and for every text over "
              "a small alphabet; longer texts are sampled")
def names_grammar(c):
    rng = c.random
    ops = [o for o in ops_of(c.model("MC_Names", None if c.quick else "MC_NamesDeep.cfg"))]
    # Every code point there is, in every position that the grammar distinguishes.
    step = 0x2000
    for at in ("name1", "name2", "name3", "ns1", "ns2", "ns3"):
        ops += [{"op": "name.sweep", "at": at, "lo": lo, "hi": lo + step - 1} for lo in range(0, 0x110000, step)]
    alphabet = [chr(i) for i in WIDE] + list("aZ09_-.:/#<>[] \t\n")
    for _ in range(20000 if c.quick else 400000):
        t = text(rng, alphabet if rng.random() < 0.4 else NAME_REST + ":", 0, rng.choice([3, 8, 30] * 20 + [300]))
        if rng.random() < 0.3:
            t = a_prefix(rng) + t
        ops.append({"op": "name." + rng.choice(["ns", "named", "name", "local"]), "t": cps(t)})
    c.conform("iri", "TraceNames", behaviours(ops, 50), "texts in and out of the grammar")


@check("I04")
def names_coherent(c):
    rng = c.random
    ops = []
    prefixes = [a_prefix(rng) for _ in range(60)] + [":", "a:", "ab:", "a.b:", "\u00e9-\u0300:"]
    names = [a_name(rng) for _ in range(60)] + ["a", "0", "_", "a-b.c", "\u00e9\u00b7", "\U00010000"]
    for p in prefixes:
        for n in names if not c.quick else rng.sample(names, 20):
            ops.append({"op": "name.compose", "p": cps(p), "n": cps(n)})
    for _ in range(4000 if c.quick else 60000):
        p, q = rng.choice(prefixes), rng.choice(prefixes)
        n, k = rng.choice(names), rng.choice(names)
        if rng.random() < 0.3:
            q = p
        if rng.random() < 0.3:
            k = n
        ops.append({"op": "name.cmp", "p": cps(p), "q": cps(q), "n": cps(n), "k": cps(k)})
    valid = [o for o in ops_of(c.model("MC_Names")) if o["op"] != "name.named"]
    for t in prefixes:
        ops += [{"op": "name.ns", "t": cps(t)}, {"op": "name.named", "t": cps(t)}, {"op": "name.named", "t": cps(t[:-1])}]
    for t in names:
        ops += [{"op": "name.name", "t": cps(t)}]
    for _ in range(2000):
        ops.append({"op": "name.local", "t": cps(rng.choice(prefixes) + rng.choice(names))})
    c.conform("iri", "TraceNames", behaviours(ops + valid, 50), "names, namespaces and local names")


@check("I05", "IRIs in canonical form; paths of unreserved characters, without dot segments")
def iri_edits(c):
    rng = c.random
    ops = [o for o in ops_of(c.model("MC_Iri")) if o["op"] not in ("iri.parse", "iri.trips", "iri.cmp")]
    for _ in range(8000 if c.quick else 150000):
        t = an_iri(rng)
        o = {"op": "iri." + rng.choice(["observe", "fragment", "path", "make"]), "t": cps(t)}
        if o["op"] == "iri.fragment":
            o["f"] = cps(text(rng, SAFE + "/?:@!$&'()*+,;=%", 0, 6))
        elif o["op"] == "iri.path":
            if is_opaque(t):
                o["f"] = cps(rng.choice("abz") + text(rng, SAFE, 0, 4))
            else:
                o["f"] = cps("".join("/" + rng.choice("abz09_-") + text(rng, SAFE, 0, 3) for _ in range(rng.randint(1, 3)))
                             + rng.choice(["", "/"]))
        elif o["op"] == "iri.make":
            o["f"] = cps(a_name(rng))
        ops.append(o)
    c.conform("iri", "TraceIri", behaviours(ops, 50), "edits of IRIs")


@check("I06", "two identifiers are told apart by comparing every one that a run of the check has made; the IRI has an "
              "authority, or a path that starts with '/'")
def genid(c):
    rng = c.random
    bases = ["http://example.org/path?query#fragment", "https://u:p@example.org:8443/", "http://a.org/x/y/z",
             "foo://host/a", "foo://host", "file:///a/b"] + [b for b in (an_iri(rng) for _ in range(60))
                                                             if not is_opaque(b) and not b.startswith("foo:/a")
                                                             and "://" in b]
    ops = []
    for b in bases:
        ops.append({"op": "iri.genid", "t": cps(b), "n": 1, "threads": 1})
        ops.append({"op": "iri.genid", "t": cps(b), "n": rng.randint(2, 30), "threads": 1})
    for _ in range(20 if c.quick else 200):
        ops.append({"op": "iri.genid", "t": cps(rng.choice(bases)), "n": 500 if c.quick else 4000, "threads": 8})
    # Opaque IRIs have nothing to put the path on.
    c.conform("iri", "TraceIri", ops, "generated identifiers, from up to 8 threads")


@check("I07", "canonical texts are those that the WHATWG URL parser leaves as they are")
def iri_text(c):
    rng = c.random
    ops = [o for o in ops_of(c.model("MC_Iri")) if o["op"] in ("iri.parse", "iri.trips", "iri.cmp", "iri.observe")]
    ops += ops_of(c.model("MC_IriText", None if c.quick else "MC_IriTextDeep.cfg"))
    pool = [an_iri(rng) for _ in range(400)]
    for t in pool:
        ops.append({"op": "iri.trips", "t": cps(t)})
        ops.append({"op": "iri.parse", "t": cps(t), "ok": True})
    # What is not an absolute IRI is refused, with brackets or without.
    for t in ["", "<>", "a", "/a", "//h/p", "#f", "a b:c", "1a:b", ":", "<", ">", "<a", "http://", "http://a b/", "_:b",
              "\u00e9:x", "a/b:c", "?q", "<<http://a/>>", "<<a:b>>", "<http://a/"]:
        ops.append({"op": "iri.parse", "t": cps(t), "ok": False})
    for _ in range(6000 if c.quick else 100000):
        a, b = rng.choice(pool), rng.choice(pool)
        if rng.random() < 0.2:
            b = a
        elif rng.random() < 0.3:
            b = a + rng.choice(["#", "#f", "#g"]) if "#" not in a else a + "x"
        ops.append({"op": "iri.cmp", "a": cps(a), "b": cps(b)})
    c.conform("iri", "TraceIri", behaviours(ops, 50), "texts of IRIs")
