"""The vocabularies (rdftk_names) and namespaces that users declare."""
from checks import check, ops_of
from engine import behaviours


@check("N01", "the function of a term is known by its name")
def vocabularies(c):
    ops = ops_of(c.model("MC_Terms"))
    terms = [o for o in ops if o["op"] == "names.term"]
    # Each vocabulary is used first by many threads at once.
    first = {}
    for o in sorted(terms, key=lambda o: o["f"]):
        first.setdefault(o["v"], dict(o, threads=8))
    c.conform("names", "TraceTerms", behaviours(list(first.values()), 1), "the first use of every vocabulary, by 8 threads")
    c.conform("names", "TraceTerms", behaviours(terms, 1), "every term")
    numbers = list(range(0, 1200)) + [2**31 - 1] + [c.random.randrange(2**31) for _ in range(200)]
    rest = [o for o in ops if o["op"] != "names.term"] + [{"op": "names.member", "n": n} for n in numbers]
    c.conform("names", "TraceTerms", behaviours(rest, 20), "namespaces, members and declared namespaces")
