"""The command-line tool (rdftk_cli)."""
from checks import check, ops_of
from checks_io import KNOWN, document
from engine import behaviours, cps

EMPTY = {"nt": "", "nq": "", "json": "{}", "xml": '<rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#"/>'}
UNSAYABLE = {
    "nt": '<http://a/> <http://q/x> "1" .\n<http://a/> <http://p/> "x" .\n',
    "nq": '<http://a/> <http://p/> "x" <http://b/x#y> .\n',
    "json": '{"http://a/":{"http://q/x":[{"value":"a\\u0000","type":"literal"}]}}',
}
LEVELS = ["none", "errors", "warnings", "information", "debugging", "tracing"]


def text_of(rng, job):
    kind, fmt = job["doc"], job["from"]
    if kind == "empty":
        return cps(EMPTY[fmt])
    if kind == "unsayable" and fmt in UNSAYABLE:
        return cps(UNSAYABLE[fmt])
    while True:
        t = document(rng, fmt, spoil=1 if kind == "spoilt" else 0)
        if not any(0xd800 <= x < 0xe000 for x in t):
            return t


def run_of(rng, job):
    """A run of the tool that is a job of the model."""
    op = {"op": "cli.run", **{k: job[k] for k in ("cmd", "from", "to", "in", "out")}, "t": text_of(rng, job), "known": KNOWN}
    if job["out"] == "limit":
        op["room"] = 0 if job["room"] == 0 else 1 << 20 if job["room"] >= job["size"] else rng.randrange(rng.choice([60, 300, 900]))
    if rng.random() < 0.3:
        op["log"] = rng.choice(LEVELS)
    if rng.random() < 0.2:
        op["env"] = rng.choice(["trace", "rdftk=debug", "rdftk_io=trace", "off"])
    return op


def large(rng, fmt, count):
    """A document that is larger than the buffers on its way."""
    lines = []
    for n in range(count):
        lines.append(f'<http://a/{n}> <http://q/x> "{chr(97 + n % 26) * rng.randint(1, 40)}{n}" .')
    return cps("\n".join(lines))


def lines_with(n):
    return [cps(f"http://a/{i}") for i in range(n)]


@check("T01", "readers and writers decide like those of the library, which W01 to W08 are about",
       "input and output are not the same file", "namespaces, and syntaxes that the library does not read or write, are left out")
def tool(c):
    rng = c.random
    jobs = [o["job"] for o in ops_of(c.model("MC_Cli", "MC_Cli.cfg" if c.quick else "MC_CliDeep.cfg"))]
    c.conform("cli", "TraceCli", behaviours([run_of(rng, j) for j in jobs], 1), "every job of the model")
    usual = [j for j in jobs if j["out"] in ("stdout", "limit") and j["in"] == "stdin" and j["doc"] in ("good", "spoilt")]
    ops = [run_of(rng, rng.choice(usual)) for _ in range(1500 if c.quick else 30000)]
    c.conform("cli", "TraceCli", behaviours(ops, 1), "documents of all kinds")
    ops = []
    for to in ("nt", "nq", "json", "turtle", "xml"):
        for out in ("stdout", "file", "full", "closed", "limit"):
            n = 150 if c.quick else 1500
            ops.append({"op": "cli.run", "cmd": "convert", "from": "nt", "to": to, "in": rng.choice(["stdin", "slow", "file"]), "out": out,
                        "t": large(rng, "nt", n), "known": KNOWN + lines_with(n), "room": rng.randrange(1, 40000)})
    c.conform("cli", "TraceCli", behaviours(ops, 1), "large documents")
