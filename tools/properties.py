#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below (run in /verif)."""
import json

P = []


def prop(id, title, statement, over, quantifier, tests, files, mechanism, state=(), observe=(), technique="", note="",
         claimed=True):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()), over=over,
                  quantifier=" ".join(quantifier.split()), tests=" ".join(tests.split()), files=files,
                  mechanism=mechanism, state=state, observe=observe, technique=technique, note=" ".join(note.split())))


IRI = "rdftk_iri/src/iri.rs"
MAP = "rdftk_iri/src/map.rs"
PNAME = "rdftk_iri/src/pname.rs"
VOCAB = "rdftk_iri/src/vocab.rs"

exec(open("tools/properties_iri.py").read())
exec(open("tools/properties_core.py").read())
exec(open("tools/properties_io.py").read())

NOT_APPLICABLE = []

with open("properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quantifier"]},
            "why_tests_cant": p["tests"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]],
                        "observe_at": list(p["observe"]), "hook_needed": None}}) + "\n")

manifest = {
    "version": 1,
    "setup_cmd": "python3 check.py setup",
    "checks": [{
        "property": p["id"],
        "quick_cmd": f"python3 check.py {p['id']} quick",
        "thorough_cmd": f"python3 check.py {p['id']} thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": p["technique"],
        "level": "model_checking",
        "level_note": p["note"],
    } for p in P],
    "not_applicable": NOT_APPLICABLE,
    "notes": "TLA+ specifications in spec/, checked with TLC; harnesses in harness/ carry operations out on the real "
             "code; TLC validates the recorded traces against the specifications. No hooks in /repo are needed.",
}
with open("MANIFEST.json", "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
