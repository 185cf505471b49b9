"""The section of DESIGN.md about the planted changes."""
import json,glob,os
first={"I07-brackets":"every short text of brackets, letters and separators (`MC_IriText`)",
"C06-type":"containers whose kind is an IRI of the RDF vocabulary",
"C01-remove":"histories of large graphs (`wide`)",
"I01-vocabulary":"vocabularies whose IRI is bound already (`MC_PrefixMap3.cfg`)",
"W02-private":"language tags with private use parts","W04-language":"long language tags","W05-padding":"predicates of up to 280 characters",
"W07-turtle":"sinks that are full once, at every point of a document","W07-end":"sinks that are full at every point near the end",
"W08-depth":"XML literals with elements in elements","W08-cdata":"texts in several parts","W08-namespace":"documents with other prefixes"}
rows=[]
for d in sorted(glob.glob('/verif/seeded/*/')):
    n=os.path.basename(d[:-1]); m=json.load(open(d+'meta.json'))
    rows.append(f"| {n} | {m['property']} | {m['needs']} | {'no: '+first[n] if n in first else 'yes'} |")
t="""## Planted changes

`seeded/` has changes that break a property, written from its text and the code. The check of the property reports each of them in
its quick tier; the last column says whether it did at once, or what was added to the specification's inputs
since it did not. Planted changes that an existing test catches, or that break nothing, were dropped.

| Change | Caught by | Shows with | At once |
|---|---|---|---|
"""+"\n".join(rows)+"\n"
p='/verif/DESIGN.md'; s=open(p).read()
i=s.find("## Planted changes")
if i>=0: s=s[:i]
s=s.rstrip("\n")+"\n\n"+t
open(p,'w').write(s)
