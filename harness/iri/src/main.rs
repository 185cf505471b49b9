#[path = "../../common/mod.rs"]
mod common;
use common::*;
use rdftk_iri::{Iri, IriPrefixMap, IriRef, LocalName, Name, Namespace, PrefixedName, Vocabulary};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::str::FromStr;

#[derive(Default)]
struct Iris {
    maps: Vec<IriPrefixMap>,
    seen: std::collections::HashSet<String>,
}

fn iri(v: &Value) -> Iri {
    let t = text(v);
    let iri = Iri::from_str(&t).unwrap_or_else(|e| panic!("refused: the IRI {t}: {e}"));
    iri
}

fn itext(i: &Iri) -> Value {
    let s: &str = i.as_ref();
    cps(s)
}

fn ns(v: &Value) -> Namespace {
    let t = text(v);
    Namespace::from_str(&t).unwrap_or_else(|e| panic!("refused: the namespace {t}: {e}"))
}

fn name(v: &Value) -> Name {
    let t = text(v);
    Name::from_str(&t).unwrap_or_else(|e| panic!("refused: the name {t}: {e}"))
}

fn name_err(e: rdftk_iri::error::NameParseError) -> Value {
    use rdftk_iri::error::NameParseError::*;
    match e {
        EmptyString => json!(["err", "empty"]),
        InvalidCharacter(_) => json!(["err", "char"]),
        TooManySeparators(_) => json!(["err", "many"]),
        MissingSeparator(_) => json!(["err", "missing"]),
    }
}

fn hash<T: Hash>(v: &T) -> u64 {
    let mut h = DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}

fn ord(o: Ordering) -> Value {
    json!(match o {
        Ordering::Less => "lt",
        Ordering::Equal => "eq",
        Ordering::Greater => "gt",
    })
}

fn local(l: &LocalName) -> Value {
    json!([cps(l.namespace().as_ref()), cps(l.name().as_ref())])
}

fn local_ok(l: &LocalName) -> Value {
    json!([
        cps(l.namespace().as_ref()),
        cps(l.name().as_ref()),
        cps(&l.to_string()),
        cps(&l.as_curie()),
        l.is_namespace_default()
    ])
}

fn vocabulary(v: &Value) -> Vocabulary {
    use rdftk_iri::vocab::*;
    match v.as_str().expect("vocabulary") {
        "owl" => VOCABULARY_OWL,
        "rdf" => VOCABULARY_RDF,
        "rdfs" => VOCABULARY_RDF_SCHEMA,
        "skos" => VOCABULARY_SKOS,
        "xsd" => VOCABULARY_XML_SCHEMA,
        "foaf" => VOCABULARY_FOAF,
        "cal" => VOCABULARY_CAL,
        "dbpedia" => VOCABULARY_DBPEDIA,
        "dc" => VOCABULARY_DC_ELEMENTS,
        "dcterms" => VOCABULARY_DC_TERMS,
        "doap" => VOCABULARY_DOAP,
        "geonames" => VOCABULARY_GEO_NAMES,
        "isothes" => VOCABULARY_ISO_SKOS,
        "opengis" => VOCABULARY_OPEN_GIS,
        "org" => VOCABULARY_ORG,
        "sioc" => VOCABULARY_SIOC,
        "skosxl" => VOCABULARY_SKOS_XL,
        "vann" => VOCABULARY_VANN,
        "void" => VOCABULARY_VOID,
        "wot" => VOCABULARY_WOT,
        v => panic!("harness: no vocabulary {v}"),
    }
}

fn parsed<T, E>(r: Result<T, E>, f: impl Fn(&T) -> Value, e: impl Fn(E) -> Value) -> Value {
    match r {
        Ok(v) => json!(["ok", f(&v)]),
        Err(v) => e(v),
    }
}

/// Run `f` at the same time on as many threads as there are elements.
fn on_threads<T: Send + 'static>(n: usize, f: impl Fn(usize) -> T + Send + Sync + 'static) -> Vec<T> {
    let f = std::sync::Arc::new(f);
    let barrier = std::sync::Arc::new(std::sync::Barrier::new(n));
    let handles: Vec<_> = (0..n)
        .map(|i| {
            let (f, barrier) = (f.clone(), barrier.clone());
            std::thread::spawn(move || {
                barrier.wait();
                f(i)
            })
        })
        .collect();
    handles
        .into_iter()
        .map(|h| match h.join() {
            Ok(v) => v,
            Err(e) => std::panic::resume_unwind(e),
        })
        .collect()
}

impl Iris {
    fn slot(&self, op: &Value, key: &str) -> usize {
        op[key].as_u64().expect("slot") as usize
    }

    fn map_op(&mut self, kind: &str, op: &Value) -> Value {
        let s = self.slot(op, "m");
        let unit = json!(["unit"]);
        match kind {
            "empty" => self.maps[s] = IriPrefixMap::empty(),
            "default" => self.maps[s] = IriPrefixMap::default(),
            "common" => self.maps[s] = IriPrefixMap::common(),
            "insert" => self.maps[s].insert(ns(&op["p"]), iri(&op["i"])),
            "with" => self.maps[s] = std::mem::take(&mut self.maps[s]).with(ns(&op["p"]), iri(&op["i"])),
            "set_default" => self.maps[s].set_default_namespace(iri(&op["i"])),
            "with_default" => self.maps[s] = std::mem::take(&mut self.maps[s]).with_default(iri(&op["i"])),
            "remove" => self.maps[s].remove(&ns(&op["p"])),
            "remove_default" => self.maps[s].remove_default_namespace(),
            "clear" => self.maps[s].clear(),
            "insert_vocab" => self.maps[s].insert_vocabulary(&vocabulary(&op["v"])),
            "with_vocab" => self.maps[s] = std::mem::take(&mut self.maps[s]).with_vocabulary(&vocabulary(&op["v"])),
            "clone" => {
                let to = self.slot(op, "to");
                self.maps[to] = self.maps[s].clone();
            }
            "get_namespace" => return opt(self.maps[s].get_namespace(&ns(&op["p"])).map(itext)),
            "get_prefix" => {
                return opt(self.maps[s].get_prefix(&iri(&op["i"])).map(|p| cps(p.as_ref())))
            }
            "expand" => {
                let l = LocalName::new(ns(&op["p"]), name(&op["n"]));
                return opt(self.maps[s].expand(&l).as_ref().map(itext));
            }
            "trip" => {
                let l = LocalName::new(ns(&op["p"]), name(&op["n"]));
                let to = self.maps[s].expand(&l);
                let back = to.as_ref().and_then(|i| self.maps[s].compress(i));
                return json!([opt(to.as_ref().map(itext)), opt(back.as_ref().map(local))]);
            }
            "compress" => return opt(self.maps[s].compress(&iri(&op["i"])).as_ref().map(local)),
            "compress_ref" => {
                return match self.maps[s].compress_to_iriref(&iri(&op["i"])) {
                    IriRef::Iri(i) => json!(["iri", itext(&i)]),
                    IriRef::PrefixedName(PrefixedName::Local(l)) => json!(["local", local(&l)]),
                    IriRef::PrefixedName(PrefixedName::Namespace(n)) => json!(["ns", cps(n.as_ref())]),
                }
            }
            "views" => {
                let m = &self.maps[s];
                return json!([
                    m.len(),
                    m.is_empty(),
                    opt(m.get_default_namespace().map(itext)),
                    m.prefixes().map(|p| cps(p.as_ref())).collect::<Vec<_>>(),
                    m.iris().map(itext).collect::<Vec<_>>(),
                    cps(&m.to_string())
                ]);
            }
            "eq" => return json!([self.maps[s] == self.maps[self.slot(op, "to")]]),
            "serde" => {
                let json = serde_json::to_string(&self.maps[s]).unwrap();
                self.maps[s] = serde_json::from_str(&json).unwrap();
            }
            _ => panic!("harness: no operation {kind}"),
        }
        unit
    }

    fn iri_op(&mut self, kind: &str, op: &Value) -> Value {
        match kind {
            "parse" => {
                let t = text(&op["t"]);
                match Iri::from_str(&t) {
                    Ok(i) => ok(itext(&i)),
                    Err(_) => err("iri"),
                }
            }
            "observe" => {
                let i = iri(&op["t"]);
                let before = i.clone();
                let split = opt(i.split().map(|(n, l)| json!([itext(&n), cps(l.as_ref())])));
                let v = json!([
                    itext(&i),
                    cps(&i.to_string()),
                    cps(&format!("{i:#}")),
                    i.looks_like_namespace(),
                    split,
                    opt(i.namespace().as_ref().map(itext)),
                    opt(i.name().map(|n| cps(n.as_ref()))),
                    itext(&i.with_no_fragment()),
                    itext(&i.with_empty_fragment())
                ]);
                assert!(before == i, "receiver changed");
                v
            }
            "fragment" => {
                let i = iri(&op["t"]);
                let r = i.with_new_fragment(text(&op["f"]));
                json!([itext(&r), itext(&i)])
            }
            "path" => {
                let i = iri(&op["t"]);
                let r = i.with_new_path(text(&op["f"]));
                json!([itext(&r), itext(&i)])
            }
            "make" => {
                let i = iri(&op["t"]);
                let made = i.make_name(name(&op["f"]));
                let back = made.as_ref().and_then(|m| m.split());
                json!([
                    opt(made.as_ref().map(itext)),
                    opt(back.map(|(n, l)| json!([itext(&n), cps(l.as_ref())])))
                ])
            }
            "trips" => {
                let i = iri(&op["t"]);
                let t: &str = i.as_ref();
                let u: url::Url = i.clone().into();
                let json = serde_json::to_string(&i).unwrap();
                let others = [
                    Iri::from_str(&i.to_string()).unwrap(),
                    Iri::from_str(&format!("{i:#}")).unwrap(),
                    Iri::try_from(t).unwrap(),
                    Iri::from(u.clone()),
                    Iri::from(&u),
                    Iri::from(url::Url::from(&i)),
                    Iri::from(AsRef::<url::Url>::as_ref(&i).clone()),
                    serde_json::from_str::<Iri>(&json).unwrap(),
                    i.clone(),
                ];
                json!([
                    others.iter().map(itext).collect::<Vec<_>>(),
                    others.iter().all(|o| *o == i && hash(o) == hash(&i) && o.cmp(&i) == Ordering::Equal),
                    cps(&serde_json::from_str::<String>(&json).unwrap()),
                    cps(&IriRef::from(&i).to_string())
                ])
            }
            "cmp" => {
                let (a, b) = (iri(&op["a"]), iri(&op["b"]));
                json!([
                    a == b,
                    ord(a.cmp(&b)),
                    opt(a.partial_cmp(&b).map(ord)),
                    hash(&a) == hash(&b)
                ])
            }
            "vocabulary" => {
                let v = vocabulary(&op["v"]);
                json!([
                    cps(v.prefix()),
                    cps(v.iri()),
                    cps(v.prefix_as_namespace().as_ref()),
                    itext(&v.iri_as_iri())
                ])
            }
            "genid" => {
                let i = iri(&op["t"]);
                let n = op["n"].as_u64().unwrap() as usize;
                let threads = op["threads"].as_u64().unwrap() as usize;
                let made: Vec<Result<Vec<String>, String>> = on_threads(threads, move |_| {
                    (0..n)
                        .map(|_| match i.genid() {
                            Ok(i) => Ok(AsRef::<str>::as_ref(&i).to_string()),
                            Err(e) => Err(e.to_string()),
                        })
                        .collect()
                });
                let mut fresh = true;
                let mut texts = Vec::new();
                for r in made {
                    match r {
                        Err(_) => return err("genid"),
                        Ok(v) => {
                            for t in v {
                                fresh &= self.seen.insert(t.clone());
                                texts.push(t);
                            }
                        }
                    }
                }
                // Every text when there are few, and a sample when there are many.
                let step = (texts.len() / 64).max(1);
                json!([
                    "ok",
                    texts.len(),
                    fresh,
                    texts.iter().step_by(step).map(|t| cps(t)).collect::<Vec<_>>(),
                    texts.iter().all(|t| t.len() == texts[0].len())
                ])
            }
            _ => panic!("harness: no operation {kind}"),
        }
    }

    fn name_op(&mut self, kind: &str, op: &Value) -> Value {
        match kind {
            "ns" => {
                let t = text(&op["t"]);
                let r = parsed(Namespace::from_str(&t), |n| cps(n.as_ref()), name_err);
                let json = serde_json::to_string(&t).unwrap();
                json!([
                    r,
                    Namespace::is_valid_str(&t),
                    parsed(Namespace::try_from(t.clone()), |n| cps(n.as_ref()), name_err),
                    match serde_json::from_str::<Namespace>(&json) {
                        Ok(n) => json!(["ok", cps(n.as_ref())]),
                        Err(_) => json!(["err"]),
                    },
                    parsed(
                        Namespace::from_str(&t),
                        |n| json!([
                            cps(&n.to_string()),
                            opt(n.name_string().map(cps)),
                            n.is_default(),
                            cps(&String::from(n.clone())),
                            cps(&String::from(n)),
                            cps(&serde_json::from_str::<String>(&serde_json::to_string(n).unwrap()).unwrap()),
                            cps(&PrefixedName::from(n).to_string())
                        ]),
                        name_err
                    )
                ])
            }
            "named" => {
                let t = text(&op["t"]);
                json!([
                    parsed(Namespace::new_named(t.clone()), |n| cps(n.as_ref()), name_err),
                    cps(Namespace::new_unchecked(t).as_ref())
                ])
            }
            "name" => {
                let t = text(&op["t"]);
                let json = serde_json::to_string(&t).unwrap();
                json!([
                    parsed(Name::from_str(&t), |n| cps(n.as_ref()), name_err),
                    Name::is_valid_str(&t),
                    parsed(Name::try_from(t.clone()), |n| cps(n.as_ref()), name_err),
                    match serde_json::from_str::<Name>(&json) {
                        Ok(n) => json!(["ok", cps(n.as_ref())]),
                        Err(_) => json!(["err"]),
                    },
                    parsed(
                        Name::from_str(&t),
                        |n| json!([
                            cps(&n.to_string()),
                            cps(&String::from(n.clone())),
                            cps(&String::from(n)),
                            cps(&serde_json::from_str::<String>(&serde_json::to_string(n).unwrap()).unwrap())
                        ]),
                        name_err
                    )
                ])
            }
            "local" => {
                let t = text(&op["t"]);
                parsed(LocalName::from_str(&t), local_ok, name_err)
            }
            "compose" => {
                let (p, n) = (ns(&op["p"]), name(&op["n"]));
                let ways = [
                    LocalName::new(p.clone(), n.clone()),
                    p.qualify(&n),
                    n.qualify(&p),
                    LocalName::new_unchecked(String::from(&p), String::from(&n)),
                    LocalName::new_unchecked(p.name_string().unwrap_or_default(), n.as_ref()),
                    serde_json::from_value(serde_json::to_value(p.qualify(&n)).unwrap()).unwrap(),
                ];
                let l = &ways[0];
                json!([
                    ways.iter().map(local).collect::<Vec<_>>(),
                    ways.iter().all(|w| w == l && hash(w) == hash(l)),
                    local_ok(l),
                    cps(&String::from(l)),
                    cps(&PrefixedName::from(l).to_string()),
                    parsed(LocalName::from_str(&l.to_string()), local, name_err),
                    local(&LocalName::new_in_default(n.clone())),
                    cps(Namespace::new_default().as_ref())
                ])
            }
            "cmp" => {
                let (p, q) = (ns(&op["p"]), ns(&op["q"]));
                let (n, m) = (name(&op["n"]), name(&op["k"]));
                let (a, b) = (p.qualify(&n), q.qualify(&m));
                json!([
                    [json!(p == q), ord(p.cmp(&q)), json!(hash(&p) == hash(&q))],
                    [json!(n == m), ord(n.cmp(&m)), json!(hash(&n) == hash(&m))],
                    [json!(a == b), ord(a.cmp(&b)), json!(hash(&a) == hash(&b))]
                ])
            }
            // Which code points of a range each position of each grammar accepts, as ranges.
            "sweep" => {
                let (lo, hi) = (op["lo"].as_u64().unwrap() as u32, op["hi"].as_u64().unwrap() as u32);
                let check: fn(char) -> bool = match op["at"].as_str().unwrap() {
                    "name1" => |c| Name::is_valid_str(c.to_string()),
                    "name2" => |c| Name::is_valid_str(format!("a{c}a")),
                    "name3" => |c| Name::is_valid_str(format!("a{c}")),
                    "ns1" => |c| Namespace::is_valid_str(format!("{c}:")),
                    "ns2" => |c| Namespace::is_valid_str(format!("a{c}a:")),
                    "ns3" => |c| Namespace::is_valid_str(format!("a{c}:")),
                    v => panic!("harness: no position {v}"),
                };
                let mut ranges: Vec<(u32, u32)> = Vec::new();
                for c in lo..=hi {
                    if let Some(ch) = char::from_u32(c) {
                        if check(ch) {
                            match ranges.last_mut() {
                                Some(r) if r.1 + 1 == c => r.1 = c,
                                _ => ranges.push((c, c)),
                            }
                        }
                    }
                }
                json!(ranges)
            }
            _ => panic!("harness: no operation {kind}"),
        }
    }
}

impl Sut for Iris {
    fn reset(&mut self, _: &Value) {
        self.maps = vec![IriPrefixMap::empty(), IriPrefixMap::empty()];
    }

    fn apply(&mut self, op: &Value) -> Value {
        let code = op["op"].as_str().expect("op");
        let (group, kind) = code.split_once('.').expect("group");
        match group {
            "map" => self.map_op(kind, op),
            "iri" => self.iri_op(kind, op),
            "name" => self.name_op(kind, op),
            _ => panic!("harness: no group {group}"),
        }
    }

    fn observe(&mut self) -> Value {
        json!(self
            .maps
            .iter()
            .map(|m| m
                .mappings()
                .map(|(p, i)| json!([cps(p.as_ref()), itext(i)]))
                .collect::<Vec<_>>())
            .collect::<Vec<_>>())
    }
}

fn main() {
    run(Iris::default());
}
