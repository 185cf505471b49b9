#[path = "../../common/mod.rs"]
mod common;
#[path = "../../common/model.rs"]
mod model;
use common::*;
use model::*;
use objio::{HasOptions, ObjectReader, ObjectWriter};
use rdftk_core::error::Error;
use rdftk_core::model::data_set::DataSet;
use rdftk_core::model::graph::Graph;
use rdftk_io::dot::{DotOptions, DotWriter};
use rdftk_io::json::{JsonOptions, JsonReader, JsonWriter};
use rdftk_io::nq::{NQuadReader, NQuadWriter};
use rdftk_io::nt::{NTripleReader, NTripleWriter, NTripleWriterOptions};
use rdftk_io::turtle::{TurtleWriter, TurtleWriterOptions};
use rdftk_io::xml::{XmlOptions, XmlReader, XmlWriter};
use std::io::{Read, Write};
use std::str::FromStr;

const OUT: Out = Out(as_string);
const CPS: Out = Out(cps);

struct Io;

fn flag(options: &Value, name: &str) -> bool {
    options[name].as_bool().unwrap_or(false)
}

fn quads(out: &Out, d: &DataSet) -> Value {
    let mut result = Vec::new();
    for g in d.graphs() {
        result.push(json!([out.name(g.name()), out.statements(g.statements())]));
    }
    Value::Array(result)
}

fn triples(out: &Out, g: &Graph) -> Value {
    json!([[out.name(g.name()), out.statements(g.statements())]])
}

fn read(format: &str, out: &Out, document: &str) -> Value {
    read_from(format, out, &mut document.as_bytes())
}

fn read_from<R: Read>(format: &str, out: &Out, bytes: &mut R) -> Value {
    let graph = match format {
        "nt" => NTripleReader::default().read(bytes),
        "json" => JsonReader::default().read(bytes),
        "xml" => XmlReader::default().read(bytes),
        "nq" => {
            return match NQuadReader::default().read(bytes) {
                Ok(d) => ok(quads(out, &d)),
                Err(_) => json!(["err"]),
            }
        }
        _ => return json!(["none"]),
    };
    match graph {
        Ok(g) => ok(triples(out, &g)),
        Err(_) => json!(["err"]),
    }
}

fn written(format: &str, document: Result<String, Error>) -> Value {
    match document {
        Ok(text) => json!(["ok", cps(&text), read(format, &CPS, &text)]),
        Err(_) => json!(["err"]),
    }
}

/// Where a document goes: so many bytes at a time, until there is no room.
#[derive(Default)]
struct Sink {
    bytes: Vec<u8>,
    step: Option<usize>,
    limit: Option<usize>,
    /// Whether there is an error, or only no progress, when there is no more room.
    silent: bool,
    /// Whether there is room again after that.
    once: bool,
    interrupt: bool,
    refused: bool,
}

impl Write for Sink {
    fn write(&mut self, data: &[u8]) -> std::io::Result<usize> {
        if self.step.is_some() {
            self.interrupt = !self.interrupt;
            if self.interrupt {
                return Err(std::io::ErrorKind::Interrupted.into());
            }
        }
        let room = self.limit.map(|l| l - self.bytes.len()).unwrap_or(usize::MAX);
        let n = data.len().min(self.step.unwrap_or(usize::MAX)).min(room);
        if n == 0 && !data.is_empty() {
            self.refused = true;
            if self.once {
                self.limit = None;
            }
            return if self.silent { Ok(0) } else { Err(std::io::Error::other("no more room")) };
        }
        self.bytes.extend_from_slice(&data[..n]);
        Ok(n)
    }

    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// Where a document comes from: so many bytes at a time, until there is an error.
struct Source {
    bytes: Vec<u8>,
    at: usize,
    step: Option<usize>,
    fail: Option<usize>,
    /// Whether there is more after the error.
    once: bool,
    interrupt: bool,
    failed: bool,
}

impl Read for Source {
    fn read(&mut self, data: &mut [u8]) -> std::io::Result<usize> {
        if self.step.is_some() {
            self.interrupt = !self.interrupt;
            if self.interrupt {
                return Err(std::io::ErrorKind::Interrupted.into());
            }
        }
        let end = self.fail.unwrap_or(usize::MAX).min(self.bytes.len());
        let n = data.len().min(self.step.unwrap_or(usize::MAX)).min(end - self.at);
        if n == 0 && !data.is_empty() && self.fail.is_some() {
            self.failed = true;
            if self.once {
                self.fail = None;
            }
            return Err(std::io::Error::other("no more data"));
        }
        data[..n].copy_from_slice(&self.bytes[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}

fn number(v: &Value, name: &str) -> Option<usize> {
    v[name].as_u64().map(|n| n as usize)
}

/// One writer writes every graph, one after the other, each to a sink of its own.
fn write_all<W>(format: &str, writer: W, graphs: &[Graph], sinks: &Value) -> Value
where
    W: ObjectWriter<Graph, Error = Error>,
{
    let write = |(i, g): (usize, &Graph)| {
        if sinks.is_null() {
            return written(format, writer.write_to_string(g));
        }
        let o = &sinks[i];
        // Room for all of the document, or for all but so many bytes of it.
        let most = number(o, "back").map(|back| {
            let mut all = Vec::new();
            let _ = writer.write(&mut all, g);
            all.len().saturating_sub(back)
        });
        let mut sink = Sink {
            step: number(o, "step"),
            limit: number(o, "limit").or(most),
            silent: flag(o, "silent"),
            once: flag(o, "once"),
            ..Default::default()
        };
        let result = writer.write(&mut sink, g);
        let text = String::from_utf8(sink.bytes);
        json!([sink.refused, written(format, result.map(|_| text.expect("UTF-8")))])
    };
    Value::Array(graphs.iter().enumerate().map(write).collect())
}

fn write(format: &str, o: &Value, graphs: &[Graph], sinks: &Value) -> Value {
    let string = |name: &str| o[name].as_str().map(|s| s.to_string());
    match format {
        "nt" => {
            let mut writer = NTripleWriter::default();
            if let Some(force) = o["force"].as_bool() {
                writer.set_options(NTripleWriterOptions::default().force_string_literals(force));
            }
            write_all(format, writer, graphs, sinks)
        }
        "nq" => write_all(format, NQuadWriter::default(), graphs, sinks),
        "json" => {
            let mut options = JsonOptions::default();
            if flag(o, "set") {
                options.set_pretty_print(flag(o, "pretty"));
            } else {
                options = options.with_pretty_print(flag(o, "pretty"));
            }
            write_all(format, JsonWriter::default().with_options(options), graphs, sinks)
        }
        "xml" => {
            let mut options = XmlOptions::default();
            options = if flag(o, "striped") { options.striped() } else { options.flat() };
            options = if flag(o, "pretty") { options.pretty() } else { options.plain() };
            if let Some(encoding) = string("encoding") {
                options = options.with_encoding(encoding);
            }
            write_all(format, XmlWriter::default().with_options(options), graphs, sinks)
        }
        "turtle" => {
            let mut options = TurtleWriterOptions::default();
            if flag(o, "set") {
                options.set_nest_blank_nodes(flag(o, "nest"));
                options.set_use_sparql_style(flag(o, "sparql"));
                options.set_use_intellij_style(flag(o, "intellij"));
                options.set_place_type_on_subject_line(flag(o, "type_line"));
                options.set_predicate_padding(flag(o, "padding"));
                if let Some(width) = o["indent"].as_u64() {
                    options.set_indent_width(width as usize);
                }
            } else {
                options = if flag(o, "nest") {
                    options.with_nested_blank_nodes()
                } else {
                    options.without_nested_blank_nodes()
                };
                if flag(o, "sparql") {
                    options = options.with_sparql_style();
                }
                if flag(o, "intellij") {
                    options = options.with_intellij_style();
                }
                if flag(o, "type_line") {
                    options.set_place_type_on_subject_line(true);
                }
                options = options.with_predicate_padding(flag(o, "padding"));
                if let Some(width) = o["indent"].as_u64() {
                    options = options.with_indent_width(width as usize);
                }
            }
            if let Some(base) = string("base") {
                let base = rdftk_iri::Iri::from_str(&base).unwrap();
                if flag(o, "set") {
                    options.set_id_base(base);
                } else {
                    options = options.with_id_base(base);
                }
                if let Some(from) = string("to_base") {
                    options.set_convert_to_id_base(rdftk_iri::Iri::from_str(&from).unwrap());
                }
            }
            write_all(format, TurtleWriter::default().with_options(options), graphs, sinks)
        }
        "dot" => {
            let mut options = DotOptions::default();
            if flag(o, "set") {
                options.set_blank_labels(flag(o, "labels"));
                if let Some(v) = string("prefix") {
                    options.set_node_prefix(v);
                }
                if let Some(v) = string("blank") {
                    options.set_blank_shape(format!("{v}S"));
                    options.set_blank_color(format!("{v}C"));
                }
                if let Some(v) = string("iri") {
                    options.set_iri_shape(format!("{v}S"));
                    options.set_iri_color(format!("{v}C"));
                }
                if let Some(v) = string("literal") {
                    options.set_literal_shape(format!("{v}S"));
                    options.set_literal_color(format!("{v}C"));
                }
                write_all(format, DotWriter::new(options), graphs, sinks)
            } else {
                options = options.with_blank_labels(flag(o, "labels"));
                if let Some(v) = string("prefix") {
                    options = options.with_node_prefix(v);
                }
                if let Some(v) = string("blank") {
                    options = options.with_blank_shape(format!("{v}S")).with_blank_color(format!("{v}C"));
                }
                if let Some(v) = string("iri") {
                    options = options.with_iri_shape(format!("{v}S")).with_iri_color(format!("{v}C"));
                }
                if let Some(v) = string("literal") {
                    options = options.with_literal_shape(format!("{v}S")).with_literal_color(format!("{v}C"));
                }
                write_all(format, DotWriter::default().with_options(options), graphs, sinks)
            }
        }
        _ => panic!("harness: no format {format}"),
    }
}

impl Sut for Io {
    fn reset(&mut self, _: &Value) {}

    fn apply(&mut self, op: &Value) -> Value {
        let format = op["fmt"].as_str().expect("fmt");
        let graphs = || op["vs"].as_array().expect("graphs").iter().map(to_graph).collect::<Vec<_>>();
        match op["op"].as_str().expect("op") {
            "io.read" => read(format, &CPS, &text(&op["t"])),
            "io.read_bytes" => {
                let bytes = op["bytes"].as_array().expect("bytes").iter().map(|b| b.as_u64().expect("byte") as u8).collect();
                let mut source = Source {
                    bytes,
                    at: 0,
                    step: number(&op["source"], "step"),
                    fail: number(&op["source"], "fail"),
                    once: flag(&op["source"], "once"),
                    interrupt: false,
                    failed: false,
                };
                let result = read_from(format, &CPS, &mut source);
                json!([source.failed, result])
            }
            "io.write" | "io.write_to" => write(format, &op["with"], &graphs(), &op["sinks"]),
            // One data set of all the graphs.
            "io.write_set" => {
                let mut data = DataSet::default();
                for g in graphs() {
                    data.insert(g);
                }
                json!([written(format, NQuadWriter::default().write_to_string(&data))])
            }
            // The flat statements that a graph is drawn as.
            "io.draw" => {
                let graphs: Vec<Graph> =
                    graphs().iter().map(|g| g.simplify().unwrap_or_else(|e| panic!("simplify: {e}"))).collect();
                json!([
                    graphs.iter().map(|g| OUT.graph(g)).collect::<Vec<_>>(),
                    write(format, &op["with"], &graphs, &op["sinks"])
                ])
            }
            other => panic!("harness: no operation {other}"),
        }
    }

    fn observe(&mut self) -> Value {
        json!([])
    }
}

fn main() {
    run(Io);
}
