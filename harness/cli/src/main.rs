//! Runs the command-line tool, which is built next to this harness.
#[path = "../../common/mod.rs"]
mod common;
use common::*;
use std::io::{Read, Write};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

struct Cli;

extern "C" {
    fn setrlimit(resource: i32, limits: *const [u64; 2]) -> i32;
    fn signal(number: i32, handler: usize) -> usize;
}
const RLIMIT_FSIZE: i32 = 1;
const SIGXFSZ: i32 = 25;
const SIG_IGN: usize = 1;

fn name(format: &str) -> &str {
    match format {
        "nt" => "n-triples",
        "nq" => "n-quads",
        other => other,
    }
}

fn execute(op: &Value) -> Value {
    let get = |n: &str| op[n].as_str().expect("string");
    let document = text(&op["t"]).into_bytes();
    let tool = std::env::current_exe().expect("exe").with_file_name("rdftk");
    let mut command = Command::new(tool);
    command.env_clear().stderr(Stdio::piped()).stdout(Stdio::piped()).stdin(Stdio::null());
    command.env("TMPDIR", ".").env("HOME", ".");
    for n in ["in.txt", "out.txt"] {
        let _ = std::fs::remove_file(n);
    }
    if let Some(level) = op["log"].as_str() {
        command.args(["--log-filter", level]);
    }
    if let Some(level) = op["env"].as_str() {
        command.env("RUST_LOG", level);
    }
    command.arg(get("cmd")).args(["--from", name(get("from"))]);
    if get("cmd") == "convert" && !(get("to") == "turtle" && op["log"].is_null()) {
        command.args(["--to", name(get("to"))]);
    }
    let mut feed = None;
    match get("in") {
        "stdin" => feed = Some(usize::MAX),
        "slow" => feed = Some(17),
        "file" => {
            std::fs::write("in.txt", &document).expect("input");
            command.args(["--input", "in.txt"]);
        }
        "missing" => {
            command.args(["--input", "nothing/in.txt"]);
        }
        "directory" => {
            command.stdin(std::fs::File::open(".").expect("directory"));
        }
        other => panic!("harness: no input {other}"),
    }
    if feed.is_some() {
        command.stdin(Stdio::piped());
    }
    let mut file = None;
    match get("out") {
        "stdout" => {}
        "closed" => {
            let (reader, writer) = std::io::pipe().expect("pipe");
            drop(reader);
            command.stdout(writer);
        }
        "file" => file = Some("out.txt"),
        "over" => {
            std::fs::write("out.txt", vec![b'x'; 4096]).expect("output");
            file = Some("out.txt");
        }
        "limit" => {
            let room = op["room"].as_u64().expect("room");
            file = Some("out.txt");
            // The disk has no more room than this.
            unsafe {
                command.pre_exec(move || {
                    signal(SIGXFSZ, SIG_IGN);
                    if setrlimit(RLIMIT_FSIZE, &[room, room]) != 0 {
                        return Err(std::io::Error::last_os_error());
                    }
                    Ok(())
                });
            }
        }
        "full" => {
            command.stdout(std::fs::OpenOptions::new().write(true).open("/dev/full").expect("full"));
        }
        "device" => {
            command.args(["--output", "/dev/full"]);
        }
        "nowhere" => {
            command.args(["--output", "nothing/out.txt"]);
        }
        other => panic!("harness: no output {other}"),
    }
    if let Some(path) = file {
        command.args(["--output", path]);
    }
    let mut child = command.spawn().expect("the tool");
    let stdout = child.stdout.take();
    // What the child holds is not held here.
    drop(command);
    let mut stderr = child.stderr.take().expect("stderr");
    let stdin = child.stdin.take();
    let (status, output) = std::thread::scope(|s| {
        if let (Some(step), Some(mut stdin)) = (feed, stdin) {
            let document = &document;
            s.spawn(move || {
                // The tool need not read all of it.
                for part in document.chunks(step.min(document.len().max(1))) {
                    if stdin.write_all(part).is_err() {
                        break;
                    }
                }
            });
        }
        let output = s.spawn(move || {
            let mut bytes = Vec::new();
            if let Some(mut out) = stdout {
                out.read_to_end(&mut bytes).expect("stdout");
            }
            bytes
        });
        s.spawn(move || {
            let mut bytes = Vec::new();
            stderr.read_to_end(&mut bytes).expect("stderr");
        });
        let start = Instant::now();
        let status = loop {
            if let Some(status) = child.try_wait().expect("wait") {
                break status;
            }
            if start.elapsed() > Duration::from_secs(60) {
                child.kill().expect("kill");
            }
            std::thread::sleep(Duration::from_micros(200));
        };
        (status, output.join().expect("output"))
    });
    let bytes = match file {
        Some(path) => std::fs::read(path).unwrap_or_default(),
        None => output,
    };
    let code = status.code().unwrap_or_else(|| 1000 + status.signal().unwrap_or(0));
    let written = match String::from_utf8(bytes) {
        Ok(text) => json!(["text", cps(&text)]),
        Err(_) => json!(["bytes"]),
    };
    json!([code, written])
}

impl Sut for Cli {
    fn reset(&mut self, _: &Value) {}

    fn apply(&mut self, op: &Value) -> Value {
        match op["op"].as_str().expect("op") {
            "cli.run" => execute(op),
            other => panic!("harness: no operation {other}"),
        }
    }

    fn observe(&mut self) -> Value {
        json!([])
    }
}

fn main() {
    run(Cli);
}
