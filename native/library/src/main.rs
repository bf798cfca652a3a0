//! Drives `stuart_core` as a library: reads commands from stdin and answers each with some lines and a final ".".
//!
//! The fields of a command are separated by tabs, and everything but plain characters in them is written as `%XX`.

use stuart_core::error::{FsError, TracebackError};
use stuart_core::functions::{Function, FunctionParser};
use stuart_core::parse::{ParseError, ParsedContents, RawArgument, RawFunction};
use stuart_core::plugins::{Manager, NodeParser, NodeProcessor, Plugin};
use stuart_core::process::{ProcessError, ProcessOutput, Scope};
use stuart_core::{Config, Environment, Error, Node, Stuart};

use std::collections::HashMap;
use std::ffi::OsString;
use std::io::{self, BufRead, Write};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::{Path, PathBuf};

fn enc(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len());
    for &c in b {
        if c.is_ascii_alphanumeric() || b"/._-".contains(&c) {
            s.push(c as char);
        } else {
            s.push_str(&format!("%{:02X}", c));
        }
    }
    s
}

fn dec(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut v = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' {
            v.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
            i += 3;
        } else {
            v.push(b[i]);
            i += 1;
        }
    }
    v
}

fn path(s: &str) -> PathBuf {
    PathBuf::from(OsString::from_vec(dec(s)))
}

fn text(s: &str) -> String {
    String::from_utf8(dec(s)).unwrap()
}

fn epath(p: &Path) -> String {
    enc(p.as_os_str().as_bytes())
}

fn result(r: Result<(), Error>) -> String {
    match r {
        Ok(()) => "ok".to_string(),
        Err(Error::Fs(FsError::NotFound(p))) => format!("err\tnotfound\t{}", enc(p.as_bytes())),
        Err(Error::Fs(FsError::Read)) => "err\tread".to_string(),
        Err(Error::Fs(FsError::Write)) => "err\twrite".to_string(),
        Err(Error::Fs(FsError::Conflict(a, b))) => {
            format!("err\tconflict\t{}\t{}", epath(&a), epath(&b))
        }
        Err(Error::Parse(t)) => format!("err\tparse\t{}\t{}", epath(&t.path), t.line),
        Err(Error::Process(t)) => format!("err\tprocess\t{}\t{}", epath(&t.path), t.line),
        Err(Error::Plugin(m)) => format!("err\tplugin\t{}", enc(m.as_bytes())),
        Err(Error::NotBuilt) => "err\tnotbuilt".to_string(),
        Err(Error::MetadataNotEnabled) => "err\tmetadata".to_string(),
    }
}

// -- plugins that are linked statically ------------------------------------------------------------------------------

struct Say(&'static str);

#[derive(Debug)]
struct Said(&'static str, Vec<RawArgument>);

impl FunctionParser for Say {
    fn name(&self) -> &'static str {
        self.0
    }

    fn parse(&self, raw: RawFunction) -> Result<Box<dyn Function>, ParseError> {
        Ok(Box::new(Said(self.0, raw.positional_args)))
    }
}

impl Function for Said {
    fn name(&self) -> &'static str {
        self.0
    }

    fn execute(&self, scope: &mut Scope) -> Result<(), TracebackError<ProcessError>> {
        let mut s = format!("[{}", self.0);
        for a in &self.1 {
            match a {
                RawArgument::String(t) => s.push_str(&format!(" {}", t)),
                RawArgument::Integer(i) => s.push_str(&format!(" {}", i)),
                RawArgument::Variable(v) => s.push_str(&format!(" {:?}", scope.get_variable(v).is_some())),
                RawArgument::Ident(i) => s.push_str(&format!(" {}", i)),
            }
        }
        s.push(']');
        let token = scope.tokens.current().unwrap().clone();
        scope.output(s).map_err(|e| token.traceback(e))
    }
}

struct Reverse(&'static str);
struct Reversed(Vec<u8>);

impl NodeParser for Reverse {
    fn extensions(&self) -> Vec<&'static str> {
        vec![self.0]
    }

    fn parse(&self, contents: &[u8], _: &Path) -> Result<Box<dyn NodeProcessor>, String> {
        if contents.starts_with(b"!") {
            return Err(format!("no {}", String::from_utf8_lossy(contents)));
        }
        Ok(Box::new(Reversed(contents.to_vec())))
    }
}

impl NodeProcessor for Reversed {
    fn process(&self, _: &Stuart, _: Environment) -> Result<ProcessOutput, String> {
        Ok(ProcessOutput {
            new_contents: Some(self.0.iter().rev().copied().collect()),
            new_name: None,
        })
    }
}

fn plugins(n: usize) -> Vec<Plugin> {
    let plugin = |name: &str, f: &'static str, e: &'static str| Plugin {
        name: name.to_string(),
        version: "1".to_string(),
        functions: vec![Box::new(Say(f))],
        parsers: vec![Box::new(Reverse(e))],
    };
    let mut v = vec![plugin("one", "say", "rev")];
    if n > 1 {
        v.push(plugin("two", "tell", "ver"));
    }
    v
}

struct Own(Vec<Plugin>);

impl Manager for Own {
    fn plugins(&self) -> &[Plugin] {
        &self.0
    }
}

fn with_plugins(s: Stuart, how: &str) -> Stuart {
    match how {
        "none" => s,
        "vec1" => s.with_plugins(plugins(1)),
        "vec2" => s.with_plugins(plugins(2)),
        "box" => s.with_plugins(plugins(2).into_boxed_slice()),
        "own" => s.with_plugins(Own(plugins(2))),
        "rc" => s.with_plugins(std::rc::Rc::<[Plugin]>::from(plugins(2))),
        "empty" => s.with_plugins(Vec::new()),
        _ => unreachable!(),
    }
}

// -- commands --------------------------------------------------------------------------------------------------------

/// strip, data, metadata, name, author
fn config(f: &[&str]) -> Config {
    Config {
        name: text(f[3]),
        author: if f[4] == "-" { None } else { Some(text(&f[4][1..])) },
        strip_extensions: f[0] == "1",
        save_data_files: f[1] == "1",
        save_metadata: f[2] == "1",
    }
}

fn dump(n: &Node, depth: usize, out: &mut Vec<String>) {
    if let Some(children) = n.children() {
        assert!(n.is_dir() && !n.is_file() && n.contents().is_none());
        out.push(format!("d\t{}\t{}\t{}", depth, enc(n.name().as_bytes()), epath(n.source())));
        for c in children {
            dump(c, depth + 1, out);
        }
    } else {
        assert!(n.is_file() && !n.is_dir());
        out.push(format!(
            "f\t{}\t{}\t{}\t{}\t{}",
            depth,
            enc(n.name().as_bytes()),
            epath(n.source()),
            if n.parsed_contents().is_ignored() { "ignored" } else if n.parsed_contents().tokens().is_some() { "html" } else if n.parsed_contents().markdown().is_some() { "markdown" } else if matches!(n.parsed_contents(), ParsedContents::Json(_)) { "json" } else { "-" },
            enc(n.contents().unwrap())
        ));
    }
}

fn main() {
    let stdin = io::stdin();
    let mut input = stdin.lock();
    let mut stuarts: HashMap<String, Stuart> = HashMap::new();
    let mut nodes: HashMap<String, Node> = HashMap::new();

    loop {
        let mut line = String::new();
        if input.read_line(&mut line).unwrap() == 0 {
            return;
        }
        let f: Vec<&str> = line.trim_end_matches('\n').split('\t').collect();
        let mut out = Vec::new();

        match f[0] {
            "new" => {
                let s = Stuart::new(path(f[2]));
                // The order of the two makes no difference.
                let s = if f[4] == "1" {
                    with_plugins(s, f[3]).with_config(config(&f[5..]))
                } else {
                    with_plugins(s.with_config(config(&f[5..])), f[3])
                };
                stuarts.insert(f[1].to_string(), s);
            }
            "drop" => {
                stuarts.remove(f[1]);
                nodes.remove(f[1]);
            }
            "config" => stuarts.get_mut(f[1]).unwrap().config = config(&f[2..]),
            "build" => out.push(result(stuarts.get_mut(f[1]).unwrap().build(text(f[2])))),
            "merge" => {
                let node = Node::new(path(f[2]), false).unwrap();
                out.push(result(stuarts.get_mut(f[1]).unwrap().merge_output(node)));
            }
            "save" => out.push(result(stuarts[f[1]].save(path(f[2])))),
            "meta" => out.push(result(stuarts[f[1]].save_metadata(path(f[2])))),
            "node" => match Node::new(path(f[2]), f[3] == "1") {
                Ok(n) => {
                    out.push("ok".to_string());
                    dump(&n, 0, &mut out);
                    nodes.insert(f[1].to_string(), n);
                }
                Err(e) => out.push(result(Err(e))),
            },
            // Merges the second tree into the first one.
            "nmerge" => {
                let other = nodes.remove(f[2]).unwrap();
                let node = nodes.get_mut(f[1]).unwrap();
                out.push(result(node.merge(other)));
                dump(node, 0, &mut out);
            }
            "get" => match nodes[f[1]].get_at_path(&path(f[2])) {
                Some(n) => dump(n, 0, &mut out),
                None => out.push("none".to_string()),
            },
            "nsave" => out.push(result(nodes[f[1]].save(path(f[2]), &config(&f[3..])))),
            "output" => match &stuarts[f[1]].output {
                Some(n) => dump(n, 0, &mut out),
                None => out.push("none".to_string()),
            },
            // Builds and saves in as many threads as there are fields, several times each.
            "threads" => {
                let n: usize = f[1].parse().unwrap();
                let threads: Vec<_> = f[2..]
                    .chunks(9)
                    .map(|c| c.iter().map(|s| s.to_string()).collect::<Vec<_>>())
                    .map(|c| {
                        std::thread::spawn(move || {
                            let c: Vec<&str> = c.iter().map(|s| s.as_str()).collect();
                            let mut s = with_plugins(Stuart::new(path(c[0])), c[3]).with_config(config(&c[4..]));
                            let mut r = String::new();
                            for _ in 0..n {
                                r = result(s.build(text(c[1])).and_then(|_| s.save(path(c[2]))));
                            }
                            r
                        })
                    })
                    .collect();
                for t in threads {
                    out.push(t.join().unwrap_or_else(|_| "panic".to_string()));
                }
            }
            _ => panic!("{:?}", line),
        }

        let mut o = io::stdout().lock();
        for l in out {
            writeln!(o, "{}", l).unwrap();
        }
        writeln!(o, ".").unwrap();
        o.flush().unwrap();
    }
}
