//! A native plugin that monitors how it is used.
//!
//! Every object which it gives to Stuart writes its creation, its uses and its destruction to the log named by
//! `PROBE_LOG`, and the library its own loading and unloading. What the plugin is called and what it provides is read
//! from the file `<library>.cfg` beside it, so that one build can play any number of plugins.

mod log;

use log::{log, Tracked};

use stuart_core::declare_plugin;
use stuart_core::error::TracebackError;
use stuart_core::fs::ParsedContents;
use stuart_core::functions::{Function, FunctionParser};
use stuart_core::parse::{ParseError, RawArgument, RawFunction};
use stuart_core::plugins::{NodeParser, NodeProcessor};
use stuart_core::process::{ProcessError, ProcessOutput, Scope};
use stuart_core::{Environment, Stuart};

use humphrey_json::Value;

use std::path::{Path, PathBuf};

/// Extensions live in the library's own constant data, so that they are gone when it is unloaded.
static EXTENSIONS: [&str; 12] = [
    "foo", "bar", "baz", "probe", "gz", "css", "js", "txt", "HTML", "é", "png", "x-y",
];

fn cfg(key: &str, n: usize) -> Vec<String> {
    let library = log::library();
    // The configuration of a library that has been downloaded is in the directory named by `PROBE_CFG`.
    std::fs::read_to_string(format!("{}.cfg", library))
        .or_else(|_| {
            std::fs::read_to_string(format!(
                "{}/{}.cfg",
                std::env::var("PROBE_CFG").unwrap_or_default(),
                library.rsplit('/').next().unwrap_or("")
            ))
        })
        .unwrap_or_default()
        .lines()
        .map(|l| l.split('\t').map(|s| s.to_string()).collect::<Vec<_>>())
        .filter(|l| l[0] == key)
        .nth(n)
        .unwrap_or_default()
}

fn get(v: &[String], i: usize, default: &str) -> String {
    v.get(i).cloned().unwrap_or_else(|| default.to_string())
}

// -- functions -------------------------------------------------------------------------------------------------------

struct ProbeParser {
    tracked: Tracked,
    name: String,
    kind: String,
}

impl ProbeParser {
    fn slot(n: usize) -> Self {
        let c = cfg("fn", n);
        Self {
            tracked: Tracked::new("fnparser"),
            name: get(&c, 1, &format!("unused_{}", n)),
            kind: get(&c, 2, "echo"),
        }
    }
}

fn show(a: &RawArgument) -> String {
    match a {
        RawArgument::Variable(v) => format!("V{}:{}", v.len(), v),
        RawArgument::String(s) => format!("S{}:{}", s.len(), s),
        RawArgument::Ident(i) => format!("D{}:{}", i.len(), i),
        RawArgument::Integer(i) => format!("I{}", i),
    }
}

impl FunctionParser for ProbeParser {
    fn name(&self) -> &str {
        self.tracked.check("name");
        &self.name
    }

    fn parse(&self, raw: RawFunction) -> Result<Box<dyn Function>, ParseError> {
        self.tracked.used("parse");

        if self.kind == "failparse" {
            return Err(match raw.positional_args.first() {
                Some(RawArgument::String(s)) => ParseError::Expected(s.clone()),
                _ => ParseError::InvalidArgument,
            });
        }

        Ok(Box::new(ProbeFunction {
            tracked: Tracked::new("fn"),
            name: self.name.clone(),
            kind: self.kind.clone(),
            called: raw.name,
            positional: raw.positional_args,
            named: raw.named_args,
        }))
    }
}

#[derive(Debug)]
struct ProbeFunction {
    tracked: Tracked,
    name: String,
    kind: String,
    called: String,
    positional: Vec<RawArgument>,
    named: Vec<(String, RawArgument)>,
}

impl ProbeFunction {
    fn int(&self, i: usize) -> usize {
        self.positional
            .get(i)
            .and_then(|a| a.as_integer())
            .unwrap_or(0)
            .max(0) as usize
    }
}

fn plugin_error(scope: &Scope, message: String) -> TracebackError<ProcessError> {
    scope
        .tokens
        .current()
        .unwrap()
        .traceback(ProcessError::Plugin(message))
}

impl Function for ProbeFunction {
    fn name(&self) -> &str {
        self.tracked.check("name");
        &self.name
    }

    fn execute(&self, scope: &mut Scope) -> Result<(), TracebackError<ProcessError>> {
        self.tracked.used("execute");

        match self.kind.as_str() {
            // Outputs its name and arguments.
            "echo" => {
                let mut s = format!("[{}", self.called);
                for a in &self.positional {
                    s.push('|');
                    s.push_str(&show(a));
                }
                for (k, a) in &self.named {
                    s.push_str(&format!("|{}={}", k, show(a)));
                }
                s.push(']');
                let _ = scope.output(s);
            }
            // Outputs the JSON of variables.
            "get" => {
                for a in &self.positional {
                    let s = match a.as_variable().and_then(|v| scope.get_variable(v)) {
                        Some(v) => v.serialize(),
                        None => "undefined".into(),
                    };
                    let _ = scope.output(s);
                }
            }
            // Defines a variable.
            "set" => {
                let name = self.positional[0].as_string().unwrap_or("x").to_string();
                let value = match &self.positional[1] {
                    RawArgument::String(s) => Value::String(s.clone()),
                    RawArgument::Integer(i) => Value::Number(*i as f64),
                    RawArgument::Variable(v) => scope.get_variable(v).unwrap_or(Value::Null),
                    RawArgument::Ident(i) => {
                        Value::Array(vec![Value::String(i.clone()), Value::Bool(true)])
                    }
                };
                scope.stack.last_mut().unwrap().add_variable(name, value);
            }
            // Outputs a number of characters.
            "big" => {
                let n = self.int(0);
                let _ = scope.output((0..n).map(|i| b'a' + (i % 26) as u8).collect::<Vec<_>>());
            }
            // Outputs a number of bytes, not all of which are UTF-8.
            "bytes" => {
                let n = self.int(0);
                let _ = scope.output((0..n).map(|i| (i * 7 % 256) as u8).collect::<Vec<_>>());
            }
            // Processes the next token a number of times.
            "repeat" => {
                let w = scope.tokens.waypoint();
                for _ in 0..self.int(0) {
                    scope.tokens.rewind_to(w);
                    if let Some(t) = scope.tokens.next() {
                        t.process(scope)?;
                    }
                }
            }
            // Skips a number of tokens.
            "skip" => {
                for _ in 0..self.int(0) {
                    scope.tokens.next();
                }
            }
            // Fails.
            "failexec" => {
                return Err(plugin_error(scope, get_message(&self.positional)));
            }
            k => {
                return Err(plugin_error(scope, format!("unknown kind {}", k)));
            }
        }

        self.tracked.check("executed");
        Ok(())
    }
}

fn get_message(args: &[RawArgument]) -> String {
    args.first()
        .and_then(|a| a.as_string())
        .unwrap_or("failed")
        .to_string()
}

// -- parsers ---------------------------------------------------------------------------------------------------------

struct ProbeNodeParser {
    tracked: Tracked,
    extensions: Vec<&'static str>,
}

impl ProbeNodeParser {
    fn slot(n: usize) -> Self {
        let c = cfg("ext", n);
        Self {
            tracked: Tracked::new("nodeparser"),
            extensions: EXTENSIONS
                .iter()
                .filter(|e| c.iter().skip(1).any(|x| x == *e))
                .copied()
                .collect(),
        }
    }
}

/// What a file asks for in its first lines.
#[derive(Default, Clone)]
struct Wishes {
    rename: Option<String>,
    contents: Option<Vec<u8>>,
    env: bool,
    fail: Option<String>,
    json: Option<Value>,
}

impl NodeParser for ProbeNodeParser {
    fn extensions(&self) -> Vec<&'static str> {
        self.tracked.check("extensions");
        self.extensions.clone()
    }

    fn parse(&self, contents: &[u8], path: &Path) -> Result<Box<dyn NodeProcessor>, String> {
        self.tracked.used("parse");
        log(&format!(
            "parse\t{}\t{}\t{:016x}",
            log::hex(path.to_string_lossy().as_bytes()),
            contents.len(),
            log::fnv(contents)
        ));

        let mut w = Wishes::default();
        let mut plain = false;
        let mut rest = contents;

        while rest.first() == Some(&b'!') {
            let end = rest.iter().position(|b| *b == b'\n').unwrap_or(rest.len());
            let line = String::from_utf8_lossy(&rest[1..end]).to_string();
            rest = &rest[(end + 1).min(rest.len())..];
            let (cmd, arg) = line.split_once(' ').unwrap_or((&line, ""));

            match cmd {
                "rename" => w.rename = Some(arg.to_string()),
                "reverse" => w.contents = Some(rest.iter().rev().copied().collect()),
                "empty" => w.contents = Some(Vec::new()),
                "double" => w.contents = Some(contents.repeat(2)),
                "env" => w.env = true,
                "err-parse" => return Err(arg.to_string()),
                "err-process" => w.fail = Some(arg.to_string()),
                "json" => w.json = humphrey_json::from_str(arg).ok(),
                "plain" => plain = true,
                _ => (),
            }
        }

        let processor = ProbeProcessor {
            tracked: Tracked::new("processor"),
            wishes: w,
            path: path.to_path_buf(),
        };

        if plain {
            Ok(Box::new(PlainProcessor(processor)))
        } else {
            Ok(Box::new(processor))
        }
    }
}

struct ProbeProcessor {
    tracked: Tracked,
    wishes: Wishes,
    path: PathBuf,
}

/// The same, but without metadata of its own.
struct PlainProcessor(ProbeProcessor);

impl NodeProcessor for PlainProcessor {
    fn process(&self, processor: &Stuart, env: Environment) -> Result<ProcessOutput, String> {
        self.0.process(processor, env)
    }
}

impl NodeProcessor for ProbeProcessor {
    fn process(&self, processor: &Stuart, env: Environment) -> Result<ProcessOutput, String> {
        self.tracked.used("process");
        let w = self.wishes.clone();

        if let Some(message) = w.fail {
            return Err(message);
        }

        let mut contents = w.contents;

        if w.env {
            let var = |name: &str| {
                env.vars
                    .iter()
                    .filter(|(k, _)| k == name)
                    .map(|(_, v)| v.clone())
                    .collect::<Vec<_>>()
                    .join(",")
            };
            let same = processor
                .input
                .as_ref()
                .map(|n| count(n, &self.path))
                .unwrap_or(0);
            contents = Some(
                format!(
                    "env={} foo={} root={} md={} same={}\n",
                    var("STUART_ENV"),
                    var("FOO"),
                    env.root.is_some(),
                    env.md.is_some(),
                    same
                )
                .into_bytes(),
            );
        }

        Ok(ProcessOutput {
            new_contents: contents,
            new_name: w.rename,
        })
    }

    fn to_json(&self) -> Value {
        self.tracked.used("to_json");
        Value::Object(vec![
            ("type".into(), Value::String("probe".into())),
            (
                "value".into(),
                self.wishes.json.clone().unwrap_or(Value::Null),
            ),
        ])
    }
}

/// How many nodes of the input have the given path and were parsed by a plugin.
fn count(node: &stuart_core::Node, path: &Path) -> usize {
    let own = (node.source() == path
        && matches!(node.children(), None)
        && matches!(node.parsed_contents(), ParsedContents::Custom(_))) as usize;
    own + node
        .children()
        .map(|c| c.iter().map(|n| count(n, path)).sum())
        .unwrap_or(0)
}

// -- the plugin ------------------------------------------------------------------------------------------------------

fn name() -> String {
    log("init");
    let n = get(&cfg("name", 0), 1, "probe");
    if !cfg("abort", 0).is_empty() {
        std::process::abort();
    }
    n
}

declare_plugin! {
    name: name(),
    version: "1.0.0",
    functions: [
        ProbeParser::slot(0),
        ProbeParser::slot(1),
        ProbeParser::slot(2),
        ProbeParser::slot(3),
        ProbeParser::slot(4),
        ProbeParser::slot(5),
        ProbeParser::slot(6),
        ProbeParser::slot(7)
    ],
    parsers: [
        ProbeNodeParser::slot(0),
        ProbeNodeParser::slot(1)
    ],
}
