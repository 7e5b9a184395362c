//! Runs calls of the oxvg libraries that are described as JSON on standard input and prints what
//! came of them as JSON: calls with writers that fail, calls on several threads, and sessions of
//! actions that are saved and resumed.
use std::{
    cell::RefCell,
    io::{self, Read, Write},
    panic::{AssertUnwindSafe, catch_unwind},
    sync::{Arc, Barrier},
};

use oxvg_ast::{
    arena::Allocator,
    node::Ref,
    parse::roxmltree::parse_with_options,
    serialize::Node as _,
    visitor::Info,
    xmlwriter::{Indent, Options, Space},
};
use serde_json::{Value, json};
use swc_core::common::{GLOBALS, Globals};

mod session;
mod writer;

use writer::{FmtPlan, Plan};

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// What came of a call: `Ok`, an error or a panic
pub enum Outcome<T> {
    Ok(T),
    Err(String),
    Panic(String),
}

impl<T> Outcome<T> {
    pub fn to_json(&self, ok: impl FnOnce(&T) -> Value) -> Value {
        match self {
            Self::Ok(value) => json!({"ok": ok(value)}),
            Self::Err(err) => json!({"err": err}),
            Self::Panic(what) => json!({"panic": what}),
        }
    }
}

/// Calls `f`, turning a panic into an outcome
pub fn attempt<T>(f: impl FnOnce() -> Result<T, String>) -> Outcome<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(value)) => Outcome::Ok(value),
        Ok(Err(err)) => Outcome::Err(err),
        Err(_) => Outcome::Panic(PANIC.with(|p| p.borrow().clone())),
    }
}

pub fn text<'a>(value: &'a Value, key: &str) -> &'a str {
    value[key].as_str().unwrap_or("")
}

pub fn with_dom<T>(
    source: &str,
    f: impl for<'input, 'arena> FnOnce(
        Ref<'input, 'arena>,
        Allocator<'input, 'arena>,
    ) -> Result<T, String>,
) -> Result<T, String> {
    let options = roxmltree::ParsingOptions {
        allow_dtd: true,
        ..roxmltree::ParsingOptions::default()
    };
    parse_with_options(source, options, f).map_err(|err| err.to_string())?
}

fn indent(value: &Value) -> Indent {
    match value {
        Value::String(_) => Indent::Tabs,
        Value::Number(n) => Indent::Spaces(n.as_u64().unwrap_or(0) as u8),
        _ => Indent::None,
    }
}

fn options(value: &Value) -> Options {
    if value.is_null() {
        return Options::default();
    }
    Options {
        use_single_quote: value["single"].as_bool().unwrap_or(false),
        indent: indent(&value["indent"]),
        trim_whitespace: match text(value, "space") {
            "never" => Space::Never,
            "default" => Space::Default,
            "preserve" => Space::Preserve,
            _ => Space::Auto,
        },
        attributes_indent: indent(&value["attrs"]),
        enable_self_closing: value["closing"].as_bool().unwrap_or(true),
        minify: value["minify"].as_bool().unwrap_or(true),
    }
}

fn jobs(value: &Value) -> Result<oxvg_optimiser::Jobs, String> {
    match value {
        Value::String(s) if s == "safe" => Ok(oxvg_optimiser::Jobs::safe()),
        Value::Object(_) => serde_json::from_value(value.clone()).map_err(|err| err.to_string()),
        _ => Ok(oxvg_optimiser::Jobs::default()),
    }
}

fn jsx_config(value: &Value) -> Result<oxvg_jsx::Config, String> {
    use oxvg_jsx::config::{ExpandProps, ExportType, Icon, JSXRuntime};
    let flag = |key: &str| value[key].as_bool();
    Ok(oxvg_jsx::Config {
        r#ref: flag("ref"),
        title_prop: flag("title"),
        desc_prop: flag("desc"),
        expand_props: match text(value, "expand") {
            "start" => Some(ExpandProps::Start),
            "end" => Some(ExpandProps::End),
            "none" => Some(ExpandProps::None),
            _ => None,
        },
        dimensions: flag("dimensions"),
        icon: match &value["icon"] {
            Value::Bool(b) => Some(Icon::Bool(*b)),
            Value::String(s) => Some(Icon::String(s.clone())),
            Value::Number(n) => Some(Icon::Number(n.as_f64().unwrap_or(0.0))),
            _ => None,
        },
        native: flag("native"),
        typescript: flag("typescript"),
        oxvg: flag("oxvg"),
        oxvg_config: match &value["jobs"] {
            Value::Null => None,
            v => Some(jobs(v)?),
        },
        memo: flag("memo"),
        export_type: match text(value, "export") {
            "named" => Some(ExportType::Named),
            "default" => Some(ExportType::Default),
            _ => None,
        },
        named_export: value["name"].as_str().map(String::from),
        jsx_runtime: match text(value, "runtime") {
            "classic" => Some(JSXRuntime::Classic),
            "automatic" => Some(JSXRuntime::Automatic),
            "preact" => Some(JSXRuntime::ClassicPreact),
            _ => None,
        },
        warn: Some(false),
        ..oxvg_jsx::Config::default()
    })
}

fn rules(value: &Value) -> Result<oxvg_lint::Rules, String> {
    match value {
        Value::Object(_) => serde_json::from_value(value.clone()).map_err(|err| err.to_string()),
        _ => Ok(oxvg_lint::Rules::recommended()),
    }
}

/// The part of an operation that writes into a writer of the caller
fn write_into<W: Write>(op: &Value, w: &mut W) -> Result<(), String> {
    let source = text(op, "doc");
    match text(op, "op") {
        "format" => with_dom(source, |dom, _| {
            dom.serialize_into(w, options(&op["options"]))
                .map(|_| ())
                .map_err(|err| err.to_string())
        }),
        "optimise" => with_dom(source, |dom, allocator| {
            jobs(&op["jobs"])?
                .run(dom, &Info::new(allocator))
                .map_err(|err| err.to_string())?;
            dom.serialize_into(w, options(&op["options"]))
                .map(|_| ())
                .map_err(|err| err.to_string())
        }),
        "jsx" => with_dom(source, |dom, allocator| {
            oxvg_jsx::transform(
                dom,
                allocator,
                Some(jsx_config(&op["config"])?),
                None,
                None::<oxvg_jsx::config::Template<W>>,
                w,
            )
            .map_err(|err| err.to_string())
        }),
        other => Err(format!("no such operation: {other}")),
    }
}

/// A lint report into a writer of the caller; problems that were reported are a success
fn lint_into<W: std::fmt::Write>(op: &Value, w: &mut W) -> Result<String, String> {
    use oxvg_lint::error::LintingError;
    match rules(&op["rules"])?.lint_to(w, text(op, "doc")) {
        Ok(()) => Ok("clean".into()),
        Err(LintingError::Reported { errors, warnings }) => {
            Ok(format!("{errors} errors, {warnings} warnings"))
        }
        Err(err) => Err(err.to_string()),
    }
}

/// A whole operation; its result as text
fn perform(op: &Value) -> Result<String, String> {
    match text(op, "op") {
        "lint" => {
            let mut report = String::new();
            let end = lint_into(op, &mut report)?;
            Ok(format!("{end}\n{report}"))
        }
        "action" => session::perform(op),
        _ => {
            let mut out = vec![];
            write_into(op, &mut out)?;
            String::from_utf8(out).map_err(|err| err.to_string())
        }
    }
}

fn perform_all(ops: &[Value]) -> Vec<Value> {
    ops.iter()
        .map(|op| attempt(|| perform(op)).to_json(|s| json!(s)))
        .collect()
}

/// Writes into failing writers. For every case: the complete output, what the failing writer got
fn write_mode(cases: &[Value]) -> Vec<Value> {
    cases
        .iter()
        .map(|case| {
            if text(case, "op") == "lint" {
                let mut full = FmtPlan::default();
                let whole = attempt(|| lint_into(case, &mut full));
                let mut plan = FmtPlan::new(&case["plan"], full.calls);
                let outcome = attempt(|| lint_into(case, &mut plan));
                json!({
                    "whole": whole.to_json(|s| json!(s)),
                    "outcome": outcome.to_json(|s| json!(s)),
                    "length": full.got.len(),
                    "calls": full.calls,
                    "got": plan.got.len(),
                    "prefix": full.got.starts_with(&plan.got),
                    "failed": plan.failed,
                    "after": plan.after,
                })
            } else {
                let mut full = Plan::default();
                let whole = attempt(|| write_into(case, &mut full));
                let mut plan = Plan::new(&case["plan"], full.got.len());
                let outcome = attempt(|| write_into(case, &mut plan));
                json!({
                    "whole": whole.to_json(|()| json!("")),
                    "outcome": outcome.to_json(|()| json!("")),
                    "length": full.got.len(),
                    "calls": full.calls,
                    "got": plan.got.len(),
                    "prefix": full.got.starts_with(&plan.got),
                    "failed": plan.failed,
                    "after": plan.after,
                })
            }
        })
        .collect()
}

/// Runs lists of operations, each on a thread of its own
fn threads_mode(threads: &[Value], shared: bool) -> Vec<Value> {
    let barrier = Arc::new(Barrier::new(threads.len()));
    let globals = Globals::new();
    std::thread::scope(|scope| {
        let handles: Vec<_> = threads
            .iter()
            .map(|ops| {
                let barrier = Arc::clone(&barrier);
                let globals = &globals;
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(scope, move || {
                        barrier.wait();
                        let ops = ops.as_array().unwrap();
                        if shared {
                            GLOBALS.set(globals, || perform_all(ops))
                        } else {
                            GLOBALS.set(&Globals::new(), || perform_all(ops))
                        }
                    })
                    .expect("thread")
            })
            .collect();
        handles
            .into_iter()
            .map(|h| json!(h.join().expect("joined")))
            .collect()
    })
}

fn main() -> io::Result<()> {
    std::panic::set_hook(Box::new(|info| {
        PANIC.with(|p| *p.borrow_mut() = info.to_string());
    }));
    let mut input = String::new();
    io::stdin().read_to_string(&mut input)?;
    let input: Value = serde_json::from_str(&input)?;
    let list = |key: &str| input[key].as_array().cloned().unwrap_or_default();
    let output = std::thread::scope(|scope| {
        let run = || match text(&input, "mode") {
            "write" => GLOBALS.set(&Globals::new(), || write_mode(&list("cases"))),
            "threads" => threads_mode(&list("threads"), input["shared"].as_bool().unwrap_or(false)),
            "session" => list("cases").iter().map(session::session).collect(),
            _ => GLOBALS.set(&Globals::new(), || perform_all(&list("ops"))),
        };
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(scope, run)
            .expect("thread")
            .join()
            .expect("joined")
    });
    let mut out = serde_json::to_string(&output)?;
    out.push('\n');
    io::stdout().write_all(out.as_bytes())?;
    io::stdout().flush()
}
