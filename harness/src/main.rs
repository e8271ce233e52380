//! Thin JSON-lines driver around the public API of the wayfinder crate built
//! from /repo's current working tree.  One request per line on stdin, one
//! reply per line on stdout.  It contains no expectations of its own.
use serde_json::{json, Value};
use std::io::{self, BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use wayfinder::*;

fn s(v: &Value) -> String {
    v.as_str().unwrap().to_string()
}

fn param(v: &Value) -> Param {
    Param {
        name: s(&v[0]),
        typ: s(&v[1]),
    }
}

fn params(v: &Value) -> Vec<Param> {
    v.as_array().map(|a| a.iter().map(param).collect()).unwrap_or_default()
}

fn method(v: &Value) -> Method {
    match v.as_str().unwrap() {
        "GET" => Method::Get,
        "POST" => Method::Post,
        "PUT" => Method::Put,
        "DELETE" => Method::Delete,
        m => panic!("bad method {}", m),
    }
}

fn resource(v: &Value) -> Resource {
    Resource {
        method: method(&v["m"]),
        modules: v["mods"].as_array().map(|a| a.iter().map(s).collect()).unwrap_or_default(),
        name: s(&v["name"]),
        is_redirect: v["redir"].as_bool().unwrap_or(false),
        query_parameters: params(&v["q"]),
    }
}

fn segment(v: &Value) -> PathSegment {
    match v {
        Value::String(t) => PathSegment::Static(t.clone()),
        p => PathSegment::Dynamic(param(p)),
    }
}

fn routes(v: &Value) -> Routes {
    Routes {
        resources: v["res"].as_array().map(|a| a.iter().map(resource).collect()).unwrap_or_default(),
        routes: v["sub"]
            .as_array()
            .map(|a| {
                a.iter()
                    .map(|n| NestedRoutes {
                        path_segment: segment(&n["seg"]),
                        routes: routes(&n["routes"]),
                    })
                    .collect()
            })
            .unwrap_or_default(),
        query_parameters: params(&v["q"]),
    }
}

fn config(v: &Value) -> RouteConfig {
    RouteConfig {
        headers: v["headers"]
            .as_array()
            .map(|a| a.iter().map(|h| Header { text: s(h) }).collect())
            .unwrap_or_default(),
        routes: routes(&v["routes"]),
    }
}

fn j_param(p: &Param) -> Value {
    json!([p.name, p.typ])
}
fn j_resource(r: &Resource) -> Value {
    json!({
        "m": match r.method { Method::Get => "GET", Method::Post => "POST", Method::Put => "PUT", Method::Delete => "DELETE" },
        "mods": r.modules, "name": r.name, "redir": r.is_redirect,
        "q": r.query_parameters.iter().map(j_param).collect::<Vec<_>>(),
    })
}
fn j_segment(p: &PathSegment) -> Value {
    match p {
        PathSegment::Static(t) => json!(t),
        PathSegment::Dynamic(p) => j_param(p),
    }
}
fn j_routes(r: &Routes) -> Value {
    json!({
        "q": r.query_parameters.iter().map(j_param).collect::<Vec<_>>(),
        "res": r.resources.iter().map(j_resource).collect::<Vec<_>>(),
        "sub": r.routes.iter().map(|n| json!({"seg": j_segment(&n.path_segment), "routes": j_routes(&n.routes)})).collect::<Vec<_>>(),
    })
}
fn j_config(c: &RouteConfig) -> Value {
    json!({
        "headers": c.headers.iter().map(|h| h.text.clone()).collect::<Vec<_>>(),
        "routes": j_routes(&c.routes),
    })
}

fn j_parse<T>(r: nom::IResult<nom::types::CompleteStr, T>, f: impl Fn(&T) -> Value) -> Value {
    match r {
        Ok((rest, c)) => json!({"ok": f(&c), "rest": rest.0}),
        Err(_) => json!({"err": "parse"}),
    }
}

/// Accepts `left` bytes, then fails every write; `short` makes it accept at most that many bytes per call.
struct Limited {
    left: usize,
    short: usize,
    got: Vec<u8>,
    failed: bool,
    /// "always" (default), "once" (the write after the failing one succeeds again), "zero" (accepts nothing, without an error)
    mode: String,
    /// fail at this write call (counted from 0) instead of at a byte
    call: Option<usize>,
    calls: usize,
}
impl Write for Limited {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        let now = match self.call {
            Some(c) => self.calls >= c,
            None => self.left == 0,
        };
        self.calls += 1;
        if now && !(self.mode == "once" && self.failed) {
            self.failed = true;
            if self.mode == "zero" {
                return Ok(0);
            }
            return Err(io::Error::new(io::ErrorKind::Other, "full"));
        }
        if self.call.is_some() || self.failed {
            self.left = usize::MAX;
        }
        let n = b.len().min(self.left).min(self.short);
        self.got.extend_from_slice(&b[..n]);
        self.left -= n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// FNV-1a
fn sum(b: &[u8]) -> String {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    format!("{:016x}", h)
}

fn run(req: &Value) -> Value {
    match req["op"].as_str().unwrap() {
        "gen" => {
            let c = match &req["text"] {
                Value::String(t) => match parse::route_config(t) {
                    Ok((_, c)) => c,
                    Err(_) => return json!({"err": "parse"}),
                },
                _ => config(&req["cfg"]),
            };
            let mut out = vec![];
            match gen::codegen(&mut out, &c) {
                Ok(()) => json!({"ok": String::from_utf8_lossy(&out)}),
                Err(e) => json!({"err": format!("{:?}", e.kind())}),
            }
        }
        "gen_limited" => {
            let c = config(&req["cfg"]);
            let mut w = Limited {
                left: req["left"].as_u64().unwrap_or(u64::MAX) as usize,
                mode: req["mode"].as_str().unwrap_or("always").to_string(),
                call: req["call"].as_u64().map(|c| c as usize),
                calls: 0,
                short: req["short"].as_u64().unwrap_or(1 << 40) as usize,
                got: vec![],
                failed: false,
            };
            let r = gen::codegen(&mut w, &c);
            let tail = &w.got[w.got.len().saturating_sub(300)..];
            json!({"is_ok": r.is_ok(), "failed": w.failed, "calls": w.calls, "len": w.got.len(), "sum": sum(&w.got), "tail": String::from_utf8_lossy(tail)})
        }
        "gen_sum" => {
            let mut out = vec![];
            match gen::codegen(&mut out, &config(&req["cfg"])) {
                Ok(()) => json!({"ok": sum(&out)}),
                Err(_) => json!({"err": "refused"}),
            }
        }
        "stringify" => json!({"ok": config(&req["cfg"]).stringify()}),
        "stringify_routes" => json!({"ok": routes(&req["routes"]).stringify(req["level"].as_u64().unwrap() as usize)}),
        "parse" => j_parse(parse::route_config(req["text"].as_str().unwrap()), j_config),
        "parse_method" => j_parse(
            parse::method(nom::types::CompleteStr(req["text"].as_str().unwrap())),
            |m| json!(format!("{}", m)),
        ),
        "parse_routes" => j_parse(
            parse::routes(nom::types::CompleteStr(req["text"].as_str().unwrap()), req["level"].as_u64().unwrap() as usize),
            j_routes,
        ),
        "mount" => {
            let a = config(&req["cfg"]);
            let b = config(&req["other"]);
            let r = a.mount(req["at"].as_str().unwrap(), b);
            json!({"ok": j_config(&r)})
        }
        "make" => {
            let h: Vec<String> = req["handler"].as_array().unwrap().iter().map(s).collect();
            let r = Resource::make(method(&req["m"]), h, req["redir"].as_bool().unwrap(), params(&req["q"]));
            json!({"ok": j_resource(&r)})
        }
        "show_errors" => {
            let t = req["text"].as_str().unwrap();
            let mut out = vec![];
            parse::errors::show_errors(&mut out, t, parse::route_config(t), req["prefix"].as_str().unwrap_or(""));
            json!({"ok": String::from_utf8_lossy(&out)})
        }
        "show_at" => {
            // An error list at chosen byte offsets, with nom's own error codes.
            let t = req["text"].as_str().unwrap();
            let v: Vec<_> = req["at"]
                .as_array()
                .unwrap()
                .iter()
                .map(|p| (nom::types::CompleteStr(&t[p.as_u64().unwrap() as usize..]), nom::ErrorKind::Tag::<u32>))
                .collect();
            let failure = req["failure"].as_bool().unwrap_or(false);
            let r: nom::IResult<nom::types::CompleteStr, ()> = if req["single"].as_bool().unwrap_or(false) {
                let (i, k) = v.into_iter().next().unwrap();
                if failure {
                    Err(nom::Err::Failure(nom::Context::Code(i, k)))
                } else {
                    Err(nom::Err::Error(nom::Context::Code(i, k)))
                }
            } else if req["failure"].as_bool().unwrap_or(false) {
                Err(nom::Err::Failure(nom::Context::List(v)))
            } else {
                Err(nom::Err::Error(nom::Context::List(v)))
            };
            let mut out = vec![];
            parse::errors::show_errors(&mut out, t, r, req["prefix"].as_str().unwrap_or(""));
            json!({"ok": String::from_utf8_lossy(&out)})
        }
        "display" => {
            let p = PathSegment::Dynamic(param(&req["param"]));
            json!({"ok": format!("{}", p)})
        }
        "byte_str" => json!({"ok": method(&req["m"]).byte_str()}),
        op => json!({"bad_op": op}),
    }
}

/// Runs the build helper as a build script would; says so if it returns.
fn builder(a: &[String]) {
    let get = |k: &str| a.iter().position(|x| x == k).map(|i| a[i + 1].clone());
    let mut b = if a.iter().any(|x| x == "--env") { build::Builder::from_env() } else { build::Builder::new() };
    let mut order: Vec<&str> = vec!["--in", "--cfg", "--out", "--stdout"];
    if a.iter().any(|x| x == "--out-first") {
        order = vec!["--out", "--stdout", "--in", "--cfg"];
    }
    for o in order {
        b = match (o, get(o)) {
            ("--in", Some(v)) => b.input_file(v),
            ("--cfg", Some(v)) => b.input_config(config(&serde_json::from_str(&v).unwrap())),
            ("--out", Some(v)) => b.output_file(v),
            ("--stdout", Some(_)) => b.output_stdout(),
            _ => b,
        };
    }
    b.build();
    std::fs::write(get("--returned").unwrap(), "returned").unwrap();
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|s| s.as_str()) == Some("builder") {
        return builder(&args[2..]);
    }
    std::panic::set_hook(Box::new(|_| {}));
    // generation and parsing recurse over the configuration
    std::thread::Builder::new().stack_size(512 << 20).spawn(answer).unwrap().join().unwrap();
}

fn answer() {
    let stdin = io::stdin();
    let mut out = io::BufWriter::new(io::stdout());
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        if line.trim().is_empty() {
            continue;
        }
        let mut d = serde_json::Deserializer::from_str(&line);
        d.disable_recursion_limit();
        let req: Value = d.into_iter().next().unwrap().unwrap();
        let r = catch_unwind(AssertUnwindSafe(|| run(&req)));
        let v = match r {
            Ok(v) => v,
            Err(e) => {
                let m = e
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_else(|| "panic".into());
                json!({ "panic": m })
            }
        };
        writeln!(out, "{}", v).unwrap();
        out.flush().unwrap();
    }
}
