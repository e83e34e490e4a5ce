//! Records what the real schema front end does, for specs/SchemaTrace.tla and others to judge.
mod cli;
mod dump;
mod gen;
mod text;
mod total;

use aldrin_parser::{Diagnostic, Formatter, MemoryResolver, Parser, Renderer};
use dump::Dump;
use rand::rngs::SmallRng;
use rand::SeedableRng;
use serde_json::{json, Value as J};
use std::collections::BTreeSet;
use std::fs::File;
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use text::Texts;

static PANIC: Mutex<String> = Mutex::new(String::new());
static PROGRESS: AtomicU64 = AtomicU64::new(0);

pub fn caught<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    PROGRESS.fetch_add(1, Ordering::Relaxed);
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| std::mem::take(&mut *PANIC.lock().unwrap()))
}

/// Ends the process when something doesn't come to an end.
fn watchdog() {
    std::thread::spawn(|| {
        let mut last = (0, 0);
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let p = PROGRESS.load(Ordering::Relaxed);
            last = if p == last.0 { (p, last.1 + 1) } else { (p, 0) };
            if last.1 > 25 {
                println!("no end in sight");
                std::process::exit(3);
            }
        }
    });
}

pub struct Args(Vec<String>);

impl Args {
    pub fn get(&self, k: &str) -> Option<&str> {
        self.0.iter().position(|a| a == k).map(|n| self.0[n + 1].as_str())
    }
    pub fn num(&self, k: &str, d: u64) -> u64 {
        self.get(k).map(|s| s.parse().unwrap()).unwrap_or(d)
    }
}

pub struct Out {
    f: BufWriter<File>,
    cur: PathBuf,
}

impl Out {
    fn new(path: &str) -> Self {
        Self { f: BufWriter::new(File::create(path).unwrap()), cur: PathBuf::from(format!("{path}.current")) }
    }
    pub fn current(&self, v: &J) {
        std::fs::write(&self.cur, v.to_string()).unwrap();
    }
    pub fn line(&mut self, v: &J) {
        writeln!(self.f, "{v}").unwrap();
    }
    fn finish(mut self) {
        self.f.flush().unwrap();
        let _ = std::fs::remove_file(&self.cur);
    }
}

pub const DEP: &str = "struct Dep { a @ 1 = u8; }\nenum DepEnum { A @ 0; }\nconst N = u32(4);\nnewtype K = string;\nservice Svc { uuid = 0e1e1e1e-0000-4000-8000-000000000001; version = 1; }\n";
pub const OTHER: &str = "import dep;\nimport main;\nstruct foo_bar { A @ 1 = dep::Dep; }\nstruct X { a @ 1 = u8; }\n";

pub fn parse(name: &str, src: &str, deps: &[(String, String)]) -> Parser {
    let mut r = MemoryResolver::new(name, Ok(src.to_string()));
    for (n, s) in deps {
        r.add(n.clone(), Ok(s.clone()));
    }
    Parser::parse(r)
}

pub fn std_deps() -> Vec<(String, String)> {
    vec![("dep".into(), DEP.into()), ("other".into(), OTHER.into())]
}

pub fn issues(p: &Parser) -> Vec<&dyn Diagnostic> {
    p.errors()
        .iter()
        .map(|e| e as &dyn Diagnostic)
        .chain(p.warnings().iter().map(|e| e as &dyn Diagnostic))
        .chain(p.other_warnings().iter().map(|e| e as &dyn Diagnostic))
        .collect()
}

/// What a diagnostic says, without positions and source.
fn gist(p: &Parser, i: &dyn Diagnostic) -> String {
    let s = Renderer::new(false, false, 100_000).render(i, p);
    let mut lines = s.lines();
    let mut out = vec![format!("{}: {}", i.schema_name(), lines.next().unwrap_or(""))];
    out.extend(lines.filter(|l| l.contains("= help:") || l.contains("= note:")).map(|l| l.trim().to_string()));
    out.join(" / ")
}

fn syntax(p: &Parser) -> Option<Vec<String>> {
    match Formatter::new(p) {
        Ok(_) => None,
        Err(e) => Some(e.iter().map(|e| gist(p, *e)).collect()),
    }
}

/// Parses, formats, parses again and formats again.
fn cycle(name: &str, src: &str, deps: &[(String, String)], texts: &Texts) -> J {
    let d = Dump(texts);
    let gists = |p: &Parser| issues(p).iter().map(|i| gist(p, *i)).collect::<BTreeSet<_>>();
    let r = caught(|| {
        let p1 = parse(name, src, deps);
        if let Some(e) = syntax(&p1) {
            return json!({"r": "invalid", "why": e});
        }
        let a1 = d.schema(p1.main_schema());
        let i1 = gists(&p1);
        let t2 = Formatter::new(&p1).map_err(|_| ()).unwrap().to_string();
        let p2 = parse(name, &t2, deps);
        if let Some(e) = syntax(&p2) {
            return json!({"r": "broken", "why": e, "a1": a1});
        }
        let a2 = d.schema(p2.main_schema());
        let i2 = gists(&p2);
        let t3 = Formatter::new(&p2).map_err(|_| ()).unwrap().to_string();
        json!({"r": "ok", "a1": a1, "a2": a2, "i1": i1, "i2": i2, "idem": t3 == t2})
    });
    r.unwrap_or_else(|e| json!({"r": "panic", "why": [e]}))
}

fn fmt(a: &Args) {
    let mut out = Out::new(a.get("--out").unwrap());
    let seed = a.num("--seed", 1);
    let layouts = a.num("--layouts", 4);
    let texts = Texts::new(seed);
    let mut rng = SmallRng::seed_from_u64(seed);
    let deps = std_deps();
    let (mut lines, mut runs, mut clean) = (0, 0, 0);
    if let Some(f) = a.get("--in") {
        for l in BufReader::new(File::open(f).unwrap()).lines() {
            let v: J = serde_json::from_str(&l.unwrap()).unwrap();
            let toks = v["toks"].as_array().unwrap();
            let mut outs: Vec<J> = Vec::new();
            for _ in 0..layouts {
                let src = texts.lay(toks, &mut rng);
                out.current(&json!(src));
                let mut o = cycle("main", &src, &deps, &texts);
                runs += 1;
                clean += (o["i1"].as_array().is_some_and(|a| a.is_empty())) as usize;
                if !outs.iter().any(|x| {
                    o["src"] = x["src"].clone();
                    *x == o
                }) {
                    o["src"] = json!(src);
                    outs.push(o);
                }
            }
            out.line(&json!({"known": true, "ast": v["ast"], "outs": outs}));
            lines += 1;
        }
    } else {
        for (path, src) in repository() {
            out.current(&json!(path));
            let name = Path::new(&path).file_stem().unwrap().to_string_lossy().to_string();
            let deps = siblings(&path);
            let mut o = cycle(&name, &src, &deps, &Texts::none());
            runs += 1;
            if o["r"] == "invalid" {
                continue;
            }
            o["src"] = json!(path);
            out.line(&json!({"known": false, "ast": o["a1"], "outs": [o]}));
            lines += 1;
        }
    }
    out.finish();
    println!("{}", json!({"lines": lines, "runs": runs, "clean": clean}));
}

/// All schemas of the repository.
pub fn repository() -> Vec<(String, String)> {
    fn walk(d: &Path, out: &mut Vec<(String, String)>) {
        let mut es: Vec<_> = std::fs::read_dir(d).into_iter().flatten().flatten().collect();
        es.sort_by_key(|e| e.path());
        for e in es {
            let p = e.path();
            let n = e.file_name().to_string_lossy().to_string();
            if p.is_dir() {
                if n != "target" && !n.starts_with('.') {
                    walk(&p, out);
                }
            } else if n.ends_with(".aldrin") {
                if let Ok(s) = std::fs::read_to_string(&p) {
                    out.push((p.to_string_lossy().to_string(), s));
                }
            }
        }
    }
    let root = std::env::var("VERIF_REPO").unwrap_or("/repo".into());
    let mut out = Vec::new();
    walk(Path::new(&root), &mut out);
    out
}

pub fn siblings(path: &str) -> Vec<(String, String)> {
    let dir = Path::new(path).parent().unwrap();
    let mut out = Vec::new();
    for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
        let p = e.path();
        if p.extension().is_some_and(|x| x == "aldrin") {
            if let Ok(s) = std::fs::read_to_string(&p) {
                out.push((p.file_stem().unwrap().to_string_lossy().to_string(), s));
            }
        }
    }
    out.sort();
    out
}

fn main() {
    std::panic::set_hook(Box::new(|i| *PANIC.lock().unwrap() = i.to_string().replace('\n', " ")));
    watchdog();
    let a = Args(std::env::args().skip(1).collect());
    let mode = a.0.first().cloned().unwrap_or_default();
    // Recursive code gets the stack of a main thread.
    let h = std::thread::Builder::new().stack_size(8 << 20).spawn(move || match mode.as_str() {
        "fmt" => fmt(&a),
        "total" => total::total(&a),
        "deep" => total::deep(&a),
        "gen" => gen::gen(&a),
        "cli" => cli::cli(&a),
        m => panic!("no mode {m}"),
    });
    if h.unwrap().join().is_err() {
        println!("harness: {}", PANIC.lock().unwrap());
        std::process::exit(2);
    }
}
