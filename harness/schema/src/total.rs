//! Uses the front end in every way on any text, for specs/FrontEndTrace.tla to judge.
use crate::text::Texts;
use crate::*;
use aldrin_codegen::{Generator, Options, RustOptions};
use rand::seq::IndexedRandom;
use rand::Rng;
use std::collections::BTreeMap;

const ALPHABET: &[&str] = &[
    "import", "struct", "enum", "service", "fn", "event", "const", "newtype", "u8", "i64", "string", "uuid", "object_id", "value", "box",
    "vec", "bytes", "map", "set", "required", "option", "version", "args", "ok", "err", "sender", "receiver", "lifetime", "unit", "result",
    "fallback", "Foo", "bar", "main", "dep", "::", "->", ";", "=", "(", ")", "<", ">", "[", "]", ",", "{", "}", "@", "#", "!", "//", "///", "//!",
    "\n", "\r\n", "\r", " ", "\t", "0", "1", "-1", "4294967295", "4294967296", "\"", "\"a\"", "\\", "uuid = 5ca1ab1e-0000-4000-8000-00000000000F;",
    "version = 1;", "// c\n", "/// d\n", "//! i\n", "/// [Foo]\n", "\u{e4}", "\u{1f600}", "\u{3000}", "\0", "\u{feff}", "-", "_", "\u{300}", "'", "`",
    "struct Foo {", "enum E { A @ 0;", "service S {", "a @ 1 = u8;", "fn f @ 1", "x = fallback;",
];

const MARKDOWN: &[&str] = &[
    "[Foo]", "[`Foo`]", "[x](Foo)", "[x](Foo::a)", "[x](self)", "[x](self::Foo)", "[x](::dep::Dep)", "[x](::dep::Nope)", "[x](<Foo>)", "[x](Foo \"t\")",
    "[x][y]", "[y]: Foo", "[x][]", "![i](Foo)", "[", "]", "(", ")", "`", "``", "```", "~~~", "*", "**", "_", "#", "> ", "- ", "1. ", "    ", "\t", "\r", " ",
    "<", ">", "<a href=\"Foo\">", "<!--", "-->", "&amp;", "&#91;", "\\", "\\[", "\\]", "|", "---", "===", "\u{e4}", "\u{20ac}", "\u{1f600}", "e\u{301}", "\u{200d}",
    "\u{2028}", "\u{3000}", "\u{85}", "\u{feff}", "\0", "word", "http://x.y/\u{e4}", "www.x.y", "a@b.c", "[^1]", "[^1]: x", "- [ ] ", "$x$", "~x~", "||", "::", "[::dep]", "[a b](Bar",
    "](Foo)", "[`", "`](Foo)", "[x](\r)", "[\u{e4}](\u{e4})", "[x](Foo(a))", "[x](E::A)", "[Svc::f]", "[Svc::g::x]", "[N]", "[K::x]", "%20", "[x](Foo%20a)", "\"", "\\\"", "{", "}", "{{",
];

struct Run {
    deps: Vec<(String, Option<String>)>,
    name: String,
}

impl Run {
    fn resolver(&self, src: &str) -> MemoryResolver {
        let src = match src {
            "\u{0}io" => Err(std::io::Error::other("no such file")),
            _ => Ok(src.to_string()),
        };
        let mut r = MemoryResolver::new(self.name.clone(), src);
        for (n, s) in &self.deps {
            r.add(n.clone(), s.clone().ok_or_else(|| std::io::Error::other("no such file")));
        }
        r
    }

    fn go(&self, src: &str) -> (J, String) {
        let mut why = String::new();
        let mut ops = Vec::new();
        let mut bad = |e: String, op: &mut J| {
            op["r"] = json!("panic");
            why = e;
        };
        let once = || {
            let p = Parser::parse(self.resolver(src));
            let full = |w: usize| {
                let r = Renderer::new(false, true, w);
                let mut v: Vec<_> = issues(&p).iter().map(|i| (i.schema_name().to_string(), r.render(*i, &p))).collect();
                v.sort();
                v
            };
            (p.errors().len(), p.warnings().len(), p.other_warnings().len(), full(120))
        };
        let parser = caught(|| Parser::parse(self.resolver(src)));
        let mut op = json!({"op": "parse", "r": "ok", "errors": 0, "warnings": 0});
        let p = match parser {
            Err(e) => {
                bad(e, &mut op);
                ops.push(op);
                return (json!(ops), why);
            }
            Ok(p) => p,
        };
        op["errors"] = json!(p.errors().len());
        op["warnings"] = json!(p.warnings().len() + p.other_warnings().len());
        ops.push(op);
        for (color, unicode, width) in [(true, true, 100), (false, false, 20), (true, false, 80), (false, true, 40)] {
            let mut op = json!({"op": "render", "r": "ok", "n": 0});
            let r = caught(|| {
                let r = Renderer::new(color, unicode, width);
                issues(&p).iter().map(|i| r.render(*i, &p)).filter(|s| !s.is_empty()).count()
            });
            match r {
                Ok(n) => op["n"] = json!(n),
                Err(e) => bad(e, &mut op),
            }
            ops.push(op);
        }
        let mut op = json!({"op": "again", "r": "ok", "same": true});
        match caught(|| {
            let a = once();
            (0..3).all(|_| once() == a)
        }) {
            Ok(same) => op["same"] = json!(same),
            Err(e) => bad(e, &mut op),
        }
        ops.push(op);
        let mut op = json!({"op": "format", "r": "refused", "same": true});
        match caught(|| Formatter::new(&p).ok().map(|f| f.to_string() == Formatter::new(&p).map_err(|_| ()).unwrap().to_string())) {
            Ok(Some(same)) => {
                op["r"] = json!("ok");
                op["same"] = json!(same);
            }
            Ok(None) => {}
            Err(e) => bad(e, &mut op),
        }
        ops.push(op);
        for n in 0..8u8 {
            let mut op = json!({"op": "generate", "r": "ok", "same": true});
            let mut o = Options::new();
            o.client = n & 1 != 0;
            o.server = n & 2 != 0;
            o.introspection = n & 4 != 0;
            let Ok(g) = caught(|| Generator::new(&o, &p)) else {
                op["r"] = json!("refused");
                ops.push(op);
                break;
            };
            let gen = || {
                let mut ro = RustOptions::new();
                if n == 7 {
                    ro.krate = Some("::my_aldrin");
                    ro.introspection_if = Some("introspection");
                }
                g.rust(&ro).map(|o| (o.module_name, o.module_content)).map_err(|e| e.to_string())
            };
            match caught(|| (gen(), gen())) {
                Ok((Ok(a), Ok(b))) => op["same"] = json!(a == b),
                Ok((Err(_), _)) | Ok((_, Err(_))) => op["r"] = json!("failed"),
                Err(e) => bad(e, &mut op),
            }
            ops.push(op);
        }
        (json!(ops), why)
    }
}

fn doc(rng: &mut SmallRng, pre: &str, out: &mut String) {
    for _ in 0..*[0, 0, 1, 1, 2, 3, 5].choose(rng).unwrap() {
        if rng.random_bool(0.3) {
            *out += [" ", "    ", "\t", "\u{3000}", "\r", "\n"].choose(rng).unwrap();
        }
        *out += pre;
        if rng.random_bool(0.8) {
            out.push(' ');
        }
        for _ in 0..rng.random_range(0..7) {
            *out += MARKDOWN.choose(rng).unwrap();
            if rng.random_bool(0.3) {
                out.push(' ');
            }
        }
        *out += ["\n", "\n", "\r\n", "\r\r\n", " \n"].choose(rng).unwrap();
    }
}

/// A valid schema with doc strings everywhere.
pub fn documented(rng: &mut SmallRng) -> String {
    let mut s = String::new();
    doc(rng, "//!", &mut s);
    s += "import dep;";
    s += ["\n", ""].choose(rng).unwrap();
    doc(rng, "///", &mut s);
    s += "struct Foo {\n";
    doc(rng, "///", &mut s);
    s += "a @ 1 = dep::Dep;";
    doc(rng, "///", &mut s);
    s += "z = fallback; }\n";
    doc(rng, "///", &mut s);
    s += "enum E { ";
    doc(rng, "///", &mut s);
    s += "A @ 0;\r\n";
    doc(rng, "///", &mut s);
    s += "B @ 1 = [u8; N]; Z = fallback; } ";
    doc(rng, "///", &mut s);
    s += "const N = u32(3);";
    doc(rng, "///", &mut s);
    s += "newtype K = string;";
    doc(rng, "///", &mut s);
    s += "service Svc { uuid = 5ca1ab1e-0000-4000-8000-00000000000F; version = 1;";
    doc(rng, "///", &mut s);
    s += "fn f @ 1 { args = struct {";
    doc(rng, "//!", &mut s);
    doc(rng, "///", &mut s);
    s += "x @ 1 = u8; } ok = enum {";
    doc(rng, "//!", &mut s);
    s += "A @ 1; } }";
    doc(rng, "///", &mut s);
    s += "event e @ 1 = K;";
    doc(rng, "///", &mut s);
    s += "fn ff = fallback; ";
    doc(rng, "///", &mut s);
    s += "event ef = fallback; }";
    s
}

pub fn mutate(s: &str, rng: &mut SmallRng) -> String {
    let mut cs: Vec<char> = s.chars().collect();
    for _ in 0..*[1, 1, 1, 2, 3, 6].choose(rng).unwrap() {
        if cs.is_empty() {
            break;
        }
        let at = rng.random_range(0..cs.len());
        match rng.random_range(0..7) {
            0 => {
                cs.remove(at);
            }
            1 => {
                let end = (at + rng.random_range(1..40)).min(cs.len());
                cs.drain(at..end);
            }
            2 => {
                let end = (at + rng.random_range(1..60)).min(cs.len());
                let part: Vec<char> = cs[at..end].to_vec();
                let to = rng.random_range(0..=cs.len());
                cs.splice(to..to, part);
            }
            3 => {
                let t: Vec<char> = ALPHABET.choose(rng).unwrap().chars().collect();
                cs.splice(at..at, t);
            }
            4 => {
                let t: Vec<char> = MARKDOWN.choose(rng).unwrap().chars().collect();
                cs.splice(at..at, t);
            }
            5 => {
                let t: Vec<char> = ALPHABET.choose(rng).unwrap().chars().collect();
                let end = (at + rng.random_range(1..12)).min(cs.len());
                cs.splice(at..end, t);
            }
            _ => cs.truncate(at),
        }
    }
    cs.into_iter().collect()
}

pub fn soup(rng: &mut SmallRng) -> String {
    let mut s = String::new();
    for _ in 0..rng.random_range(0..25) {
        s += ALPHABET.choose(rng).unwrap();
        if rng.random_bool(0.6) {
            s.push(' ');
        }
    }
    s
}

/// What may stand between the quotes of a string, with escapes good and bad.
fn literal(rng: &mut SmallRng) -> String {
    const PIECES: &[&str] = &[
        "\\\\", "\\\"", "\\n", "\\ ", "\\u", "\\\u{e4}", "\\\u{20ac}", "\\\u{1f600}", "\\\u{300}", "\\\u{feff}", "\u{e4}", "\u{20ac}", "\u{1f600}",
        "e\u{301}", "\u{3000}", "\u{200d}", "x", " ", "\t", "0", "{", "//",
    ];
    (0..rng.random_range(0..7)).map(|_| *PIECES.choose(rng).unwrap()).collect()
}

/// Imports of all kinds.
fn web(rng: &mut SmallRng) -> (String, Run) {
    const NAMES: &[&str] = &["main", "a", "b", "c", "Bad", "self", "missing", "io"];
    let schema = |rng: &mut SmallRng| -> String {
        let mut s = String::new();
        doc(rng, "//!", &mut s);
        for _ in 0..rng.random_range(0..4) {
            s += &format!("import {};\n", NAMES.choose(rng).unwrap());
        }
        for _ in 0..rng.random_range(0..4) {
            let n = ["X", "Y", "Z"].choose(rng).unwrap();
            let re = |rng: &mut SmallRng| {
                let r = format!("{}{}", ["", "a::", "b::", "c::", "main::", "missing::", "Bad::", "io::"].choose(rng).unwrap(), ["X", "Y", "Z"].choose(rng).unwrap());
                match rng.random_range(0..8) {
                    0 => format!("option<{r}>"),
                    1 => format!("map<{r} -> {r}>"),
                    2 => format!("[u8; {r}]"),
                    3 => format!("set<{r}>"),
                    4 => format!("box<{r}>"),
                    _ => r,
                }
            };
            doc(rng, "///", &mut s);
            s += &match rng.random_range(0..6) {
                0 => format!("struct {n} {{ a @ 1 = {}; required b @ {} = {}; }}\n", re(rng), rng.random_range(1..3), re(rng)),
                1 => format!("enum {n} {{ A @ 1 = {}; }}\n", re(rng)),
                2 => format!("newtype {n} = {};\n", re(rng)),
                3 if rng.random_bool(0.5) => format!("const {n} = string(\"{}\");\n", literal(rng)),
                3 => format!("const {n} = {};\n", ["u8(3)", "string(\"x\")", "i8(-1)", "u64(9999999999)", "uuid(5ca1ab1e-0000-4000-8000-00000000000F)", "u8(256)", "i64(-9223372036854775809)", "u16(-1)", "u64(99999999999999999999999)"].choose(rng).unwrap()),
                4 => format!("service {n} {{ uuid = 5ca1ab1e-0000-4000-8000-00000000000{}; version = 1; fn f @ 1 = {}; event g @ {} = {}; fn h @ 1; }}\n", rng.random_range(0..3), re(rng), rng.random_range(0..2), re(rng)),
                _ => format!("newtype {n} = {n};\n"),
            };
        }
        if rng.random_bool(0.1) {
            s += "}";
        }
        s
    };
    let main = if rng.random_bool(0.02) { "\u{0}io".into() } else { schema(rng) };
    let name = if rng.random_bool(0.1) { NAMES.choose(rng).unwrap().to_string() } else { "main".into() };
    let mut deps = Vec::new();
    for n in ["a", "b", "c", "Bad", "self"] {
        if rng.random_bool(0.8) {
            deps.push((n.to_string(), Some(schema(rng))));
        }
    }
    deps.push(("io".into(), None));
    (main, Run { deps, name })
}

pub fn total(a: &Args) {
    let mut out = Out::new(a.get("--out").unwrap());
    let seed = a.num("--seed", 1);
    let count = a.num("--count", 1000);
    let kind = a.get("--kind").unwrap_or("soup").to_string();
    let mut rng = SmallRng::seed_from_u64(seed);
    let std = || Run { deps: std_deps().into_iter().map(|(n, s)| (n, Some(s))).collect(), name: "main".into() };
    let mut inputs: Vec<Vec<J>> = Vec::new();
    let mut repo: Vec<(String, String)> = Vec::new();
    match kind.as_str() {
        "tokens" => {
            for l in BufReader::new(File::open(a.get("--in").unwrap()).unwrap()).lines() {
                let v: J = serde_json::from_str(&l.unwrap()).unwrap();
                inputs.push(v["toks"].as_array().unwrap().clone());
            }
        }
        "repo" => repo = repository(),
        _ => {}
    }
    let texts = Texts::new(seed);
    let mut seen: BTreeMap<String, (u64, String)> = BTreeMap::new();
    let mut runs = 0;
    for n in 0..count {
        let mut run = std();
        let src = match kind.as_str() {
            "soup" => soup(&mut rng),
            "docs" => {
                let s = documented(&mut rng);
                if rng.random_bool(0.2) {
                    mutate(&s, &mut rng)
                } else {
                    s
                }
            }
            "web" => {
                let (s, r) = web(&mut rng);
                run = r;
                s
            }
            "repo" => {
                let (path, s) = &repo[n as usize % repo.len()];
                run.deps = siblings(path).into_iter().map(|(n, s)| (n, Some(s))).collect();
                run.name = Path::new(path).file_stem().unwrap().to_string_lossy().to_string();
                if n < repo.len() as u64 {
                    s.clone()
                } else {
                    mutate(s, &mut rng)
                }
            }
            "tokens" => {
                let mut t = inputs[n as usize % inputs.len()].clone();
                for _ in 0..rng.random_range(0..4) {
                    if t.is_empty() {
                        break;
                    }
                    let i = rng.random_range(0..t.len());
                    let j = rng.random_range(0..t.len());
                    match rng.random_range(0..4) {
                        0 => {
                            t.remove(i);
                        }
                        1 => t.swap(i, j),
                        2 => {
                            let x = t[i].clone();
                            t.insert(j, x);
                        }
                        _ => t[i] = t[j].clone(),
                    }
                }
                texts.lay(&t, &mut rng)
            }
            k => panic!("no kind {k}"),
        };
        let shown = json!({"name": run.name, "src": src, "deps": run.deps});
        out.current(&shown);
        let (ops, why) = run.go(&src);
        runs += 1;
        let e = seen.entry(ops.to_string()).or_insert_with(|| (0, format!("{why}{}{shown}", if why.is_empty() { "" } else { " <- " })));
        e.0 += 1;
    }
    for (ops, (n, src)) in &seen {
        out.line(&json!({"ops": serde_json::from_str::<J>(ops).unwrap(), "n": n, "src": src}));
    }
    let valid: u64 = seen.iter().filter(|(o, _)| o.contains("generate\",\"r\":\"ok")).map(|(_, v)| v.0).sum();
    out.finish();
    println!("{}", json!({"lines": seen.len(), "runs": runs, "generated": valid}));
}

/// Deeply nested types.
pub fn deep(a: &Args) {
    let n = a.num("--depth", 100) as usize;
    let mut deps = vec![];
    let src = match a.get("--kind").unwrap_or("vec") {
        "vec" => format!("struct A {{ a @ 1 = {}u8{}; }}", "vec<".repeat(n), ">".repeat(n)),
        "array" => format!("newtype A = {}u8{};", "[".repeat(n), "; 1]".repeat(n)),
        "result" => format!("newtype A = {}u8{};", "result<".repeat(n), ", u8>".repeat(n)),
        "chain" => {
            let mut s: String = (0..n).map(|i| format!("newtype A{i} = A{};\n", i + 1)).collect();
            s += &format!("newtype A{n} = u8;\nnewtype B = set<A0>;");
            s
        }
        "structs" => {
            let mut s: String = (0..n).map(|i| format!("struct A{i} {{ a @ 1 = A{}; }}\n", i + 1)).collect();
            s += &format!("struct A{n} {{}}\n");
            s
        }
        // Every type leads to the next one in several ways, so that there are exponentially many ways in total.
        "diamond" | "wide" => {
            let f = |i: usize| {
                let t = format!("A{}", i + 1);
                match if a.get("--kind") == Some("diamond") { 0 } else { i % 5 } {
                    0 => format!("struct A{i} {{ required a @ 1 = {t}; b @ 2 = {t}; }}\n"),
                    1 => format!("enum A{i} {{ a @ 1 = {t}; b @ 2 = {t}; }}\n"),
                    2 => format!("newtype A{i} = result<{t}, {t}>;\n"),
                    3 => format!("struct A{i} {{ a @ 1 = option<{t}>; b @ 2 = [{t}; 2]; }}\n"),
                    _ => format!("struct A{i} {{ a @ 1 = result<vec<{t}>, {t}>; b @ 2 = map<u8 -> {t}>; c @ 3 = {t}; }}\n"),
                }
            };
            let mut s: String = (0..n).map(f).collect();
            s += &format!("struct A{n} {{}}\n");
            s
        }
        // The same across schemas that import each other.
        "imports" => {
            let text = |i: usize| {
                let (j, k) = ((i + 1) % n, (i + 2) % n);
                let last = i + 2 >= n;
                let ty = |j: usize| if last { "u8".to_string() } else { format!("s{j}::A") };
                format!("import s{j};\nimport s{k};\nstruct A {{ a @ 1 = {}; b @ 2 = {}; c @ 3 = {}; }}\n", ty(j), ty(k), ty(j))
            };
            deps = (0..n).map(|i| (format!("s{i}"), Some(text(i)))).collect();
            "import s0;\nstruct B { a @ 1 = s0::A; b @ 2 = s0::A; }\n".to_string()
        }
        // Rings that are entered from everywhere.
        "rings" => {
            let mut s: String = (0..n).map(|i| format!("struct A{i} {{ a @ 1 = A{}; b @ 2 = A{}; }}\n", (i + 1) % n, (i * 7 + 3) % n)).collect();
            s += &(0..n).map(|i| format!("newtype K{i} = K{};\nconst C{i} = u8({i});\n", (i * 3 + 1) % n)).collect::<String>();
            s
        }
        "quote" => format!("/// {}\nstruct A {{}}", "> ".repeat(n)),
        "bracket" => format!("/// {}\nstruct A {{}}", "[".repeat(n)),
        "links" => format!("/// {}\nstruct A {{}}", "[".repeat(n) + &"](a)".repeat(n)),
        "list" => (0..n).map(|i| format!("/// {}- x\n", " ".repeat(2 * (i % 400)))).collect::<String>() + "struct A {}",
        k => panic!("no kind {k}"),
    };
    let r = Run { deps, name: "main".into() };
    println!("{}", r.go(&src).0);
}
