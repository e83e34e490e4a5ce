//! Uses the real command line tool on files, for specs/CliTrace.tla to judge.
use crate::text::Texts;
use crate::*;
use aldrin_codegen::{Generator, Options, RustOptions};
use rand::Rng;
use std::process::{Command, Stdio};

struct Table {
    texts: Vec<String>,
    info: Vec<J>,
}

impl Table {
    fn id(&mut self, src: &str) -> usize {
        if let Some(i) = self.texts.iter().position(|t| t == src) {
            return i + 1;
        }
        self.texts.push(src.to_string());
        self.info.push(json!(null));
        let n = self.texts.len();
        let fmt = caught(|| Formatter::new(&parse("main", src, &[])).ok().map(|f| f.to_string())).ok().flatten();
        let ok = caught(|| parse("main", src, &std_deps()).errors().is_empty()).unwrap_or(false);
        let f = match &fmt {
            Some(f) => self.id(f),
            None => 1,
        };
        self.info[n - 1] = json!({"valid": fmt.is_some(), "fmt": f, "ok": ok});
        n
    }

    /// The number of a text that should be known.
    fn find(&self, src: &str) -> usize {
        self.texts.iter().position(|t| t == src).map(|n| n + 1).unwrap_or(0)
    }
}

fn code(src: &str, opts: u8) -> Option<String> {
    caught(|| {
        let p = parse("main", src, &std_deps());
        if !p.errors().is_empty() {
            return None;
        }
        let mut o = Options::new();
        o.client = opts & 1 == 0;
        o.server = opts & 2 == 0;
        o.introspection = opts & 12 != 0;
        let mut r = RustOptions::new();
        if opts & 8 != 0 {
            r.introspection_if = Some("intro");
        }
        if opts & 16 != 0 {
            r.krate = Some("::my_aldrin");
        }
        let code = Generator::new(&o, &p).rust(&r).ok().map(|o| o.module_content);
        code
    })
    .ok()
    .flatten()
}

struct Tool<'a> {
    bin: &'a str,
    dir: PathBuf,
}

impl Tool<'_> {
    fn run(&self, args: &[String], stdin: Option<&str>) -> (i32, String, String) {
        let mut c = Command::new(self.bin);
        c.args(args).current_dir(&self.dir).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped());
        let mut c = c.spawn().unwrap();
        let mut i = c.stdin.take().unwrap();
        let text = stdin.unwrap_or("").to_string();
        let t = std::thread::spawn(move || {
            let _ = i.write_all(text.as_bytes());
        });
        let o = c.wait_with_output().unwrap();
        let _ = t.join();
        PROGRESS.fetch_add(1, Ordering::Relaxed);
        (o.status.code().unwrap_or(-1), String::from_utf8_lossy(&o.stdout).into_owned(), String::from_utf8_lossy(&o.stderr).into_owned())
    }
}

pub fn cli(a: &Args) {
    let mut out = Out::new(a.get("--out").unwrap());
    let seed = a.num("--seed", 1);
    let mut rng = SmallRng::seed_from_u64(seed);
    let dir = PathBuf::from(a.get("--dir").unwrap());
    let tool = Tool { bin: a.get("--gen").unwrap(), dir: dir.clone() };
    let texts = Texts::new(seed);
    let mut pool: Vec<String> = repository().into_iter().map(|(_, s)| s).collect();
    for l in BufReader::new(File::open(a.get("--in").unwrap()).unwrap()).lines() {
        let v: J = serde_json::from_str(&l.unwrap()).unwrap();
        pool.push(texts.lay(v["toks"].as_array().unwrap(), &mut rng));
    }
    std::fs::create_dir_all(dir.join("inc")).unwrap();
    for (n, s) in std_deps() {
        std::fs::write(dir.join("inc").join(n + ".aldrin"), s).unwrap();
    }
    let (mut lines, mut runs) = (0, 0);
    for _ in 0..a.num("--count", 100) {
        let n = rng.random_range(1..5usize);
        let mut t = Table { texts: vec![], info: vec![] };
        let mut files = Vec::new();
        for f in 0..n {
            let s = pool[rng.random_range(0..pool.len())].clone();
            let s = match rng.random_range(0..10) {
                0..6 => s,
                6 => total::mutate(&s, &mut rng),
                7 => total::soup(&mut rng),
                _ => total::documented(&mut rng),
            };
            std::fs::create_dir_all(dir.join(format!("f{f}"))).unwrap();
            files.push(s);
        }
        let path = |f: usize| dir.join(format!("f{f}/main.aldrin"));
        for (f, s) in files.iter().enumerate() {
            std::fs::write(path(f), s).unwrap();
        }
        let fs: Vec<usize> = files.iter().map(|s| t.id(s)).collect();
        out.current(&json!(files));
        let mut ops = Vec::new();
        for _ in 0..rng.random_range(2..6) {
            let op = ["fmt", "diff", "pipe", "check", "rust"][rng.random_range(0..5)];
            let k = if op == "pipe" || op == "rust" { 1 } else { rng.random_range(1..4) };
            let args: Vec<usize> = (0..k).map(|_| rng.random_range(0..n)).collect();
            let paths = args.iter().map(|f| path(*f).to_string_lossy().to_string());
            let first = std::fs::read_to_string(path(args[0])).unwrap_or_default();
            let opts: u8 = rng.random();
            let gen = dir.join("gen");
            let _ = std::fs::remove_file(gen.join("main.rs"));
            std::fs::create_dir_all(&gen).unwrap();
            let mut cmd: Vec<String> = Vec::new();
            let mut inc = || cmd.extend(["-I", "inc"].map(|s| s.to_string()));
            match op {
                "fmt" => cmd.push("fmt".into()),
                "diff" => cmd.extend(["fmt", "--check"].map(|s| s.to_string())),
                "pipe" => cmd.push("fmt".into()),
                "check" => inc(),
                _ => {
                    inc();
                    cmd.extend(["-o".into(), "gen".into()]);
                    for (bit, args) in [
                        (1, &["--no-client"][..]),
                        (2, &["--no-server"]),
                        (4, &["--introspection"]),
                        (8, &["--introspection-if", "intro"]),
                        (16, &["--crate", "::my_aldrin"]),
                    ] {
                        if opts & bit != 0 {
                            cmd.extend(args.iter().map(|s| s.to_string()));
                        }
                    }
                }
            }
            if op == "check" || op == "rust" {
                cmd.insert(0, op.into());
            }
            if op == "pipe" {
                cmd.push("-".into());
            } else {
                cmd.extend(paths);
            }
            let (exit, stdout, stderr) = tool.run(&cmd, (op == "pipe").then_some(&*first));
            runs += 1;
            let after: Vec<usize> = (0..n).map(|f| std::fs::read_to_string(path(f)).map(|s| t.find(&s)).unwrap_or(0)).collect();
            let written = std::fs::read_to_string(gen.join("main.rs")).ok();
            let is = match &written {
                None => 0,
                Some(w) if op == "rust" && code(&first, opts).as_ref() == Some(w) => 1,
                _ => 2,
            };
            let o = if op == "pipe" && exit == 0 { t.find(&stdout) } else { 0 };
            let lost = after.contains(&0) || (op == "pipe" && exit == 0 && o == 0);
            ops.push(json!({
                "op": op, "args": args.iter().map(|f| f + 1).collect::<Vec<_>>(), "exit": exit, "fs": after, "out": o, "code": is,
                "cmd": cmd.join(" "), "err": if exit > 1 || exit < 0 || lost { stderr.chars().take(400).collect::<String>() } else { String::new() },
            }));
            if lost {
                break;
            }
        }
        let srcs: Vec<String> = t.texts.clone();
        out.line(&json!({"texts": t.info, "fs": fs, "ops": ops, "srcs": srcs}));
        lines += 1;
    }
    out.finish();
    println!("{}", json!({"lines": lines, "runs": runs}));
}
