//! Texts of comments and doc strings, which are opaque to the specification, and layout.
use rand::rngs::SmallRng;
use rand::seq::IndexedRandom;
use rand::{Rng, SeedableRng};
use serde_json::Value as J;
use std::collections::HashMap;

const FIXED: &[&str] = &[
    "a comment", "another", " indented", "/ slash", "! bang", "tab\tinside", "\tstarts with a tab", "gr\u{f6}\u{df}e \u{2192} \u{1f600}",
    "[link](self)", "[`Foo`]", "[Foo]", "[x](Foo)", "[y](self::Foo)", "", "[w](dep::Missing)", "`unclosed", "[", "](",
    "cr\rinside", "* item", "    code", "```", "<b>html</b>", "[a]: http://x", "\\", "&amp;", "{}", "\"quote\"", "// nested",
    "/// doc", "struct Foo {}", "\u{2028}x", "#[rust(x)]", "# heading", "| a | b |", "---", "[`Bar::a`](Bar::a)", "X", "'; \" {", "[z](::dep::Dep)",
];

const WORDS: &[&str] = &[
    "word", "[Foo]", "[`A1`]", "(Foo)", "[t](A1::a)", "[", "]", "(", ")", "`", "``", "\u{e4}", "\u{4e2d}\u{6587}", "*", "_", "**b**", "<", ">", "!", "![i](Foo)",
    "self::", "::dep", "\\[", "\r", "\t", "~", "|", "#", "http://x.y", "<http://x>", "&lt;", "\"", "'", "[^1]", "[x][y]", "\u{200d}", "e\u{301}",
];

pub struct Texts {
    inner: Vec<String>,
    names: Vec<(&'static str, &'static str)>,
    back: HashMap<String, String>,
}

impl Texts {
    pub fn new(seed: u64) -> Self {
        let mut rng = SmallRng::seed_from_u64(seed);
        let mut inner: Vec<String> = FIXED.iter().map(|s| s.to_string()).collect();
        while inner.len() < 1000 {
            let mut s = String::new();
            for _ in 0..rng.random_range(0..6) {
                s += WORDS.choose(&mut rng).unwrap();
                if rng.random_bool(0.5) {
                    s.push(' ');
                }
            }
            s += &format!("{}", inner.len());
            inner.push(s);
        }
        let back = inner.iter().enumerate().map(|(n, s)| (s.clone(), format!("T{n}"))).collect();
        let names = vec![
            ("uni", "gr\u{f6}\u{df}e"),
            ("UNI", "\u{dc}n\u{ef}"),
            ("\"UNI {}\"", "\"\u{20ac} {}\u{1f600}\""),
        ];
        Self { inner, names, back }
    }

    pub fn none() -> Self {
        Self { inner: Vec::new(), names: Vec::new(), back: HashMap::new() }
    }

    pub fn inner(&self, s: &str) -> String {
        self.back.get(s).cloned().unwrap_or_else(|| s.to_string())
    }

    pub fn name<'a>(&self, s: &'a str) -> &'a str {
        self.names.iter().find(|(a, _)| *a == s).map(|(_, b)| *b).unwrap_or(s)
    }

    pub fn unname<'a>(&self, s: &'a str) -> &'a str {
        self.names.iter().find(|(_, b)| *b == s).map(|(a, _)| *a).unwrap_or(s)
    }

    /// Lays out tokens.
    pub fn lay(&self, toks: &[J], rng: &mut SmallRng) -> String {
        let style = rng.random_range(0..5);
        let eol = *["\n", "\n", "\r\n", "?"].choose(rng).unwrap();
        let mut out = String::new();
        for (n, t) in toks.iter().enumerate() {
            let last = n + 1 == toks.len();
            let (t, v) = (t["t"].as_str().unwrap(), t["v"].as_str().unwrap());
            let space = |rng: &mut SmallRng| -> String {
                match style {
                    0 => String::new(),
                    1 => " ".into(),
                    2 => "\n".into(),
                    3 => [" ", "", "\n", "\n\n", "\r\n", "\t", "    "].choose(rng).unwrap().to_string(),
                    _ => (0..rng.random_range(0..4))
                        .map(|_| *["", " ", "\n", "\r\n", "\t", "\r", "\u{a0}", "\u{2028}", "\u{b}", "\u{85}", "\u{3000}"].choose(rng).unwrap())
                        .collect(),
                }
            };
            match t {
                "c" | "d" | "i" => {
                    let s = v[1..].parse::<usize>().map(|n| self.inner[n].as_str()).unwrap();
                    let pre = match t {
                        "c" => "//",
                        "d" => "///",
                        _ => "//!",
                    };
                    out += pre;
                    let bare = !s.starts_with(' ') && !(t == "c" && s.starts_with(['/', '!'])) && (style == 0 || rng.random_bool(0.2));
                    if !bare {
                        out.push(' ');
                    }
                    out += s;
                    if rng.random_bool(0.15) {
                        out += [" ", "\t", "\u{a0}", "  ", "\r"].choose(rng).unwrap();
                    }
                    if !(last && rng.random_bool(0.3)) {
                        out += if eol == "?" { if rng.random_bool(0.5) { "\n" } else { "\r\n" } } else { eol };
                    }
                    if style >= 3 {
                        out += &space(rng);
                    }
                }
                "g" => out += self.name(v),
                "p" => {
                    out += v;
                    out += &space(rng);
                }
                _ => {
                    out += self.name(v);
                    let next = toks.get(n + 1).map(|t| t["t"].as_str().unwrap()).unwrap_or("");
                    let s = space(rng);
                    if s.is_empty() && (t == "k" || matches!(next, "w" | "k" | "g")) {
                        out.push(' ');
                    }
                    out += &s;
                }
            }
        }
        out
    }
}
