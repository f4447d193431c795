//! Seeded workload generator: programs in the supported ECMAScript subset, damaged programs, and
//! programs made of one construct repeated or nested many times.
use crate::scen::Src;
use crate::sim::splitmix;

#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
    pub fn of(parts: &[u64]) -> Rng {
        let mut s = 0x243f6a8885a308d3u64;
        for p in parts {
            s ^= *p;
            s = splitmix(&mut s);
        }
        Rng(s)
    }
    pub fn next(&mut self) -> u64 {
        splitmix(&mut self.0)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            return 0;
        }
        (self.next() >> 11) as usize % n
    }
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, percent: usize) -> bool {
        self.below(100) < percent
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    /// Small values often, large ones now and then.
    pub fn geometric(&mut self, mean: usize) -> usize {
        let u = ((self.next() >> 11) as f64 + 1.0) / (1u64 << 53) as f64;
        (-(u.ln()) * mean as f64) as usize
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tk {
    Plain,
    Str,
    Regex,
    /// `...` without holes
    Tpl,
    /// `...${
    TplHead,
    /// }...${
    TplMid,
    /// }...`
    TplTail,
}

#[derive(Clone, Debug)]
pub struct Tok {
    pub text: String,
    pub kind: Tk,
    /// brackets open after this token
    pub depth: u32,
    /// no program can end right after this token
    pub cant_end: bool,
    /// no line break may come before it
    pub same_line: bool,
    /// a line break must come before it
    pub new_line: bool,
    /// byte position in the rendered source
    pub at: usize,
}

pub struct Style {
    pub unicode: bool,
    pub comments: usize,
    pub dense: bool,
    /// unique ASCII names and explicit semicolons: the number of statements is then known
    pub marked: bool,
    pub no_regex: bool,
    pub imports: bool,
}

pub struct Gen<'r> {
    pub r: &'r mut Rng,
    pub toks: Vec<Tok>,
    depth: u32,
    budget: i64,
    pub style: Style,
    pub marks: Vec<String>,
    pub count: u32,
    in_fn: u32,
    in_loop: u32,
    labels: Vec<String>,
    no_in: bool,
    next: u32,
    nl: bool,
}

const NAMES: &[&str] = &[
    "a", "b", "x", "foo", "bar", "baz", "$", "_", "this1", "instanceofx", "lets", "vars", "iff", "newline", "doit", "forEach",
    "breakpoint", "con", "of", "as", "from", "get", "set", "constructor", "target", "async", "privat", "returnValue", "typeofx",
    "$scope", "_private", "camelCase", "A1", "undefine", "nul", "tru", "functions", "x0", "prototype", "arguments", "yielded", "enums",
];
const UNAMES: &[&str] = &["é", "naïve", "日本", "ñandú", "πr", "𝒜", "aé", "ß1", "жизнь", "x𝒜y"];
const KEYS: &[&str] = &["if", "class", "function", "new", "default", "static", "in", "typeof", "null", "true", "delete", "get", "set"];
const BINOPS: &[&str] = &[
    "+", "-", "*", "/", "%", "**", "<<", ">>", ">>>", "<", "<=", ">", ">=", "instanceof", "===", "!==", "==", "!=", "&", "^", "|", "&&", "||",
];
const ASSIGN: &[&str] = &["=", "+=", "-=", "**=", "*=", "/=", "%=", "<<=", ">>=", ">>>=", "&=", "^=", "|="];

impl<'r> Gen<'r> {
    pub fn new(r: &'r mut Rng, budget: i64, style: Style) -> Gen<'r> {
        Gen {
            r,
            toks: Vec::new(),
            depth: 0,
            budget,
            style,
            marks: Vec::new(),
            count: 0,
            in_fn: 0,
            in_loop: 0,
            labels: Vec::new(),
            no_in: false,
            next: 0,
            nl: false,
        }
    }

    fn push(&mut self, text: &str, kind: Tk, cant_end: bool) {
        self.budget -= 1;
        // a line break ends no statement before these
        if self.nl && (text.starts_with(['(', '[', '`', '/', '+', '-', '.'])) {
            self.nl = false;
            self.toks.push(Tok { text: ";".into(), kind: Tk::Plain, depth: self.depth, cant_end: false, same_line: true, new_line: false, at: 0 });
        }
        match kind {
            Tk::TplHead => self.depth += 1,
            Tk::TplTail => self.depth -= 1,
            Tk::Plain => match text {
                "(" | "[" | "{" => self.depth += 1,
                ")" | "]" | "}" => self.depth -= 1,
                _ => {}
            },
            _ => {}
        }
        let new_line = std::mem::replace(&mut self.nl, false);
        self.toks.push(Tok { text: text.into(), kind, depth: self.depth, cant_end, same_line: false, new_line, at: 0 });
    }
    fn t(&mut self, text: &str) {
        self.push(text, Tk::Plain, false)
    }
    /// a token no program can end with
    fn o(&mut self, text: &str) {
        self.push(text, Tk::Plain, true)
    }
    fn glue(&mut self) {
        self.toks.last_mut().unwrap().same_line = true;
    }

    fn name(&mut self) -> String {
        if self.style.marked {
            self.next += 1;
            let m = format!("mk{}q", self.next);
            self.marks.push(m.clone());
            return m;
        }
        if self.style.unicode && self.r.chance(25) {
            return self.r.pick(UNAMES).to_string();
        }
        if self.r.chance(3) {
            let n = self.r.range(20, 60);
            return format!("long_{}", "n".repeat(n));
        }
        self.r.pick(NAMES).to_string()
    }
    fn ident(&mut self) {
        let n = self.name();
        self.t(&n);
    }

    fn string(&mut self) {
        let q = if self.r.chance(50) { '\'' } else { '"' };
        let mut s = String::new();
        s.push(q);
        let n = self.r.geometric(5).min(60);
        for _ in 0..n {
            match self.r.below(14) {
                0 => s.push_str("\\n"),
                1 => {
                    s.push('\\');
                    s.push(q)
                }
                2 => s.push_str("\\\\"),
                3 => s.push_str("\\u0041"),
                4 if self.style.unicode => s.push_str(self.r.pick(&["é", "日", "→", "😀", "\u{2028}"])),
                5 => s.push(if q == '"' { '\'' } else { '"' }),
                6 => s.push_str(self.r.pick(&["/*", "//", "${", "`", "{", ")", "\t"])),
                7 if self.style.unicode && self.r.chance(20) => s.push_str("\\\n"),
                _ => s.push((b'a' + self.r.below(26) as u8) as char),
            }
        }
        s.push(q);
        self.push(&s, Tk::Str, false);
    }

    fn tpl_text(&mut self) -> String {
        let mut s = String::new();
        for _ in 0..self.r.geometric(4).min(40) {
            match self.r.below(14) {
                0 => s.push('\n'),
                1 => s.push_str("\\`"),
                2 => s.push_str("\\$"),
                3 if self.style.unicode => s.push_str(self.r.pick(&["é", "日", "→", "😀"])),
                4 => s.push_str(self.r.pick(&["'", "\"", "//", "}", "{", " "])),
                5 => s.push_str("$ "),
                _ => s.push((b'a' + self.r.below(26) as u8) as char),
            }
        }
        s
    }

    fn template(&mut self, d: u32) {
        let holes = if self.r.chance(50) { 0 } else { self.r.range(1, 3) };
        let text = self.tpl_text();
        if holes == 0 {
            self.push(&format!("`{}`", text), Tk::Tpl, false);
            return;
        }
        self.push(&format!("`{}${{", text), Tk::TplHead, true);
        for i in 0..holes {
            self.expr(d + 1);
            let text = self.tpl_text();
            if i + 1 == holes {
                self.push(&format!("}}{}`", text), Tk::TplTail, false);
            } else {
                self.push(&format!("}}{}${{", text), Tk::TplMid, true);
            }
        }
    }

    fn regex(&mut self) {
        let mut s = String::from("/");
        for _ in 0..self.r.range(1, 6) {
            match self.r.below(9) {
                0 => s.push_str("\\d"),
                1 => s.push_str("\\/"),
                2 => s.push_str("[a-z]"),
                3 => s.push('+'),
                4 if self.style.unicode => s.push_str(self.r.pick(&["é", "日"])),
                5 => s.push_str("\\\\"),
                _ => s.push((b'a' + self.r.below(26) as u8) as char),
            }
        }
        // nothing to repeat in front
        if s.starts_with("/+") {
            s.insert(1, 'r');
        }
        s.push('/');
        s.push_str(self.r.pick(&["", "", "g", "gi", "m", "u", "y"]));
        self.push(&s, Tk::Regex, false);
    }

    fn number(&mut self) {
        let n = match self.r.below(12) {
            0 => "0".to_string(),
            1 => format!("{}.{}", self.r.below(100), self.r.below(1000)),
            2 => format!(".{}", self.r.below(1000)),
            3 => format!("{}e{}", self.r.range(1, 99), self.r.below(20)),
            4 => format!("{}E-{}", self.r.range(1, 9), self.r.below(20)),
            5 => format!("0x{:x}", self.r.below(1 << 30)),
            6 => format!("0X{:X}", self.r.below(1 << 20)),
            7 => format!("0b{:b}", self.r.below(1 << 10)),
            8 => format!("0o{:o}", self.r.below(1 << 10)),
            9 => format!("{}", self.r.next() >> 8),
            10 if self.r.chance(30) => long_number(&mut self.r),
            _ => format!("{}", self.r.below(1000)),
        };
        self.t(&n);
    }

    fn key(&mut self, d: u32) -> bool {
        // true: a plain word
        match self.r.below(8) {
            0 => {
                self.string();
                false
            }
            1 => {
                let n = format!("{}", self.r.below(100));
                self.t(&n);
                false
            }
            2 => {
                let n = format!("0b{:b}", self.r.below(32));
                self.t(&n);
                false
            }
            3 => {
                self.o("[");
                self.assign(d + 1);
                self.t("]");
                false
            }
            4 if !self.style.marked => {
                let k = self.r.pick(KEYS).to_string();
                self.t(&k);
                true
            }
            _ => {
                self.ident();
                true
            }
        }
    }

    fn object(&mut self, d: u32) {
        self.o("{");
        let n = self.r.geometric(2).min(6);
        for i in 0..n {
            match self.r.below(6) {
                0 => self.ident(),
                1 => {
                    self.key(d);
                    self.params_and_body(d);
                }
                2 => {
                    self.o("...");
                    self.assign(d + 1);
                }
                _ => {
                    self.key(d);
                    self.o(":");
                    self.assign(d + 1);
                }
            }
            if i + 1 < n || self.r.chance(15) {
                self.o(",");
            }
        }
        self.t("}");
    }

    fn array(&mut self, d: u32) {
        self.o("[");
        let n = self.r.geometric(2).min(6);
        for i in 0..n {
            match self.r.below(8) {
                0 => {
                    self.o("...");
                    self.assign(d + 1);
                }
                1 => {} // a hole
                _ => self.assign(d + 1),
            }
            if i + 1 < n {
                self.o(",");
            }
        }
        self.t("]");
    }

    fn pattern(&mut self, d: u32) {
        if d > 4 || self.budget < 0 {
            return self.ident();
        }
        match self.r.below(7) {
            0 => {
                self.o("[");
                let n = self.r.below(4);
                for i in 0..n {
                    if !self.r.chance(15) {
                        self.pattern(d + 2);
                        if self.r.chance(25) {
                            self.o("=");
                            self.assign(d + 2);
                        }
                    }
                    if i + 1 < n {
                        self.o(",");
                    }
                }
                self.t("]");
            }
            1 => {
                self.o("{");
                let n = self.r.below(4);
                for i in 0..n {
                    match self.r.below(4) {
                        0 => {
                            self.key(d + 2);
                            self.o(":");
                            self.ident();
                        }
                        1 if i + 1 == n => {
                            self.o("...");
                            self.ident();
                        }
                        _ => self.ident(),
                    }
                    if i + 1 < n {
                        self.o(",");
                    }
                }
                self.t("}");
            }
            _ => self.ident(),
        }
    }

    fn params_and_body(&mut self, d: u32) {
        self.o("(");
        let n = self.r.geometric(1).min(4);
        for i in 0..n {
            if i + 1 == n && self.r.chance(20) {
                self.o("...");
                self.ident();
            } else {
                self.pattern(d + 2);
                if self.r.chance(20) {
                    self.o("=");
                    self.assign(d + 2);
                }
                if i + 1 < n {
                    self.o(",");
                }
            }
        }
        self.t(")");
        self.fn_body(d);
    }

    fn fn_body(&mut self, d: u32) {
        let no_in = std::mem::replace(&mut self.no_in, false);
        let lp = std::mem::replace(&mut self.in_loop, 0);
        let lb = std::mem::take(&mut self.labels);
        self.in_fn += 1;
        self.block(d + 1);
        self.in_fn -= 1;
        self.labels = lb;
        self.in_loop = lp;
        self.no_in = no_in;
    }

    fn block(&mut self, d: u32) {
        self.o("{");
        let n = if d > 7 || self.budget < 0 { self.r.below(2) } else { self.r.geometric(2).min(5) };
        for _ in 0..n {
            self.stmt(d + 1);
        }
        self.t("}");
    }

    fn class(&mut self, d: u32, named: bool) {
        self.o("class");
        if named {
            self.ident();
        }
        if self.r.chance(30) {
            self.o("extends");
            self.lhs(d + 2, false);
        }
        self.o("{");
        let n = self.r.geometric(2).min(5);
        for _ in 0..n {
            if self.r.chance(20) {
                self.t("static");
            }
            match self.r.below(7) {
                0 => {
                    let kw = if self.r.chance(50) { "get" } else { "set" };
                    self.t(kw);
                    self.ident();
                    self.params_and_body(d);
                }
                1 => {
                    self.t("constructor");
                    self.params_and_body(d);
                }
                2 => {
                    self.o("[");
                    self.assign(d + 1);
                    self.t("]");
                    self.params_and_body(d);
                }
                3 => {
                    let n = format!("{}", self.r.below(100));
                    self.t(&n);
                    self.params_and_body(d);
                }
                4 => {
                    self.ident();
                    self.o("=");
                    self.assign(d + 1);
                    self.t(";");
                }
                _ => {
                    self.ident();
                    self.params_and_body(d);
                }
            }
            if self.r.chance(10) {
                // one semicolon is allowed after a member
                if self.toks.last().unwrap().text != ";" {
                    self.t(";");
                }
            }
        }
        self.t("}");
    }

    fn arrow(&mut self, d: u32) {
        match self.r.below(4) {
            0 => {
                self.o("(");
                self.t(")");
            }
            1 => self.ident(),
            _ => {
                self.o("(");
                let n = self.r.range(1, 3);
                for i in 0..n {
                    self.ident();
                    if self.r.chance(20) {
                        self.o("=");
                        self.assign(d + 2);
                    }
                    if i + 1 < n {
                        self.o(",");
                    }
                }
                self.t(")");
            }
        }
        self.o("=>");
        self.glue();
        if self.r.chance(40) {
            self.fn_body(d);
        } else if self.r.chance(10) {
            self.o("(");
            self.object(d + 1);
            self.t(")");
        } else {
            self.assign_ns(d + 1);
        }
    }

    fn primary(&mut self, d: u32, free: bool) {
        if d > 8 || self.budget < 0 {
            return match self.r.below(3) {
                0 => self.number(),
                1 if !self.style.marked => self.t("this"),
                _ => self.ident(),
            };
        }
        match self.r.below(if free { 22 } else { 18 }) {
            0..=4 => self.ident(),
            5 => self.t("this"),
            6 | 7 => self.number(),
            8 => self.string(),
            9 => {
                let l = self.r.pick(&["true", "false", "null", "undefined"]).to_string();
                self.t(&l)
            }
            10 => self.array(d),
            11 => self.template(d),
            12 if !self.style.no_regex => self.regex(),
            13 | 14 => {
                let no_in = std::mem::replace(&mut self.no_in, false);
                self.o("(");
                self.expr(d + 1);
                self.t(")");
                self.no_in = no_in;
            }
            15 => {
                self.o("new");
                self.ident();
                if self.r.chance(30) {
                    let n = format!(".{}", self.name());
                    self.t(&n);
                }
                self.args(d);
            }
            16 if self.in_fn > 0 && self.r.chance(20) => {
                self.o("new");
                self.t(".target");
            }
            17 => {
                self.o("(");
                self.arrow(d + 1);
                self.t(")");
            }
            18 | 19 => self.object(d),
            20 => {
                self.o("function");
                if self.r.chance(15) {
                    self.o("*");
                }
                if self.r.chance(40) {
                    self.ident();
                }
                self.params_and_body(d);
            }
            21 => {
                let named = self.r.chance(40);
                self.class(d, named)
            }
            _ => self.ident(),
        }
    }

    fn args(&mut self, d: u32) {
        let no_in = std::mem::replace(&mut self.no_in, false);
        self.o("(");
        let n = self.r.geometric(1).min(4);
        for i in 0..n {
            if self.r.chance(10) {
                self.o("...");
            }
            self.assign(d + 1);
            if i + 1 < n {
                self.o(",");
            }
        }
        self.t(")");
        self.no_in = no_in;
    }

    fn lhs(&mut self, d: u32, free: bool) {
        self.primary(d, free);
        let n = self.r.geometric(1).min(4);
        for _ in 0..n {
            match self.r.below(6) {
                0 => self.args(d),
                1 => {
                    let no_in = std::mem::replace(&mut self.no_in, false);
                    self.o("[");
                    self.expr(d + 1);
                    self.t("]");
                    self.no_in = no_in;
                }
                2 if d < 6 && self.r.chance(30) => self.template(d),
                _ => {
                    let n = if !self.style.marked && self.r.chance(10) {
                        format!(".{}", self.r.pick(KEYS))
                    } else if self.style.marked || !self.style.unicode {
                        format!(".{}", self.name())
                    } else {
                        format!(".{}", self.r.pick(NAMES))
                    };
                    // a number followed by a member needs help
                    let last = self.toks.last().unwrap().text.as_bytes();
                    if last[0].is_ascii_digit() || (last[0] == b'.' && last.len() > 1 && last[1].is_ascii_digit()) {
                        let n2 = self.toks.pop().unwrap();
                        self.o("(");
                        self.push(&n2.text, n2.kind, false);
                        self.t(")");
                    }
                    self.t(&n);
                }
            }
        }
    }

    fn unary(&mut self, d: u32, free: bool) {
        if d < 8 && self.r.chance(12) {
            let op = self.r.pick(&["+", "-", "!", "~", "typeof", "void", "delete"]).to_string();
            self.o(&op);
            return self.unary(d + 1, true);
        }
        if self.r.chance(5) {
            let op = self.r.pick(&["++", "--"]).to_string();
            self.o(&op);
            self.ident();
            return;
        }
        if self.r.chance(6) {
            self.ident();
            let op = self.r.pick(&["++", "--"]).to_string();
            self.t(&op);
            self.glue();
            return;
        }
        self.lhs(d, free)
    }

    fn binary(&mut self, d: u32, free: bool) {
        self.unary(d, free);
        let n = self.r.geometric(1).min(4);
        for _ in 0..n {
            if self.r.chance(4) && !self.no_in {
                self.o("in");
            } else {
                let op = self.r.pick(BINOPS).to_string();
                if op == "**" && self.toks.len() > 1 {
                    // the left side of ** may not be a unary expression
                    self.o("*");
                } else {
                    self.o(&op);
                }
            }
            self.unary(d + 1, true);
        }
    }

    fn assign_ns(&mut self, d: u32) {
        self.assign_inner(d, false)
    }
    fn assign(&mut self, d: u32) {
        self.assign_inner(d, true)
    }
    fn assign_inner(&mut self, d: u32, free: bool) {
        if d > 9 || self.budget < 0 {
            return self.primary(99, free);
        }
        match self.r.below(14) {
            0 if free => self.arrow(d),
            1 | 2 => {
                if self.r.chance(70) {
                    self.ident();
                } else {
                    self.ident();
                    let n = format!(".{}", if self.style.unicode { "prop".into() } else { self.name() });
                    self.t(&n);
                }
                let op = self.r.pick(ASSIGN).to_string();
                self.o(&op);
                self.assign(d + 1);
            }
            3 => {
                self.binary(d + 1, free);
                self.o("?");
                self.assign(d + 1);
                self.o(":");
                self.assign(d + 1);
            }
            4 | 5 | 6 => self.binary(d, free),
            _ => self.unary(d, free),
        }
    }

    pub fn expr(&mut self, d: u32) {
        self.assign(d);
        if self.r.chance(7) {
            for _ in 0..self.r.range(1, 3) {
                self.o(",");
                self.assign(d + 1);
            }
        }
    }
    fn expr_stmt(&mut self, d: u32) {
        self.assign_ns(d);
        if self.r.chance(7) {
            self.o(",");
            self.assign(d + 1);
        }
    }

    fn semi(&mut self) {
        if self.style.marked || self.r.chance(80) {
            self.t(";");
        } else {
            self.nl = true;
        }
    }

    fn declarators(&mut self, d: u32) {
        let n = 1 + self.r.geometric(1).min(3);
        for i in 0..n {
            let start = self.toks.len();
            self.pattern(d + 1);
            if self.toks.len() > start + 1 || self.r.chance(65) {
                self.o("=");
                self.assign(d + 1);
            }
            if i + 1 < n {
                self.o(",");
            }
        }
    }

    fn body(&mut self, d: u32) {
        if self.r.chance(70) {
            self.block(d + 1)
        } else {
            self.simple(d + 1)
        }
    }

    fn simple(&mut self, d: u32) {
        match self.r.below(8) {
            0 if self.in_fn > 0 => {
                self.t("return");
                if self.r.chance(80) {
                    self.expr(d + 1);
                    // the value starts on the same line
                    self.fix_same_line("return");
                }
                self.semi();
            }
            1 if self.in_loop > 0 => {
                let k = if self.r.chance(50) { "break" } else { "continue" };
                self.t(k);
                if !self.labels.is_empty() && self.r.chance(50) {
                    let l = self.r.pick(&self.labels).clone();
                    self.t(&l);
                    self.glue();
                }
                self.semi();
            }
            2 => {
                self.o("throw");
                self.expr(d + 1);
                self.fix_same_line("throw");
                self.semi();
            }
            3 => {
                self.t("debugger");
                self.t(";");
            }
            _ => {
                self.expr_stmt(d + 1);
                self.semi();
            }
        }
    }

    fn fix_same_line(&mut self, word: &str) {
        for i in (0..self.toks.len()).rev() {
            if self.toks[i].text == word && self.toks[i].kind == Tk::Plain {
                if i + 1 < self.toks.len() {
                    self.toks[i + 1].same_line = true;
                }
                // nested functions may contain the word as well; mark all of them up to here
            }
            if i + 200 < self.toks.len() {
                break;
            }
        }
    }

    fn looped(&mut self, d: u32) {
        self.in_loop += 1;
        self.body(d);
        self.in_loop -= 1;
    }

    pub fn stmt(&mut self, d: u32) {
        if d > 9 || self.budget < 0 {
            return self.simple(d.max(9));
        }
        match self.r.below(26) {
            0..=3 => {
                let k = self.r.pick(&["var", "let", "const"]).to_string();
                self.o(&k);
                self.declarators(d);
                self.semi();
            }
            4 | 5 => {
                self.o("function");
                if self.r.chance(15) {
                    self.o("*");
                }
                self.ident();
                self.params_and_body(d);
            }
            6 => {
                self.class(d, true);
            }
            7 | 8 => {
                self.o("if");
                self.o("(");
                self.expr(d + 1);
                self.t(")");
                self.body(d);
                if self.r.chance(40) {
                    self.o("else");
                    if self.r.chance(40) && d < 8 {
                        self.o("if");
                        self.o("(");
                        self.expr(d + 1);
                        self.t(")");
                    }
                    self.body(d);
                }
            }
            9 => {
                self.o("while");
                self.o("(");
                self.expr(d + 1);
                self.t(")");
                self.looped(d);
            }
            10 => {
                self.o("do");
                self.in_loop += 1;
                self.block(d + 1);
                self.in_loop -= 1;
                self.o("while");
                self.o("(");
                self.expr(d + 1);
                self.t(")");
                self.nl = true;
            }
            11 | 12 => {
                self.o("for");
                self.o("(");
                match self.r.below(6) {
                    0 => {
                        let k = self.r.pick(&["var", "let", "const"]).to_string();
                        self.o(&k);
                        self.ident();
                        self.o("of");
                        self.assign(d + 2);
                    }
                    1 => {
                        let k = self.r.pick(&["var", "let", "const"]).to_string();
                        self.o(&k);
                        self.ident();
                        self.o("in");
                        self.expr(d + 2);
                    }
                    2 => {
                        self.ident();
                        self.o("in");
                        self.unary(d + 2, true);
                    }
                    k => {
                        self.no_in = true;
                        if k == 3 {
                            self.o("let");
                            self.ident();
                            self.o("=");
                            self.unary(d + 3, true);
                        } else if k == 4 {
                            self.expr(d + 2);
                        }
                        self.no_in = false;
                        self.o(";");
                        if self.r.chance(80) {
                            self.expr(d + 2);
                        }
                        self.o(";");
                        if self.r.chance(80) {
                            self.expr(d + 2);
                        }
                    }
                }
                self.t(")");
                self.looped(d);
            }
            13 => {
                self.o("switch");
                self.o("(");
                self.expr(d + 1);
                self.t(")");
                self.o("{");
                let n = self.r.geometric(2).min(4);
                let def = self.r.below(6);
                for i in 0..n {
                    if i == def {
                        self.o("default");
                    } else {
                        self.o("case");
                        // a word followed by a colon would be fine here, but an arrow would not
                        self.binary(d + 2, true);
                    }
                    self.o(":");
                    let m = self.r.below(3);
                    self.in_loop += 1;
                    let lb = std::mem::take(&mut self.labels);
                    for _ in 0..m {
                        self.stmt(d + 1);
                    }
                    if self.r.chance(50) {
                        self.t("break");
                        self.t(";");
                    }
                    self.labels = lb;
                    self.in_loop -= 1;
                }
                self.t("}");
            }
            14 | 15 => {
                self.o("try");
                self.block(d + 1);
                let c = self.r.below(3);
                if c < 2 {
                    self.o("catch");
                    self.o("(");
                    self.pattern(d + 1);
                    self.t(")");
                    self.block(d + 1);
                }
                if c > 0 {
                    self.o("finally");
                    self.block(d + 1);
                }
            }
            16 => {
                let l = self.name();
                self.t(&l);
                self.o(":");
                self.labels.push(l);
                self.o("while");
                self.o("(");
                self.expr(d + 1);
                self.t(")");
                self.looped(d);
                self.labels.pop();
            }
            17 => self.block(d + 1),
            18 if self.r.chance(40) => self.t(";"),
            _ => self.simple(d),
        }
    }

    fn import(&mut self) {
        self.o("import");
        match self.r.below(5) {
            0 => {
                self.import_source();
                return;
            }
            1 => self.ident(),
            2 => {
                self.o("*");
                self.o("as");
                self.ident();
            }
            k => {
                if k == 4 {
                    self.ident();
                    self.o(",");
                }
                self.o("{");
                let n = self.r.range(1, 3);
                for i in 0..n {
                    self.ident();
                    if self.r.chance(40) {
                        self.t("as");
                        self.ident();
                    }
                    if i + 1 < n {
                        self.o(",");
                    }
                }
                self.t("}");
            }
        }
        self.o("from");
        self.import_source();
    }
    fn import_source(&mut self) {
        let s = format!("'./{}'", if self.style.marked { self.name() } else { "mod".into() });
        self.push(&s, Tk::Str, false);
        self.nl = true;
    }

    pub fn program(&mut self, stmts: usize) {
        for _ in 0..stmts {
            if self.budget < 0 {
                break;
            }
            if self.style.imports && self.r.chance(8) {
                self.import();
            } else {
                self.stmt(0);
            }
            self.count += 1;
        }
    }

    /// Joins the tokens with white space and comments; records where each token starts.
    pub fn render(&mut self, comments: &mut Vec<(usize, usize)>) -> String {
        let mut s = String::new();
        let n = self.toks.len();
        for i in 0..n {
            let (same, nl) = (self.toks[i].same_line, self.toks[i].new_line);
            let prev_last = s.as_bytes().last().copied().unwrap_or(b' ');
            let first = self.toks[i].text.as_bytes()[0];
            let inside = matches!(self.toks[i].kind, Tk::TplMid | Tk::TplTail);
            let word = |b: u8| b.is_ascii_alphanumeric() || b == b'_' || b == b'$' || b > 127 || b == b'\\';
            let soft = |b: u8| b"()[]{};,".contains(&b);
            if nl {
                s.push('\n');
            }
            let needs = !(soft(prev_last) || soft(first) || inside)
                && ((word(prev_last) && word(first)) || !word(prev_last) && !word(first) || prev_last == b'/' || first == b'/' || first == b'.' && word(prev_last) && self.r.chance(0));
            let number_dot = first == b'.' && prev_last.is_ascii_digit();
            if self.style.dense {
                if needs || number_dot {
                    s.push(' ');
                }
            } else if i > 0 && first == b'.' && self.toks[i].text.len() > 1 && self.toks[i].text.as_bytes()[1] != b'.' && !number_dot && self.r.chance(90) {
                // member access stays attached
            } else {
                match self.r.below(12) {
                    0 if !same => s.push('\n'),
                    1 if !same => s.push_str("\n  "),
                    2 => s.push('\t'),
                    3 if !needs => {}
                    _ => s.push(' '),
                }
            }
            if self.style.comments > 0 && self.r.chance(self.style.comments) {
                // a slash must not run into the comment
                if s.ends_with('/') {
                    s.push(' ');
                }
                let a = s.len();
                if self.r.chance(60) || same {
                    let c = self.r.pick(&["/* c */", "/**/", "/* ' \" ` */", "/* é → */", "/***/", "/* // */", "/* { ( [ */"]).to_string();
                    s.push_str(&c);
                } else {
                    let c = self.r.pick(&["// c", "//", "// ' \" `", "// é → 日", "// /* {"]).to_string();
                    s.push_str(&c);
                }
                comments.push((a, s.len()));
                if s.as_bytes()[a + 1] == b'/' {
                    s.push('\n');
                }
            }
            self.toks[i].at = s.len();
            s.push_str(&self.toks[i].text.clone());
        }
        if self.r.chance(50) {
            s.push('\n');
        }
        s
    }
}

pub struct Program {
    pub text: String,
    pub toks: Vec<Tok>,
    pub comments: Vec<(usize, usize)>,
    pub marks: Vec<String>,
    pub count: u32,
}

#[derive(Clone, Copy, PartialEq)]
pub enum Flavor {
    Any,
    Marked,
    Ascii,
}

pub fn program(r: &mut Rng, size: usize, flavor: Flavor) -> Program {
    let style = Style {
        unicode: flavor == Flavor::Any && r.chance(35),
        comments: if r.chance(40) { r.range(1, 12) } else { 0 },
        dense: r.chance(30),
        marked: flavor == Flavor::Marked,
        no_regex: flavor == Flavor::Ascii,
        imports: r.chance(50),
    };
    let stmts = r.range(1, 1 + size / 12);
    let mut g = Gen::new(r, size as i64, style);
    g.program(stmts);
    let mut comments = Vec::new();
    let text = g.render(&mut comments);
    let (toks, marks, count) = (std::mem::take(&mut g.toks), std::mem::take(&mut g.marks), g.count);
    Program { text, toks, comments, marks, count }
}

fn src(text: String, origin: String) -> Src {
    Src { text, origin, must_fail: None, count: None, marks: Vec::new() }
}

/// A complete program.
pub fn good(r: &mut Rng, size: usize) -> Src {
    let p = program(r, size, Flavor::Any);
    src(p.text, "generated".into())
}

pub fn marked(r: &mut Rng, size: usize) -> Src {
    let p = program(r, size, Flavor::Marked);
    let mut s = src(p.text, "generated, names unique".into());
    s.count = Some(p.count);
    s.marks = p.marks;
    s
}

/// One construct each: small enough for exhaustive sweeps of faults and preemptions.
pub const CORPUS: &[&str] = &[
    "",
    ";",
    "a;",
    "a.b.c;",
    "foo(1, 'x');",
    "var a = 1, b;",
    "let [x, , y = 2] = z;",
    "const {p, q: r, ...s} = t;",
    "function f(a, b = 1, ...c) { return a + b; }",
    "function* g() { }",
    "(function () { return new.target; });",
    "(() => {});",
    "x => x * 2;",
    "(a, b = 3) => ({c: a});",
    "class A extends B { constructor() { this.x = 1; } static m() {} get g() { return 1; } set g(v) {} [k]() {} 1() {} }",
    "(class { m() {} });",
    "class C { p = 1; }",
    "if (a) b; else c;",
    "if (a) { b; } else if (c) { d; } else { e; }",
    "while (a) { break; }",
    "l: while (1) { continue l; }",
    "do { a; } while (b)",
    "for (;;) { }",
    "for (var i = 0, n = 9; i < n; i++) { f(i); }",
    "for (let k in o) { k; }",
    "for (const v of w) { v; }",
    "for (x in y) z;",
    "switch (a) { case 1: b; break; case 2: default: c; }",
    "switch (a) { }",
    "try { a; } catch (e) { b; } finally { c; }",
    "try { a; } finally { }",
    "throw new Error('x');",
    "debugger;",
    "{ a; { b; } }",
    "import 'a';",
    "import a from 'b'",
    "import * as n from 'b'",
    "import {a as b, c} from 'd'",
    "import d, {e} from 'f'",
    "`plain`;",
    "`a${b}c${d + 1}e`;",
    "tag`x${y}z`;",
    "[1, , ...b, [c]];",
    "({a, b: 1, 'c': 2, 3: d, [e]: f, g(h) { return h; }, ...i, 0b11: j});",
    "/ab+[c/]\\/d/gi.test(s);",
    "a ? b : c;",
    "a, b, c;",
    "-a + +b - !c * ~d / typeof e % void f ** 2;",
    "delete a[b];",
    "a = b += c -= d *= e;",
    "i++ + --j;",
    "a && b || c;",
    "a << 1 >> 2 >>> 3 & 4 ^ 5 | 6;",
    "a instanceof B; c in d;",
    "0x1F + 0b101 + 0o17 + 1.5e-3 + .5 + 10;",
    "'str\\n\\'' + \"d\\\"q\";",
    "new Foo(a, b).bar[c](d);",
    "new Foo;",
    "this.a = this;",
    "null; undefined; true; false;",
    "a /* c */ + b // d\n;",
    "é + 日本;",
    "'→😀';",
    "function f() { if (a) { while (b) { for (;;) { switch (c) { case 1: { d; } } } } } }",
    "var f = function () { return () => { return function g() { return x => y => z; }; }; };",
];

/// Sources that are not programs, or only almost.
pub const BROKEN: &[&str] = &[
    "@", "(", ")", "[", "]", "{", "}", "`", "`${", "`${a", "`${a}", "'", "\"", "/", "/a", "/*", "/* *", "//", "/[/", "/a\\", "\\", "'\\", "\"a\\\"", "→", "é→", "foo.é", "foo.→", "foo.",
    "foo.1", "a.'b'", "..", "...", "...a", "a..b", "=>", "() =>", "()", "(a", "(a,", "(a, b) =>", "a =>", "a ? b", "a ? b :", "a ?", "[1,", "[...", "({", "({a", "({a:", "({a: 1,", "({[", "({[a", "({[a]", "({a(", "({...", "f(", "f(a", "f(a,", "a[", "a[b", "a.", "new",
    "new a(", "new.", "new.x", "typeof", "a +", "a *", "a ** ", "a =", "a, ", "++", "--", "1++", "++1", "a++b", "var", "var a =", "var [", "var [a", "var [a,", "var {", "var {a", "var {a:", "let", "const", "var 1", "var a b", "if", "if (", "if (a", "if (a)", "if (a) b else", "else",
    "while", "while (a", "while (a)", "do", "do {", "do {} while", "do {} while (", "for", "for (", "for (;", "for (;;", "for (;;)", "for (var", "for (var a", "for (var a of", "for (var a in", "for (a in b", "for (a of b) c", "switch", "switch (", "switch (a", "switch (a)", "switch (a) {", "switch (a) { case",
    "switch (a) { case 1", "switch (a) { case 1:", "switch (a) { case 1: b", "switch (a) { default:", "switch (a) { b }", "try", "try {", "try {}", "try {} catch", "try {} catch (", "try {} catch (e", "try {} catch (e) {", "try {} finally", "try {} finally {", "throw", "throw;", "return", "break 1", "continue 1",
    "function", "function f", "function f(", "function f(a", "function f(a,", "function f(a) ", "function f() {", "function f(...", "function f(...a", "function f(...a, b) {}", "function f(a = ", "function*", "class", "class A", "class A {", "class A extends", "class A extends B", "class A { m", "class A { m(", "class A { m() {", "class A { get",
    "class A { static", "class A { [", "class A { x =", "class A { x = 1", "class A { 'x'() {} }", "class { }", "import", "import {", "import {a", "import {a,", "import {a as", "import {a b} from 'c'", "import {a} from", "import * ", "import * as", "import * as a", "import a", "import a,", "import a from", "import a from b", "import(", "import.", "import '", "import {}",
    "import {} from 'a'", "export default a", "with (a) b", "enum", "yield", "super()", "0x", "0b", "0o", "0b2", "08", "09.5", "1e", "1e+", ".5.5", "1.e", "0x1G", "1a", "\u{1}", "\u{7f}", "#!x", "#x", "a#b", "a\u{0}b", "\u{0}", "a;\u{0}b", "'\u{0}'", "`\u{0}`", "/\u{0}/", "/*\u{0}*/a", "//\u{0}\na", "a\u{2028}b", "\u{feff}a", "\u{a0}a", "a\rb", "a\u{b}b",
    "<!-- a", "a --> b", "({a = 1} = b)", "([a] = b)", "({a} = b) => c", "([a]) => b", "(...a) => b", "async () => a", "a => { ", "a => (", "(a + b) => c", "(1) => 2", "a?.b", "a ?? b", "1n", "@dec class A {}", "a ! b", "a b", "a 'b'", "1 2", "} a", ") a", "] a", "a }", "a )", "a ]", "{ ) }", "( ] )", "[ } ]", "`a${b`", "`a${b}c${", "`\\", "`a\\`", "case 1:", "default:", "catch", "finally", "extends", "in", "instanceof", "of", "static", "a: b: c", "a:", "if (a) function f() {}", "let let = 1", "é", "é é", "日本 =", "𝒜", "𝒜→", "x𝒜",
];

pub fn corpus_src(i: usize) -> Src {
    src(CORPUS[i % CORPUS.len()].to_string(), format!("corpus {}", i % CORPUS.len()))
}
pub fn broken_src(i: usize) -> Src {
    src(BROKEN[i % BROKEN.len()].to_string(), format!("broken {}", i % BROKEN.len()))
}

/// A program cut short, or damaged in a way no complete program can look like: must be rejected.
pub fn must_fail(r: &mut Rng, size: usize) -> Option<Src> {
    let flavor = if r.chance(60) { Flavor::Ascii } else { Flavor::Any };
    let p = program(r, size, flavor);
    let mk = |text: String, why: String| {
        let mut s = src(text, "cut or damaged".into());
        s.must_fail = Some(why);
        Some(s)
    };
    let n = p.toks.len();
    if n == 0 {
        return None;
    }
    match r.below(14) {
        // cut at any byte
        0..=4 => {
            let cut = r.below(p.text.len() + 1);
            let (cut, why) = cut_reason(&p, cut)?;
            mk(p.text[..cut].to_string(), why)
        }
        // cut right after a token
        5 | 6 => {
            let mut cands: Vec<usize> = (0..n).filter(|&i| p.toks[i].cant_end).collect();
            if r.chance(50) {
                cands.retain(|&i| p.toks[i].depth == 0);
            }
            if cands.is_empty() {
                return None;
            }
            let i = *r.pick(&cands);
            let cut = p.toks[i].at + p.toks[i].text.len();
            let why = if p.toks[i].depth > 0 { format!("{} brackets are open at the end", p.toks[i].depth) } else { format!("it ends after {:?}", p.toks[i].text) };
            let tail = *r.pick(&["", " ", "\n", " // end", " /* end */", "\n\n"]);
            if p.toks[i].text == "/" {
                return None;
            }
            mk(format!("{}{}", &p.text[..cut], tail), why)
        }
        // cut inside a string, template or regular expression
        7 | 8 => {
            let cands: Vec<usize> = (0..n).filter(|&i| p.toks[i].kind != Tk::Plain).collect();
            if cands.is_empty() {
                return None;
            }
            let i = *r.pick(&cands);
            let cut = p.toks[i].at + r.below(p.toks[i].text.len());
            let (cut, why) = cut_reason(&p, cut)?;
            mk(p.text[..cut].to_string(), why)
        }
        // cut inside a comment
        9 => {
            if p.comments.is_empty() {
                return None;
            }
            let c = *r.pick(&p.comments);
            if p.text.as_bytes()[c.0 + 1] != b'*' {
                return None;
            }
            let cut = floor(&p.text, r.range(c.0 + 2, c.1 - 1));
            mk(p.text[..cut].to_string(), "a comment is open at the end".into())
        }
        // a closing bracket is missing
        10 => {
            if flavor != Flavor::Ascii {
                return None;
            }
            // inside a template the brace that ends a hole could stand in for the one removed, and
            // the text behind it for code
            let mut holes = 0;
            let cands: Vec<usize> = (0..n)
                .filter(|&i| {
                    match p.toks[i].kind {
                        Tk::TplHead => holes += 1,
                        Tk::TplTail => holes -= 1,
                        _ => {}
                    }
                    holes == 0 && p.toks[i].kind == Tk::Plain && [")", "]", "}"].contains(&p.toks[i].text.as_str())
                })
                .collect();
            if cands.is_empty() {
                return None;
            }
            let i = *r.pick(&cands);
            let a = p.toks[i].at;
            mk(format!("{} {}", &p.text[..a], &p.text[a + 1..]), format!("the closing bracket at byte {} was removed", a))
        }
        // a bracket too many at the end, or something that is no token
        11 => {
            let x = *r.pick(&["}", ")", "]", "@", "#", "'", "\"", "`", "/*", "'abc", "`abc", "`a${b", "/* abc", "/abc", "/[/", "(", "[", "{", "f(", "a[", "a +", "a.", "a ="]);
            let t = *r.pick(&["", " ", "\n", " a", " a;", ";"]);
            // a tail could close what is open only in these cases
            let t = if ["}", ")", "]", "@", "#"].contains(&x) { t } else { "" };
            mk(format!("{}\n;{}{}", p.text, x, t), format!("{:?} follows the program", format!("{}{}", x, t)))
        }
        // an embedded NUL
        12 => {
            let i = r.below(n);
            let a = p.toks[i].at;
            mk(format!("{}\0{}", &p.text[..a], &p.text[a..]), format!("text follows a NUL character at byte {}", a))
        }
        _ => {
            let t = *r.pick(&["a", "a;", " b()", "\n'x'", "}", ";", "//", "é"]);
            mk(format!("{}\0{}", p.text, t), "text follows a NUL character after the program".into())
        }
    }
}

fn floor(s: &str, mut i: usize) -> usize {
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    i
}

/// Why the text up to `cut` cannot be a program, if that is certain.
fn cut_reason(p: &Program, cut: usize) -> Option<(usize, String)> {
    let cut = floor(&p.text, cut);
    if let Some(c) = p.comments.iter().find(|c| c.0 < cut && cut < c.1) {
        if p.text.as_bytes()[c.0 + 1] == b'*' && cut >= c.0 + 2 {
            return Some((cut, "a comment is open at the end".into()));
        }
        if cut < c.0 + 2 {
            return None;
        }
    }
    let mut last: Option<&Tok> = None;
    for t in &p.toks {
        if t.at >= cut {
            break;
        }
        let end = t.at + t.text.len();
        if end > cut {
            // inside this token
            let k = cut - t.at;
            let open = last.map_or(0, |l| l.depth);
            match t.kind {
                Tk::Str => return Some((cut, "a string is open at the end".into())),
                Tk::Tpl | Tk::TplHead => return Some((cut, "a template is open at the end".into())),
                Tk::TplMid | Tk::TplTail => return Some((cut, "a template is open at the end".into())),
                Tk::Regex => {
                    let body_end = t.text.rfind('/').unwrap();
                    if k <= body_end {
                        return Some((cut, "a regular expression is open at the end".into()));
                    }
                    if open > 0 {
                        return Some((cut, format!("{} brackets are open at the end", open)));
                    }
                    return None;
                }
                Tk::Plain => {
                    if open > 0 {
                        return Some((cut, format!("{} brackets are open at the end", open)));
                    }
                    return None;
                }
            }
        }
        last = Some(t);
    }
    let l = last?;
    if l.depth > 0 {
        return Some((cut, format!("{} brackets are open at the end", l.depth)));
    }
    if l.cant_end {
        return Some((cut, format!("it ends after {:?}", l.text)));
    }
    None
}

/// Arbitrary damage; nothing is claimed about acceptance.
pub fn damaged(r: &mut Rng, size: usize) -> Src {
    let mut t = program(r, size, Flavor::Any).text;
    let n = 1 + r.geometric(1).min(4);
    let mut how = Vec::new();
    for _ in 0..n {
        if t.is_empty() {
            t.push(';');
        }
        let a = floor(&t, r.below(t.len()));
        let b = floor(&t, (a + 1 + r.geometric(12)).min(t.len()));
        match r.below(12) {
            0 | 1 => {
                t.truncate(a);
                how.push("cut");
            }
            2 => {
                t.replace_range(a..b.max(a), "");
                how.push("lost block");
            }
            3 => {
                let x = t[a..b].to_string();
                t.insert_str(b, &x);
                how.push("block twice");
            }
            4 => {
                let c = floor(&t, b + r.below(t.len() - b + 1));
                let s = format!("{}{}{}{}", &t[..a], &t[b..c.max(b)], &t[a..b], &t[c.max(b)..]);
                t = s;
                how.push("blocks swapped");
            }
            5 | 6 => {
                // a flipped bit, where the text stays text
                let mut v = t.clone().into_bytes();
                let i = r.below(v.len());
                v[i] ^= 1 << r.below(8);
                if let Ok(s) = String::from_utf8(v) {
                    t = s;
                    how.push("bit flip");
                }
            }
            7 => {
                t.insert(a, '\0');
                how.push("NUL");
            }
            8 | 9 => {
                let x = *r.pick(&["(", ")", "[", "]", "{", "}", "`", "'", "\"", "/", "/*", "*/", "//", "\\", "${", "=>", ".", "...", ";", ",", ":", "?", "@", "→", "é", "\n", "日", "😀", "\u{2028}", "new ", "class ", "case ", "import ", "import {", "function ", "in ", "of ", "=", "++", "0x", "1e", "\t"]);
                t.insert_str(a, x);
                how.push("foreign token");
            }
            10 => {
                let x = *r.pick(BROKEN);
                t.insert_str(a, x);
                how.push("foreign fragment");
            }
            _ => {
                let x = *r.pick(&["é", "→", "日", "😀", "\u{1}", "\u{7f}", "\u{feff}", "𝒜"]);
                t.replace_range(a..b, x);
                how.push("overwritten");
            }
        }
    }
    src(t, format!("damaged: {}", how.join(", ")))
}

/// A broken fragment in the middle of a program.
pub fn broken_in(r: &mut Rng, size: usize) -> Src {
    let a = program(r, size / 2, Flavor::Any).text;
    let b = program(r, size / 2, Flavor::Any).text;
    let x = *r.pick(BROKEN);
    let t = match r.below(6) {
        0 => x.to_string(),
        1 => format!("{} {}", x, a),
        2 => format!("{}\n{}", a, x),
        3 => format!("(function () {{ {} }})", x),
        4 => format!("f({})", x),
        _ => format!("{}\n{}\n{}", a, x, b),
    };
    src(t, "broken fragment".into())
}

// ------------------------------------------------------------------ growth

/// (head, repeated part, tail); the repeated part may nest (`%` marks where the inside goes).
pub const REPEAT: &[(&str, &str, &str)] = &[
    ("", "a;", ""), ("", "a\n", ""), ("", ";", ""), ("", " ", "a"), ("", "\n", "a"), ("", "// c\n", "a"), ("", "/* c */", "a"), ("/*", " c", "*/a"), ("/*", "*", "*/a"), ("//", "c", "\na"),
    ("'", "s", "'"), ("'", "\\n", "'"), ("\"", "é", "\""), ("`", "t", "`"), ("`", "${a}", "`"), ("`", "${a}b", "`"), ("`", "$", "`"), ("tag`", "${a}", "`"), ("x", "y", ""), ("é", "é", ""), ("1", "0", ""), ("0.", "1", ""), ("0x", "f", ""), ("0b", "1", ""), ("0o", "7", ""), ("1e", "1", ""), ("/", "r", "/"), ("/", "[a]", "/"), ("/", "\\/", "/"), ("/r/", "g", ""),
    ("a", "+a", ""), ("a", "-a", ""), ("a", "*a", ""), ("a", "/a", ""), ("a", "&&a", ""), ("a", "||a", ""), ("a", "|a", ""), ("a", "<a", ""), ("a", "==a", ""), ("a", " in a", ""), ("a", ",a", ""), ("a", "=a", ""), ("a", "+=a", ""), ("a", "**a", ""), ("a", "+a*a", ""), ("a", ".b", ""), ("a", "[b]", ""), ("a", "()", ""), ("a", "(b)", ""), ("a", "`t`", ""), ("a", ".b(c)", ""), ("a", "?a:a", ""),
    ("", "!", "a"), ("", "-", " a"), ("", "- ", "a"), ("", "typeof ", "a"), ("", "void ", "a"), ("", "new ", "a()"), ("", "~", "a"), ("[", "a,", "]"), ("[", ",", "]"), ("[", "...a,", "b]"), ("[", "[],", "]"), ("f(", "a,", "b)"), ("f(", "...a,", "b)"), ("({", "a,", "})"), ("({", "a:1,", "})"), ("({", "'a':1,", "})"), ("({", "[a]:1,", "})"), ("({", "a(){},", "})"), ("({", "...a,", "b})"), ("({", "1:2,", "})"),
    ("var a", ",a", ""), ("var a", ",a=1", ""), ("let [", "a,", "b]=c"), ("let [", ",", "b]=c"), ("let {", "a,", "b}=c"), ("let {", "a:b,", "b}=c"), ("function f(", "a,", "b){}"), ("function f(", "a=1,", "b){}"), ("function f(", "[a],", "b){}"), ("function f(", "{a},", "b){}"), ("(", "a,", "b)=>c"), ("(", "a=1,", "b)=>c"), ("function f(){", "a;", "}"), ("function f(){", "return;", "}"), ("", "function f(){}", ""), ("", "function f(a){return a}", ""),
    ("", "function*g(){}", ""), ("", "class A{}", ""), ("class A{", "m(){}", "}"), ("class A{", "static m(){}", "}"), ("class A{", "get a(){}", "}"), ("class A{", "[a](){}", "}"), ("class A{", "a=1;", "}"), ("class A{", "1(){}", "}"), ("", "if(a)b;", ""), ("", "if(a)b;else ", "c;"), ("", "if(a){}else{}", ""), ("", "while(a)b;", ""), ("", "while(a)", "b"), ("", "do{}while(a)\n", ""), ("", "for(;;){}", ""), ("", "for(;;)", "a"), ("", "for(var a in b){}", ""), ("", "for(var a of b){}", ""), ("", "for(a in b)c;", ""),
    ("switch(a){", "case 1:", "}"), ("switch(a){", "case 1:b;break;", "}"), ("switch(a){case 1:", "b;", "}"), ("", "switch(a){}", ""), ("", "try{}catch(e){}", ""), ("", "try{}finally{}", ""), ("", "throw a;", ""), ("", "debugger;", ""), ("", "l:", "a"), ("", "l:a;", ""), ("", "{}", ""), ("", "import 'a'\n", ""), ("", "import a from 'b'\n", ""), ("", "import*as a from 'b'\n", ""), ("import {", "a,", "b} from 'c'"), ("import {", "a as b,", "c} from 'd'"),
    ("", "x=>", "y"), ("", "(a)=>", "y"), ("", "()=>", "y"), ("", "this;", ""), ("", "null;", ""), ("", "1;", ""), ("", "'s';", ""), ("", "`t`;", ""), ("", "/r/;", ""), ("", "[];", ""), ("", "({});", ""), ("", "f();", ""), ("", "a.b;", ""), ("", "a[b];", ""), ("", "a=b;", ""), ("", "a+b;", ""), ("", "a?b:c;", ""), ("", "x=>y;", ""), ("", "(function(){});", ""), ("", "(class{});", ""), ("", "var a;", ""), ("", "let a=1;", ""), ("", "const {a}=b;", ""), ("", "a++;", ""), ("", "--a;", ""), ("", "new a();", ""), ("", "é;", ""), ("", "{let a;}", ""), ("", "{let a;a;}", ""), ("", "(()=>{this;});", ""), ("", "x=>this;", ""), ("", "a**b;", ""), ("", "a**=b;", ""), ("", "var a1;", ""),
    // not programs
    ("", "@", ""), ("", ")", ""), ("", "}", ""), ("", "]", ""), ("", "a b ", ""), ("", "\\", ""), ("", "→", ""), ("", "#\n", ""), ("", "case ", ""), ("", "else ", ""), ("", "=> ", ""), ("", "= ", ""), ("", ". ", ""), ("", ", ", ""), ("", "var ", ""), ("", "import ", ""), ("", "import {a ", ""), ("import {", "a ", ""), ("", "class ", ""), ("", "1.", ""), ("", "a.1", ""), ("", "'a' 'b' ", ""), ("", "return ", ""), ("", "throw ", ""), ("", "1++ ", ""), ("", "new.x ", ""), ("f(", "a b ", ")"), ("[", "a b ", "]"), ("({", "a b ", "})"), ("class A{", "a b ", "}"), ("class A{", ", ", "}"), ("switch(a){", "b ", "}"), ("switch(a){", "case ", "}"), ("function f(", "1 ", "){}"), ("", "\u{0}", ""), ("a", "\u{0}", "b"),
    // unclosed
    ("'", "a", ""), ("`", "a", ""), ("/*", "a", ""), ("/", "a", ""), ("`${", "a+", ""),
];

/// Nested constructs; `%` is the inside.
pub const NEST: &[&str] = &[
    "(%)", "[%]", "{%}", "({a:%})", "f(%)", "a[%]", "`${%}`", "function f(){%}", "(function(){%})", "(()=>{%})", "x=>(%)", "if(a){%}", "if(a)%", "if(a){}else{%}", "while(a){%}", "do{%}while(a)", "for(;;){%}", "for(a in b){%}", "switch(a){case 1:%}", "try{%}finally{}", "try{}catch(e){%}", "try{}catch(e){}finally{%}", "class A{m(){%}}", "(class extends (%){})", "l:{%}", "[...%]", "(a,%)", "(a?%:b)", "(a?b:%)", "(a+%)", "-(%)", "({a(){%}})", "({[%]:1})", "({...%})", "t`${%}`", "new A(%)", "var a=function(){%}", "{let a;%}", "(x=(%))=>y", "function f(a=(%)){}", "let [a=(%)]=b", "return (%)",
    // and unclosed
    "(%", "[%", "{%", "f(%", "`${%", "function f(){%", "(()=>{%", "class A{m(){%", "switch(a){case 1:%", "({a:%",
];

pub fn repeated(i: usize, n: usize) -> Src {
    let (h, u, t) = REPEAT[i % REPEAT.len()];
    src(format!("{}{}{}", h, u.repeat(n), t), format!("{:?} + {} times {:?} + {:?}", h, n, u, t))
}

/// Several constructs inside one another, over and over.
pub fn nested_in(which: &[usize], n: usize) -> Src {
    let p: Vec<(&str, &str)> = which.iter().map(|i| NEST[i % NEST.len()].split_once('%').unwrap()).collect();
    let open: String = p.iter().map(|x| x.0).collect();
    let close: String = p.iter().rev().map(|x| x.1).collect();
    src(format!("{}a{}", open.repeat(n), close.repeat(n)), format!("{} levels of {:?}", n, p))
}

pub fn nested(i: usize, n: usize) -> Src {
    let p = NEST[i % NEST.len()];
    let (a, b) = p.split_once('%').unwrap();
    // statements and expressions both take an identifier inside
    src(format!("{}a{}", a.repeat(n), b.repeat(n)), format!("{} levels of {:?}", n, p))
}

// ------------------------------------------------------------------ sources that differ a little

/// The same length, almost the same text.
pub fn sibling(r: &mut Rng, s: &Src) -> Src {
    let mut b = s.text.clone().into_bytes();
    let n = r.range(1, 4);
    for _ in 0..n {
        if b.len() < 2 {
            break;
        }
        let at = r.below(b.len());
        match r.below(6) {
            // a line break and a blank change places
            0 | 1 => {
                let nl: Vec<usize> = (0..b.len()).filter(|&i| b[i] == b'\n').collect();
                let sp: Vec<usize> = (0..b.len()).filter(|&i| b[i] == b' ').collect();
                if !sp.is_empty() {
                    let j = *r.pick(&sp);
                    b[j] = b'\n';
                    if !nl.is_empty() {
                        let i = *r.pick(&nl);
                        b[i] = b' ';
                    }
                } else if !nl.is_empty() {
                    let i = *r.pick(&nl);
                    b[i] = b' ';
                }
            }
            2 | 3 => {
                if let Some(i) = (at..b.len()).chain(0..at).find(|&i| b[i].is_ascii_alphanumeric()) {
                    b[i] = if b[i].is_ascii_digit() { b'0' + r.below(10) as u8 } else { b'a' + r.below(26) as u8 };
                }
            }
            4 => {
                if at + 1 < b.len() && b[at] < 128 && b[at + 1] < 128 {
                    b.swap(at, at + 1);
                }
            }
            _ => {
                if b[at] < 128 {
                    b[at] = *r.pick(b"ab01 \n;,()[]{}'\"`/*+-=<>.:?!\\$@");
                }
            }
        }
    }
    match String::from_utf8(b) {
        Ok(t) => src(t, "sibling".into()),
        Err(_) => src(s.text.clone(), "sibling".into()),
    }
}

/// Shares its beginning or its end with another source.
pub fn cousin(r: &mut Rng, s: &Src) -> Src {
    let t = &s.text;
    let k = floor(t, r.below(t.len() + 1));
    let text = match r.below(5) {
        0 => t[..k].to_string(),
        1 => t[k..].to_string(),
        2 => format!("{}\n{}", t, t),
        3 => format!("{}{}", t, *r.pick(&[";", " ", "\n", "a", "\nb()", "@", "\n@\n", "`"])),
        _ => format!("{}{}", *r.pick(&[";", " ", "\n", "a;", "b()\n", "@", "\n@\n", "/**/"]), t),
    };
    src(text, "cousin".into())
}

// ------------------------------------------------------------------ tokens spelled otherwise, things twice

#[derive(Clone, Copy, PartialEq, Debug)]
enum Piece {
    Word,
    Num,
    Str,
    /// between a backtick and the next backtick or `${`
    Tpl,
    Op,
}

/// A rough division into tokens; blanks and comments are left out.
fn pieces(t: &str) -> Vec<(usize, usize, Piece)> {
    let b = t.as_bytes();
    let word = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'$' || c >= 128;
    let mut v = Vec::new();
    let mut i = 0;
    while i < b.len() {
        let s = i;
        let c = b[i];
        if c.is_ascii_whitespace() {
            i += 1;
            continue;
        }
        if t[i..].starts_with("//") {
            while i < b.len() && b[i] != b'\n' {
                i += 1;
            }
            continue;
        }
        if c == b'/' && i + 1 < b.len() && b[i + 1] == b'*' {
            i = t[i + 2..].find("*/").map_or(b.len(), |k| i + 2 + k + 2);
            continue;
        }
        let kind = if c == b'\'' || c == b'"' {
            i += 1;
            while i < b.len() && b[i] != c {
                i += if b[i] == b'\\' { 2 } else { 1 };
            }
            i += 1;
            Piece::Str
        } else if c == b'`' {
            i += 1;
            while i < b.len() && b[i] != b'`' && !(b[i] == b'$' && i + 1 < b.len() && b[i + 1] == b'{') {
                i += if b[i] == b'\\' { 2 } else { 1 };
            }
            Piece::Tpl
        } else if c.is_ascii_digit() {
            while i < b.len() && (word(b[i]) || b[i] == b'.') {
                i += 1;
            }
            Piece::Num
        } else if word(c) {
            while i < b.len() && word(b[i]) {
                i += 1;
            }
            Piece::Word
        } else {
            i += 1;
            Piece::Op
        };
        if i > b.len() || !t.is_char_boundary(i) {
            break;
        }
        v.push((s, i, kind));
    }
    v
}

/// Numbers around the limits of machine types, and far beyond.
pub fn long_number(r: &mut Rng) -> String {
    let (prefix, base, digits) = *r.pick(&[("0b", 2, "01"), ("0B", 2, "01"), ("0o", 8, "01234567"), ("0O", 8, "01234567"), ("0x", 16, "0123456789abcdefABCDEF"), ("0X", 16, "0123456789abcdefABCDEF"), ("", 10, "0123456789"), (".", 10, "0123456789"), ("1.", 10, "0123456789"), ("1e", 10, "0123456789"), ("1E-", 10, "0123456789")]);
    if r.chance(50) && !prefix.contains(['.', '1']) {
        // a power of two, or next to it
        let n = 1u128 << r.range(5, 68);
        let n = n - 1 + r.below(3) as u128;
        return match base {
            2 => format!("{}{:b}", prefix, n),
            8 => format!("{}{:o}", prefix, n),
            16 => format!("{}{:x}", prefix, n),
            _ => format!("{}", n),
        };
    }
    let n = *r.pick(&[7usize, 15, 16, 17, 20, 22, 31, 32, 33, 40, 63, 64, 65, 66, 70, 100, 127, 128, 129, 160, 256, 310]);
    let d = digits.as_bytes();
    let mut s = prefix.to_string();
    for i in 0..n {
        // no octal-looking decimal
        let c = d[r.below(d.len())];
        s.push(if i == 0 && prefix.is_empty() && c == b'0' { '1' } else { c as char });
    }
    s
}

const RESERVED: &[&str] = &[
    "var", "let", "const", "function", "class", "extends", "static", "get", "set", "new", "this", "super", "null", "true", "false", "undefined", "if", "else", "for", "while", "do", "switch", "case", "default", "break", "continue",
    "return", "throw", "try", "catch", "finally", "import", "from", "as", "of", "in", "instanceof", "typeof", "void", "delete", "debugger", "yield", "with", "enum", "export", "constructor", "target",
];
/// Names that mean something somewhere, or almost.
const WORDS: &[&str] = &[
    "of", "as", "from", "get", "set", "async", "await", "static", "let", "constructor", "target", "arguments", "eval", "use", "a", "e", "f", "i", "n", "t", "v", "$", "_", "$$", "é", "日", "𝒜", "eé", "ifé", "ink", "inn", "dot", "nulls", "newé", "thi", "thisé",
    "superb", "yields", "prototype", "__proto__", "length", "name", "undefinedé", "Infinity", "NaN", "implements", "package", "interface", "private", "public", "protected", "voids", "deletes", "instanceo", "type", "abc0123456789abcdef",
];
const STRINGS: &[&str] = &[
    "''", "\"\"", "' '", "'a'", "\"b\"", "'\\''", "'\\\\'", "'\\n'", "'\\\\\\''", "\"'\"", "'\"'", "'é'", "'日本語'", "'😀'", "'\\u{1F600}'", "'\\x41'", "'use strict'", "'constructor'", "'__proto__'", "'a b'", "'1'", "'//'", "'/*'", "'${a}'", "'`'", "'\\\n'", "'<\\/script>'",
    "'\u{2028}'", "'\t'", "'0123456789abcdef0123456789abcdef'",
];
const NUMBERS: &[&str] = &[
    "0", "1", "00", "0.0", "0.", "1.", ".1", "1e1", "1E+9", "1e-9", "1.e1", "0xFF", "0XaB", "0b0", "0B11", "0o0", "0O17", "9007199254740993", "1e400", "0.1e-400", "123456789012345678901234567890", "0b1111111111111111111111111111111111111111111111111111111111111111",
    "0xffffffffffffffffff", "5e0",
];

/// Some of the tokens replaced by others of their kind.
pub fn respell(r: &mut Rng, s: &Src) -> Src {
    let p = pieces(&s.text);
    let mut c: Vec<usize> = (0..p.len()).filter(|&i| p[i].2 != Piece::Op && !(p[i].2 == Piece::Word && RESERVED.contains(&&s.text[p[i].0..p[i].1]))).collect();
    // words outnumber the rest
    if r.chance(50) {
        let rest: Vec<usize> = c.iter().copied().filter(|&i| p[i].2 != Piece::Word).collect();
        if !rest.is_empty() {
            c = rest;
        }
    }
    r.shuffle(&mut c);
    c.truncate(r.range(1, 5));
    c.sort();
    let mut t = String::new();
    let mut at = 0;
    for i in c {
        t.push_str(&s.text[at..p[i].0]);
        at = p[i].1;
        match p[i].2 {
            Piece::Word if r.chance(8) => t.push_str(r.pick(RESERVED)),
            Piece::Word => t.push_str(r.pick(WORDS)),
            Piece::Num if r.chance(25) => t.push_str(&long_number(r)),
            Piece::Num => t.push_str(r.pick(NUMBERS)),
            Piece::Str => t.push_str(r.pick(STRINGS)),
            _ => {
                t.push('`');
                t.push_str(r.pick(&["", "", "a", "\\`", "\\${", "$", "$$", "{", "}", "é", "😀", "\n", "\\\\", "'", "//", "/*"]));
            }
        }
    }
    t.push_str(&s.text[at..]);
    src(t, format!("{}, respelled", s.origin))
}

/// A statement, or an item of a list, twice or more times in a row, or the same thing at another
/// place.
pub fn doubled(r: &mut Rng, s: &Src) -> Src {
    let t = &s.text;
    let p = pieces(t);
    // what lies between two separators of the same level
    let mut stack: Vec<usize> = vec![0];
    let mut items: Vec<(usize, usize)> = Vec::new();
    for x in &p {
        if x.2 != Piece::Op {
            continue;
        }
        match t.as_bytes()[x.0] {
            b'(' | b'[' | b'{' => stack.push(x.1),
            b')' | b']' | b'}' => {
                if stack.len() > 1 {
                    stack.pop();
                }
                // a statement may end with a brace
                if t.as_bytes()[x.0] == b'}' && r.chance(50) {
                    let k = stack.len() - 1;
                    items.push((stack[k], x.1));
                    stack[k] = x.1;
                }
            }
            b',' | b';' => {
                let k = stack.len() - 1;
                items.push((stack[k], x.1));
                stack[k] = x.1;
            }
            _ => {}
        }
    }
    items.retain(|x| x.0 < x.1 && x.1 - x.0 < 400);
    if items.is_empty() {
        let sep = *r.pick(&[";", "\n", ";\n"]);
        return src(format!("{}{}{}", t, sep, t), format!("{}, doubled", s.origin));
    }
    let (a, b) = *r.pick(&items);
    let n = *r.pick(&[1, 1, 1, 2, 3, 7]);
    let to = if r.chance(70) { b } else { r.pick(&items).1 };
    src(format!("{}{}{}", &t[..to], t[a..b].repeat(n), &t[to..]), format!("{}, doubled", s.origin))
}

// ------------------------------------------------------------------ composed programs

/// `§` a statement, `¤` an expression, `¶` a pattern, `…` any number of statements.
const STMTS: &[&str] = &[
    "", ";", "a;", "¤;", "¤;", "{…}", "{}", "{§}", "var ¶=¤;", "let ¶=¤;", "const ¶=¤;", "var a;", "let a,b;", "var a=¤,b=¤;", "if(¤)§", "if(¤)§ else §", "if(¤){…}else{…}", "if(¤){…}else if(¤){…}", "if(¤){…}else{if(¤)§}",
    "if(¤){…}else{§}", "if(¤){}else{}", "if(¤);else;", "while(¤)§", "while(¤){…}", "while(¤);", "do{…}while(¤);", "do{}while(a)\n", "for(;;)§", "for(;;){…}", "for(;;);", "for(¤;¤;¤){…}", "for(var a=¤,b=¤;¤;¤){…}", "for(let a=¤;;)§", "for(let a in ¤){…}", "for(const a of ¤){…}", "for(a in ¤)§", "for(a of ¤)§", "for(var a in b);",
    "switch(¤){}", "switch(¤){case ¤:…}", "switch(¤){case ¤:case ¤:…default:…}", "switch(¤){default:}", "switch(¤){case ¤:{…}break;default:§}", "try{…}catch(e){…}", "try{…}finally{…}", "try{…}catch(e){…}finally{…}", "try{}catch(e){}", "throw ¤;", "l:§", "l:for(;;){break l;}", "l:for(;;){continue l;}", "debugger;",
    "function f(){…}", "function f(¶){…}", "function f(¶,¶=¤){…}", "function f(...a){…}", "function*f(){…}", "function f(){return}", "function f(){return ¤}", "class A{}", "class A extends ¤{}", "class A{m(){…}}", "class A{constructor(¶){…}}", "class A{static m(){…}}", "class A{get a(){…}set a(b){…}}", "class A{[¤](){…}}", "class A{a=¤;}", "class A{1(){…};b(){}}", "class A extends B{constructor(){this.a=¤;}}",
    "'s';", "'use strict';", "import ''\n", "import{}from 'c'\n", "import a,{b}from 'c'\n", "import a,*as b from 'c'\n", "import{a,b as c,d}from 'e';",
    "import a from 'b'\n", "import{a as b}from 'c'\n", "import*as a from 'b'\n", "import 'a'\n",
];
const EXPRS: &[&str] = &[
    "a", "a", "b", "1", "'s'", "this", "null", "true", "undefined", "/r/g", "``", "`t`", "é", "0b1", "0o7", "0xf", ".5", "1e3",
    "(¤)", "(¤,¤)", "[]", "[¤]", "[¤,¤]", "[,¤]", "[¤,,¤]", "[...¤]", "({})", "({a})", "({a:¤})", "({a:¤,b})", "({[¤]:¤})", "({'a':¤})", "({1:¤})", "({0b1:¤})", "({a(){…}})", "({...¤})", "({[¤](¶){…}})", "({a,})", "`${¤}`", "`a${¤}b${¤}c`", "a`${¤}`",
    "(function(){…})", "(function f(){…})", "(function(¶){…})", "(function(){return this})", "(function*(){…})", "(class{})", "(class A{m(){…}})", "(class extends ¤{})", "(()=>{…})", "(()=>¤)", "(a=>¤)", "(a=>{…})", "((a,b=¤)=>¤)", "(a=>({b:¤}))", "(()=>this)", "(()=>()=>¤)", "(a=>b=>{…})", "(()=>arguments)", "((a=¤)=>{…})",
    "a.b", "a[¤]", "a()", "a(¤)", "a(...¤)", "a(¤,¤)", "a.b(¤)", "a[¤](¤)", "a.b.c", "new A", "new A()", "new A(¤)", "new a.B(¤)", "new(¤)", "new(a())", "a.if", "(¤).b", "(¤)(¤)", "(¤)[¤]",
    "¤+¤", "¤-¤", "¤*¤", "(¤)*(¤)", "¤/¤", "¤%¤", "a**¤", "(¤)**b", "¤&&¤", "¤||¤", "¤===¤", "¤!=¤", "¤<¤", "¤>>>¤", "¤&¤", "¤|¤", "¤^¤", "¤ in b", "¤ instanceof ¤", "a-(¤)", "a-(b-¤)", "(a,¤)",
    "!¤", "-¤", "+ ¤", "- -a", "+ +a", "~¤", "typeof ¤", "void ¤", "delete a[¤]", "!(¤)", "-(¤)", "++a", "a--", "a.b++", "a=¤", "a+=¤", "a.b=¤", "a[¤]=¤", "a**=¤", "a=b=¤", "a>>>=¤", "a?¤:¤", "(¤)?¤:¤", "¤?a:b", "(a?¤:¤)",
];
const PATS: &[&str] = &["a", "a", "b", "{a}", "{a,b}", "{a:b}", "{}", "[]", "[a]", "[a,b]", "[,a]", "[a=¤]", "[[a]]", "[a,...b]", "[{a}]", "{a:b,c}", "é"];

fn expand(r: &mut Rng, t: &str, depth: u32, out: &mut String) {
    for c in t.chars() {
        match c {
            '§' => {
                let s = if depth == 0 { *r.pick(&[";", "a;", "{}", "{a}", "a()\n"]) } else { *r.pick(STMTS) };
                // an empty text is no statement
                expand(r, if s.is_empty() { ";" } else { s }, depth.saturating_sub(1), out)
            }
            '…' => {
                let n = if depth == 0 { r.below(2) } else { *r.pick(&[0, 1, 1, 1, 2, 2, 3]) };
                for _ in 0..n {
                    let s = if depth == 0 { *r.pick(&[";", "a;", "return;", "b()\n"]) } else { *r.pick(STMTS) };
                    let from = out.len();
                    expand(r, s, depth.saturating_sub(1), out);
                    if r.chance(6) {
                        out.extend_from_within(from..);
                    }
                }
            }
            '¤' => {
                let s = if depth == 0 { *r.pick(&["a", "b", "1", "'s'", "this", "a.b", "f()"]) } else { *r.pick(EXPRS) };
                expand(r, s, depth.saturating_sub(1), out)
            }
            '¶' => {
                let s = if depth == 0 { "a" } else { *r.pick(PATS) };
                expand(r, s, depth.saturating_sub(1), out)
            }
            c => out.push(c),
        }
        if out.len() > 4000 {
            return;
        }
    }
}

/// A few statements, each a short chain of constructs with as little as possible around them.
pub fn composed(r: &mut Rng) -> Src {
    let mut t = String::new();
    for _ in 0..r.range(1, 4) {
        let depth = *r.pick(&[1, 1, 2, 2, 2, 3, 3, 4]);
        let s = *r.pick(STMTS);
        expand(r, s, depth, &mut t);
        if r.chance(20) {
            t.push('\n');
        }
    }
    src(t, "composed".into())
}

// ------------------------------------------------------------------ sizes around powers of two

pub fn around_power(r: &mut Rng, max: u32) -> usize {
    let k = r.range(1, max as usize);
    let n = (1usize << k) as i64 + *r.pick(&[-2i64, -1, 0, 1, 2]);
    n.max(0) as usize
}

/// A construct as long as a power of two, or nearly so.
pub fn boundary(r: &mut Rng, max: u32) -> Src {
    let mut s = if r.chance(20) {
        let n = around_power(r, max.min(8));
        nested(r.below(NEST.len()), n)
    } else {
        let n = around_power(r, max);
        repeated(r.below(REPEAT.len()), n)
    };
    match r.below(4) {
        0 => s.text = format!("{}\n;b(1)", s.text),
        1 => s.text = format!("b('x');\n{}", s.text),
        2 => {
            // the whole text has that length
            let n = around_power(r, max.max(4));
            let pad = n.saturating_sub(s.text.len());
            if r.chance(50) {
                s.text.push_str(&" ".repeat(pad));
            } else {
                s.text.insert_str(0, &" ".repeat(pad));
            }
        }
        _ => {}
    }
    s
}

/// A composed program in which every one-letter name, string and template text is unique, and the
/// number of whose statements is known.
pub fn composed_marked(r: &mut Rng) -> Src {
    let mut t = String::new();
    let mut count = 0;
    for _ in 0..r.range(1, 4) {
        let depth = *r.pick(&[1, 1, 2, 2, 2, 3, 3, 4]);
        let s = *r.pick(STMTS);
        if !s.is_empty() {
            count += 1;
        }
        expand(r, s, depth, &mut t);
    }
    let mut out = String::new();
    let mut marks = Vec::new();
    // a line break ends no statement before a bracket
    let t = t.replace("()\n", "();");
    // `a//r/g` is a comment
    let certain = t.len() < 4000 && !t.contains("//");
    let plain = certain && !t.contains("/r/g") && !t.contains("l:");
    let c: Vec<char> = t.chars().collect();
    let word = |x: char| x.is_alphanumeric() || x == '_' || x == '$';
    let mut i = 0;
    while i < c.len() {
        let mut j = i;
        while j < c.len() && word(c[j]) {
            j += 1;
        }
        if j == i {
            out.push(c[i]);
            i += 1;
            continue;
        }
        // `${` is no name; `$` ends up here only before a brace
        if plain && j == i + 1 && c[i].is_ascii_alphabetic() {
            let m = format!("mk{}q", marks.len());
            out.push_str(&m);
            marks.push(m);
        } else {
            out.extend(&c[i..j]);
        }
        i = j;
    }
    let mut s = src(out, "composed, names unique".into());
    s.marks = marks;
    s.count = if certain { Some(count) } else { None };
    s
}

/// A composed program cut where something is open, or without one of its closing brackets.
pub fn composed_broken(r: &mut Rng) -> Option<Src> {
    let s = composed(r);
    if s.text.len() >= 4000 || s.text.contains("//") {
        return None;
    }
    let b = s.text.as_bytes();
    let mut stack: Vec<u8> = Vec::new();
    let mut open: Vec<(usize, String)> = Vec::new();
    let mut closers = Vec::new();
    for (i, &c) in b.iter().enumerate() {
        if i > 0 && s.text.is_char_boundary(i) {
            if let Some(&t) = stack.last() {
                open.push((i, match t {
                    b'\'' => "a string is open at the end".into(),
                    b'`' => "a template is open at the end".into(),
                    _ => format!("{} brackets are open at the end", stack.len()),
                }));
            }
        }
        match (stack.last().copied(), c) {
            (Some(b'\''), b'\'') => {
                stack.pop();
            }
            (Some(b'\''), _) => {}
            (Some(b'`'), b'`') => {
                stack.pop();
            }
            (Some(b'`'), b'{') if b[i - 1] == b'$' => stack.push(b'$'),
            (Some(b'`'), _) => {}
            (_, b'\'' | b'`' | b'(' | b'[' | b'{') => stack.push(c),
            (_, b')' | b']' | b'}') => {
                if stack.pop().is_none() {
                    return None;
                }
                if c != b'}' || !stack.contains(&b'`') {
                    closers.push(i);
                }
            }
            _ => {}
        }
    }
    if !stack.is_empty() {
        return None;
    }
    let (text, why) = if r.chance(30) && !closers.is_empty() && !s.text.contains('/') {
        let k = *r.pick(&closers);
        (format!("{} {}", &s.text[..k], &s.text[k + 1..]), format!("the closing bracket at byte {} was removed", k))
    } else if open.is_empty() {
        return None;
    } else {
        let (k, why) = r.pick(&open).clone();
        let tail = if why.contains("bracket") { *r.pick(&["", "", " ", "\n", "/* end */", " // end"]) } else { "" };
        // a slash would make a comment of what follows
        let tail = if s.text[..k].ends_with('/') { "" } else { tail };
        (format!("{}{}", &s.text[..k], tail), why)
    };
    let mut o = src(text, "composed, broken".into());
    o.must_fail = Some(why);
    Some(o)
}

// ------------------------------------------------------------------ distinct names, long tokens, long lists, many lines

/// Every name, number and string of the text made different from those of the other texts.
fn numbered(t: &str, i: usize) -> String {
    let mut out = String::new();
    let mut at = 0;
    for (a, b, kind) in pieces(t) {
        out.push_str(&t[at..a]);
        let x = &t[a..b];
        at = b;
        match kind {
            Piece::Word if !RESERVED.contains(&x) => {
                out.push_str(x);
                out.push_str(&format!("{:06}", i));
            }
            Piece::Num if x.bytes().all(|c| c.is_ascii_digit()) => out.push_str(&format!("1{}{:06}", x, i)),
            Piece::Str if b - a >= 3 && x.is_ascii() && t.as_bytes()[b - 1] == t.as_bytes()[a] => {
                out.push_str(&x[..1]);
                out.push_str(&format!("{:06}", i));
                out.push_str(&x[1..]);
            }
            _ => out.push_str(x),
        }
    }
    out.push_str(&t[at..]);
    out
}

/// Like `repeated`, but no name occurs in two repetitions.
pub fn repeated_distinct(i: usize, n: usize) -> Src {
    let (h, u, t) = REPEAT[i % REPEAT.len()];
    let mid: String = (0..n).map(|k| numbered(u, k)).collect();
    src(format!("{}{}{}", h, mid, t), format!("{:?} + {} times {:?}, names distinct, + {:?}", h, n, u, t))
}

/// Like `nested`, but no name occurs at two levels.
pub fn nested_distinct(i: usize, n: usize) -> Src {
    let p = NEST[i % NEST.len()];
    let (a, b) = p.split_once('%').unwrap();
    let mut t = String::new();
    for k in 0..n {
        t.push_str(&numbered(a, k));
    }
    t.push('a');
    for k in (0..n).rev() {
        t.push_str(&numbered(b, k));
    }
    src(t, format!("{} levels of {:?}, names distinct", n, p))
}

/// The text over and over, no name twice.
pub fn distinct(t: &str, n: usize) -> String {
    (0..n).map(|k| numbered(t, k)).collect()
}

/// A length at which something might change.
pub fn odd_length(r: &mut Rng, max: usize) -> usize {
    let n = match r.below(4) {
        0 => *r.pick(&[10usize, 80, 99, 100, 120, 999, 1000, 9999, 10_000]),
        1 => r.range(17, 300),
        _ => 1usize << r.range(4, 17),
    };
    ((n + r.below(5)).max(2) - 2).min(max).max(1)
}

/// One of the tokens made very long, or something long put between two of them.
pub fn stretched(r: &mut Rng, s: &Src, max: usize) -> Src {
    let t = &s.text;
    let p = pieces(t);
    let n = odd_length(r, max);
    let c: Vec<usize> = (0..p.len()).filter(|&i| p[i].2 != Piece::Op && !RESERVED.contains(&&t[p[i].0..p[i].1])).collect();
    let mut o = src(String::new(), format!("{}, {} bytes longer in one place", s.origin, n));
    if r.chance(60) && !c.is_empty() {
        let (a, b, kind) = p[*r.pick(&c)];
        let x = &t[a..b];
        let long = match kind {
            Piece::Word => match r.below(5) {
                0 => format!("{}{}", x, "é".repeat(n / 2 + 1)),
                1 => format!("'{}'", "s".repeat(n)),
                2 => format!("`{}`", "t".repeat(n)),
                _ => format!("{}{}", x, r.pick(&["x", "_", "$", "0", "e"]).repeat(n)),
            },
            Piece::Num => format!("{}{}", x, r.pick(&["0", "1", "7"]).repeat(n)),
            Piece::Str => {
                let fill = match r.below(6) {
                    0 => "\\n".repeat(n / 2 + 1),
                    1 => "日".repeat(n / 3 + 1),
                    2 => "\n".repeat(n),
                    3 => " ".repeat(n),
                    _ => "s".repeat(n),
                };
                format!("{}{}{}", &x[..1], fill, &x[1..])
            }
            _ => format!("{}{}", r.pick(&["t", "$", "{", "\n", " "]).repeat(n), x),
        };
        // a template's text follows its backtick
        o.text = if kind == Piece::Tpl && x.starts_with('`') { format!("{}`{}{}", &t[..a], long.replacen('`', "", 1), &t[b..]) } else { format!("{}{}{}", &t[..a], long, &t[b..]) };
    } else {
        let at = if p.is_empty() { 0 } else { r.pick(&p).0 };
        // of so many bytes, or nearly
        let fill = *r.pick(&["s", "é", "é", "日", "𝒜"]);
        let fill = fill.repeat(n / fill.len() + 1);
        let long = match r.below(12) {
            0 => format!("/*{}*/", r.pick(&["c", "*", "\n", "/"]).repeat(n)),
            1 => format!("//{}\n", fill),
            2 => "\n".repeat(n),
            3 => " ".repeat(n),
            4 => "\r\n".repeat(n / 2 + 1),
            // most likely where none may stand
            5 | 6 => format!(" '{}' ", fill),
            7 => format!(" {} ", fill),
            8 => format!("`{}`", fill),
            9 => format!("${{`{}`}}", fill),
            10 => format!("/{}/g", fill),
            _ => format!("'{}", fill),
        };
        o.text = format!("{}{}{}", &t[..at], long, &t[at..]);
    }
    o
}

/// The same further down or further to the right.
pub fn far_down(r: &mut Rng, s: &Src) -> Src {
    let n = *r.pick(&[8usize, 9, 10, 97, 98, 99, 100, 101, 254, 255, 256, 995, 997, 998, 999, 1000, 1001, 4095, 4096, 9_997, 9_999, 10_000, 32_767, 65_534, 65_536, 99_999, 100_000]);
    let n = n + r.below(3);
    let (line, what) = *r.pick(&[("\n", "lines"), ("\n", "lines"), ("\n", "lines"), (";\n", "lines"), (" ", "blanks"), ("\t", "tabs"), ("\r\n", "lines"), ("//\n", "lines")]);
    let mut o = src(format!("{}{}", line.repeat(n), s.text), format!("{}, {} {} ahead", s.origin, n, what));
    // what was broken remains so
    o.must_fail = s.must_fail.clone();
    o
}

/// (head, item, between, tail): `@` is a name that is used once. One statement each.
const LISTS: &[(&str, &str, &str, &str)] = &[
    ("f(", "@", ",", ");"), ("f(", "@(@)", ",", ");"), ("new F(", "@", ",", ");"), ("[", "@", ",", "];"), ("[", "[@]", ",", "];"), ("({", "@:@", ",", "});"), ("({", "@", ",", "});"), ("({", "@(@){@}", ",", "});"), ("(function(", "@", ",", "){});"), ("function f(", "@=@", ",", "){}"), ("((", "@", ",", ")=>a);"), ("(", "@", ",", ");"), ("", "@", ",", ";"),
    ("var ", "@", ",", ";"), ("let ", "@=@", ",", ";"), ("const [", "@", ",", "]=b;"), ("const {", "@", ",", "}=b;"), ("{", "@;", "", "}"), ("{", "@\n", "", "}"), ("function f(){", "@;", "", "}"), ("function f(){", "return @;", "", "}"), ("(()=>{", "@()", ";", "});"), ("switch(a){", "case @:@;", "", "}"), ("switch(a){default:", "@;", "", "}"),
    ("class A{", "@(){@}", "", "}"), ("class A{", "static @(){}", "", "}"), ("class A{", "@=@;", "", "}"), ("class A{", "get @(){@}", "", "}"), ("a", "+@", "", ";"), ("a", ".@", "", ";"), ("a", "[@]", "", ";"), ("a", "(@)", "", ";"), ("`", "${@}", "", "`;"), ("`", "${@}@", "", "`;"), ("import{", "@", ",", "}from 'a';"), ("import{", "@ as @", ",", "}from 'a';"), ("a", "&&@", "", ";"), ("a", ",@", "", ";"),
    ("for(", "@", ",", ";;);"), ("for(var ", "@", ",", " of b);"), ("if(a){", "@()\n", "", "}"), ("try{", "@;", "", "}catch(e){}"), ("'", "@", "", "';"), ("a='", "\\n@", "", "';"),
];

/// A list of that many items, all different: they must all be in the module. `None` for statements
/// side by side.
pub fn long_list(r: &mut Rng, n: usize) -> Src {
    let mut marks = Vec::new();
    let mut t = String::new();
    let mut put = |t: &mut String, x: &str| {
        for c in x.chars() {
            if c == '@' {
                let m = format!("mk{}q", marks.len());
                t.push_str(&m);
                marks.push(m);
            } else {
                t.push(c);
            }
        }
    };
    let (count, origin);
    if r.chance(25) {
        let unit = *r.pick(&["@;", "@\n", "var @;", "@(@);", "function @(){}", "class @{}", "@:;", "{@}", "if(@);", "import @ from 'a';"]);
        for _ in 0..n {
            put(&mut t, unit);
        }
        count = n;
        origin = format!("{} times {:?}", n, unit);
    } else {
        // statements before and after
        let (before, after) = (r.below(3), r.below(3));
        let (head, item, between, tail) = *r.pick(LISTS);
        for _ in 0..before {
            put(&mut t, "@;");
        }
        t.push_str(head);
        for k in 0..n {
            if k > 0 {
                t.push_str(between);
            }
            // strings of one token
            put(&mut t, item);
        }
        t.push_str(tail);
        for _ in 0..after {
            put(&mut t, "@;");
        }
        count = before + 1 + after;
        origin = format!("{:?} + {} times {:?}", head, n, item);
    }
    let mut s = src(t, origin);
    s.count = Some(count as u32);
    s.marks = marks;
    s
}

/// What is open at the end goes on for a while.
pub fn lengthen(r: &mut Rng, s: &mut Src) {
    let Some(why) = s.must_fail.clone() else { return };
    let fill: &[&str] = if why.contains("string is open") || why.contains("expression is open") {
        &["x", "x", "é", "日", "1 "]
    } else if why.contains("comment is open") || why.contains("template is open") {
        &["x", "x", "é", "日", "\n", "\r\n", "; "]
    } else {
        &[" ", "\n", "\t"]
    };
    let fill = *r.pick(fill);
    let n = odd_length(r, 140_000);
    s.text.push_str(&fill.repeat(n / fill.len() + 1));
    s.must_fail = Some(format!("{}, {} bytes ago", why, n));
}
