//! Random texts: derivations of the grammar, mutated token lists, character soup.
use crate::rng::Rng;

const SOUP: [&str; 64] = [
    "i32", "undef", "zeroinit", "global", "alloc", "load", "store", "getptr", "getelemptr", "br", "jump", "call", "ret", "fun", "decl", "ne", "eq", "gt", "lt", "ge", "le", "add", "sub", "mul", "div", "mod", "and", "or", "xor", "shl", "shr", "sar", "@a", "@_", "%x_1", "%0", "%12", "%01", "@1", "@", "%", "-", "-1", "0", "00", "2147483647", "2147483648", "-2147483648", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "(", ")", "{", "}", "[", "]", ",", ":", "=", "*", "i33", "i32x", "_a",
];
const SEP: [&str; 16] = [" ", " ", " ", "\n", "\n", "\t", "\r", "\r\n", "//c\n", "//! x y\n", "/**/", "/* a\n b */", "/***/", "/*/ */", "", "\u{b}"];

pub fn soup(r: &mut Rng) -> Vec<u8> {
    let mut o = vec![];
    let n = r.below(25);
    for _ in 0..n {
        match r.below(24) {
            0 => o.push(r.next() as u8),
            1 => o.extend("é²٣".as_bytes()),
            2 => o.extend(b"/"),
            3 => o.extend(b"/*"),
            4 => o.extend(b"//"),
            5 => o.extend(b"*/"),
            6 => o.push(*r.pick(b"abz_09@%-+.#!\"'\0\x7f\x85\xa0\xb2\xff")),
            _ => o.extend(r.pick(&SOUP).as_bytes()),
        }
        o.extend(r.pick(&SEP).as_bytes());
    }
    // cut anywhere
    if r.chance(1, 4) {
        let k = r.below(o.len() + 1);
        o.truncate(k);
    }
    o
}

/// a list of token texts, one derivation of the grammar
pub struct D<'a> {
    pub r: &'a mut Rng,
    pub o: Vec<String>,
}
impl D<'_> {
    fn t(&mut self, s: &str) {
        self.o.push(s.into());
    }
    fn sym(&mut self) {
        let s = match self.r.below(10) {
            0 => "%0".into(),
            1 => format!("%{}", 1 + self.r.below(30)),
            2 => format!("@{}", self.r.pick(&["a", "_", "A9_", "fun", "ret"])),
            _ => format!("{}{}{}", self.r.pick(&["@", "%"]), self.r.pick(&["a", "b", "v_", "x"]), self.r.below(6)),
        };
        self.o.push(s);
    }
    fn int(&mut self) {
        let s = match self.r.below(6) {
            0 => "2147483648".into(),
            1 => "-2147483649".into(),
            2 => "007".into(),
            3 => "-0".into(),
            _ => self.r.int().to_string(),
        };
        self.o.push(s);
    }
    fn ty(&mut self, d: usize) {
        match if d == 0 { 0 } else { self.r.below(6) } {
            0..=2 => self.t("i32"),
            3 => {
                self.t("[");
                self.ty(d - 1);
                self.t(",");
                let n = *self.r.pick(&["1", "2", "3", "10", "0007", "2147483647", "4294967296", "9223372036854775807"]);
                self.t(n);
                self.t("]");
            }
            4 => {
                self.t("*");
                self.ty(d - 1);
            }
            _ => {
                self.list(3, |s| s.ty(d - 1));
                self.ret(d - 1);
            }
        }
    }
    fn list(&mut self, m: usize, mut f: impl FnMut(&mut Self)) {
        self.t("(");
        for i in 0..self.r.below(m) {
            if i > 0 {
                self.t(",");
            }
            f(self);
        }
        self.t(")");
    }
    fn optlist(&mut self, f: impl FnMut(&mut Self)) {
        if self.r.chance(1, 2) {
            self.list(4, f);
        }
    }
    fn ret(&mut self, d: usize) {
        if self.r.chance(1, 2) {
            self.t(":");
            self.ty(d);
        }
    }
    fn param(&mut self) {
        self.sym();
        self.t(":");
        self.ty(2);
    }
    fn value(&mut self) {
        match self.r.below(3) {
            0 => self.sym(),
            1 => self.int(),
            _ => self.t("undef"),
        }
    }
    fn init(&mut self, d: usize) {
        match if d == 0 { 0 } else { self.r.below(4) } {
            0 => self.int(),
            1 => self.t("undef"),
            2 => self.t("zeroinit"),
            _ => {
                self.t("{");
                for i in 0..1 + self.r.below(3) {
                    if i > 0 {
                        self.t(",");
                    }
                    self.init(d - 1);
                }
                self.t("}");
            }
        }
    }
    fn call(&mut self) {
        self.t("call");
        self.sym();
        self.list(4, |s| s.value());
    }
    fn stmt(&mut self) {
        match self.r.below(8) {
            0 => {
                self.t("store");
                if self.r.chance(1, 2) { self.sym() } else { self.init(2) }
                self.t(",");
                self.sym();
            }
            1 => self.call(),
            k => {
                self.sym();
                self.t("=");
                match k {
                    2 => {
                        self.t("alloc");
                        self.ty(3);
                    }
                    3 => {
                        self.t("load");
                        self.sym();
                    }
                    4 | 5 => {
                        self.t(if k == 4 { "getptr" } else { "getelemptr" });
                        self.sym();
                        self.t(",");
                        self.value();
                    }
                    6 => self.call(),
                    _ => {
                        let i = 15 + self.r.below(17);
                        self.t(SOUP[i]);
                        self.value();
                        self.t(",");
                        self.value();
                    }
                }
            }
        }
    }
    fn block(&mut self) {
        self.sym();
        self.optlist(|s| s.param());
        self.t(":");
        for _ in 0..self.r.below(4) {
            self.stmt();
        }
        match self.r.below(3) {
            0 => {
                self.t("br");
                self.value();
                self.t(",");
                self.sym();
                self.optlist(|s| s.value());
                self.t(",");
                self.sym();
                self.optlist(|s| s.value());
            }
            1 => {
                self.t("jump");
                self.sym();
                self.optlist(|s| s.value());
            }
            _ => {
                self.t("ret");
                if self.r.chance(1, 2) {
                    self.value();
                }
                self.t("\n");
            }
        }
    }
    pub fn item(&mut self) {
        match self.r.below(4) {
            0 => {
                self.t("global");
                self.sym();
                self.t("=");
                self.t("alloc");
                self.ty(3);
                self.t(",");
                self.init(3);
            }
            1 => {
                self.t("decl");
                self.sym();
                self.list(4, |s| s.ty(2));
                self.ret(2);
            }
            _ => {
                self.t("fun");
                self.sym();
                self.list(3, |s| s.param());
                self.ret(2);
                self.t("{");
                for _ in 0..1 + self.r.below(3) {
                    self.block();
                }
                self.t("}");
            }
        }
    }
}

pub fn derivation(r: &mut Rng, n: usize) -> Vec<String> {
    let mut d = D { r, o: vec![] };
    for _ in 0..n {
        d.item();
    }
    d.o
}

/// replaces, drops, doubles or swaps a few tokens
pub fn mutate(r: &mut Rng, t: &mut Vec<String>, n: usize) {
    for _ in 0..n {
        if t.is_empty() {
            t.push(r.pick(&SOUP).to_string());
            continue;
        }
        let i = r.below(t.len());
        match r.below(6) {
            0 => {
                t.remove(i);
            }
            1 => {
                let x = t[i].clone();
                t.insert(i, x);
            }
            2 => t.insert(i, r.pick(&SOUP).to_string()),
            3 => {
                let j = r.below(t.len());
                t.swap(i, j);
            }
            4 => t.truncate(i),
            _ => t[i] = r.pick(&SOUP).to_string(),
        }
    }
}

/// writes tokens with separators that keep them apart where needed
pub fn write_tokens(r: &mut Rng, t: &[String]) -> Vec<u8> {
    let mut o: Vec<u8> = vec![];
    let tidy = r.chance(1, 2);
    for (i, x) in t.iter().enumerate() {
        if i > 0 && x != "\n" && t[i - 1] != "\n" {
            let prev = t[i - 1].chars().last().unwrap_or(' ');
            let next = x.chars().next().unwrap_or(' ');
            let glue = |c: char| c.is_alphanumeric() || c == '_' || c == '-';
            let punct = |c: char| "(){}[],:=*".contains(c);
            if tidy || t[i - 1] == "ret" {
                o.push(b' ');
            } else if (punct(prev) || punct(next) || !(glue(prev) && glue(next))) && r.chance(1, 2) && !(punct(prev) && next == '/') {
                // nothing between
            } else {
                o.extend(r.pick(&SEP[..8]).as_bytes());
                if r.chance(1, 8) {
                    o.extend(r.pick(&SEP[8..13]).as_bytes());
                }
            }
        }
        o.extend(x.as_bytes());
        // one statement per line most of the time
        if tidy && (x == "{" || x == ":" || x == "}") && r.chance(1, 2) {
            o.push(b'\n');
        }
    }
    o
}
