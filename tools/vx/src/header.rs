//! Declarations as constants: enumerators and struct layouts of a C header, and layouts of the
//! `repr(C)` items of a Rust module, both written as Verus `spec const`s.  The layout rule (natural
//! alignment, 64-bit) is spelled out in the emitted expressions, over `vx_up` and `vx_max`.
use crate::R;
use std::collections::HashMap;
use std::fmt::Write as _;
use syn::*;

/// size, alignment, kind of a type: expressions over emitted constants
#[derive(Clone)]
struct Ty {
    size: String,
    align: String,
    kind: u32,
}
fn prim(n: u32, kind: u32) -> Ty {
    Ty { size: n.to_string(), align: n.to_string(), kind }
}
fn unknown() -> Ty {
    Ty { size: "vstd::pervasive::arbitrary::<int>()".into(), align: "vstd::pervasive::arbitrary::<int>()".into(), kind: 99 }
}
const PTR: u32 = 1;
const U32: u32 = 2;
const I32: u32 = 3;
const USIZE: u32 = 4;
const ENUM: u32 = 5;
const AGG: u32 = 6;

fn agg(name: &str) -> Ty {
    Ty { size: format!("{name}__SIZE"), align: format!("{name}__ALIGN"), kind: AGG }
}

fn emit_fields(out: &mut String, name: &str, fields: &[(String, Ty)], union: bool) {
    let mut off = "0".to_string();
    let mut al = "1".to_string();
    let mut mx = "0".to_string();
    for (f, t) in fields {
        let o = if union { "0".to_string() } else { format!("vx_up({off}, {})", t.align) };
        let _ = writeln!(out, "pub spec const {name}__{f}__OFF: int = {o};");
        let _ = writeln!(out, "pub spec const {name}__{f}__KIND: int = {};", t.kind);
        let _ = writeln!(out, "pub spec const {name}__{f}__FSIZE: int = {};", t.size);
        off = format!("({name}__{f}__OFF + {})", t.size);
        al = format!("vx_max({al}, {})", t.align);
        mx = format!("vx_max({mx}, {})", t.size);
    }
    let _ = writeln!(out, "pub spec const {name}__ALIGN: int = {al};");
    let end = if union { mx } else { off };
    let _ = writeln!(out, "pub spec const {name}__SIZE: int = vx_up({end}, {name}__ALIGN);");
}

// ---------------------------------------------------------------- C
fn tokens(t: &str) -> Vec<String> {
    let mut v = vec![];
    let mut depth = 0; // of skipped preprocessor conditionals
    let mut lines: Vec<&str> = vec![];
    // keep the non-Windows, non-C++ branch
    let mut stack: Vec<bool> = vec![];
    for l in t.lines() {
        let s = l.trim();
        if let Some(d) = s.strip_prefix('#') {
            let d = d.trim();
            if d.starts_with("ifndef") {
                stack.push(true);
            } else if d.starts_with("ifdef") || d.starts_with("if ") {
                stack.push(false);
            } else if d.starts_with("else") {
                if let Some(x) = stack.last_mut() {
                    *x = !*x;
                }
            } else if d.starts_with("endif") {
                stack.pop();
            }
            continue;
        }
        if stack.iter().all(|x| *x) {
            lines.push(l);
        }
    }
    let _ = &mut depth;
    let t: String = lines.iter().map(|l| l.split("//").next().unwrap()).collect::<Vec<_>>().join("\n");
    let mut cs = t.chars().peekable();
    while let Some(&c) = cs.peek() {
        if c.is_whitespace() {
            cs.next();
        } else if c.is_alphanumeric() || c == '_' {
            let mut s = String::new();
            while let Some(&c) = cs.peek() {
                if c.is_alphanumeric() || c == '_' {
                    s.push(c);
                    cs.next();
                } else {
                    break;
                }
            }
            v.push(s);
        } else if c == '/' {
            cs.next();
            if cs.peek() == Some(&'*') {
                let mut last = ' ';
                for c in cs.by_ref() {
                    if last == '*' && c == '/' {
                        break;
                    }
                    last = c;
                }
            }
        } else {
            v.push(c.to_string());
            cs.next();
        }
    }
    v
}

struct C {
    t: Vec<String>,
    i: usize,
    types: HashMap<String, Ty>,
    out: String,
    /// enumerators and fields met
    n: usize,
}
impl C {
    fn peek(&self) -> &str {
        self.t.get(self.i).map(|s| s.as_str()).unwrap_or("")
    }
    fn next(&mut self) -> String {
        let s = self.peek().to_string();
        self.i += 1;
        s
    }
    fn expect(&mut self, s: &str) -> R<()> {
        let g = self.next();
        if g != s {
            return Err(format!("header: expected {s}, found {g} ({:?})", &self.t[self.i.saturating_sub(6)..(self.i + 4).min(self.t.len())]));
        }
        Ok(())
    }
    fn enum_body(&mut self) -> R<()> {
        self.expect("{")?;
        let mut val: i64 = 0;
        while self.peek() != "}" {
            let n = self.next();
            if self.peek() == "=" {
                self.next();
                let mut neg = false;
                if self.peek() == "-" {
                    neg = true;
                    self.next();
                }
                let l = self.next();
                let l2 = l.trim_end_matches(|c| c == 'u' || c == 'U' || c == 'l' || c == 'L');
                val = match l2.strip_prefix("0x") {
                    Some(h) => i64::from_str_radix(h, 16),
                    None => l2.parse(),
                }
                .map_err(|_| format!("header: enumerator value {l}"))?;
                if neg {
                    val = -val;
                }
            }
            let _ = writeln!(self.out, "pub spec const C_{n}: int = {val};");
            self.n += 1;
            val += 1;
            if self.peek() == "," {
                self.next();
            }
        }
        self.expect("}")
    }
    /// fields of a struct or union; `name` prefixes the constants
    fn fields(&mut self, name: &str, union: bool) -> R<()> {
        self.expect("{")?;
        let mut fs = vec![];
        while self.peek() != "}" {
            let (t, n) = self.decl(name)?;
            fs.push((n, t));
            self.expect(";")?;
        }
        self.expect("}")?;
        emit_fields(&mut self.out, name, &fs, union);
        Ok(())
    }
    /// one declaration (without `;`): type and declared name
    fn decl(&mut self, prefix: &str) -> R<(Ty, String)> {
        while self.peek() == "const" || self.peek() == "volatile" {
            self.next();
        }
        let w = self.next();
        let mut t;
        match w.as_str() {
            "struct" | "union" => {
                let tag = if self.peek() != "{" { self.next() } else { String::new() };
                if self.peek() == "{" {
                    // inline definition: needs its declared name first
                    let mut d = 0;
                    let mut k = self.i;
                    loop {
                        match self.t.get(k).map(|s| s.as_str()) {
                            Some("{") => d += 1,
                            Some("}") => {
                                d -= 1;
                                if d == 0 {
                                    break;
                                }
                            }
                            None => return Err("header: unclosed brace".into()),
                            _ => {}
                        }
                        k += 1;
                    }
                    let n = self.t[k + 1].clone();
                    let full = if prefix.is_empty() { format!("C_{n}") } else { format!("{prefix}__{n}") };
                    self.fields(&full, w == "union")?;
                    t = agg(&full);
                    if !tag.is_empty() {
                        self.types.insert(format!("struct {tag}"), t.clone());
                    }
                } else {
                    t = self.types.get(&format!("struct {tag}")).cloned().unwrap_or_else(unknown);
                }
            }
            "enum" => {
                let tag = if self.peek() != "{" { self.next() } else { String::new() };
                if self.peek() == "{" {
                    self.enum_body()?;
                }
                t = prim(4, ENUM);
                if !tag.is_empty() {
                    self.types.insert(format!("enum {tag}"), t.clone());
                }
            }
            "void" | "char" => t = Ty { size: "1".into(), align: "1".into(), kind: 7 },
            "int" | "int32_t" => t = prim(4, I32),
            "uint32_t" | "unsigned" => t = prim(4, U32),
            "size_t" => t = prim(8, USIZE),
            o => t = self.types.get(o).cloned().unwrap_or_else(unknown),
        }
        while self.peek() == "*" || self.peek() == "const" {
            if self.next() == "*" {
                t = prim(8, PTR);
            }
        }
        let n = self.next();
        if self.peek() == "[" {
            t = unknown();
            while self.peek() != "]" {
                self.next();
            }
            self.next();
        }
        Ok((t, n))
    }
    fn top(&mut self) -> R<()> {
        while self.i < self.t.len() {
            match self.peek() {
                "typedef" => {
                    self.next();
                    let (t, n) = self.decl("")?;
                    self.types.insert(n, t);
                    self.expect(";")?;
                }
                "enum" => {
                    self.next();
                    let tag = self.next();
                    self.enum_body()?;
                    self.types.insert(format!("enum {tag}"), prim(4, ENUM));
                    self.expect(";")?;
                }
                "struct" => {
                    self.next();
                    let tag = self.next();
                    if self.peek() == "{" {
                        let full = format!("C_{tag}");
                        self.fields(&full, false)?;
                        self.types.insert(format!("struct {tag}"), agg(&full));
                    }
                    self.expect(";")?;
                }
                _ => {
                    // a prototype: skipped
                    while self.i < self.t.len() && self.next() != ";" {}
                }
            }
        }
        Ok(())
    }
}

pub fn c_header(text: &str) -> R<String> {
    let mut c = C { t: tokens(text), i: 0, types: HashMap::new(), out: String::new(), n: 0 };
    c.top()?;
    if c.n == 0 {
        return Err("header: no enumerators found".into());
    }
    Ok(c.out)
}

// ---------------------------------------------------------------- Rust
fn has_repr(attrs: &[Attribute], what: &str) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("repr")
            && match &a.meta {
                Meta::List(l) => l.tokens.to_string().split(',').any(|x| x.trim() == what),
                _ => false,
            }
    })
}

struct Rs<'a> {
    items: &'a [Item],
}
impl<'a> Rs<'a> {
    fn ty(&self, t: &Type, depth: usize) -> Ty {
        if depth > 10 {
            return unknown();
        }
        match t {
            Type::Ptr(_) => prim(8, PTR),
            Type::Path(p) => {
                let s = p.path.segments.last().unwrap().ident.to_string();
                match s.as_str() {
                    "u32" => prim(4, U32),
                    "i32" | "c_int" => prim(4, I32),
                    "usize" => prim(8, USIZE),
                    "u64" => prim(8, 8),
                    "i64" | "isize" => prim(8, 9),
                    "u16" => prim(2, 10),
                    "i16" => prim(2, 11),
                    "u8" | "i8" | "bool" => prim(1, 12),
                    "PhantomData" => Ty { size: "0".into(), align: "1".into(), kind: 0 },
                    _ => {
                        for it in self.items {
                            match it {
                                Item::Type(x) if x.ident == s => return self.ty(&x.ty, depth + 1),
                                Item::Struct(x) if x.ident == s => return agg(&format!("R_{s}")),
                                Item::Enum(x) if x.ident == s => {
                                    if x.variants.iter().all(|v| matches!(v.fields, Fields::Unit)) {
                                        return if has_repr(&x.attrs, "u32") || has_repr(&x.attrs, "C") || has_repr(&x.attrs, "i32") { prim(4, ENUM) } else { unknown() };
                                    }
                                    return agg(&format!("R_{s}"));
                                }
                                _ => {}
                            }
                        }
                        unknown()
                    }
                }
            }
            _ => unknown(),
        }
    }
}

pub fn r_layout(items: &[Item], module: &str) -> R<String> {
    let rs = Rs { items };
    let mut out = String::new();
    let _ = module;
    for it in items {
        match it {
            Item::Struct(x) => {
                let n = format!("R_{}", x.ident);
                let ok = has_repr(&x.attrs, "C");
                let fs: Vec<(String, Ty)> = x
                    .fields
                    .iter()
                    .enumerate()
                    .map(|(i, f)| (f.ident.as_ref().map(|i| i.to_string()).unwrap_or(format!("f{i}")), if ok { rs.ty(&f.ty, 0) } else { unknown() }))
                    .collect();
                emit_fields(&mut out, &n, &fs, false);
            }
            Item::Enum(x) => {
                let n = format!("R_{}", x.ident);
                let unit = x.variants.iter().all(|v| matches!(v.fields, Fields::Unit));
                let repr = has_repr(&x.attrs, "C") || (unit && (has_repr(&x.attrs, "u32") || has_repr(&x.attrs, "i32")));
                let mut val: i64 = 0;
                for v in &x.variants {
                    if let Some((_, d)) = &v.discriminant {
                        if let Expr::Lit(ExprLit { lit: Lit::Int(l), .. }) = d {
                            val = l.base10_parse().map_err(|e| e.to_string())?;
                        } else {
                            return Err(format!("discriminant of {}", v.ident));
                        }
                    }
                    if repr {
                        let _ = writeln!(out, "pub spec const {n}__{}: int = {val};", v.ident);
                    } else {
                        let _ = writeln!(out, "pub spec const {n}__{}: int = vstd::pervasive::arbitrary::<int>();", v.ident);
                    }
                    val += 1;
                }
                if !unit {
                    let mut al = "1".to_string();
                    let mut sz = "0".to_string();
                    for v in &x.variants {
                        let vn = format!("{n}__V_{}", v.ident);
                        let fs: Vec<(String, Ty)> = v.fields.iter().enumerate().map(|(i, f)| (format!("f{i}"), rs.ty(&f.ty, 0))).collect();
                        if fs.is_empty() {
                            continue;
                        }
                        emit_fields(&mut out, &vn, &fs, false);
                        al = format!("vx_max({al}, {vn}__ALIGN)");
                        sz = format!("vx_max({sz}, {vn}__SIZE)");
                    }
                    let _ = writeln!(out, "pub spec const {n}__data__ALIGN: int = {al};");
                    let _ = writeln!(out, "pub spec const {n}__data__SIZE: int = vx_up({sz}, {n}__data__ALIGN);");
                    let tag = if repr { "0" } else { "vstd::pervasive::arbitrary::<int>()" };
                    let _ = writeln!(out, "pub spec const {n}__tag__OFF: int = {tag};");
                    let _ = writeln!(out, "pub spec const {n}__data__OFF: int = vx_up({n}__tag__OFF + 4, {n}__data__ALIGN);");
                    let _ = writeln!(out, "pub spec const {n}__ALIGN: int = vx_max(4, {n}__data__ALIGN);");
                    let _ = writeln!(out, "pub spec const {n}__SIZE: int = vx_up({n}__data__OFF + {n}__data__SIZE, {n}__ALIGN);");
                }
            }
            _ => {}
        }
    }
    Ok(out)
}
