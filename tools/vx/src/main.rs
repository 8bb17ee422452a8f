//! vx: mechanical extraction of the functions of a macro-expanded Rust crate into a
//! Verus file, driven by a unit template.  See DESIGN.md ("The extractor") for the list
//! of what it rewrites and what it drops.
//!
//! usage: vx --src NAME=expanded.rs [--src ...] --unit unit.vx --out out.rs --meta meta.json
//!           [--vacuity]
//! exit 0: file written; exit 3: the unit cannot be built from this source (reason on stderr)
mod pattern;
mod print;
mod source;
mod transform;
mod inline;
mod header;

use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;

pub type R<T> = Result<T, String>;

#[derive(Default, Clone)]
pub struct Rules {
    pub exprs: Vec<(String, syn::Expr, syn::Expr)>,
    pub types: Vec<(String, syn::Type, syn::Type)>,
    pub paths: HashMap<String, String>,
}

#[derive(Default)]
pub struct FnBlock {
    pub path: String,
    pub opts: BTreeMap<String, String>,
    pub spec: String,
    pub sections: BTreeMap<String, String>,
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o
}

fn load(path: &str, out: &mut Vec<String>, depth: usize) -> R<()> {
    if depth > 8 {
        return Err("include depth".into());
    }
    let text = pushes(&std::fs::read_to_string(path).map_err(|e| format!("{path}: {e}"))?);
    let dir = std::path::Path::new(path).parent().unwrap().to_path_buf();
    for l in text.lines() {
        if let Some(r) = l.trim().strip_prefix("//@ include ") {
            load(dir.join(r.trim()).to_str().unwrap(), out, depth + 1)?;
        } else {
            out.push(l.to_string());
        }
    }
    Ok(())
}

/// The table of a `phf::Map` static as a specification function, and its lookup by contract.
fn phf_table(s: &source::Source, path: &str, ty: &str, f: &str) -> R<String> {
    use quote::ToTokens;
    let (m, name) = path.rsplit_once("::").ok_or("phf path")?;
    for it in s.module(m)? {
        let syn::Item::Static(st) = it else { continue };
        if st.ident != name {
            continue;
        }
        let syn::Expr::Struct(e) = &*st.expr else { return Err(format!("{path} is not a map literal")) };
        for fv in &e.fields {
            let syn::Member::Named(n) = &fv.member else { continue };
            if n != "entries" {
                continue;
            }
            let syn::Expr::Reference(r) = &fv.expr else { return Err(format!("{path}: entries")) };
            let syn::Expr::Array(a) = &*r.expr else { return Err(format!("{path}: entries")) };
            let mut es = vec![];
            for x in &a.elems {
                let syn::Expr::Tuple(t) = x else { return Err(format!("{path}: entry")) };
                let syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(k), .. }) = &t.elems[0] else { return Err(format!("{path}: key")) };
                es.push((k.value(), t.elems[1].to_token_stream().to_string()));
            }
            es.sort();
            let mut o = format!("pub open spec fn {name}_table(s: Seq<char>) -> Option<{ty}> {{\n    ");
            for (k, v) in &es {
                let cs: Vec<String> = k.chars().map(|c| format!("{c:?}")).collect();
                o.push_str(&format!("if s == seq![{}] {{ Some({v}) }} else ", cs.join(", ")));
            }
            o.push_str("{ None }\n}\n");
            o.push_str(&format!("/// a lookup in the perfect hash map (dependency phf)\n#[verifier::external_body]\npub fn {f}(k: &String) -> (r: Option<{ty}>)\n    ensures r == {name}_table(k@),\n{{ unimplemented!() }}\n"));
            return Ok(o);
        }
    }
    Err(format!("static {path} not found"))
}

/// `§text§` stands for `.push('t').push('e').push('x').push('t')`
fn pushes(text: &str) -> String {
    text.split('§')
        .enumerate()
        .map(|(i, t)| if i % 2 == 0 { t.to_string() } else { t.replace("\\n", "\n").chars().map(|c| format!(".push({c:?})")).collect() })
        .collect()
}

fn main() {
    match run() {
        Ok(()) => {}
        Err(e) => {
            eprintln!("vx: {e}");
            std::process::exit(3);
        }
    }
}

fn parse_opts(s: &str) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    for w in s.split_whitespace() {
        match w.split_once('=') {
            Some((a, b)) => m.insert(a.to_string(), b.to_string()),
            None => m.insert(w.to_string(), String::new()),
        };
    }
    m
}

fn run() -> R<()> {
    let mut srcs: HashMap<String, source::Source> = HashMap::new();
    let (mut unit, mut outp, mut metap, mut vac) = (String::new(), String::new(), String::new(), false);
    let mut skip: std::collections::HashSet<String> = Default::default();
    let mut loops: std::collections::HashMap<String, Vec<String>> = Default::default();
    let mut headers: Vec<String> = vec![];
    let mut a = std::env::args().skip(1);
    while let Some(x) = a.next() {
        match x.as_str() {
            "--src" => {
                let v = a.next().ok_or("--src")?;
                let (n, p) = v.split_once('=').ok_or("--src NAME=PATH")?;
                srcs.insert(n.into(), source::Source::load(p)?);
            }
            "--header" => headers.push(a.next().ok_or("--header")?),
            "--unit" => unit = a.next().ok_or("--unit")?,
            "--out" => outp = a.next().ok_or("--out")?,
            "--meta" => metap = a.next().ok_or("--meta")?,
            "--vacuity" => vac = true,
            "--loops" => {
                // one line per function: its id and what its loops iterate over, tab-separated
                let f = a.next().ok_or("--loops")?;
                for l in std::fs::read_to_string(&f).unwrap_or_default().lines() {
                    let mut w = l.split('\t').map(str::to_string);
                    if let Some(id) = w.next() {
                        loops.insert(id, w.collect());
                    }
                }
            }
            "--skip" => {
                skip.insert(a.next().ok_or("--skip")?);
            }
            o => return Err(format!("unknown option {o}")),
        }
    }
    let mut lines = vec![];
    load(&unit, &mut lines, 0)?;

    // names of functions known to the unit: anything declared `fn NAME` in template text or
    // extracted; helper calls to other names are candidates for inlining
    let mut known: std::collections::HashSet<String> = Default::default();
    for l in &lines {
        let t = l.trim();
        if let Some(r) = t.strip_prefix("//@ fn ") {
            let mut it = r.split_whitespace();
            let p = it.next().unwrap_or("");
            known.insert(p.rsplit("::").next().unwrap().to_string());
        } else if !t.starts_with("//") {
            let mut rest = t;
            while let Some(i) = rest.find("fn ") {
                let tail = &rest[i + 3..];
                let name: String = tail.trim_start().chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
                known.insert(name);
                rest = tail;
            }
        }
    }

    let mut rules = Rules::default();
    let mut src = "koopa".to_string();
    let mut out = String::new();
    let mut nline = 1usize;
    let mut meta: Vec<String> = vec![];
    macro_rules! emit {
        ($s:expr) => {{
            let s: String = $s;
            nline += s.matches('\n').count();
            out.push_str(&s);
        }};
    }
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i].clone();
        i += 1;
        let t = l.trim();
        let Some(d) = t.strip_prefix("//@ ") else {
            emit!(format!("{l}\n"));
            continue;
        };
        let (cmd, rest) = d.split_once(' ').unwrap_or((d, ""));
        match cmd {
            "source" => src = rest.trim().into(),
            "rule" => {
                let (p, r) = rest.split_once(" => ").ok_or_else(|| format!("bad rule {rest}"))?;
                rules.exprs.push((
                    rest.into(),
                    syn::parse_str(p).map_err(|e| format!("rule {rest}: {e}"))?,
                    syn::parse_str(r).map_err(|e| format!("rule {rest}: {e}"))?,
                ));
            }
            "type" => {
                let (p, r) = rest.split_once(" => ").ok_or_else(|| format!("bad type rule {rest}"))?;
                rules.types.push((
                    rest.into(),
                    syn::parse_str(p).map_err(|e| format!("type {rest}: {e}"))?,
                    syn::parse_str(r).map_err(|e| format!("type {rest}: {e}"))?,
                ));
            }
            "path" => {
                let (p, r) = rest.split_once(" => ").ok_or_else(|| format!("bad path rule {rest}"))?;
                rules.paths.insert(p.trim().into(), r.trim().into());
            }
            "cheader" => {
                for h in &headers {
                    let t = std::fs::read_to_string(h).map_err(|e| format!("{h}: {e}"))?;
                    // an argument keeps only the constants whose name contains it
                    for l in header::c_header(&t)?.lines() {
                        if rest.is_empty() || !l.contains("spec const ") || l.contains(rest.trim()) {
                            emit!(format!("{l}\n"));
                        }
                    }
                }
                meta.push("{\"kind\":\"item\",\"path\":\"koopa.h\"}".into());
            }
            "rlayout" => {
                let s = srcs.get(&src).ok_or("no source")?;
                emit!(header::r_layout(s.module(rest.trim())?, rest.trim())?);
                meta.push(format!("{{\"kind\":\"item\",\"path\":\"{}::*\"}}", esc(rest.trim())));
            }
            "phf" => {
                // phf PATH VALUE_TYPE EXEC_FN: the entries of a perfect hash map, sorted by key
                let w: Vec<&str> = rest.split_whitespace().collect();
                if w.len() != 3 {
                    return Err(format!("bad phf directive {rest}"));
                }
                let s = srcs.get(&src).ok_or("no source")?;
                emit!(phf_table(s, w[0], w[1], w[2])?);
                meta.push(format!("{{\"kind\":\"item\",\"path\":\"{}\"}}", esc(w[0])));
            }
            "item" => {
                let (p, attrs) = rest.split_once(' ').unwrap_or((rest, ""));
                let s = srcs.get(&src).ok_or("no source")?;
                let it = s.item(p)?;
                let txt = transform::item(&it, attrs, &rules)?;
                emit!(txt);
                meta.push(format!("{{\"kind\":\"item\",\"path\":\"{}\"}}", esc(p)));
            }
            "fn" => {
                let (p, o) = rest.split_once(' ').unwrap_or((rest, ""));
                let mut b = FnBlock { path: p.into(), opts: parse_opts(o), ..Default::default() };
                let mut cur: Option<String> = None;
                loop {
                    if i >= lines.len() {
                        return Err(format!("unterminated fn block {p}"));
                    }
                    let l = lines[i].clone();
                    i += 1;
                    let t = l.trim();
                    if t == "//@ end" {
                        break;
                    }
                    if let Some(k) = t.strip_prefix("//@ rule ") {
                        b.sections.entry("rules".into()).or_default().push_str(&format!("{k}\n"));
                        continue;
                    }
                    if let Some(k) = t.strip_prefix("//@ ") {
                        cur = Some(k.trim().to_string());
                        b.sections.entry(k.trim().to_string()).or_default();
                        continue;
                    }
                    let tgt = match &cur {
                        None => &mut b.spec,
                        Some(k) => b.sections.get_mut(k).unwrap(),
                    };
                    tgt.push_str(&l);
                    tgt.push('\n');
                }
                let s = srcs.get(&src).ok_or("no source")?;
                let mut hits = vec![];
                let start = nline;
                let id = match b.opts.get("as") {
                    Some(n) => format!("{p}#{n}"),
                    None => p.to_string(),
                };
                let skipped = skip.contains(&id);
                let (txt, prints, realigned) = transform::func(s, &b, &rules, &known, vac, skipped, loops.get(&id), &mut hits).map_err(|e| format!("FN {id}: {e}"))?;
                emit!(txt);
                hits.sort();
                hits.dedup();
                meta.push(format!(
                    "{{\"kind\":\"fn\",\"id\":\"{}\",\"skipped\":{},\"path\":\"{}\",\"source\":\"{}\",\"start\":{},\"end\":{},\"sig_override\":{},\"realigned\":{},\"loops\":[{}],\"rewrites\":[{}],\"opts\":\"{}\"}}",
                    esc(&id), skipped, esc(p), esc(&src), start, nline, b.sections.contains_key("sig"), realigned,
                    prints.iter().map(|h| format!("\"{}\"", esc(h))).collect::<Vec<_>>().join(","),
                    hits.iter().map(|h| format!("\"{}\"", esc(h))).collect::<Vec<_>>().join(","), esc(o)
                ));
            }
            o => return Err(format!("unknown directive {o}")),
        }
    }
    std::fs::write(&outp, out).map_err(|e| e.to_string())?;
    std::fs::write(&metap, format!("[{}]\n", meta.join(",\n"))).map_err(|e| e.to_string())?;
    Ok(())
}
