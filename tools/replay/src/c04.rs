//! Names handed out by the name manager, and names in printed programs.
use crate::ctx::Ctx;
use crate::gen_prog::{Opts, gen_program};
use crate::rng::Rng;
use crate::util::{print, print_llvm};
use koopa::back::{NameManager, Prefix};
use koopa::ir::builder_traits::*;
use koopa::ir::*;
use std::collections::{HashMap, HashSet};
use std::num::NonZeroUsize;

fn rname(r: &mut Rng) -> String {
    const B: [&str; 14] = ["@a", "%a", "@a_0", "%a_0", "%a_1", "%0", "%1", "%2", "@x", "%x_0", "%é1", "%aéa", "@aaaaaaaa", "%_"];
    r.pick(&B).to_string()
}

/// the name an entity gets if nothing else has it
fn base(n: &str, px: &(u8, Option<usize>)) -> String {
    let (k, max) = px;
    if *k == 0 {
        return n.into();
    }
    let (named, temp) = pxs(*k);
    let mut s = match n.strip_prefix('@') {
        Some(x) => format!("{named}{x}"),
        None => format!("{temp}{}", &n[1..]),
    };
    if let Some(m) = max {
        let mut k = s.len().min(*m);
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        s.truncate(k);
    }
    s
}
fn pxs(k: u8) -> (&'static str, &'static str) {
    match k {
        1 => ("@", "%"),
        2 => ("@", "@t"),
        _ => ("x", "x"),
    }
}

fn manager(r: &mut Rng) -> Result<(), String> {
    let mut log = String::new();
    manager_log(r, &mut log).map_err(|e| format!("{e}\n  requests: {log}"))
}
fn manager_log(r: &mut Rng, log: &mut String) -> Result<(), String> {
    use std::fmt::Write;
    let mut p = Program::new();
    let nf = 1 + r.below(3);
    let mut vals = vec![];
    let mut bbs = vec![];
    let mut fs = vec![];
    for _ in 0..r.below(4) {
        let i = p.new_value().integer(1);
        let g = p.new_value().global_alloc(i);
        if r.chance(2, 3) {
            let n = rname(r);
            p.set_value_name(g, Some(n));
        }
    }
    for _ in 0..nf {
        let f = p.new_func_def(rname(r), vec![], Type::get_unit());
        let mut vs = vec![];
        let mut bs = vec![];
        for _ in 0..r.below(8) {
            let d = p.func_mut(f).dfg_mut();
            let v = d.new_value().alloc(Type::get_i32());
            if r.chance(2, 3) {
                let n = rname(r);
                d.set_value_name(v, Some(n));
            }
            vs.push(v);
        }
        for _ in 0..r.below(6) {
            let n = if r.chance(2, 3) { Some(rname(r)) } else { None };
            bs.push(p.func_mut(f).dfg_mut().new_bb().basic_block(n));
        }
        fs.push(f);
        vals.push(vs);
        bbs.push(bs);
    }
    let mut nm = NameManager::new();
    let k = r.below(4) as u8;
    let max = if k > 0 && r.chance(1, 2) { Some(1 + r.below(8)) } else { None };
    if k > 0 {
        let (a, b) = pxs(k);
        nm.set_prefix(Prefix::Custom { named: a.into(), temp: b.into(), max_len: max.and_then(NonZeroUsize::new) });
    }
    let _ = write!(log, "prefix {k} {max:?}; ");
    let px = (k, max);
    let globals = p.inst_layout().to_vec();
    // names of things that stay visible
    let mut gn: HashMap<String, String> = HashMap::new();
    let mut known: HashMap<String, String> = HashMap::new();
    let mut ntemp = 0;
    let req = |key: String, want: Option<String>, got: String, taken: &mut HashMap<String, String>, others: &HashMap<String, String>, known: &mut HashMap<String, String>, log: &mut String| -> Result<(), String> {
        let _ = write!(log, "{key}={got}; ");
        if let Some(k) = known.get(&key) {
            return if *k == got { Ok(()) } else { Err(format!("{key} was {k}, now {got}")) };
        }
        if let Some(o) = taken.get(&got).or(others.get(&got)) {
            return Err(format!("{key} and {o} are both called {got}"));
        }
        if let Some(w) = want {
            let b = base(&w, &px);
            if !taken.contains_key(&b) && !others.contains_key(&b) && b != got {
                return Err(format!("{key} is explicitly named {b}, which is free, but got {got}"));
            }
            if !got.starts_with(b.as_str()) && !b[1..].bytes().all(|c| c.is_ascii_digit()) {
                return Err(format!("{key} is explicitly named {b} but got {got}"));
            }
        } else {
            let t = if k == 0 { "%" } else { pxs(k).1 };
            if !got.strip_prefix(t).is_some_and(|x| !x.is_empty() && x.bytes().all(|c| c.is_ascii_digit())) {
                return Err(format!("{key} has no name but got {got}"));
            }
        }
        taken.insert(got.clone(), key.clone());
        known.insert(key, got);
        Ok(())
    };
    let gname = |r: &mut Rng, nm: &mut NameManager| -> Option<(String, Option<String>, String)> {
        if r.chance(1, 2) || globals.is_empty() {
            let i = r.below(fs.len());
            let d = p.func(fs[i]);
            Some((format!("func{i}"), Some(d.name().to_string()), nm.func_name(d).to_string()))
        } else {
            let i = r.below(globals.len());
            let d = p.borrow_value(globals[i]);
            Some((format!("global{i}"), d.name().clone(), nm.value_name(&d).to_string()))
        }
    };
    for round in 0..nf {
        let none = HashMap::new();
        for _ in 0..r.below(8) {
            if let Some((a, b, c)) = gname(r, &mut nm) {
                req(a, b, c, &mut gn, &none, &mut known, log)?;
            }
        }
        nm.enter_func_scope();
        let _ = write!(log, "enter {round}; ");
        let mut ln: HashMap<String, String> = HashMap::new();
        let mut bn: HashMap<String, String> = HashMap::new();
        let fd = p.func(fs[round]);
        for _ in 0..r.below(24) {
            match r.below(6) {
                0 | 1 if !vals[round].is_empty() => {
                    let i = r.below(vals[round].len());
                    let d = fd.dfg().value(vals[round][i]);
                    let got = nm.value_name(d).to_string();
                    req(format!("f{round}.v{i}"), d.name().clone(), got, &mut ln, &gn, &mut known, log)?;
                }
                2 | 3 if !bbs[round].is_empty() => {
                    let i = r.below(bbs[round].len());
                    let d = fd.dfg().bb(bbs[round][i]);
                    let got = nm.bb_name(d).to_string();
                    req(format!("f{round}.bb{i}"), d.name().clone(), got, &mut bn, &none, &mut known, log)?;
                }
                4 => {
                    ntemp += 1;
                    let got = nm.temp_value_name().to_string();
                    // a temporary is visible in this function only, but may stay reserved
                    req(format!("temp{ntemp}"), None, got, &mut ln, &gn, &mut known, log)?;
                }
                _ => {
                    // a function's name may be requested for the first time while names of local
                    // values are taken
                    if let Some((a, b, c)) = gname(r, &mut nm) {
                        req(a, b, c, &mut gn, &ln, &mut known, log)?;
                    }
                }
            }
        }
        nm.exit_func_scope();
        let _ = write!(log, "exit; ");
        // temporaries of a left function may stay reserved
        for (n, k) in &ln {
            if k.starts_with("temp") {
                gn.insert(n.clone(), k.clone());
            }
        }
    }
    Ok(())
}

/// definitions in printed Koopa IR text
fn koopa_defs(t: &str) -> Result<(), String> {
    let mut glob: HashSet<String> = HashSet::new();
    let add = |s: &mut HashSet<String>, n: &str| if s.insert(n.to_string()) { Ok(()) } else { Err(format!("{n} is defined twice:\n{t}")) };
    let head = |l: &str| -> (String, Vec<String>) {
        let l = l.trim_end_matches([':', '{', ' ']);
        let (n, ps) = match l.split_once('(') {
            Some((n, ps)) => (n, ps),
            None => (l, ""),
        };
        let mut names = vec![];
        let mut word = String::new();
        for c in ps.chars() {
            if c == ':' {
                if word.starts_with(['@', '%']) {
                    names.push(word.clone());
                }
                word.clear();
            } else if c == ',' || c == '(' || c == ')' || c == ' ' {
                word.clear();
            } else {
                word.push(c);
            }
        }
        (n.trim().to_string(), names)
    };
    // function and global names are visible everywhere
    for l in t.lines() {
        if let Some(x) = l.strip_prefix("global ") {
            add(&mut glob, x.split(' ').next().unwrap())?;
        } else if let Some(x) = l.strip_prefix("decl ").or(l.strip_prefix("fun ")) {
            add(&mut glob, x.split('(').next().unwrap())?;
        }
    }
    let mut loc: HashSet<String> = HashSet::new();
    let mut bb: HashSet<String> = HashSet::new();
    for l in t.lines() {
        if let Some(x) = l.strip_prefix("fun ") {
            loc = glob.clone();
            bb.clear();
            for n in head(x).1 {
                add(&mut loc, &n)?;
            }
        } else if (l.starts_with('%') || l.starts_with('@')) && l.trim_end().ends_with(':') {
            let (n, ps) = head(l);
            add(&mut bb, &n)?;
            for n in ps {
                add(&mut loc, &n)?;
            }
        } else if l.starts_with(' ') {
            if let Some((n, _)) = l.trim().split_once(" = ") {
                add(&mut loc, n)?;
            }
        }
    }
    Ok(())
}

fn llvm_defs(t: &str) -> Result<(), String> {
    let mut glob: HashSet<String> = HashSet::new();
    let mut loc: HashSet<String> = HashSet::new();
    let add = |s: &mut HashSet<String>, n: &str| if s.insert(n.to_string()) { Ok(()) } else { Err(format!("{n} is defined twice:\n{t}")) };
    for l in t.lines() {
        let l2 = l.trim();
        if l.starts_with("define") || l.starts_with("declare") {
            let n = l.split('@').nth(1).map(|x| x.split('(').next().unwrap_or(x)).unwrap_or("");
            add(&mut glob, n)?;
            loc.clear();
            if l.starts_with("define") {
                let ps = l.split_once('(').map_or("", |x| x.1);
                for x in ps.split(['%']).skip(1) {
                    let n: String = x.chars().take_while(|c| !matches!(c, ',' | ')' | ' ')).collect();
                    add(&mut loc, &n)?;
                }
            }
        } else if l.starts_with('@') {
            add(&mut glob, l[1..].split(' ').next().unwrap())?;
        } else if l2.ends_with(':') && !l.starts_with(' ') {
            add(&mut loc, l2.trim_end_matches(':'))?;
        } else if let Some((n, _)) = l2.split_once(" = ") {
            if n.starts_with('%') && !n.contains(' ') {
                add(&mut loc, &n[1..])?;
            }
        }
    }
    Ok(())
}

pub fn run(c: &mut Ctx) {
    c.rule = "random request sequences to the name manager (all prefixes, truncation, scopes, clashing explicit names); random programs with clashing names printed as Koopa IR and as LLVM IR, every definition unique".into();
    while c.time_left() {
        let s = c.rng.next();
        if s & 1 == 0 {
            c.case("manager", format!("requests, seed {s}"), true, || manager(&mut Rng::new(s)));
        } else {
            let mut r = Rng::new(s);
            let o = Opts { named: 70, odd_names: true, max_bbs: 4, max_funcs: 3, ..Opts::small() };
            let o = Opts { text: r.chance(1, 2), ..o };
            let p = gen_program(&mut r, &o);
            c.case("printed", format!("program, seed {s} {o:?}"), true, || {
                if o.text {
                    koopa_defs(&print(&p))?;
                }
                llvm_defs(&print_llvm(&p))
            });
        }
    }
}
