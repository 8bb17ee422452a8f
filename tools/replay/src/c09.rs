//! Meaning and rejection of texts against the reference static rules.
use crate::c08::split;
use crate::canon::{Mode, canon};
use crate::ctx::{Ctx, panic_text};
use crate::gen_prog::{Opts, gen_program};
use crate::gen_text::*;
use crate::reffront::{Static, check, lex, parse};
use crate::rng::Rng;
use crate::util::{mute, print, read};
use std::panic::{AssertUnwindSafe, catch_unwind};

pub fn compare(text: &[u8], stat: &mut [u64; 4]) -> Result<(), String> {
    let show = || String::from_utf8_lossy(&text[..text.len().min(1500)]).to_string();
    let toks = lex(text);
    let want = match parse(&toks) {
        Some(i) => check(&i),
        None => Static::Bad("syntax"),
    };
    let got = match catch_unwind(AssertUnwindSafe(|| read(text))) {
        Ok(g) => g,
        Err(p) => return Err(format!("reading panics: {}\n{}", panic_text(p), show())),
    };
    match want {
        Static::Ok(w) => {
            stat[0] += 1;
            let Ok(p) = got else { return Err(format!("valid text is rejected:\n{}", show())) };
            let m = Mode { bfs: true, sort_funcs: false, names: true };
            let g = canon(&p, m);
            if g != w {
                return Err(format!("wrong program for\n{}\n--- expected\n{w}\n--- got\n{g}", show()));
            }
            crate::oracle::check_uses(&p)?;
        }
        Static::Bad(w) => {
            stat[if w == "syntax" { 3 } else { 1 }] += 1;
            if got.is_ok() {
                return Err(format!("invalid text ({w}) is accepted:\n{}", show()));
            }
        }
        Static::Open(_) => stat[2] += 1,
    }
    Ok(())
}

/// a printed random program, possibly with a few symbols, constants or lines exchanged
pub fn text(r: &mut Rng) -> Vec<u8> {
    let o = Opts {
        max_funcs: 1 + r.below(3),
        max_bbs: *r.pick(&[1, 2, 4, 8]),
        max_insts: *r.pick(&[2, 4, 8]),
        named: *r.pick(&[0, 50, 100]),
        ..Opts::text()
    };
    let p = gen_program(r, &o);
    let t = print(&p);
    match r.below(6) {
        0 => t.into_bytes(),
        1 | 2 | 3 => {
            // exchange a token for another of the same class
            let mut lines: Vec<Vec<String>> = t.lines().map(split).collect();
            for _ in 0..1 + r.below(2) {
                let syms: Vec<String> = lines.iter().flatten().filter(|x| x.starts_with(['@', '%'])).cloned().collect();
                let at: Vec<(usize, usize)> = lines
                    .iter()
                    .enumerate()
                    .flat_map(|(i, l)| l.iter().enumerate().filter(|(_, x)| x.len() > 1 || x.chars().all(|c| c.is_ascii_digit())).map(move |(j, _)| (i, j)))
                    .collect();
                if at.is_empty() {
                    break;
                }
                let (i, j) = *r.pick(&at);
                if syms.is_empty() {
                    break;
                }
                let x = lines[i][j].clone();
                lines[i][j] = if x.starts_with(['@', '%']) {
                    match r.below(6) {
                        0 => "1".into(),
                        1 => "undef".into(),
                        _ => r.pick(&syms).clone(),
                    }
                } else if x.parse::<i64>().is_ok() {
                    if r.chance(1, 2) { r.pick(&syms).clone() } else { r.pick(&["0", "1", "2", "undef", "zeroinit", "4294967297"]).to_string() }
                } else {
                    match x.as_str() {
                        "i32" => r.pick(&["*i32", "[i32, 2]", "()", "(i32): i32"]).to_string(),
                        "undef" | "zeroinit" => r.pick(&["1", "undef", "zeroinit", "{1}", "{1, 2}", "{{1}}"]).to_string(),
                        "getptr" => "getelemptr".into(),
                        "getelemptr" => "getptr".into(),
                        "ret" => r.pick(&["ret 1", "ret", "ret undef"]).to_string(),
                        "fun" => "fun".into(),
                        _ => x,
                    }
                };
            }
            lines.iter().map(|l| l.join(" ") + "\n").collect::<String>().into_bytes()
        }
        4 => {
            // exchange, drop or double lines
            let mut l: Vec<&str> = t.lines().collect();
            for _ in 0..1 + r.below(2) {
                if l.is_empty() {
                    break;
                }
                let i = r.below(l.len());
                match r.below(3) {
                    0 => {
                        let j = r.below(l.len());
                        l.swap(i, j);
                    }
                    1 => {
                        l.remove(i);
                    }
                    _ => l.insert(i, l[i]),
                }
                if l.is_empty() {
                    break;
                }
            }
            l.iter().map(|l| l.to_string() + "\n").collect::<String>().into_bytes()
        }
        _ => {
            // arguments added or removed
            let mut lines: Vec<Vec<String>> = t.lines().map(split).collect();
            let at: Vec<(usize, usize)> = lines.iter().enumerate().flat_map(|(i, l)| l.iter().enumerate().filter(|(_, x)| *x == "(" || *x == ",").map(move |(j, _)| (i, j))).collect();
            if !at.is_empty() {
                let (i, j) = *r.pick(&at);
                if r.chance(1, 2) && j + 1 < lines[i].len() && lines[i][j] == "," {
                    lines[i].drain(j..j + 2);
                } else {
                    lines[i].insert(j + 1, ",".into());
                    lines[i].insert(j + 1, r.pick(&["1", "undef", "i32", "%q: i32"]).to_string());
                }
            }
            lines.iter().map(|l| l.join(" ") + "\n").collect::<String>().into_bytes()
        }
    }
}

pub fn run(c: &mut Ctx) {
    c.rule = "random printed programs, the same with symbols, constants, types, arguments or lines exchanged, and random derivations; the outcome and the program are compared with reference static rules".into();
    if std::env::var("REPLAY_VERBOSE").is_err() { mute(); }
    let mut stat = [0u64; 4];
    // long chains of blocks and long functions
    for n in [1000usize, 5000] {
        let mut t = String::from("fun @f(%x: i32): i32 {\n%e:\n  %y = add %x, 1\n  jump %b0\n");
        for i in 0..n {
            t += &format!("%b{i}:\n  jump %b{}\n", i + 1);
        }
        t += &format!("%b{n}:\n  %z = add %x, %y\n  ret %z\n}}\n");
        c.case("long", format!("{n} blocks in a row"), true, || read(t.as_bytes()).map(|_| ()).map_err(|_| "rejected".into()));
    }
    while c.time_left() {
        let s = c.rng.next();
        let mut r = Rng::new(s);
        let t = if r.chance(1, 8) {
            let mut d = derivation(&mut r, 2);
            if r.chance(1, 2) {
                mutate(&mut r, &mut d, 2);
            }
            write_tokens(&mut r, &d)
        } else {
            text(&mut r)
        };
        let d = format!("seed {s}: {:?}", String::from_utf8_lossy(&t[..t.len().min(400)]));
        c.case("text", d, !t.is_empty(), || compare(&t, &mut stat));
    }
    c.rule += &format!(" ({} valid, {} statically wrong, {} not prescribed, {} syntactically wrong)", stat[0], stat[1], stat[2], stat[3]);
}
