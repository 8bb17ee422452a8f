//! Trees and acceptance against the reference grammar.
use crate::ctx::Ctx;
use crate::gen_prog::{Opts, gen_program};
use crate::gen_text::*;
use crate::reffront::{Item, item_of, lex, parse};
use crate::rng::Rng;
use crate::util::{mute, print};
use koopa::front::ast::AstKind;
use koopa::front::lexer::Lexer;
use koopa::front::parser::Parser;
use koopa::front::span::{FileType, Span};

pub fn compare(text: &[u8]) -> Result<(), String> {
    Span::reset(FileType::Buffer);
    let toks = lex(text);
    let want = parse(&toks);
    let show = || String::from_utf8_lossy(&text[..text.len().min(600)]).to_string();
    let mut fatal = false;
    let mut items: Vec<Item> = vec![];
    let limit = toks.len() + 10;
    let mut n = 0;
    match Parser::new(Lexer::new(text)) {
        Err(_) => fatal = true,
        Ok(mut p) => loop {
            n += 1;
            if n > limit {
                return Err(format!("parsing does not make progress\n  text {:?}", show()));
            }
            match p.parse_next() {
                Ok(a) => {
                    if matches!(a.kind, AstKind::End(_)) {
                        break;
                    }
                    match item_of(&a) {
                        Some(i) => items.push(i),
                        None => return Err(format!("malformed tree\n  text {:?}", show())),
                    }
                }
                Err(_) => {
                    fatal = true;
                    break;
                }
            }
        },
    }
    let errs = Span::error_num();
    match want {
        Some(w) => {
            if fatal || errs != 0 {
                return Err(format!("derivable text is rejected\n  text {:?}", show()));
            }
            if w != items {
                return Err(format!("wrong tree\n  text {:?}\n  expected {w:?}\n  got {items:?}", show()));
            }
        }
        None => {
            if errs == 0 && !fatal {
                return Err(format!("text that is not derivable is accepted\n  text {:?}\n  got {items:?}", show()));
            }
            if errs == 0 {
                return Err(format!("failure without a reported error\n  text {:?}", show()));
            }
        }
    }
    Ok(())
}

pub fn run(c: &mut Ctx) {
    c.rule = "random derivations of the grammar, mutated derivations, mutated printed programs and character soup; the syntax tree and acceptance are compared with a reference parser".into();
    mute();
    for (t, d) in [
        ("fun @f() {\n%e:\n".to_string() + &"  %x = add 1, 2\n".repeat(100_000) + "  ret\n}\n", "100000 statements"),
        ("fun @f() {\n".to_string() + &"%e:\n  ret\n".repeat(100_000) + "}\n", "100000 blocks"),
        ("decl @f()\n".repeat(100_000), "100000 declarations"),
        ("} ".repeat(100_000), "100000 stray braces"),
        ("global ".repeat(100_000), "100000 truncated globals"),
        ("fun ".repeat(100_000), "100000 truncated functions"),
        ("fun @f() { ".repeat(30_000), "30000 unclosed functions"),
        (format!("global @x = alloc {}i32, zeroinit", "*".repeat(2000)), "2000 nested pointers"),
        (format!("global @x = alloc {}i32{}, zeroinit", "[".repeat(1000), ", 2]".repeat(1000)), "1000 nested arrays"),
        (format!("global @x = alloc i32, {}1{}", "{".repeat(1000), "}".repeat(1000)), "1000 nested aggregates"),
        ("@ ".repeat(50_000), "50000 lexical errors"),
    ] {
        c.case("long", d.into(), true, || compare(t.as_bytes()).map_err(|e| e.chars().take(300).collect()));
    }
    while c.time_left() {
        let s = c.rng.next();
        let mut r = Rng::new(s);
        let text = match r.below(8) {
            0 => soup(&mut r),
            1 | 2 => {
                let o = Opts { max_funcs: 2, max_bbs: 3, max_insts: 4, ..Opts::text() };
                let p = gen_program(&mut r, &o);
                let t = print(&p);
                if r.chance(1, 2) {
                    t.into_bytes()
                } else {
                    let mut toks: Vec<String> = vec![];
                    for l in t.lines() {
                        toks.extend(split(l));
                        toks.push("\n".into());
                    }
                    let n = 1 + r.below(3);
                    mutate(&mut r, &mut toks, n);
                    write_tokens(&mut r, &toks)
                }
            }
            k => {
                let n = 1 + r.below(3);
                let mut t = derivation(&mut r, n);
                if k > 4 {
                    let n = 1 + r.below(3);
                    mutate(&mut r, &mut t, n);
                }
                write_tokens(&mut r, &t)
            }
        };
        let d = format!("seed {s}: {:?}", String::from_utf8_lossy(&text[..text.len().min(400)]));
        c.case("text", d, !text.is_empty(), || compare(&text));
    }
}

/// splits printed text into token texts
pub fn split(l: &str) -> Vec<String> {
    let mut o: Vec<String> = vec![];
    let mut w = String::new();
    for c in l.chars() {
        if c.is_whitespace() || "(){}[],:=*".contains(c) {
            if !w.is_empty() {
                o.push(std::mem::take(&mut w));
            }
            if !c.is_whitespace() {
                o.push(c.to_string());
            }
        } else {
            w.push(c);
        }
    }
    if !w.is_empty() {
        o.push(w);
    }
    o
}
