//! Tokens and positions against the reference lexer.
use crate::canon::op_name;
use crate::ctx::Ctx;
use crate::gen_text::*;
use crate::reffront::{Tk, Tok, lex};
use crate::rng::Rng;
use crate::util::mute;
use koopa::front::lexer::Lexer;
use koopa::front::span::{FileType, Span};
use koopa::front::token::TokenKind;

/// a reader that hands out a few bytes at a time
pub struct Slow<'a>(pub &'a [u8], pub usize);
impl std::io::Read for Slow<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = self.0.len().min(b.len()).min(self.1.max(1));
        b[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}

pub fn compare(text: &[u8], chunk: usize) -> Result<(), String> {
    Span::reset(FileType::Buffer);
    let want = lex(text);
    let mut lx = Lexer::new(Slow(text, chunk));
    let mut errs = 0;
    for (i, w) in want.iter().enumerate() {
        let got = lx.next_token();
        let at = |m: String| Err(format!("token {i}: {m}\n  text {:?}", String::from_utf8_lossy(&text[..text.len().min(400)])));
        match (&w.k, got) {
            (Tk::Err, Err(_)) => errs += 1,
            (Tk::Err, Ok(t)) => return at(format!("expected an error at {:?}, got {:?}", w.s, t.kind)),
            (k, Err(_)) => return at(format!("expected {k:?}, got an error")),
            (k, Ok(t)) => {
                let same = match (k, &t.kind) {
                    (Tk::Int(a), TokenKind::Int(b)) => a == b,
                    (Tk::Sym(a), TokenKind::Symbol(b)) => a == b,
                    (Tk::Kw(a), TokenKind::Keyword(b)) => *a == b.to_string(),
                    (Tk::Op(a), TokenKind::BinaryOp(b)) => *a == op_name(*b),
                    (Tk::Ch(a), TokenKind::Other(b)) => a == b,
                    (Tk::End, TokenKind::End) => true,
                    _ => false,
                };
                if !same {
                    return at(format!("expected {k:?}, got {:?}", t.kind));
                }
                let Tok { s, e, .. } = w;
                let pos = format!("{}:{}-{}:{}", s.0, s.1, e.0, e.1);
                let got = format!("{:?}", t.span);
                if pos != got {
                    return at(format!("{k:?} is at {pos}, reported {got}"));
                }
            }
        }
    }
    if !matches!(lx.next_token(), Ok(t) if t.kind == TokenKind::End) {
        return Err("no end after the end".into());
    }
    if Span::error_num() != errs {
        return Err(format!("{errs} errors, counted {}\n  text {:?}", Span::error_num(), String::from_utf8_lossy(text)));
    }
    Ok(())
}

pub fn run(c: &mut Ctx) {
    c.rule = "random character soup, derivations of the grammar with random separators and comments, mutated derivations, and very long runs of one construct; tokens and positions compared with a reference lexer".into();
    mute();
    let big = |s: &str, n: usize| s.repeat(n).into_bytes();
    for (t, d) in [
        (big("//\n", 300_000), "300000 line comments"),
        (big("/**/", 300_000), "300000 block comments"),
        (big("/**/ // x\n", 200_000), "200000 mixed comments"),
        (big(" ", 1_000_000), "a million spaces"),
        (big("\n", 1_000_000), "a million lines"),
        ([b"@".to_vec(), big("a", 1_000_000)].concat(), "a symbol of a million characters"),
        ([b"/*".to_vec(), big("*", 1_000_000), b"/".to_vec()].concat(), "a million stars"),
        (big("1", 1_000_000), "an integer of a million digits"),
        (big("/", 100_001), "slashes"),
    ] {
        c.case("long", d.into(), true, || compare(&t, 1 << 20));
    }
    while c.time_left() {
        let s = c.rng.next();
        let mut r = Rng::new(s);
        let text = match r.below(3) {
            0 => soup(&mut r),
            k => {
                let n = 1 + r.below(2);
                let mut t = derivation(&mut r, n);
                if k == 1 {
                    let n = 1 + r.below(4);
                    mutate(&mut r, &mut t, n);
                }
                write_tokens(&mut r, &t)
            }
        };
        let chunk = 1 + r.below(9);
        let d = format!("seed {s}: {:?}", String::from_utf8_lossy(&text[..text.len().min(300)]));
        c.case("text", d, !text.is_empty(), || compare(&text, chunk));
    }
}
