//! Counting of errors and warnings, and robustness of reporting them.
use crate::ctx::{Ctx, panic_text};
use crate::gen_text::*;
use crate::rng::Rng;
use crate::util::Capture;
use koopa::front::Driver;
use koopa::front::span::{FileType, Pos, Span};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::PathBuf;

fn lines_with(t: &[u8], p: &[u8]) -> usize {
    t.split(|c| *c == b'\n').filter(|l| l.starts_with(p)).count()
}

/// one reader over `text`, from a file or from memory
fn driver(text: &[u8], path: Option<&PathBuf>, cap: &mut Capture) -> Result<(), String> {
    if let Some(p) = path {
        std::fs::write(p, text).map_err(|e| e.to_string())?;
    }
    cap.take();
    let ok = catch_unwind(AssertUnwindSafe(|| match path {
        Some(p) => Driver::from_path(p.clone()).unwrap().generate_program().is_ok(),
        None => Driver::new(FileType::Buffer, text).generate_program().is_ok(),
    }))
    .map_err(|p| format!("panicked: {}", panic_text(p)))?;
    let out = cap.take();
    let (e, w) = (lines_with(&out, b"error: "), lines_with(&out, b"warning: "));
    let (en, wn) = (Span::error_num(), Span::warning_num());
    let log = String::from_utf8_lossy(&out).chars().take(600).collect::<String>();
    if e != en || w != wn {
        return Err(format!("{e} errors and {w} warnings were reported, counted {en} and {wn}\n{log}"));
    }
    if ok != (e == 0) {
        return Err(format!("reported {e} errors, result is {}\n{log}", if ok { "success" } else { "failure" }));
    }
    // the summary names the same numbers
    if e + w > 0 && !String::from_utf8_lossy(&out).contains("too many errors") {
        let s = String::from_utf8_lossy(&out).trim_end().lines().last().unwrap_or("").to_string();
        let pl = |n: usize, w: &str| if n == 1 { format!("1 {w}") } else { format!("{n} {w}s") };
        let want = match (e, w) {
            (0, w) => format!("{} emitted", pl(w, "warning")),
            (e, 0) => format!("{} emitted", pl(e, "error")),
            (e, w) => format!("{} and {} emitted", pl(e, "error"), pl(w, "warning")),
        };
        // a syntax error that stops reading comes without a summary
        if s.ends_with("emitted") && s != want {
            return Err(format!("summary {s:?}, expected {want:?}"));
        }
    }
    Ok(())
}

/// direct reports at arbitrary places of a file
fn direct(r: &mut Rng, path: &PathBuf) -> Result<(), String> {
    let nl = r.below(12);
    let mut t: Vec<u8> = vec![];
    for _ in 0..nl {
        let n = if r.chance(1, 40) { 70_000 } else { r.below(20) };
        for _ in 0..n {
            match r.below(8) {
                0 => t.push(b'\t'),
                1 => t.extend("é".as_bytes()),
                2 => t.push(r.next() as u8),
                _ => t.push(b'x'),
            }
        }
        t.extend(*r.pick(&[&b"\n"[..], b"\r\n"]));
    }
    std::fs::write(path, &t).map_err(|e| e.to_string())?;
    Span::reset(match r.below(3) {
        0 => FileType::Buffer,
        1 => FileType::Stdin,
        _ => FileType::File(path.clone()),
    });
    let (mut e, mut w) = (0, 0);
    for _ in 0..1 + r.below(6) {
        let mut p = Pos::new();
        let k = r.below(t.len() + 3);
        for i in 0..k {
            p.update(t.get(i).map_or('x', |c| *c as char));
        }
        let a = p;
        let m = if r.chance(1, 2) { 6 } else { t.len() + 40 };
        let j = r.below(m);
        for i in k..k + j {
            p.update(t.get(i).map_or('x', |c| *c as char));
        }
        let s = Span::new(a).into_updated(p);
        match r.below(6) {
            0 => {
                e += 1;
                if s.log_error(format_args!("m")).is_fatal() {
                    return Err("an error became fatal".into());
                }
            }
            1 => {
                e += 1;
                if !s.log_fatal_error(format_args!("m")).is_fatal() {
                    return Err("a fatal error is not fatal".into());
                }
            }
            2 => {
                w += 1;
                s.log_warning(format_args!("m"));
            }
            3 => {
                e += 1;
                let _ = Span::log_raw_error(format_args!("m"));
            }
            4 => {
                e += 1;
                if !Span::log_raw_fatal_error(format_args!("m")).is_fatal() {
                    return Err("a fatal error is not fatal".into());
                }
            }
            _ => {
                w += 1;
                Span::log_raw_warning(format_args!("m"));
            }
        }
        if (Span::error_num(), Span::warning_num()) != (e, w) {
            return Err(format!("{e} errors and {w} warnings reported, counted {} and {}", Span::error_num(), Span::warning_num()));
        }
    }
    Span::log_global();
    Ok(())
}

pub fn run(c: &mut Ctx) {
    c.rule = "random valid and invalid texts read from memory and from files, with the reports on the error stream counted; direct reports at random places of random files".into();
    // SAFETY: the only thread that reads the environment is this one
    unsafe { std::env::set_var("NO_COLOR", "1") };
    let dir = std::env::temp_dir().join(format!("replay-c17-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let path = dir.join("in.koopa");
    let mut cap = Capture::new();
    let long = format!("global @x = alloc i32, {} oops oops\nfun @f() {{ %e: ret }} fun", " ".repeat(70_000));
    for (t, d) in [
        ("@ ".repeat(100).into_bytes(), "100 lexical errors"),
        ("decl @f()\n".repeat(40).into_bytes(), "39 redefinitions"),
        ("decl @f()\n".repeat(22).into_bytes(), "21 redefinitions"),
        ("decl @f()\n".repeat(21).into_bytes(), "20 redefinitions"),
        (long.into_bytes(), "an error in a very long line"),
        ("fun @f() {\n%e:\n  ret\n%u:\n  ret\n}\n".repeat(1).into_bytes(), "one warning"),
        (vec![], "empty"),
    ] {
        for f in [None, Some(&path)] {
            c.case("fixed", format!("{d}, {}", if f.is_some() { "file" } else { "buffer" }), true, || driver(&t, f, &mut cap));
        }
    }
    while c.time_left() {
        let s = c.rng.next();
        let mut r = Rng::new(s);
        if r.chance(1, 3) {
            c.case("direct", format!("direct reports, seed {s}"), true, || direct(&mut r, &path));
            cap.take();
            continue;
        }
        let t = match r.below(4) {
            0 => soup(&mut r),
            1 => crate::c09::text(&mut r),
            _ => {
                let n = 1 + r.below(3);
                let mut t = derivation(&mut r, n);
                let n = r.below(4);
                mutate(&mut r, &mut t, n);
                let mut t = write_tokens(&mut r, &t);
                if r.chance(1, 4) {
                    t.extend(crate::c09::text(&mut r));
                }
                t
            }
        };
        let f = if r.chance(1, 2) { Some(&path) } else { None };
        let d = format!("seed {s} {}: {:?}", if f.is_some() { "file" } else { "buffer" }, String::from_utf8_lossy(&t[..t.len().min(300)]));
        c.case("text", d, !t.is_empty(), || driver(&t, f, &mut cap));
    }
    drop(cap);
    let _ = std::fs::remove_dir_all(&dir);
}
