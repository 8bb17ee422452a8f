//! Print, read back, print again.
use crate::canon::{Mode, canon};
use crate::ctx::Ctx;
use crate::gen_prog::{Opts, gen_program};
use crate::rng::Rng;
use crate::util::{mute, print, read};

pub fn run(c: &mut Ctx) {
    c.rule = "random well-formed programs (functions, globals, loops, block parameters, arrays, function pointers, odd names): print, read, compare structure, print again".into();
    mute();
    let m = Mode { bfs: true, sort_funcs: false, names: false };
    let mn = Mode { names: true, ..m };
    let mut i = 0u64;
    while c.time_left() {
        i += 1;
        let s = c.rng.next();
        let mut r = Rng::new(s);
        let o = Opts {
            max_funcs: 1 + r.below(3),
            max_bbs: *r.pick(&[1, 3, 6, 12]),
            max_insts: *r.pick(&[2, 5, 10]),
            named: *r.pick(&[0, 30, 60, 100]),
            odd_names: r.chance(1, 4),
            ..Opts::text()
        };
        let p = gen_program(&mut r, &o);
        let odd = o.odd_names;
        let desc = format!("seed {s} {o:?}");
        c.case("roundtrip", desc, true, || {
            let t1 = print(&p);
            let q = read(t1.as_bytes()).map_err(|_| format!("printed text rejected:\n{t1}"))?;
            let (a, b) = (canon(&p, m), canon(&q, m));
            if a != b {
                return Err(format!("different program:\n{t1}\n--- built\n{a}\n--- read\n{b}"));
            }
            if !odd {
                // explicit names are kept whenever they are free; programs here may reuse a name,
                // so only compare when the printer did not have to rename
                let (a, b) = (canon(&p, mn), canon(&q, mn));
                if a != b && !has_dup(&a) {
                    return Err(format!("different names:\n{t1}\n--- built\n{a}\n--- read\n{b}"));
                }
            }
            crate::util::failing_writes(&p, false, &mut r, 3)?;
            let t2 = print(&q);
            let q2 = read(t2.as_bytes()).map_err(|_| format!("reprinted text rejected:\n{t2}"))?;
            if canon(&q, mn) != canon(&q2, mn) {
                return Err(format!("names change on the second reading:\n{t2}"));
            }
            let t3 = print(&q2);
            if t2 != t3 {
                return Err(format!("reprinting changes the text:\n{t2}\n---\n{t3}"));
            }
            if !odd && crate::canon::layout_is_bfs(&p) && t1 != t2 {
                return Err(format!("printing the result gives another text:\n{t1}\n---\n{t2}"));
            }
            Ok(())
        });
    }
    let _ = i;
}

/// does the canonical text mention a name twice (within the program, which is coarser than needed)
fn has_dup(t: &str) -> bool {
    let mut seen = std::collections::HashSet::new();
    let mut it = t.split('\'');
    it.next();
    while let Some(n) = it.next() {
        if !seen.insert(n) {
            return true;
        }
        it.next();
    }
    false
}
