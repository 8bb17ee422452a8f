use crate::ctx::Ctx;
use crate::rng::Rng;
use koopa::ir::builder_traits::*;
use koopa::ir::*;
use std::collections::HashSet;
use std::sync::Mutex;

pub fn run(c: &mut Ctx) {
    c.rule = "handles created by 1..6 threads building separate programs at once: all function, block and value handles distinct across threads, global/local classification right".into();
    let mut n = 0u64;
    // raw identifiers, per entity class; Function, BasicBlock and Value debug-print their number
    let seen: Mutex<[HashSet<String>; 3]> = Mutex::new([HashSet::new(), HashSet::new(), HashSet::new()]);
    while c.time_left() {
        n += 1;
        let seed = c.seed.wrapping_mul(1_000_003) ^ n;
        let mut r = Rng::new(seed);
        let nt = 1 + r.below(6);
        let k = 20 + r.below(60);
        let desc = format!("seed {seed}: {nt} threads, {k} entities each");
        if seen.lock().unwrap()[2].len() > 2_000_000 {
            seen.lock().unwrap().iter_mut().for_each(|s| s.clear());
        }
        c.case("handles", desc, true, || {
            let res: Vec<Result<Vec<(usize, String)>, String>> = std::thread::scope(|s| {
                let hs: Vec<_> = (0..nt)
                    .map(|t| {
                        s.spawn(move || {
                            let mut r = Rng::new(seed ^ (t as u64) << 32);
                            let mut p = Program::new();
                            let mut out = vec![];
                            let f = p.new_func_def("@f".into(), vec![Type::get_i32()], Type::get_unit());
                            out.push((0, format!("{f:?}")));
                            out.push((2, format!("{:?}", p.func(f).params()[0])));
                            for _ in 0..k {
                                match r.below(5) {
                                    0 => {
                                        let g = p.new_func_decl("@g".into(), vec![], Type::get_unit());
                                        out.push((0, format!("{g:?}")));
                                    }
                                    1 => {
                                        let b = p.func_mut(f).dfg_mut().new_bb().basic_block(None);
                                        out.push((1, format!("{b:?}")));
                                    }
                                    2 => {
                                        let i = p.new_value().integer(1);
                                        let g = p.new_value().global_alloc(i);
                                        if !i.is_global() || !g.is_global() {
                                            return Err(format!("program-level value {i:?}/{g:?} not classified as global"));
                                        }
                                        out.push((2, format!("{i:?}")));
                                        out.push((2, format!("{g:?}")));
                                    }
                                    _ => {
                                        let i = p.func_mut(f).dfg_mut().new_value().integer(1);
                                        if i.is_global() {
                                            return Err(format!("function-level value {i:?} classified as global"));
                                        }
                                        out.push((2, format!("{i:?}")));
                                    }
                                }
                            }
                            Ok(out)
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("thread panicked".into()))).collect()
            });
            let mut s = seen.lock().unwrap();
            for x in res {
                for (cl, id) in x? {
                    if !s[cl].insert(id.clone()) {
                        return Err(format!("handle {id} handed out twice"));
                    }
                }
            }
            Ok(())
        });
    }
}
