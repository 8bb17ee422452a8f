use crate::ctx::Ctx;
use crate::rng::Rng;
use koopa::ir::builder_traits::*;
use koopa::ir::*;

/// model: ordered blocks, each with its ordered instructions
type Model = Vec<(BasicBlock, Vec<Value>)>;

fn check(p: &Program, f: Function, m: &Model, all: &[Value]) -> Result<(), String> {
    let l = p.func(f).layout();
    let got: Vec<BasicBlock> = l.bbs().keys().copied().collect();
    let want: Vec<BasicBlock> = m.iter().map(|x| x.0).collect();
    if got != want {
        return Err(format!("block order {got:?}, expected {want:?}"));
    }
    if l.entry_bb() != want.first().copied() {
        return Err(format!("entry block {:?}, expected {:?}", l.entry_bb(), want.first()));
    }
    if l.bbs().len() != want.len() {
        return Err("block count".into());
    }
    for (b, is) in m {
        let node = l.bbs().node(b).ok_or("block without node")?;
        let got: Vec<Value> = node.insts().keys().copied().collect();
        if &got != is {
            return Err(format!("instruction order in {b:?}: {got:?}, expected {is:?}"));
        }
        if node.insts().len() != is.len() {
            return Err("instruction count".into());
        }
    }
    for v in all {
        // an instruction listed in several blocks at once has no single parent to report
        let ps: Vec<BasicBlock> = m.iter().filter(|x| x.1.contains(v)).map(|x| x.0).collect();
        let got = l.parent_bb(*v);
        let ok = match ps.len() {
            0 => got.is_none(),
            1 => got == Some(ps[0]),
            _ => got.is_some_and(|b| ps.contains(&b)),
        };
        if !ok {
            return Err(format!("parent of {v:?} reported {got:?}, listed in {ps:?}"));
        }
    }
    Ok(())
}

pub fn run(c: &mut Ctx) {
    c.rule = "random histories of 5..50 layout edits (push/insert/remove/clear of blocks and instructions, moves, duplicate insertions) against a model of ordered lists; order, entry block and the parent of every instruction are compared after each edit".into();
    let mut n = 0u64;
    while c.time_left() {
        n += 1;
        let seed = c.seed.wrapping_mul(1_000_003) ^ n;
        let mut r = Rng::new(seed);
        let k = 5 + r.below(46);
        c.case("layout", format!("seed {seed}: {k} layout edits"), true, || {
            let mut p = Program::new();
            let f = p.new_func_def("@f".into(), vec![], Type::get_unit());
            let bbs: Vec<BasicBlock> = (0..4).map(|_| p.func_mut(f).dfg_mut().new_bb().basic_block(None)).collect();
            let vals: Vec<Value> = (0..7).map(|_| p.func_mut(f).dfg_mut().new_value().alloc(Type::get_i32())).collect();
            let mut m: Model = vec![];
            let mut log = String::new();
            for _ in 0..k {
                let b = *r.pick(&bbs);
                let v = *r.pick(&vals);
                let pos = m.iter().position(|x| x.0 == b);
                let l = p.func_mut(f).layout_mut();
                match r.below(12) {
                    0 | 1 => {
                        log.push_str(&format!("push_back {b:?}; "));
                        let res = l.bbs_mut().push_key_back(b);
                        if res.is_ok() != pos.is_none() {
                            return Err(format!("push_key_back of {} block gave {res:?}\n  history: {log}", if pos.is_some() { "a present" } else { "an absent" }));
                        }
                        if pos.is_none() {
                            m.push((b, vec![]));
                        }
                    }
                    2 => {
                        log.push_str(&format!("push_front {b:?}; "));
                        let res = l.bbs_mut().push_key_front(b);
                        if res.is_ok() != pos.is_none() {
                            return Err(format!("push_key_front result {res:?}\n  history: {log}"));
                        }
                        if pos.is_none() {
                            m.insert(0, (b, vec![]));
                        }
                    }
                    3 => {
                        // insert before / after an existing block
                        if let (Some(a), None) = (m.first().map(|_| r.below(m.len())), pos) {
                            let anchor = m[a].0;
                            log.push_str(&format!("insert {b:?} next to {anchor:?}; "));
                            let mut cur = l.bbs_mut().cursor_mut(anchor);
                            if r.chance(1, 2) {
                                cur.insert_key_before(b).map_err(|_| "insert before".to_string())?;
                                m.insert(a, (b, vec![]));
                            } else {
                                cur.insert_key_after(b).map_err(|_| "insert after".to_string())?;
                                m.insert(a + 1, (b, vec![]));
                            }
                        }
                    }
                    4 => {
                        log.push_str(&format!("remove block {b:?}; "));
                        let res = l.bbs_mut().remove(&b);
                        if res.is_some() != pos.is_some() {
                            return Err(format!("remove of block gave {}\n  history: {log}", res.is_some()));
                        }
                        if let Some(i) = pos {
                            m.remove(i);
                        }
                    }
                    5 | 6 | 7 => {
                        if let Some(i) = pos {
                            log.push_str(&format!("{v:?} into {b:?}; "));
                            let here = m[i].1.contains(&v);
                            if !here && m.iter().any(|x| x.1.contains(&v)) {
                                continue; // never in two blocks at once
                            }
                            let front = r.chance(1, 3);
                            let il = l.bb_mut(b).insts_mut();
                            let res = if front { il.push_key_front(v) } else { il.push_key_back(v) };
                            if res.is_ok() == here {
                                return Err(format!("insertion result {res:?}\n  history: {log}"));
                            }
                            if !here {
                                if front { m[i].1.insert(0, v) } else { m[i].1.push(v) }
                            }
                        }
                    }
                    8 => {
                        if let Some(i) = pos {
                            if !m[i].1.is_empty() && !m.iter().any(|x| x.1.contains(&v)) {
                                let a = r.below(m[i].1.len());
                                let anchor = m[i].1[a];
                                log.push_str(&format!("{v:?} next to {anchor:?} in {b:?}; "));
                                let mut cur = l.bb_mut(b).insts_mut().cursor_mut(anchor);
                                if r.chance(1, 2) {
                                    cur.insert_key_before(v).map_err(|_| "insert before".to_string())?;
                                    m[i].1.insert(a, v);
                                } else {
                                    cur.insert_key_after(v).map_err(|_| "insert after".to_string())?;
                                    m[i].1.insert(a + 1, v);
                                }
                            }
                        }
                    }
                    9 | 10 => {
                        if let Some(i) = pos {
                            log.push_str(&format!("remove {v:?} from {b:?}; "));
                            let j = m[i].1.iter().position(|x| *x == v);
                            let res = l.bb_mut(b).insts_mut().remove(&v);
                            if res.is_some() != j.is_some() {
                                return Err(format!("removal result {}\n  history: {log}", res.is_some()));
                            }
                            if let Some(j) = j {
                                m[i].1.remove(j);
                            }
                        }
                    }
                    _ => {
                        if let Some(i) = pos {
                            if r.chance(1, 5) {
                                log.push_str("clear blocks; ");
                                l.bbs_mut().clear();
                                m.clear();
                            } else {
                                log.push_str(&format!("clear {b:?}; "));
                                l.bb_mut(b).insts_mut().clear();
                                m[i].1.clear();
                            }
                        }
                    }
                }
                check(&p, f, &m, &vals).map_err(|e| format!("{e}\n  history: {log}"))?;
            }
            Ok(())
        });
    }
}
