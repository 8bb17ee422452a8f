use crate::ctx::Ctx;
use crate::gen_prog::*;
use crate::oracle::*;
use crate::rng::Rng;
use koopa::ir::builder_traits::*;
use koopa::ir::entities::ValueData;
use koopa::ir::*;

/// one random mutation of the program through the public API
pub fn step(r: &mut Rng, p: &mut Program, log: &mut String) {
    let o = Opts::small();
    let funcs: Vec<Function> = p.func_layout().to_vec();
    let defs: Vec<Function> = funcs.iter().copied().filter(|f| p.func(*f).layout().entry_bb().is_some()).collect();
    let k = r.below(14);
    if k == 0 {
        // a new global
        let t = gen_type(r, 2, &o);
        let c = gen_const(r, &mut G(p), &t, &o, 2);
        let g = p.new_value().global_alloc(c);
        log.push_str(&format!("new global {g:?}; "));
        return;
    }
    if k == 1 {
        let un: Vec<Value> = p.borrow_values().iter().filter(|(_, d)| d.used_by().is_empty()).map(|x| *x.0).collect();
        if !un.is_empty() {
            let mut un = un;
            un.sort_by_key(|v| format!("{v:?}"));
            let v = *r.pick(&un);
            log.push_str(&format!("remove global {v:?}; "));
            p.remove_value(v);
        }
        return;
    }
    if k == 2 && funcs.len() > 1 && r.chance(1, 3) {
        // only a function nobody calls may go
        let called: Vec<Function> = p
            .funcs()
            .values()
            .flat_map(|f| f.dfg().values().values().filter_map(|d| if let ValueKind::Call(c) = d.kind() { Some(c.callee()) } else { None }).collect::<Vec<_>>())
            .collect();
        let c: Vec<Function> = funcs.iter().copied().filter(|f| !called.contains(f)).collect();
        if !c.is_empty() {
            let f = *r.pick(&c);
            log.push_str(&format!("remove function {f:?}; "));
            let d = p.remove_func(f);
            if let (Some(d), true) = (d, r.chance(1, 2)) {
                log.push_str("add it again; ");
                #[allow(deprecated)]
                p.new_func(d);
            }
        }
        return;
    }
    if defs.is_empty() {
        return;
    }
    let f = *r.pick(&defs);
    let mut all: Vec<Value> = p.func(f).dfg().values().keys().copied().collect();
    all.sort_by_key(|v| format!("{v:?}"));
    let ty = |p: &Program, v: Value| {
        if v.is_global() { p.borrow_value(v).ty().clone() } else { p.func(f).dfg().value(v).ty().clone() }
    };
    let mut gl: Vec<Value> = p.borrow_values().keys().copied().collect();
    gl.sort_by_key(|v| format!("{v:?}"));
    if all.is_empty() {
        return;
    }
    let mut cands = all.clone();
    cands.extend(gl.iter().copied());
    let pick_ty = |r: &mut Rng, p: &Program, t: &Type, not: Option<Value>| -> Option<Value> {
        let c: Vec<Value> = cands.iter().copied().filter(|v| Some(*v) != not && &ty(p, *v) == t).collect();
        if c.is_empty() { None } else { Some(*r.pick(&c)) }
    };
    match k {
        3 => {
            // remove an unused local value (not a parameter)
            let c: Vec<Value> = all
                .iter()
                .copied()
                .filter(|v| {
                    let d = p.func(f).dfg().value(*v);
                    d.used_by().is_empty() && !matches!(d.kind(), ValueKind::BlockArgRef(_) | ValueKind::FuncArgRef(_))
                })
                .collect();
            if c.is_empty() {
                return;
            }
            let v = *r.pick(&c);
            log.push_str(&format!("remove {v:?}; "));
            if let Some(bb) = p.func(f).layout().parent_bb(v) {
                p.func_mut(f).layout_mut().bb_mut(bb).insts_mut().remove(&v);
            }
            let d = p.func_mut(f).dfg_mut().remove_value(v);
            if r.chance(1, 4) {
                let n = p.func_mut(f).dfg_mut().new_value().raw(d);
                log.push_str(&format!("re-inserted as {n:?}; "));
            }
        }
        4 => {
            // remove an unreferenced block
            let c: Vec<BasicBlock> = {
                let mut c: Vec<BasicBlock> = p
                    .func(f)
                    .dfg()
                    .bbs()
                    .iter()
                    .filter(|(_, d)| d.used_by().is_empty() && d.params().iter().all(|q| p.func(f).dfg().value(*q).used_by().is_empty()))
                    .map(|x| *x.0)
                    .collect();
                c.sort_by_key(|v| format!("{v:?}"));
                c
            };
            if let Some(b) = c.first().copied() {
                if Some(b) != p.func(f).layout().entry_bb() {
                    log.push_str(&format!("remove block {b:?}; "));
                    p.func_mut(f).layout_mut().bbs_mut().remove(&b);
                    p.func_mut(f).dfg_mut().remove_bb(b);
                }
            }
        }
        5 => {
            let n = r.below(3);
            let tys = (0..n).map(|_| gen_type(r, 1, &o)).collect();
            let b = p.func_mut(f).dfg_mut().new_bb().basic_block_with_params(None, tys);
            log.push_str(&format!("new block {b:?}; "));
        }
        6 | 7 => {
            // replace a value by a binary / load / constant / jump of the same or another type
            let c: Vec<Value> = all.iter().copied().filter(|v| !matches!(p.func(f).dfg().value(*v).kind(), ValueKind::BlockArgRef(_) | ValueKind::FuncArgRef(_))).collect();
            if c.is_empty() {
                return;
            }
            let v = *r.pick(&c);
            let i32t = Type::get_i32();
            match r.below(4) {
                0 => {
                    log.push_str(&format!("replace {v:?} by integer; "));
                    p.func_mut(f).dfg_mut().replace_value_with(v).integer(7);
                }
                1 => {
                    if let (Some(a), Some(b)) = (pick_ty(r, p, &i32t, Some(v)), pick_ty(r, p, &i32t, Some(v))) {
                        log.push_str(&format!("replace {v:?} by add {a:?}, {b:?}; "));
                        p.func_mut(f).dfg_mut().replace_value_with(v).binary(BinaryOp::Add, a, b);
                    }
                }
                2 => {
                    let bbs: Vec<BasicBlock> = p.func(f).layout().bbs().keys().copied().collect();
                    let t = *r.pick(&bbs);
                    let tys: Vec<Type> = p.func(f).dfg().bb(t).params().iter().map(|q| p.func(f).dfg().value(*q).ty().clone()).collect();
                    let args: Option<Vec<Value>> = tys.iter().map(|t| pick_ty(r, p, t, Some(v))).collect();
                    if let Some(args) = args {
                        log.push_str(&format!("replace {v:?} by jump {t:?}({args:?}); "));
                        p.func_mut(f).dfg_mut().replace_value_with(v).jump_with_args(t, args);
                    }
                }
                _ => {
                    let ptrs: Vec<Value> = cands.iter().copied().filter(|x| *x != v && matches!(ty(p, *x).kind(), TypeKind::Pointer(_))).collect();
                    if !ptrs.is_empty() {
                        let s = *r.pick(&ptrs);
                        log.push_str(&format!("replace {v:?} by load {s:?}; "));
                        p.func_mut(f).dfg_mut().replace_value_with(v).load(s);
                    }
                }
            }
        }
        8 | 9 | 10 => {
            // update an operand in place, or overwrite the data
            let v = *r.pick(&all);
            let other = *r.pick(&cands);
            if other == v {
                return;
            }
            let whole = r.chance(1, 6) && !matches!(p.func(f).dfg().value(v).kind(), ValueKind::BlockArgRef(_) | ValueKind::FuncArgRef(_));
            let twice = r.chance(1, 2);
            let bbs: Vec<BasicBlock> = p.func(f).layout().bbs().keys().copied().collect();
            let t = *r.pick(&bbs);
            let clone: Option<ValueData> = if whole {
                let w = *r.pick(&all);
                let d = p.func(f).dfg().value(w);
                if operands(d.kind()).contains(&v) { None } else { Some(d.clone()) }
            } else {
                None
            };
            log.push_str(&format!("update {v:?} with {other:?}{}{}; ", if clone.is_some() { " (overwrite data)" } else { "" }, if twice { " twice" } else { "" }));
            p.func_mut(f).dfg_mut().update_value(v, |d| {
                if let Some(c) = clone {
                    *d = c;
                    return;
                }
                match d.kind_mut() {
                    ValueKind::Binary(b) => {
                        *b.rhs_mut() = other;
                        if twice {
                            *b.lhs_mut() = other;
                        }
                    }
                    ValueKind::Load(l) => *l.src_mut() = other,
                    ValueKind::Store(s) => {
                        *s.value_mut() = other;
                        if twice {
                            *s.dest_mut() = other;
                        }
                    }
                    ValueKind::GetPtr(g) => {
                        *g.index_mut() = other;
                        if twice {
                            *g.src_mut() = other;
                        }
                    }
                    ValueKind::GetElemPtr(g) => {
                        *g.index_mut() = other;
                        if twice {
                            *g.src_mut() = other;
                        }
                    }
                    ValueKind::Branch(b) => {
                        if twice {
                            *b.cond_mut() = other;
                        }
                        *b.true_bb_mut() = t;
                        b.true_args_mut().clear();
                        b.false_args_mut().push(other);
                    }
                    ValueKind::Jump(j) => {
                        *j.target_mut() = t;
                        j.args_mut().clear();
                        if twice {
                            j.args_mut().extend([other, other]);
                        }
                    }
                    ValueKind::Call(c) => {
                        if let Some(a) = c.args_mut().last_mut() {
                            *a = other;
                        }
                    }
                    ValueKind::Return(x) => *x.value_mut() = if twice { Some(other) } else { None },
                    ValueKind::Aggregate(a) => a.elems_mut().push(other),
                    _ => {}
                }
            });
        }
        _ => {
            // a new instruction or constant
            let t = gen_type(r, 2, &o);
            let c = gen_const(r, &mut L(p, f), &t, &o, 2);
            let a = p.func_mut(f).dfg_mut().new_value().alloc(t);
            let s = p.func_mut(f).dfg_mut().new_value().store(c, a);
            log.push_str(&format!("new store {c:?} -> {a:?} = {s:?}; "));
            if r.chance(1, 2) {
                let d = p.func(f).dfg().value(s).clone();
                p.func_mut(f).dfg_mut().new_value().raw(d);
            }
        }
    }
}

/// removing something that is still used is refused (it ends the history:
/// a refused removal leaves the program without the entity)
fn refuses_used(r: &mut Rng, p: &mut Program, log: &mut String) -> Result<(), String> {
    let funcs: Vec<Function> = p.func_layout().to_vec();
    let mut what = vec![];
    for (v, d) in p.borrow_values().iter() {
        if !d.used_by().is_empty() {
            what.push((format!("global value {v:?}"), None, Some(*v), None));
        }
    }
    for &f in &funcs {
        let dfg = p.func(f).dfg();
        for (v, d) in dfg.values() {
            if !d.used_by().is_empty() {
                what.push((format!("value {v:?}"), Some(f), Some(*v), None));
            }
        }
        for (b, d) in dfg.bbs() {
            if !d.used_by().is_empty() || d.params().iter().any(|x| !dfg.value(*x).used_by().is_empty()) {
                // the same weight as all the values together
                for _ in 0..4 {
                    what.push((format!("block {b:?}"), Some(f), None, Some(*b)));
                }
            }
        }
    }
    if what.is_empty() {
        return Ok(());
    }
    what.sort_by(|a, b| a.0.cmp(&b.0));
    let (name, f, v, b) = r.pick(&what).clone();
    log.push_str(&format!("remove {name}, which is used; "));
    let done = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match (f, v, b) {
        (None, Some(v), _) => drop(p.remove_value(v)),
        (Some(f), Some(v), _) => drop(p.func_mut(f).dfg_mut().remove_value(v)),
        (Some(f), _, Some(b)) => drop(p.func_mut(f).dfg_mut().remove_bb(b)),
        _ => {}
    }));
    match done {
        Err(_) => Ok(()),
        Ok(()) => Err(format!("{name} was removed although it, or a parameter of it, is still used\n  history: {log}")),
    }
}

pub fn run(c: &mut Ctx) {
    c.rule = "random programs built through the builders, then 3..40 random edits (create, replace, update in place, overwrite, remove value/block/function/global, re-insert removed data); after every edit the recorded users of every value and block are compared with a from-scratch recomputation; at the end one removal of something still used, which has to be refused".into();
    let mut n = 0u64;
    while c.time_left() {
        n += 1;
        let seed = c.seed.wrapping_mul(1_000_003) ^ n;
        let mut r = Rng::new(seed);
        let k = 3 + r.below(38);
        c.case("def-use", format!("seed {seed}: {k} edits"), true, || {
            let mut p = gen_program(&mut r, &Opts::small());
            check_uses(&p).map_err(|e| format!("after construction: {e}"))?;
            let mut log = String::new();
            for _ in 0..k {
                step(&mut r, &mut p, &mut log);
                check_uses(&p).map_err(|e| format!("{e}\n  history: {log}"))?;
            }
            refuses_used(&mut r, &mut p, &mut log)
        });
    }
}
