use crate::ctx::Ctx;
use crate::gen_prog::*;
use crate::oracle::*;
use crate::rng::Rng;
use koopa::ir::*;
use koopa::ir::entities::ValueData;

fn get<T>(p: &Program, f: Function, v: Value, k: impl FnOnce(&ValueData) -> T) -> T {
    if v.is_global() { k(&p.borrow_value(v)) } else { k(p.func(f).dfg().value(v)) }
}

/// reference: same kind, type, immediate data, targets/callee, and pairwise equal operands
pub fn equal(p: &Program, f: Function, a: Value, b: Value) -> bool {
    let (ta, ka) = get(p, f, a, |d| (d.ty().clone(), d.kind().clone()));
    let (tb, kb) = get(p, f, b, |d| (d.ty().clone(), d.kind().clone()));
    if ta != tb || kind_name(&ka) != kind_name(&kb) {
        return false;
    }
    let imm = match (&ka, &kb) {
        (ValueKind::Integer(x), ValueKind::Integer(y)) => x.value() == y.value(),
        (ValueKind::FuncArgRef(x), ValueKind::FuncArgRef(y)) => x.index() == y.index(),
        (ValueKind::BlockArgRef(x), ValueKind::BlockArgRef(y)) => x.index() == y.index(),
        (ValueKind::Binary(x), ValueKind::Binary(y)) => x.op() == y.op(),
        (ValueKind::Branch(x), ValueKind::Branch(y)) => x.true_args().len() == y.true_args().len() && x.false_args().len() == y.false_args().len(),
        (ValueKind::Call(x), ValueKind::Call(y)) => x.callee() == y.callee(),
        _ => true,
    };
    let (oa, ob) = (operands(&ka), operands(&kb));
    imm && targets(&ka) == targets(&kb) && oa.len() == ob.len() && oa.iter().zip(&ob).all(|(x, y)| equal(p, f, *x, *y))
}

pub fn run(c: &mut Ctx) {
    c.rule = "all pairs of values (sampled) of random functions with near-duplicate values: reported lexical equality against an independent recursive definition; reflexivity and symmetry".into();
    let mut n = 0u64;
    while c.time_left() {
        n += 1;
        let seed = c.seed.wrapping_mul(1_000_003) ^ n;
        let mut r = Rng::new(seed);
        let mut p = match crate::ctx::quiet(|| gen_program(&mut r, &Opts { max_insts: 10, ..Opts::small() })) {
            Ok(p) => p,
            Err(e) => {
                c.fail("value-eq", format!("building a valid program panicked: {e} (seed {seed})"));
                continue;
            }
        };
        for f in p.func_layout().to_vec() {
            // near duplicates: copies with one small change
            let all: Vec<Value> = p.func(f).dfg().values().keys().copied().collect();
            for v in all {
                use koopa::ir::builder_traits::*;
                let d = p.func(f).dfg().value(v).clone();
                let dfg = p.func_mut(f).dfg_mut();
                let w = dfg.new_value().raw(d);
                let ops = operands(dfg.value(w).kind());
                let j = r.below(3);
                if j == 0 && !ops.is_empty() {
                    // replace one operand by a copy of it: must stay equal
                    let o = *r.pick(&ops);
                    if !o.is_global() {
                        let od = dfg.value(o).clone();
                        let o2 = dfg.new_value().raw(od);
                        dfg.update_value(w, |d| replace(d.kind_mut(), o, o2));
                    }
                } else if j == 1 {
                    let other = dfg.new_value().integer(r.int());
                    dfg.update_value(w, |d| match d.kind_mut() {
                        ValueKind::Branch(b) => {
                            if r.chance(1, 2) {
                                let t = b.true_bb();
                                *b.true_bb_mut() = b.false_bb();
                                *b.false_bb_mut() = t;
                            } else if let Some(x) = b.true_args_mut().pop() {
                                b.false_args_mut().insert(0, x);
                            }
                        }
                        ValueKind::Binary(b) => {
                            if r.chance(1, 2) {
                                *b.op_mut() = OPS[r.below(17)];
                            } else {
                                *b.rhs_mut() = other;
                            }
                        }
                        ValueKind::Integer(i) => *i.value_mut() = r.int(),
                        ValueKind::Jump(j) => {
                            j.args_mut().pop();
                        }
                        ValueKind::Call(x) => {
                            x.args_mut().pop();
                        }
                        ValueKind::Return(x) => *x.value_mut() = if r.chance(1, 2) { None } else { Some(other) },
                        ValueKind::Aggregate(a) => {
                            a.elems_mut().pop();
                        }
                        ValueKind::FuncArgRef(a) => *a.index_mut() = r.below(3),
                        ValueKind::BlockArgRef(a) => *a.index_mut() = r.below(3),
                        ValueKind::Store(s) => *s.value_mut() = other,
                        _ => {}
                    });
                }
            }
            let mut all: Vec<Value> = p.func(f).dfg().values().keys().copied().collect();
            all.sort_by_key(|v| format!("{v:?}"));
            all.extend(p.borrow_values().keys().copied());
            for _ in 0..all.len() * 4 {
                let a = *r.pick(&all);
                // prefer pairs of the same kind
                let mut b = *r.pick(&all);
                for _ in 0..6 {
                    if get(&p, f, a, |d| kind_name(d.kind())) == get(&p, f, b, |d| kind_name(d.kind())) {
                        break;
                    }
                    b = *r.pick(&all);
                }
                let desc = format!("{:?} / {:?}", get(&p, f, a, |d| d.kind().clone()), get(&p, f, b, |d| d.kind().clone()));
                let nt = a != b;
                let pp = &p;
                c.case("value-eq", desc, nt, || {
                    let dfg = pp.func(f).dfg();
                    let want = equal(pp, f, a, b);
                    if dfg.value_eq(a, b) != want {
                        return Err(format!("reported {}, expected {want}", !want));
                    }
                    if dfg.value_eq(b, a) != want {
                        return Err("not symmetric".into());
                    }
                    if !dfg.value_eq(a, a) {
                        return Err("not reflexive".into());
                    }
                    Ok(())
                });
            }
        }
    }
}

fn replace(k: &mut ValueKind, o: Value, n: Value) {
    let r = |x: &mut Value| {
        if *x == o {
            *x = n
        }
    };
    match k {
        ValueKind::Aggregate(a) => a.elems_mut().iter_mut().for_each(r),
        ValueKind::Load(a) => r(a.src_mut()),
        ValueKind::Store(a) => {
            r(a.value_mut());
            r(a.dest_mut())
        }
        ValueKind::GetPtr(a) => {
            r(a.src_mut());
            r(a.index_mut())
        }
        ValueKind::GetElemPtr(a) => {
            r(a.src_mut());
            r(a.index_mut())
        }
        ValueKind::Binary(a) => {
            r(a.lhs_mut());
            r(a.rhs_mut())
        }
        ValueKind::Branch(a) => {
            r(a.cond_mut());
            a.true_args_mut().iter_mut().for_each(r);
            a.false_args_mut().iter_mut().for_each(r);
        }
        ValueKind::Jump(a) => a.args_mut().iter_mut().for_each(r),
        ValueKind::Call(a) => a.args_mut().iter_mut().for_each(r),
        ValueKind::Return(a) => {
            if a.value() == Some(o) {
                *a.value_mut() = Some(n)
            }
        }
        _ => {}
    }
}
