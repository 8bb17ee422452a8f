use crate::ctx::Ctx;
use crate::gen_prog::*;
use crate::oracle::*;
use crate::rng::Rng;
use koopa::ir::*;

fn is_const(k: &ValueKind) -> bool {
    matches!(kind_name(k), "integer" | "zeroinit" | "undef" | "aggregate")
}
fn is_local_inst(k: &ValueKind) -> bool {
    matches!(kind_name(k), "alloc" | "load" | "store" | "getptr" | "getelemptr" | "binary" | "branch" | "jump" | "call" | "return")
}

/// the operands and targets as the `*_mut` accessors give them
fn in_place(mut k: ValueKind) -> (Vec<Value>, Vec<BasicBlock>) {
    match &mut k {
        ValueKind::Aggregate(a) => (a.elems_mut().clone(), vec![]),
        ValueKind::GlobalAlloc(a) => (vec![*a.init_mut()], vec![]),
        ValueKind::Load(a) => (vec![*a.src_mut()], vec![]),
        ValueKind::Store(a) => (vec![*a.value_mut(), *a.dest_mut()], vec![]),
        ValueKind::GetPtr(a) => (vec![*a.src_mut(), *a.index_mut()], vec![]),
        ValueKind::GetElemPtr(a) => (vec![*a.src_mut(), *a.index_mut()], vec![]),
        ValueKind::Binary(a) => (vec![*a.lhs_mut(), *a.rhs_mut()], vec![]),
        ValueKind::Branch(a) => {
            let mut v = vec![*a.cond_mut()];
            v.extend(a.true_args_mut().clone());
            v.extend(a.false_args_mut().clone());
            (v, vec![*a.true_bb_mut(), *a.false_bb_mut()])
        }
        ValueKind::Jump(a) => (a.args_mut().clone(), vec![*a.target_mut()]),
        ValueKind::Call(a) => (a.args_mut().clone(), vec![]),
        ValueKind::Return(a) => (a.value_mut().into_iter().map(|v| *v).collect(), vec![]),
        _ => (vec![], vec![]),
    }
}

pub fn run(c: &mut Ctx) {
    c.rule = "every value of random programs: the enumerated operands and branch targets against the field accessors, exhaustion stays exhausted, the in-place accessors give the same, and the three kind classifications".into();
    let mut n = 0u64;
    while c.time_left() {
        n += 1;
        let seed = c.seed.wrapping_mul(1_000_003) ^ n;
        let mut r = Rng::new(seed);
        let p = match crate::ctx::quiet(|| gen_program(&mut r, &Opts { max_insts: 12, ..Opts::small() })) {
            Ok(p) => p,
            Err(e) => {
                c.fail("operands", format!("building a valid program panicked: {e} (seed {seed})"));
                continue;
            }
        };
        let check = |c: &mut Ctx, k: &ValueKind| {
            c.case("operands", format!("{k:?}"), true, || {
                let want = operands(k);
                let mut it = k.value_uses();
                let mut got = vec![];
                for _ in 0..want.len() + 2 {
                    match it.next() {
                        Some(v) => got.push(v),
                        None => break,
                    }
                }
                if got != want {
                    return Err(format!("operands enumerated {got:?}, fields hold {want:?}"));
                }
                for _ in 0..3 {
                    if let Some(v) = it.next() {
                        return Err(format!("operand {v:?} after the end"));
                    }
                }
                let want = targets(k);
                let mut it = k.bb_uses();
                let mut got = vec![];
                for _ in 0..want.len() + 2 {
                    match it.next() {
                        Some(v) => got.push(v),
                        None => break,
                    }
                }
                if got != want {
                    return Err(format!("targets enumerated {got:?}, fields hold {want:?}"));
                }
                for _ in 0..3 {
                    if let Some(v) = it.next() {
                        return Err(format!("target {v:?} after the end"));
                    }
                }
                let (v, b) = in_place(k.clone());
                if v != operands(k) || b != targets(k) {
                    return Err(format!("changing in place sees operands {v:?} and targets {b:?}"));
                }
                if k.is_const() != is_const(k) {
                    return Err(format!("is_const is {}", k.is_const()));
                }
                if k.is_local_inst() != is_local_inst(k) {
                    return Err(format!("is_local_inst is {}", k.is_local_inst()));
                }
                if k.is_global_alloc() != (kind_name(k) == "global-alloc") {
                    return Err(format!("is_global_alloc is {}", k.is_global_alloc()));
                }
                Ok(())
            });
        };
        for f in p.func_layout() {
            for d in p.func(*f).dfg().values().values() {
                check(c, d.kind());
            }
        }
        for d in p.borrow_values().values() {
            check(c, d.kind());
        }
    }
}
