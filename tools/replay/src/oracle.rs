//! Independent definitions used as oracles.
use koopa::ir::*;
use koopa::ir::entities::ValueData;
use std::collections::{HashMap, HashSet};

/// operands, written from the field accessors (not from the crate's own iterators)
pub fn operands(k: &ValueKind) -> Vec<Value> {
    match k {
        ValueKind::Integer(_) | ValueKind::ZeroInit(_) | ValueKind::Undef(_) | ValueKind::FuncArgRef(_) | ValueKind::BlockArgRef(_) | ValueKind::Alloc(_) => vec![],
        ValueKind::Aggregate(a) => a.elems().to_vec(),
        ValueKind::GlobalAlloc(a) => vec![a.init()],
        ValueKind::Load(a) => vec![a.src()],
        ValueKind::Store(a) => vec![a.value(), a.dest()],
        ValueKind::GetPtr(a) => vec![a.src(), a.index()],
        ValueKind::GetElemPtr(a) => vec![a.src(), a.index()],
        ValueKind::Binary(a) => vec![a.lhs(), a.rhs()],
        ValueKind::Branch(a) => {
            let mut v = vec![a.cond()];
            v.extend(a.true_args());
            v.extend(a.false_args());
            v
        }
        ValueKind::Jump(a) => a.args().to_vec(),
        ValueKind::Call(a) => a.args().to_vec(),
        ValueKind::Return(a) => a.value().into_iter().collect(),
    }
}

pub fn targets(k: &ValueKind) -> Vec<BasicBlock> {
    match k {
        ValueKind::Branch(a) => vec![a.true_bb(), a.false_bb()],
        ValueKind::Jump(a) => vec![a.target()],
        _ => vec![],
    }
}

pub fn kind_name(k: &ValueKind) -> &'static str {
    match k {
        ValueKind::Integer(_) => "integer",
        ValueKind::ZeroInit(_) => "zeroinit",
        ValueKind::Undef(_) => "undef",
        ValueKind::FuncArgRef(_) => "func-arg",
        ValueKind::BlockArgRef(_) => "block-arg",
        ValueKind::Alloc(_) => "alloc",
        ValueKind::Aggregate(_) => "aggregate",
        ValueKind::GlobalAlloc(_) => "global-alloc",
        ValueKind::Load(_) => "load",
        ValueKind::Store(_) => "store",
        ValueKind::GetPtr(_) => "getptr",
        ValueKind::GetElemPtr(_) => "getelemptr",
        ValueKind::Binary(_) => "binary",
        ValueKind::Branch(_) => "branch",
        ValueKind::Jump(_) => "jump",
        ValueKind::Call(_) => "call",
        ValueKind::Return(_) => "return",
    }
}

/// recomputes the definition-use chains of the whole program from scratch and compares
pub fn check_uses(p: &Program) -> Result<(), String> {
    let mut vu: HashMap<Value, HashSet<Value>> = HashMap::new();
    let globals = p.borrow_values();
    let mut add = |h: Value, d: &ValueData| {
        for o in operands(d.kind()) {
            vu.entry(o).or_default().insert(h);
        }
    };
    for (h, d) in globals.iter() {
        add(*h, d);
    }
    for f in p.funcs().values() {
        for (h, d) in f.dfg().values() {
            add(*h, d);
        }
    }
    let empty = HashSet::new();
    for (h, d) in globals.iter() {
        let want = vu.get(h).unwrap_or(&empty);
        if d.used_by() != want {
            return Err(format!("global {:?} ({}): recorded users {:?}, actual users {:?}", h, kind_name(d.kind()), d.used_by(), want));
        }
    }
    for f in p.funcs().values() {
        let mut bu: HashMap<BasicBlock, HashSet<Value>> = HashMap::new();
        for (h, d) in f.dfg().values() {
            for t in targets(d.kind()) {
                bu.entry(t).or_default().insert(*h);
            }
        }
        for (h, d) in f.dfg().values() {
            let want = vu.get(h).unwrap_or(&empty);
            if d.used_by() != want {
                return Err(format!("value {:?} ({}): recorded users {:?}, actual users {:?}", h, kind_name(d.kind()), d.used_by(), want));
            }
        }
        for (b, d) in f.dfg().bbs() {
            let want = bu.get(b).unwrap_or(&empty);
            if d.used_by() != want {
                return Err(format!("block {:?}: recorded users {:?}, actual users {:?}", b, d.used_by(), want));
            }
        }
    }
    Ok(())
}
