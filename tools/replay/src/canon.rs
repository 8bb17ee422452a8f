//! Canonical text of a program: two programs are the same up to entity identity exactly when
//! their canonical texts are equal.
use crate::oracle::targets;
use koopa::ir::*;
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write;

#[derive(Clone, Copy)]
pub struct Mode {
    /// blocks in breadth-first order from the entry instead of layout order; unreachable ones dropped
    pub bfs: bool,
    /// functions sorted by name
    pub sort_funcs: bool,
    /// names are part of the text; names made of '%' and digits only count as absent
    pub names: bool,
}

pub fn is_temp(n: &str) -> bool {
    n.chars().all(|c| c == '%' || c.is_numeric())
}

pub fn ty(t: &Type) -> String {
    match t.kind() {
        TypeKind::Int32 => "i32".into(),
        TypeKind::Unit => "unit".into(),
        TypeKind::Array(b, n) => format!("[{} x {}]", n, ty(b)),
        TypeKind::Pointer(b) => format!("ptr({})", ty(b)),
        TypeKind::Function(p, r) => format!("fn({})->{}", p.iter().map(ty).collect::<Vec<_>>().join(","), ty(r)),
    }
}

pub fn op_name(o: BinaryOp) -> &'static str {
    match o {
        BinaryOp::NotEq => "ne",
        BinaryOp::Eq => "eq",
        BinaryOp::Gt => "gt",
        BinaryOp::Lt => "lt",
        BinaryOp::Ge => "ge",
        BinaryOp::Le => "le",
        BinaryOp::Add => "add",
        BinaryOp::Sub => "sub",
        BinaryOp::Mul => "mul",
        BinaryOp::Div => "div",
        BinaryOp::Mod => "mod",
        BinaryOp::And => "and",
        BinaryOp::Or => "or",
        BinaryOp::Xor => "xor",
        BinaryOp::Shl => "shl",
        BinaryOp::Shr => "shr",
        BinaryOp::Sar => "sar",
    }
}

pub fn bfs_order(p: &FunctionData) -> Vec<BasicBlock> {
    let lay: Vec<BasicBlock> = p.layout().bbs().keys().copied().collect();
    let mut out = vec![];
    let mut seen = HashSet::new();
    let mut q = VecDeque::new();
    if let Some(e) = lay.first() {
        q.push_back(*e);
        seen.insert(*e);
    }
    while let Some(b) = q.pop_front() {
        out.push(b);
        if let Some(n) = p.layout().bbs().node(&b) {
            if let Some(t) = n.insts().back_key() {
                for s in targets(p.dfg().value(*t).kind()) {
                    if seen.insert(s) {
                        q.push_back(s);
                    }
                }
            }
        }
    }
    out
}

pub fn cname(n: &Option<String>, m: Mode) -> String {
    match n {
        Some(n) if m.names && !is_temp(n) => format!(" '{n}'"),
        _ => String::new(),
    }
}

fn gconst(p: &Program, v: Value) -> String {
    let d = p.borrow_value(v);
    let t = ty(d.ty());
    match d.kind() {
        ValueKind::Integer(i) => format!("int {}", i.value()),
        ValueKind::ZeroInit(_) => format!("zero {t}"),
        ValueKind::Undef(_) => format!("undef {t}"),
        ValueKind::Aggregate(a) => format!("agg {t} {{{}}}", a.elems().iter().map(|e| gconst(p, *e)).collect::<Vec<_>>().join(", ")),
        k => format!("BAD-GLOBAL-CONST({})", crate::oracle::kind_name(k)),
    }
}

pub fn canon(p: &Program, m: Mode) -> String {
    let mut o = String::new();
    let mut gid: HashMap<Value, usize> = HashMap::new();
    for (i, g) in p.inst_layout().iter().enumerate() {
        gid.insert(*g, i);
        let d = p.borrow_value(*g);
        match d.kind() {
            ValueKind::GlobalAlloc(a) => {
                let _ = writeln!(o, "global g{i}{}: {} = {}", cname(d.name(), m), ty(d.ty()), gconst(p, a.init()));
            }
            _ => {
                let _ = writeln!(o, "global g{i} BAD");
            }
        }
    }
    let mut fs: Vec<Function> = p.func_layout().to_vec();
    if m.sort_funcs {
        fs.sort_by_key(|f| p.func(*f).name().to_string());
    }
    for f in &fs {
        o.push_str(&canon_func(p, *f, m, &gid));
    }
    o
}

pub fn canon_func(p: &Program, f: Function, m: Mode, gid: &HashMap<Value, usize>) -> String {
    let mut o = String::new();
    let fd = p.func(f);
    let order: Vec<BasicBlock> = if m.bfs { bfs_order(fd) } else { fd.layout().bbs().keys().copied().collect() };
    let _ = writeln!(o, "{} {} : {}", if order.is_empty() { "decl" } else { "fun" }, fname(p, f, m), ty(fd.ty()));
    let mut vid: HashMap<Value, String> = HashMap::new();
    let bid: HashMap<BasicBlock, usize> = order.iter().enumerate().map(|(i, b)| (*b, i)).collect();
    if !order.is_empty() {
        for (i, v) in fd.params().iter().enumerate() {
            vid.insert(*v, format!("p{i}"));
            let d = fd.dfg().value(*v);
            let _ = writeln!(o, "  param p{i}{}: {}", cname(d.name(), m), ty(d.ty()));
        }
    }
    for (k, b) in order.iter().enumerate() {
        for (j, v) in fd.dfg().bb(*b).params().iter().enumerate() {
            vid.insert(*v, format!("b{k}p{j}"));
        }
        for (i, v) in fd.layout().bbs().node(b).unwrap().insts().keys().enumerate() {
            vid.insert(*v, format!("v{k}.{i}"));
        }
    }
    let val = |v: Value| -> String { operand_text(p, fd, v, gid, &vid) };
    let bbt = |b: BasicBlock| -> String { bid.get(&b).map_or("BAD-BLOCK".into(), |i| format!("b{i}")) };
    let list = |vs: &[Value]| -> String { vs.iter().map(|v| val(*v)).collect::<Vec<_>>().join(", ") };
    for (k, b) in order.iter().enumerate() {
        let bd = fd.dfg().bb(*b);
        let ps: Vec<String> = bd
            .params()
            .iter()
            .map(|v| {
                let d = fd.dfg().value(*v);
                format!("{}{}", ty(d.ty()), cname(d.name(), m))
            })
            .collect();
        let _ = writeln!(o, "  block b{k}{} ({})", cname(bd.name(), m), ps.join(", "));
        for (i, v) in fd.layout().bbs().node(b).unwrap().insts().keys().enumerate() {
            let d = fd.dfg().value(*v);
            let t = match d.kind() {
                ValueKind::Alloc(_) => "alloc".into(),
                ValueKind::Load(x) => format!("load {}", val(x.src())),
                ValueKind::Store(x) => format!("store {} -> {}", val(x.value()), val(x.dest())),
                ValueKind::GetPtr(x) => format!("getptr {} [{}]", val(x.src()), val(x.index())),
                ValueKind::GetElemPtr(x) => format!("getelemptr {} [{}]", val(x.src()), val(x.index())),
                ValueKind::Binary(x) => format!("{} {}, {}", op_name(x.op()), val(x.lhs()), val(x.rhs())),
                ValueKind::Branch(x) => format!("br {} {}({}) {}({})", val(x.cond()), bbt(x.true_bb()), list(x.true_args()), bbt(x.false_bb()), list(x.false_args())),
                ValueKind::Jump(x) => format!("jump {}({})", bbt(x.target()), list(x.args())),
                ValueKind::Call(x) => format!("call {}({})", fname(p, x.callee(), m), list(x.args())),
                ValueKind::Return(x) => format!("ret {}", x.value().map_or(String::new(), val)),
                k => format!("BAD-INST({})", crate::oracle::kind_name(k)),
            };
            let _ = writeln!(o, "    v{k}.{i}{}: {} = {t}", cname(d.name(), m), ty(d.ty()));
        }
    }
    o
}

fn operand_text(p: &Program, fd: &FunctionData, v: Value, gid: &HashMap<Value, usize>, vid: &HashMap<Value, String>) -> String {
    if v.is_global() {
        return match gid.get(&v) {
            Some(i) => format!("g{i}"),
            None => format!("gconst({})", gconst(p, v)),
        };
    }
    if let Some(s) = vid.get(&v) {
        return s.clone();
    }
    let Some(d) = fd.dfg().values().get(&v) else { return "DANGLING".into() };
    let t = ty(d.ty());
    match d.kind() {
        ValueKind::Integer(i) => format!("int {}", i.value()),
        ValueKind::ZeroInit(_) => format!("zero {t}"),
        ValueKind::Undef(_) => format!("undef {t}"),
        ValueKind::Aggregate(a) => format!("agg {t} {{{}}}", a.elems().iter().map(|e| operand_text(p, fd, *e, gid, vid)).collect::<Vec<_>>().join(", ")),
        k => format!("UNLISTED({})", crate::oracle::kind_name(k)),
    }
}

pub fn layout_is_bfs(p: &Program) -> bool {
    p.func_layout().iter().all(|f| {
        let fd = p.func(*f);
        bfs_order(fd) == fd.layout().bbs().keys().copied().collect::<Vec<_>>()
    })
}

fn fname(p: &Program, f: Function, m: Mode) -> String {
    if m.names {
        p.func(f).name().to_string()
    } else {
        format!("f#{}", p.func_layout().iter().position(|x| *x == f).map_or(-1, |i| i as i64))
    }
}
