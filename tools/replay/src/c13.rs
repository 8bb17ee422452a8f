//! The raw form against the program, object by object, and read back.
use crate::canon::{Mode, canon, op_name};
use crate::ctx::Ctx;
use crate::gen_prog::{Opts, gen_program};
use crate::oracle::{operands, targets};
use crate::rng::Rng;
use koopa::ir::*;
use libkoopa_rlib::*;
use std::collections::{HashMap, HashSet};
use std::ffi::CStr;

struct W<'a> {
    p: &'a Program,
    vals: HashMap<Value, RawValue>,
    rvals: HashMap<RawValue, Value>,
    bbs: HashMap<BasicBlock, RawBasicBlock>,
    rbbs: HashMap<RawBasicBlock, BasicBlock>,
    funcs: HashMap<Function, RawFunction>,
    rfuncs: HashMap<RawFunction, Function>,
    types: HashMap<RawType, Type>,
}
type R = Result<(), String>;

fn kind_u(k: &RawSliceItemKind) -> u32 {
    unsafe { *(k as *const _ as *const u32) }
}

impl<'a> W<'a> {
    fn ty(&mut self, r: RawType, t: &Type) -> R {
        if r.is_null() {
            return Err("null type".into());
        }
        if let Some(x) = self.types.get(&r) {
            return if x == t { Ok(()) } else { Err(format!("one raw type for {x} and {t}")) };
        }
        match (unsafe { &*r }, t.kind()) {
            (RawTypeKind::Int32, TypeKind::Int32) | (RawTypeKind::Unit, TypeKind::Unit) => {}
            (RawTypeKind::Array(b, n), TypeKind::Array(tb, tn)) if n == tn => self.ty(*b, tb)?,
            (RawTypeKind::Pointer(b), TypeKind::Pointer(tb)) => self.ty(*b, tb)?,
            (RawTypeKind::Function(ps, rt), TypeKind::Function(tp, tr)) if ps.len as usize == tp.len() => {
                if kind_u(&ps.kind) != RawSliceItemKind::Type as u32 {
                    return Err("wrong kind of parameter types".into());
                }
                let v: Vec<RawType> = (0..ps.len as usize).map(|i| unsafe { *(ps.buffer as *const RawType).add(i) }).collect();
                for (a, b) in v.iter().zip(tp) {
                    self.ty(*a, b)?;
                }
                self.ty(*rt, tr)?;
            }
            _ => return Err(format!("raw type is not {t}")),
        }
        self.types.insert(r, t.clone());
        Ok(())
    }
    fn name(&self, r: *const std::os::raw::c_char, n: Option<&str>) -> R {
        let got = if r.is_null() { None } else { Some(unsafe { CStr::from_ptr(r) }.to_string_lossy().into_owned()) };
        if got.as_deref() != n { Err(format!("name {got:?} instead of {n:?}")) } else { Ok(()) }
    }
    fn pair(&mut self, r: RawValue, v: Value) -> R {
        if r.is_null() {
            return Err("null value".into());
        }
        if *self.vals.entry(v).or_insert(r) != r {
            return Err(format!("two raw objects for {v:?}"));
        }
        if *self.rvals.entry(r).or_insert(v) != v {
            return Err(format!("one raw object for two values, one is {v:?}"));
        }
        Ok(())
    }
    fn bb(&mut self, r: RawBasicBlock, b: BasicBlock) -> R {
        if *self.bbs.entry(b).or_insert(r) != r || *self.rbbs.entry(r).or_insert(b) != b {
            return Err(format!("raw objects of {b:?} are not one to one"));
        }
        Ok(())
    }
    fn func(&mut self, r: RawFunction, f: Function) -> R {
        if *self.funcs.entry(f).or_insert(r) != r || *self.rfuncs.entry(r).or_insert(f) != f {
            return Err(format!("raw objects of {f:?} are not one to one"));
        }
        Ok(())
    }
    fn slice<'s>(&mut self, s: &'s RawSlice, vs: &[Value], what: &str) -> R {
        if kind_u(&s.kind) != RawSliceItemKind::Value as u32 {
            return Err(format!("{what}: wrong kind"));
        }
        if s.len as usize != vs.len() {
            return Err(format!("{what}: {} instead of {} values", s.len, vs.len()));
        }
        for (i, v) in vs.iter().enumerate() {
            let r = unsafe { *(s.buffer as *const RawValue).add(i) };
            self.pair(r, *v).map_err(|e| format!("{what} {i}: {e}"))?;
        }
        Ok(())
    }
    fn value(&mut self, f: Option<&FunctionData>, r: RawValue, v: Value, done: &mut HashSet<Value>) -> R {
        self.pair(r, v)?;
        if !done.insert(v) {
            return Ok(());
        }
        let p = self.p;
        let d: ValueDataCopy = if v.is_global() { copy(&p.borrow_value(v)) } else { copy(f.unwrap().dfg().value(v)) };
        let raw = unsafe { &*r };
        self.ty(raw.ty, &d.ty)?;
        self.name(raw.name, d.name.as_deref())?;
        macro_rules! ops {
            ($($x:expr),*) => { [$($x),*] };
        }
        let mut ok = true;
        match (&raw.kind, &d.kind) {
            (RawValueKind::Integer(a), ValueKind::Integer(b)) => ok = a.value == b.value(),
            (RawValueKind::ZeroInit, ValueKind::ZeroInit(_)) | (RawValueKind::Undef, ValueKind::Undef(_)) | (RawValueKind::Alloc, ValueKind::Alloc(_)) => {}
            (RawValueKind::Aggregate(a), ValueKind::Aggregate(b)) => self.slice(&a.elems, b.elems(), "elements")?,
            (RawValueKind::FuncArgRef(a), ValueKind::FuncArgRef(b)) => ok = a.index == b.index(),
            (RawValueKind::BlockArgRef(a), ValueKind::BlockArgRef(b)) => ok = a.index == b.index(),
            (RawValueKind::GlobalAlloc(a), ValueKind::GlobalAlloc(b)) => self.pair(a.init, b.init())?,
            (RawValueKind::Load(a), ValueKind::Load(b)) => self.pair(a.src, b.src())?,
            (RawValueKind::Store(a), ValueKind::Store(b)) => {
                for (x, y) in ops![(a.value, b.value()), (a.dest, b.dest())] {
                    self.pair(x, y)?;
                }
            }
            (RawValueKind::GetPtr(a), ValueKind::GetPtr(b)) => {
                for (x, y) in ops![(a.src, b.src()), (a.index, b.index())] {
                    self.pair(x, y)?;
                }
            }
            (RawValueKind::GetElemPtr(a), ValueKind::GetElemPtr(b)) => {
                for (x, y) in ops![(a.src, b.src()), (a.index, b.index())] {
                    self.pair(x, y)?;
                }
            }
            (RawValueKind::Binary(a), ValueKind::Binary(b)) => {
                ok = raw_op(&a.op) == op_name(b.op());
                for (x, y) in ops![(a.lhs, b.lhs()), (a.rhs, b.rhs())] {
                    self.pair(x, y)?;
                }
            }
            (RawValueKind::Branch(a), ValueKind::Branch(b)) => {
                self.pair(a.cond, b.cond())?;
                self.bb(a.true_bb, b.true_bb())?;
                self.bb(a.false_bb, b.false_bb())?;
                self.slice(&a.true_args, b.true_args(), "arguments")?;
                self.slice(&a.false_args, b.false_args(), "arguments")?;
            }
            (RawValueKind::Jump(a), ValueKind::Jump(b)) => {
                self.bb(a.target, b.target())?;
                self.slice(&a.args, b.args(), "arguments")?;
            }
            (RawValueKind::Call(a), ValueKind::Call(b)) => {
                self.func(a.callee, b.callee())?;
                self.slice(&a.args, b.args(), "arguments")?;
            }
            (RawValueKind::Return(a), ValueKind::Return(b)) => match b.value() {
                Some(v) => self.pair(a.value, v)?,
                None => ok = a.value.is_null(),
            },
            _ => ok = false,
        }
        if !ok {
            return Err(format!("{v:?}: kind or literal differs ({})", crate::oracle::kind_name(&d.kind)));
        }
        for o in operands(&d.kind) {
            let ro = self.vals[&o];
            self.value(f, ro, o, done)?;
        }
        let _ = targets(&d.kind);
        Ok(())
    }
    fn users(&self, f: Option<&FunctionData>, live: &HashSet<Value>) -> R {
        for (v, r) in &self.vals {
            if v.is_global() && f.is_some() {
                continue;
            }
            let want: HashSet<Value> = if v.is_global() { self.p.borrow_value(*v).used_by().clone() } else { match f { Some(f) if f.dfg().values().contains_key(v) => f.dfg().value(*v).used_by().clone(), _ => continue } };
            let want: HashSet<Value> = want.into_iter().filter(|u| live.contains(u)).collect();
            let s = unsafe { &(**r).used_by };
            if kind_u(&s.kind) != RawSliceItemKind::Value as u32 {
                return Err("users: wrong kind".into());
            }
            let mut got = HashSet::new();
            for i in 0..s.len as usize {
                let u = unsafe { *(s.buffer as *const RawValue).add(i) };
                match self.rvals.get(&u) {
                    Some(u) => {
                        if !got.insert(*u) {
                            return Err(format!("{v:?}: a user twice"));
                        }
                    }
                    None => return Err(format!("{v:?}: unknown user")),
                }
            }
            if got != want {
                return Err(format!("{v:?}: users {got:?} instead of {want:?}"));
            }
        }
        Ok(())
    }
}
struct ValueDataCopy {
    ty: Type,
    name: Option<String>,
    kind: ValueKind,
}
fn copy(d: &koopa::ir::entities::ValueData) -> ValueDataCopy {
    ValueDataCopy { ty: d.ty().clone(), name: d.name().clone(), kind: d.kind().clone() }
}
fn raw_op(o: &RawBinaryOp) -> &'static str {
    use RawBinaryOp::*;
    match o {
        NotEq => "ne",
        Eq => "eq",
        Gt => "gt",
        Lt => "lt",
        Ge => "ge",
        Le => "le",
        Add => "add",
        Sub => "sub",
        Mul => "mul",
        Div => "div",
        Mod => "mod",
        And => "and",
        Or => "or",
        Xor => "xor",
        Shl => "shl",
        Shr => "shr",
        Sar => "sar",
    }
}

fn ptrs<T: Copy>(s: &RawSlice, k: RawSliceItemKind, what: &str) -> Result<Vec<T>, String> {
    if kind_u(&s.kind) != k as u32 {
        return Err(format!("{what}: wrong kind"));
    }
    Ok((0..s.len as usize).map(|i| unsafe { *(s.buffer as *const T).add(i) }).collect())
}

pub fn faithful(p: &Program, raw: &RawProgram) -> R {
    let mut w = W { p, vals: HashMap::new(), rvals: HashMap::new(), bbs: HashMap::new(), rbbs: HashMap::new(), funcs: HashMap::new(), rfuncs: HashMap::new(), types: HashMap::new() };
    let mut done = HashSet::new();
    let gs: Vec<RawValue> = ptrs(&raw.values, RawSliceItemKind::Value, "globals")?;
    if gs.len() != p.inst_layout().len() {
        return Err("number of globals".into());
    }
    for (r, v) in gs.iter().zip(p.inst_layout()) {
        w.value(None, *r, *v, &mut done).map_err(|e| format!("global {v:?}: {e}"))?;
    }
    let fs: Vec<RawFunction> = ptrs(&raw.funcs, RawSliceItemKind::Function, "functions")?;
    if fs.len() != p.func_layout().len() {
        return Err("number of functions".into());
    }
    for (r, f) in fs.iter().zip(p.func_layout()) {
        w.func(*r, *f)?;
    }
    for (r, f) in fs.iter().zip(p.func_layout()) {
        let fd = p.func(*f);
        let rf = unsafe { &**r };
        let e = |e: String| format!("function {}: {e}", fd.name());
        w.ty(rf.ty, fd.ty()).map_err(e)?;
        w.name(rf.name, Some(fd.name())).map_err(e)?;
        w.slice(&rf.params, fd.params(), "parameters").map_err(e)?;
        let bbs: Vec<RawBasicBlock> = ptrs(&rf.bbs, RawSliceItemKind::BasicBlock, "blocks")?;
        let keys: Vec<BasicBlock> = fd.layout().bbs().keys().copied().collect();
        if bbs.len() != keys.len() {
            return Err(e("number of blocks".into()));
        }
        for (r, b) in bbs.iter().zip(&keys) {
            w.bb(*r, *b).map_err(e)?;
        }
        let ps: Vec<(RawValue, Value)> = fd.params().iter().map(|v| (w.vals[v], *v)).collect();
        for (r, v) in ps {
            w.value(Some(fd), r, v, &mut done).map_err(e)?;
        }
        for (r, b) in bbs.iter().zip(&keys) {
            let rb = unsafe { &**r };
            let bd = fd.dfg().bb(*b);
            let insts: Vec<Value> = fd.layout().bbs().node(b).unwrap().insts().keys().copied().collect();
            w.name(rb.name, bd.name().as_deref()).map_err(e)?;
            w.slice(&rb.params, bd.params(), "block parameters").map_err(e)?;
            w.slice(&rb.insts, &insts, "instructions").map_err(e)?;
            for v in bd.params().iter().chain(&insts) {
                let r = w.vals[v];
                w.value(Some(fd), r, *v, &mut done).map_err(|x| e(format!("{v:?}: {x}")))?;
            }
        }
        for (r, b) in bbs.iter().zip(&keys) {
            let us: Vec<RawValue> = ptrs(unsafe { &(**r).used_by }, RawSliceItemKind::Value, "users")?;
            let got: HashSet<Option<&Value>> = us.iter().map(|u| w.rvals.get(u)).collect();
            let want: HashSet<Option<&Value>> = fd.dfg().bb(*b).used_by().iter().map(Some).collect();
            if us.len() != want.len() || got != want {
                return Err(e(format!("users of {b:?}: {got:?} instead of {want:?}")));
            }
        }
        w.users(Some(fd), &done).map_err(e)?;
    }
    let live = done.clone();
    w.users(None, &live)
}

pub fn run(c: &mut Ctx) {
    c.rule = "random programs: every raw object against the program (order, types, names, operands, users, one object per entity), and the program read back from the raw form".into();
    while c.time_left() {
        let s = c.rng.next();
        let mut r = Rng::new(s);
        let o = Opts { max_bbs: *r.pick(&[1, 4, 8, 14]), max_funcs: 1 + r.below(4), named: *r.pick(&[0, 60, 100]), ..Opts::small() };
        let mut p = gen_program(&mut r, &o);
        // values outside the layout belong to the program's data flow but not to its text
        let stray = r.chance(1, 5);
        if stray {
            use koopa::ir::builder_traits::*;
            let f = *r.pick(p.func_layout());
            let g = p.inst_layout().first().copied();
            let d = p.func_mut(f).dfg_mut();
            let i = d.new_value().integer(1);
            d.new_value().binary(BinaryOp::Add, i, i);
            if let Some(g) = g {
                d.new_value().get_ptr(g, i);
            }
        }
        c.case("raw", format!("seed {s} {o:?} stray {stray}"), true, || {
            let mut b = RawProgramBuilder::new();
            let raw = b.build_on(&p);
            if !stray {
                faithful(&p, &raw)?;
            }
            let mut q: *mut Program = std::ptr::null_mut();
            let e = koopa_generate_raw_to_koopa(&raw, &mut q);
            if e as i32 != 0 {
                return Err(format!("reading back fails"));
            }
            let q = unsafe { Box::from_raw(q) };
            let m = Mode { bfs: true, sort_funcs: true, names: true };
            let (a, b) = (canon(&p, m), canon(&q, m));
            if a != b {
                let d = a.lines().zip(b.lines()).find(|(a, b)| a != b);
                return Err(format!("another program is read back: {d:?}\n--- built\n{a}\n--- read\n{b}"));
            }
            crate::oracle::check_uses(&q)?;
            // names made of digits are kept too
            let names = |p: &Program| -> Vec<String> {
                let mut v = vec![];
                for f in p.func_layout() {
                    let fd = p.func(*f);
                    v.extend(fd.dfg().values().values().filter_map(|d| d.name().clone()));
                    v.extend(fd.dfg().bbs().values().filter_map(|d| d.name().clone()));
                }
                v.sort();
                v
            };
            if !stray && names(&p) != names(&q) {
                return Err("names differ after reading back".into());
            }
            if q.func_layout().len() != p.func_layout().len() {
                return Err("number of functions".into());
            }
            for f in p.func_layout() {
                let n = p.func(*f).name();
                let g = q.func_layout().iter().find(|g| q.func(**g).name() == n).unwrap();
                if p.func(*f).layout().bbs().len() != q.func(*g).layout().bbs().len() {
                    return Err(format!("{n}: number of blocks"));
                }
            }
            Ok(())
        });
    }
}
