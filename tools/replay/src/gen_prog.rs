//! Random valid programs, built through the public builder interface.
use crate::rng::Rng;
use koopa::ir::builder_traits::*;
use koopa::ir::*;

#[derive(Clone, Debug)]
pub struct Opts {
    /// no undefined behaviour by construction where possible; bounded loops; `@main` present
    pub exec: bool,
    /// only what the text grammar can express
    pub text: bool,
    pub max_funcs: usize,
    pub max_bbs: usize,
    pub max_insts: usize,
    /// percentage of entities that get a name
    pub named: usize,
    /// names that stress the printers: numeric, numeric suffixes, non-ASCII
    pub odd_names: bool,
}

impl Opts {
    pub fn small() -> Self {
        Opts { exec: false, text: false, max_funcs: 3, max_bbs: 5, max_insts: 6, named: 50, odd_names: false }
    }
    pub fn text() -> Self {
        Opts { text: true, ..Self::small() }
    }
    pub fn exec() -> Self {
        Opts { exec: true, text: true, ..Self::small() }
    }
}

pub fn gen_type(r: &mut Rng, depth: usize, o: &Opts) -> Type {
    if depth == 0 {
        return Type::get_i32();
    }
    match r.below(10) {
        0..=4 => Type::get_i32(),
        5..=7 => Type::get_array(gen_type(r, depth - 1, o), 1 + r.below(3)),
        8 => Type::get_pointer(gen_type(r, depth - 1, o)),
        _ => {
            if o.exec {
                return Type::get_i32();
            }
            let n = r.below(3);
            let ps = (0..n).map(|_| gen_type(r, depth - 1, o)).collect();
            let ret = if r.chance(1, 2) { Type::get_unit() } else { gen_type(r, depth - 1, o) };
            Type::get_pointer(Type::get_function(ps, ret))
        }
    }
}

/// exec mode: memory holds only integers and arrays of integers
fn mem_type(r: &mut Rng, o: &Opts) -> Type {
    if o.exec {
        match r.below(3) {
            0 => Type::get_i32(),
            1 => Type::get_array(Type::get_i32(), 1 + r.below(4)),
            _ => Type::get_array(Type::get_array(Type::get_i32(), 1 + r.below(3)), 1 + r.below(3)),
        }
    } else {
        gen_type(r, 3, o)
    }
}

pub trait ConstSink {
    fn int(&mut self, v: i32) -> Value;
    fn zero(&mut self, t: Type) -> Value;
    fn undef(&mut self, t: Type) -> Value;
    fn agg(&mut self, e: Vec<Value>) -> Value;
}
pub struct G<'a>(pub &'a mut Program);
pub struct L<'a>(pub &'a mut Program, pub Function);
impl ConstSink for G<'_> {
    fn int(&mut self, v: i32) -> Value {
        self.0.new_value().integer(v)
    }
    fn zero(&mut self, t: Type) -> Value {
        self.0.new_value().zero_init(t)
    }
    fn undef(&mut self, t: Type) -> Value {
        self.0.new_value().undef(t)
    }
    fn agg(&mut self, e: Vec<Value>) -> Value {
        self.0.new_value().aggregate(e)
    }
}
impl ConstSink for L<'_> {
    fn int(&mut self, v: i32) -> Value {
        self.0.func_mut(self.1).dfg_mut().new_value().integer(v)
    }
    fn zero(&mut self, t: Type) -> Value {
        self.0.func_mut(self.1).dfg_mut().new_value().zero_init(t)
    }
    fn undef(&mut self, t: Type) -> Value {
        self.0.func_mut(self.1).dfg_mut().new_value().undef(t)
    }
    fn agg(&mut self, e: Vec<Value>) -> Value {
        self.0.func_mut(self.1).dfg_mut().new_value().aggregate(e)
    }
}

/// a constant initializer
pub fn gen_const(r: &mut Rng, s: &mut dyn ConstSink, t: &Type, o: &Opts, depth: usize) -> Value {
    let undef = !o.exec && r.chance(1, 6);
    if undef {
        return s.undef(t.clone());
    }
    match t.kind() {
        TypeKind::Int32 => {
            if r.chance(1, 8) {
                s.zero(t.clone())
            } else {
                s.int(r.int())
            }
        }
        TypeKind::Array(b, n) if depth > 0 && r.chance(2, 3) => {
            let n = *n;
            let b = b.clone();
            let e = (0..n).map(|_| gen_const(r, s, &b, o, depth - 1)).collect();
            s.agg(e)
        }
        _ => s.zero(t.clone()),
    }
}

fn name(r: &mut Rng, o: &Opts, base: &str) -> Option<String> {
    if !r.chance(o.named, 100) {
        return None;
    }
    let p = if r.chance(1, 3) { '@' } else { '%' };
    Some(if o.odd_names {
        match r.below(8) {
            // `@` followed by a digit can not be read back
            0 => format!("{}{}", if o.text { '%' } else { p }, r.below(4)),
            1 => format!("{p}{base}_{}", r.below(3)),
            2 => format!("{p}a_0"),
            3 => format!("{p}a"),
            4 => format!("{p}_"),
            _ => format!("{p}{base}"),
        }
    } else {
        match r.below(4) {
            0 => format!("{p}{base}"),
            1 => format!("{p}{base}{}", r.below(20)),
            2 => format!("{p}{base}_{}", r.below(5)),
            _ => format!("{p}x{}", r.below(1000)),
        }
    })
}

pub struct FnInfo {
    pub f: Function,
    pub params: Vec<Type>,
    pub ret: Type,
}

pub const OPS: [BinaryOp; 18] = [
    BinaryOp::NotEq,
    BinaryOp::Eq,
    BinaryOp::Gt,
    BinaryOp::Lt,
    BinaryOp::Ge,
    BinaryOp::Le,
    BinaryOp::Add,
    BinaryOp::Sub,
    BinaryOp::Mul,
    BinaryOp::Div,
    BinaryOp::Mod,
    BinaryOp::And,
    BinaryOp::Or,
    BinaryOp::Xor,
    BinaryOp::Shl,
    BinaryOp::Shr,
    BinaryOp::Sar,
    BinaryOp::Add,
];

pub fn gen_program(r: &mut Rng, o: &Opts) -> Program {
    let mut p = Program::new();
    let ng = r.below(4);
    let mut globals = vec![];
    let gi = |p: &mut Program, r: &mut Rng, globals: &mut Vec<(Value, Type)>| {
        let t = mem_type(r, o);
        let c = gen_const(r, &mut G(p), &t, o, 3);
        let g = p.new_value().global_alloc(c);
        if let Some(n) = name(r, o, "g") {
            p.set_value_name(g, Some(n));
        }
        globals.push((g, Type::get_pointer(t)));
    };
    for _ in 0..ng {
        gi(&mut p, r, &mut globals);
    }
    let mut fns: Vec<FnInfo> = vec![];
    if o.exec {
        let f = p.new_func_decl("@putint".into(), vec![Type::get_i32()], Type::get_unit());
        fns.push(FnInfo { f, params: vec![Type::get_i32()], ret: Type::get_unit() });
    }
    let nf = 1 + r.below(o.max_funcs);
    // create the functions first: calls may refer to later functions (not in text mode: the
    // front end resolves callees in order)
    let mut bodies = vec![];
    let mut fname = std::collections::HashSet::new();
    for i in 0..nf {
        let main = o.exec && i == nf - 1;
        let n = r.below(4);
        let params: Vec<Type> = if main {
            vec![]
        } else {
            (0..n)
                .map(|_| {
                    if o.exec {
                        if r.chance(2, 3) { Type::get_i32() } else { Type::get_pointer(mem_type(r, o)) }
                    } else {
                        gen_type(r, 2, o)
                    }
                })
                .collect()
        };
        let ret = if main || r.chance(2, 3) {
            if o.exec { Type::get_i32() } else { gen_type(r, 2, o) }
        } else {
            Type::get_unit()
        };
        let mut nm = if main { "@main".to_string() } else { format!("@f{}", i) };
        if o.odd_names && !main && r.chance(1, 2) {
            nm = name(r, &Opts { named: 100, ..o.clone() }, "f").unwrap();
            // function names are references across the program: keep them distinct
            if !fname.insert(nm[1..].to_string()) || (o.text && crate::canon::is_temp(&nm)) {
                nm = format!("@f{}", i);
            }
        }
        let f = if !main && !o.exec && r.chance(1, 5) {
            p.new_func_decl(nm, params.clone(), ret.clone())
        } else if r.chance(1, 2) {
            let f = p.new_func_def(nm, params.clone(), ret.clone());
            bodies.push(f);
            f
        } else {
            let ps = params.iter().map(|t| (name(r, o, "p"), t.clone())).collect();
            let f = p.new_func_def_with_param_names(nm, ps, ret.clone());
            bodies.push(f);
            f
        };
        fns.push(FnInfo { f, params, ret });
    }
    // late globals: declared after functions in creation order
    if !o.text && r.chance(1, 3) {
        gi(&mut p, r, &mut globals);
    }
    for (k, i) in fns.iter().enumerate() {
        if bodies.contains(&i.f) {
            let callable: Vec<&FnInfo> = fns.iter().enumerate().filter(|(j, _)| if o.exec { *j < k } else if o.text { *j <= k } else { true }).map(|x| x.1).collect();
            gen_body(r, o, &mut p, i, &callable, &globals);
        }
    }
    p
}

fn gen_body(r: &mut Rng, o: &Opts, p: &mut Program, fi: &FnInfo, callable: &[&FnInfo], globals: &[(Value, Type)]) {
    let f = fi.f;
    let n = 1 + r.below(o.max_bbs);
    // edges: every non-entry block is reachable from an earlier block; entry is never a target
    let mut succ: Vec<Vec<usize>> = vec![vec![]; n];
    for b in 1..n {
        let cands: Vec<usize> = (0..b).filter(|a| succ[*a].len() < 2 && (!o.exec || true)).collect();
        let a = *r.pick(&cands);
        succ[a].push(b);
    }
    for b in 0..n {
        // extra edges
        while succ[b].len() < 2 && n > 1 && r.chance(1, 3) {
            let t = 1 + r.below(n - 1);
            if o.exec && t <= b && succ[b].is_empty() {
                break; // a back edge must be conditional
            }
            succ[b].push(t);
        }
    }
    // dominators by the simple iterative method
    let mut pred: Vec<Vec<usize>> = vec![vec![]; n];
    for b in 0..n {
        for &s in &succ[b] {
            pred[s].push(b);
        }
    }
    let mut dom: Vec<Vec<bool>> = vec![vec![true; n]; n];
    dom[0] = vec![false; n];
    dom[0][0] = true;
    loop {
        let mut ch = false;
        for b in 1..n {
            let mut d = vec![true; n];
            for &q in &pred[b] {
                for i in 0..n {
                    d[i] &= dom[q][i];
                }
            }
            d[b] = true;
            if d != dom[b] {
                dom[b] = d;
                ch = true;
            }
        }
        if !ch {
            break;
        }
    }
    // blocks
    let mut bbs = vec![];
    let mut ptys: Vec<Vec<Type>> = vec![];
    for b in 0..n {
        let k = if b == 0 || pred[b].iter().any(|q| succ[*q].len() == 2 && succ[*q][0] == succ[*q][1]) || r.chance(1, 2) { 0 } else { 1 + r.below(2) };
        let tys: Vec<Type> = (0..k).map(|_| if o.exec { Type::get_i32() } else { gen_type(r, 2, o) }).collect();
        let nm = name(r, o, if b == 0 { "entry" } else { "bb" });
        let dfg = p.func_mut(f).dfg_mut();
        let bb = if k == 0 {
            dfg.new_bb().basic_block(nm)
        } else if r.chance(1, 2) {
            dfg.new_bb().basic_block_with_params(nm, tys.clone())
        } else {
            let ps = tys.iter().map(|t| (name(r, o, "a"), t.clone())).collect();
            dfg.new_bb().basic_block_with_param_names(nm, ps)
        };
        bbs.push(bb);
        ptys.push(tys);
    }
    // layout order: entry first, the rest shuffled
    let mut order: Vec<usize> = (1..n).collect();
    if r.chance(1, 2) {
        for i in (1..order.len()).rev() {
            order.swap(i, r.below(i + 1));
        }
    }
    order.insert(0, 0);
    for &b in &order {
        p.func_mut(f).layout_mut().bbs_mut().push_key_back(bbs[b]).unwrap();
    }
    // bodies, a block after its dominators
    let mut seq: Vec<usize> = (0..n).collect();
    seq.sort_by_key(|b| dom[*b].iter().filter(|x| **x).count());
    let mut defs: Vec<Vec<(Value, Type)>> = vec![vec![]; n];
    let mut fuel = None;
    for &b in &seq {
        let mut vals: Vec<(Value, Type)> = globals.to_vec();
        for d in 0..n {
            if d != b && dom[b][d] {
                vals.extend(defs[d].iter().cloned());
            }
        }
        if b == 0 {
            for (v, t) in p.func(f).params().iter().zip(&fi.params) {
                defs[0].push((*v, t.clone()));
            }
        }
        for (v, t) in p.func(f).dfg().bb(bbs[b]).params().iter().zip(&ptys[b]) {
            defs[b].push((*v, t.clone()));
        }
        vals.extend(defs[b].iter().cloned());
        let mut insts = vec![];
        if b == 0 && o.exec {
            let a = p.func_mut(f).dfg_mut().new_value().alloc(Type::get_i32());
            let c = p.func_mut(f).dfg_mut().new_value().integer(10);
            let s = p.func_mut(f).dfg_mut().new_value().store(c, a);
            insts.push(a);
            insts.push(s);
            fuel = Some(a);
        }
        let k = r.below(o.max_insts + 1);
        for _ in 0..k {
            if let Some((v, t)) = gen_inst(r, o, p, f, callable, &vals, &mut insts) {
                if !t.is_unit() {
                    if let Some(nm) = name(r, o, "v") {
                        p.func_mut(f).dfg_mut().set_value_name(v, Some(nm));
                    }
                    defs[b].push((v, t.clone()));
                    vals.push((v, t));
                }
            }
        }
        // terminator
        let term = match succ[b].len() {
            0 => {
                if fi.ret.is_unit() {
                    p.func_mut(f).dfg_mut().new_value().ret(None)
                } else {
                    let v = operand(r, o, p, f, &fi.ret, &vals);
                    p.func_mut(f).dfg_mut().new_value().ret(Some(v))
                }
            }
            1 => {
                let t = succ[b][0];
                let args: Vec<Value> = ptys[t].clone().iter().map(|ty| operand(r, o, p, f, ty, &vals)).collect();
                let dfg = p.func_mut(f).dfg_mut();
                if args.is_empty() && r.chance(1, 2) { dfg.new_value().jump(bbs[t]) } else { dfg.new_value().jump_with_args(bbs[t], args) }
            }
            _ => {
                let (mut t, mut e) = (succ[b][0], succ[b][1]);
                let mut cond = operand(r, o, p, f, &Type::get_i32(), &vals);
                if o.exec && (t <= b || e <= b) {
                    // bounded back edge
                    if e <= b {
                        std::mem::swap(&mut t, &mut e);
                    }
                    let a = fuel.unwrap();
                    let dfg = p.func_mut(f).dfg_mut();
                    let l = dfg.new_value().load(a);
                    let one = dfg.new_value().integer(1);
                    let s = dfg.new_value().binary(BinaryOp::Sub, l, one);
                    let st = dfg.new_value().store(s, a);
                    let z = dfg.new_value().integer(0);
                    let g = dfg.new_value().binary(BinaryOp::Gt, s, z);
                    insts.extend([l, s, st, g]);
                    cond = g;
                    // both back: leave through a return instead
                    if e <= b {
                        if fi.ret.is_unit() {
                            let rt = p.func_mut(f).dfg_mut().new_value().ret(None);
                            insts.push(rt);
                        } else {
                            let v = operand(r, o, p, f, &fi.ret, &vals);
                            let rt = p.func_mut(f).dfg_mut().new_value().ret(Some(v));
                            insts.push(rt);
                        }
                        push_all(p, f, bbs[b], &insts);
                        continue;
                    }
                }
                let ta: Vec<Value> = ptys[t].clone().iter().map(|ty| operand(r, o, p, f, ty, &vals)).collect();
                let ea: Vec<Value> = ptys[e].clone().iter().map(|ty| operand(r, o, p, f, ty, &vals)).collect();
                let dfg = p.func_mut(f).dfg_mut();
                if ta.is_empty() && ea.is_empty() && r.chance(1, 2) {
                    dfg.new_value().branch(cond, bbs[t], bbs[e])
                } else {
                    dfg.new_value().branch_with_args(cond, bbs[t], bbs[e], ta, ea)
                }
            }
        };
        insts.push(term);
        push_all(p, f, bbs[b], &insts);
    }
}

fn push_all(p: &mut Program, f: Function, bb: BasicBlock, insts: &[Value]) {
    p.func_mut(f).layout_mut().bb_mut(bb).insts_mut().extend(insts.iter().copied());
}

/// a value of type `t` usable as an operand
fn operand(r: &mut Rng, o: &Opts, p: &mut Program, f: Function, t: &Type, vals: &[(Value, Type)]) -> Value {
    let c: Vec<Value> = vals.iter().filter(|v| &v.1 == t).map(|v| v.0).collect();
    if !c.is_empty() && r.chance(3, 4) {
        // prefer recent
        let i = if r.chance(1, 2) { c.len() - 1 - r.below(c.len().min(3)) } else { r.below(c.len()) };
        return c[i];
    }
    if o.text {
        return if t.is_i32() && (o.exec || r.chance(5, 6)) {
            L(p, f).int(r.int())
        } else if o.exec {
            // a pointer that is certainly valid is required
            match c.first() {
                Some(v) => *v,
                None => L(p, f).zero(t.clone()),
            }
        } else {
            L(p, f).undef(t.clone())
        };
    }
    gen_const(r, &mut L(p, f), t, o, 2)
}

fn gen_inst(r: &mut Rng, o: &Opts, p: &mut Program, f: Function, callable: &[&FnInfo], vals: &[(Value, Type)], insts: &mut Vec<Value>) -> Option<(Value, Type)> {
    let i32t = Type::get_i32();
    let ptrs: Vec<(Value, Type)> = vals
        .iter()
        .filter_map(|(v, t)| match t.kind() {
            TypeKind::Pointer(b) => Some((*v, b.clone())),
            _ => None,
        })
        .collect();
    let v;
    let t;
    match r.below(9) {
        0 => {
            let ty = mem_type(r, o);
            v = p.func_mut(f).dfg_mut().new_value().alloc(ty.clone());
            insts.push(v);
            if o.exec {
                let c = gen_const(r, &mut L(p, f), &ty, o, 3);
                let s = p.func_mut(f).dfg_mut().new_value().store(c, v);
                insts.push(s);
            }
            return Some((v, Type::get_pointer(ty)));
        }
        1 | 2 => {
            let c: Vec<_> = ptrs.iter().filter(|x| !matches!(x.1.kind(), TypeKind::Function(..)) && (!o.exec || !matches!(x.1.kind(), TypeKind::Pointer(..)))).collect();
            if c.is_empty() {
                return None;
            }
            let (src, b) = (*r.pick(&c)).clone();
            v = p.func_mut(f).dfg_mut().new_value().load(src);
            t = b;
        }
        3 | 4 => {
            let c: Vec<_> = ptrs.iter().filter(|x| !matches!(x.1.kind(), TypeKind::Function(..))).collect();
            if c.is_empty() {
                return None;
            }
            let (dst, b) = (*r.pick(&c)).clone();
            let val = if r.chance(1, 2) { operand(r, o, p, f, &b, vals) } else { gen_const(r, &mut L(p, f), &b, o, 3) };
            v = p.func_mut(f).dfg_mut().new_value().store(val, dst);
            t = Type::get_unit();
        }
        5 => {
            let c: Vec<_> = ptrs.iter().filter(|x| matches!(x.1.kind(), TypeKind::Array(..))).collect();
            if c.is_empty() {
                return None;
            }
            let (src, b) = (*r.pick(&c)).clone();
            let (e, n) = match b.kind() {
                TypeKind::Array(e, n) => (e.clone(), *n),
                _ => unreachable!(),
            };
            let idx = if o.exec || r.chance(1, 2) {
                let k = r.below(n) as i32;
                p.func_mut(f).dfg_mut().new_value().integer(k)
            } else {
                operand(r, o, p, f, &i32t, vals)
            };
            v = p.func_mut(f).dfg_mut().new_value().get_elem_ptr(src, idx);
            t = Type::get_pointer(e);
        }
        6 => {
            let c: Vec<_> = ptrs.iter().filter(|x| !matches!(x.1.kind(), TypeKind::Function(..))).collect();
            if c.is_empty() {
                return None;
            }
            let (src, b) = (*r.pick(&c)).clone();
            let idx = if o.exec { L(p, f).int(if r.chance(1, 5) { 1 } else { 0 }) } else { operand(r, o, p, f, &i32t, vals) };
            v = p.func_mut(f).dfg_mut().new_value().get_ptr(src, idx);
            t = Type::get_pointer(b);
        }
        7 => {
            let c = *r.pick(callable);
            if o.exec && c.params.iter().any(|t| matches!(t.kind(), TypeKind::Pointer(..)) && !vals.iter().any(|v| &v.1 == t)) {
                return None;
            }
            let args: Vec<Value> = c.params.iter().map(|ty| operand(r, o, p, f, ty, vals)).collect();
            v = p.func_mut(f).dfg_mut().new_value().call(c.f, args);
            t = c.ret.clone();
        }
        _ => {
            let op = *r.pick(&OPS);
            let l = operand(r, o, p, f, &i32t, vals);
            let rr = if o.exec && matches!(op, BinaryOp::Div | BinaryOp::Mod) {
                L(p, f).int(1 + r.below(9) as i32)
            } else if o.exec && matches!(op, BinaryOp::Shl | BinaryOp::Shr | BinaryOp::Sar) {
                L(p, f).int(r.below(32) as i32)
            } else {
                operand(r, o, p, f, &i32t, vals)
            };
            v = p.func_mut(f).dfg_mut().new_value().binary(op, l, rr);
            t = i32t;
        }
    }
    insts.push(v);
    Some((v, t))
}
