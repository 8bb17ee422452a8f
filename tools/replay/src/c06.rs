use crate::c05;
use crate::ctx::{Ctx, quiet};
use crate::gen_prog::*;
use crate::oracle::*;
use crate::rng::Rng;
use koopa::ir::builder_traits::*;
use koopa::ir::*;

fn name_ok(n: &Option<String>) -> bool {
    match n {
        None => true,
        Some(n) => n.len() > 1 && (n.as_bytes()[0] == b'%' || n.as_bytes()[0] == b'@'),
    }
}

fn rname(r: &mut Rng) -> Option<String> {
    let pool = ["%", "@", "", "x", "%x", "@x", "%0", "@0", "x%", " %x", "é", "%é", "$a", "%%", "@@", "%x y", "12"];
    if r.chance(1, 6) { None } else { Some(r.pick(&pool).to_string()) }
}

/// outcome of a constructor: the new handle, or refused
fn expect(what: &str, got: Result<Value, String>, want: Option<(&str, Type, Vec<Value>)>, p: &Program, f: Option<Function>) -> Result<(), String> {
    match (got, want) {
        (Err(_), None) => Ok(()),
        (Err(e), Some(_)) => Err(format!("{what}: well-typed operands refused: {e}")),
        (Ok(v), None) => Err(format!("{what}: ill-typed operands accepted, created {v:?}")),
        (Ok(v), Some((k, t, ops))) => {
            let chk = |d: &entities::ValueData| {
                if kind_name(d.kind()) != k {
                    return Err(format!("{what}: created a {} value", kind_name(d.kind())));
                }
                if d.ty() != &t {
                    return Err(format!("{what}: result type {}, expected {t}", d.ty()));
                }
                if operands(d.kind()) != ops {
                    return Err(format!("{what}: operands {:?}, given {ops:?}", operands(d.kind())));
                }
                if !d.used_by().is_empty() || d.name().is_some() {
                    return Err(format!("{what}: a new value has users or a name"));
                }
                Ok(())
            };
            match f {
                Some(f) if !v.is_global() => chk(p.func(f).dfg().value(v)),
                _ => chk(&p.borrow_value(v)),
            }
        }
    }
}

pub fn run(c: &mut Ctx) {
    c.rule = "every constructor with randomly chosen operands, types and names (about half of them ill-typed): accepted exactly when the typing rule holds, result type, kind and operands as given".into();
    let o = Opts::small();
    let mut n = 0u64;
    while c.time_left() {
        n += 1;
        let seed = c.seed.wrapping_mul(1_000_003) ^ n;
        let mut r = Rng::new(seed);
        let mut p = Program::new();
        let fs: Vec<(Function, Vec<Type>, Type)> = (0..3)
            .map(|i| {
                let ps: Vec<Type> = (0..r.below(3)).map(|_| gen_type(&mut r, 2, &o)).collect();
                let ret = if r.chance(1, 3) { Type::get_unit() } else { gen_type(&mut r, 2, &o) };
                (p.new_func_def(format!("@f{i}"), ps.clone(), ret.clone()), ps, ret)
            })
            .collect();
        let f = fs[0].0;
        let mut vals: Vec<Value> = p.func(f).params().to_vec();
        let mut bbs: Vec<BasicBlock> = vec![];
        let mut globs: Vec<Value> = vec![];
        for i in 0..60 {
            let ty = |p: &Program, v: Value| if v.is_global() { p.borrow_value(v).ty().clone() } else { p.func(f).dfg().value(v).ty().clone() };
            let isc = |p: &Program, v: Value| {
                let k = if v.is_global() { kind_name(p.borrow_value(v).kind()) } else { kind_name(p.func(f).dfg().value(v).kind()) };
                matches!(k, "integer" | "zeroinit" | "undef" | "aggregate")
            };
            let rt = if r.chance(1, 8) { Type::get_unit() } else { gen_type(&mut r, 3, &o) };
            if vals.len() < 4 || bbs.is_empty() {
                // seed some material
                let v = gen_const(&mut r, &mut L(&mut p, f), &rt_nonunit(&rt), &o, 2);
                vals.push(v);
                let a = p.func_mut(f).dfg_mut().new_value().alloc(rt_nonunit(&rt));
                vals.push(a);
                let tys: Vec<Type> = (0..r.below(3)).map(|_| gen_type(&mut r, 1, &o)).collect();
                let b = p.func_mut(f).dfg_mut().new_bb().basic_block_with_params(None, tys);
                vals.extend(p.func(f).dfg().bb(b).params().iter().copied());
                bbs.push(b);
                continue;
            }
            let pickv = |r: &mut Rng, p: &Program, want: Option<&Type>| {
                if let Some(t) = want {
                    if r.chance(3, 4) {
                        let c: Vec<Value> = vals.iter().copied().filter(|v| &ty(p, *v) == t).collect();
                        if !c.is_empty() {
                            return *r.pick(&c);
                        }
                    }
                }
                *r.pick(&vals)
            };
            let i32t = Type::get_i32();
            // replacing constructor or fresh
            let k = r.below(20);
            let desc = format!("seed {seed} step {i} constructor {k}");
            let mut made: Option<Value> = None;
            let mut made_bb: Option<BasicBlock> = None;
            let mut made_g: Option<Value> = None;
            let vals2 = vals.clone();
            let bbs2 = bbs.clone();
            let globs2 = globs.clone();
            let fs2 = fs.clone();
            let pr = &mut p;
            let rr = &mut r;
            c.case("builders", desc, true, || {
                macro_rules! local {
                    ($what:expr, $want:expr, $b:ident => $call:expr) => {{
                        let got = quiet(|| {
                            let $b = pr.func_mut(f).dfg_mut().new_value();
                            $call
                        });
                        if let Ok(v) = &got {
                            made = Some(*v);
                        }
                        expect(&$what, got, $want, pr, Some(f))
                    }};
                }
                match k {
                    0 => local!(format!("integer"), Some(("integer", i32t.clone(), vec![])), b => b.integer(7)),
                    1 => local!(format!("zeroinit {rt}"), (!rt.is_unit()).then(|| ("zeroinit", rt.clone(), vec![])), b => b.zero_init(rt.clone())),
                    2 => local!(format!("undef {rt}"), (!rt.is_unit()).then(|| ("undef", rt.clone(), vec![])), b => b.undef(rt.clone())),
                    3 => {
                        let t = ty(pr, *rr.pick(&vals2));
                        let m = rr.below(4);
                        let e: Vec<Value> = (0..m).map(|_| pickv(rr, pr, Some(&t))).collect();
                        let ok = !e.is_empty() && e.iter().all(|v| isc(pr, *v)) && e.iter().all(|v| ty(pr, *v) == ty(pr, e[0])) && !ty(pr, e[0]).is_unit();
                        let want = ok.then(|| ("aggregate", Type::get_array(ty(pr, e[0]), e.len()), e.clone()));
                        local!(format!("aggregate of {:?}", e.iter().map(|v| ty(pr, *v)).collect::<Vec<_>>()), want, b => b.aggregate(e.clone()))
                    }
                    4 => local!(format!("alloc {rt}"), (!rt.is_unit()).then(|| ("alloc", Type::get_pointer(rt.clone()), vec![])), b => b.alloc(rt.clone())),
                    5 => {
                        let s = pickv(rr, pr, None);
                        let want = match ty(pr, s).kind() {
                            TypeKind::Pointer(t) => Some(("load", t.clone(), vec![s])),
                            _ => None,
                        };
                        local!(format!("load from {}", ty(pr, s)), want, b => b.load(s))
                    }
                    6 | 7 => {
                        let d = pickv(rr, pr, None);
                        let t = match ty(pr, d).kind() {
                            TypeKind::Pointer(t) => Some(t.clone()),
                            _ => None,
                        };
                        let v = pickv(rr, pr, t.as_ref());
                        let ok = t == Some(ty(pr, v));
                        local!(format!("store {} to {}", ty(pr, v), ty(pr, d)), ok.then(|| ("store", Type::get_unit(), vec![v, d])), b => b.store(v, d))
                    }
                    8 => {
                        let s = pickv(rr, pr, None);
                        let i = pickv(rr, pr, Some(&i32t));
                        let ok = matches!(ty(pr, s).kind(), TypeKind::Pointer(_)) && ty(pr, i).is_i32();
                        local!(format!("getptr {}, {}", ty(pr, s), ty(pr, i)), ok.then(|| ("getptr", ty(pr, s), vec![s, i])), b => b.get_ptr(s, i))
                    }
                    9 => {
                        let s = pickv(rr, pr, None);
                        let i = pickv(rr, pr, Some(&i32t));
                        let e = match ty(pr, s).kind() {
                            TypeKind::Pointer(t) => match t.kind() {
                                TypeKind::Array(e, _) => Some(e.clone()),
                                _ => None,
                            },
                            _ => None,
                        };
                        let want = if ty(pr, i).is_i32() { e.map(|e| ("getelemptr", Type::get_pointer(e), vec![s, i])) } else { None };
                        local!(format!("getelemptr {}, {}", ty(pr, s), ty(pr, i)), want, b => b.get_elem_ptr(s, i))
                    }
                    10 | 11 => {
                        let l = pickv(rr, pr, Some(&i32t));
                        let h = pickv(rr, pr, Some(&i32t));
                        let op = *rr.pick(&OPS);
                        let ok = ty(pr, l).is_i32() && ty(pr, h).is_i32();
                        let res = local!(format!("binary {}, {}", ty(pr, l), ty(pr, h)), ok.then(|| ("binary", i32t.clone(), vec![l, h])), b => b.binary(op, l, h));
                        if let (Some(v), true) = (made, res.is_ok()) {
                            if !matches!(pr.func(f).dfg().value(v).kind(), ValueKind::Binary(b) if b.op() == op) {
                                return Err("binary: wrong operator".into());
                            }
                        }
                        res
                    }
                    12 | 13 => {
                        let cnd = pickv(rr, pr, Some(&i32t));
                        let (t, e) = (*rr.pick(&bbs2), *rr.pick(&bbs2));
                        let with = k == 13;
                        let args = |rr: &mut Rng, pr: &Program, b: BasicBlock| -> Vec<Value> {
                            let tys: Vec<Type> = pr.func(f).dfg().bb(b).params().iter().map(|q| ty(pr, *q)).collect();
                            let mut a: Vec<Value> = tys.iter().map(|t| pickv(rr, pr, Some(t))).collect();
                            if rr.chance(1, 5) {
                                a.pop();
                            }
                            if rr.chance(1, 8) {
                                a.push(pickv(rr, pr, None));
                            }
                            a
                        };
                        let (ta, ea) = if with { (args(rr, pr, t), args(rr, pr, e)) } else { (vec![], vec![]) };
                        let fits = |b: BasicBlock, a: &[Value]| {
                            let ps = pr.func(f).dfg().bb(b).params();
                            ps.len() == a.len() && ps.iter().zip(a).all(|(x, y)| ty(pr, *x) == ty(pr, *y))
                        };
                        let ok = ty(pr, cnd).is_i32() && fits(t, &ta) && fits(e, &ea) && (t != e || (ta.is_empty() && ea.is_empty()));
                        let mut ops = vec![cnd];
                        ops.extend(&ta);
                        ops.extend(&ea);
                        let want = ok.then(|| ("branch", Type::get_unit(), ops));
                        let res = local!(format!("branch on {} to {t:?}{ta:?}, {e:?}{ea:?}", ty(pr, cnd)), want, b => if with { b.branch_with_args(cnd, t, e, ta.clone(), ea.clone()) } else { b.branch(cnd, t, e) });
                        if let (Some(v), true) = (made, res.is_ok()) {
                            match pr.func(f).dfg().value(v).kind() {
                                ValueKind::Branch(b) if b.true_bb() == t && b.false_bb() == e && b.true_args() == ta && b.false_args() == ea => {}
                                k => return Err(format!("branch: fields {k:?}")),
                            }
                        }
                        res
                    }
                    14 => {
                        let t = *rr.pick(&bbs2);
                        let tys: Vec<Type> = pr.func(f).dfg().bb(t).params().iter().map(|q| ty(pr, *q)).collect();
                        let with = rr.chance(2, 3);
                        let mut a: Vec<Value> = if with { tys.iter().map(|t| pickv(rr, pr, Some(t))).collect() } else { vec![] };
                        if with && rr.chance(1, 6) {
                            a.push(pickv(rr, pr, None));
                        }
                        let ok = tys.len() == a.len() && tys.iter().zip(&a).all(|(x, y)| x == &ty(pr, *y));
                        let res = local!(format!("jump {tys:?} with {a:?}"), ok.then(|| ("jump", Type::get_unit(), a.clone())), b => if with { b.jump_with_args(t, a.clone()) } else { b.jump(t) });
                        if let (Some(v), true) = (made, res.is_ok()) {
                            if targets(pr.func(f).dfg().value(v).kind()) != vec![t] {
                                return Err("jump: wrong target".into());
                            }
                        }
                        res
                    }
                    15 => {
                        let (cf, ps, ret) = rr.pick(&fs2).clone();
                        let mut a: Vec<Value> = ps.iter().map(|t| pickv(rr, pr, Some(t))).collect();
                        if rr.chance(1, 6) {
                            a.pop();
                        }
                        if rr.chance(1, 8) {
                            a.push(pickv(rr, pr, None));
                        }
                        let ok = ps.len() == a.len() && ps.iter().zip(&a).all(|(x, y)| x == &ty(pr, *y));
                        let res = local!(format!("call {ps:?} with {:?}", a.iter().map(|v| ty(pr, *v)).collect::<Vec<_>>()), ok.then(|| ("call", ret.clone(), a.clone())), b => b.call(cf, a.clone()));
                        if let (Some(v), true) = (made, res.is_ok()) {
                            if !matches!(pr.func(f).dfg().value(v).kind(), ValueKind::Call(x) if x.callee() == cf) {
                                return Err("call: wrong callee".into());
                            }
                        }
                        res
                    }
                    16 => {
                        let v = if rr.chance(1, 4) { None } else { Some(pickv(rr, pr, None)) };
                        let ok = v.is_none_or(|v| !ty(pr, v).is_unit());
                        local!(format!("ret {:?}", v.map(|v| ty(pr, v))), ok.then(|| ("return", Type::get_unit(), v.into_iter().collect())), b => b.ret(v))
                    }
                    17 => {
                        // blocks
                        let nm = rname(rr);
                        let ps: Vec<(Option<String>, Type)> = (0..rr.below(3)).map(|_| (if rr.chance(1, 2) { None } else { rname(rr) }, if rr.chance(1, 10) { Type::get_unit() } else { gen_type(rr, 2, &Opts::small()) })).collect();
                        let with = rr.below(3);
                        let ok = name_ok(&nm) && (with == 0 || ps.iter().all(|x| !x.1.is_unit())) && (with != 2 || ps.iter().all(|x| name_ok(&x.0)));
                        let got = quiet(|| {
                            let b = pr.func_mut(f).dfg_mut().new_bb();
                            match with {
                                0 => b.basic_block(nm.clone()),
                                1 => b.basic_block_with_params(nm.clone(), ps.iter().map(|x| x.1.clone()).collect()),
                                _ => b.basic_block_with_param_names(nm.clone(), ps.clone()),
                            }
                        });
                        match got {
                            Ok(_) if !ok => Err(format!("block {nm:?} {ps:?} accepted")),
                            Err(e) if ok => Err(format!("block {nm:?} {ps:?} refused: {e}")),
                            Err(_) => Ok(()),
                            Ok(b) => {
                                let d = pr.func(f).dfg().bb(b);
                                if d.name() != &nm || !d.used_by().is_empty() || d.params().len() != if with == 0 { 0 } else { ps.len() } {
                                    return Err(format!("block {nm:?}: name, users or parameter count wrong"));
                                }
                                for (i, (q, want)) in d.params().iter().zip(&ps).enumerate() {
                                    let qd = pr.func(f).dfg().value(*q);
                                    let n2 = if with == 2 { want.0.clone() } else { None };
                                    if qd.ty() != &want.1 || qd.name() != &n2 || !matches!(qd.kind(), ValueKind::BlockArgRef(a) if a.index() == i) {
                                        return Err(format!("block parameter {i}: {qd:?}, wanted {want:?}"));
                                    }
                                }
                                made_bb = Some(b);
                                Ok(())
                            }
                        }
                    }
                    18 => {
                        // names of values and functions
                        let nm = rname(rr);
                        let ok = name_ok(&nm);
                        let v = *rr.pick(&vals2);
                        if v.is_global() {
                            return Ok(());
                        }
                        let before = pr.func(f).dfg().value(v).name().clone();
                        let got = quiet(|| pr.func_mut(f).dfg_mut().set_value_name(v, nm.clone())).is_ok();
                        if got != ok {
                            return Err(format!("value name {nm:?} {}", if got { "accepted" } else { "refused" }));
                        }
                        let now = pr.func(f).dfg().value(v).name().clone();
                        if now != if ok { nm.clone() } else { before } {
                            return Err(format!("value name is {now:?} after setting {nm:?}"));
                        }
                        let fname = nm.clone().unwrap_or_default();
                        let ps: Vec<Type> = (0..rr.below(3)).map(|_| if rr.chance(1, 6) { Type::get_unit() } else { gen_type(rr, 2, &Opts::small()) }).collect();
                        let how = rr.below(3);
                        let pn: Vec<Option<String>> = ps.iter().map(|_| if rr.chance(1, 2) { rname(rr) } else { None }).collect();
                        let ok = nm.is_some() && name_ok(&nm) && ps.iter().all(|t| !t.is_unit()) && (how != 2 || pn.iter().all(name_ok));
                        let ret = if rr.chance(1, 3) { Type::get_unit() } else { gen_type(rr, 1, &Opts::small()) };
                        let got = quiet(|| {
                            let mut q = Program::new();
                            let h = match how {
                                0 => q.new_func_def(fname.clone(), ps.clone(), ret.clone()),
                                1 => q.new_func_decl(fname.clone(), ps.clone(), ret.clone()),
                                _ => q.new_func_def_with_param_names(fname.clone(), pn.iter().cloned().zip(ps.iter().cloned()).collect(), ret.clone()),
                            };
                            let d = q.func(h);
                            if d.name() != fname || d.ty() != &Type::get_function(ps.clone(), ret.clone()) {
                                return Err(format!("function {fname} created as {} of type {}", d.name(), d.ty()));
                            }
                            let np = if how == 1 { 0 } else { ps.len() };
                            if d.params().len() != np {
                                return Err("parameter count".to_string());
                            }
                            for (i, (a, t)) in d.params().iter().zip(&ps).enumerate() {
                                let ad = d.dfg().value(*a);
                                if ad.ty() != t || !matches!(ad.kind(), ValueKind::FuncArgRef(x) if x.index() == i) || ad.name() != if how == 2 { &pn[i] } else { &None } || !ad.used_by().is_empty() {
                                    return Err(format!("parameter {i}: {ad:?}"));
                                }
                            }
                            Ok(())
                        });
                        match got {
                            Ok(_) if !ok => Err(format!("function {fname:?} {ps:?} accepted")),
                            Err(e) if ok => Err(format!("function {fname:?} {ps:?} refused: {e}")),
                            Ok(Err(e)) => Err(e),
                            _ => Ok(()),
                        }
                    }
                    _ => {
                        // globals
                        let which = rr.below(4);
                        let el: Vec<Value> = if globs2.is_empty() { vec![] } else { (0..rr.below(3)).map(|_| *rr.pick(&globs2)).collect() };
                        let got = quiet(|| match which {
                            0 => pr.new_value().zero_init(rt.clone()),
                            1 => pr.new_value().aggregate(el.clone()),
                            2 => pr.new_value().global_alloc(if globs2.is_empty() { return pr.new_value().integer(3) } else { el.first().copied().unwrap_or(globs2[0]) }),
                            _ => pr.new_value().integer(3),
                        });
                        if let Ok(v) = &got {
                            made_g = Some(*v);
                        }
                        let want = match which {
                            0 => (!rt.is_unit()).then(|| ("zeroinit", rt.clone(), vec![])),
                            1 => (!el.is_empty() && el.iter().all(|v| isc(pr, *v)) && el.iter().all(|v| ty(pr, *v) == ty(pr, el[0]))).then(|| ("aggregate", Type::get_array(ty(pr, el[0]), el.len()), el.clone())),
                            2 if !globs2.is_empty() => {
                                let i = el.first().copied().unwrap_or(globs2[0]);
                                Some(("global-alloc", Type::get_pointer(ty(pr, i)), vec![i]))
                            }
                            _ => Some(("integer", i32t.clone(), vec![])),
                        };
                        expect(&format!("global constructor {which}"), got, want, pr, None)
                    }
                }
            });
            if let Some(v) = made {
                vals.push(v);
            }
            if let Some(b) = made_bb {
                vals.extend(p.func(f).dfg().bb(b).params().iter().copied());
                bbs.push(b);
            }
            if let Some(g) = made_g {
                globs.push(g);
                vals.push(g);
            }
            if !c.time_left() {
                break;
            }
        }
        let _ = c05::gen_ref;
    }
}

fn rt_nonunit(t: &Type) -> Type {
    if t.is_unit() { Type::get_i32() } else { t.clone() }
}
