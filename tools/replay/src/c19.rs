use crate::ctx::{Ctx, quiet};
use crate::rng::Rng;
use koopa::ir::builder_traits::*;
use koopa::ir::*;
use std::collections::HashSet;

pub fn run(c: &mut Ctx) {
    c.rule = "random histories of adding/removing functions and globals (including removal of unknown ones): order and membership of both listings against a model, signature available to callers".into();
    let mut n = 0u64;
    while c.time_left() {
        n += 1;
        let seed = c.seed.wrapping_mul(1_000_003) ^ n;
        let mut r = Rng::new(seed);
        let k = 5 + r.below(40);
        c.case("program", format!("seed {seed}: {k} edits"), true, || {
            let mut p = Program::new();
            let mut other = Program::new();
            let foreign = other.new_func_decl("@o".into(), vec![], Type::get_unit());
            let mut fs: Vec<(Function, String, Type, bool)> = vec![];
            let mut gone: Vec<Function> = vec![foreign];
            let mut gs: Vec<Value> = vec![];
            let mut consts: Vec<Value> = vec![];
            let mut log = String::new();
            for i in 0..k {
                match r.below(8) {
                    0 | 1 => {
                        let nm = format!("@f{i}");
                        let ps = vec![Type::get_i32(); r.below(3)];
                        let ty = Type::get_function(ps.clone(), Type::get_unit());
                        let decl = r.chance(1, 2);
                        let f = if decl { p.new_func_decl(nm.clone(), ps, Type::get_unit()) } else { p.new_func_def(nm.clone(), ps, Type::get_unit()) };
                        log.push_str(&format!("new {f:?}; "));
                        fs.push((f, nm, ty, decl));
                    }
                    2 => {
                        if !fs.is_empty() {
                            let j = r.below(fs.len());
                            let (f, nm, _, _) = fs.remove(j);
                            log.push_str(&format!("remove {f:?}; "));
                            match p.remove_func(f) {
                                Some(d) if d.name() == nm => {}
                                _ => return Err(format!("removal did not return the function\n  history: {log}")),
                            }
                            gone.push(f);
                        }
                    }
                    3 => {
                        let f = *r.pick(&gone);
                        log.push_str(&format!("remove unknown {f:?}; "));
                        match quiet(|| p.remove_func(f).is_none()) {
                            Ok(true) => {}
                            Ok(false) => return Err(format!("removing an unknown function returned data\n  history: {log}")),
                            Err(e) => return Err(format!("removing an unknown function panicked ({e}) instead of returning nothing\n  history: {log}")),
                        }
                    }
                    4 | 5 => {
                        let t = Type::get_array(Type::get_i32(), 1 + r.below(3));
                        let z = p.new_value().zero_init(t);
                        consts.push(z);
                        let g = p.new_value().global_alloc(z);
                        log.push_str(&format!("new global {g:?}; "));
                        gs.push(g);
                    }
                    6 => {
                        if !gs.is_empty() {
                            let j = r.below(gs.len());
                            let g = gs.remove(j);
                            log.push_str(&format!("remove global {g:?}; "));
                            let d = p.remove_value(g);
                            if !d.kind().is_global_alloc() {
                                return Err("removal returned other data".into());
                            }
                        }
                    }
                    _ => {
                        let un: Vec<usize> = (0..consts.len()).filter(|i| p.borrow_value(consts[*i]).used_by().is_empty()).collect();
                        if !un.is_empty() {
                            let v = consts.remove(*r.pick(&un));
                            log.push_str(&format!("remove constant {v:?}; "));
                            p.remove_value(v);
                        }
                    }
                }
                let want: Vec<Function> = fs.iter().map(|x| x.0).collect();
                if p.func_layout() != want {
                    return Err(format!("function order {:?}, expected {want:?}\n  history: {log}", p.func_layout()));
                }
                if p.funcs().keys().copied().collect::<HashSet<_>>() != want.iter().copied().collect() {
                    return Err(format!("functions {:?}, expected {want:?}\n  history: {log}", p.funcs().keys()));
                }
                if p.inst_layout() != gs {
                    return Err(format!("global order {:?}, expected {gs:?}\n  history: {log}", p.inst_layout()));
                }
                let all: HashSet<Value> = p.borrow_values().keys().copied().collect();
                if all != gs.iter().chain(&consts).copied().collect() {
                    return Err(format!("globals {all:?}, expected {gs:?} and {consts:?}\n  history: {log}"));
                }
                for (f, nm, ty, decl) in &fs {
                    let d = p.func(*f);
                    if d.name() != nm || d.ty() != ty || d.dfg().bbs().len() != 0 || (*decl && !d.params().is_empty()) {
                        return Err(format!("data of {f:?} changed\n  history: {log}"));
                    }
                }
                // every function is callable from every definition with its signature
                if let Some(d) = fs.iter().find(|x| !x.3).map(|x| x.0) {
                    for (f, _, ty, _) in &fs {
                        let n = match ty.kind() {
                            TypeKind::Function(p, _) => p.len(),
                            _ => 0,
                        };
                        let r = quiet(|| {
                            let one = p.func_mut(d).dfg_mut().new_value().integer(1);
                            let call = p.func_mut(d).dfg_mut().new_value().call(*f, vec![one; n]);
                            p.func_mut(d).dfg_mut().remove_value(call);
                            p.func_mut(d).dfg_mut().remove_value(one);
                        });
                        if let Err(e) = r {
                            return Err(format!("calling {f:?}: {e}\n  history: {log}"));
                        }
                    }
                    for f in &gone {
                        if quiet(|| p.func_mut(d).dfg_mut().new_value().call(*f, vec![])).is_ok() {
                            return Err(format!("call of the removed function {f:?} accepted\n  history: {log}"));
                        }
                    }
                }
            }
            Ok(())
        });
    }
}
