use crate::ctx::Ctx;
use crate::gen_prog::*;
use crate::rng::Rng;
use koopa::ir::*;
use koopa::opt::*;
use std::cell::RefCell;
use std::collections::HashSet;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
enum Ev {
    Module(usize, Vec<Function>),
    Func(usize, Function),
}
type Log = Rc<RefCell<Vec<Ev>>>;

struct M(usize, Log, u8);
impl ModulePass for M {
    fn run_on(&mut self, p: &mut Program) {
        let mut fs = p.func_layout().to_vec();
        fs.sort_by_key(|f| format!("{f:?}"));
        self.1.borrow_mut().push(Ev::Module(self.0, fs));
        match self.2 {
            1 => {
                p.new_func_decl("@added".into(), vec![], Type::get_unit());
            }
            2 => {
                if let Some(f) = p.func_layout().last().copied() {
                    if p.func_layout().len() > 1 {
                        p.remove_func(f);
                    }
                }
            }
            _ => {}
        }
    }
}
struct F(usize, Log);
impl FunctionPass for F {
    fn run_on(&mut self, f: Function, d: &mut FunctionData) {
        self.1.borrow_mut().push(Ev::Func(self.0, f));
        d.set_name(format!("{}_p{}", d.name(), self.0));
    }
}

pub fn run(c: &mut Ctx) {
    c.rule = "random pass pipelines (module passes that add/remove functions, function passes) over random programs, run 1..3 times: registration order, every function pass on every function exactly once, edits visible to later passes".into();
    let mut n = 0u64;
    while c.time_left() {
        n += 1;
        let seed = c.seed.wrapping_mul(1_000_003) ^ n;
        let mut r = Rng::new(seed);
        let np = r.below(6);
        let kinds: Vec<u8> = (0..np).map(|_| r.below(4) as u8).collect();
        let reps = 1 + r.below(3);
        let from = r.chance(1, 3);
        c.case("passes", format!("seed {seed}: pipeline {kinds:?} (0 module, 1 module adding, 2 module removing, 3 function) x{reps} from-vec {from}"), np > 0, || {
            let mut p = Program::new();
            for i in 0..r.below(5) {
                if r.chance(1, 3) {
                    p.new_func_decl(format!("@d{i}"), vec![], Type::get_i32());
                } else {
                    p.new_func_def(format!("@f{i}"), vec![gen_type(&mut r, 1, &Opts::small())], Type::get_unit());
                }
            }
            let log: Log = Default::default();
            let mut v: Vec<Pass> = vec![];
            for (i, k) in kinds.iter().enumerate() {
                v.push(if *k == 3 { Pass::Function(Box::new(F(i, log.clone()))) } else { Pass::Module(Box::new(M(i, log.clone(), *k))) });
            }
            let mut pm = if from {
                PassManager::from(v)
            } else {
                let mut pm = PassManager::new();
                for x in v {
                    pm.register(x);
                }
                pm
            };
            for _ in 0..reps {
                // expected: simulate on the model set of functions
                let mut layout = p.func_layout().to_vec();
                let before: HashSet<Function> = layout.iter().copied().collect();
                log.borrow_mut().clear();
                pm.run_passes(&mut p);
                let ev = log.borrow().clone();
                let mut at = 0;
                for (i, k) in kinds.iter().enumerate() {
                    if *k == 3 {
                        let mut seen = HashSet::new();
                        for _ in 0..layout.len() {
                            match ev.get(at) {
                                Some(Ev::Func(j, f)) if *j == i => {
                                    if !seen.insert(*f) {
                                        return Err(format!("function pass {i} ran twice on {f:?}"));
                                    }
                                }
                                e => return Err(format!("event {at} is {e:?}, expected function pass {i}")),
                            }
                            at += 1;
                        }
                        if seen != layout.iter().copied().collect() {
                            return Err(format!("function pass {i} ran on {seen:?}, program has {layout:?}"));
                        }
                    } else {
                        match ev.get(at) {
                            Some(Ev::Module(j, fs)) if *j == i => {
                                let mut w = layout.clone();
                                w.sort_by_key(|f| format!("{f:?}"));
                                // functions added by earlier passes are not known to the model by handle
                                let known: Vec<Function> = fs.iter().copied().filter(|f| before.contains(f) || layout.contains(f)).collect();
                                if fs.len() != w.len() || (known != w) {
                                    return Err(format!("module pass {i} saw {fs:?}, expected {w:?}"));
                                }
                                if *k == 1 {
                                    // learn the added handle from the next observation or the final program
                                    let next: Vec<Function> = ev[at + 1..]
                                        .iter()
                                        .find_map(|e| if let Ev::Module(_, fs) = e { Some(fs.clone()) } else { None })
                                        .unwrap_or_default();
                                    let mut all: Vec<Function> = ev[at + 1..].iter().filter_map(|e| if let Ev::Func(_, f) = e { Some(*f) } else { None }).collect();
                                    all.extend(next);
                                    all.extend(p.func_layout());
                                    let new: Vec<Function> = all.into_iter().filter(|f| !layout.contains(f) && !before.contains(f)).collect();
                                    let mut new2: Vec<Function> = vec![];
                                    for f in new {
                                        if !new2.contains(&f) {
                                            new2.push(f);
                                        }
                                    }
                                    new2.sort_by_key(|f| format!("{f:?}").chars().filter(|c| c.is_ascii_digit()).collect::<String>().parse::<u64>().unwrap_or(0));
                                    if let Some(f) = new2.first() {
                                        layout.push(*f);
                                    } else {
                                        // added and removed again with nothing in between
                                        return Ok(());
                                    }
                                } else if *k == 2 && layout.len() > 1 {
                                    layout.pop();
                                }
                            }
                            e => return Err(format!("event {at} is {e:?}, expected module pass {i}")),
                        }
                        at += 1;
                    }
                }
                if at != ev.len() {
                    return Err(format!("{} events after the last pass", ev.len() - at));
                }
                if p.func_layout() != layout {
                    return Err(format!("functions after the run: {:?}, expected {layout:?}", p.func_layout()));
                }
            }
            Ok(())
        });
    }
}
