//! LLVM output: accepted by LLVM, and computes what the program computes.
//! A reference interpreter over the public program interface is compared with the compiled output.
use crate::ctx::{Ctx, panic_text};
use crate::gen_prog::{Opts, gen_program};
use crate::rng::Rng;
use crate::util::{mute, print_llvm};
use koopa::ir::*;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::{Path, PathBuf};
use std::process::Command;

#[derive(Clone, Debug, PartialEq)]
enum V {
    I(i32),
    P(usize, i64),
    Null,
    A(Vec<i32>),
}
/// the run is not meaningful (undefined behaviour, or too long)
struct Skip;
struct M<'a> {
    p: &'a Program,
    mem: Vec<Vec<Option<i32>>>,
    globals: std::rc::Rc<HashMap<Value, usize>>,
    trace: Vec<i32>,
    steps: usize,
    depth: usize,
}

fn cells(t: &Type) -> usize {
    match t.kind() {
        TypeKind::Array(b, n) => n * cells(b),
        _ => 1,
    }
}
fn base(t: &Type) -> Type {
    match t.kind() {
        TypeKind::Pointer(b) => b.clone(),
        _ => unreachable!(),
    }
}
fn pack(t: &Type, v: Vec<i32>) -> V {
    if matches!(t.kind(), TypeKind::Array(..)) { V::A(v) } else { V::I(v[0]) }
}
fn flat(v: &V) -> Result<Vec<i32>, Skip> {
    match v {
        V::I(i) => Ok(vec![*i]),
        V::A(v) => Ok(v.clone()),
        _ => Err(Skip),
    }
}
fn konst(d: &dyn Fn(Value) -> entities::ValueData, v: Value) -> Result<V, Skip> {
    let x = d(v);
    Ok(match x.kind() {
        ValueKind::Integer(i) => V::I(i.value()),
        ValueKind::ZeroInit(_) => match x.ty().kind() {
            TypeKind::Pointer(_) => V::Null,
            _ => pack(x.ty(), vec![0; cells(x.ty())]),
        },
        ValueKind::Aggregate(a) => {
            let mut o = vec![];
            for e in a.elems() {
                o.extend(flat(&konst(d, *e)?)?);
            }
            V::A(o)
        }
        _ => return Err(Skip),
    })
}
pub fn eval(op: BinaryOp, a: i32, b: i32) -> Option<i32> {
    Some(match op {
        BinaryOp::NotEq => (a != b) as i32,
        BinaryOp::Eq => (a == b) as i32,
        BinaryOp::Gt => (a > b) as i32,
        BinaryOp::Lt => (a < b) as i32,
        BinaryOp::Ge => (a >= b) as i32,
        BinaryOp::Le => (a <= b) as i32,
        BinaryOp::Add => a.wrapping_add(b),
        BinaryOp::Sub => a.wrapping_sub(b),
        BinaryOp::Mul => a.wrapping_mul(b),
        BinaryOp::Div => a.checked_div(b)?,
        BinaryOp::Mod => a.checked_rem(b)?,
        BinaryOp::And => a & b,
        BinaryOp::Or => a | b,
        BinaryOp::Xor => a ^ b,
        BinaryOp::Shl if (0..32).contains(&b) => a << b,
        BinaryOp::Shr if (0..32).contains(&b) => ((a as u32) >> b) as i32,
        BinaryOp::Sar if (0..32).contains(&b) => a >> b,
        _ => return None,
    })
}
impl M<'_> {
    fn at(&mut self, v: &V, n: usize) -> Result<&mut [Option<i32>], Skip> {
        match v {
            V::P(a, o) if *o >= 0 && *o as usize + n <= self.mem[*a].len() => Ok(&mut self.mem[*a][*o as usize..*o as usize + n]),
            _ => Err(Skip),
        }
    }
    fn step_ptr(&self, v: &V, by: i64) -> Result<V, Skip> {
        match v {
            V::P(a, o) if o + by >= 0 && (o + by) as usize <= self.mem[*a].len() => Ok(V::P(*a, o + by)),
            _ => Err(Skip),
        }
    }
    fn call(&mut self, f: Function, args: Vec<V>) -> Result<Option<V>, Skip> {
        let fd = self.p.func(f);
        if fd.layout().entry_bb().is_none() {
            self.trace.push(flat(&args[0])?[0]);
            return Ok(None);
        }
        self.depth += 1;
        if self.depth > 50 {
            return Err(Skip);
        }
        let mut env: HashMap<Value, V> = fd.params().iter().copied().zip(args).collect();
        let mut bb = fd.layout().entry_bb().unwrap();
        'block: loop {
            for &i in fd.layout().bbs().node(&bb).unwrap().insts().keys() {
                self.steps += 1;
                if self.steps > 20000 {
                    return Err(Skip);
                }
                let d = fd.dfg().value(i);
                let p = self.p;
                let globals = self.globals.clone();
                let get = |env: &HashMap<Value, V>, v: Value| -> Result<V, Skip> {
                    if v.is_global() {
                        return Ok(V::P(globals[&v], 0));
                    }
                    if let Some(x) = env.get(&v) {
                        return Ok(x.clone());
                    }
                    konst(&|v| fd.dfg().value(v).clone(), v)
                };
                let int = |env: &HashMap<Value, V>, v: Value| -> Result<i32, Skip> {
                    match get(env, v)? {
                        V::I(i) => Ok(i),
                        _ => Err(Skip),
                    }
                };
                let ty = |v: Value| if v.is_global() { p.borrow_value(v).ty().clone() } else { fd.dfg().value(v).ty().clone() };
                let mut jump: Option<(BasicBlock, Vec<Value>)> = None;
                let r = match d.kind() {
                    ValueKind::Alloc(_) => {
                        let n = cells(&base(d.ty()));
                        self.mem.push(vec![None; n]);
                        Some(V::P(self.mem.len() - 1, 0))
                    }
                    ValueKind::Load(l) => {
                        let a = get(&env, l.src())?;
                        let v: Option<Vec<i32>> = self.at(&a, cells(d.ty()))?.iter().copied().collect();
                        Some(pack(d.ty(), v.ok_or(Skip)?))
                    }
                    ValueKind::Store(s) => {
                        let v = flat(&get(&env, s.value())?)?;
                        let a = get(&env, s.dest())?;
                        for (c, x) in self.at(&a, v.len())?.iter_mut().zip(v) {
                            *c = Some(x);
                        }
                        None
                    }
                    ValueKind::GetPtr(g) => {
                        let a = get(&env, g.src())?;
                        let k = int(&env, g.index())? as i64 * cells(&base(&ty(g.src()))) as i64;
                        Some(self.step_ptr(&a, k)?)
                    }
                    ValueKind::GetElemPtr(g) => {
                        let a = get(&env, g.src())?;
                        let k = int(&env, g.index())? as i64 * cells(&base(d.ty())) as i64;
                        Some(self.step_ptr(&a, k)?)
                    }
                    ValueKind::Binary(b) => Some(V::I(eval(b.op(), int(&env, b.lhs())?, int(&env, b.rhs())?).ok_or(Skip)?)),
                    ValueKind::Branch(b) => {
                        jump = Some(if int(&env, b.cond())? != 0 { (b.true_bb(), b.true_args().to_vec()) } else { (b.false_bb(), b.false_args().to_vec()) });
                        None
                    }
                    ValueKind::Jump(j) => {
                        jump = Some((j.target(), j.args().to_vec()));
                        None
                    }
                    ValueKind::Call(c) => {
                        let mut a = vec![];
                        for x in c.args() {
                            a.push(get(&env, *x)?);
                        }
                        self.call(c.callee(), a)?
                    }
                    ValueKind::Return(r) => {
                        self.depth -= 1;
                        return match r.value() {
                            Some(v) => Ok(Some(get(&env, v)?)),
                            None => Ok(None),
                        };
                    }
                    _ => unreachable!(),
                };
                if let Some((t, a)) = jump {
                    // all arguments are read before any parameter changes
                    let mut vs = vec![];
                    for x in a {
                        vs.push(get(&env, x)?);
                    }
                    for (q, v) in fd.dfg().bb(t).params().iter().zip(vs) {
                        env.insert(*q, v);
                    }
                    bb = t;
                    continue 'block;
                }
                if let Some(v) = r {
                    env.insert(i, v);
                }
            }
            return Err(Skip);
        }
    }
}

/// the output a run must produce: printed integers, the result, and the final globals
fn reference(p: &Program) -> Result<String, Skip> {
    let mut m = M { p, mem: vec![], globals: Default::default(), trace: vec![], steps: 0, depth: 0 };
    for &g in p.inst_layout() {
        let init = match p.borrow_value(g).kind() {
            ValueKind::GlobalAlloc(a) => a.init(),
            _ => unreachable!(),
        };
        let v = flat(&konst(&|v| p.borrow_value(v).clone(), init)?)?;
        std::rc::Rc::get_mut(&mut m.globals).unwrap().insert(g, m.mem.len());
        m.mem.push(v.into_iter().map(Some).collect());
    }
    let main = *p.func_layout().last().unwrap();
    let r = m.call(main, vec![])?.ok_or(Skip)?;
    let mut o = String::new();
    for t in &m.trace {
        let _ = write!(o, "{t} ");
    }
    let _ = write!(o, "={} |", flat(&r)?[0]);
    for g in p.inst_layout() {
        for c in &m.mem[m.globals[g]] {
            let _ = write!(o, " {}", c.unwrap());
        }
    }
    Ok(o)
}

/// global names are made distinct per program, except the external function
fn rename(ll: &str, k: usize) -> String {
    let mut o = String::new();
    let mut parts = ll.split('@');
    o.push_str(parts.next().unwrap());
    for p in parts {
        if p.starts_with("putint") && !p[6..].starts_with(|c: char| c.is_alphanumeric() || "$._-".contains(c)) {
            let _ = write!(o, "@{p}");
        } else {
            let _ = write!(o, "@p{k}_{p}");
        }
    }
    o.replace("declare void @putint(i32)\n", "")
}
/// names of the global variables, in order
fn global_names(ll: &str) -> Vec<String> {
    ll.lines().filter(|l| l.starts_with('@')).map(|l| l[1..].split(" = ").next().unwrap().to_string()).collect()
}

struct Dir(PathBuf);
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
fn clang(dir: &Path, args: &[&str]) -> Result<(), String> {
    let o = Command::new("timeout").arg("60").arg("clang").args(["-w"]).args(args).current_dir(dir).output().map_err(|e| e.to_string())?;
    if o.status.success() { Ok(()) } else { Err(String::from_utf8_lossy(&o.stderr).chars().take(600).collect()) }
}

/// compiles and runs a batch; the lines printed, or what LLVM says
fn run_batch(dir: &Path, batch: &[(Program, String, String, u64)], opt: &str) -> Result<Vec<String>, String> {
    let mut ll = String::from("declare void @putint(i32)\n");
    let mut c = String::from("#include <stdio.h>\nvoid putint(int x){printf(\"%d \",x);}\n");
    let mut calls = String::new();
    for (k, (p, text, _, _)) in batch.iter().enumerate() {
        ll.push_str(&rename(text, k));
        ll.push('\n');
        let _ = writeln!(c, "int p{k}_main(void);");
        let _ = writeln!(calls, "r=p{k}_main();printf(\"=%d |\",r);");
        for (n, g) in global_names(text).iter().zip(p.inst_layout()) {
            let n = format!("p{k}_{n}");
            let sz = cells(&base(p.borrow_value(*g).ty()));
            let id = format!("g{k}_{}", n.bytes().map(|b| format!("{b:02x}")).collect::<String>());
            let _ = writeln!(c, "extern int {id}[{sz}] __asm__(\"{n}\");");
            let _ = writeln!(calls, "for(int i=0;i<{sz};i++)printf(\" %d\",{id}[i]);");
        }
        let _ = writeln!(calls, "printf(\"\\n\");fflush(stdout);");
    }
    let _ = writeln!(c, "int main(){{int r;\n{calls}return 0;}}");
    std::fs::write(dir.join("b.ll"), &ll).map_err(|e| e.to_string())?;
    std::fs::write(dir.join("m.c"), &c).map_err(|e| e.to_string())?;
    clang(dir, &[opt, "-o", "b", "-x", "ir", "b.ll", "-x", "c", "m.c"])?;
    let o = Command::new("timeout").arg("30").arg("./b").current_dir(dir).output().map_err(|e| e.to_string())?;
    Ok(String::from_utf8_lossy(&o.stdout).lines().map(|s| s.to_string()).collect())
}

pub fn run(c: &mut Ctx) {
    c.rule = "random well-formed programs (integers, arrays, pointers, loops, block parameters, calls) compiled from the LLVM output with clang at -O0 and -O2: printed values, results and final globals against a reference interpreter; further programs of all types accepted by LLVM".into();
    mute();
    let d = Dir(std::env::temp_dir().join(format!("koopa-c11-{}", std::process::id())));
    let _ = std::fs::create_dir_all(&d.0);
    let mut round = 0;
    while c.time_left() {
        round += 1;
        if round % 4 == 0 {
            validity(c, &d.0);
            continue;
        }
        let mut batch = vec![];
        while batch.len() < 24 && c.time_left() {
            let s = c.rng.next();
            let mut r = Rng::new(s);
            let o = Opts {
                max_funcs: 1 + r.below(3),
                max_bbs: *r.pick(&[1, 3, 6, 10]),
                max_insts: *r.pick(&[3, 6, 12]),
                named: *r.pick(&[0, 30, 60, 100]),
                odd_names: r.chance(1, 4),
                ..Opts::exec()
            };
            let p = gen_program(&mut r, &o);
            c.current(&format!("seed {s} {o:?}"));
            let want = match reference(&p) {
                Ok(w) => w,
                Err(Skip) => continue,
            };
            if let Err(e) = crate::util::failing_writes(&p, true, &mut r, 8) {
                c.fail("write error", format!("{e} (seed {s} {o:?})"));
            }
            match catch_unwind(AssertUnwindSafe(|| print_llvm(&p))) {
                Ok(t) => {
                    c.note(&format!("{want}\n{t}"), true);
                    batch.push((p, t, want, s));
                }
                Err(e) => c.fail("panic", format!("printing panicked: {} (seed {s} {o:?})", panic_text(e))),
            }
        }
        let opt = if round % 2 == 0 { "-O2" } else { "-O0" };
        match run_batch(&d.0, &batch, opt) {
            Ok(got) if got.len() == batch.len() && got.iter().zip(&batch).all(|(g, b)| *g == b.2) => {}
            _ => {
                // one at a time
                let mut found = false;
                for b in batch {
                    let one = [b];
                    match run_batch(&d.0, &one, opt) {
                        Err(e) => {
                            found = true;
                            c.fail("rejected", format!("LLVM rejects the output: {e}\n{}", one[0].1));
                        }
                        Ok(g) => {
                            let g = g.first().cloned().unwrap_or_default();
                            if g != one[0].2 {
                                found = true;
                                c.fail("result", format!("the output ({opt}) computes `{g}`, the program `{}`\n{}", one[0].2, one[0].1));
                            }
                        }
                    }
                    if !c.time_left() && found {
                        break;
                    }
                }
            }
        }
    }
}

/// programs of all types: LLVM accepts the text
fn validity(c: &mut Ctx, dir: &Path) {
    let mut all = vec![];
    for _ in 0..40 {
        let s = c.rng.next();
        let mut r = Rng::new(s);
        let odd = r.chance(1, 4);
        let o = Opts {
            max_funcs: 1 + r.below(3),
            max_bbs: *r.pick(&[1, 3, 6, 12]),
            max_insts: *r.pick(&[2, 5, 10]),
            named: *r.pick(&[0, 30, 60, 100]),
            odd_names: odd,
            // the text grammar has no name like `@0`
            text: odd || r.chance(1, 2),
            ..Opts::small()
        };
        let p = gen_program(&mut r, &o);
        c.current(&format!("seed {s} {o:?}"));
        match catch_unwind(AssertUnwindSafe(|| print_llvm(&p))) {
            Ok(t) => {
                c.note(&t, true);
                all.push(t);
            }
            Err(e) => c.fail("panic", format!("printing panicked: {} (seed {s} {o:?})", panic_text(e))),
        }
    }
    let check = |ts: &[String]| -> Result<(), String> {
        let mut ll = String::new();
        for (k, t) in ts.iter().enumerate() {
            ll.push_str(&rename(t, k));
            ll.push('\n');
        }
        std::fs::write(dir.join("v.ll"), &ll).map_err(|e| e.to_string())?;
        clang(dir, &["-O0", "-S", "-emit-llvm", "-o", "v.out", "-x", "ir", "v.ll"])
    };
    if check(&all).is_err() {
        for t in all {
            if let Err(e) = check(&[t.clone()]) {
                c.fail("rejected", format!("LLVM rejects the output: {e}\n{t}"));
            }
        }
    }
}
