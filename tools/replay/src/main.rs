//! Bounded replay search on the real crate: one module per property, each with an oracle written
//! from the property's statement.  usage: replay PROPERTY --seed N --budget-ms N --out FILE
mod c01;
mod c02;
mod c03;
mod c05;
mod c06;
mod c04;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod canon;
mod c16;
mod c17;
mod c18;
mod c19;
mod ctx;
mod gen_prog;
mod gen_text;
mod oracle;
mod reffront;
mod rng;
mod util;

use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || (c as u32) == 127 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let budget: u64 = get("--budget-ms").and_then(|s| s.parse().ok()).unwrap_or(5000);
    let out = get("--out");
    let pid = args.get(1).cloned().unwrap_or_default();
    if std::env::var("REPLAY_VERBOSE").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let run: fn(&mut ctx::Ctx) = match pid.as_str() {
        "C01" => c01::run,
        "C02" => c02::run,
        "C03" => c03::run,
        "C04" => c04::run,
        "C05" => c05::run,
        "C07" => c07::run,
        "C08" => c08::run,
        "C09" => c09::run,
        "C10" => c10::run,
        "C11" => c11::run,
        "C06" => c06::run,
        "C12" => c12::run,
        "C13" => c13::run,
        "C14" => c14::run,
        "C15" => c15::run,
        "C16" => c16::run,
        "C17" => c17::run,
        "C18" => c18::run,
        "C19" => c19::run,
        _ => {
            eprintln!("unknown property {pid}");
            std::process::exit(2)
        }
    };
    let curp = out.as_ref().map(|o| format!("{o}.cur"));
    let curp2 = curp.clone();
    // deep recursion in the code under test must not be cut short by a small main stack
    let c = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            let mut c = ctx::Ctx::new(seed, budget, curp2.as_deref());
            run(&mut c);
            c
        })
        .unwrap()
        .join()
        .expect("harness");
    let fails: Vec<String> = c
        .failures
        .iter()
        .map(|f| format!("{{\"key\":\"{}\",\"what\":\"{}\"}}", esc(&f.key), esc(&f.what)))
        .collect();
    let js = format!(
        "{{\"evaluations\":{},\"distinct\":{},\"rule\":\"{}\",\"samples\":[{}],\"failures\":[{}]}}\n",
        c.evals,
        c.seen.len(),
        esc(&c.rule),
        c.samples.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(","),
        fails.join(",")
    );
    match &out {
        Some(o) => std::fs::write(o, js).unwrap(),
        None => print!("{js}"),
    }
    if let Some(p) = curp {
        let _ = std::fs::remove_file(p);
    }
    std::process::exit(if c.failures.is_empty() { 0 } else { 1 });
}
