mod exec;
mod expr;
mod ir;
mod mem;
mod repair;
mod selftest;
mod solver;

use std::fmt::Write as _;
use std::time::{Duration, Instant};

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut ir_file = String::new();
    let mut entry = String::new();
    let mut out = String::new();
    let mut cfg = exec::Cfg {
        params: vec![],
        max_steps: 20_000_000,
        max_enum: 300,
        max_alloc: 64 << 20,
        deadline: Instant::now() + Duration::from_secs(600),
        max_viol: 8,
        max_mux: 4096,
        trace: false,
        merge: false,
        max_paths: u64::MAX,
    };
    let mut qt = 60_000u32;
    let mut i = 1;
    let t0 = Instant::now();
    while i < args.len() {
        let v = args.get(i + 1).cloned().unwrap_or_default();
        match args[i].as_str() {
            "--ir" => ir_file = v,
            "--entry" => entry = v,
            "--out" => out = v,
            "--params" => cfg.params = v.split(',').filter(|s| !s.is_empty()).map(|s| s.strip_prefix("0x").map_or_else(|| s.parse().unwrap(), |h| u64::from_str_radix(h, 16).unwrap())).collect(),
            "--steps" => cfg.max_steps = v.parse().unwrap(),
            "--enum" => cfg.max_enum = v.parse().unwrap(),
            "--alloc" => cfg.max_alloc = v.parse().unwrap(),
            "--time" => cfg.deadline = Instant::now() + Duration::from_secs(v.parse().unwrap()),
            "--viol" => cfg.max_viol = v.parse().unwrap(),
            "--mux" => cfg.max_mux = v.parse().unwrap(),
            "--paths" => cfg.max_paths = v.parse().unwrap(),
            "--query-ms" => qt = v.parse().unwrap(),
            "--merge" => {
                cfg.merge = true;
                i += 1;
                continue;
            }
            "--trace" => {
                cfg.trace = true;
                i += 1;
                continue;
            }
            "--selftest" => {
                selftest::run(v.parse().unwrap_or(20000));
                return;
            }
            x => {
                eprintln!("unknown argument {}", x);
                std::process::exit(2)
            }
        }
        i += 2;
    }
    // deep recursion in the simplifier on long expressions: run on a big stack
    let h = std::thread::Builder::new()
        .stack_size(4 << 30)
        .spawn(move || {
            let text = std::fs::read_to_string(&ir_file).expect("read IR");
            let m = ir::parse_module(text);
            let params = cfg.params.clone();
            let mut vm = exec::Vm::new(m, cfg, qt);
            vm.run_entry(&entry);
            let s = &vm.st;
            let q = &vm.sv.st;
            let mut o = String::new();
            let _ = write!(o, "{{\"entry\":{},\"params\":{:?}", jstr(&entry), params);
            let _ = write!(
                o,
                ",\"paths_done\":{},\"paths_assume\":{},\"paths_violating\":{},\"instructions\":{},\"forks\":{},\"merges\":{},\"symbolic_branches\":{},\"asserts\":{},\"asserts_symbolic\":{}",
                s.paths_done, s.paths_assume, s.paths_viol, s.insts, s.forks, s.merges, s.branches_symbolic, s.asserts, s.asserts_symbolic
            );
            let _ = write!(
                o,
                ",\"queries\":{},\"queries_sat\":{},\"queries_unsat\":{},\"queries_unknown\":{},\"queries_cached\":{},\"queries_witnessed\":{},\"solver_s\":{:.3},\"solver_max_s\":{:.3},\"expr_nodes\":{}",
                q.queries, q.sat, q.unsat, q.unknown, q.cached, q.guessed, q.time, q.max_time, vm.cx.nodes.len()
            );
            let _ = write!(o, ",\"wall_s\":{:.3}", t0.elapsed().as_secs_f64());
            let _ = write!(o, ",\"incomplete\":{}", s.incomplete.as_ref().map_or("null".into(), |x| jstr(x)));
            let m = |m: &std::collections::BTreeMap<String, u64>| {
                format!("{{{}}}", m.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(","))
            };
            let _ = write!(o, ",\"caps\":{},\"unsupported\":{}", m(&s.caps), m(&s.unsupported));
            let _ = write!(o, ",\"reach\":{:?}", s.reach.iter().collect::<Vec<_>>());
            let _ = write!(o, ",\"samples\":[{}]", s.samples.iter().map(|b| format!("\"{}\"", hex(b))).collect::<Vec<_>>().join(","));
            let mut fs: Vec<(&String, &(usize, std::collections::BTreeSet<u32>))> = vm.total_blocks.iter().collect();
            fs.sort();
            let _ = write!(
                o,
                ",\"functions\":[{}]",
                fs.iter().map(|(k, v)| format!("[{},{},{}]", jstr(k), v.1.len(), v.0)).collect::<Vec<_>>().join(",")
            );
            let _ = write!(
                o,
                ",\"violations\":[{}]}}",
                vm.viols
                    .iter()
                    .map(|v| format!(
                        "{{\"kind\":{},\"msg\":{},\"func\":{},\"trace\":[{}],\"input\":\"{}\"}}",
                        jstr(&v.kind),
                        jstr(&v.msg),
                        jstr(&v.func),
                        v.trace.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(","),
                        hex(&v.input)
                    ))
                    .collect::<Vec<_>>()
                    .join(",")
            );
            if out.is_empty() {
                println!("{}", o);
            } else {
                std::fs::write(&out, o).unwrap();
            }
            // skip destructors of a large expression store
            use std::io::Write;
            let _ = std::io::stdout().flush();
            std::process::exit(0);
        })
        .unwrap();
    let _ = h.join();
    std::process::exit(3);
}
