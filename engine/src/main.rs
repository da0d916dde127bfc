mod exec;
mod ffi;
mod fp;
mod llvm;
mod smt;
mod term;

use std::io::Write;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o
}

fn inputs_json(v: &[(String, u32, Vec<u128>)]) -> String {
    let x: Vec<String> = v
        .iter()
        .map(|(k, t, vals)| {
            let vs: Vec<String> = vals.iter().map(|x| format!("{}", *x as u64 as i64)).collect();
            format!("[\"{}\",{},[{}]]", k, t, vs.join(","))
        })
        .collect();
    format!("[{}]", x.join(","))
}

struct Job {
    id: String,
    entry: String,
    cpu: u64,
    max_paths: u64,
    traces: u32,
    params: Vec<i64>,
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut bcs = vec![];
    let mut jobs_f = String::new();
    let mut out_f = String::new();
    let mut threads = 8usize;
    let mut seed = 1u64;
    let mut z3 = "z3-new".to_string();
    let mut cvc5 = "cvc5".to_string();
    let (mut lia, mut bv, mut last) = (8000u64, 20000u64, 40000u64);
    let mut job_s = 300u64;
    let mut dump = None;
    let mut total_s = 3600u64;
    let mut i = 1;
    while i < args.len() {
        let nx = || args[i + 1].clone();
        match args[i].as_str() {
            "--bc" => bcs.push(nx()),
            "--jobs" => jobs_f = nx(),
            "--out" => out_f = nx(),
            "--threads" => threads = nx().parse().unwrap(),
            "--seed" => seed = nx().parse().unwrap(),
            "--z3" => z3 = nx(),
            "--cvc5" => cvc5 = nx(),
            "--lia-ms" => lia = nx().parse().unwrap(),
            "--bv-ms" => bv = nx().parse().unwrap(),
            "--last-ms" => last = nx().parse().unwrap(),
            "--job-s" => job_s = nx().parse().unwrap(),
            "--total-s" => total_s = nx().parse().unwrap(),
            "--dump" => dump = Some(nx()),
            x => {
                eprintln!("bad argument {}", x);
                std::process::exit(2);
            }
        }
        i += 2;
    }
    let t0 = Instant::now();
    let mut jobs = vec![];
    for l in std::fs::read_to_string(&jobs_f).expect("jobs").lines() {
        let f: Vec<&str> = l.split_whitespace().collect();
        if f.len() < 5 {
            continue;
        }
        jobs.push(Job {
            id: f[0].into(),
            entry: f[1].into(),
            cpu: u64::from_str_radix(f[2], 16).unwrap(),
            max_paths: f[3].parse().unwrap(),
            traces: f[4].parse().unwrap(),
            params: f[5..].iter().map(|x| x.parse().unwrap()).collect(),
        });
    }
    let mut ld = match llvm::Loader::new(&bcs) {
        Ok(l) => l,
        Err(e) => {
            eprintln!("{}", e);
            std::process::exit(2);
        }
    };
    for j in &jobs {
        if let Err(e) = ld.add_entry(&j.entry) {
            eprintln!("{}", e);
            std::process::exit(2);
        }
    }
    ld.finish();
    let prog = Arc::new(ld.p);
    let load_s = t0.elapsed().as_secs_f64();
    let nf = prog.funcs.iter().filter(|f| f.is_some()).count();
    eprintln!("loaded {} functions, {} instructions in {:.1}s; {} jobs", nf, prog.ninsts, load_s, jobs.len());
    let sh = smt::Shared::new(smt::Cfg { z3, cvc5, lia_ms: lia, bv_ms: bv, last_ms: last, dump, cross: 0 });
    let next = Arc::new(AtomicUsize::new(0));
    let outf = Arc::new(Mutex::new(std::io::BufWriter::new(std::fs::File::create(&out_f).expect("out"))));
    let jobs = Arc::new(jobs);
    let mut hs = vec![];
    for _ in 0..threads.max(1) {
        let (prog, sh, next, outf, jobs) = (prog.clone(), sh.clone(), next.clone(), outf.clone(), jobs.clone());
        hs.push(
            std::thread::Builder::new()
                .stack_size(1 << 30)
                .spawn(move || loop {
                    let k = next.fetch_add(1, Ordering::SeqCst);
                    if k >= jobs.len() {
                        break;
                    }
                    let j = &jobs[k];
                    let tj = Instant::now();
                    let dl = (tj + Duration::from_secs(job_s)).min(t0 + Duration::from_secs(total_s));
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        let mut ex = exec::Exec::new(
                            &prog,
                            smt::Solver::new(sh.clone()),
                            exec::Opts {
                                max_paths: j.max_paths,
                                max_steps: 200_000_000,
                                cpu: j.cpu,
                                params: j.params.clone(),
                                traces: j.traces,
                                seed: seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ (k as u64 + 77),
                                deadline: dl,
                            },
                        );
                        ex.run_job(prog.entry[&j.entry]);
                        std::mem::take(&mut ex.out)
                    }));
                    let mut o = match r {
                        Ok(o) => o,
                        Err(e) => {
                            let m = e
                                .downcast_ref::<String>()
                                .cloned()
                                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                                .unwrap_or_default();
                            let mut o = exec::JobOut::default();
                            o.errors.push(format!("engine panic: {}", m));
                            o
                        }
                    };
                    o.secs = tj.elapsed().as_secs_f64();
                    let viol: Vec<String> = o
                        .violations
                        .iter()
                        .map(|v| {
                            format!(
                                "{{\"kind\":\"{}\",\"id\":{},\"msg\":\"{}\",\"inputs\":{}}}",
                                esc(&v.kind),
                                v.id,
                                esc(&v.msg),
                                inputs_json(&v.inputs)
                            )
                        })
                        .collect();
                    let tr: Vec<String> = o
                        .traces
                        .iter()
                        .map(|(i, outs)| {
                            let os: Vec<String> = outs
                                .iter()
                                .map(|(t, b)| {
                                    format!("[{},\"{}\"]", t, b.iter().map(|x| format!("{:02x}", x)).collect::<String>())
                                })
                                .collect();
                            format!("{{\"inputs\":{},\"outs\":[{}]}}", inputs_json(i), os.join(","))
                        })
                        .collect();
                    let q = |v: &Vec<String>| v.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(",");
                    let line = format!(
                        "{{\"job\":\"{}\",\"paths\":{},\"steps\":{},\"blocks\":{},\"asserts\":{},\"trivial\":{},\"reach\":{:?},\"assert_ids\":{:?},\"forks\":{},\"merges\":{},\"terms\":{},\"secs\":{:.3},\"violations\":[{}],\"errors\":[{}],\"traces\":[{}],\"funcs\":[{}]}}",
                        esc(&j.id), o.paths, o.steps, o.blocks, o.asserts, o.trivially, o.reach, o.assert_ids, o.forks, o.merges, o.terms, o.secs,
                        viol.join(","), q(&o.errors), tr.join(","), q(&o.funcs)
                    );
                    let mut f = outf.lock().unwrap();
                    let _ = writeln!(f, "{}", line);
                    let _ = f.flush();
                })
                .unwrap(),
        );
    }
    for h in hs {
        let _ = h.join();
    }
    let st = sh.stats.lock().unwrap().clone();
    let by: Vec<String> = st.by.iter().map(|(k, v)| format!("\"{}\":[{},{:.2}]", k, v.0, v.1)).collect();
    let mut f = outf.lock().unwrap();
    let _ = writeln!(
        f,
        "{{\"summary\":true,\"functions\":{},\"instructions\":{},\"load_s\":{:.2},\"wall_s\":{:.2},\"queries\":{},\"solved\":{},\"cached\":{},\"unsat\":{},\"sat\":{},\"unknown\":{},\"solver_s\":{:.2},\"max_s\":{:.2},\"by\":{{{}}}}}",
        nf, prog.ninsts, load_s, t0.elapsed().as_secs_f64(), st.queries, st.solved, st.cached, st.unsat, st.sat, st.unknown, st.secs, st.max_s, by.join(",")
    );
    let _ = f.flush();
}
