mod exec;
mod expr;
mod ir;
mod mem;
mod parse;
mod solv;

use exec::*;
use std::collections::{BTreeMap, VecDeque};
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

struct Job {
    id: String,
    harness: String,
    params: Vec<i64>,
}
struct Task {
    job: usize,
    prefix: Vec<Dec>,
}
#[derive(Default)]
struct Acc {
    out: Out,
    pending: usize,
    stop: bool,
    tasks: u64,
    started: Option<Instant>,
    wall: f64,
    cpu: f64,
}
struct Shared {
    q: Mutex<(VecDeque<Task>, usize)>,
    cv: Condvar,
    idle: AtomicUsize,
    accs: Vec<Mutex<Acc>>,
    stops: Vec<AtomicBool>,
    done: Mutex<Box<dyn Write + Send>>,
}
struct D {
    s: Arc<Shared>,
    job: usize,
}
impl Donor for D {
    fn wanted(&self) -> bool {
        self.s.idle.load(Ordering::Relaxed) > 0
    }
    fn give(&self, prefix: Vec<Dec>) {
        self.s.accs[self.job].lock().unwrap().pending += 1;
        let mut q = self.s.q.lock().unwrap();
        q.0.push_back(Task { job: self.job, prefix });
        q.1 += 1;
        drop(q);
        self.s.cv.notify_one();
    }
    fn stop(&self) -> bool {
        self.s.stops[self.job].load(Ordering::Relaxed)
    }
}

fn esc(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            c if (c as u32) < 32 => r.push(' '),
            c => r.push(c),
        }
    }
    r.push('"');
    r
}
fn strs(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","))
}

fn merge(a: &mut Out, b: Out) {
    a.paths += b.paths;
    a.infeasible += b.infeasible;
    a.steps += b.steps;
    a.forks += b.forks;
    a.asserts += b.asserts;
    a.asserts_const += b.asserts_const;
    for (k, v) in b.covers {
        *a.covers.entry(k).or_insert(0) += v;
    }
    if a.funcs.is_empty() {
        a.funcs = b.funcs;
    } else {
        for (x, y) in a.funcs.iter_mut().zip(b.funcs) {
            *x |= y;
        }
    }
    a.violations.extend(b.violations);
    a.samples.extend(b.samples);
    for e in b.errors {
        if !a.errors.contains(&e) {
            a.errors.push(e);
        }
    }
    a.st.queries += b.st.queries;
    a.st.solver_calls += b.st.solver_calls;
    a.st.cached += b.st.cached;
    a.st.pooled += b.st.pooled;
    a.st.sat += b.st.sat;
    a.st.unsat += b.st.unsat;
    a.st.unknown += b.st.unknown;
    a.st.time += b.st.time;
    a.st.maxq = a.st.maxq.max(b.st.maxq);
    a.maxsyms = a.maxsyms.max(b.maxsyms);
    a.donated += b.donated;
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let get = |k: &str, d: &str| -> String {
        args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned().unwrap_or(d.to_string())
    };
    let ll = get("--ll", "");
    let jobs_file = get("--jobs", "");
    let outf = get("--out", "/dev/stdout");
    let threads: usize = get("--threads", "8").parse().unwrap();
    let tl: f64 = get("--time", "600").parse().unwrap();
    let jtl: f64 = get("--job-time", "1e9").parse().unwrap();
    let steps: u64 = get("--steps", "4000000").parse().unwrap();
    let max_viol: usize = get("--max-viol", "1").parse().unwrap();
    let dump = get("--dump", "");
    let dumpn: u64 = get("--dump-every", "50").parse().unwrap();

    let t0 = Instant::now();
    let text = std::fs::read_to_string(&ll).expect("ll file");
    let m = parse::Module::load(text).expect("module");
    let m: &'static parse::Module = Box::leak(Box::new(m));
    let mut jobs = Vec::new();
    for l in std::fs::read_to_string(&jobs_file).expect("jobs").lines() {
        let f: Vec<&str> = l.split_whitespace().collect();
        if f.len() < 2 || f[0].starts_with('#') {
            continue;
        }
        jobs.push(Job {
            id: f[0].into(),
            harness: f[1].into(),
            params: f[2..].iter().map(|x| x.parse().unwrap()).collect(),
        });
    }
    let jobs = Arc::new(jobs);
    let n = jobs.len();
    let shared = Arc::new(Shared {
        q: Mutex::new(((0..n).map(|j| Task { job: j, prefix: vec![] }).collect(), n)),
        cv: Condvar::new(),
        idle: AtomicUsize::new(0),
        accs: (0..n).map(|_| Mutex::new(Acc { pending: 1, ..Default::default() })).collect(),
        stops: (0..n).map(|_| AtomicBool::new(false)).collect(),
        done: Mutex::new(Box::new(std::io::BufWriter::new(std::fs::File::create(&outf).expect("out")))),
    });
    let load_s = t0.elapsed().as_secs_f64();
    let deadline = t0 + Duration::from_secs_f64(tl);
    let mut hs = Vec::new();
    for _ in 0..threads {
        let (shared, jobs, dump) = (shared.clone(), jobs.clone(), dump.clone());
        hs.push(
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn(move || loop {
                    let task = {
                        let mut q = shared.q.lock().unwrap();
                        loop {
                            if let Some(t) = q.0.pop_front() {
                                break t;
                            }
                            if q.1 == 0 {
                                shared.cv.notify_all();
                                return;
                            }
                            shared.idle.fetch_add(1, Ordering::Relaxed);
                            q = shared.cv.wait_timeout(q, Duration::from_millis(200)).unwrap().0;
                            shared.idle.fetch_sub(1, Ordering::Relaxed);
                        }
                    };
                    let j = task.job;
                    let job = &jobs[j];
                    let ts = Instant::now();
                    let deadline = {
                        let mut a = shared.accs[j].lock().unwrap();
                        let st = *a.started.get_or_insert(ts);
                        a.tasks += 1;
                        deadline.min(st + Duration::from_secs_f64(jtl.min(1e6)))
                    };
                    let donor = D { s: shared.clone(), job: j };
                    let donor: &'static D = Box::leak(Box::new(donor));
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        let mut e =
                            Exec::new(m, job.params.clone(), Limits { steps, deadline, max_viol }, donor);
                        if !dump.is_empty() {
                            e.set_dump(Some((dump.clone().into(), dumpn)));
                        }
                        e.run(&job.harness, task.prefix);
                        std::mem::take(&mut e.out)
                    }));
                    let o = match r {
                        Ok(o) => o,
                        Err(e) => {
                            let msg = e
                                .downcast_ref::<String>()
                                .cloned()
                                .or(e.downcast_ref::<&str>().map(|s| s.to_string()))
                                .unwrap_or_default();
                            Out { errors: vec![format!("engine panic: {}", msg)], ..Default::default() }
                        }
                    };
                    let mut a = shared.accs[j].lock().unwrap();
                    merge(&mut a.out, o);
                    a.cpu += ts.elapsed().as_secs_f64();
                    if a.out.violations.len() >= max_viol || a.out.errors.len() >= 3 {
                        a.stop = true;
                        shared.stops[j].store(true, Ordering::Relaxed);
                    }
                    a.pending -= 1;
                    if a.pending == 0 {
                        a.wall = a.started.unwrap().elapsed().as_secs_f64();
                        let line = report(m, &jobs[j], &a);
                        a.out = Out::default();
                        let mut w = shared.done.lock().unwrap();
                        let _ = writeln!(w, "{}", line);
                        let _ = w.flush();
                    }
                    drop(a);
                    let mut q = shared.q.lock().unwrap();
                    q.1 -= 1;
                    if q.1 == 0 {
                        shared.cv.notify_all();
                    }
                })
                .unwrap(),
        );
    }
    for h in hs {
        h.join().unwrap();
    }
    let mut w = shared.done.lock().unwrap();
    let _ = writeln!(
        w,
        "{{\"summary\":true,\"jobs\":{},\"load_s\":{:.2},\"wall_s\":{:.2},\"z3\":{}}}",
        n,
        load_s,
        t0.elapsed().as_secs_f64(),
        esc(&solv::version())
    );
    let _ = w.flush();
    drop(w);
    // skip destructors of big tables
    std::process::exit(0);
}

fn report(m: &parse::Module, job: &Job, a: &Acc) -> String {
    let o = &a.out;
    let funcs: Vec<String> = o
        .funcs
        .iter()
        .enumerate()
        .filter(|(_, b)| **b)
        .map(|(i, _)| m.func_name(i as u32).1.to_string())
        .collect();
    let covers: BTreeMap<u64, u64> = o.covers.clone();
    let cov: Vec<String> = covers.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect();
    let viol: Vec<String> = o
        .violations
        .iter()
        .map(|v| {
            format!(
                "{{\"kind\":{},\"msg\":{},\"syms\":[{}],\"trace\":{}}}",
                esc(&v.kind),
                esc(&v.msg),
                v.syms.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","),
                strs(&v.trace)
            )
        })
        .collect();
    let keep = (o.samples.len() + 23) / 24;
    let samples: Vec<String> = o
        .samples
        .iter()
        .step_by(keep.max(1))
        .map(|(v, h)| {
            format!(
                "{{\"syms\":[{}],\"h\":\"{:x}\"}}",
                v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","),
                h
            )
        })
        .collect();
    format!(
        "{{\"job\":{},\"harness\":{},\"params\":[{}],\"paths\":{},\"infeasible\":{},\"steps\":{},\"forks\":{},\"asserts\":{},\"asserts_const\":{},\"queries\":{},\"solver_calls\":{},\"cached\":{},\"pooled\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"wall_s\":{:.3},\"cpu_s\":{:.3},\"tasks\":{},\"symbols\":{},\"covers\":{{{}}},\"errors\":{},\"samples\":[{}],\"violations\":[{}],\"funcs\":{}}}",
        esc(&job.id),
        esc(&job.harness),
        job.params.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","),
        o.paths,
        o.infeasible,
        o.steps,
        o.forks,
        o.asserts,
        o.asserts_const,
        o.st.queries,
        o.st.solver_calls,
        o.st.cached,
        o.st.pooled,
        o.st.sat,
        o.st.unsat,
        o.st.unknown,
        o.st.time.as_secs_f64(),
        o.st.maxq.as_secs_f64(),
        a.wall,
        a.cpu,
        a.tasks,
        o.maxsyms,
        cov.join(","),
        strs(&o.errors),
        samples.join(","),
        viol.join(","),
        strs(&funcs)
    )
}
