//! Concurrent calls from several threads, every interleaving at their locks (each in a process of
//! its own, as the caches are global).
use crate::hashref::m;
use crate::orders::*;
use crate::refs::*;
use crate::stark::*;
use fields::field_gl::Fr as FGL;
use mc_common::*;
use mc_sync::sched;
use serde_json::{json, Value};
use starky::f3g::F3G;
use starky::fft_p;
use starky::traits::FieldExtension;
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::sync::{Arc, Mutex};
use std::time::Duration;

#[derive(Clone, Copy, Debug)]
enum Op {
    Fft(usize),
    Ifft(usize),
    Ext(usize, usize),
    Rev(usize),
    Br(usize, usize),
    /// several calls in turn
    Brs(usize),
    Prove,
}
use Op::*;
/// (calls made before, concurrent calls, preemption bound quick, thorough)
const SCENARIOS: &[(&[Op], &[Op], usize, usize)] = &[
    (&[], &[Fft(3), Fft(3)], 99, 99),
    (&[], &[Fft(3), Fft(4)], 99, 99),
    (&[], &[Fft(2), Ifft(2)], 99, 99),
    (&[], &[Ext(2, 3), Fft(3)], 99, 99),
    (&[], &[Ext(2, 3), Ext(2, 3)], 3, 99),
    (&[], &[Ext(2, 3), Ifft(2)], 99, 99),
    (&[], &[Rev(3), Br(5, 3)], 99, 99),
    (&[], &[Br(1, 3), Br(6, 3), Br(3, 3)], 99, 99),
    (&[], &[Brs(3), Brs(3)], 3, 99),
    (&[], &[Brs(3), Fft(3)], 3, 99),
    (&[], &[Fft(3), Fft(3), Fft(3)], 2, 4),
    (&[], &[Fft(3), Ifft(3), Br(7, 3)], 2, 4),
    (&[Fft(3)], &[Fft(3), Fft(3)], 99, 99),
    (&[Fft(3)], &[Brs(3), Ext(2, 3)], 3, 99),
    (&[Br(2, 3)], &[Ifft(3), Fft(3)], 99, 99),
    (&[], &[Prove, Prove], 1, 2),
    (&[], &[Prove, Fft(3)], 1, 2),
];
fn input(k: usize) -> Vec<u64> {
    (0..1u64 << k).map(|i| m(i + 77)).collect()
}
fn ints(b: &[F3G]) -> Vec<u64> {
    b.iter().map(|x| x.to_be().as_int()).collect()
}
fn exec(o: Op) -> Value {
    num_cpus::set(4);
    let src = |k: usize| f3(&input(k));
    match o {
        Fft(k) => {
            let mut d = vec![F3G::ZERO; 1 << k];
            fft_p::fft(&src(k), 1, k, &mut d);
            json!(ints(&d))
        }
        Ifft(k) => {
            let mut d = vec![F3G::ZERO; 1 << k];
            fft_p::ifft(&src(k), 1, k, &mut d);
            json!(ints(&d))
        }
        Ext(k, x) => {
            let mut d = vec![F3G::ZERO; 1 << x];
            fft_p::interpolate(&src(k), 1, k, &mut d, x);
            json!(ints(&d))
        }
        Rev(k) => {
            let mut d = vec![F3G::ZERO; 1 << k];
            fft_p::bit_reverse(&mut d, &src(k), 1, k);
            json!(ints(&d))
        }
        Br(x, k) => json!(fft_p::BR(x, k)),
        Brs(k) => json!([7usize, 0, 5].map(|x| fft_p::BR(x % (1 << k), k))),
        Prove => {
            let a = perm(3, 1, 0);
            let i = match Inst::<Gl>::new(&a, &Par::new(3, 1, 1, &[2])) {
                Ok(i) => i,
                Err(e) => return json!(e),
            };
            match i.prove(&a) {
                Ok(p) => json!([i.verify(&p) == Ok(true), Inst::<Gl>::json(&p)]),
                Err(e) => json!(e),
            }
        }
    }
}
fn want(o: Op) -> Option<Value> {
    let rev = |x: usize, k: usize| x.reverse_bits() >> (usize::BITS as usize - k);
    Some(match o {
        Fft(k) => json!(ref_fft(&input(k), k)),
        Ifft(k) => json!(ref_ifft(&input(k), k)),
        Ext(k, x) => json!(ref_ext(&input(k), x)),
        Rev(k) => {
            let v = input(k);
            json!((0..v.len()).map(|i| v[rev(i, k)]).collect::<Vec<_>>())
        }
        Br(x, k) => json!(rev(x, k)),
        Brs(k) => json!([7usize, 0, 5].map(|x| rev(x % (1 << k), k))),
        Prove => return None,
    })
}

/// one schedule in a child process: (choices, ended, results)
fn one(before: &[Op], ops: &[Op], prefix: &[usize]) -> Result<(Vec<sched::Choice>, bool, Vec<Value>), String> {
    let mut fds = [0i32; 2];
    unsafe {
        assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
        let pid = libc::fork();
        if pid < 0 {
            libc::close(fds[0]);
            libc::close(fds[1]);
            return Err("fork".into());
        }
        if pid == 0 {
            libc::close(fds[0]);
            libc::alarm(60);
            let mut w = std::fs::File::from_raw_fd(fds[1]);
            before.iter().for_each(|o| drop(exec(*o)));
            let res: Arc<Mutex<Vec<Value>>> = Arc::new(Mutex::new(vec![json!("no result"); ops.len()]));
            let th: Vec<Box<dyn FnOnce() + Send>> = ops
                .iter()
                .enumerate()
                .map(|(i, o)| {
                    let (res, o) = (res.clone(), *o);
                    Box::new(move || {
                        let r = guard(|| exec(o)).unwrap_or_else(|e| json!(format!("panicked: {e}")));
                        res.lock().unwrap()[i] = r;
                    }) as Box<dyn FnOnce() + Send>
                })
                .collect();
            let (tr, ok) = sched::run(th, prefix);
            let tr: Vec<Value> = tr.iter().map(|c| json!([c.enabled, c.took, c.was])).collect();
            let out = json!([tr, ok, *res.lock().unwrap()]);
            let _ = w.write_all(out.to_string().as_bytes());
            drop(w);
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut t = String::new();
        let _ = std::fs::File::from_raw_fd(fds[0]).read_to_string(&mut t);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        let v: Value = serde_json::from_str(&t).map_err(|_| if libc::WIFSIGNALED(st) && libc::WTERMSIG(st) == libc::SIGALRM { "hang".to_string() } else { format!("ended with status {st}") })?;
        let us = |v: &Value| v.as_u64().unwrap() as usize;
        let tr = v[0].as_array().unwrap().iter().map(|c| sched::Choice { enabled: c[0].as_array().unwrap().iter().map(us).collect(), took: us(&c[1]), was: c[2].as_u64().map(|x| x as usize) }).collect();
        Ok((tr, v[1] == json!(true), v[2].as_array().unwrap().clone()))
    }
}

/// `cell SCENARIO TIER`: explores one scenario, prints a JSON line
pub fn cell_main(a: &[String]) -> i32 {
    quiet_all(true);
    let (before, ops, q, t) = SCENARIOS[a[0].parse::<usize>().unwrap()];
    let bound = if a[1] == "thorough" { t } else { q };
    let mut bad: Vec<String> = vec![];
    // what the calls return on their own
    let wants: Vec<Value> = ops
        .iter()
        .map(|o| want(*o).unwrap_or_else(|| match one(before, &[*o], &[]) {
            Ok((_, true, r)) if r[0][0] == json!(true) => r[0].clone(),
            r => {
                bad.push(format!("{o:?} alone: {}", format!("{r:?}").chars().take(200).collect::<String>()));
                json!(null)
            }
        }))
        .collect();
    let (mut n, mut deepest) = (0u64, 0);
    let mut stack: Vec<Vec<usize>> = vec![vec![]];
    let limit = if a[1] == "thorough" { 400_000 } else { 20_000 };
    let mut complete = true;
    while let Some(p) = stack.pop() {
        if bad.len() >= 3 {
            break;
        }
        if n >= limit {
            complete = false;
            break;
        }
        n += 1;
        match one(before, ops, &p) {
            Err(e) => bad.push(format!("schedule {p:?}: {e}")),
            Ok((tr, ok, res)) => {
                let took: Vec<usize> = tr.iter().map(|c| c.took).collect();
                deepest = deepest.max(took.len());
                if !ok {
                    bad.push(format!("schedule {took:?}: deadlock"));
                    continue;
                }
                for (i, r) in res.iter().enumerate() {
                    if *r != wants[i] {
                        bad.push(format!("schedule {took:?}: {:?} gives {}, not {}", ops[i], r.to_string().chars().take(160).collect::<String>(), wants[i].to_string().chars().take(160).collect::<String>()));
                    }
                }
                let mut pre = 0;
                for (k, c) in tr.iter().enumerate() {
                    if k >= p.len() {
                        for alt in &c.enabled {
                            if *alt != c.took && pre + (c.was.is_some_and(|w| w != *alt)) as usize <= bound {
                                let mut q = took[..k].to_vec();
                                q.push(*alt);
                                stack.push(q);
                            }
                        }
                    }
                    pre += (c.was.is_some_and(|w| w != c.took)) as usize;
                }
            }
        }
    }
    println!("{}", json!({"before": format!("{before:?}"), "calls": format!("{ops:?}"), "preemptions": if bound > 50 { json!("unbounded") } else { json!(bound) }, "schedules": n, "choices": deepest, "complete": complete, "bad": bad}));
    0
}

pub fn run(mc: &Mc) {
    let items: Vec<usize> = (0..SCENARIOS.len()).rev().collect();
    let out = Mutex::new(std::collections::BTreeMap::new());
    par(&items, |&i| {
        let r = match cell(&["P25".into(), i.to_string(), mc.tier.clone()], &[], None, Duration::from_secs(mc.pick(400, 7200))) {
            Child::Out(t) => serde_json::from_str::<Value>(t.trim()).unwrap_or(json!({"bad": [t]})),
            c => json!({"bad": [format!("{c:?}")]}),
        };
        out.lock().unwrap().insert(i, r);
    });
    for (i, r) in out.into_inner().unwrap() {
        let n = r["schedules"].as_u64().unwrap_or(0);
        mc.states(n);
        mc.transitions(n * r["choices"].as_u64().unwrap_or(0));
        mc.traces(n);
        mc.evals(n, n);
        if r["complete"] == json!(false) {
            mc.exhaustive(false);
        }
        for b in r["bad"].as_array().unwrap() {
            mc.fail(&format!("concurrent {:?} after {:?}", SCENARIOS[i].1, SCENARIOS[i].0), b.as_str().unwrap_or(""), json!({"schedule": b}));
        }
        let mut s = r.clone();
        s.as_object_mut().unwrap().remove("bad");
        mc.section(&format!("interleavings {i}"), s);
    }
    let _ = FGL::ONE;
}
