//! Conformance of the simulated network with the real one: every script of up to so many operations of a
//! client and of the serving code on one connection is run on the simulation (all of its choices) and with
//! real tokio on the loopback interface; what happens there has to be possible in the simulation.
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio as st;
use tokio::real_tokio as rt;
use tokio::sim::{self, Act, Policy, Setup};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Op {
    // the client
    Send,
    Fin,
    Close,
    Reset,
    // the code
    Read,
    Write,
    Shutdown,
    DropRead,
    DropWrite,
}
use Op::*;
const OPS: [Op; 9] = [Send, Fin, Close, Reset, Read, Write, Shutdown, DropRead, DropWrite];
fn of_client(o: Op) -> bool {
    matches!(o, Send | Fin | Close | Reset)
}
/// Scripts that make sense: nothing of a side after it has gone.
fn scripts(depth: usize) -> Vec<Vec<Op>> {
    let mut all = vec![];
    fn go(cur: &mut Vec<Op>, depth: usize, all: &mut Vec<Vec<Op>>) {
        all.push(cur.clone());
        if cur.len() == depth {
            return;
        }
        for o in OPS {
            let has = |x: &[Op]| cur.iter().any(|c| x.contains(c));
            let bad = match o {
                Send | Fin => has(&[Fin, Close, Reset]),
                Close | Reset => has(&[Close, Reset]),
                Read | DropRead => has(&[DropRead]),
                Write => has(&[DropWrite, Shutdown]),
                Shutdown => has(&[DropWrite, Shutdown]),
                DropWrite => has(&[DropWrite]),
            };
            if !bad {
                cur.push(o);
                go(cur, depth, all);
                cur.pop();
            }
        }
    }
    go(&mut vec![], depth, &mut all);
    all
}

macro_rules! serve {
    ($name:ident, $t:ident) => {
        async fn $name(script: Vec<Op>, port: u16, tick: Duration, ready: impl FnOnce(u16), out: Arc<Mutex<Vec<String>>>) {
            use $t::io::{AsyncReadExt, AsyncWriteExt};
            let l = $t::net::TcpListener::bind(("127.0.0.1", port)).await.unwrap();
            ready(l.local_addr().unwrap().port());
            let (s, _) = l.accept().await.unwrap();
            let (r, wr) = s.into_split();
            let (mut r, mut wr) = (Some(r), Some(wr));
            let start = $t::time::Instant::now();
            for (i, op) in script.iter().enumerate() {
                if of_client(*op) {
                    continue;
                }
                let due = tick * (i as u32 + 1);
                let late = $t::time::Instant::now() - start;
                $t::time::sleep(due.saturating_sub(late)).await;
                let what = match op {
                    Read => {
                        let mut b = [0u8; 64];
                        match $t::time::timeout(tick / 2, r.as_mut().unwrap().read(&mut b)).await {
                            Err(_) => "read: nothing".to_string(),
                            Ok(Ok(0)) => "read: end".to_string(),
                            Ok(Ok(n)) => format!("read: {}", String::from_utf8_lossy(&b[..n])),
                            Ok(Err(_)) => "read: error".to_string(),
                        }
                    }
                    Write => match $t::time::timeout(tick / 2, wr.as_mut().unwrap().write_all(b"xy")).await {
                        Err(_) => "write: nothing".to_string(),
                        Ok(Ok(_)) => "write: done".to_string(),
                        Ok(Err(_)) => "write: error".to_string(),
                    },
                    Shutdown => {
                        wr.as_mut().unwrap().shutdown().await.ok();
                        "shutdown".to_string()
                    }
                    DropRead => {
                        r.take();
                        "drop read".to_string()
                    }
                    _ => {
                        wr.take();
                        "drop write".to_string()
                    }
                };
                out.lock().unwrap().push(what);
            }
            // the rest is kept until the client has looked
            let late = $t::time::Instant::now() - start;
            $t::time::sleep((tick * (script.len() as u32 + 3)).saturating_sub(late)).await;
        }
    };
}
serve!(serve_sim, st);
serve!(serve_real, rt);

/// What the code and the client saw; of a client that has gone, nothing is asked.
type Outcome = (Vec<String>, String);

fn simulated(script: &[Op]) -> BTreeSet<Outcome> {
    let mut acts = vec![Act::Pause(1), Act::Connect(9000)];
    for o in script {
        acts.push(Act::Pause(1));
        match o {
            Send => acts.push(Act::Send(b"ab".to_vec())),
            Fin => acts.push(Act::Fin),
            Close => acts.push(Act::Close),
            Reset => acts.push(Act::Reset { discard: false }),
            _ => {}
        }
    }
    acts.push(Act::Pause(1));
    let mut seen = BTreeSet::new();
    // discard: what was not read yet is lost with the connection
    for discard in [false, true] {
        if discard && !script.contains(&Reset) {
            continue;
        }
        for a in &mut acts {
            if let Act::Reset { discard: d } = a {
                *d = discard;
            }
        }
        let mut todo: Vec<Vec<u16>> = vec![vec![]];
        while let Some(prefix) = todo.pop() {
            let out = Arc::new(Mutex::new(vec![]));
            let (o, s) = (out.clone(), script.to_vec());
            let setup = Setup {
                policy: Some(Policy::CodeFirst),
                prefix: prefix.clone(),
                clients: vec![acts.clone()],
                horizon: 10_000,
                ..Default::default()
            };
            let rep = std::thread::spawn(move || {
                sim::run(&setup, move || {
                    st::spawn(serve_sim(s, 9000, Duration::from_secs(1), |_| {}, o));
                    Box::new(())
                })
            })
            .join()
            .unwrap();
            for pos in prefix.len()..rep.trace.len() {
                if rep.trace[pos].data {
                    for alt in 1..rep.trace[pos].n {
                        let mut p: Vec<u16> = rep.trace[..pos].iter().map(|c| c.c).collect();
                        p.push(alt);
                        todo.push(p);
                    }
                }
            }
            let k = &rep.conns[0];
            let gone = script.iter().any(|o| matches!(o, Close | Reset));
            // both halves dropped before the end or the writing direction closed
            let ended = script.iter().any(|o| matches!(o, Shutdown | DropWrite));
            let client = if gone { String::new() } else { format!("{}{}", String::from_utf8_lossy(&k.out), if ended { "." } else { "" }) };
            assert!(gone || !ended || k.write_closed_at.is_some());
            let code = out.lock().unwrap().clone();
            seen.insert((code, client));
        }
    }
    seen
}

extern "C" {
    fn setsockopt(fd: i32, level: i32, name: i32, val: *const [i32; 2], len: u32) -> i32;
}
fn real(run: &rt::runtime::Runtime, script: &[Op], tick: Duration) -> Outcome {
    use std::os::fd::AsRawFd;
    let out = Arc::new(Mutex::new(vec![]));
    let (tx, rx) = std::sync::mpsc::channel();
    let served = run.spawn(serve_real(script.to_vec(), 0, tick, move |p| tx.send(p).unwrap(), out.clone()));
    let port = rx.recv().unwrap();
    let mut s = Some(std::net::TcpStream::connect(("127.0.0.1", port)).unwrap());
    let start = std::time::Instant::now();
    let (mut got, mut ended) = (vec![], false);
    let mut gone = false;
    for i in 0..=script.len() {
        // reads what comes until its turn
        let due = tick * (i as u32 + 1);
        while start.elapsed() < due {
            if let (Some(x), false) = (s.as_mut(), ended) {
                x.set_nonblocking(true).unwrap();
                let mut b = [0u8; 64];
                match x.read(&mut b) {
                    Ok(0) => ended = true,
                    Ok(n) => got.extend_from_slice(&b[..n]),
                    Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => {}
                    Err(_) => ended = true,
                }
            }
            std::thread::sleep(Duration::from_millis(1).min(due.saturating_sub(start.elapsed())));
        }
        match script.get(i) {
            Some(Send) => {
                // fails when the code has closed both directions
                s.as_mut().unwrap().write(b"ab").ok();
            }
            Some(Fin) => {
                s.as_mut().unwrap().shutdown(std::net::Shutdown::Write).ok();
            }
            Some(Close) => {
                s.take();
                gone = true;
            }
            Some(Reset) => {
                let x = s.take().unwrap();
                unsafe { setsockopt(x.as_raw_fd(), 1, 13, &[1, 0], 8) };
                gone = true;
            }
            _ => {}
        }
    }
    run.block_on(served).unwrap();
    let code = out.lock().unwrap().clone();
    (code, if gone { String::new() } else { format!("{}{}", String::from_utf8_lossy(&got), if ended { "." } else { "" }) })
}

// ------------------------------------------------------------------ listeners
#[derive(Clone, Copy, PartialEq, Debug)]
enum Lop {
    Connect,
    Bind,
    Accept,
    Unbind,
}
fn listener_scripts(depth: usize) -> Vec<Vec<Lop>> {
    let mut all = vec![];
    fn go(cur: &mut Vec<Lop>, bound: bool, depth: usize, all: &mut Vec<Vec<Lop>>) {
        all.push(cur.clone());
        if cur.len() == depth {
            return;
        }
        for (o, b) in [(Lop::Connect, bound), (Lop::Bind, true), (Lop::Accept, bound), (Lop::Unbind, false)] {
            // clients of the scenarios wait for the first bind
            if (cur.is_empty() && o != Lop::Bind)
                || (matches!(o, Lop::Accept | Lop::Unbind) && !bound) || (o == Lop::Bind && bound) {
                continue;
            }
            cur.push(o);
            go(cur, b, depth, all);
            cur.pop();
        }
    }
    go(&mut vec![], false, depth, &mut all);
    all
}
macro_rules! listen {
    ($name:ident, $t:ident) => {
        async fn $name(script: Vec<Lop>, port: u16, tick: Duration, out: Arc<Mutex<Vec<String>>>) {
            let start = $t::time::Instant::now();
            let mut l = None;
            let mut kept = vec![];
            for (i, op) in script.iter().enumerate() {
                if *op == Lop::Connect {
                    continue;
                }
                let due = tick * (i as u32 + 1);
                let late = $t::time::Instant::now() - start;
                $t::time::sleep(due.saturating_sub(late)).await;
                let what = match op {
                    Lop::Bind => match $t::net::TcpListener::bind(("127.0.0.1", port)).await {
                        Ok(x) => {
                            l = Some(x);
                            "bound"
                        }
                        Err(_) => "not bound",
                    },
                    Lop::Accept => match l.as_ref() {
                        None => "no listener",
                        Some(x) => match $t::time::timeout(tick / 2, x.accept()).await {
                            Err(_) => "nobody",
                            Ok(Ok((s, _))) => {
                                kept.push(s);
                                "accepted"
                            }
                            Ok(Err(_)) => "error",
                        },
                    },
                    _ => {
                        l.take();
                        "unbound"
                    }
                };
                out.lock().unwrap().push(what.to_string());
            }
            let late = $t::time::Instant::now() - start;
            $t::time::sleep((tick * (script.len() as u32 + 3)).saturating_sub(late)).await;
        }
    };
}
listen!(listen_sim, st);
listen!(listen_real, rt);

fn listener_simulated(script: &[Lop]) -> BTreeSet<Outcome> {
    let mut clients = vec![];
    for (i, o) in script.iter().enumerate() {
        if *o == Lop::Connect {
            clients.push(vec![Act::Pause(i as u64 + 1), Act::Connect(9000), Act::Pause((script.len() - i) as u64 + 1)]);
        }
    }
    let out = Arc::new(Mutex::new(vec![]));
    let (o, s) = (out.clone(), script.to_vec());
    let setup = Setup { policy: Some(Policy::CodeFirst), clients, horizon: 10_000, ..Default::default() };
    let rep = std::thread::spawn(move || {
        sim::run(&setup, move || {
            st::spawn(listen_sim(s, 9000, Duration::from_secs(1), o));
            Box::new(())
        })
    })
    .join()
    .unwrap();
    // a listener which is there until the end goes away with the code
    let ends = rep.events.iter().filter(|e| e.now > (script.len() as u64 + 1) * 1_000_000_000).fold(0, |n, e| match e.what {
        sim::NetWhat::ListenerDropped(_, k) => n + k,
        _ => n,
    });
    let mut open: Vec<bool> = rep.conns.iter().map(|c| !c.refused).collect();
    for (k, c) in rep.conns.iter().enumerate().rev().take(ends.max(0)) {
        if !c.accepted {
            open[k] = true;
        }
    }
    let code = out.lock().unwrap().clone();
    BTreeSet::from([(code, format!("{:?}", open))])
}
fn listener_real(run: &rt::runtime::Runtime, script: &[Lop], port: u16, tick: Duration) -> Outcome {
    let out = Arc::new(Mutex::new(vec![]));
    let start = std::time::Instant::now();
    let served = run.spawn(listen_real(script.to_vec(), port, tick, out.clone()));
    let mut socks = vec![];
    for (i, o) in script.iter().enumerate() {
        if *o == Lop::Connect {
            std::thread::sleep((tick * (i as u32 + 1)).saturating_sub(start.elapsed()));
            socks.push(std::net::TcpStream::connect(("127.0.0.1", port)).ok());
        }
    }
    std::thread::sleep((tick * (script.len() as u32 + 1)).saturating_sub(start.elapsed()));
    let open: Vec<bool> = socks
        .iter_mut()
        .map(|s| match s {
            None => false,
            Some(x) => {
                x.set_nonblocking(true).unwrap();
                matches!(x.read(&mut [0u8; 4]), Err(e) if e.kind() == std::io::ErrorKind::WouldBlock)
            }
        })
        .collect();
    run.block_on(served).unwrap();
    let code = out.lock().unwrap().clone();
    (code, format!("{:?}", open))
}

/// Runs real for every script, each for itself, and says which are not as in the model.
fn compare<T: std::fmt::Debug + Sync>(
    what: &str,
    all: &[T],
    model: &[BTreeSet<Outcome>],
    real: impl Fn(usize, Duration) -> Outcome + Sync,
) -> bool {
    let bad = Mutex::new(BTreeMap::new());
    let tick = Duration::from_millis(60);
    let next = std::sync::atomic::AtomicUsize::new(0);
    std::thread::scope(|sc| {
        for _ in 0..200 {
            sc.spawn(|| loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                if i >= all.len() {
                    break;
                }
                // a busy machine makes things late: only what repeats counts
                let mut last = None;
                for k in 1..=3 {
                    let r = real(i, tick * k);
                    if model[i].contains(&r) {
                        last = None;
                        break;
                    }
                    last = Some(r);
                }
                if let Some(r) = last {
                    bad.lock().unwrap().insert(i, r);
                }
            });
        }
    });
    let bad = bad.into_inner().unwrap();
    for (i, r) in bad.iter().take(40) {
        super::kit::say(&format!("{:?}\n  real      {:?}\n  simulated {:?}", all[*i], r, model[*i]));
    }
    super::kit::say(&format!(
        "{}: {} scripts, {} simulated outcomes, {} scripts behave in a way the simulation does not know",
        what,
        all.len(),
        model.iter().map(|m| m.len()).sum::<usize>(),
        bad.len()
    ));
    bad.is_empty()
}
pub fn main(depth: usize) -> i32 {
    let run = rt::runtime::Builder::new_multi_thread().enable_all().build().unwrap();
    let all = scripts(depth);
    let model: Vec<BTreeSet<Outcome>> = all.iter().map(|s| simulated(s)).collect();
    let a = compare("connections", &all, &model, |i, tick| real(&run, &all[i], tick));
    let all = listener_scripts(depth + 2);
    let model: Vec<BTreeSet<Outcome>> = all.iter().map(|s| listener_simulated(s)).collect();
    let b = compare("listeners", &all, &model, |i, tick| listener_real(&run, &all[i], 10_000 + (i % 20_000) as u16, tick));
    (!(a && b)) as i32
}
