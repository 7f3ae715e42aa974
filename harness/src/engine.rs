//! C13-C18: the acceptor engine under the controlled scheduler and the simulated network.
//!
//! A scenario is a configuration, scripts of clients and failures of the environment. Its executions
//! are enumerated: from each base schedule all executions that deviate from it in at most so many
//! decisions. Each execution runs the real code and is judged against the scenario alone.
use super::codec::{from_json_str, same_message, show, universe, Stats};
use super::ident::{parts_of, parts_of_text, Parts};
use super::kit::*;
use super::refmodel::*;
use super::scenes;
use super::settings::{section, write_cfg, PLAIN};
use super::specs::*;
use crate::application::Application;
use crate::message::Message;
use crate::network::{SessionMap, SocketAcceptor};
use crate::session::*;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader, Write};
use std::str::FromStr;
use std::sync::{Mutex, OnceLock};
use tokio::sim::{self, Act, Choice, Errors, NetWhat, Policy, Report, Setup, POLICIES};

pub const S: char = '\u{1}';

// ------------------------------------------------------------------ scenarios
#[derive(Clone, Debug, PartialEq)]
pub struct Sess {
    pub begin: &'static str,
    /// comp, sub, location of this side and of the other
    pub me: [&'static str; 3],
    pub peer: [&'static str; 3],
    pub port: u16,
    pub dict: usize,
}
impl Sess {
    pub fn parts(&self) -> Parts {
        Parts {
            begin: self.begin.into(),
            s: self.me.map(String::from),
            t: self.peer.map(String::from),
        }
    }
}
pub fn sess(peer: &'static str, port: u16, dict: usize) -> Sess {
    Sess { begin: "FIX.4.3", me: ["SRV", "", ""], peer: [peer, "", ""], port, dict }
}

#[derive(Clone, Debug)]
pub struct Scen {
    pub name: String,
    pub sessions: Vec<Sess>,
    pub port_in_default: bool,
    pub clients: Vec<Vec<Act>>,
    pub window: BTreeMap<usize, usize>,
    pub split_reads: bool,
    pub split_writes: bool,
    pub bind_fail: BTreeMap<u16, u32>,
    pub accept_fail: BTreeMap<u16, Vec<u32>>,
    pub errors: Errors,
    pub policies: Vec<Policy>,
    pub seeds: Vec<u64>,
    /// deviations from the base schedule: in who is next, in what the network does
    pub sched: usize,
    pub data: usize,
    pub shards: usize,
    pub horizon: u64,
    /// the bounds may be raised
    pub deepen: bool,
}
impl Scen {
    pub fn new(name: impl Into<String>, sessions: Vec<Sess>, clients: Vec<Vec<Act>>) -> Scen {
        Scen {
            name: name.into(),
            sessions,
            port_in_default: false,
            clients,
            window: BTreeMap::new(),
            split_reads: false,
            split_writes: false,
            bind_fail: BTreeMap::new(),
            accept_fail: BTreeMap::new(),
            errors: Errors::default(),
            policies: POLICIES.to_vec(),
            seeds: vec![1],
            sched: 0,
            data: 0,
            shards: 1,
            horizon: 60_000,
            deepen: true,
        }
    }
    pub fn devs(mut self, sched: usize, data: usize) -> Scen {
        self.sched = sched;
        self.data = data;
        self
    }
    pub fn shards(mut self, n: usize) -> Scen {
        self.shards = n;
        self
    }
    pub fn with(mut self, f: impl FnOnce(&mut Scen)) -> Scen {
        f(&mut self);
        self
    }
    fn setup(&self, policy: Policy, prefix: Vec<u16>) -> Setup {
        Setup {
            policy: Some(policy),
            prefix,
            clients: self.clients.clone(),
            window: self.window.clone(),
            split_reads: self.split_reads,
            split_writes: self.split_writes,
            bind_fail: self.bind_fail.clone(),
            accept_fail: self.accept_fail.clone(),
            errors: self.errors,
            horizon: self.horizon,
        }
    }
}

// ------------------------------------------------------------------ dictionaries
/// Two dictionaries in which the same texts mean different things.
pub fn dicts() -> &'static [Spec] {
    static D: OnceLock<Vec<Spec>> = OnceLock::new();
    D.get_or_init(|| {
        let head = || vec![f(34), f(49), f(50), f(142), f(56), f(57), f(143)];
        let own = |g1: Vec<Node>| [vec![f(58), f(11), f(110), f(210), f(1010)], g1].concat();
        vec![
            spec("engine-0", doc(head(), vec![], vec![("D", own(vec![g(100, vec![f(101), f(102)])])), ("E", own(vec![]))])),
            spec("engine-1", doc(head(), vec![], vec![("D", own(vec![f(100), f(101), f(102)]))])),
        ]
    })
}
fn dict_dir() -> std::path::PathBuf {
    let mut p = std::env::current_exe().unwrap();
    p.pop();
    p.join("sim-dictionaries")
}
fn dict_path(i: usize) -> String {
    // alike but for the letter case of the directory: a dictionary is known by its whole path
    dict_dir().join(["spec", "SPEC"][i]).join("FIX43.xml").display().to_string()
}
fn write_dicts() {
    for (i, d) in dicts().iter().enumerate() {
        std::fs::create_dir_all(std::path::Path::new(&dict_path(i)).parent().unwrap()).unwrap();
        if std::fs::read_to_string(dict_path(i)).ok().as_deref() != Some(&d.xml) {
            let tmp = format!("{}.{}", dict_path(i), std::process::id());
            std::fs::write(&tmp, &d.xml).unwrap();
            std::fs::rename(&tmp, dict_path(i)).unwrap();
        }
    }
}
fn config(sc: &Scen) -> String {
    let mut def = vec![("connection_type", "acceptor".to_string())];
    if sc.port_in_default {
        def.push(("socket_accept_port", sc.sessions[0].port.to_string()));
    }
    fn sec(default: bool, v: &[(&str, String)]) -> super::settings::Section {
        let v: Vec<(&str, &str)> = v.iter().map(|(a, b)| (*a, b.as_str())).collect();
        section(default, &v)
    }
    let mut all = vec![sec(true, &def)];
    for (i, s) in sc.sessions.iter().enumerate() {
        let mut v = vec![
            ("begin_string", s.begin.to_string()),
            ("sender_comp_id", s.me[0].to_string()),
            ("target_comp_id", s.peer[0].to_string()),
        ];
        for (k, x) in [
            ("sender_sub_id", s.me[1]),
            ("sender_location_id", s.me[2]),
            ("target_sub_id", s.peer[1]),
            ("target_location_id", s.peer[2]),
        ] {
            if !x.is_empty() {
                v.push((k, x.to_string()));
            }
        }
        if !(sc.port_in_default && (i == 0 || s.port == sc.sessions[0].port)) {
            v.push(("socket_accept_port", s.port.to_string()));
        }
        v.push(("data_dictionary", dict_path(s.dict)));
        all.push(sec(false, &v));
    }
    write_cfg(&all, &PLAIN)
}

// ------------------------------------------------------------------ the application
struct Del {
    seq: usize,
    id: Parts,
    msg: Message,
}
struct Sent {
    step: u64,
    begin: usize, // in the order of the log
    end: usize,
    sess: usize,
    text: String,
}
#[derive(Default)]
struct Log {
    dels: Vec<Del>,
    sends: Vec<Sent>,
    counter: usize,
    seq: usize,
}
impl Log {
    fn tick(&mut self) -> usize {
        self.seq += 1;
        self.seq
    }
}
static LOG: Mutex<Option<Log>> = Mutex::new(None);
fn with_log<T>(f: impl FnOnce(&mut Log) -> T) -> T {
    let mut l = LOG.lock().unwrap_or_else(|e| e.into_inner());
    f(l.get_or_insert_with(Log::default))
}
fn session_id(s: &Sess) -> SessionId {
    SessionIdBuilder::default()
        .begin_string(s.begin)
        .sender_compid(s.me[0])
        .sender_subid(s.me[1])
        .sender_locationid(s.me[2])
        .target_compid(s.peer[0])
        .target_subid(s.peer[1])
        .target_locationid(s.peer[2])
        .build()
        .unwrap()
}
/// Fields of the identity as a message from or to the session has them.
pub fn ids(from: &[&str; 3], to: &[&str; 3]) -> String {
    let mut t = String::new();
    for (tag, v) in [(49, from[0]), (50, from[1]), (142, from[2]), (56, to[0]), (57, to[1]), (143, to[2])] {
        if !v.is_empty() {
            t.push_str(&format!("{}={}{}", tag, v, S));
        }
    }
    t
}
struct App {
    sessions: Vec<Sess>,
}
impl App {
    fn send(sessions: &[Sess], map: &SessionMap, k: usize, pad: usize) {
        let n = with_log(|l| {
            l.counter += 1;
            l.counter
        });
        App::send_text(sessions, map, k, n, pad)
    }
    fn send_text(sessions: &[Sess], map: &SessionMap, k: usize, n: usize, pad: usize) {
        let s = &sessions[k];
        let text = format!(
            "8={}{S}9=0{S}35=D{S}34={n}{S}{}58=r{n};{}{S}10=000{S}",
            s.begin,
            ids(&s.me, &s.peer),
            "x".repeat(pad)
        );
        let m = Message::from_str(&text, &dicts()[s.dict].dd).expect("the answer is a message");
        let text = m.to_string();
        let step = sim::step();
        let slot = with_log(|l| {
            let begin = l.tick();
            l.sends.push(Sent { step, begin, end: usize::MAX, sess: k, text });
            l.sends.len() - 1
        });
        Session::sync_send_to_target(&session_id(s), map, m);
        with_log(|l| l.sends[slot].end = l.tick());
    }
}
impl Application for App {
    fn to_app(_: String) {}
    fn from_app(&self, session_id: &SessionId, map: &SessionMap, msg: Message) {
        let cmds = msg.body().get_field::<String>(58).unwrap_or_default();
        let id = parts_of(session_id);
        let me = self.sessions.iter().position(|s| s.parts() == id);
        with_log(|l| {
            let seq = l.tick();
            l.dels.push(Del { seq, id, msg })
        });
        sim::note_delivered();
        for c in cmds.split(';').skip(1) {
            let num = |d: usize| c[1..].split(',').next().unwrap().parse::<usize>().unwrap_or(d);
            match c.chars().next() {
                // answers to the session of the message
                Some('R') => {
                    for _ in 0..num(1) {
                        if let Some(k) = me {
                            App::send(&self.sessions, map, k, 0);
                        }
                    }
                }
                // a long answer
                Some('L') => {
                    if let Some(k) = me {
                        App::send(&self.sessions, map, k, num(1));
                    }
                }
                // answers with the same text
                Some('I') => {
                    for _ in 0..num(1) {
                        if let Some(k) = me {
                            App::send_text(&self.sessions, map, k, 0, 0);
                        }
                    }
                }
                // a message to some session
                Some('S') => App::send(&self.sessions, map, num(0), 0),
                // a thread which sends messages to a session
                Some('T') => {
                    let arg = |i: usize| c.split(',').nth(i).and_then(|x| x.parse::<usize>().ok());
                    let (k, n, pad) = (num(0), arg(1).unwrap_or(1), arg(2).unwrap_or(0));
                    let (ss, map) = (self.sessions.clone(), map.clone());
                    std::thread::spawn(move || {
                        for _ in 0..n {
                            App::send(&ss, &map, k, pad);
                        }
                    });
                }
                // takes its time (milliseconds)
                Some('Z') => std::thread::sleep(std::time::Duration::from_millis(num(1) as u64)),
                _ => {}
            }
        }
    }
}

/// What an execution showed.
struct Seen {
    rep: Report,
    log: Log,
}
fn execute(sc: &Scen, cfg: &str, policy: Policy, seed: u64, prefix: Vec<u16>, clients: bool) -> Seen {
    let mut setup = sc.setup(policy, prefix);
    if !clients {
        setup.clients.clear();
        setup.window.clear();
    }
    let (cfg, sessions) = (cfg.to_string(), sc.sessions.clone());
    *LOG.lock().unwrap_or_else(|e| e.into_inner()) = Some(Log::default());
    // a thread of its own: its hash seeds start anew
    let rep = std::thread::Builder::new()
        .stack_size(1 << 20)
        .spawn(move || {
            set_hash_seed(seed);
            sim::run(&setup, move || {
                let props = Properties::from_str(&cfg);
                let mut a = SocketAcceptor::new(props, App { sessions });
                a.start_accepting_connections();
                Box::new(a)
            })
        })
        .unwrap()
        .join()
        .expect("the execution can not be controlled");
    let log = LOG.lock().unwrap_or_else(|e| e.into_inner()).take().unwrap_or_default();
    Seen { rep, log }
}

// ------------------------------------------------------------------ the oracle
#[derive(Debug)]
enum Class {
    /// has to be delivered with this content
    Must(RefMsg),
    /// may be delivered
    May(Option<RefMsg>),
    /// must not be delivered
    Never,
}
struct Frame {
    uid: String,
    sess: Option<usize>,
    class: Class,
    end: usize, // in the stream
}
fn frames(sc: &Scen, port: u16, stream: &[u8]) -> Vec<Frame> {
    let mut out = vec![];
    let (mut start, mut field) = (0, 0);
    for (i, b) in stream.iter().enumerate() {
        if *b != 1 {
            continue;
        }
        if stream[field..].starts_with(b"10=") {
            out.push(frame(sc, port, &stream[start..=i], i + 1));
            start = i + 1;
        }
        field = i + 1;
    }
    out
}
fn frame(sc: &Scen, port: u16, bytes: &[u8], end: usize) -> Frame {
    let lossy = String::from_utf8_lossy(bytes).to_string();
    let uid = lossy
        .split(S)
        .find_map(|f| f.strip_prefix("58="))
        .map(|v| v.split(';').next().unwrap().to_string())
        .unwrap_or_default();
    let text = match std::str::from_utf8(bytes) {
        Ok(t) => t,
        Err(_) => return Frame { uid, sess: None, class: Class::May(None), end },
    };
    let id = parts_of_text(text).reverse();
    let k = sc.sessions.iter().position(|s| s.parts() == id);
    if !text.starts_with("8=") {
        let bad = (0..dicts().len()).all(|d| matches!(meaning(&dicts()[d].rf, text), Outcome::Reject(..)));
        return Frame { uid, sess: k, class: if bad { Class::Never } else { Class::May(None) }, end };
    }
    let class = match k {
        None => Class::Never,
        Some(k) => match meaning(&dicts()[sc.sessions[k].dict].rf, text) {
            Outcome::Accept(m) if sc.sessions[k].port == port => Class::Must(m),
            Outcome::Accept(m) => Class::May(Some(m)),
            Outcome::Open => Class::May(None),
            Outcome::Reject(..) => Class::Never,
        },
    };
    Frame { uid, sess: k, class, end }
}

struct Fault {
    props: &'static [&'static str],
    what: String,
}

fn judge(sc: &Scen, seen: &Seen, base: (usize, usize), universes: &[Vec<Tag>]) -> Vec<Fault> {
    let (rep, log) = (&seen.rep, &seen.log);
    let mut v: Vec<Fault> = vec![];
    let mut fault = |props: &'static [&'static str], what: String| v.push(Fault { props, what });
    let conns = &rep.conns;
    let fr: Vec<Vec<Frame>> = conns.iter().map(|k| frames(sc, k.port, &k.sent)).collect();

    // sends of the application per port
    let mut port_sends: BTreeMap<u16, usize> = BTreeMap::new();
    for s in &log.sends {
        *port_sends.entry(sc.sessions[s.sess].port).or_insert(0) += 1;
    }
    let busy = |port: u16| port_sends.get(&port).copied().unwrap_or(0) > 16;

    // ---- incoming
    let mut where_: BTreeMap<&str, Vec<(usize, usize)>> = BTreeMap::new();
    for (k, fs) in fr.iter().enumerate() {
        for (i, f) in fs.iter().enumerate() {
            if !f.uid.is_empty() {
                where_.entry(&f.uid).or_default().push((k, i));
            }
        }
    }
    let mut got: Vec<Vec<usize>> = vec![vec![]; conns.len()];
    let mut talked_at: Vec<BTreeMap<usize, usize>> = vec![BTreeMap::new(); conns.len()];
    for d in &log.dels {
        let text = d.msg.body().get_field::<String>(58).unwrap_or_default();
        let uid = text.split(';').next().unwrap();
        // of messages with the same id the first that is still to come
        let of_id = where_.get(uid).map_or(&[][..], |v| v);
        let to_come = of_id.iter().find(|(k, i)| {
            of_id.len() > 1 && !matches!(fr[*k][*i].class, Class::Never) && !got[*k].contains(i)
        });
        let (k, i) = match to_come.or(of_id.last()) {
            Some(x) => *x,
            None => {
                fault(
                    &["C13", "C14", "C18"],
                    format!("the application was given a message nobody sent: {}", show(&d.msg.to_string())),
                );
                continue;
            }
        };
        let f = &fr[k][i];
        if let Some(s) = f.sess {
            let want = sc.sessions[s].parts();
            if d.id != want {
                fault(&["C18"], format!("message {} was delivered under session {:?}, not {:?}", uid, d.id, want));
            }
            if matches!(f.class, Class::Must(_)) {
                talked_at[k].entry(s).or_insert(d.seq);
            }
        }
        match &f.class {
            Class::Never => fault(
                &["C13", "C14", "C18"],
                format!("message {} must not be delivered (unknown session or unparsable)", uid),
            ),
            Class::Must(m) | Class::May(Some(m)) => {
                let u = &universes[sc.sessions[f.sess.unwrap()].dict];
                if let Err(e) = same_message(&d.msg, m, u) {
                    fault(&["C13", "C18"], format!("message {} was delivered with other content: {}", uid, e));
                }
            }
            Class::May(None) => {}
        }
        got[k].push(i);
    }
    for (k, c) in conns.iter().enumerate() {
        for p in got[k].windows(2) {
            if p[0] == p[1] {
                fault(&["C13", "C18"], format!("message {} was delivered twice", fr[k][p[0]].uid));
            } else if p[0] > p[1] {
                fault(
                    &["C13", "C18"],
                    format!("message {} was delivered after {} (or again)", fr[k][p[1]].uid, fr[k][p[0]].uid),
                );
            }
        }
        let missing: Vec<usize> = (0..fr[k].len())
            .filter(|i| matches!(fr[k][*i].class, Class::Must(_)) && !got[k].contains(i))
            .collect();
        // after a reset, or after the acceptor closed the connection because it could not keep up,
        // what was sent last may be lost
        let may_lose = c.reset || (busy(c.port) && c.write_dropped) || !rep.quiet;
        let late = got[k].last().copied();
        for i in missing {
            if may_lose && late.is_none_or(|l| l < i) {
                continue;
            }
            if c.refused {
                continue;
            }
            fault(
                &["C13", "C14", "C16", "C18"],
                format!("message {} on connection {} was never delivered", fr[k][i].uid, k),
            );
        }
    }

    // ---- outgoing
    let talks: Vec<BTreeSet<usize>> =
        fr.iter().map(|fs| fs.iter().filter_map(|f| f.sess).collect()).collect();
    let mut outs: Vec<Vec<usize>> = vec![vec![]; conns.len()]; // indices of sends
    for (k, c) in conns.iter().enumerate() {
        let gone = c.closed || c.reset || c.fin;
        let mut p = 0;
        while p < c.out.len() {
            let rest = &c.out[p..];
            // of messages with the same text the first that is still to come
            let (mut hit, mut again) = (None, None);
            for (n, s) in log.sends.iter().enumerate() {
                if rest.starts_with(s.text.as_bytes()) {
                    if !outs[k].contains(&n) {
                        hit = Some(n);
                        break;
                    }
                    again = again.or(Some(n));
                }
            }
            let Some(n) = hit.or(again) else {
                let tail = log
                    .sends
                    .iter()
                    .any(|s| talks[k].contains(&s.sess) && s.text.as_bytes().starts_with(rest));
                if tail && (gone || !rep.quiet) {
                    break;
                }
                fault(
                    &["C15"],
                    format!(
                        "connection {} got bytes that are no message of its sessions: {}",
                        k,
                        show(&String::from_utf8_lossy(&rest[..rest.len().min(200)]))
                    ),
                );
                break;
            };
            let s = &log.sends[n];
            if !talks[k].contains(&s.sess) {
                fault(
                    &["C15"],
                    format!("connection {} got a message of session {} which never talked on it", k, s.sess),
                );
            } else {
                // it was written when the session had already talked there
                let first = fr[k].iter().filter(|f| f.sess == Some(s.sess)).map(|f| f.end).min().unwrap();
                let talked = c.taken_at.iter().find(|(n, _)| *n >= first).map(|(_, at)| *at);
                let wrote = c.out_at.iter().find(|(n, _)| *n > p).map(|(_, at)| *at);
                if talked.is_none_or(|t| wrote.is_some_and(|w| w < t)) {
                    fault(
                        &["C15"],
                        format!("connection {} got a message of session {} before it talked on it", k, s.sess),
                    );
                }
            }
            outs[k].push(n);
            p += s.text.len();
        }
        for (x, n) in outs[k].iter().enumerate() {
            for m in &outs[k][x + 1..] {
                let (a, b) = (&log.sends[*n], &log.sends[*m]);
                if n == m {
                    fault(&["C15"], format!("connection {} got a message twice", k));
                } else if a.sess == b.sess && b.end < a.begin {
                    fault(&["C15"], format!("connection {} got the messages of session {} in another order", k, a.sess));
                }
            }
        }
    }
    // completeness
    for (n, s) in log.sends.iter().enumerate() {
        let before: Vec<usize> =
            (0..conns.len()).filter(|k| talked_at[*k].get(&s.sess).is_some_and(|t| *t < s.begin)).collect();
        let open: Vec<usize> =
            before.iter().copied().filter(|k| conns[*k].closed_at.is_none_or(|c| c >= s.step)).collect();
        if open.iter().any(|k| outs[*k].contains(&n)) || open.is_empty() {
            continue;
        }
        let port = sc.sessions[s.sess].port;
        let single = talks.iter().filter(|t| t.contains(&s.sess)).count() == 1;
        let k = open[0];
        // a later message of the session that came through makes a hole
        let hole = single
            && outs[k].iter().any(|m| log.sends[*m].sess == s.sess && log.sends[*m].begin > s.end);
        if hole {
            fault(&["C15"], format!("message {} to session {} is missing between others", n + 1, s.sess));
            continue;
        }
        if open.iter().any(|k| conns[*k].closed_at.is_some()) || !rep.quiet {
            continue;
        }
        if busy(port) {
            if !open.iter().any(|k| conns[*k].write_dropped) {
                fault(
                    &["C15"],
                    format!("message {} to session {} was lost and its connection stays open", n + 1, s.sess),
                );
            }
            continue;
        }
        fault(
            &["C14", "C15", "C16"],
            format!("message {} sent to session {} did not reach its connection", n + 1, s.sess),
        );
    }

    // ---- listening
    let ports: BTreeSet<u16> = sc.sessions.iter().map(|s| s.port).collect();
    let mut bound: BTreeMap<u16, u32> = BTreeMap::new();
    let mut bind_fails: BTreeMap<u16, u32> = BTreeMap::new();
    let mut failed: BTreeMap<(u16, bool), u64> = BTreeMap::new();
    for e in &rep.events {
        let retry = |key: (u16, bool), ok: bool, failed: &mut BTreeMap<(u16, bool), u64>| {
            let again = failed.get(&key).is_some_and(|t| *t == e.now);
            if ok {
                failed.remove(&key);
            } else {
                failed.insert(key, e.now);
            }
            again
        };
        match &e.what {
            NetWhat::Bind(p, ok) => {
                if retry((*p, true), *ok, &mut failed) {
                    fault(&["C16"], format!("binding port {} failed and is tried again without a pause", p));
                }
                if *ok {
                    *bound.entry(*p).or_insert(0) += 1;
                } else {
                    *bind_fails.entry(*p).or_insert(0) += 1;
                }
                if !ports.contains(p) {
                    fault(&["C16"], format!("port {} is bound, which is not configured", p));
                }
            }
            NetWhat::Accept(p, ok) => {
                // (a failure of just that one connection or call needs no pause)
                let passing = [4, 71, 103].contains(&sc.errors.accept);
                if retry((*p, false), *ok, &mut failed) && !passing {
                    fault(&["C16"], format!("accepting on port {} failed and is tried again without a pause", p));
                }
            }
            NetWhat::ListenerDropped(p, n) => fault(
                &["C16"],
                format!("port {} is not listened to anymore; {} connections waiting there are reset", p, n),
            ),
            NetWhat::Refused(p) => fault(&["C16"], format!("a connection to port {} was refused", p)),
        }
    }
    for p in &ports {
        match bound.get(p).copied().unwrap_or(0) {
            1 => {}
            0 if !rep.quiet => {}
            n => fault(&["C16"], format!("port {} was bound {} times", p, n)),
        }
        let planned = sc.bind_fail.get(p).copied().unwrap_or(0);
        let n = bind_fails.get(p).copied().unwrap_or(0);
        if n > planned {
            fault(&["C16"], format!("port {} is bound more than once", p));
        }
    }
    if rep.quiet {
        for (k, c) in conns.iter().enumerate() {
            if !c.accepted && !c.reset && !c.refused {
                fault(&["C16"], format!("connection {} (port {}) was never accepted", k, c.port));
            }
            let gone = c.closed || c.reset || c.fin;
            if c.accepted && !gone && !busy(c.port) && (c.read_dropped || c.write_dropped) {
                fault(&["C16"], format!("connection {} (port {}) was given up by the acceptor", k, c.port));
            }
        }
    }

    // ---- release
    let mut all_gone = true;
    for (k, c) in conns.iter().enumerate() {
        let gone = c.closed || c.reset || (c.fin && !sc.window.contains_key(&c.client));
        if !gone {
            all_gone = false;
            continue;
        }
        if rep.spins.contains(&k) {
            fault(&["C17"], format!("connection {} is gone but is used over and over again", k));
        }
        if rep.quiet && c.accepted && !c.released() {
            fault(
                &["C17"],
                format!(
                    "connection {} is gone but the acceptor keeps its {} side",
                    k,
                    if c.read_dropped { "write" } else { "read" }
                ),
            );
        }
    }
    if rep.quiet && all_gone && (rep.live_tasks > base.0 || rep.live_threads > base.1) {
        fault(
            &["C17"],
            format!(
                "all connections are gone but {} tasks and {} threads are alive, without connections it was {} and {}",
                rep.live_tasks, rep.live_threads, base.0, base.1
            ),
        );
    }
    if !rep.quiet {
        fault(&["C16", "C17"], "the acceptor never comes to rest although nothing happens anymore".to_string());
    }
    v
}
// ------------------------------------------------------------------ exploration
struct Explorer<'a> {
    ctx: &'a Ctx,
    sc: &'a Scen,
    cfg: String,
    policy: Policy,
    seed: u64,
    base: (usize, usize),
    universes: Vec<Vec<Tag>>,
    st: Stats,
    runs: u64,
    longest: usize,
}
fn case_text(sc: &Scen, policy: Policy, seed: u64, prefix: &[u16]) -> String {
    let c: Vec<String> = prefix.iter().map(|x| x.to_string()).collect();
    format!("{{\"scenario\": {}, \"policy\": \"{:?}\", \"hash_seed\": {}, \"choices\": \"{}\"}}", json_str(&sc.name), policy, seed, c.join(" "))
}
impl<'a> Explorer<'a> {
    fn new(ctx: &'a Ctx, sc: &'a Scen, policy: Policy, seed: u64) -> Self {
        let cfg = config(sc);
        let base = execute(sc, &cfg, policy, seed, vec![], false).rep;
        Explorer {
            ctx,
            sc,
            cfg,
            policy,
            seed,
            base: (base.live_tasks, base.live_threads),
            universes: dicts().iter().map(universe).collect(),
            st: Stats::default(),
            runs: 0,
            longest: 0,
        }
    }
    fn once(&mut self, prefix: &[u16]) -> Vec<Choice> {
        let text = case_text(self.sc, self.policy, self.seed, prefix);
        case(&text);
        let seen = execute(self.sc, &self.cfg, self.policy, self.seed, prefix.to_vec(), true);
        let faults = judge(self.sc, &seen, self.base, &self.universes);
        self.runs += 1;
        self.st.traces += 1;
        self.st.states += (seen.rep.trace.len().max(prefix.len()) - prefix.len()) as u64 + 1;
        self.st.trans += seen.rep.steps;
        self.longest = self.longest.max(seen.rep.trace.len());
        self.st.count(if !seen.rep.quiet {
            "executions cut at the horizon"
        } else if seen.log.dels.is_empty() {
            "executions without deliveries"
        } else {
            "executions with deliveries"
        });
        for (k, n) in [
            ("messages delivered", seen.log.dels.len()),
            ("messages sent by the application", seen.log.sends.len()),
            ("connections", seen.rep.conns.len()),
            ("tasks or threads that panicked", seen.rep.panics as usize),
        ] {
            if n > 0 {
                *self.st.outcomes.entry(k.to_string()).or_insert(0) += n as u64;
            }
        }
        for f in faults {
            if f.props.contains(&self.ctx.id.as_str()) {
                let shown: Vec<u16> = seen.rep.trace.iter().map(|c| c.c).collect();
                let cut = shown.iter().rposition(|c| *c != 0).map_or(0, |i| i + 1);
                self.ctx.finding(
                    &format!("{} in {}", f.what, self.sc.name),
                    &f.what,
                    &case_text(self.sc, self.policy, self.seed, &shown[..cut]),
                );
            }
        }
        seen.rep.trace
    }
    fn explore(&mut self, prefix: Vec<u16>, sched: usize, data: usize, shard: Option<(usize, usize)>) {
        let trace = self.once(&prefix);
        let mut n = 0;
        for pos in prefix.len()..trace.len() {
            let ch = trace[pos];
            if if ch.data { data == 0 } else { sched == 0 } {
                continue;
            }
            for alt in 1..ch.n {
                n += 1;
                if shard.is_some_and(|(i, m)| n % m != i) {
                    continue;
                }
                let mut p: Vec<u16> = trace[..pos].iter().map(|c| c.c).collect();
                p.push(alt);
                if ch.data {
                    self.explore(p, sched, data - 1, None);
                } else {
                    self.explore(p, sched - 1, data, None);
                }
            }
        }
    }
}

/// Where exploration starts: a scenario with a base schedule.
#[derive(Clone, Copy)]
struct Start {
    scen: usize,
    policy: Policy,
    seed: u64,
}
fn starts(scens: &[Scen]) -> Vec<Start> {
    let mut v = vec![];
    for (i, s) in scens.iter().enumerate() {
        for p in &s.policies {
            for seed in &s.seeds {
                v.push(Start { scen: i, policy: *p, seed: *seed });
            }
        }
    }
    v
}
/// A part of the exploration of one start up to a bound.
#[derive(Clone, Copy)]
struct Item {
    start: usize,
    base_only: bool,
    sched: usize,
    data: usize,
    shard: usize,
    shards: usize,
}
impl Item {
    fn say(&self) -> String {
        let b = self.base_only as usize;
        format!("{} {} {} {} {} {}", self.start, b, self.sched, self.data, self.shard, self.shards)
    }
    fn read(l: &str) -> Option<Item> {
        let v: Vec<usize> = l.split_whitespace().map_while(|x| x.parse().ok()).collect();
        match v[..] {
            [start, b, sched, data, shard, shards] => Some(Item { start, base_only: b == 1, sched, data, shard, shards }),
            _ => None,
        }
    }
}

/// Worker process: runs the items it is given.
pub fn worker(ctx: &Ctx) {
    quiet_panics(true);
    let scens = scenes::of(&ctx.id, ctx.quick());
    let starts = starts(&scens);
    for l in std::io::stdin().lock().lines() {
        let Some(it) = Item::read(&l.unwrap_or_default()) else { break };
        let st = &starts[it.start];
        let sc = &scens[st.scen];
        let t0 = std::time::Instant::now();
        let mut e = Explorer::new(ctx, sc, st.policy, st.seed);
        let (mut scheds, mut datas) = (0u64, 0u64);
        if it.base_only {
            let a = e.once(&[]);
            let b = e.once(&[]);
            if a != b {
                e.st.count("base executions that did not repeat");
            }
            for c in &a {
                *(if c.data { &mut datas } else { &mut scheds }) += c.n as u64 - 1;
            }
        } else {
            e.explore(vec![], it.sched, it.data, Some((it.shard, it.shards)));
        }
        case_done();
        let o: Vec<String> = e.st.outcomes.iter().map(|(k, v)| format!("{}={}", k, v)).collect();
        say(&format!(
            "done {} {} {} {} {} {} {} {}\t{}",
            it.start,
            e.st.states,
            e.st.trans,
            e.st.traces,
            e.longest,
            t0.elapsed().as_millis(),
            scheds,
            datas,
            o.join("\t")
        ));
    }
    unsafe { libc_exit(0) }
}
extern "C" {
    #[link_name = "_exit"]
    fn libc_exit(c: i32) -> !;
}

fn replay(ctx: &Ctx, text: &str) {
    quiet_panics(true);
    let body = replay_body(text);
    let get = |k: &str| {
        let i = body.find(&format!("\"{}\": ", k)).expect("replay field") + k.len() + 4;
        let r = &body[i..];
        if let Some(q) = r.strip_prefix('"') {
            let mut end = 0;
            let b = q.as_bytes();
            while b[end] != b'"' {
                end += if b[end] == b'\\' { 2 } else { 1 };
            }
            from_json_str(&r[..end + 2])
        } else {
            r[..r.find([',', '}']).unwrap()].to_string()
        }
    };
    let name = get("scenario");
    let scens: Vec<Scen> = scenes::of(&ctx.id, true).into_iter().chain(scenes::of(&ctx.id, false)).collect();
    let sc = scens.iter().find(|s| s.name == name).expect("a scenario of that name");
    let policy = *POLICIES.iter().find(|p| format!("{:?}", p) == get("policy")).expect("policy");
    let prefix: Vec<u16> = get("choices").split_whitespace().map(|x| x.parse().unwrap()).collect();
    Explorer::new(ctx, sc, policy, get("hash_seed").parse().unwrap()).once(&prefix);
    case_done();
}

#[derive(Default)]
struct Totals {
    longest: usize,
    slow: BTreeMap<usize, (u64, u64)>, // scenario: ms, runs
}
/// What the base execution of a start looks like: operations, choices of the schedule, of the network.
#[derive(Clone, Copy, Default)]
struct Head {
    steps: f64,
    scheds: f64,
    datas: f64,
}
struct Plan {
    sched: usize,
    data: usize,
    cost: f64,
}
/// The bounds of each start: those of its scenario, and from there deeper where it costs least, until
/// the estimate of all operations reaches the budget. Only counts go into it, no times.
fn plan(scens: &[Scen], starts: &[Start], heads: &[Head], budget: f64) -> Vec<Plan> {
    let cost = |h: &Head, sched: usize, data: usize| {
        let sum = |n: f64, k: usize| {
            let (mut t, mut all) = (1.0, 1.0);
            for i in 0..k {
                t *= (n - i as f64).max(0.0) / (i + 1) as f64;
                all += t;
            }
            all
        };
        sum(h.scheds, sched) * sum(h.datas, data) * (h.steps + 30.0)
    };
    let mut plan: Vec<Plan> = starts
        .iter()
        .zip(heads)
        .map(|(s, h)| {
            let sc = &scens[s.scen];
            Plan { sched: sc.sched, data: sc.data, cost: cost(h, sc.sched, sc.data) }
        })
        .collect();
    let mut total: f64 = plan.iter().map(|p| p.cost).sum();
    loop {
        let mut best: Option<(f64, usize, usize, usize)> = None;
        for (i, (p, h)) in plan.iter().zip(heads).enumerate() {
            if !scens[starts[i].scen].deepen {
                continue;
            }
            for (k, l) in [(p.sched + 1, p.data), (p.sched, p.data + 1)] {
                // nothing new
                if k > 4 || l > 4 || (l > p.data && h.datas < l as f64) || (k > p.sched && h.scheds < k as f64) {
                    continue;
                }
                let c = cost(h, k, l);
                if best.is_none_or(|b| c < b.0) {
                    best = Some((c, i, k, l));
                }
            }
        }
        match best {
            Some((c, i, sched, data)) if total - plan[i].cost + c <= budget => {
                total += c - plan[i].cost;
                plan[i] = Plan { sched, data, cost: c };
            }
            _ => return plan,
        }
    }
}
/// Has the items run by worker processes.
fn work(ctx: &Ctx, scens: &[Scen], starts: &[Start], its: &[Item], totals: &Mutex<Totals>) -> Vec<Head> {
    let heads = Mutex::new(vec![Head::default(); starts.len()]);
    let next = std::sync::atomic::AtomicUsize::new(0);
    let n = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8);
    let ended = Mutex::new(());
    std::thread::scope(|s| {
        for _ in 0..n {
            s.spawn(|| {
                let mut child = std::process::Command::new(std::env::current_exe().unwrap())
                    .args(["worker", &ctx.id])
                    .stdin(std::process::Stdio::piped())
                    .stdout(std::process::Stdio::piped())
                    .spawn()
                    .expect("worker");
                let mut to = child.stdin.take().unwrap();
                let mut from = BufReader::new(child.stdout.take().unwrap());
                loop {
                    let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    if i >= its.len() {
                        break;
                    }
                    let _ = writeln!(to, "{}", its[i].say());
                    let mut said: Vec<String> = vec![];
                    let done = loop {
                        let mut l = String::new();
                        if from.read_line(&mut l).unwrap_or(0) == 0 {
                            break None;
                        }
                        let l = l.trim_end_matches('\n').to_string();
                        if l.starts_with("done ") {
                            break Some(l);
                        }
                        if l.starts_with("KNOWN-FINDING") {
                            ctx.known_once(&l);
                        } else {
                            said.push(l);
                        }
                    };
                    match done {
                        Some(l) => {
                            let mut parts = l.split('\t');
                            let h: Vec<u64> =
                                parts.next().unwrap().split(' ').skip(1).map(|x| x.parse().unwrap()).collect();
                            ctx.add(h[1], h[2], h[3]);
                            let start = h[0] as usize;
                            if its[i].base_only {
                                let n = h[3].max(1) as f64;
                                heads.lock().unwrap()[start] =
                                    Head { steps: h[2] as f64 / n, scheds: h[6] as f64, datas: h[7] as f64 };
                            }
                            let mut g = totals.lock().unwrap();
                            g.longest = g.longest.max(h[4] as usize);
                            let e = g.slow.entry(starts[start].scen).or_insert((0, 0));
                            e.0 += h[5];
                            e.1 += h[3];
                            let mut m = BTreeMap::new();
                            for o in parts {
                                if let Some((k, v)) = o.rsplit_once('=') {
                                    m.insert(k.to_string(), v.parse().unwrap_or(0));
                                }
                            }
                            ctx.add_outcomes(&m);
                        }
                        None => {
                            // the worker has ended: with a violation, or it died
                            let g = ended.lock().unwrap();
                            let code = child.wait().ok();
                            if said.iter().any(|l| l.starts_with("VIOLATION ")) {
                                ctx.child_violated(&said);
                            }
                            let it = &starts[its[i].start];
                            let what = format!("the process dies ({})", code.map_or("?".into(), |c| c.to_string()));
                            ctx.violation(&what, &case_text(&scens[it.scen], it.policy, it.seed, &[]));
                            #[allow(unreachable_code)]
                            drop(g);
                        }
                    }
                }
                drop(to);
                let _ = child.wait();
            });
        }
    });
    heads.into_inner().unwrap()
}

fn run(ctx: &Ctx) {
    write_dicts();
    if let Some(t) = &ctx.replay {
        return replay(ctx, t);
    }
    let scens = scenes::of(&ctx.id, ctx.quick());
    let mut names: Vec<&str> = scens.iter().map(|s| s.name.as_str()).collect();
    names.sort();
    names.dedup();
    assert!(names.len() == scens.len(), "two scenarios have the same name");
    let starts = starts(&scens);
    // the base executions, and how much there is to choose in them
    let first: Vec<Item> =
        (0..starts.len()).map(|start| Item { start, base_only: true, sched: 0, data: 0, shard: 0, shards: 1 }).collect();
    let stats = Mutex::new(Totals::default());
    let heads = work(ctx, &scens, &starts, &first, &stats);
    let plan = plan(&scens, &starts, &heads, if ctx.quick() { 50_000_000.0 } else { 600_000_000.0 });
    let mut its: Vec<Item> = vec![];
    for (start, p) in plan.iter().enumerate() {
        // pieces of about a second
        let shards = ((p.cost / 100_000.0) as usize).clamp(1, 256);
        for shard in 0..shards {
            its.push(Item { start, base_only: false, sched: p.sched, data: p.data, shard, shards });
        }
    }
    // the large ones first
    its.sort_by_key(|i| std::cmp::Reverse(i.shards));
    work(ctx, &scens, &starts, &its, &stats);
    ctx.note("scenarios", scens.len().to_string());
    ctx.note("work_items", its.len().to_string());
    ctx.note("longest_choice_sequence", stats.lock().unwrap().longest.to_string());
    let count = |d: fn(&Plan) -> usize| {
        let mut m: BTreeMap<usize, usize> = BTreeMap::new();
        plan.iter().for_each(|p| *m.entry(d(p)).or_insert(0) += 1);
        json_str(&m.iter().map(|(k, n)| format!("up to {}: {} base schedules", k, n)).collect::<Vec<_>>().join(", "))
    };
    ctx.note("deviations_in_scheduling", count(|p| p.sched));
    ctx.note("deviations_in_network_behaviour", count(|p| p.data));
    for s in scens.iter().step_by((scens.len() / 10).max(1)) {
        ctx.sample(s.name.clone());
    }
    if std::env::var("FIX_RS_TIMES").is_ok() {
        let mut v: Vec<_> = stats.lock().unwrap().slow.iter().map(|(k, x)| (x.0, x.1, scens[*k].name.clone())).collect();
        v.sort();
        let total: u64 = v.iter().map(|x| x.0).sum();
        for x in v.iter().rev().take(25) {
            eprintln!("{:>8} ms {:>8} runs {}", x.0, x.1, x.2);
        }
        eprintln!("total {} ms of worker time", total);
    }
    ctx.assume("executions interleave at the operations of channels, sockets, locks, timers, task starts and ends; between them code of one activity runs without interruption");
    ctx.assume("the simulated network and timers behave as TCP on the loopback interface and tokio's timers do (DESIGN.md)");
}
pub fn c13(ctx: &Ctx) {
    run(ctx)
}
pub fn c14(ctx: &Ctx) {
    run(ctx)
}
pub fn c15(ctx: &Ctx) {
    run(ctx)
}
pub fn c16(ctx: &Ctx) {
    run(ctx)
}
pub fn c17(ctx: &Ctx) {
    run(ctx)
}
pub fn c18(ctx: &Ctx) {
    run(ctx)
}
