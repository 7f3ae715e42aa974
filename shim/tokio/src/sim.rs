//! Deterministic, exhaustively drivable execution of the code under test.
//!
//! Actors are: the main activity, tasks, operating system threads started by the code, and scripted
//! clients. Exactly one runs at a time; at scheduling points the scheduler decides which one is next.
//! Every decision with more than one possibility is a choice, taken from a given prefix and by default
//! the first one; the run reports all choices, so a driver can enumerate them.
use std::cell::Cell;
use std::collections::{BTreeMap, VecDeque};
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering::*};
use std::sync::Arc;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};

// ------------------------------------------------------------------ raw system interface
#[inline]
unsafe fn raw_syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    let r: i64;
    core::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _, options(nostack));
    r
}
extern "C" {
    fn __errno_location() -> *mut i32;
    fn dlsym(h: *mut u8, name: *const i8) -> *mut u8;
}
const SYS_FUTEX: i64 = 202;
#[repr(C)]
pub struct Timespec {
    sec: i64,
    nsec: i64,
}

/// Interposes libc's syscall: a lock which is taken makes an actor wait in the scheduler instead.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    if n == SYS_FUTEX && IN_ACTOR.try_with(|i| i.get()).unwrap_or(false) && active() {
        let op = b & 0x7f;
        if op == 0 || op == 9 {
            let addr = a as *const AtomicU32;
            if (*addr).load(SeqCst) != c as u32 {
                *__errno_location() = 11;
                return -1;
            }
            let due = if d == 0 {
                None
            } else {
                let ts = &*(d as *const Timespec);
                let mut rel = ts.sec as i128 * 1_000_000_000 + ts.nsec as i128;
                if op == 9 {
                    let mut now = Timespec { sec: 0, nsec: 0 };
                    raw_syscall(228, 1, &mut now as *mut _ as usize, 0, 0, 0, 0);
                    rel -= now.sec as i128 * 1_000_000_000 + now.nsec as i128;
                }
                Some(w().now + rel.max(0) as u64)
            };
            if futex_wait(addr, c as u32, due) {
                return 0;
            }
            *__errno_location() = 110;
            return -1;
        }
    }
    let r = raw_syscall(n, a, b, c, d, e, f);
    if (-4095..0).contains(&r) {
        *__errno_location() = (-r) as i32;
        return -1;
    }
    r
}
/// Interposes sleeping: an actor sleeps in virtual time.
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const Timespec, rem: *mut Timespec) -> i32 {
    clock_nanosleep_any(1, 0, req, rem)
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clock: i32, flags: i32, req: *const Timespec, rem: *mut Timespec) -> i32 {
    let r = clock_nanosleep_any(clock, flags, req, rem);
    if r == -1 {
        *__errno_location()
    } else {
        0
    }
}
unsafe fn clock_nanosleep_any(clock: i32, flags: i32, req: *const Timespec, rem: *mut Timespec) -> i32 {
    if IN_ACTOR.try_with(|i| i.get()).unwrap_or(false) && active() {
        let rel = (*req).sec as u64 * 1_000_000_000 + (*req).nsec as u64;
        block_on(crate::time::sleep(std::time::Duration::from_nanos(rel)));
        return 0;
    }
    let r = raw_syscall(230, clock as usize, flags as usize, req as usize, rem as usize, 0, 0);
    if r < 0 {
        *__errno_location() = (-r) as i32;
        return -1;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if IN_ACTOR.try_with(|i| i.get()).unwrap_or(false) && active() {
        // spinning for a lock: let another actor go on
        pass();
        return 0;
    }
    raw_syscall(24, 0, 0, 0, 0, 0, 0) as i32
}

type Start = extern "C" fn(*mut u8) -> *mut u8;
struct Threaded {
    start: Start,
    arg: *mut u8,
    actor: usize,
    baton: Arc<Baton>,
    epoch: u64,
}
extern "C" fn thread_main(p: *mut u8) -> *mut u8 {
    let t = unsafe { Box::from_raw(p as *mut Threaded) };
    t.baton.wait(EPOCH_STATIC);
    IN_ACTOR.with(|i| i.set(true));
    let r = (t.start)(t.arg);
    IN_ACTOR.with(|i| i.set(false));
    if active() && EPOCH.load(SeqCst) == t.epoch {
        w().actors[t.actor].st = St::Done;
        w().ctl.post();
    }
    r
}
const EPOCH_STATIC: u32 = 1;
/// Interposes thread creation: threads started by an actor are actors.
#[no_mangle]
pub unsafe extern "C" fn pthread_create(th: *mut u64, attr: *const u8, start: Start, arg: *mut u8) -> i32 {
    static REAL: AtomicU64 = AtomicU64::new(0);
    if REAL.load(SeqCst) == 0 {
        REAL.store(dlsym(-1isize as *mut u8, c"pthread_create".as_ptr() as *const i8) as u64, SeqCst);
    }
    let real: extern "C" fn(*mut u64, *const u8, Start, *mut u8) -> i32 = std::mem::transmute(REAL.load(SeqCst) as usize);
    if !(IN_ACTOR.try_with(|i| i.get()).unwrap_or(false) && active()) {
        return real(th, attr, start, arg);
    }
    let baton = Arc::new(Baton::default());
    let actor = w().add(Kind::Thread { baton: baton.clone() });
    let t = Box::new(Threaded { start, arg, actor, baton, epoch: EPOCH.load(SeqCst) });
    let r = real(th, attr, thread_main, Box::into_raw(t) as *mut u8);
    if r != 0 {
        w().actors[actor].st = St::Done;
    } else {
        point();
    }
    r
}

/// Hands control to an operating system thread and back.
#[derive(Default)]
pub struct Baton {
    word: AtomicU32,
}
impl Baton {
    fn wait(&self, _: u32) {
        loop {
            if self.word.swap(0, SeqCst) == 1 {
                return;
            }
            unsafe { raw_syscall(SYS_FUTEX, &self.word as *const _ as usize, 128, 0, 0, 0, 0) };
        }
    }
    fn post(&self) {
        self.word.store(1, SeqCst);
        unsafe { raw_syscall(SYS_FUTEX, &self.word as *const _ as usize, 129, 1, 0, 0, 0) };
    }
}

// ------------------------------------------------------------------ coroutines
#[unsafe(naked)]
unsafe extern "C" fn switch(_from: *mut usize, _to: usize) {
    core::arch::naked_asm!(
        "push rbp", "push rbx", "push r12", "push r13", "push r14", "push r15",
        "mov [rdi], rsp", "mov rsp, rsi",
        "pop r15", "pop r14", "pop r13", "pop r12", "pop rbx", "pop rbp", "ret"
    )
}
#[unsafe(naked)]
unsafe extern "C" fn trampoline() {
    core::arch::naked_asm!("mov rdi, r12", "call r13", "ud2")
}
const STACK: usize = 512 * 1024;
struct Co {
    sp: usize,
    stack: *mut u8,
    f: Option<Box<dyn FnOnce()>>,
    done: bool,
}
extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(a: *mut u8, n: usize, prot: i32) -> i32;
}
static mut STACKS: Vec<*mut u8> = vec![];
extern "C" fn co_main(co: *mut Co) -> ! {
    unsafe {
        let f = (*co).f.take().unwrap();
        let _ = catch_unwind(AssertUnwindSafe(f));
        (*co).done = true;
        leave(co);
    }
    unreachable!()
}
#[allow(static_mut_refs)]
fn new_co(f: Box<dyn FnOnce()>) -> Box<Co> {
    unsafe {
        let stack = STACKS.pop().unwrap_or_else(|| {
            let p = mmap(std::ptr::null_mut(), STACK, 3, 0x22, -1, 0);
            assert!(p as isize != -1);
            mprotect(p, 4096, 0);
            p
        });
        let mut co = Box::new(Co { sp: 0, stack, f: Some(f), done: false });
        let top = stack.add(STACK) as *mut usize;
        let ptr = &mut *co as *mut Co as usize;
        // r15 r14 r13 r12 rbx rbp ret
        let frame = [0, 0, co_main as *const () as usize, ptr, 0, 0, trampoline as *const () as usize];
        let sp = top.sub(frame.len());
        for (i, v) in frame.iter().enumerate() {
            *sp.add(i) = *v;
        }
        co.sp = sp as usize;
        co
    }
}
/// From a coroutine back to the scheduler.
unsafe fn leave(co: *mut Co) {
    IN_ACTOR.with(|i| i.set(false));
    let to = w().ctl_sp;
    switch(&mut (*co).sp, to);
    IN_ACTOR.with(|i| i.set(true));
}

// ------------------------------------------------------------------ world
pub type Port = u16;
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum St {
    Idle,    // a task which waits to be woken
    Ready,   // can be started or polled
    Mid,     // interrupted, can go on
    Blocked, // interrupted, waits to be woken
    Futex(usize, u32, Option<u64>),
    Done,
}
pub enum Kind {
    Main,
    Task { fut: Option<Pin<Box<dyn Future<Output = ()>>>>, on_end: Option<Box<dyn FnOnce(Ended)>>, abort: bool },
    Thread { baton: Arc<Baton> },
    Client(usize),
    Drainer(usize),
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ended {
    Panicked,
    Aborted,
}
pub struct Actor {
    pub kind: Kind,
    pub st: St,
    co: Option<Box<Co>>,
    woken: bool,
    timed_out: bool,
    wakers: u32,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Policy {
    RoundRobin,
    CodeFirst,
    ClientsFirst,
    ThreadsLast,
    NewestFirst,
}
pub const POLICIES: [Policy; 5] =
    [Policy::RoundRobin, Policy::CodeFirst, Policy::ClientsFirst, Policy::ThreadsLast, Policy::NewestFirst];

/// What a client does, one step each.
#[derive(Clone, PartialEq, Debug)]
pub enum Act {
    Connect(Port),
    Send(Vec<u8>),
    Fin,
    Close,
    Reset { discard: bool },
    /// waits until that many messages have come in on the current connection
    Await(usize),
    /// waits until the other side has closed its direction
    AwaitEof,
    /// waits until the application has been given that many messages
    AwaitDelivered(usize),
    Drain(usize),
    /// that many seconds pass
    Pause(u64),
}

#[derive(Clone, Debug, Default)]
pub struct Setup {
    pub policy: Option<Policy>,
    pub prefix: Vec<u16>,
    pub clients: Vec<Vec<Act>>,
    /// clients which read only what they are given time to: bytes they take without reading
    pub window: BTreeMap<usize, usize>,
    /// reads may return any part of what is there
    pub split_reads: bool,
    /// writes may take any part of what is offered
    pub split_writes: bool,
    /// the first so many binds of a port fail
    pub bind_fail: BTreeMap<Port, u32>,
    /// these accept calls of a port (counted from 0) fail
    pub accept_fail: BTreeMap<Port, Vec<u32>>,
    pub errors: Errors,
    pub horizon: u64,
}
/// What failing operations say (error numbers of the system).
#[derive(Clone, Copy, Debug)]
pub struct Errors {
    pub bind: i32,
    pub accept: i32,
    pub reset: i32,
}
impl Default for Errors {
    fn default() -> Self {
        // EADDRINUSE, EMFILE, ECONNRESET
        Errors { bind: 98, accept: 24, reset: 104 }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Conn {
    pub client: usize,
    pub port: Port,
    pub inbox: VecDeque<u8>,
    pub sent: Vec<u8>,
    pub taken: usize, // bytes the code has read
    pub taken_at: Vec<(usize, u64)>, // (bytes read, step)
    pub out_at: Vec<(usize, u64)>,   // (bytes written, step)
    pub fin: bool,
    pub closed: bool,
    pub reset: bool,
    pub out: Vec<u8>,
    pub drained: usize,
    pub accepted: bool,
    pub read_dropped: bool,
    pub write_dropped: bool,
    pub eof_reads: u32,
    pub failure_told: bool,
    pub late_writes: u32,
    pub refused: bool,
    // events in the order of the steps
    pub connected_at: u64,
    pub closed_at: Option<u64>,
    pub write_closed_at: Option<u64>,
    pub rd: Option<Waker>,
    pub wr: Option<Waker>,
    // message ends in out
    pub in_msgs: usize,
    pub field_start: usize,
}
impl Conn {
    pub fn released(&self) -> bool {
        self.read_dropped && self.write_dropped
    }
}
pub struct Listener {
    pub port: Port,
    pub alive: bool,
    pub backlog: VecDeque<usize>,
    pub waker: Option<Waker>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct NetEvent {
    pub at: u64,
    pub now: u64,
    pub what: NetWhat,
}
#[derive(Clone, Debug, PartialEq)]
pub enum NetWhat {
    Bind(Port, bool),
    Accept(Port, bool),
    ListenerDropped(Port, usize),
    Refused(Port),
}
struct ClientState {
    script: Vec<Act>,
    pc: usize,
    conn: Option<usize>,
    until: u64,
}
struct Timer {
    due: u64,
    seq: u64,
    waker: Waker,
}

pub struct World {
    pub actors: Vec<Actor>,
    policy: Policy,
    prefix: Vec<u16>,
    trace: Vec<Choice>,
    pub now: u64,
    timers: Vec<Timer>,
    timer_seq: u64,
    pub steps: u64,
    horizon: u64,
    ctl: Baton,
    ctl_sp: usize,
    cur: usize,
    next: Option<Pick>,
    tearing: bool,
    over: bool,
    pub ops: u32, // operations in this poll, as tokio's cooperative budget
    clients: Vec<ClientState>,
    window: BTreeMap<usize, usize>,
    pub split_reads: bool,
    pub split_writes: bool,
    bind_fail: BTreeMap<Port, u32>,
    accept_fail: BTreeMap<Port, Vec<u32>>,
    pub errors: Errors,
    accept_calls: BTreeMap<Port, u32>,
    pub conns: Vec<Conn>,
    pub listeners: Vec<Listener>,
    pub events: Vec<NetEvent>,
    delivered: usize,
    panics: u32,
    pub spins: Vec<usize>,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Pick {
    Actor(usize),
    Time,
}
static mut WORLD: *mut World = std::ptr::null_mut();
static ACTIVE: AtomicBool = AtomicBool::new(false);
static EPOCH: AtomicU64 = AtomicU64::new(0);
thread_local! { static IN_ACTOR: Cell<bool> = const { Cell::new(false) }; }

pub fn active() -> bool {
    ACTIVE.load(Relaxed)
}
/// The world; no reference is kept across a scheduling point.
#[allow(clippy::mut_from_ref)]
pub fn w() -> &'static mut World {
    assert!(active(), "the controlled runtime is not running");
    unsafe { &mut *WORLD }
}
pub fn tearing() -> bool {
    !active() || w().tearing
}

/// A decision: which of n; data: not about who is next but about what the environment does.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Choice {
    pub c: u16,
    pub n: u16,
    pub data: bool,
}
#[derive(Clone, Debug, Default)]
pub struct Report {
    pub trace: Vec<Choice>,
    pub steps: u64,
    pub quiet: bool, // nothing left to do (else the horizon was reached)
    pub conns: Vec<Conn>,
    pub events: Vec<NetEvent>,
    pub live_tasks: usize,
    pub live_threads: usize,
    pub panics: u32,
    pub spins: Vec<usize>,
    pub stuck: Vec<(usize, usize)>, // client, position in its script
    pub now: u64,
}

impl World {
    pub fn add(&mut self, kind: Kind) -> usize {
        self.actors.push(Actor { kind, st: St::Ready, co: None, woken: false, timed_out: false, wakers: 0 });
        self.actors.len() - 1
    }
    pub fn event(&mut self, what: NetWhat) {
        self.events.push(NetEvent { at: self.steps, now: self.now, what });
    }

    fn enabled(&self, i: usize) -> bool {
        let a = &self.actors[i];
        match a.st {
            St::Done => false,
            St::Mid => true,
            St::Idle | St::Blocked => a.woken,
            St::Futex(addr, v, due) => {
                let changed = unsafe { (*(addr as *const AtomicU32)).load(SeqCst) != v };
                changed || due.is_some_and(|d| d <= self.now)
            }
            St::Ready => match a.kind {
                Kind::Client(c) => self.client_enabled(c),
                Kind::Drainer(c) => self.clients[c].conn.is_some_and(|k| {
                    let k = &self.conns[k];
                    !k.closed && !k.reset && k.drained < k.out.len()
                }),
                _ => true,
            },
        }
    }
    fn client_enabled(&self, c: usize) -> bool {
        let cl = &self.clients[c];
        if cl.until > self.now {
            return false;
        }
        let conn = cl.conn.map(|k| &self.conns[k]);
        match cl.script.get(cl.pc) {
            None => false,
            // an address which was bound once can be connected to from then on
            Some(Act::Connect(p)) => self.listeners.iter().any(|l| l.port == *p),
            Some(Act::Await(n)) => conn.is_some_and(|k| k.in_msgs >= *n),
            Some(Act::AwaitEof) => conn.is_some_and(|k| k.write_dropped),
            Some(Act::AwaitDelivered(n)) => self.delivered >= *n,
            Some(_) => true,
        }
    }
    fn client_step(&mut self, c: usize) {
        let act = self.clients[c].script[self.clients[c].pc].clone();
        self.clients[c].pc += 1;
        let conn = self.clients[c].conn;
        let at = self.steps;
        match act {
            Act::Connect(p) => {
                let id = self.conns.len();
                let mut k = Conn { client: c, port: p, connected_at: at, ..Default::default() };
                match self.listeners.iter_mut().find(|l| l.alive && l.port == p) {
                    Some(l) => {
                        l.backlog.push_back(id);
                        if let Some(w) = l.waker.take() {
                            w.wake();
                        }
                    }
                    None => {
                        k.refused = true;
                        self.event(NetWhat::Refused(p));
                    }
                }
                self.conns.push(k);
                self.clients[c].conn = Some(id);
            }
            Act::Send(b) => {
                let k = &mut self.conns[conn.unwrap()];
                k.sent.extend_from_slice(&b);
                if !k.refused && !k.released() {
                    k.inbox.extend(b);
                    wake(&mut k.rd);
                }
            }
            Act::Fin => {
                let k = &mut self.conns[conn.unwrap()];
                k.fin = true;
                k.closed_at.get_or_insert(at);
                wake(&mut k.rd);
            }
            Act::Close => {
                let k = &mut self.conns[conn.unwrap()];
                k.fin = true;
                k.closed = true;
                k.closed_at.get_or_insert(at);
                wake(&mut k.rd);
                wake(&mut k.wr);
            }
            Act::Reset { discard } => {
                let k = &mut self.conns[conn.unwrap()];
                k.reset = true;
                k.closed_at.get_or_insert(at);
                if discard {
                    k.inbox.clear();
                }
                wake(&mut k.rd);
                wake(&mut k.wr);
            }
            Act::Drain(n) => {
                let k = &mut self.conns[conn.unwrap()];
                k.drained = (k.drained + n).min(k.out.len());
                wake(&mut k.wr);
            }
            Act::Pause(s) => self.clients[c].until = self.now + s * 1_000_000_000,
            Act::Await(_) | Act::AwaitEof | Act::AwaitDelivered(_) => {}
        }
    }
    /// Room for bytes to a client that does not read by itself.
    pub fn room(&self, conn: usize) -> usize {
        let k = &self.conns[conn];
        match self.window.get(&k.client) {
            Some(w) => w.saturating_sub(k.out.len() - k.drained),
            None => usize::MAX,
        }
    }

    fn choose(&mut self, n: usize, data: bool) -> usize {
        if n <= 1 {
            return 0;
        }
        let i = self.trace.len();
        let c = (self.prefix.get(i).copied().unwrap_or(0) as usize).min(n - 1);
        self.trace.push(Choice { c: c as u16, n: n as u16, data });
        c
    }

    /// Who is next; cur: the actor which could go on.
    fn decide(&mut self, cur: Option<usize>) -> Option<Pick> {
        loop {
            let n = self.actors.len();
            let mut list: Vec<usize> = (0..n).filter(|i| Some(*i) != cur && self.enabled(*i)).collect();
            if list.is_empty() && cur.is_none() {
                // nothing else to do: time passes
                if self.pass_time() {
                    continue;
                }
                return None;
            }
            let at = self.cur;
            let rr = |i: usize| (i + n - at - 1) % n;
            let is_client = |i: usize| matches!(self.actors[i].kind, Kind::Client(_) | Kind::Drainer(_));
            let is_thread = |i: usize| matches!(self.actors[i].kind, Kind::Thread { .. });
            match self.policy {
                Policy::RoundRobin => list.sort_by_key(|i| rr(*i)),
                Policy::CodeFirst => list.sort_by_key(|i| (is_client(*i), rr(*i))),
                Policy::ClientsFirst => list.sort_by_key(|i| (!is_client(*i), rr(*i))),
                Policy::ThreadsLast => list.sort_by_key(|i| (is_thread(*i), rr(*i))),
                Policy::NewestFirst => list.sort_by_key(|i| n - i),
            }
            if let Some(c) = cur {
                list.insert(0, c);
            }
            let timers = !self.timers.is_empty();
            let k = self.choose(list.len() + timers as usize, false);
            return Some(if k < list.len() { Pick::Actor(list[k]) } else { Pick::Time });
        }
    }
    /// Advances the clock to the next event in time.
    fn pass_time(&mut self) -> bool {
        let futex = self
            .actors
            .iter()
            .filter_map(|a| match a.st {
                St::Futex(_, _, Some(d)) if d > self.now => Some(d),
                _ => None,
            })
            .chain(self.clients.iter().map(|c| c.until).filter(|u| *u > self.now))
            .min();
        let t = self.timers.iter().enumerate().min_by_key(|(_, t)| (t.due, t.seq)).map(|(i, t)| (i, t.due));
        match (t, futex) {
            (Some((i, due)), f) if f.is_none_or(|f| due <= f) => {
                self.now = self.now.max(due);
                let t = self.timers.remove(i);
                t.waker.wake();
                self.steps += 1;
                self.now < 3_600_000_000_000 && self.steps < self.horizon
            }
            (_, Some(f)) => {
                self.now = f;
                true
            }
            _ => false,
        }
    }

    fn resume(&mut self, i: usize) {
        self.steps += 1;
        self.cur = i;
        let a = &mut self.actors[i];
        match &mut a.kind {
            Kind::Client(c) => {
                let c = *c;
                self.client_step(c);
            }
            Kind::Drainer(c) => {
                let c = *c;
                let k = &mut self.conns[self.clients[c].conn.unwrap()];
                k.drained = k.out.len();
                wake(&mut k.wr);
            }
            Kind::Thread { baton } => {
                let b = baton.clone();
                a.woken = false;
                if let St::Futex(_, _, Some(d)) = a.st {
                    a.timed_out = d <= self.now;
                }
                a.st = St::Mid;
                b.post();
                self.ctl.wait(0);
            }
            Kind::Main | Kind::Task { .. } => {
                if a.co.is_none() {
                    // a new poll
                    a.woken = false;
                    self.ops = 0;
                    a.co = Some(new_co(Box::new(move || poll_task(i))));
                } else if a.st == St::Blocked {
                    a.woken = false;
                }
                if let St::Futex(_, _, Some(d)) = a.st {
                    a.timed_out = d <= self.now;
                }
                a.st = St::Mid;
                let co = &mut **a.co.as_mut().unwrap() as *mut Co;
                unsafe {
                    IN_ACTOR.with(|x| x.set(true));
                    let sp = (*co).sp;
                    switch(&mut w().ctl_sp, sp);
                    IN_ACTOR.with(|x| x.set(false));
                    #[allow(static_mut_refs)]
                    if (*co).done {
                        STACKS.push((*co).stack);
                        w().actors[i].co = None;
                    }
                }
            }
        }
    }
}
pub fn wake(w: &mut Option<Waker>) {
    if let Some(w) = w.take() {
        w.wake();
    }
}

fn poll_task(i: usize) {
    let (fut, abort) = match &mut w().actors[i].kind {
        Kind::Task { fut, abort, .. } => (fut.take(), *abort),
        _ => return,
    };
    let mut fut = fut.unwrap();
    if abort {
        end_task(i, Some(Ended::Aborted));
        let _ = catch_unwind(AssertUnwindSafe(move || drop(fut)));
        return;
    }
    let waker = waker_of(i);
    let r = catch_unwind(AssertUnwindSafe(|| fut.as_mut().poll(&mut Context::from_waker(&waker))));
    match r {
        Ok(Poll::Pending) => {
            let a = &mut w().actors[i];
            a.st = St::Idle;
            if let Kind::Task { fut: f, abort, .. } = &mut a.kind {
                *f = Some(fut);
                if *abort {
                    a.woken = true;
                }
            }
        }
        Ok(Poll::Ready(())) => {
            let _ = catch_unwind(AssertUnwindSafe(move || drop(fut)));
            end_task(i, None);
        }
        Err(_) => {
            w().panics += 1;
            let _ = catch_unwind(AssertUnwindSafe(move || drop(fut)));
            end_task(i, Some(Ended::Panicked));
        }
    }
}
fn end_task(i: usize, how: Option<Ended>) {
    let a = &mut w().actors[i];
    a.st = St::Done;
    if let Kind::Task { on_end, .. } = &mut a.kind {
        if let (Some(f), Some(h)) = (on_end.take(), how) {
            f(h)
        }
    }
}

// ------------------------------------------------------------------ wakers
static VT: RawWakerVTable = RawWakerVTable::new(
    |p| {
        unsafe { Arc::increment_strong_count(p as *const Wk) };
        RawWaker::new(p, &VT)
    },
    |p| unsafe {
        let a = Arc::from_raw(p as *const Wk);
        a.wake();
    },
    |p| unsafe { (*(p as *const Wk)).wake() },
    |p| unsafe { drop(Arc::from_raw(p as *const Wk)) },
);
struct Wk {
    actor: usize,
    epoch: u64,
}
impl Wk {
    fn wake(&self) {
        if active() && EPOCH.load(SeqCst) == self.epoch {
            w().actors[self.actor].woken = true;
        }
    }
}
fn waker_of(i: usize) -> Waker {
    let a = Arc::new(Wk { actor: i, epoch: EPOCH.load(SeqCst) });
    unsafe { Waker::from_raw(RawWaker::new(Arc::into_raw(a) as *const (), &VT)) }
}

// ------------------------------------------------------------------ scheduling points
fn in_actor() -> bool {
    IN_ACTOR.with(|i| i.get()) && active()
}
/// Gives control away; the state of the actor has been set.
fn switch_out(i: usize) {
    let a = &mut w().actors[i];
    match &a.kind {
        Kind::Thread { baton } => {
            let b = baton.clone();
            IN_ACTOR.with(|x| x.set(false));
            w().ctl.post();
            b.wait(0);
            IN_ACTOR.with(|x| x.set(true));
        }
        _ => {
            let co = &mut **a.co.as_mut().unwrap() as *mut Co;
            unsafe { leave(co) }
        }
    }
}
/// A point at which another actor may run.
pub fn point() {
    if !in_actor() || w().tearing {
        return;
    }
    let wd = w();
    let i = wd.cur;
    wd.steps += 1;
    if wd.steps >= wd.horizon {
        wd.over = true;
        wd.actors[i].st = St::Mid;
        switch_out(i);
        return;
    }
    match wd.decide(Some(i)) {
        Some(Pick::Actor(k)) if k == i => {}
        p => {
            wd.next = p;
            wd.actors[i].st = St::Mid;
            switch_out(i);
        }
    }
}
/// Another actor has to run before this one goes on.
fn pass() {
    let wd = w();
    let i = wd.cur;
    if wd.tearing {
        return;
    }
    wd.steps += 1;
    wd.next = wd.decide_without(i);
    wd.actors[i].st = St::Mid;
    switch_out(i);
}
impl World {
    fn decide_without(&mut self, i: usize) -> Option<Pick> {
        // the default is any other actor, this one if there is none
        let st = self.actors[i].st;
        self.actors[i].st = St::Done;
        let n = self.actors.len();
        let any = (0..n).any(|k| self.enabled(k));
        let p = if any || !self.timers.is_empty() { self.decide(None) } else { None };
        self.actors[i].st = st;
        p.or(Some(Pick::Actor(i)))
    }
}
fn futex_wait(addr: *const AtomicU32, val: u32, due: Option<u64>) -> bool {
    let wd = w();
    let i = wd.cur;
    if wd.tearing {
        return true;
    }
    wd.actors[i].timed_out = false;
    wd.actors[i].st = St::Futex(addr as usize, val, due);
    switch_out(i);
    !w().actors[i].timed_out
}
/// Runs a future to its end in an activity which may block (the main activity, a thread).
pub fn block_on<F: Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    assert!(in_actor(), "the controlled runtime is not running");
    let i = w().cur;
    let waker = waker_of(i);
    loop {
        w().actors[i].woken = false;
        if let Poll::Ready(r) = f.as_mut().poll(&mut Context::from_waker(&waker)) {
            return r;
        }
        if w().tearing {
            // nothing will ever wake it: end the activity
            std::panic::resume_unwind(Box::new("end of the execution"));
        }
        w().actors[i].st = St::Blocked;
        switch_out(i);
    }
}
/// As block_on; gives up when the execution is taken apart.
pub fn block_on_or<T>(f: impl Future<Output = T>, or: impl FnOnce() -> T) -> T {
    let mut f = Box::pin(f);
    assert!(in_actor(), "the controlled runtime is not running");
    let i = w().cur;
    let waker = waker_of(i);
    loop {
        w().actors[i].woken = false;
        if let Poll::Ready(r) = f.as_mut().poll(&mut Context::from_waker(&waker)) {
            return r;
        }
        if w().tearing {
            return or();
        }
        w().actors[i].st = St::Blocked;
        switch_out(i);
    }
}
pub fn wake_actor(i: usize) {
    w().actors[i].woken = true;
}
pub fn current_is_task() -> bool {
    in_actor() && matches!(w().actors[w().cur].kind, Kind::Task { .. })
}
/// One of n possibilities of the environment.
pub fn choice(n: usize) -> usize {
    if !in_actor() || w().tearing {
        return 0;
    }
    w().choose(n, true)
}
/// tokio's cooperative budget: after 128 operations in a poll, operations pretend not to be ready.
pub fn out_of_budget(cx: &mut Context<'_>) -> bool {
    let wd = w();
    wd.ops += 1;
    if wd.ops > 128 {
        cx.waker().wake_by_ref();
        return true;
    }
    false
}
pub fn add_timer(due: u64, waker: Waker) {
    let wd = w();
    wd.timer_seq += 1;
    let seq = wd.timer_seq;
    wd.timers.push(Timer { due, seq, waker });
}
pub fn note_delivered() {
    w().delivered += 1;
}
pub fn step() -> u64 {
    w().steps
}
/// Number of the bind which is due for the port fails?
pub fn bind_fails(p: Port) -> bool {
    match w().bind_fail.get_mut(&p) {
        Some(n) if *n > 0 => {
            *n -= 1;
            true
        }
        _ => false,
    }
}
pub fn accept_fails(p: Port) -> bool {
    let wd = w();
    let n = wd.accept_calls.entry(p).or_insert(0);
    let call = *n;
    let fails = wd.accept_fail.get(&p).is_some_and(|v| v.contains(&call));
    if fails {
        *n += 1;
    }
    fails
}
pub fn accept_done(p: Port) {
    *w().accept_calls.entry(p).or_insert(0) += 1;
}

// ------------------------------------------------------------------ running
/// One execution. main gives what has to live until the end.
pub fn run(setup: &Setup, main: impl FnOnce() -> Box<dyn std::any::Any> + 'static) -> Report {
    EPOCH.fetch_add(1, SeqCst);
    let keep: Arc<std::sync::Mutex<Option<Box<dyn std::any::Any>>>> = Arc::default();
    let wd = Box::new(World {
        actors: vec![],
        policy: setup.policy.unwrap_or(Policy::RoundRobin),
        prefix: setup.prefix.clone(),
        trace: vec![],
        now: 0,
        timers: vec![],
        timer_seq: 0,
        steps: 0,
        horizon: setup.horizon,
        ctl: Baton::default(),
        ctl_sp: 0,
        cur: 0,
        next: None,
        tearing: false,
        over: false,
        ops: 0,
        clients: setup.clients.iter().map(|s| ClientState { script: s.clone(), pc: 0, conn: None, until: 0 }).collect(),
        window: setup.window.clone(),
        split_reads: setup.split_reads,
        split_writes: setup.split_writes,
        bind_fail: setup.bind_fail.clone(),
        accept_fail: setup.accept_fail.clone(),
        errors: setup.errors,
        accept_calls: BTreeMap::new(),
        conns: vec![],
        listeners: vec![],
        events: vec![],
        delivered: 0,
        panics: 0,
        spins: vec![],
    });
    unsafe { WORLD = Box::into_raw(wd) };
    ACTIVE.store(true, SeqCst);
    let k = keep.clone();
    let m = w().add(Kind::Main);
    w().actors[m].co = Some(new_co(Box::new(move || {
        match catch_unwind(AssertUnwindSafe(main)) {
            Ok(v) => *k.lock().unwrap() = Some(v),
            Err(_) => w().panics += 1,
        }
        w().actors[m].st = St::Done;
    })));
    for c in 0..setup.clients.len() {
        w().add(Kind::Client(c));
    }
    for c in setup.window.keys() {
        w().add(Kind::Drainer(*c));
    }
    loop {
        let wd = w();
        let p = match wd.next.take() {
            Some(p) => p,
            None => match wd.decide(None) {
                Some(p) => p,
                None => break,
            },
        };
        match p {
            Pick::Actor(i) => wd.resume(i),
            Pick::Time => {
                wd.pass_time();
            }
        }
        if w().over || w().steps >= w().horizon {
            w().over = true;
            break;
        }
    }
    let wd = w();
    let rep = Report {
        trace: std::mem::take(&mut wd.trace),
        steps: wd.steps,
        quiet: !wd.over,
        events: std::mem::take(&mut wd.events),
        live_tasks: wd.actors.iter().filter(|a| matches!(a.kind, Kind::Task { .. }) && a.st != St::Done).count(),
        live_threads: wd.actors.iter().filter(|a| matches!(a.kind, Kind::Thread { .. }) && a.st != St::Done).count(),
        panics: wd.panics,
        spins: wd.spins.clone(),
        stuck: wd.clients.iter().enumerate().filter(|(_, c)| c.pc < c.script.len()).map(|(i, c)| (i, c.pc)).collect(),
        now: wd.now,
        conns: std::mem::take(&mut wd.conns),
    };
    // take the execution apart
    wd.tearing = true;
    wd.timers.clear();
    for i in 0..wd.actors.len() {
        let f = match &mut w().actors[i].kind {
            Kind::Task { fut, on_end, .. } => {
                on_end.take();
                fut.take()
            }
            _ => None,
        };
        let _ = catch_unwind(AssertUnwindSafe(move || drop(f)));
    }
    let v = keep.lock().unwrap().take();
    let _ = catch_unwind(AssertUnwindSafe(move || drop(v)));
    // threads find their channels closed and end
    for _ in 0..50 {
        let mut left = false;
        for i in 0..w().actors.len() {
            if let Kind::Thread { .. } = w().actors[i].kind {
                if w().actors[i].st != St::Done {
                    left = true;
                    w().resume(i);
                }
            }
        }
        if !left {
            break;
        }
    }
    unsafe {
        let wd = Box::from_raw(WORLD);
        ACTIVE.store(false, SeqCst);
        let _ = catch_unwind(AssertUnwindSafe(move || drop(wd)));
    }
    rep
}
