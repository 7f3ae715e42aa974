//! C05: messages built through the API. C19: the sending time stamp.
use super::codec::{json_list, same_message, show, universe, Stats};
use super::kit::*;
use super::refmodel::*;
use super::specs::*;
use crate::message::{FieldMap, Message, StringField};
use std::str::FromStr;

/// What a user has asked for so far.
fn rset(m: &mut RefMap, t: Tag, v: &str) {
    match m.fields.iter_mut().find(|f| f.0 == t) {
        Some(f) => f.1 = v.to_string(),
        None => m.fields.push((t, v.to_string())),
    }
}
fn rgroup<'a>(m: &'a mut RefMap, t: Tag, n: usize) -> &'a mut Vec<RefMap> {
    rset(m, t, &n.to_string());
    m.groups.insert(t, vec![RefMap::default(); n]);
    m.groups.get_mut(&t).unwrap()
}
fn set(real: &mut FieldMap, rf: &mut RefMap, t: Tag, v: &str) {
    real.set_field(StringField::new(t, v));
    rset(rf, t, v);
}

/// One step inside of a group instance of 100 { 101, 200 { 201, 202 }, 103 }.
#[derive(Clone, Copy, Debug, PartialEq)]
enum In {
    F(Tag),
    Nested(usize, bool), // instances, filled in reverse order
    Order,               // set_field_order to the dictionary order
}
const IN: &[In] = &[
    In::F(101),
    In::F(103),
    In::Nested(1, false),
    In::Nested(2, true),
    In::Nested(0, false),
    In::Order,
];
fn inside(real: &mut FieldMap, rf: &mut RefMap, op: In, k: &mut usize) {
    *k += 1;
    match op {
        In::F(t) => set(real, rf, t, &format!("i{}", k)),
        In::Nested(n, rev) => {
            let g = real.set_group(200, n as u32, 201);
            let r = rgroup(rf, 200, n);
            for i in 0..n {
                let order: [Tag; 2] = if rev { [202, 201] } else { [201, 202] };
                for t in order {
                    *k += 1;
                    set(&mut g[i], &mut r[i], t, &format!("n{}", k));
                }
            }
        }
        In::Order => real.set_field_order(&[101, 200, 103]),
    }
}
/// The instance is one a parser can take: it has its first field, and either the dictionary order was
/// given or the other members were first set in dictionary order.
fn proper(ops: &[In]) -> bool {
    if !ops.contains(&In::F(101)) {
        return false;
    }
    if ops.contains(&In::Order) {
        return true;
    }
    let p103 = ops.iter().position(|o| *o == In::F(103));
    let p200 = ops.iter().position(|o| matches!(o, In::Nested(..)));
    match (p200, p103) {
        (Some(a), Some(b)) => a < b,
        _ => true,
    }
}

#[derive(Clone, Debug)]
enum Op {
    Head(Tag),
    Body(Tag, &'static str),
    Trail(Tag),
    BodyLen,
    Sum,
    Stamp,
    Group(&'static [&'static [In]]), // instances of 100, each filled by these steps
    Group110(usize),                 // plain group 110 { 111, 112 }
    HeadGroup(usize),                // header group 627 { 628, 629 }
    TrailGroup(usize),               // trailer group 700 { 701, 702 }
    Encode,
}
use In::*;
const OPS: &[Op] = &[
    Op::Head(35),
    Op::Head(8),
    Op::Head(49),
    Op::Head(34),
    Op::Body(1, ""),
    Op::Body(1, "é日"),
    Op::Body(2, "x=y"),
    Op::Trail(89),
    Op::Trail(93),
    Op::BodyLen,
    Op::Sum,
    Op::Stamp,
    Op::Group(&[]),
    Op::Group(&[&[F(103), F(101)]]),
    Op::Group(&[&[F(101), Nested(2, true), F(103)], &[F(101)]]),
    Op::Group110(2),
    Op::Group110(1),
    Op::HeadGroup(1),
    Op::HeadGroup(2),
    Op::TrailGroup(2),
    Op::Encode,
];

pub fn bdoc() -> Doc {
    doc_with_trailer(
        vec![f(49), f(34), f(52), g(627, vec![f(628), f(629)])],
        vec![],
        vec![(
            "A",
            vec![
                f(1),
                g(100, vec![f(101), g(200, vec![f(201), f(202)]), f(103)]),
                f(2),
                g(110, vec![f(111), f(112)]),
            ],
        )],
        vec![g(700, vec![f(701), f(702)])],
    )
}

#[derive(Clone)]
struct State {
    m: Message,
    r: RefMsg,
    k: usize,
}

const STAMP: (i64, i64) = (1_665_045_816, 522_999_999);
const STAMPED: &str = "20221006-08:43:36.522";

fn apply(s: &mut State, op: &Op) -> Result<(), String> {
    s.k += 1;
    let k = s.k;
    match op {
        Op::Head(35) => {
            // the type must be one of the dictionary: only A has the groups
            set(s.m.header_mut(), &mut s.r.header, 35, "A")
        }
        Op::Head(t) => set(s.m.header_mut(), &mut s.r.header, *t, &format!("h{}", k)),
        Op::Body(t, v) => {
            let v = format!("{}b{}", v, k);
            s.m.set_field(StringField::new(*t, &v));
            rset(&mut s.r.body, *t, &v);
        }
        Op::Trail(t) => set(s.m.trailer_mut(), &mut s.r.trailer, *t, &format!("t{}", k)),
        Op::BodyLen => {
            s.m.set_body_len();
            rset(&mut s.r.header, 9, "?");
        }
        Op::Sum => {
            s.m.set_checksum();
            rset(&mut s.r.trailer, 10, "?");
        }
        Op::Stamp => {
            s.m.set_sending_time();
            rset(&mut s.r.header, 52, STAMPED);
        }
        Op::Group(insts) => {
            let n = insts.len();
            let g = s.m.set_group(100, n as u32, 101);
            let r = rgroup(&mut s.r.body, 100, n);
            if g.size() as usize != n {
                return Err(format!("set_group({}) gives {} instances", n, g.size()));
            }
            for i in 0..n {
                for o in insts[i] {
                    inside(&mut g[i], &mut r[i], *o, &mut s.k);
                }
            }
        }
        Op::Group110(n) => {
            let g = s.m.body_mut().set_group(110, *n as u32, 111);
            let r = rgroup(&mut s.r.body, 110, *n);
            if g.size() as usize != *n {
                return Err(format!("set_group({}) gives {} instances", n, g.size()));
            }
            for i in 0..*n {
                s.k += 1;
                set(&mut g[i], &mut r[i], 112, &format!("p{}", s.k));
                set(&mut g[i], &mut r[i], 111, &format!("q{}", s.k));
                set(&mut g[i], &mut r[i], 112, &format!("r{}", s.k));
            }
        }
        Op::HeadGroup(n) => {
            let g = s.m.header_mut().set_group(627, *n as u32, 628);
            let r = rgroup(&mut s.r.header, 627, *n);
            for i in 0..*n {
                set(&mut g[i], &mut r[i], 628, &format!("c{}", k));
                if i == 0 {
                    set(&mut g[i], &mut r[i], 629, &format!("d{}", k));
                }
            }
        }
        Op::TrailGroup(n) => {
            let g = s.m.trailer_mut().set_group(700, *n as u32, 701);
            let r = rgroup(&mut s.r.trailer, 700, *n);
            for i in 0..*n {
                if i == 0 {
                    set(&mut g[i], &mut r[i], 702, &format!("c{}", k));
                }
                set(&mut g[i], &mut r[i], 701, &format!("d{}", k));
            }
        }
        Op::Encode => {
            let a = s.m.to_string();
            if a != s.m.to_string() {
                return Err("encoded twice, two texts".into());
            }
        }
    }
    Ok(())
}

/// Body length and checksum are set last; the text must be a right frame and mean what was set.
fn finish(sp: &Spec, uni: &[Tag], s: &State) -> Result<(), String> {
    let mut m = s.m.clone();
    let mut r = s.r.clone();
    if !r.header.has(8) {
        set(m.header_mut(), &mut r.header, 8, "FIX.4.3");
    }
    if !r.header.has(35) {
        set(m.header_mut(), &mut r.header, 35, "A");
    }
    m.set_body_len();
    m.set_checksum();
    let text = m.to_string();
    frame(&text, r.header.get(8).unwrap(), r.header.get(35).unwrap())?;
    let toks: Vec<(&str, &str)> =
        text.split_terminator(SOH).map(|f| f.split_once('=').unwrap()).collect();
    let at = |t: &str| toks.iter().position(|x| x.0 == t);
    if r.trailer.has(93) && r.trailer.has(89) && at("93") > at("89") {
        return Err(format!("{}: Signature is before SignatureLength", show(&text)));
    }
    rset(&mut r.header, 9, toks[1].1);
    rset(&mut r.trailer, 10, toks[toks.len() - 1].1);
    match meaning(&sp.rf, &text) {
        Outcome::Accept(w) => {
            if !w.same(&r) {
                return Err(format!("{} is not what was set", show(&text)));
            }
        }
        o => return Err(format!("{} is not a valid message: {:?}", show(&text), o)),
    }
    let back = Message::from_str(&text, &sp.dd).map_err(|e| format!("{} is not accepted: {}", show(&text), e))?;
    same_message(&back, &r, uni).map_err(|e| format!("{} parsed again: {}", show(&text), e))?;
    same_message(&m, &r, uni).map_err(|e| format!("read back: {}", e))
}

/// Bytes of a FIX frame, checked without any parser.
pub fn frame(text: &str, begin: &str, typ: &str) -> Result<(), String> {
    let b = text.as_bytes();
    let bad = |s: &str| Err(format!("{}: {}", s, show(text)));
    let p1 = format!("8={}\u{1}9=", begin);
    if !text.starts_with(&p1) {
        return bad("does not start with BeginString and BodyLength");
    }
    let rest = &text[p1.len()..];
    let e = match rest.find(SOH) {
        Some(e) => e,
        None => return bad("no end of BodyLength"),
    };
    let declared = &rest[..e];
    let body_at = p1.len() + e + 1;
    if !text[body_at..].starts_with(&format!("35={}\u{1}", typ)) {
        return bad("MsgType is not third");
    }
    let n = b.len();
    if n < 7 || b[n - 1] != 1 || &b[n - 7..n - 4] != b"10=" || b[n - 8] != 1 {
        return bad("does not end with a three digit CheckSum");
    }
    let sum: u32 = b[..n - 7].iter().map(|c| *c as u32).sum::<u32>() % 256;
    if text[n - 4..n - 1] != format!("{:03}", sum) {
        return bad(&format!("CheckSum should be {:03}", sum));
    }
    let len = n - 7 - body_at;
    if declared != len.to_string() {
        return bad(&format!("BodyLength should be {}", len));
    }
    Ok(())
}

fn starts(sp: &Spec) -> Vec<State> {
    let mut v = vec![State { m: Message::new(), r: RefMsg::default(), k: 0 }];
    for t in [
        "8=FIX.4.3|9=5|35=A|49=S|1=x|100=2|101=a|200=2|201=u|202=w|201=z|103=c|101=b|2=y|110=1|111=p|10=000|",
        "8=FIX.4.3|9=5|35=A|34=1|49=S|627=2|628=a|629=b|628=c|2=y|1=x|93=1|89=s|10=000|",
    ] {
        let t = t.replace('|', "\u{1}");
        let r = match meaning(&sp.rf, &t) {
            Outcome::Accept(r) => r,
            o => panic!("start message: {:?}", o),
        };
        match Message::from_str(&t, &sp.dd) {
            Ok(m) => v.push(State { m, r, k: 100 }),
            Err(_) => {} // C03's business
        }
    }
    v
}

fn dfs(ctx: &Ctx, sp: &Spec, uni: &[Tag], s: &State, path: &mut Vec<usize>, depth: usize, start: usize, st: &mut Stats) {
    st.states += 1;
    let desc = format!("start {}\nops {}", start, json_list(path));
    case(&desc);
    let r = guard(|| finish(sp, uni, s)).unwrap_or_else(|p| Err(format!("panics: {}", p)));
    st.traces += 1;
    if let Err(e) = r {
        let names: Vec<String> = path.iter().map(|i| format!("{:?}", OPS[*i])).collect();
        ctx.violation(&format!("{} (after {})", e, names.join(", ")), &desc);
    }
    if depth == 0 {
        return;
    }
    for (i, op) in OPS.iter().enumerate() {
        let mut n = s.clone();
        path.push(i);
        st.trans += 1;
        match guard(|| apply(&mut n, op)) {
            Ok(Ok(())) => dfs(ctx, sp, uni, &n, path, depth - 1, start, st),
            Ok(Err(e)) | Err(e) => {
                ctx.violation(&e, &format!("start {}\nops {}", start, json_list(path)))
            }
        }
        path.pop();
    }
}

fn inner(ctx: &Ctx, sp: &Spec, uni: &[Tag], path: &mut Vec<usize>, depth: usize, st: &mut Stats) {
    let ops: Vec<In> = path.iter().map(|i| IN[*i]).collect();
    if proper(&ops) {
        // the instance alone, first of two and last of two
        for shape in 0..3usize {
            st.states += 1;
            st.traces += 1;
            let desc = format!("inner {}\nops {}", shape, json_list(path));
            case(&desc);
            if let Err(e) = inner_case(sp, uni, &ops, shape) {
                ctx.violation(&format!("{} (instance built by {:?})", e, ops), &desc);
            }
        }
    }
    if depth > 0 {
        for i in 0..IN.len() {
            path.push(i);
            st.trans += 1;
            inner(ctx, sp, uni, path, depth - 1, st);
            path.pop();
        }
    }
}
fn inner_case(sp: &Spec, uni: &[Tag], ops: &[In], shape: usize) -> Result<(), String> {
    guard(|| {
        let mut s = State { m: Message::new(), r: RefMsg::default(), k: 0 };
        let n = if shape == 0 { 1 } else { 2 };
        let g = s.m.set_group(100, n as u32, 101);
        let r = rgroup(&mut s.r.body, 100, n);
        let mut k = 0;
        for i in 0..n {
            if n == 1 || i == shape - 1 {
                for o in ops {
                    inside(&mut g[i], &mut r[i], *o, &mut k);
                }
            } else {
                inside(&mut g[i], &mut r[i], In::F(101), &mut k);
            }
        }
        finish(sp, uni, &s)
    })
    .unwrap_or_else(|p| Err(format!("panics: {}", p)))
}

fn length_case(sp: &Spec, uni: &[Tag], n: usize, c: char) -> Result<(), String> {
    guard(|| {
        let mut s = State { m: Message::new(), r: RefMsg::default(), k: 0 };
        let v: String = std::iter::repeat(c).take(n).collect();
        set(s.m.header_mut(), &mut s.r.header, 8, "FIX.4.3");
        if n > 0 {
            s.m.set_field(StringField::new(1, &v));
            rset(&mut s.r.body, 1, &v);
        }
        finish(sp, uni, &s)
    })
    .unwrap_or_else(|p| Err(format!("panics: {}", p)))
}

/// Number of fields of the wide dictionary, and the orders in which n of them are set.
const WIDE: u32 = 130;
fn wide_doc() -> Doc {
    let mut d = doc(
        (1..=WIDE).map(|i| f(3000 + i)).collect(),
        vec![],
        vec![("A", (1..=WIDE).map(|i| f(1000 + i)).chain([g(2000, (0..=WIDE).map(|i| f(2001 + i)).collect())]).collect())],
    );
    for i in 1..=WIDE {
        d.trailer.insert(0, f(4000 + i));
        d.fields.push(FieldDef { num: 4000 + i, name: format!("F{}", 4000 + i), typ: "STRING".into(), values: vec![] });
    }
    d
}
/// n fields set in one place of a message; in a group instance the others are set in dictionary order,
/// and the first one as the `at`-th.
fn wide_case(sp: &Spec, uni: &[Tag], n: usize, place: usize, order: usize) -> Result<(), String> {
    guard(|| {
        let n = n as u32;
        let mut s = State { m: Message::new(), r: RefMsg::default(), k: 0 };
        let ord: Vec<u32> = match order {
            0 => (1..=n).collect(),
            1 => (1..=n).rev().collect(),
            _ => (1..=n).filter(|i| i % 2 == 0).chain((1..=n).filter(|i| i % 2 == 1)).collect(),
        };
        match place {
            0 => ord.iter().for_each(|i| set(s.m.header_mut(), &mut s.r.header, 3000 + i, &format!("h{}", i))),
            1 => ord.iter().for_each(|i| set(s.m.body_mut(), &mut s.r.body, 1000 + i, &format!("b{}", i))),
            2 => ord.iter().for_each(|i| set(s.m.trailer_mut(), &mut s.r.trailer, 4000 + i, &format!("t{}", i))),
            _ => {
                let k = if place == 3 { 1 } else { 3 };
                let gr = s.m.set_group(2000, k as u32, 2001);
                let r = rgroup(&mut s.r.body, 2000, k);
                for x in 0..k {
                    // the first field is set first, in the middle, last
                    let at = [0, n / 2, n][order];
                    for i in 0..=n {
                        if i == at {
                            set(&mut gr[x], &mut r[x], 2001, &format!("d{}", x));
                        }
                        if i < n {
                            set(&mut gr[x], &mut r[x], 2002 + i, &format!("g{}.{}", x, i));
                        }
                    }
                }
            }
        }
        finish(sp, uni, &s)
    })
    .unwrap_or_else(|p| Err(format!("panics: {}", p)))
}

pub fn c05(ctx: &Ctx) {
    let wsp = spec("builder-wide", wide_doc());
    let wuni = vec![5000, 7];
    let sp = spec("builder", bdoc());
    let uni = universe(&sp);
    let ss = starts(&sp);
    set_clock(Some(STAMP));
    if let Some(r) = &ctx.replay {
        let b = replay_body(r);
        let nums = |p: &str| -> Option<Vec<usize>> {
            b.lines().find_map(|l| l.strip_prefix(p)).map(|l| {
                l.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()
            })
        };
        let ops = nums("ops ").unwrap_or_default();
        if let Some(s) = nums("start ") {
            let mut x = ss[s[0]].clone();
            for i in &ops {
                if let Err(e) = guard(|| apply(&mut x, &OPS[*i])).unwrap_or_else(|e| Err(e)) {
                    ctx.violation(&e, &b);
                }
            }
            if let Err(e) = guard(|| finish(&sp, &uni, &x)).unwrap_or_else(|e| Err(e)) {
                ctx.violation(&e, &b);
            }
        }
        if let Some(s) = nums("inner ") {
            let o: Vec<In> = ops.iter().map(|i| IN[*i]).collect();
            if let Err(e) = inner_case(&sp, &uni, &o, s[0]) {
                ctx.violation(&e, &b);
            }
        }
        if let Some(s) = nums("wide ") {
            if let Err(e) = wide_case(&wsp, &wuni, s[0], s[1], s[2]) {
                ctx.violation(&e, &b);
            }
        }
        if let Some(s) = nums("length ") {
            let c = char::from_u32(s[1] as u32).unwrap();
            if let Err(e) = length_case(&sp, &uni, s[0], c) {
                ctx.violation(&e, &b);
            }
        }
        return;
    }
    let depth = ctx.pick(5, 6);
    let mut work: Vec<(usize, usize, usize)> = vec![];
    for i in 0..ss.len() {
        // (parsed starts one step less deep)
        for a in 0..OPS.len() {
            for b in 0..OPS.len() {
                work.push((i, a, b));
            }
        }
    }
    par(&work, |(i, a, b)| {
        set_clock(Some(STAMP));
        let mut st = Stats::default();
        let mut s = ss[*i].clone();
        let mut path = vec![];
        let d = if *i == 0 { depth } else { depth - 1 };
        for o in [a, b] {
            path.push(*o);
            st.trans += 1;
            if let Err(e) = guard(|| apply(&mut s, &OPS[*o])).unwrap_or_else(|e| Err(e)) {
                ctx.violation(&e, &format!("start {}\nops {}", i, json_list(&path)));
            }
            if path.len() == 1 && *b == 0 {
                dfs(ctx, &sp, &uni, &s, &mut path, 0, *i, &mut st);
            }
        }
        dfs(ctx, &sp, &uni, &s, &mut path, d - 2, *i, &mut st);
        st.count(if *i == 0 { "built sequences" } else { "sequences on a parsed message" });
        st.flush(ctx);
    });
    let inner_depth = ctx.pick(6, 8);
    let firsts: Vec<usize> = (0..IN.len() * IN.len()).collect();
    par(&firsts, |i| {
        let mut st = Stats::default();
        let mut path = vec![*i / IN.len(), *i % IN.len()];
        inner(ctx, &sp, &uni, &mut path, inner_depth - 2, &mut st);
        st.flush(ctx);
    });
    let lens: Vec<usize> = (0..=ctx.pick(1300, 12000)).collect();
    par(&lens, |n| {
        let mut st = Stats::default();
        for c in ['a', 'b', 'é', '日', '\u{7f}', '\u{10ffff}'] {
            st.states += 1;
            st.traces += 1;
            let desc = format!("length {} {}", n, c as u32);
            case(&desc);
            if let Err(e) = length_case(&sp, &uni, *n, c) {
                ctx.violation(&e, &desc);
            }
        }
        st.flush(ctx);
    });
    let wide: Vec<usize> = (0..=WIDE as usize).collect();
    par(&wide, |n| {
        let mut st = Stats::default();
        for place in 0..5 {
            for order in 0..3 {
                st.states += 1;
                st.traces += 1;
                st.trans += *n as u64;
                let desc = format!("wide {} {} {}", n, place, order);
                case(&desc);
                if let Err(e) = wide_case(&wsp, &wuni, *n, place, order) {
                    ctx.violation(&e, &desc);
                }
            }
        }
        st.flush(ctx);
    });
    ctx.note("fields_in_one_place", WIDE.to_string());
    ctx.note("operation_depth", depth.to_string());
    ctx.note("instance_operation_depth", inner_depth.to_string());
    ctx.note("operations", OPS.len().to_string());
    ctx.note("exhaustive", "true".into());
    for s in [
        "Message::new, Group(2 instances, nested), Group(0), finish",
        "parsed message, Stamp, Group110(1), Trail(89), finish",
        "instance: Nested(2), F(101), F(103), Nested(0)",
        "value of every length 0..1300 of each of six characters",
    ] {
        ctx.sample(s.to_string());
    }
    ctx.assume("group instances are given their first field, and other members in dictionary order or with a field order");
}

// ------------------------------------------------------------------ C19
/// Year, month, day of a day count since 1970-01-01 (proleptic Gregorian calendar).
pub fn civil(mut d: i64) -> (i64, i64, i64) {
    let leap = |y: i64| (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    let mut y = 1970;
    while d < 0 {
        y -= 1;
        d += if leap(y) { 366 } else { 365 };
    }
    loop {
        let n = if leap(y) { 366 } else { 365 };
        if d < n {
            break;
        }
        d -= n;
        y += 1;
    }
    let len = [31, if leap(y) { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
    let mut m = 0;
    while d >= len[m] {
        d -= len[m];
        m += 1;
    }
    (y, m as i64 + 1, d + 1)
}

fn stamp_want(sec: i64, ns: i64) -> String {
    let (y, mo, d) = civil(sec.div_euclid(86400));
    let s = sec.rem_euclid(86400);
    format!("{:04}{:02}{:02}-{:02}:{:02}:{:02}.{:03}", y, mo, d, s / 3600, s / 60 % 60, s % 60, ns / 1_000_000)
}

fn stamp_case(ms: &mut Message, before: &str, sec: i64, ns: i64) -> Result<(), String> {
    set_clock(Some((sec, ns)));
    let r = guard(|| ms.set_sending_time());
    set_clock(None);
    r.map_err(|p| format!("panics: {}", p))?;
    let want = stamp_want(sec, ns);
    let got = ms.header().get_field::<String>(52).unwrap_or_default();
    if got != want {
        return Err(format!("stamped {:?}, should be {:?}", got, want));
    }
    let text = ms.to_string();
    let rest: String =
        text.split_terminator(SOH).filter(|f| !f.starts_with("52=")).map(|f| format!("{}\u{1}", f)).collect();
    if rest != before || text.matches("\u{1}52=").count() != 1 {
        return Err(format!("something else than the sending time changed: {}", show(&text)));
    }
    Ok(())
}

fn stamp_messages(sp: &Spec) -> Vec<(Message, String)> {
    let mut v = vec![];
    for t in [
        "8=FIX.4.3|9=5|35=A|",
        "8=FIX.4.3|9=5|35=A|52=20000101-00:00:00.000|34=1|1=a|10=000|",
        "8=FIX.4.3|9=5|35=A|34=1|49=S|627=1|628=a|100=1|101=a|103=c|93=1|89=s|10=000|",
    ] {
        let m = Message::from_str(&t.replace('|', "\u{1}"), &sp.dd).expect("message of the check");
        let rest: String = m
            .to_string()
            .split_terminator(SOH)
            .filter(|f| !f.starts_with("52="))
            .map(|f| format!("{}\u{1}", f))
            .collect();
        v.push((m, rest));
    }
    v
}

pub fn c19(ctx: &Ctx) {
    clock_self_test();
    let sp = spec("builder", bdoc());
    let ms = stamp_messages(&sp);
    let run = |list: &[(i64, i64)], from: usize, st: &mut Stats| {
        // one message is stamped again and again, the others once each
        let mut again = ms[1].0.clone();
        for (i, (s, n)) in list.iter().enumerate() {
            // (with the stamps that were made before)
            let desc = format!(
                "at{}",
                list[if from > 0 { 0 } else { i.saturating_sub(3) }..=i]
                    .iter()
                    .map(|x| format!(" {} {}", x.0, x.1))
                    .collect::<String>()
            );
            case(&desc);
            st.states += 1;
            st.trans += 1;
            st.traces += 1;
            let mut other = ms[if i % 2 == 0 { 0 } else { 2 }].clone();
            for (m, before) in [(&mut again, &ms[1].1), (&mut other.0, &ms[if i % 2 == 0 { 0 } else { 2 }].1)] {
                if let Err(e) = stamp_case(m, before, *s, *n) {
                    ctx.violation(&e, &desc);
                }
            }
        }
    };
    if let Some(r) = &ctx.replay {
        let b = replay_body(r);
        let v: Vec<i64> = b.trim().strip_prefix("at ").unwrap().split(' ').map(|x| x.parse().unwrap()).collect();
        let l: Vec<(i64, i64)> = v.chunks(2).map(|c| (c[0], c[1])).collect();
        run(&l, 1, &mut Stats::default());
        return;
    }
    let mut work: Vec<Vec<(i64, i64)>> = vec![];
    // every day, at its first and last instant, and at noon
    let days: Vec<i64> = (0..=ctx.pick(47_847, 109_572)).collect(); // to 2100, thorough to 2269
    for c in days.chunks(1000) {
        work.push(
            c.iter()
                .flat_map(|d| [(d * 86400, 0), (d * 86400 + 86399, 999_999_999), (d * 86400 + 43200, 500_000_000)])
                .collect(),
        );
    }
    // every second of one day
    let base = 1_709_164_800; // 2024-02-29
    for h in 0..24 {
        work.push((0..3600).map(|s| (base + h * 3600 + s, 7_000_000)).collect());
    }
    // every millisecond of a second, at its first and last nanosecond
    for q in 0..10 {
        work.push(
            (q * 100..q * 100 + 100)
                .flat_map(|m| [(base + 59, m * 1_000_000), (base + 59, m * 1_000_000 + 999_999), (base + 59, m * 1_000_000 + 1)])
                .collect(),
        );
    }
    work.push(vec![(253_402_300_799, 999_999_999), (32_503_680_000, 0)]);
    par(&work, |l| {
        let mut st = Stats::default();
        run(l, 0, &mut st);
        st.flush(ctx);
    });
    // histories: every sequence of stamps whose distances are from the list, forward and backward
    let mut steps: Vec<(i64, i64)> = vec![(0, 0)];
    for (s, n) in [
        (0, 1), (0, 999_999), (0, 1_000_000), (0, 999_000_000), (1, 0), (9, 0), (10, 0), (59, 0), (60, 0), (3600, 0),
        (12 * 3600, 0), (86_399, 0), (86_400, 0), (86_401, 0), (7 * 86_400, 0), (28 * 86_400, 0), (30 * 86_400, 0),
        (31 * 86_400, 0), (365 * 86_400, 0), (366 * 86_400, 0), (65_536, 0),
    ] {
        steps.push((s, n));
        steps.push((-s, -n));
    }
    let length = ctx.pick(3, 4);
    let mut starts = vec![];
    for b in [base + 43_200, base + 86_399, base - 1, 1_735_689_599, 1_735_689_600] {
        for n in [0, 7_000_000, 999_999_999] {
            for s in &steps {
                starts.push((b, n, *s));
            }
        }
    }
    par(&starts, |(b, n, first)| {
        fn go(
            l: &mut Vec<(i64, i64)>, left: usize, steps: &[(i64, i64)], run: &dyn Fn(&[(i64, i64)], &mut Stats),
            st: &mut Stats,
        ) {
            if left == 0 {
                run(l, st);
                return;
            }
            let (s, n) = l[l.len() - 1];
            for (ds, dn) in steps {
                let at = (s + ds) * 1_000_000_000 + n + dn;
                l.push((at.div_euclid(1_000_000_000), at.rem_euclid(1_000_000_000)));
                go(l, left - 1, steps, run, st);
                l.pop();
            }
        }
        let mut st = Stats::default();
        let mut l = vec![(*b, *n)];
        let at = (b + first.0) * 1_000_000_000 + n + first.1;
        l.push((at.div_euclid(1_000_000_000), at.rem_euclid(1_000_000_000)));
        go(&mut l, length - 2, &steps, &|l, st| run(l, 1, st), &mut st);
        st.flush(ctx);
    });
    ctx.note("history_length", format!("{}", length));
    ctx.note("exhaustive", "true".into());
    ctx.sample(stamp_want(base + 59, 999_999));
    ctx.sample(stamp_want(0, 0));
    ctx.note_str("bounds", "three instants of every day, every second of a day, three instants of every millisecond of a second; all sequences of history_length stamps over 43 distances (1 ns to 366 days, forward and backward) from 15 instants; local time zone of the process is not UTC");
}
#[allow(dead_code)]
fn _u() {
    let _ = u32::from_str("1");
}
