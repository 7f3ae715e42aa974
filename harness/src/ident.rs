//! C06: session identities of texts and of configuration.
use super::codec::{from_json_str, show, Stats};
use super::kit::*;
use super::refmodel::*;
use super::specs::*;
use crate::message::Message;
use crate::network::SessionMap;
use crate::session::*;
use std::collections::hash_map::DefaultHasher;
use std::collections::HashMap;
use std::hash::{Hash, Hasher};

/// begin, sender (comp, sub, loc), target (comp, sub, loc); absent and empty are the same
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Parts {
    pub begin: String,
    pub s: [String; 3],
    pub t: [String; 3],
}
impl Parts {
    pub fn reverse(&self) -> Parts {
        Parts { begin: self.begin.clone(), s: self.t.clone(), t: self.s.clone() }
    }
}
pub fn parts_of(id: &SessionId) -> Parts {
    let o = |x: &Option<String>| x.clone().unwrap_or_default();
    Parts {
        begin: id.begin_string().clone(),
        s: [id.sender_compid().clone(), o(id.sender_subid()), o(id.sender_locationid())],
        t: [id.target_compid().clone(), o(id.target_subid()), o(id.target_locationid())],
    }
}
fn hash(id: &SessionId) -> u64 {
    let mut h = DefaultHasher::new();
    id.hash(&mut h);
    h.finish()
}

const ID_TAGS: [(&str, usize); 6] = [("49", 0), ("50", 1), ("142", 2), ("56", 3), ("57", 4), ("143", 5)];

pub fn parts_of_text(text: &str) -> Parts {
    // the first field with the tag; the text starts with BeginString
    let mut v: [String; 6] = Default::default();
    let mut seen = [false; 6];
    let mut begin = String::new();
    for (i, f) in text.strip_suffix(SOH).unwrap_or(text).split(SOH).enumerate() {
        if let Some((t, x)) = f.split_once('=') {
            if i == 0 && t == "8" {
                begin = x.to_string();
            }
            for (k, n) in ID_TAGS {
                if t == k && !seen[n] {
                    seen[n] = true;
                    v[n] = x.to_string();
                }
            }
        }
    }
    let [a, b, c, d, e, f] = v;
    Parts { begin, s: [a, b, c], t: [d, e, f] }
}

fn check_text(sp: &Spec, text: &str) -> Result<(), String> {
    let want = parts_of_text(text);
    let (id, rev) = guard(|| (Message::get_session_id(text), Message::get_reverse_session_id(text)))
        .map_err(|p| format!("panics: {}", p))?;
    if parts_of(&id) != want {
        return Err(format!("identity {:?}, should be {:?}", parts_of(&id), want));
    }
    if parts_of(&rev) != want.reverse() {
        return Err(format!("reverse identity {:?}, should be {:?}", parts_of(&rev), want.reverse()));
    }
    if let Ok(Ok(m)) = guard(|| Message::from_str(text, &sp.dd)) {
        let g = |t: u32| m.header().get_field::<String>(t).unwrap_or_default();
        let h = Parts { begin: g(8), s: [g(49), g(50), g(142)], t: [g(56), g(57), g(143)] };
        if parts_of(&id) != h {
            return Err(format!("identity {:?}, but the parsed header has {:?}", parts_of(&id), h));
        }
    }
    Ok(())
}

fn text_of(p: &Parts, empty_fields: bool) -> String {
    let mut s = format!("8={}{1}9=5{1}35=A{1}", p.begin, SOH);
    for (t, n) in ID_TAGS {
        let v = if n < 3 { &p.s[n] } else { &p.t[n - 3] };
        if !v.is_empty() || empty_fields {
            s.push_str(&format!("{}={}{}", t, v, SOH));
        }
    }
    s.push_str(&format!("10=000{}", SOH));
    s
}

const KEYS: [&str; 6] = [
    SENDER_COMPID_SETTING,
    SENDER_SUBID_SETTING,
    SENDER_LOCATIONID_SETTING,
    TARGET_COMPID_SETTING,
    TARGET_SUBID_SETTING,
    TARGET_LOCATIONID_SETTING,
];
/// The identity built from configuration; bit i of split: component i is written in the default section.
fn configured(p: &Parts, split: u32, empty: bool) -> SessionId {
    let mut own = HashMap::new();
    let mut def = HashMap::new();
    let mut put = |i: u32, k: &str, v: &str| {
        if split & (1 << i) != 0 { &mut def } else { &mut own }.insert(k.to_string(), v.to_string());
    };
    put(6, BEGIN_STRING_SETTING, &p.begin);
    for i in 0..6 {
        let v = if i < 3 { &p.s[i] } else { &p.t[i - 3] };
        if !v.is_empty() || empty {
            put(i as u32, KEYS[i], v);
        }
    }
    // values of another session in the default section are overridden by the own ones
    for i in 0..6 {
        if own.contains_key(KEYS[i]) && split & (1 << 7) != 0 {
            def.insert(KEYS[i].to_string(), "OTHER".to_string());
        }
    }
    SessionId::from_map(&own, &def)
}

fn combos(ctx: &Ctx) -> Vec<Parts> {
    // values chosen so that their concatenations coincide
    let comps: &[&str] = &["A", "A/X", "A->B"];
    let subs: &[&str] = &["", "X", "Y", "X/Y"];
    let locs: &[&str] = if ctx.quick() { &["", "X", "Y"] } else { &["", "X", "Y", "X/Y"] };
    let mut v = vec![];
    for begin in ["FIX.4.2", "FIX.4.3"] {
        for a in comps {
            for b in subs {
                for c in locs {
                    for d in ["B", "A"] {
                        for e in subs {
                            for f in locs {
                                v.push(Parts {
                                    begin: begin.into(),
                                    s: [a.to_string(), b.to_string(), c.to_string()],
                                    t: [d.to_string(), e.to_string(), f.to_string()],
                                })
                            }
                        }
                    }
                }
            }
        }
    }
    v
}

pub fn ident_spec() -> Spec {
    spec(
        "ident",
        doc(
            vec![f(49), f(50), f(142), f(56), f(57), f(143), f(34), f(149), f(1156), f(450), f(115), f(116)],
            vec![],
            vec![("A", vec![f(58), f(1)])],
        ),
    )
}

fn pair_case(a: &Parts, ra: usize, b: &Parts, rb: usize) -> Result<(), String> {
    let x = by_route(a, ra);
    let y = by_route(b, rb);
    pair(a, &x, b, &y)
}
fn pair(a: &Parts, x: &SessionId, b: &Parts, y: &SessionId) -> Result<(), String> {
    let same = a == b;
    if (x == y) != same || (y == x) != same {
        return Err(format!("{:?} and {:?} are {} equal", a, b, if same { "not" } else { "" }));
    }
    Ok(())
}
/// The identity made in one of several ways.
fn by_route(p: &Parts, r: usize) -> SessionId {
    match r {
        0 => Message::get_session_id(&text_of(p, false)),
        1 => Message::get_reverse_session_id(&text_of(&p.reverse(), false)),
        2 => configured(p, 0, false),
        3 => configured(p, 0xff, false),
        4 => configured(p, 0x80, true),
        5 => Message::get_reverse_session_id(&text_of(&p.reverse(), true)),
        _ => {
            let mut b = SessionIdBuilder::new(p.begin.as_str(), p.s[0].as_str(), p.t[0].as_str());
            if !p.s[1].is_empty() {
                b.sender_subid(p.s[1].as_str());
            }
            if !p.s[2].is_empty() {
                b.sender_locationid(p.s[2].as_str());
            }
            if !p.t[1].is_empty() {
                b.target_subid(p.t[1].as_str());
            }
            if !p.t[2].is_empty() {
                b.target_locationid(p.t[2].as_str());
            }
            b.build().unwrap()
        }
    }
}
const ROUTES: usize = 7;

pub fn c06(ctx: &Ctx) {
    let sp = ident_spec();
    let all = combos(ctx);
    if let Some(r) = &ctx.replay {
        let b = replay_body(r);
        for l in b.lines() {
            if let Some(t) = l.strip_prefix("text ") {
                if let Err(e) = check_text(&sp, &from_json_str(t)) {
                    ctx.violation(&e, &b);
                }
            }
            if let Some(t) = l.strip_prefix("pair ") {
                let v: Vec<usize> = t.split(' ').map(|x| x.parse().unwrap()).collect();
                if let Err(e) = pair_case(&all[v[0]], v[1], &all[v[2]], v[3]) {
                    ctx.violation(&e, &b);
                }
            }
        }
        return;
    }
    // every combination, made in every way: components, hash
    let idx: Vec<usize> = (0..all.len()).collect();
    let ids: std::sync::Mutex<Vec<Option<[SessionId; 2]>>> = std::sync::Mutex::new(vec![None; all.len()]);
    par(&idx, |i| {
        let mut st = Stats::default();
        let p = &all[*i];
        let mut made: Vec<SessionId> = vec![];
        for r in 0..ROUTES {
            let desc = format!("pair {} {} {} {}", i, r, i, 0);
            case(&desc);
            st.states += 1;
            st.trans += 1;
            st.traces += 1;
            let id = match guard(|| by_route(p, r)) {
                Ok(id) => id,
                Err(e) => ctx.violation(&format!("panics: {}", e), &desc),
            };
            if parts_of(&id) != *p {
                ctx.violation(&format!("identity of {:?} has {:?}", p, parts_of(&id)), &desc);
            }
            if let Some(f) = made.first() {
                if hash(f) != hash(&id) {
                    ctx.violation(&format!("equal identities {:?} hash differently", p), &desc);
                }
                if let Err(e) = pair(p, f, p, &id) {
                    ctx.violation(&e, &desc);
                }
            }
            made.push(id);
        }
        for e in [false, true] {
            let t = text_of(p, e);
            if let Err(e) = check_text(&sp, &t) {
                ctx.violation(&e, &format!("text {}", json_str(&t)));
            }
        }
        for split in 0..256 {
            let desc = format!("split {} of {:?}", split, p);
            st.traces += 1;
            let id = configured(p, split, split & 1 == 1);
            if parts_of(&id) != *p || id != made[0] {
                ctx.violation("an identity from configuration split between session and default differs", &desc);
            }
        }
        ids.lock().unwrap()[*i] = Some([made[1].clone(), made[2].clone()]);
        st.flush(ctx);
    });
    let ids: Vec<[SessionId; 2]> = ids.into_inner().unwrap().into_iter().map(|x| x.unwrap()).collect();
    // every pair: a configured identity equals the reverse identity of a text exactly if all parts agree
    par(&idx, |i| {
        let mut st = Stats::default();
        let (p, x) = (&all[*i], &ids[*i][1]);
        for k in 0..all.len() {
            st.trans += 1;
            if let Err(e) = pair(p, x, &all[k], &ids[k][0]) {
                ctx.violation(&e, &format!("pair {} 2 {} 1", i, k));
            }
        }
        st.traces += all.len() as u64;
        st.flush(ctx);
    });
    // lookups: every map of three confusable sessions, every identity looked up
    let few: &[&str] = ctx.pick(&["", "X"], &["", "X", "Y"]);
    let conf: Vec<usize> = idx
        .iter()
        .copied()
        .filter(|i| {
            let p = &all[*i];
            let small = |v: &String| ["", "X"].contains(&v.as_str());
            p.begin == "FIX.4.3"
                && ["A", "A/X"].contains(&p.s[0].as_str())
                && p.t[0] == "B"
                && few.contains(&p.s[1].as_str())
                && few.contains(&p.s[2].as_str())
                && small(&p.t[1])
                && small(&p.t[2])
        })
        .collect();
    ctx.note("sessions_of_the_maps", conf.len().to_string());
    par(&conf, |a| {
        let mut st = Stats::default();
        for b in conf.iter().filter(|b| *b > a) {
            for c in conf.iter().filter(|c| *c > b) {
                let set = [*a, *b, *c];
                st.states += 1;
                let map = SessionMap::from_iter(set.iter().map(|i| {
                    let mut s = Session::default();
                    s.session_id = ids[*i][1].clone();
                    (ids[*i][1].clone(), s)
                }));
                for k in &conf {
                    st.trans += 1;
                    st.traces += 1;
                    let got = map.get_session(&ids[*k][0]).map(|s| parts_of(&s.session_id));
                    let want = if set.contains(k) { Some(all[*k].clone()) } else { None };
                    if got != want {
                        ctx.violation(
                            &format!("lookup of {:?} finds {:?}", all[*k], got),
                            &format!("map {:?} lookup {}", set, k),
                        );
                    }
                }
            }
        }
        st.flush(ctx);
    });
    // every arrangement of up to n of these fields, complete or cut before the last separator
    let toks: &[&str] = &[
        "49=S", "50=s", "142=l", "56=T", "57=t", "143=m", "149=D", "450=D", "1156=D", "58=49=E", "58=56=E", "34=8=F",
        "115=S=1", "116=é", "49=é=", "56=日", "50=", "143=", "1=50", "1=x 56=y", "8=Q",
    ];
    let n = ctx.pick(5, 6);
    let starts: Vec<(usize, usize)> = (0..toks.len()).flat_map(|a| (0..toks.len()).map(move |b| (a, b))).collect();
    par(&starts, |(a, b)| {
        let mut st = Stats::default();
        fn go(ctx: &Ctx, sp: &Spec, toks: &[&str], t: &mut String, left: usize, st: &mut Stats) {
            for end in ["\u{1}", "", "\u{1}10=000\u{1}"] {
                let x = format!("{}{}", t, end);
                st.states += 1;
                st.traces += 1;
                let desc = format!("text {}", json_str(&x));
                case(&desc);
                if let Err(e) = check_text(sp, &x) {
                    ctx.violation(&format!("{} for {}", e, show(&x)), &desc);
                }
            }
            if left == 0 {
                return;
            }
            for k in toks {
                let l = t.len();
                t.push(SOH);
                t.push_str(k);
                st.trans += 1;
                go(ctx, sp, toks, t, left - 1, st);
                t.truncate(l);
            }
        }
        for begin in ["8=FIX.4.3", "8=49=X", "8="] {
            let mut t = format!("{0}{3}9=5{3}35=A{3}{1}{3}{2}", begin, toks[*a], toks[*b], SOH);
            let left = if begin == "8=FIX.4.3" { n - 2 } else { 1 };
            go(ctx, &sp, toks, &mut t, left, &mut st);
        }
        st.flush(ctx);
    });
    // long values in and before the identity fields
    let ns = super::codec::sizes(ctx.quick(), 600, ctx.pick(13, 17));
    let long: Vec<usize> = (0..ns.len()).collect();
    par(&long, |i| {
        let mut st = Stats::default();
        let l = ns[*i];
        for tag in ["34", "58", "49", "50", "142", "56", "57", "143", "8"] {
            for c in ['x', 'é', '日', '\u{1d54f}', '='] {
                for off in 0..c.len_utf8() {
                    let v = format!("{}{}", "x".repeat(off), c.to_string().repeat(l / c.len_utf8()));
                    let ids = ["49=S", "50=s", "142=l", "56=T", "57=t", "143=m"];
                    let mut t = if tag == "8" { format!("8={}", v) } else { "8=F".to_string() };
                    t.push_str(&format!("{0}9=5{0}35=A{0}", SOH));
                    if tag == "34" || tag == "58" {
                        t.push_str(&format!("{}={}{}", tag, v, SOH));
                    }
                    for x in ids {
                        if x.split('=').next() == Some(tag) {
                            t.push_str(&format!("{}={}{}", tag, v, SOH));
                        } else {
                            t.push_str(&format!("{}{}", x, SOH));
                        }
                    }
                    t.push_str(&format!("10=000{}", SOH));
                    st.states += 1;
                    st.trans += 1;
                    st.traces += 1;
                    let desc = format!("text {}", json_str(&t));
                    case(&desc);
                    if let Err(e) = check_text(&sp, &t) {
                        ctx.violation(&format!("{} for a value of {} bytes", e, v.len()), &desc);
                    }
                }
            }
        }
        // many fields before the identity
        if l <= 4096 {
            let mut t = format!("8=F{0}9=5{0}35=A{0}", SOH);
            for k in 0..l {
                t.push_str(&format!("{}=49{}", 6000 + k, SOH));
            }
            t.push_str(&format!("49=S{0}56=T{0}50=s{0}10=1{0}", SOH));
            st.states += 1;
            st.traces += 1;
            let desc = format!("text {}", json_str(&t));
            case(&desc);
            if let Err(e) = check_text(&sp, &t) {
                ctx.violation(&format!("{} after {} fields", e, l), &desc);
            }
        }
        st.flush(ctx);
    });
    ctx.note("arrangement_length", n.to_string());
    ctx.note("identities", all.len().to_string());
    ctx.note("exhaustive", "true".into());
    ctx.sample(show(&text_of(&all[all.len() - 1], true)));
    ctx.sample("8=FIX.4.3|9=5|35=A|149=D|58=49=E|49=é=|50=".into());
    ctx.assume("BeginString is the first field of the text");
}
