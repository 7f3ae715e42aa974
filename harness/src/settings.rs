//! C09, C10: configuration files: acceptance and resolution of settings.
use super::codec::{from_json_str, Stats};
use super::kit::*;
use crate::quickfix_errors::ConfigErr;
use crate::session::*;
use chrono::{NaiveTime, Weekday};
use std::collections::BTreeMap;
use std::str::FromStr;

// ------------------------------------------------------------------ configurations
#[derive(Clone, Debug, PartialEq)]
pub struct Section {
    pub default: bool,
    pub sets: Vec<(String, String)>,
}
pub fn section(default: bool, sets: &[(&str, &str)]) -> Section {
    Section { default, sets: sets.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect() }
}
impl Section {
    fn get(&self, k: &str) -> Option<&String> {
        self.sets.iter().find(|(x, _)| x == k).map(|(_, v)| v)
    }
}

/// How a configuration is written down.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Layout {
    indent: &'static str,
    quote_key: bool,
    quote_val: bool,
    eq: &'static str,
    blanks: u8, // bits: 1 before the first section, 2 after headers, 4 between settings, 8 between sections, 16 at the end
    blank: &'static str,
    trail: &'static str,
    nl: &'static str,
    rev: bool,     // settings in reverse order
    final_nl: bool,
}
pub const PLAIN: Layout = Layout {
    indent: "",
    quote_key: false,
    quote_val: true,
    eq: " = ",
    blanks: 8,
    blank: "",
    trail: "",
    nl: "\n",
    rev: false,
    final_nl: true,
};

pub fn layouts() -> Vec<Layout> {
    vec![
        PLAIN,
        Layout { indent: "   ", blanks: 31, blank: "  \t", trail: "  ", quote_key: true, ..PLAIN },
        Layout { quote_val: false, eq: "=", blanks: 0, final_nl: false, rev: true, ..PLAIN },
        Layout { indent: "\t", quote_val: false, eq: "= ", blanks: 7, nl: "\r\n", ..PLAIN },
        Layout { quote_key: true, eq: "=", blanks: 18, blank: " ", rev: true, nl: "\r\n", final_nl: false, ..PLAIN },
        Layout { indent: " \t ", eq: "\t=  ", blanks: 0, trail: "\t", ..PLAIN },
        Layout { blanks: 5, quote_key: true, quote_val: false, trail: " ", rev: true, ..PLAIN },
        Layout { blanks: 10, indent: "  ", eq: "   =", nl: "\r\n", ..PLAIN },
    ]
}

pub fn write_cfg(c: &[Section], l: &Layout) -> String {
    let mut lines: Vec<String> = vec![];
    let blank = |bit: u8, lines: &mut Vec<String>| {
        if l.blanks & bit != 0 {
            lines.push(l.blank.to_string());
        }
    };
    blank(1, &mut lines);
    for (i, s) in c.iter().enumerate() {
        if i > 0 {
            blank(8, &mut lines);
        }
        lines.push(format!("{}[{}]{}", l.indent, if s.default { "Default" } else { "Session" }, l.trail));
        blank(2, &mut lines);
        let mut sets: Vec<_> = s.sets.iter().collect();
        if l.rev {
            sets.reverse();
        }
        for (n, (k, v)) in sets.iter().enumerate() {
            if n > 0 {
                blank(4, &mut lines);
            }
            let q = |on: bool, s: &str| if on { format!("\"{}\"", s) } else { s.to_string() };
            // a blank at the ends of a value needs the quotes
            let need = l.quote_val || v.trim() != v.as_str();
            lines.push(format!("{}{}{}{}{}", l.indent, q(l.quote_key, k), l.eq, q(need, v), l.trail));
        }
    }
    blank(16, &mut lines);
    let mut t = lines.join(l.nl);
    if l.final_nl {
        t.push_str(l.nl);
    }
    t
}

// ------------------------------------------------------------------ reference
pub type IdParts = [String; 7];
const ID_KEYS: [&str; 7] = [
    BEGIN_STRING_SETTING,
    SENDER_COMPID_SETTING,
    SENDER_SUBID_SETTING,
    SENDER_LOCATIONID_SETTING,
    TARGET_COMPID_SETTING,
    TARGET_SUBID_SETTING,
    TARGET_LOCATIONID_SETTING,
];
fn id_parts(id: &SessionId) -> IdParts {
    let o = |x: &Option<String>| x.clone().unwrap_or_default();
    [
        id.begin_string().clone(),
        id.sender_compid().clone(),
        o(id.sender_subid()),
        o(id.sender_locationid()),
        id.target_compid().clone(),
        o(id.target_subid()),
        o(id.target_locationid()),
    ]
}
fn resolved<'a>(own: &'a Section, def: &'a Section, k: &str) -> Option<&'a String> {
    own.get(k).or_else(|| def.get(k))
}
fn is_port(s: &str) -> bool {
    !s.is_empty() && s.len() <= 5 && s.bytes().all(|b| b.is_ascii_digit()) && s.parse::<u32>().unwrap() <= 65535
}
/// What is wrong with the configuration, or the identity of each session section.
fn judge(c: &[Section]) -> Result<Vec<IdParts>, &'static str> {
    let defs = c.iter().filter(|s| s.default).count();
    if defs == 0 {
        return Err("default section missing");
    }
    if defs > 1 {
        return Err("default section repeated");
    }
    if !c[0].default {
        return Err("default section not first");
    }
    let def = &c[0];
    let acceptor = match def.get(CONNECTION_TYPE_SETTING).map(|s| s.as_str()) {
        Some("acceptor") => true,
        Some("initiator") => false,
        None => return Err("connection type missing"),
        _ => return Err("connection type invalid"),
    };
    let mut ids = vec![];
    for s in &c[1..] {
        let r = |k: &str| resolved(s, def, k);
        match r(BEGIN_STRING_SETTING).map(|s| s.as_str()) {
            Some("FIX.4.2" | "FIX.4.3" | "FIX.4.4") => {}
            _ => return Err("begin string"),
        }
        if r(SENDER_COMPID_SETTING).is_none() {
            return Err("sender missing");
        }
        if r(TARGET_COMPID_SETTING).is_none() {
            return Err("target missing");
        }
        if acceptor {
            if !r(SOCKET_ACCEPT_PORT_SETTING).map_or(false, |p| is_port(p)) {
                return Err("accept port");
            }
        } else if r(SOCKET_CONNECT_HOST_SETTING).is_none() || !r(SOCKET_CONNECT_PORT_SETTING).map_or(false, |p| is_port(p)) {
            return Err("connect host or port");
        }
        let id: IdParts = ID_KEYS.map(|k| r(k).cloned().unwrap_or_default());
        if ids.contains(&id) {
            return Err("session repeated");
        }
        ids.push(id);
    }
    Ok(ids)
}

/// Loads the text; checks that it is accepted exactly when it should be and that no section is lost.
fn load(c: &[Section], text: &str) -> Result<Option<(Properties, Vec<IdParts>)>, String> {
    let want = judge(c);
    let got = guard(|| Properties::from_str(text));
    match (got, want) {
        (Err(_), Err(_)) => Ok(None),
        (Ok(_), Err(why)) => Err(format!("a configuration is accepted although: {}", why)),
        (Err(p), Ok(_)) => Err(format!("a complete configuration is refused: {}", p)),
        (Ok(p), Ok(ids)) => {
            let mut have: Vec<IdParts> = p.session_ids().iter().map(|i| id_parts(i)).collect();
            let mut want = ids.clone();
            have.sort();
            want.sort();
            if have != want {
                return Err(format!("the sessions are {:?}, should be {:?}", have, want));
            }
            Ok(Some((p, ids)))
        }
    }
}

// ------------------------------------------------------------------ lookups
#[derive(Clone, Debug, PartialEq)]
enum Seen<T> {
    Value(T),
    Missing,
    Unparsable,
}
fn seen<T>(r: Result<T, ConfigErr>) -> Seen<T> {
    match r {
        Ok(v) => Seen::Value(v),
        Err(ConfigErr::NotFound(_)) => Seen::Missing,
        Err(ConfigErr::ParseError(_)) => Seen::Unparsable,
    }
}
fn want_of<T: FromStr>(v: Option<&String>) -> Seen<T> {
    match v {
        None => Seen::Missing,
        Some(s) => s.parse::<T>().map_or(Seen::Unparsable, Seen::Value),
    }
}

fn typed<T>(p: &Properties, id: &SessionId, key: &str, own: Option<&String>, def: Option<&String>, ty: &str) -> Result<(), String>
where
    T: FromStr + PartialEq + std::fmt::Debug,
    <T as FromStr>::Err: std::fmt::Debug,
{
    let both = own.or(def);
    let chk = |what: &str, got: Result<Seen<T>, String>, want: Seen<T>| match got {
        Ok(g) if g == want => Ok(()),
        Ok(g) => Err(format!("{} of {} as {} for {} gives {:?}, should be {:?}", what, key, ty, id, g, want)),
        Err(e) => Err(format!("{} of {} as {} for {} panics: {}", what, key, ty, id, e)),
    };
    chk("session lookup", guard(|| seen(p.get_config::<T>(id, key))), want_of(own))?;
    chk("default lookup", guard(|| seen(p.get_default_config::<T>(key))), want_of(def))?;
    chk("lookup", guard(|| seen(p.get_or_default_config::<T>(id, key))), want_of(both))?;
    // the optional lookup has no way to give an error but to panic
    let got = match guard(|| p.get_optional_config::<T>(id, key)) {
        Ok(Some(v)) => Seen::Value(v),
        Ok(None) => Seen::Missing,
        Err(_) => Seen::Unparsable,
    };
    chk("optional lookup", Ok(got), want_of(both))
}

const KEYS: [&str; 20] = [
    CONNECTION_TYPE_SETTING,
    BEGIN_STRING_SETTING,
    SENDER_COMPID_SETTING,
    SENDER_SUBID_SETTING,
    SENDER_LOCATIONID_SETTING,
    TARGET_COMPID_SETTING,
    TARGET_SUBID_SETTING,
    TARGET_LOCATIONID_SETTING,
    SESSION_QUALIFIER_SETTING,
    SOCKET_ACCEPT_PORT_SETTING,
    SOCKET_CONNECT_PORT_SETTING,
    SOCKET_CONNECT_HOST_SETTING,
    RESET_ON_LOGON_SETTING,
    HEARTBEAT_INTERVAL_SETTING,
    DATA_DICTIONARY_FILE_PATH,
    "start_time",
    "end_time",
    "start_day",
    "default_timezone",
    "no_such_setting",
];

fn check_lookups(c: &[Section], p: &Properties, ids: &[IdParts], keys: &[&str], all_types: bool) -> Result<u64, String> {
    let def = &c[0];
    let mut n = 0;
    let by: BTreeMap<IdParts, &SessionId> = p.session_ids().into_iter().map(|i| (id_parts(i), i)).collect();
    for (s, parts) in c[1..].iter().zip(ids) {
        // the identity as the engine knows it and an equal one made afresh
        let kept = by[parts];
        let mut b = SessionIdBuilder::new(parts[0].as_str(), parts[1].as_str(), parts[4].as_str());
        b.sender_subid(parts[2].as_str());
        b.sender_locationid(parts[3].as_str());
        b.target_subid(parts[5].as_str());
        b.target_locationid(parts[6].as_str());
        let fresh = b.build().map_err(|_| "identity".to_string())?;
        for id in [kept, &fresh] {
            for k in keys {
                let (own, d) = (s.get(k), def.get(k));
                n += 1;
                let raw = guard(|| p.get_property(id, k).cloned()).map_err(|e| format!("lookup of {} panics: {}", k, e))?;
                if raw.as_ref() != own {
                    return Err(format!("session lookup of {} for {} gives {:?}, should be {:?}", k, id, raw, own));
                }
                typed::<String>(p, id, k, own, d, "text")?;
                if all_types {
                    typed::<u16>(p, id, k, own, d, "u16")?;
                    typed::<i64>(p, id, k, own, d, "i64")?;
                    typed::<bool>(p, id, k, own, d, "bool")?;
                    typed::<f64>(p, id, k, own, d, "f64")?;
                    typed::<char>(p, id, k, own, d, "char")?;
                    typed::<NaiveTime>(p, id, k, own, d, "time")?;
                    typed::<Weekday>(p, id, k, own, d, "weekday")?;
                    typed::<chrono_tz::Tz>(p, id, k, own, d, "time zone")?;
                }
            }
        }
    }
    Ok(n)
}

// ------------------------------------------------------------------ cases
fn case_of(kind: &str, c: &[Section], l: usize, text: &str) -> String {
    let mut o = format!("{} {}\n", kind, l);
    for s in c {
        o.push_str(if s.default { "D" } else { "S" });
        for (k, v) in &s.sets {
            o.push_str(&format!(" {} {}", json_str(k), json_str(v)));
        }
        o.push('\n');
    }
    o.push_str(&format!("# text {}", json_str(text)));
    o
}
fn split_json(s: &str) -> Vec<String> {
    // quoted strings separated by blanks
    let mut v = vec![];
    let mut cur = String::new();
    let (mut inq, mut esc) = (false, false);
    for ch in s.chars() {
        if inq {
            cur.push(ch);
            if esc {
                esc = false;
            } else if ch == '\\' {
                esc = true;
            } else if ch == '"' {
                inq = false;
                v.push(from_json_str(&cur));
                cur.clear();
            }
        } else if ch == '"' {
            inq = true;
            cur.push(ch);
        }
    }
    v
}
fn replay(ctx: &Ctx, r: &str) {
    let b = replay_body(r);
    if let Some(h) = b.strip_prefix("header ") {
        let q = split_json(h)[0].clone();
        let nums: Vec<usize> = h.lines().next().unwrap().rsplitn(4, ' ').take(3).map(|x| x.parse().unwrap()).collect();
        return header_case(ctx, &q, nums[2], nums[1], nums[0], &mut Stats::default());
    }
    let mut lines = b.lines();
    let l: usize = lines.next().unwrap().split(' ').nth(1).unwrap().parse().unwrap();
    let c: Vec<Section> = lines
        .filter(|x| x.starts_with('D') || x.starts_with('S'))
        .map(|x| {
            let v = split_json(&x[1..]);
            Section {
                default: x.starts_with('D'),
                sets: v.chunks(2).map(|p| (p[0].clone(), p[1].clone())).collect(),
            }
        })
        .collect();
    run_case(ctx, &c, l, &KEYS, true, true, &mut Stats::default());
}

/// One configuration in one layout: acceptance and, if lookups is set, every lookup.
fn run_case(ctx: &Ctx, c: &[Section], l: usize, keys: &[&str], lookups: bool, all_types: bool, st: &mut Stats) {
    let text = write_cfg(c, &layouts()[l]);
    let desc = case_of("config", c, l, &text);
    case(&desc);
    st.traces += 1;
    match load(c, &text) {
        Err(e) => ctx.violation(&e, &desc),
        Ok(None) => st.count("refused"),
        Ok(Some((p, ids))) => {
            st.count("accepted");
            if lookups {
                match check_lookups(c, &p, &ids, keys, all_types) {
                    Err(e) => ctx.violation(&e, &desc),
                    Ok(n) => st.trans += n,
                }
            }
        }
    }
}

/// A configuration with one session header (or the default one) written wrongly: it is refused, unless the
/// section is there all the same.
fn header_case(ctx: &Ctx, header: &str, at: usize, n: usize, l: usize, st: &mut Stats) {
    let mut c = blank_cfg(n);
    put(&mut c, CONNECTION_TYPE_SETTING, 1, &["acceptor"; 9]);
    for (i, s) in c.iter_mut().enumerate().skip(1) {
        let t = format!("T{}", i);
        for (k, v) in [(BEGIN_STRING_SETTING, "FIX.4.3"), (SENDER_COMPID_SETTING, "S"), (TARGET_COMPID_SETTING, t.as_str()), (SOCKET_ACCEPT_PORT_SETTING, "9000")] {
            s.sets.push((k.into(), v.into()));
        }
    }
    let lay = &layouts()[l];
    let text = write_cfg(&c, lay);
    let nth = text.match_indices(if at == 0 { "[Default]" } else { "[Session]" }).nth(at.max(1) - 1).unwrap().0;
    let text = format!("{}{}{}", &text[..nth], header, &text[nth + 9..]);
    let desc = format!("header {} {} {} {}\n# text {}", json_str(header), at, n, l, json_str(&text));
    case(&desc);
    st.traces += 1;
    st.states += 1;
    match guard(|| Properties::from_str(&text)) {
        Err(_) => st.count("refused"),
        Ok(_) if at == 0 => ctx.violation("a configuration is accepted although: default section missing", &desc),
        Ok(p) => {
            st.count("accepted");
            let mut have: Vec<String> = p.session_ids().iter().map(|i| i.target_compid().clone()).collect();
            have.sort();
            let want: Vec<String> = (1..=n).map(|i| format!("T{}", i)).collect();
            if have != want {
                ctx.violation(&format!("a session section is silently dropped: there are {:?} of {:?}", have, want), &desc);
            }
        }
    }
}

/// n sessions, each with its own values; with twin (i, j), section j describes the session of section i.
fn many(n: usize, twin: Option<(usize, usize)>) -> Vec<Section> {
    let mut c = vec![section(true, &[(CONNECTION_TYPE_SETTING, "acceptor"), (BEGIN_STRING_SETTING, "FIX.4.3"), (SENDER_COMPID_SETTING, "S"), (HEARTBEAT_INTERVAL_SETTING, "30")])];
    for i in 1..=n {
        let who = twin.filter(|t| t.1 == i).map_or(i, |t| t.0);
        let (t, h, p) = (format!("T{}", who), (i * 7).to_string(), (1000 + i).to_string());
        let mut s = section(false, &[(TARGET_COMPID_SETTING, &t), (SOCKET_ACCEPT_PORT_SETTING, &p)]);
        if i % 2 == 0 {
            s.sets.push((HEARTBEAT_INTERVAL_SETTING.into(), h));
        }
        c.push(s);
    }
    c
}

/// Placements of a key: bit 0 in the default section, bit i in session i.
fn put(c: &mut [Section], key: &str, place: u32, vals: &[&str]) {
    for (i, s) in c.iter_mut().enumerate() {
        if place & (1 << i) != 0 {
            s.sets.push((key.to_string(), vals[i].to_string()));
        }
    }
}
fn blank_cfg(sessions: usize) -> Vec<Section> {
    (0..=sessions).map(|i| section(i == 0, &[])).collect()
}

pub fn c09(ctx: &Ctx) {
    if let Some(r) = &ctx.replay {
        return replay(ctx, r);
    }
    let nl = layouts().len();
    // values of the free settings: default, session 1, session 2, session 3
    let free: [(&str, [&str; 4]); 5] = [
        (HEARTBEAT_INTERVAL_SETTING, ["30", "x", "70000", "7"]),
        ("start_time", ["09:00:00", "10:00:01", "25:00:00", "[Session]"]),
        (RESET_ON_LOGON_SETTING, ["Y", "true", "", "false"]),
        (DATA_DICTIONARY_FILE_PATH, ["FIX43.xml", "a b=c", "[Default]", "x = [y]"]),
        ("start_day", ["Monday", "tue", "Xday", " Fri "]),
    ];
    for n in 1..=3usize {
        // mandatory settings: in the default section, or in all sessions, or both
        let ok: Vec<u32> = (0..1u32 << (n + 1)).filter(|p| p & 1 == 1 || *p == (1 << (n + 1)) - 2).collect();
        let any: Vec<u32> = (0..1u32 << (n + 1)).collect();
        let mut items: Vec<(u32, u32, u32, u32)> = vec![];
        // three sessions need three identities, two differ at least in one component
        for b in &ok {
            for s in &ok {
                for t in &ok {
                    for sub in &any {
                        items.push((*b, *s, *t, *sub));
                    }
                }
            }
        }
        let nfree = match (n, ctx.quick()) {
            (3, true) => 1,
            (2, true) => 2,
            (3, false) => 2,
            (2, false) => 4,
            _ => 5,
        };
        par(&items, |(b, s, t, sub)| {
            let mut st = Stats::default();
            let mut base = blank_cfg(n);
            put(&mut base, CONNECTION_TYPE_SETTING, 1, &["acceptor"; 4]);
            put(&mut base, BEGIN_STRING_SETTING, *b, &["FIX.4.3", "FIX.4.4", "FIX.4.2", "FIX.4.4"]);
            put(&mut base, SENDER_COMPID_SETTING, *s, &["Default", "A=B", "[A]", "A B"]);
            put(&mut base, TARGET_COMPID_SETTING, *t, &["T", "T", "U", "T"]);
            put(&mut base, SENDER_SUBID_SETTING, *sub, &["d", "", "e", "d"]);
            put(&mut base, SOCKET_ACCEPT_PORT_SETTING, 1 | (*t & 4), &["10117", "10118", "1", "65535"]);
            // the free settings which are not explored exhaustively here rotate with the item
            let mut pick = vec![0u32; nfree];
            let rot = (*b + *s * 3 + *t * 5 + *sub) as usize;
            let keys = [
                SENDER_COMPID_SETTING,
                SENDER_SUBID_SETTING,
                SOCKET_ACCEPT_PORT_SETTING,
                "no_such_setting",
                free[rot % 5].0,
                free[(rot + 1) % 5].0,
                free[(rot + 2) % 5].0,
                free[(rot + 3) % 5].0,
                free[(rot + 4) % 5].0,
            ];
            'all: loop {
                let mut c = base.clone();
                for (i, p) in pick.iter().enumerate() {
                    let (k, v) = &free[(rot + i) % 5];
                    put(&mut c, k, *p, v);
                }
                st.states += 1;
                // every layout where sessions are few, two of them else
                let all_layouts = n == 1 || !ctx.quick();
                for l in 0..nl {
                    if all_layouts || (l + rot + pick[0] as usize) % 4 == 0 {
                        run_case(ctx, &c, l, &keys[..4 + nfree], true, l == rot % nl, &mut st);
                    }
                }
                for d in 0..=nfree {
                    if d == nfree {
                        break 'all;
                    }
                    pick[d] += 1;
                    if pick[d] < 1 << (n + 1) {
                        break;
                    }
                    pick[d] = 0;
                }
            }
            st.flush(ctx);
        });
    }
    // every key alone in every place, looked up as every type; sections in every order
    let vals: &[&str] = &[
        "v", "", "1", "0", "-5", "65535", "65536", "Y", "N", "true", "12:30:00", "24:00:00", "Wednesday", "europe/london",
        "Europe/London", "a=b", "=", "[x]", "[Session]", "Default", "a  b", "1.5", "é", " x ", "# no comment", "//",
    ];
    let mut items = vec![];
    for k in KEYS {
        for place in 0..8u32 {
            items.push((k, place));
        }
    }
    par(&items, |(k, place)| {
        let mut st = Stats::default();
        for v0 in vals {
            for v1 in vals {
                let mut c = blank_cfg(2);
                put(&mut c, CONNECTION_TYPE_SETTING, 1, &["acceptor"; 4]);
                put(&mut c, BEGIN_STRING_SETTING, 1, &["FIX.4.3"; 4]);
                put(&mut c, SENDER_COMPID_SETTING, 1, &["S"; 4]);
                put(&mut c, TARGET_COMPID_SETTING, 6, &["", "T1", "T2"]);
                put(&mut c, SOCKET_ACCEPT_PORT_SETTING, 1, &["9000"; 4]);
                for s in &mut c {
                    s.sets.retain(|(x, _)| x != k);
                }
                put(&mut c, k, *place, &[v0, v1, v0]);
                for swap in [false, true] {
                    let mut c = c.clone();
                    if swap {
                        c.swap(1, 2);
                    }
                    // this key may well make the configuration incomplete: that is C10's business
                    if judge(&c).is_err() || c[1..].iter().any(|s| s.get(SENDER_COMPID_SETTING).is_some_and(|v| v.is_empty()) || s.get(TARGET_COMPID_SETTING).is_some_and(|v| v.is_empty())) {
                        continue;
                    }
                    st.states += 1;
                    let some: &[usize] = if !ctx.quick() { &[0, 1, 2, 3, 4, 6] } else if swap { &[4] } else { &[0, 3] };
                    for l in some.iter().copied() {
                        run_case(ctx, &c, l, &[k, "no_such_setting"], true, true, &mut st);
                    }
                }
            }
        }
        st.flush(ctx);
    });
    // every character in every position of a value, and in the middle of a key
    let mut chars: Vec<char> = (' '..='~').collect();
    chars.extend("\t\u{1}\u{7f}\u{85}\u{a0}ßİǅé€\u{301}\u{200b}\u{2028}\u{3000}’“\u{feff}中😀".chars());
    par(&chars, |ch| {
        let mut st = Stats::default();
        let c1 = ch.to_string();
        let forms = [
            c1.clone(), c1.repeat(2), format!("{}x", c1), format!("x{}", c1), format!("{0}x{0}", c1), format!("x{}y", c1),
            format!("x {}y", c1), format!("x{} y", c1), format!("x {} y", c1), format!("X{}Y{0}z", c1),
        ];
        for v in &forms {
            // what stands at the ends may be taken for the layout
            let ends = [v.chars().next().unwrap(), v.chars().last().unwrap()];
            if ends.contains(&'"') {
                continue;
            }
            for key in [SENDER_COMPID_SETTING, TARGET_SUBID_SETTING, DATA_DICTIONARY_FILE_PATH, "no_such_setting"] {
                for place in 1..4u32 {
                    let mut c = many(2, None);
                    for s in &mut c {
                        s.sets.retain(|(k, _)| k != key);
                    }
                    put(&mut c, key, place, &[v, v, "b"]);
                    if key == SENDER_COMPID_SETTING {
                        put(&mut c, key, 4, &["", "", "b"]);
                        if place == 1 {
                            c[1].sets.push((key.into(), v.clone() + "z"));
                        }
                    }
                    for l in 0..nl {
                        st.states += 1;
                        run_case(ctx, &c, l, &[key], true, l == 0, &mut st);
                    }
                }
            }
        }
        if !['=', '"'].contains(ch) {
            for key in [format!("x{}y", c1), format!("x {} y", c1), format!("X{}y", c1)] {
                for place in 1..4u32 {
                    let mut c = many(2, None);
                    put(&mut c, &key, place, &["d", "s", ""]);
                    let other = [key.to_lowercase(), key.to_uppercase(), key.replace(*ch, ""), key.replace(*ch, "_"), key.replace(' ', "")];
                    let mut keys: Vec<&str> = other.iter().map(|k| k.as_str()).filter(|k| *k != key).collect();
                    keys.push(&key);
                    for l in 0..nl {
                        st.states += 1;
                        run_case(ctx, &c, l, &keys, true, l == 0, &mut st);
                    }
                }
            }
        }
        st.flush(ctx);
    });
    // any number of sessions, values of any length
    let counts: Vec<usize> = (0..=ctx.pick(70, 300)).chain([127, 128, 129, 255, 256, 257, 300, 1000]).collect();
    par(&counts, |n| {
        let mut st = Stats::default();
        let c = many(*n, None);
        for l in 0..nl {
            st.states += 1;
            run_case(ctx, &c, l, &[HEARTBEAT_INTERVAL_SETTING, SOCKET_ACCEPT_PORT_SETTING, TARGET_COMPID_SETTING], true, l == n % nl, &mut st);
        }
        st.flush(ctx);
    });
    let sizes: Vec<usize> = super::codec::sizes(ctx.quick(), 300, 17);
    par(&sizes, |n| {
        let mut st = Stats::default();
        for ch in ['x', 'é', '€', '😀'] {
            for key in [SENDER_COMPID_SETTING, TARGET_SUBID_SETTING, DATA_DICTIONARY_FILE_PATH, "no_such_setting"] {
                for place in 1..4u32 {
                    let v = ch.to_string().repeat(*n);
                    let w = format!("{}a", v);
                    let mut c = many(2, None);
                    for s in &mut c {
                        s.sets.retain(|(k, _)| k != key);
                    }
                    put(&mut c, key, place, &[&w, &w, "b"]);
                    if key == SENDER_COMPID_SETTING {
                        put(&mut c, key, 4, &["", "", "b"]);
                        if place == 1 {
                            c[1].sets.push((key.into(), v.clone() + "z"));
                        }
                    }
                    for l in [0, 1, 2] {
                        st.states += 1;
                        run_case(ctx, &c, l, &[key], true, false, &mut st);
                    }
                }
            }
        }
        st.flush(ctx);
    });
    ctx.note("layouts", nl.to_string());
    ctx.note("exhaustive", "true".into());
    ctx.sample(write_cfg(&[section(true, &[("a", "1")]), section(false, &[("b", "x=y")])], &layouts()[1]));
    ctx.assume("a setting occurs once in a section; settings follow the header of their section");
}

pub fn c10(ctx: &Ctx) {
    if let Some(r) = &ctx.replay {
        return replay(ctx, r);
    }
    let nl = layouts().len();
    let full = |i: usize| {
        let t = format!("T{}", i);
        section(
            false,
            &[
                (BEGIN_STRING_SETTING, "FIX.4.3"),
                (SENDER_COMPID_SETTING, "S"),
                (TARGET_COMPID_SETTING, &t),
                (SOCKET_ACCEPT_PORT_SETTING, "9000"),
                (SOCKET_CONNECT_PORT_SETTING, "9001"),
                (SOCKET_CONNECT_HOST_SETTING, "localhost"),
            ],
        )
    };
    // 1. every sequence of up to five sections
    let kinds: Vec<Section> = vec![
        section(true, &[(CONNECTION_TYPE_SETTING, "acceptor")]),
        section(true, &[(CONNECTION_TYPE_SETTING, "initiator"), (SENDER_COMPID_SETTING, "D")]),
        section(true, &[]),
        full(1),
        full(2),
        {
            let mut s = full(1);
            s.sets.reverse();
            s
        },
        section(false, &[]),
    ];
    let depth = ctx.pick(5, 6);
    let firsts: Vec<usize> = (0..kinds.len()).collect();
    for l in 0..nl {
        run_case(ctx, &[], l, &[], false, false, &mut Stats::default());
    }
    par(&firsts, |a| {
        let mut st = Stats::default();
        fn go(ctx: &Ctx, kinds: &[Section], c: &mut Vec<Section>, left: usize, st: &mut Stats) {
            st.states += 1;
            for l in 0..layouts().len() {
                run_case(ctx, c, l, &[], false, false, st);
            }
            if left == 0 {
                return;
            }
            for k in kinds {
                c.push(k.clone());
                st.trans += 1;
                go(ctx, kinds, c, left - 1, st);
                c.pop();
            }
        }
        go(ctx, &kinds, &mut vec![kinds[*a].clone()], depth - 1, &mut st);
        st.flush(ctx);
    });
    // 2. every placement of each mandatory setting, absent / valid / invalid, in one and two sessions
    // digit per section: 0 absent, 1 valid, 2 invalid
    let conns: [Option<&str>; 6] = [Some("acceptor"), Some("initiator"), None, Some("Acceptor"), Some(""), Some("initiators")];
    let dig = |x: u32, i: u32| (x / 3u32.pow(i)) % 3;
    let place3 = |c: &mut Vec<Section>, key: &str, x: u32, ok: &[&str], bad: &str| {
        for i in 0..c.len() {
            match dig(x, i as u32) {
                1 => c[i].sets.push((key.into(), ok[i].into())),
                2 => c[i].sets.push((key.into(), bad.into())),
                _ => {}
            }
        }
    };
    for n in [1usize, 2] {
        let t3 = 3u32.pow(n as u32 + 1);
        let t2 = 2u32.pow(n as u32 + 1);
        let items: Vec<(usize, u32)> = (0..conns.len()).flat_map(|c| (0..t3).map(move |b| (c, b))).collect();
        par(&items, |(ci, b)| {
            let mut st = Stats::default();
            let bad_begin = ["FIX.4.1", "FIX.5.0", "", "fix.4.3", "FIX.4.33"];
            let bad_port = ["65536", "-1", "", "abc", "90 00", "9000.0", "0x1F", "99999999999999999999"];
            let mut rot = *b as usize;
            let conn = conns[*ci];
            let initiator = conn == Some("initiator");
            // an invalid connection type is refused whatever follows: a few placements do
            let live = conn == Some("acceptor") || initiator;
            for s in 0..t2 {
                for t in 0..t2 {
                    for port in 0..if live { t3 } else { 4 } {
                        for host in 0..if initiator { t2 } else { 2 } {
                            rot += 1;
                            let mut c = blank_cfg(n);
                            if let Some(x) = conn {
                                c[0].sets.push((CONNECTION_TYPE_SETTING.into(), x.into()));
                            }
                            place3(&mut c, BEGIN_STRING_SETTING, *b, &["FIX.4.2", "FIX.4.3", "FIX.4.4"], bad_begin[rot % 5]);
                            put(&mut c, SENDER_COMPID_SETTING, s, &["D", "S1", "S2"]);
                            put(&mut c, TARGET_COMPID_SETTING, t, &["T", "T", "U"]);
                            if initiator {
                                place3(&mut c, SOCKET_CONNECT_PORT_SETTING, port, &["1", "65535", "9000"], bad_port[rot % 8]);
                                put(&mut c, SOCKET_CONNECT_HOST_SETTING, host, &["localhost", "127.0.0.1", "h"]);
                            } else {
                                place3(&mut c, SOCKET_ACCEPT_PORT_SETTING, port, &["1", "65535", "9000"], bad_port[rot % 8]);
                                if host == 1 {
                                    // settings of the other connection type do not matter
                                    put(&mut c, SOCKET_CONNECT_PORT_SETTING, 1, &["bad"; 3]);
                                }
                            }
                            st.states += 1;
                            st.trans += 1;
                            run_case(ctx, &c, rot % nl, &[], false, false, &mut st);
                            if n == 2 {
                                c.swap(1, 2);
                                run_case(ctx, &c, 0, &[], false, false, &mut st);
                            }
                        }
                    }
                }
            }
            st.flush(ctx);
        });
    }
    // every value of the begin string and the port, everywhere it can be
    let mut st = Stats::default();
    for v in [
        "FIX.4.2", "FIX.4.3", "FIX.4.4", "FIX.4.0", "FIX.4.1", "FIX.5.0", "FIXT.1.1", "FIX.4", "FIX.4.3.", "FIX.4.30", "fix.4.3", "FIX43", "",
        "X", "1", "2", "80", "1024", "9000", "65534", "65535", "65536", "65537", "70000", "131072", "-1", "-0", "1e3", "0x50", "80a", "a80", "1.0", "8 0",
    ] {
        for key in [BEGIN_STRING_SETTING, SOCKET_ACCEPT_PORT_SETTING, SOCKET_CONNECT_PORT_SETTING] {
            for conn in ["acceptor", "initiator"] {
                for place in 1..16u32 {
                    let mut c = vec![section(true, &[(CONNECTION_TYPE_SETTING, conn)]), full(1), full(2), full(3)];
                    for (i, s) in c.iter_mut().enumerate() {
                        if place & (1 << i) != 0 {
                            s.sets.retain(|(k, _)| k != key);
                        }
                    }
                    put(&mut c, key, place, &[v; 4]);
                    st.states += 1;
                    for l in 0..nl {
                        run_case(ctx, &c, l, &[], false, false, &mut st);
                    }
                }
            }
        }
    }
    st.flush(ctx);
    // 3. identities of three sessions: which configurations repeat a session
    let comps: [(&str, [Option<&str>; 3]); 4] = [
        (SENDER_COMPID_SETTING, [None, Some("A"), Some("B")]),
        (SENDER_SUBID_SETTING, [None, Some(""), Some("A")]),
        (TARGET_LOCATIONID_SETTING, [None, Some(""), Some("A")]),
        (BEGIN_STRING_SETTING, [None, Some("FIX.4.3"), Some("FIX.4.4")]),
    ];
    let nk = ctx.pick(3, 4u32);
    let per = 3u32.pow(nk);
    let items: Vec<u32> = (0..per).collect();
    par(&items, |a| {
        let mut st = Stats::default();
        for b in 0..per {
            for d in 0..per {
                for def in 0..2u32.pow(nk) {
                    let mut c = blank_cfg(3);
                    put(&mut c, CONNECTION_TYPE_SETTING, 1, &["acceptor"; 4]);
                    put(&mut c, TARGET_COMPID_SETTING, 1, &["A"; 4]);
                    put(&mut c, SOCKET_ACCEPT_PORT_SETTING, 1, &["9000"; 4]);
                    for (i, (k, v)) in comps.iter().enumerate() {
                        if i as u32 >= nk {
                            put(&mut c, k, 1, &["FIX.4.3"; 4]);
                            continue;
                        }
                        if def & (1 << i) != 0 {
                            c[0].sets.push((k.to_string(), v[if i == 3 { 1 } else { 2 }].unwrap().to_string()));
                        }
                        for (j, x) in [*a, b, d].into_iter().enumerate() {
                            if let Some(val) = v[((x / 3u32.pow(i as u32)) % 3) as usize] {
                                c[j + 1].sets.push((k.to_string(), val.to_string()));
                            }
                        }
                    }
                    st.states += 1;
                    st.trans += 1;
                    run_case(ctx, &c, ((*a + b + d) as usize) % nl, &[], false, false, &mut st);
                }
            }
        }
        st.flush(ctx);
    });
    // 4. section headers written wrongly
    let mut st = Stats::default();
    for h in [
        "[Session", "[Session]x", "[Session] # c", "[Session] ; c", "[", "[]x", "[Session]]x", "Session]", "Session", "(Session)", "x[Session]",
        "a=[Session]", "\"[Session]\"", "#[Session]", ";[Session]", "[Default", "Default]", "Default", "x[Default]", "a=[Default]", "[Default]x",
        "[Default] #", "\"[Default]\"", "#[Default]", "",
    ] {
        for n in 1..=3 {
            for at in 0..=n {
                // a session header that begins with other text, or none at all, is no section of its own:
                // its settings are those of the section before
                if at > 0 && (!h.starts_with('[') || h.contains("Default")) {
                    continue;
                }
                for l in 0..nl {
                    header_case(ctx, h, at, n, l, &mut st);
                }
            }
        }
    }
    st.flush(ctx);
    // 5. many sessions, two of them the same or none
    let counts: Vec<usize> = (1..=ctx.pick(24, 64)).chain([100, 128, 129, 256, 257]).collect();
    par(&counts, |n| {
        let mut st = Stats::default();
        run_case(ctx, &many(*n, None), n % nl, &[], false, false, &mut st);
        for i in 1..=*n {
            for j in i + 1..=*n {
                if *n > 64 && i != 1 && j != *n && j != i + 1 {
                    continue;
                }
                st.states += 1;
                run_case(ctx, &many(*n, Some((i, j))), (i + j) % nl, &[], false, false, &mut st);
            }
        }
        st.flush(ctx);
    });
    ctx.note("layouts", nl.to_string());
    ctx.note("exhaustive", "true".into());
    ctx.sample(write_cfg(&[kinds[0].clone(), full(1)], &layouts()[2]));
    ctx.assume("settings follow the header of their section; connection type is set in the default section; ids are not empty");
}
