//! C01-C04: the message parser and encoder, on exhaustively enumerated texts.
use super::kit::*;
use super::refmodel::*;
use super::specs::*;
use crate::data_dictionary::DataDictionary;
use crate::message::{FieldMap, Message};
use std::collections::BTreeMap;
use std::str::FromStr;

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Prop {
    Total,
    Content,
    Reasons,
    Reencode,
}

#[derive(Default)]
pub struct Stats {
    pub states: u64,
    pub trans: u64,
    pub traces: u64,
    pub outcomes: BTreeMap<String, u64>,
}
impl Stats {
    pub fn count(&mut self, k: &str) {
        if let Some(v) = self.outcomes.get_mut(k) {
            *v += 1;
        } else {
            self.outcomes.insert(k.to_string(), 1);
        }
    }
    pub fn flush(self, ctx: &Ctx) {
        ctx.add(self.states, self.trans, self.traces);
        ctx.add_outcomes(&self.outcomes);
    }
}

pub fn reason_of(e: &impl std::fmt::Display) -> String {
    let s = e.to_string();
    s.rsplit(|c: char| !c.is_ascii_alphanumeric()).next().unwrap_or("").to_string()
}

pub fn json_list(v: &[usize]) -> String {
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")
}
pub fn show(t: &str) -> String {
    t.replace(SOH, "|")
}
fn unshow(t: &str) -> String {
    t.replace('|', "\u{1}")
}

fn typed<T: FromStr + PartialEq + std::fmt::Debug>(m: &FieldMap, t: Tag, v: &str) -> Result<(), String> {
    let got = m.get_field::<T>(t).ok();
    let want = v.parse::<T>().ok();
    // (a NaN is not equal to itself)
    if got != want && format!("{:?}", got) != format!("{:?}", want) {
        return Err(format!("field {} of value {:?} read as {:?}, not {:?}", t, v, got, want));
    }
    Ok(())
}

/// The real field map holds exactly what the reference map holds.
pub fn same_content(real: &FieldMap, want: &RefMap, universe: &[Tag], at: &str) -> Result<(), String> {
    for (t, v) in &want.fields {
        match real.get_field::<String>(*t) {
            Ok(got) if got == *v => {}
            o => return Err(format!("{}: field {} should be {:?}, is {:?}", at, t, v, o)),
        }
        typed::<u32>(real, *t, v)?;
        typed::<i64>(real, *t, v)?;
        typed::<f64>(real, *t, v)?;
        typed::<char>(real, *t, v)?;
        typed::<bool>(real, *t, v)?;
    }
    for t in universe {
        if !want.has(*t) && real.get_field::<String>(*t).is_ok() {
            return Err(format!("{}: field {} should not be there", at, t));
        }
        if !want.groups.contains_key(t) && real.get_group(*t).map_or(false, |g| g.size() > 0) {
            return Err(format!("{}: group {} should not be there", at, t));
        }
    }
    for (t, inst) in &want.groups {
        let n = real.get_group(*t).map_or(0, |g| g.size()) as usize;
        if n != inst.len() {
            return Err(format!("{}: group {} should have {} instances, has {}", at, t, inst.len(), n));
        }
        for (i, w) in inst.iter().enumerate() {
            let g = real.get_group(*t).unwrap();
            same_content(&g[i], w, universe, &format!("{} group {}[{}]", at, t, i))?;
        }
    }
    let mut got: Vec<(Tag, String)> =
        real.iter().into_iter().map(|f| (f.tag(), f.value().clone())).collect();
    let mut exp = vec![];
    want.flat(&mut exp);
    got.sort();
    exp.sort();
    if got != exp {
        return Err(format!("{}: holds {:?}, should hold {:?}", at, got, exp));
    }
    Ok(())
}

pub fn same_message(m: &Message, want: &RefMsg, universe: &[Tag]) -> Result<(), String> {
    same_content(m.header(), &want.header, universe, "header")?;
    same_content(m.body(), &want.body, universe, "body")?;
    same_content(m.trailer(), &want.trailer, universe, "trailer")
}

pub fn universe(s: &Spec) -> Vec<Tag> {
    let mut u = vec![5000, 7];
    tags_of(&s.rf.header, &mut u);
    tags_of(&s.rf.trailer, &mut u);
    for m in s.rf.msgs.values() {
        tags_of(m, &mut u);
    }
    u.sort();
    u.dedup();
    if u.len() > 60 {
        // (the big dictionary: absence is still decided by comparing all fields)
        u.truncate(12);
    }
    u
}

fn all_pairs(text: &str) -> Vec<(Tag, String)> {
    let mut v: Vec<(Tag, String)> = text
        .strip_suffix(SOH)
        .unwrap_or(text)
        .split(SOH)
        .filter_map(|f| f.split_once('=').map(|(t, v)| (t.parse().unwrap_or(0), v.to_string())))
        .collect();
    v.sort();
    v
}

pub struct Judge<'a> {
    pub ctx: &'a Ctx,
    pub prop: Prop,
    pub spec: &'a Spec,
    pub uni: Vec<Tag>,
    desc: String,
}
impl<'a> Judge<'a> {
    pub fn new(ctx: &'a Ctx, prop: Prop, spec: &'a Spec) -> Self {
        Judge { ctx, prop, spec, uni: universe(spec), desc: String::new() }
    }

    fn case_text(&self, text: &str) -> String {
        format!("dict {}\ntext {}", self.spec.name, json_str(text))
    }

    /// Runs the real code on the text and judges it; gives the reference outcome.
    pub fn text(&mut self, text: &str, st: &mut Stats) -> Outcome {
        self.desc.clear();
        self.desc.push_str("dict ");
        self.desc.push_str(self.spec.name);
        self.desc.push_str("\ntext ");
        self.desc.push_str(&json_str(text));
        case(&self.desc);
        let want = meaning(&self.spec.rf, text);
        let dd: &DataDictionary = &self.spec.dd;
        st.traces += 1;
        if self.prop == Prop::Total {
            let limit = (1 << 20) + 4000 * text.len();
            let (r, _peak) = with_memory_limit(limit, || {
                guard(|| {
                    let ok = Message::from_str(text, dd).is_ok();
                    let a = Message::get_session_id(text);
                    let b = Message::get_reverse_session_id(text);
                    (ok, a, b)
                })
            });
            match r {
                Err(p) => self.ctx.violation(&format!("panics: {}", p), &self.case_text(text)),
                Ok((ok, _, _)) => st.count(if ok { "message" } else { "reject" }),
            }
            return want;
        }
        let real = guard(|| Message::from_str(text, dd));
        match (&real, self.prop) {
            (Err(p), Prop::Reasons) => {
                self.ctx.violation(&format!("neither accepted nor rejected: {}", p), &self.case_text(text))
            }
            (Err(_), _) => {}
            (Ok(real), Prop::Content) => {
                if let Ok(m) = real {
                    st.count("accepted");
                    let r = guard(|| match &want {
                        Outcome::Accept(w) => same_message(m, w, &self.uni),
                        _ => {
                            // (that it should have been rejected is not this property's business)
                            let mut got: Vec<(Tag, String)> = m
                                .header()
                                .iter()
                                .into_iter()
                                .chain(m.body().iter())
                                .chain(m.trailer().iter())
                                .map(|f| (f.tag(), f.value().clone()))
                                .collect();
                            got.sort();
                            let exp = all_pairs(text);
                            if matches!(want, Outcome::Reject(..)) && got != exp {
                                return Err(format!("holds {:?}, the text has {:?}", got, exp));
                            }
                            Ok(())
                        }
                    })
                    .unwrap_or_else(|p| Err(format!("reading it panics: {}", p)));
                    if let Err(e) = r {
                        self.ctx.violation(&format!("accepted message has other content: {}", e), &self.case_text(text))
                    }
                } else {
                    st.count("rejected");
                }
            }
            (Ok(real), Prop::Reasons) => match (real, &want) {
                (Ok(_), Outcome::Accept(_)) => st.count("accepted"),
                (_, Outcome::Open) => st.count("open"),
                (Ok(_), Outcome::Reject(rs, _)) => self
                    .ctx
                    .violation(&format!("accepted, should be rejected with {:?}", rs), &self.case_text(text)),
                (Err(e), Outcome::Accept(_)) => self
                    .ctx
                    .violation(&format!("breaks no rule but is rejected: {}", e), &self.case_text(text)),
                (Err(e), Outcome::Reject(rs, _)) => {
                    let got = reason_of(e);
                    if !rs.iter().any(|r| format!("{:?}", r) == got) {
                        self.ctx.violation(
                            &format!("rejected with {}, right would be {:?}", got, rs),
                            &self.case_text(text),
                        )
                    }
                    st.count(&got);
                }
            },
            (Ok(real), Prop::Reencode) => {
                if let (Ok(m), Outcome::Accept(w)) = (real, &want) {
                    st.count("accepted");
                    let r = guard(|| self.reencode(text, m, w))
                        .unwrap_or_else(|p| Err(format!("panics: {}", p)));
                    if let Err(e) = r {
                        self.ctx.violation(&format!("re-encoding: {}", e), &self.case_text(text))
                    }
                } else if let Ok(m) = real {
                    // (whether it should have been accepted is another question)
                    st.count("accepted, content open");
                    let r = guard(|| self.reencode_open(text, m)).unwrap_or_else(|p| Err(format!("panics: {}", p)));
                    if let Err(e) = r {
                        self.ctx.violation(&format!("re-encoding: {}", e), &self.case_text(text))
                    }
                } else {
                    st.count("not accepted");
                }
            }
            _ => unreachable!(),
        }
        want
    }

    /// A message whose meaning the reference does not know: still the same fields, accepted again.
    fn reencode_open(&self, text: &str, m: &Message) -> Result<(), String> {
        let flat = |t: &str| {
            let mut v: Vec<(u64, String)> = t
                .split_terminator(SOH)
                .filter_map(|f| f.split_once('='))
                // (a count may be written in several ways)
                .filter_map(|(t, v)| Some((t.parse::<u64>().ok()?, v.parse::<i64>().map_or(v.to_string(), |n| n.to_string()))))
                .collect();
            v.sort();
            v
        };
        let e = m.to_string();
        if e != m.to_string() || e != m.clone().to_string() {
            return Err("the same message is encoded in two ways".into());
        }
        if flat(&e) != flat(text) {
            return Err(format!("{} holds other fields", show(&e)));
        }
        Message::from_str(&e, &self.spec.dd)
            .map(|_| ())
            .map_err(|x| format!("{} is not accepted: {}", show(&e), x))
    }

    fn reencode(&self, text: &str, m: &Message, want: &RefMsg) -> Result<(), String> {
        let e = m.to_string();
        if e != m.to_string() || e != m.clone().to_string() {
            return Err("the same message is encoded in two ways".into());
        }
        let again = Message::from_str(text, &self.spec.dd).map_err(|e| e.to_string())?;
        let e2 = again.to_string();
        if e != e2 {
            return Err(format!("parsed twice, encoded as {} and {}", show(&e), show(&e2)));
        }
        if !e.ends_with(SOH) {
            return Err(format!("{} does not end with a separator", show(&e)));
        }
        let tags: Vec<&str> = e.split_terminator(SOH).map(|f| f.split('=').next().unwrap()).collect();
        if tags.len() < 3 || tags[0] != "8" || tags[1] != "9" || tags[2] != "35" {
            return Err(format!("{} does not start with the three first fields", show(&e)));
        }
        if want.trailer.has(10) && tags.last() != Some(&"10") {
            return Err(format!("{} does not end with CheckSum", show(&e)));
        }
        match meaning(&self.spec.rf, &e) {
            Outcome::Accept(w) => {
                if !w.same(want) {
                    return Err(format!("{} means something else", show(&e)));
                }
            }
            o => return Err(format!("{} is not a valid message: {:?}", show(&e), o)),
        }
        let back = Message::from_str(&e, &self.spec.dd)
            .map_err(|x| format!("{} is not accepted: {}", show(&e), x))?;
        same_message(&back, want, &self.uni).map_err(|x| format!("{} parsed again: {}", show(&e), x))
    }
}

// ------------------------------------------------------------------ token sequences
/// Tokens that may follow; value of token k is made distinct by its position.
#[derive(Clone, Debug)]
enum Sym {
    Tag(Tag),
    Lit(String),
}
fn alphabet(s: &Spec, bad: bool) -> Vec<Sym> {
    let mut a = vec![];
    let mut seen = vec![8u32, 9, 35];
    let mut sets = vec![&s.rf.header];
    sets.extend(s.rf.msgs.values());
    fn walk(set: &RefSet, a: &mut Vec<Sym>, seen: &mut Vec<Tag>) {
        for t in &set.order {
            if !seen.contains(t) {
                seen.push(*t);
                if set.groups.contains_key(t) {
                    for n in ["1", "2", "0"] {
                        a.push(Sym::Lit(format!("{}={}", t, n)));
                    }
                } else {
                    a.push(Sym::Tag(*t));
                }
            }
            if let Some(g) = set.groups.get(t) {
                walk(g, a, seen);
            }
        }
    }
    if !s.rf.trailer.groups.is_empty() {
        // (plain trailer fields are all alike)
        seen.extend([10, 89, 93]);
        sets.push(&s.rf.trailer);
    }
    for set in sets {
        walk(set, &mut a, &mut seen);
    }
    a.push(Sym::Tag(10));
    a.push(Sym::Tag(89));
    a.push(Sym::Tag(5000));
    a.push(Sym::Tag(35));
    if bad {
        a.push(Sym::Lit("x=1".into()));
        a.push(Sym::Lit("7=".into()));
        if let Some((t, _)) = s.rf.msgs.values().flat_map(|m| m.groups.iter()).next() {
            a.push(Sym::Lit(format!("{}=x", t)));
        }
    }
    a
}

fn push_sym(text: &mut String, s: &Sym, k: usize) {
    match s {
        Sym::Tag(t) => text.push_str(&format!("{}=v{}", t, k)),
        Sym::Lit(l) => text.push_str(l),
    }
    text.push(SOH);
}

struct Dfs<'a, 'b> {
    j: &'b mut Judge<'a>,
    st: &'b mut Stats,
    alpha: &'b [Sym],
    tail: usize,
}
impl<'a, 'b> Dfs<'a, 'b> {
    fn go(&mut self, text: &mut String, k: usize, depth: usize, extra: usize) {
        self.st.states += 1;
        let o = self.j.text(text, self.st);
        let extra = match o {
            Outcome::Accept(_) | Outcome::Reject(_, false) => extra,
            // nothing can follow that changes the verdict: look one token further only
            _ => {
                if extra == 0 {
                    return;
                }
                extra - 1
            }
        };
        if depth == 0 {
            return;
        }
        let dead = !matches!(o, Outcome::Accept(_) | Outcome::Reject(_, false));
        let alpha = self.alpha;
        // (after a rejected long prefix only the last tokens of the alphabet: trailer, strangers, bad ones)
        let from = if dead && k > 3 { alpha.len() - self.tail } else { 0 };
        for s in &alpha[from..] {
            let len = text.len();
            push_sym(text, s, k);
            self.st.trans += 1;
            self.go(text, k + 1, depth - 1, extra);
            text.truncate(len);
        }
    }
}

/// Valid messages of a dictionary with n instances of every group.
pub fn canonical(s: &Spec, typ: &str, n: usize) -> Vec<String> {
    let mut toks = vec![];
    let mut k = 0;
    fn emit(set: &RefSet, n: usize, skip: usize, toks: &mut Vec<String>, k: &mut usize) {
        for t in set.order.iter().skip(skip) {
            *k += 1;
            if let Some(g) = set.groups.get(t) {
                toks.push(format!("{}={}", t, n));
                for _ in 0..n {
                    emit(g, n, 0, toks, k);
                }
            } else {
                toks.push(format!("{}=v{}", t, k));
            }
        }
    }
    toks.push("8=FIX.4.3".to_string());
    toks.push("9=5".to_string());
    toks.push(format!("35={}", typ));
    emit(&s.rf.header, n, 3, &mut toks, &mut k);
    if let Some(m) = s.rf.msgs.get(typ) {
        emit(m, n, 0, &mut toks, &mut k);
    }
    // (checksum is the last one in the dictionaries)
    emit(&s.rf.trailer, n, 0, &mut toks, &mut k);
    toks
}

pub fn join(toks: &[String]) -> String {
    let mut s = String::new();
    for t in toks {
        s.push_str(t);
        s.push(SOH);
    }
    s
}

pub const VALUES: &[&str] = &[
    "", "a", "=", "a=b", "==", "10=1", "é", "日本語", " ", "0", "-1", "+5", "1.5", "Y", "true", "NaN", "1e3", "inf",
    "00012", "4294967295", "4294967296", "9223372036854775808", "\0", "a b", "|", "\t", "\r\n", "\u{7f}",
];
pub const TAGS: &[&str] = &[
    "", "0", "00", "01", "1", "7", "+1", "-1", " 1", "1 ", "1a", "a", "é", "1.0", "0x1", "4294967295", "4294967296",
    "99999999999999999999", "١", "8", "9", "35", "10", "2147483648", "1_0", "1,0",
];
pub const COUNTS: &[&str] = &[
    "0", "1", "2", "3", "4", "5", "7", "10", "100", "127", "128", "129", "255", "256", "65535", "65536", "1000000",
    "2147483647", "2147483648", "4294967295", "4294967296", "18446744073709551615", "18446744073709551616", "x", "1x",
    "-1", " 1", "1 ", "1.0", "é", "NaN", "=1", "1=",
];

/// Every text which differs from a valid one in one token (and in two, if asked).
fn token_mutants(s: &Spec, toks: &[String], full: bool, j: &mut Judge, st: &mut Stats) {
    let run = |v: &[String], j: &mut Judge, st: &mut Stats| {
        st.trans += 1;
        st.states += 1;
        let t = join(v);
        j.text(&t, st);
    };
    run(toks, j, st);
    let n = toks.len();
    for i in 0..n {
        let mut v = toks.to_vec();
        // drop
        let x = v.remove(i);
        run(&v, j, st);
        // move anywhere (a swap with the next one is the nearest case)
        let places: Vec<usize> = if full { (0..n).collect() } else { vec![(i + 1) % n, n - 1, 3.min(n - 1)] };
        for p in places {
            if p != i {
                v.insert(p, x.clone());
                run(&v, j, st);
                v.remove(p);
            }
        }
        v.insert(i, x.clone());
        // once more, anywhere
        let places: Vec<usize> = if full { (0..=n).collect() } else { vec![i + 1, n] };
        for p in places {
            v.insert(p, x.clone());
            run(&v, j, st);
            v.remove(p);
        }
        // a stranger before it
        for l in ["5000=z", "34=z", "10=z", "89=z", "8=z", "x=z", "7=", "", "="] {
            v.insert(i, l.to_string());
            run(&v, j, st);
            v.remove(i);
        }
        let (tag, val) = x.split_once('=').unwrap();
        if let Ok(c) = val.parse::<u32>() {
            for d in [c + 1, c.wrapping_sub(1), 0] {
                v[i] = format!("{}={}", tag, d);
                run(&v, j, st);
            }
        }
        if full {
            for w in VALUES {
                v[i] = format!("{}={}", tag, w);
                run(&v, j, st);
            }
            for w in COUNTS {
                v[i] = format!("{}={}", tag, w);
                run(&v, j, st);
            }
            for w in TAGS {
                v[i] = format!("{}={}", w, val);
                run(&v, j, st);
                v[i] = w.to_string();
                run(&v, j, st);
            }
        }
        for l in [format!("{}=", tag), tag.to_string(), format!("={}", val), format!("5000={}", val)] {
            v[i] = l;
            run(&v, j, st);
        }
        let _ = s;
    }
}

/// Every text which differs from a valid one in one character, and every prefix and suffix of it.
fn char_mutants(base: &str, j: &mut Judge, st: &mut Stats, two: bool) {
    let chars: Vec<char> = base.chars().collect();
    let subst: &[char] = &[SOH, '=', '0', '1', '9', 'x', 'é', '+', '-', ' '];
    let mk = |c: &[char]| c.iter().collect::<String>();
    let n = chars.len();
    let run = |t: &str, j: &mut Judge, st: &mut Stats| {
        st.states += 1;
        st.trans += 1;
        j.text(t, st);
    };
    for i in 0..=n {
        run(&mk(&chars[..i]), j, st);
        run(&mk(&chars[i..]), j, st);
    }
    for i in 0..n {
        let mut v = chars.clone();
        v.remove(i);
        run(&mk(&v), j, st);
        for c in subst {
            v.insert(i, *c); // replaced
            run(&mk(&v), j, st);
            v.remove(i);
        }
        v = chars.clone();
        for c in subst {
            v.insert(i, *c); // inserted
            run(&mk(&v), j, st);
            if two {
                for k in i + 1..v.len() {
                    let old = v[k];
                    for d in [SOH, '=', '0', '1'] {
                        v[k] = d;
                        run(&mk(&v), j, st);
                    }
                    v[k] = old;
                }
            }
            v.remove(i);
        }
    }
}

fn raw_strings(prefix: &str, alpha: &[char], depth: usize, j: &mut Judge, st: &mut Stats) {
    fn go(t: &mut String, alpha: &[char], depth: usize, j: &mut Judge, st: &mut Stats) {
        st.states += 1;
        j.text(t, st);
        if depth == 0 {
            return;
        }
        for c in alpha {
            let n = t.len();
            t.push(*c);
            st.trans += 1;
            go(t, alpha, depth - 1, j, st);
            t.truncate(n);
        }
    }
    let mut t = prefix.to_string();
    go(&mut t, alpha, depth, j, st);
}

/// Sizes at which limits may hide: every small one, and around every power of two.
pub fn sizes(quick: bool, dense: usize, top: u32) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=if quick { dense } else { 4 * dense }).collect();
    for k in 4..=top {
        let p = 1usize << k;
        v.extend([p - 2, p - 1, p, p + 1, p + 2]);
    }
    v.sort();
    v.dedup();
    v
}

/// Values of every size, of characters of every encoded length, shifted so that every byte of the text
/// from some place on lies once inside of a character, in every field of a message.
fn long_values(toks: &[String], ns: &[usize], j: &mut Judge, st: &mut Stats) {
    for i in 0..toks.len() {
        let (tag, val) = toks[i].split_once('=').unwrap();
        if val.parse::<u32>().is_ok() && tag != "9" {
            continue;
        }
        for c in ['x', 'é', '日', '\u{1d54f}'] {
            for off in 0..c.len_utf8() {
                for n in ns {
                    let mut v = toks.to_vec();
                    v[i] = format!("{}={}{}", tag, "x".repeat(off), c.to_string().repeat(n / c.len_utf8()));
                    st.states += 1;
                    st.trans += 1;
                    j.text(&join(&v), st);
                }
            }
        }
    }
}

/// A dictionary with many fields in header, body, trailer and one group.
fn wide_doc(n: u32) -> Doc {
    let mut d = doc(
        (1..=n).map(|i| f(3000 + i)).collect(),
        vec![],
        vec![(
            "A",
            (1..=n)
                .map(|i| f(1000 + i))
                .chain([g(2000, (1..=n).map(|i| f(2000 + i)).collect())])
                .chain([f(999)])
                .collect(),
        )],
    );
    for i in 1..=n {
        d.trailer.insert(0, f(4000 + i));
        d.fields.push(FieldDef { num: 4000 + i, name: format!("F{}", 4000 + i), typ: "STRING".into(), values: vec![] });
    }
    d
}
/// n fields in one place, in each of several orders.
fn many_fields(n: u32, width: u32, j: &mut Judge, st: &mut Stats) {
    let up: Vec<u32> = (1..=n).collect();
    let down: Vec<u32> = (1..=n).rev().collect();
    let mut inter: Vec<u32> = (1..=n).filter(|i| i % 2 == 0).collect();
    inter.extend((1..=n).filter(|i| i % 2 == 1).rev());
    let rot: Vec<u32> = (2..=n).chain((n > 0).then_some(1)).collect();
    let _ = width;
    for o in [up, down, inter, rot] {
        let list = |base: u32| -> String { o.iter().map(|i| format!("{}=v{}{}", base + i, i, SOH)).collect() };
        let start = format!("8=F{0}9=5{0}35=A{0}", SOH);
        for t in [
            format!("{}{}10=1{}", start, list(3000), SOH),
            format!("{}{}10=1{}", start, list(1000), SOH),
            format!("{}{}10=1{}", start, list(4000), SOH),
            format!("{0}2000=1{2}{1}999=z{2}10=1{2}", start, list(2000), SOH),
            format!("{0}2000=2{2}{1}{1}999=z{2}10=1{2}", start, list(2000), SOH),
            format!("{0}2000=2{2}{1}2001=w{2}999=z{2}10=1{2}", start, list(2000), SOH),
            format!("{0}{3}{1}2000=1{2}{4}999=z{2}{5}10=1{2}", start, list(1000), SOH, list(3000), list(2000), list(4000)),
            // the same with one field twice, at the far ends
            format!("{0}{1}1001=again{2}10=1{2}", start, list(1000), SOH),
            format!("{0}2000=1{2}{1}{3}=again{2}10=1{2}", start, list(2000), SOH, 2000 + n),
        ] {
            st.states += 1;
            st.trans += 1;
            j.text(&t, st);
        }
    }
}

/// Every character as a whole value, at the start, inside and at the end of one.
fn every_char(from: u32, to: u32, j: &mut Judge, st: &mut Stats) {
    for c in from..to {
        if let Some(c) = char::from_u32(c) {
            st.states += 1;
            st.trans += 1;
            let t = format!("8=F{0}9=5{0}35=A{0}1={1}{0}100=3{0}101={1}y{0}102=y{1}{0}101=y{1}y{0}101={1}{0}10=1{0}", SOH, c);
            j.text(&t, st);
        }
    }
}

// ------------------------------------------------------------------ all shapes of groups
/// Every ordered forest of n nodes, written with brackets; a node with children is a repeating group,
/// one without is a field.
pub fn forests(n: usize) -> Vec<String> {
    if n == 0 {
        return vec![String::new()];
    }
    let mut v = vec![];
    for k in 0..n {
        for a in forests(k) {
            for b in forests(n - 1 - k) {
                v.push(format!("({}){}", a, b));
            }
        }
    }
    v
}
/// The nodes of a forest; tags count up from 101. Mirrored: the same tags, all members the other way round.
fn forest_nodes(s: &str, mirror: bool) -> Vec<Node> {
    fn go(it: &mut std::str::Chars, k: &mut u32, mirror: bool) -> Vec<Node> {
        let mut v = vec![];
        while it.next() == Some('(') {
            *k += 1;
            let t = 100 + *k;
            let kids = go(it, k, mirror);
            v.push(if kids.is_empty() { f(t) } else { g(t, kids) });
        }
        if mirror {
            v.reverse();
        }
        v
    }
    go(&mut s.chars(), &mut 0, mirror)
}
/// Dictionary of a shape: "H" puts the forest into the header, "T" into the trailer, "B" into message A
/// (and mirrored into B).
fn shape_spec(name: &str) -> Spec {
    let (place, s) = name.strip_prefix("shape ").unwrap().split_at(1);
    let d = if place == "H" {
        doc([f(34)].into_iter().chain(forest_nodes(s, false)).collect(), vec![], vec![("A", vec![f(1)])])
    } else if place == "T" {
        doc_with_trailer(vec![], vec![], vec![("A", vec![f(1)])], forest_nodes(s, false))
    } else {
        doc(
            vec![f(34)],
            vec![],
            vec![
                ("A", forest_nodes(s, false).into_iter().chain([f(2)]).collect()),
                ("B", [f(2)].into_iter().chain(forest_nodes(s, true)).collect()),
            ],
        )
    };
    spec(Box::leak(name.to_string().into_boxed_str()), d)
}
/// All ways to fill the members from k on (in order, the first one of a group instance always) with up to
/// three instances, in at most `room` tokens: calls back with each.
fn fillings(set: &RefSet, k: usize, delim: bool, room: usize, toks: &mut Vec<String>, then: &mut dyn FnMut(&mut Vec<String>, usize)) {
    if k == set.order.len() {
        then(toks, room);
        return;
    }
    let t = set.order[k];
    let must = delim && k == 0;
    if !must {
        fillings(set, k + 1, delim, room, toks, then);
    }
    if room == 0 {
        return;
    }
    let Some(g) = set.groups.get(&t) else {
        toks.push(format!("{}=v{}", t, toks.len()));
        fillings(set, k + 1, delim, room - 1, toks, then);
        toks.pop();
        return;
    };
    fn instances(g: &RefSet, n: usize, room: usize, toks: &mut Vec<String>, then: &mut dyn FnMut(&mut Vec<String>, usize)) {
        if n == 0 {
            then(toks, room);
        } else if room >= n {
            fillings(g, 0, true, room, toks, &mut |toks, room| instances(g, n - 1, room, toks, then));
        }
    }
    for n in 0..=3usize.min(room - 1) {
        toks.push(format!("{}={}", t, n));
        instances(g, n, room - 1, toks, &mut |toks, room| fillings(set, k + 1, delim, room, toks, then));
        toks.pop();
    }
}
/// Every filling of the shape, and every text that differs from it in one token.
fn shape(name: &str, room: usize, j: &mut Judge, st: &mut Stats) {
    let sp = j.spec;
    let header = name.starts_with("shape H");
    let trailer = name.starts_with("shape T");
    let mut tags = vec![];
    tags_of(if header { &sp.rf.header } else if trailer { &sp.rf.trailer } else { &sp.rf.msgs["A"] }, &mut tags);
    tags.retain(|t| ![8, 9, 35].contains(t));
    tags.extend([10, 5000]);
    let mut all: Vec<(Vec<String>, usize)> = vec![];
    let pre = |typ: &str| vec!["8=F".to_string(), "9=5".to_string(), format!("35={}", typ)];
    if header {
        let mut toks = pre("A");
        fillings(&sp.rf.header, 3, false, room, &mut toks, &mut |t, _| {
            all.push((t.iter().cloned().chain(["1=b".to_string(), "10=0".to_string()]).collect(), t.len()))
        });
    } else if trailer {
        let mut toks = pre("A");
        toks.push("1=b".to_string());
        let mut set = sp.rf.trailer.clone();
        set.order.retain(|t| ![93, 89, 10].contains(t));
        fillings(&set, 0, false, room, &mut toks, &mut |t, _| {
            all.push((t.iter().cloned().chain(["10=0".to_string()]).collect(), t.len()))
        });
    } else {
        for typ in ["A", "B"] {
            let mut toks = pre(typ);
            fillings(&sp.rf.msgs[typ], 0, false, room, &mut toks, &mut |t, _| {
                all.push((t.iter().cloned().chain(["10=0".to_string()]).collect(), t.len()))
            });
        }
        // messages of the two types take turns
        let n = all.len() / 2;
        all = (0..n).flat_map(|i| [i, n + i]).map(|i| all[i].clone()).collect();
    }
    fn put(v: &[String], j: &mut Judge, st: &mut Stats) {
        st.states += 1;
        st.trans += 1;
        j.text(&join(v), st);
    }
    for (toks, end) in &all {
        put(toks, j, st);
        let mut v = toks.clone();
        for i in 3..*end {
            let x = v.remove(i);
            put(&v, j, st);
            v.insert(i, x);
            v.swap(i, i + 1);
            put(&v, j, st);
            v.swap(i, i + 1);
            let x = v[i].clone();
            let (t, val) = x.split_once('=').unwrap();
            for u in &tags {
                v[i] = format!("{}={}", u, val);
                put(&v, j, st);
            }
            if let Ok(c) = val.parse::<i64>() {
                for d in [c + 1, c - 1] {
                    v[i] = format!("{}={}", t, d);
                    put(&v, j, st);
                }
            }
            v[i] = x;
            for u in &tags {
                v.insert(i, format!("{}=1", u));
                put(&v, j, st);
                v.remove(i);
            }
        }
        for u in &tags {
            v.insert(*end, format!("{}=1", u));
            put(&v, j, st);
            v.remove(*end);
        }
    }
    st.count("shapes");
}

enum Work {
    Shape { name: String, room: usize },
    Long { spec: usize, typ: String, n: usize, part: usize },
    Wide { from: u32, to: u32 },
    Chars { from: u32, to: u32 },
    Counts { spec: usize, from: usize },
    Tokens { spec: usize, start: String, first: Sym, depth: usize },
    Start { spec: usize, depth: usize },
    Raw { spec: usize, prefix: String, alpha: Vec<char>, depth: usize },
    Mutants { spec: usize, typ: String, n: usize, full: bool },
    CharMutants { spec: usize, typ: String, n: usize, two: bool },
    GroupPairs { spec: usize, typ: String, path: Vec<Tag>, header: bool },
    Text { spec: usize, text: String },
}

fn deep_doc(levels: u32) -> Doc {
    // 100 { 101, 200 { 201, 300 { ... } } }
    fn lvl(i: u32, n: u32) -> Node {
        let mut k = vec![f(1000 * i + 1)];
        if i < n {
            k.push(lvl(i + 1, n));
        }
        k.push(f(1000 * i + 2));
        g(1000 * i, k)
    }
    doc(vec![f(34)], vec![], vec![("A", vec![lvl(1, levels), f(2)])])
}

fn group_paths(s: &RefSet, at: &mut Vec<Tag>, out: &mut Vec<Vec<Tag>>) {
    for (t, g) in &s.groups {
        at.push(*t);
        out.push(at.clone());
        group_paths(g, at, out);
        at.pop();
    }
}

/// In the group at the path: every ordered pair of members after the first field, in one instance and
/// spread over two.
fn group_pairs(s: &Spec, typ: &str, path: &[Tag], header: bool, j: &mut Judge, st: &mut Stats, three: bool) {
    let mut set = if header { &s.rf.header } else { &s.rf.msgs[typ] };
    let mut pre = format!("8=FIX.4.3{0}9=5{0}35={1}{0}", SOH, typ);
    for (i, t) in path.iter().enumerate() {
        set = &set.groups[t];
        if i + 1 < path.len() {
            pre.push_str(&format!("{}=1{}", t, SOH));
            if set.delim() != path[i + 1] {
                pre.push_str(&format!("{}=o{}{}", set.delim(), i, SOH));
            }
        }
    }
    let tag = path[path.len() - 1];
    let tok = |t: Tag, v: &str| {
        // a nested group is there without instances
        if set.groups.contains_key(&t) {
            format!("{}=0{}", t, SOH)
        } else {
            format!("{}={}{}", t, v, SOH)
        }
    };
    let d = set.delim();
    let mut run = |t: String| {
        st.states += 1;
        st.trans += 1;
        j.text(&t, st);
    };
    let end = format!("10=000{}", SOH);
    for x in &set.order {
        for y in &set.order {
            run(format!("{}{}=1{}{}{}{}{}", pre, tag, SOH, tok(d, "d"), tok(*x, "x"), tok(*y, "y"), end));
            run(format!("{}{}=2{}{}{}{}{}{}", pre, tag, SOH, tok(d, "d"), tok(*x, "x"), tok(d, "e"), tok(*y, "y"), end));
            if three {
                for z in &set.order {
                    run(format!(
                        "{}{}=1{}{}{}{}{}{}",
                        pre, tag, SOH, tok(d, "d"), tok(*x, "x"), tok(*y, "y"), tok(*z, "z"), end
                    ));
                }
            }
        }
        run(format!("{}{}=1{}{}{}", pre, tag, SOH, tok(*x, "x"), end));
        run(format!("{}{}=0{}{}{}", pre, tag, SOH, tok(*x, "x"), end));
    }
}

pub fn run(ctx: &Ctx, prop: Prop) {
    let mut specs = all_minis();
    specs.push(spec("deep12", deep_doc(12)));
    let width: u32 = 300;
    specs.push(spec("wide", wide_doc(width)));
    specs.push(fix43());
    let fix = specs.len() - 1;
    let wide = specs.len() - 2;
    let deep12 = specs.len() - 3;
    let minis = deep12;
    if let Some(r) = &ctx.replay {
        let b = replay_body(r);
        let mut name = String::new();
        for l in b.lines() {
            if let Some(n) = l.strip_prefix("dict ") {
                name = n.to_string();
            }
            if let Some(t) = l.strip_prefix("text ") {
                let text = from_json_str(t);
                let made;
                let s = if name.starts_with("shape ") {
                    made = shape_spec(&name);
                    &made
                } else {
                    specs.iter().find(|s| s.name == name).expect("dictionary of the replay")
                };
                let mut st = Stats::default();
                Judge::new(ctx, prop, s).text(&text, &mut st);
            }
        }
        return;
    }
    let only: Option<String> = std::env::var("FIX_RS_VERIF_ONLY").ok();
    let mut work: Vec<Work> = vec![];
    let d = ctx.pick(6, 8);
    for i in 0..minis {
        let s = &specs[i];
        let mut types: Vec<String> = s.rf.msgs.keys().cloned().collect();
        types.push("Z".into());
        for t in types {
            let start = format!("8=FIX.4.3{0}9=5{0}35={1}{0}", SOH, t);
            let depth = if t == "Z" { 4 } else { d };
            for a in alphabet(s, true) {
                work.push(Work::Tokens { spec: i, start: start.clone(), first: a, depth: depth - 1 });
            }
        }
        work.push(Work::Start { spec: i, depth: ctx.pick(5, 6) });
        for t in s.rf.msgs.keys() {
            for n in 0..=ctx.pick(2, 3) {
                work.push(Work::Mutants { spec: i, typ: t.clone(), n, full: true });
            }
            work.push(Work::CharMutants { spec: i, typ: t.clone(), n: 1, two: !ctx.quick() });
        }
    }
    for c in ['8', '9', '3', '5', '=', SOH, 'A', 'é'] {
        work.push(Work::Raw {
            spec: 0,
            prefix: c.to_string(),
            alpha: vec!['8', '9', '3', '5', '=', SOH, 'A', 'é'],
            depth: ctx.pick(5, 7),
        });
        work.push(Work::Raw {
            spec: 2,
            prefix: format!("8=F{0}9=5{0}35=A{0}{1}", SOH, c),
            alpha: vec!['1', '0', '=', SOH, '+', 'é', ' '],
            depth: ctx.pick(5, 6),
        });
    }
    work.push(Work::Text { spec: 0, text: String::new() });
    for n in 0..=ctx.pick(1, 1) {
        work.push(Work::Mutants { spec: deep12, typ: "A".into(), n, full: true });
    }
    // long texts
    let big = ctx.pick(3000, 20000);
    let mut t = format!("8=F{0}9=5{0}35=A{0}", SOH);
    for i in 0..big {
        t.push_str(&format!("{}=v{}", 10000 + i, SOH));
    }
    work.push(Work::Text { spec: 0, text: t });
    work.push(Work::Text { spec: 0, text: format!("8=F{0}9=5{0}35=A{0}1={1}{0}10=0{0}", SOH, "x".repeat(big * 100)) });
    for s in [2, 3] {
        let mut t = format!("8=F{0}9=5{0}35=A{0}100={1}{0}", SOH, big);
        for i in 0..big {
            t.push_str(&format!("101=v{}{}", i, SOH));
        }
        work.push(Work::Text { spec: s, text: t.clone() });
        t.push_str(&format!("101=v{}", SOH));
        work.push(Work::Text { spec: s, text: t });
    }
    // sizes
    let dense = 600;
    let ns = sizes(ctx.quick(), dense, ctx.pick(13, 17));
    for i in [1usize, 2] {
        for part in 0..16 {
            work.push(Work::Long { spec: i, typ: "A".into(), n: 1, part });
        }
    }
    for k in 0..=width / 10 {
        work.push(Work::Wide { from: k * 10, to: (k * 10 + 10).min(width + 1) });
    }
    for i in [2usize, 3] {
        for k in 0..12 {
            work.push(Work::Counts { spec: i, from: k });
        }
    }
    let top = ctx.pick(0x3000, 0x110000);
    for k in 0..top / 0x400 {
        work.push(Work::Chars { from: k * 0x400, to: k * 0x400 + 0x400 });
    }
    if ctx.quick() {
        // beyond, the ends of every block of 256
        for k in top / 0x100..0x1100 {
            work.push(Work::Chars { from: k * 0x100, to: k * 0x100 + 1 });
            work.push(Work::Chars { from: k * 0x100 + 0xff, to: k * 0x100 + 0x100 });
        }
    }
    // the shipped dictionary
    for t in specs[fix].rf.msgs.keys() {
        for n in 0..=2 {
            work.push(Work::Mutants { spec: fix, typ: t.clone(), n, full: false });
        }
        let mut ps = vec![];
        group_paths(&specs[fix].rf.msgs[t], &mut vec![], &mut ps);
        for p in ps {
            work.push(Work::GroupPairs { spec: fix, typ: t.clone(), path: p, header: false });
        }
    }
    let mut ps = vec![];
    group_paths(&specs[fix].rf.header, &mut vec![], &mut ps);
    for p in ps {
        work.push(Work::GroupPairs { spec: fix, typ: "0".into(), path: p, header: true });
    }
    // all shapes of groups
    let nodes = ctx.pick(6, 7);
    for n in 1..=nodes {
        let room = ctx.pick(8, 9) - if n == nodes { 1 } else { 0 };
        for s in forests(n) {
            if s.contains("((") {
                work.push(Work::Shape { name: format!("shape B{}", s), room });
                if n < nodes {
                    work.push(Work::Shape { name: format!("shape H{}", s), room });
                    work.push(Work::Shape { name: format!("shape T{}", s), room });
                }
            }
        }
    }
    // big ones first
    work.reverse();
    let three = !ctx.quick();
    par(&work, |w| {
        if let Some(o) = &only {
            let k = match w {
                Work::Tokens { .. } => "tokens",
                Work::Start { .. } => "start",
                Work::Raw { .. } => "raw",
                Work::Mutants { .. } => "mutants",
                Work::CharMutants { .. } => "chars",
                Work::GroupPairs { .. } => "pairs",
                Work::Text { .. } => "text",
                Work::Long { .. } => "long",
                Work::Wide { .. } => "wide",
                Work::Chars { .. } => "everychar",
                Work::Counts { .. } => "counts",
                Work::Shape { .. } => "shape",
            };
            if k != o {
                return;
            }
        }
        let mut st = Stats::default();
        let si = match w {
            Work::Tokens { spec, .. }
            | Work::Start { spec, .. }
            | Work::Raw { spec, .. }
            | Work::Mutants { spec, .. }
            | Work::CharMutants { spec, .. }
            | Work::GroupPairs { spec, .. }
            | Work::Long { spec, .. }
            | Work::Counts { spec, .. }
            | Work::Text { spec, .. } => *spec,
            Work::Wide { .. } => wide,
            Work::Chars { .. } | Work::Shape { .. } => 2,
        };
        let made;
        let s = if let Work::Shape { name, .. } = w {
            made = shape_spec(name);
            &made
        } else {
            &specs[si]
        };
        let mut j = Judge::new(ctx, prop, s);
        match w {
            Work::Tokens { start, first, depth, .. } => {
                let alpha = alphabet(s, true);
                let mut text = start.clone();
                push_sym(&mut text, first, 0);
                Dfs { j: &mut j, st: &mut st, alpha: &alpha, tail: 7 }.go(&mut text, 1, *depth, 1);
            }
            Work::Start { depth, .. } => {
                let mut alpha: Vec<Sym> = [8, 9, 35, 34, 1, 10].iter().map(|t| Sym::Tag(*t)).collect();
                alpha.push(Sym::Lit("35=A".into()));
                alpha.push(Sym::Lit("".into()));
                alpha.push(Sym::Lit("=".into()));
                alpha.push(Sym::Lit("8".into()));
                Dfs { j: &mut j, st: &mut st, alpha: &alpha, tail: alpha.len() }.go(&mut String::new(), 0, *depth, 1);
            }
            Work::Shape { name, room } => shape(name, *room, &mut j, &mut st),
            Work::Raw { prefix, alpha, depth, .. } => raw_strings(prefix, alpha, *depth, &mut j, &mut st),
            Work::Mutants { typ, n, full, .. } => {
                let toks = canonical(s, typ, *n);
                ctx.sample(show(&join(&toks)).chars().take(300).collect());
                token_mutants(s, &toks, *full && toks.len() < 40, &mut j, &mut st)
            }
            Work::CharMutants { typ, n, two, .. } => {
                let t = join(&canonical(s, typ, *n));
                char_mutants(&t, &mut j, &mut st, *two && t.len() < 90);
                char_mutants(&t[..t.len() - 1], &mut j, &mut st, false);
            }
            Work::GroupPairs { typ, path, header, .. } => {
                group_pairs(s, typ, path, *header, &mut j, &mut st, three)
            }
            Work::Long { typ, n, part, .. } => {
                let some: Vec<usize> = ns.iter().copied().enumerate().filter(|x| x.0 % 16 == *part).map(|x| x.1).collect();
                long_values(&canonical(s, typ, *n), &some, &mut j, &mut st)
            }
            Work::Wide { from, to } => {
                for n in *from..*to {
                    many_fields(n, width, &mut j, &mut st)
                }
            }
            Work::Chars { from, to } => every_char(*from, *to, &mut j, &mut st),
            Work::Counts { from, .. } => {
                // n instances of a group, and one more or less
                for n in sizes(true, 300, 12).into_iter().enumerate().filter(|x| x.0 % 12 == *from).map(|x| x.1) {
                    for d in [-1i64, 0, 1] {
                        let mut t = format!("8=F{0}9=5{0}35=A{0}100={1}{0}", SOH, n);
                        for i in 0..(n as i64 + d).max(0) {
                            t.push_str(&format!("101=v{}{}103=w{}{}", i, SOH, i, SOH));
                        }
                        t.push_str(&format!("2=z{0}10=1{0}", SOH));
                        st.states += 1;
                        st.trans += 1;
                        j.text(&t, &mut st);
                    }
                }
            }
            Work::Text { text, .. } => {
                st.states += 1;
                j.text(text, &mut st);
            }
        }
        st.flush(ctx);
    });
    ctx.note("dictionaries", format!("{}", specs.len()));
    ctx.note("token_depth", format!("{}", d));
    ctx.note("shape_nodes", format!("{}", nodes));
    ctx.note("exhaustive", "true".into());
    ctx.note_str(
        "bounds",
        "all token sequences after the first three fields up to token_depth over each small dictionary (a rejected \
         prefix is followed one token further), all starts, all raw strings, all one-token and one-character \
         mutants of canonical messages, all ordered member pairs of every FIX43 group; values of every size to 600 \
         (and around the powers of two above) of characters of each encoded length in every field at every \
         alignment, 0 to 300 fields in one place in four orders, every number of group instances to 300, every \
         character; every shape of groups of up to shape_nodes nodes, in header and body (and mirrored in a second \
         message type), every filling of it with up to 8 tokens (7 for the largest shapes; thorough one more) and all \
         one-token mutants of it",
    );
}

/// Undoes json_str.
pub fn from_json_str(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.trim().trim_start_matches('"').chars();
    while let Some(c) = it.next() {
        match c {
            '\\' => match it.next() {
                Some('n') => o.push('\n'),
                Some('u') => {
                    let h: String = it.by_ref().take(4).collect();
                    o.push(char::from_u32(u32::from_str_radix(&h, 16).unwrap_or(0)).unwrap_or('?'));
                }
                Some(c) => o.push(c),
                None => {}
            },
            '"' => break,
            c => o.push(c),
        }
    }
    o
}

pub fn c01(ctx: &Ctx) {
    run(ctx, Prop::Total)
}
pub fn c02(ctx: &Ctx) {
    run(ctx, Prop::Content)
}
pub fn c03(ctx: &Ctx) {
    run(ctx, Prop::Reasons)
}
pub fn c04(ctx: &Ctx) {
    run(ctx, Prop::Reencode)
}
#[allow(dead_code)]
fn unused() {
    let _ = unshow("");
}
