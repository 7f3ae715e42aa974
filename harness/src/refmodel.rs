//! Independent reference models: what a dictionary document means, and what a text means under a
//! dictionary. Written from the FIX structure rules, in the plainest way; nothing of the code under
//! test is used here.
use std::collections::{BTreeMap, BTreeSet};

pub type Tag = u32;
pub const SOH: char = '\u{1}';

// ------------------------------------------------------------------ documents
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Node {
    Field(String, bool),
    Group(String, bool, Vec<Node>),
    Comp(String, bool),
}
#[derive(Clone, Debug)]
pub struct FieldDef {
    pub num: Tag,
    pub name: String,
    pub typ: String,
    pub values: Vec<String>,
}
#[derive(Clone, Debug)]
pub struct MsgDef {
    pub name: String,
    pub typ: String,
    pub cat: String,
    pub nodes: Vec<Node>,
}
#[derive(Clone, Debug, Default)]
pub struct Doc {
    pub fields: Vec<FieldDef>,
    pub comps: Vec<(String, Vec<Node>)>,
    pub header: Vec<Node>,
    pub trailer: Vec<Node>,
    pub msgs: Vec<MsgDef>,
}

// ------------------------------------------------------------------ dictionary meaning
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct RefSet {
    pub order: Vec<Tag>,
    pub req: BTreeSet<Tag>,
    pub groups: BTreeMap<Tag, RefSet>,
}
impl RefSet {
    pub fn has(&self, t: Tag) -> bool {
        self.order.contains(&t)
    }
    pub fn delim(&self) -> Tag {
        self.order.first().copied().unwrap_or(0)
    }
}
#[derive(Clone, Debug, Default)]
pub struct RefDict {
    pub header: RefSet,
    pub trailer: RefSet,
    pub msgs: BTreeMap<String, RefSet>,
}

pub fn expand(doc: &Doc) -> RefDict {
    let nums: BTreeMap<&str, Tag> = doc.fields.iter().map(|f| (f.name.as_str(), f.num)).collect();
    let comps: BTreeMap<&str, &Vec<Node>> = doc.comps.iter().map(|(n, v)| (n.as_str(), v)).collect();
    fn go(
        set: &mut RefSet, nodes: &[Node], outer: bool, nums: &BTreeMap<&str, Tag>,
        comps: &BTreeMap<&str, &Vec<Node>>,
    ) {
        for n in nodes {
            match n {
                Node::Field(name, req) => {
                    let t = nums[name.as_str()];
                    set.order.push(t);
                    if *req && outer {
                        set.req.insert(t);
                    }
                }
                Node::Group(name, req, kids) => {
                    let t = nums[name.as_str()];
                    set.order.push(t);
                    if *req && outer {
                        set.req.insert(t);
                    }
                    let mut g = RefSet::default();
                    go(&mut g, kids, *req, nums, comps);
                    set.groups.insert(t, g);
                }
                Node::Comp(name, req) => go(set, comps[name.as_str()], *req, nums, comps),
            }
        }
    }
    let one = |nodes: &[Node]| {
        let mut s = RefSet::default();
        go(&mut s, nodes, true, &nums, &comps);
        s
    };
    RefDict {
        header: one(&doc.header),
        trailer: one(&doc.trailer),
        msgs: doc.msgs.iter().map(|m| (m.typ.clone(), one(&m.nodes))).collect(),
    }
}

/// How a document is written down; all variants mean the same.
#[derive(Clone, Copy, Debug, Default)]
pub struct Style {
    pub spaced: bool,   // whitespace, newlines and comments everywhere, flags in lower case
    pub attr_rev: bool, // attributes in another order, single quotes, explicit closing tags
    pub sections: u8,   // order of the sections
}

pub fn esc(s: &str) -> String {
    s.replace('&', "&amp;").replace('<', "&lt;").replace('"', "&quot;").replace('\'', "&apos;")
}

pub fn render(doc: &Doc, st: Style) -> String {
    fn elem(out: &mut String, name: &str, attrs: &[(&str, &str)], st: Style, kids: &dyn Fn(&mut String), empty: bool) {
        let q = if st.attr_rev { '\'' } else { '"' };
        if st.spaced {
            out.push_str("\n  <!-- c -->\n\t");
        }
        out.push('<');
        out.push_str(name);
        let mut a: Vec<(&str, &str)> = attrs.to_vec();
        if st.attr_rev {
            a.reverse();
        }
        for (k, v) in a {
            out.push_str(&format!("{}{}={}{}{}", if st.spaced { "\n " } else { " " }, k, q, esc(v), q));
        }
        if empty && !st.attr_rev {
            out.push_str("/>");
            return;
        }
        out.push('>');
        kids(out);
        if st.spaced {
            out.push_str("\n ");
        }
        out.push_str(&format!("</{}>", name));
    }
    fn yn(b: bool, st: Style) -> &'static str {
        match (b, st.spaced) {
            (true, false) => "Y",
            (true, true) => "y",
            (false, false) => "N",
            (false, true) => "n",
        }
    }
    fn nodes(out: &mut String, ns: &[Node], st: Style) {
        for n in ns {
            match n {
                Node::Field(name, r) => {
                    elem(out, "field", &[("name", name), ("required", yn(*r, st))], st, &|_| {}, true)
                }
                Node::Comp(name, r) => {
                    elem(out, "component", &[("name", name), ("required", yn(*r, st))], st, &|_| {}, true)
                }
                Node::Group(name, r, kids) => elem(
                    out,
                    "group",
                    &[("name", name), ("required", yn(*r, st))],
                    st,
                    &|o| nodes(o, kids, st),
                    false,
                ),
            }
        }
    }
    let header = |o: &mut String| elem(o, "header", &[], st, &|o| nodes(o, &doc.header, st), false);
    let trailer = |o: &mut String| elem(o, "trailer", &[], st, &|o| nodes(o, &doc.trailer, st), false);
    let messages = |o: &mut String| {
        elem(
            o,
            "messages",
            &[],
            st,
            &|o| {
                for m in &doc.msgs {
                    elem(
                        o,
                        "message",
                        &[("name", &m.name), ("msgtype", &m.typ), ("msgcat", &m.cat)],
                        st,
                        &|o| nodes(o, &m.nodes, st),
                        m.nodes.is_empty(),
                    );
                }
            },
            false,
        )
    };
    let components = |o: &mut String| {
        elem(
            o,
            "components",
            &[],
            st,
            &|o| {
                for (n, k) in &doc.comps {
                    elem(o, "component", &[("name", n)], st, &|o| nodes(o, k, st), k.is_empty());
                }
            },
            false,
        )
    };
    let fields = |o: &mut String| {
        elem(
            o,
            "fields",
            &[],
            st,
            &|o| {
                for f in &doc.fields {
                    let num = f.num.to_string();
                    elem(
                        o,
                        "field",
                        &[("number", &num), ("name", &f.name), ("type", &f.typ)],
                        st,
                        &|o| {
                            for v in &f.values {
                                elem(o, "value", &[("enum", v), ("description", "d")], st, &|_| {}, true);
                            }
                        },
                        f.values.is_empty(),
                    );
                }
            },
            false,
        )
    };
    let mut s = String::new();
    s.push_str("<fix type=\"FIX\" major=\"4\" minor=\"3\" servicepack=\"0\">");
    let secs: [&dyn Fn(&mut String); 5] = [&header, &trailer, &messages, &components, &fields];
    let orders: [[usize; 5]; 3] = [[0, 1, 2, 3, 4], [4, 3, 2, 1, 0], [2, 4, 0, 3, 1]];
    for i in orders[st.sections as usize % 3] {
        secs[i](&mut s);
    }
    if st.spaced {
        s.push_str("\n<!-- end -->\n");
    }
    s.push_str("</fix>");
    s
}

/// Reads an existing dictionary file into a document (used for the shipped FIX43.xml).
pub fn read_doc(xml: &str) -> Doc {
    let d = roxmltree::Document::parse(xml).expect("shipped dictionary is XML");
    fn nodes(n: roxmltree::Node) -> Vec<Node> {
        n.children()
            .filter(|c| c.is_element())
            .map(|c| {
                let name = c.attribute("name").unwrap().to_string();
                let req = c.attribute("required").is_some_and(|r| r.eq_ignore_ascii_case("Y"));
                match c.tag_name().name() {
                    "field" => Node::Field(name, req),
                    "group" => Node::Group(name, req, nodes(c)),
                    "component" => Node::Comp(name, req),
                    o => panic!("element {}", o),
                }
            })
            .collect()
    }
    let mut doc = Doc::default();
    for sec in d.root_element().children().filter(|c| c.is_element()) {
        match sec.tag_name().name() {
            "header" => doc.header = nodes(sec),
            "trailer" => doc.trailer = nodes(sec),
            "messages" => {
                for m in sec.children().filter(|c| c.is_element()) {
                    doc.msgs.push(MsgDef {
                        name: m.attribute("name").unwrap().into(),
                        typ: m.attribute("msgtype").unwrap().into(),
                        cat: m.attribute("msgcat").unwrap().into(),
                        nodes: nodes(m),
                    })
                }
            }
            "components" => {
                for c in sec.children().filter(|c| c.is_element()) {
                    doc.comps.push((c.attribute("name").unwrap().into(), nodes(c)))
                }
            }
            "fields" => {
                for f in sec.children().filter(|c| c.is_element()) {
                    doc.fields.push(FieldDef {
                        num: f.attribute("number").unwrap().parse().unwrap(),
                        name: f.attribute("name").unwrap().into(),
                        typ: f.attribute("type").unwrap().into(),
                        values: f
                            .children()
                            .filter(|c| c.is_element())
                            .map(|v| v.attribute("enum").unwrap().to_string())
                            .collect(),
                    })
                }
            }
            _ => {}
        }
    }
    doc
}

// ------------------------------------------------------------------ texts
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct RefMap {
    pub fields: Vec<(Tag, String)>, // in received order, counts included
    pub groups: BTreeMap<Tag, Vec<RefMap>>,
}
impl RefMap {
    pub fn has(&self, t: Tag) -> bool {
        self.fields.iter().any(|f| f.0 == t)
    }
    pub fn get(&self, t: Tag) -> Option<&str> {
        self.fields.iter().find(|f| f.0 == t).map(|f| f.1.as_str())
    }
    /// every tag=value pair, groups included
    pub fn flat(&self, out: &mut Vec<(Tag, String)>) {
        for f in &self.fields {
            out.push(f.clone());
            if let Some(g) = self.groups.get(&f.0) {
                for i in g {
                    i.flat(out);
                }
            }
        }
    }
    /// equality which does not regard the order of fields
    pub fn same(&self, o: &RefMap) -> bool {
        let mut a = self.fields.clone();
        let mut b = o.fields.clone();
        a.sort();
        b.sort();
        if a != b || self.groups.len() != o.groups.len() {
            return false;
        }
        self.groups.iter().all(|(t, g)| match o.groups.get(t) {
            Some(h) => g.len() == h.len() && g.iter().zip(h).all(|(x, y)| x.same(y)),
            None => false,
        })
    }
}
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct RefMsg {
    pub header: RefMap,
    pub body: RefMap,
    pub trailer: RefMap,
}
impl RefMsg {
    pub fn same(&self, o: &RefMsg) -> bool {
        self.header.same(&o.header) && self.body.same(&o.body) && self.trailer.same(&o.trailer)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Reason {
    InvalidTag,
    RequiredTagMissing,
    TagSpecifiedWithoutValue,
    IncorrectDataFormatForValue,
    TagAppearsMoreThanOnce,
    TagSpecifiedOutOfOrder,
    RepeatingGroupsOutOfOrder,
    IncorrectNumInGroupCountForRepeatingGroup,
}
use Reason::*;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Outcome {
    Accept(RefMsg),
    /// reasons any of which is right; .1: no continuation of the text can change that it is rejected
    Reject(BTreeSet<Reason>, bool),
    /// left open by the rules (a count written "01" or "+1")
    Open,
}

#[derive(Clone, Debug)]
enum Tok {
    Field(Tag, String),
    Bad(Reason),
}
fn token(f: &str) -> Tok {
    let eq = match f.find('=') {
        None => return Tok::Bad(InvalidTag),
        Some(i) => i,
    };
    let (t, v) = (&f[..eq], &f[eq + 1..]);
    let b = t.as_bytes();
    if b.is_empty() || b[0] == b'0' || !b.iter().all(|c| c.is_ascii_digit()) || b.len() > 10 {
        return Tok::Bad(InvalidTag);
    }
    let n: u64 = b.iter().fold(0, |a, c| a * 10 + (c - b'0') as u64);
    if n > u32::MAX as u64 {
        return Tok::Bad(InvalidTag);
    }
    if v.is_empty() {
        return Tok::Bad(TagSpecifiedWithoutValue);
    }
    Tok::Field(n as Tag, v.to_string())
}

enum Stop {
    Err(Vec<Reason>),
    Eof(Vec<Reason>), // error only because the text ends here
    Open,
}

struct P<'a> {
    toks: &'a [(Tag, String)],
    pos: usize,
    // reasons seen on the way which are right answers for the whole text too
    also: BTreeSet<Reason>,
}

fn count_of(v: &str) -> Result<u64, Stop> {
    let b = v.as_bytes();
    let digits = |b: &[u8]| !b.is_empty() && b.iter().all(|c| c.is_ascii_digit());
    if digits(b) {
        if b.len() > 1 && b[0] == b'0' {
            return Err(Stop::Open);
        }
        let mut n = 0u64;
        for c in b {
            n = n.saturating_mul(10).saturating_add((c - b'0') as u64);
        }
        if n > u32::MAX as u64 {
            // a number, but no group can have that many instances
            return Err(Stop::Err(vec![
                IncorrectDataFormatForValue,
                IncorrectNumInGroupCountForRepeatingGroup,
            ]));
        }
        return Ok(n);
    }
    if (b[0] == b'+' && digits(&b[1..])) || v == "-0" {
        return Err(Stop::Open);
    }
    Err(Stop::Err(vec![IncorrectDataFormatForValue]))
}

fn group(p: &mut P, tag: Tag, value: &str, spec: &RefSet, into: &mut RefMap) -> Result<(), Stop> {
    let n = count_of(value)?;
    if n > (p.toks.len() - p.pos) as u64 {
        p.also.insert(IncorrectNumInGroupCountForRepeatingGroup);
    }
    let delim = spec.delim();
    let mut inst: Vec<RefMap> = vec![];
    let mut last = 0usize; // position in dictionary order of the last member of the instance
    while p.pos < p.toks.len() {
        let (t, v) = p.toks[p.pos].clone();
        if !spec.has(t) {
            break;
        }
        p.pos += 1;
        if t == delim {
            if inst.len() as u64 == n {
                return Err(Stop::Err(vec![IncorrectNumInGroupCountForRepeatingGroup]));
            }
            inst.push(RefMap::default());
            last = 0;
        } else {
            let cur = match inst.last() {
                None => return Err(Stop::Err(vec![RequiredTagMissing])),
                Some(c) => c,
            };
            let pos = spec.order.iter().position(|x| *x == t).unwrap();
            let dup = cur.has(t);
            let ooo = pos < last;
            if dup || ooo {
                let mut r = vec![];
                if dup {
                    r.push(TagAppearsMoreThanOnce)
                }
                if ooo {
                    r.push(RepeatingGroupsOutOfOrder)
                }
                return Err(Stop::Err(r));
            }
            last = pos;
        }
        let cur = inst.last_mut().unwrap();
        cur.fields.push((t, v.clone()));
        if let Some(g) = spec.groups.get(&t) {
            group(p, t, &v, g, cur)?;
        }
    }
    if inst.len() as u64 != n {
        // more tokens could still complete the group only if the text ends inside of it
        let r = vec![IncorrectNumInGroupCountForRepeatingGroup];
        return Err(if p.pos == p.toks.len() { Stop::Eof(r) } else { Stop::Err(r) });
    }
    into.groups.insert(tag, inst);
    Ok(())
}

fn structure(p: &mut P, d: &RefDict, cut: bool) -> Result<RefMsg, Stop> {
    let want = [8, 9, 35];
    for i in 0..3 {
        match p.toks.get(i) {
            Some((t, _)) if *t == want[i] => {}
            Some(_) => return Err(Stop::Err(vec![TagSpecifiedOutOfOrder])),
            None => return Err(Stop::Eof(vec![TagSpecifiedOutOfOrder])),
        }
    }
    let _ = cut;
    let empty = RefSet::default();
    let mut m = RefMsg::default();
    // header
    while let Some((t, v)) = p.toks.get(p.pos).cloned() {
        if !d.header.has(t) {
            break;
        }
        if m.header.has(t) {
            return Err(Stop::Err(vec![TagAppearsMoreThanOnce]));
        }
        p.pos += 1;
        m.header.fields.push((t, v.clone()));
        if let Some(g) = d.header.groups.get(&t) {
            group(p, t, &v, g, &mut m.header)?;
        }
    }
    let typ = p.toks[2].1.clone();
    let spec = d.msgs.get(&typ).unwrap_or(&empty);
    // body
    while let Some((t, v)) = p.toks.get(p.pos).cloned() {
        if d.header.has(t) {
            let mut r = vec![TagSpecifiedOutOfOrder];
            if m.header.has(t) {
                r.push(TagAppearsMoreThanOnce);
            }
            return Err(Stop::Err(r));
        }
        if d.trailer.has(t) {
            break;
        }
        if m.body.has(t) {
            return Err(Stop::Err(vec![TagAppearsMoreThanOnce]));
        }
        p.pos += 1;
        m.body.fields.push((t, v.clone()));
        if let Some(g) = spec.groups.get(&t) {
            group(p, t, &v, g, &mut m.body)?;
        }
    }
    // trailer
    while let Some((t, v)) = p.toks.get(p.pos).cloned() {
        if !d.trailer.has(t) {
            let mut r = vec![TagSpecifiedOutOfOrder];
            if m.header.has(t) || m.body.has(t) {
                r.push(TagAppearsMoreThanOnce);
            }
            return Err(Stop::Err(r));
        }
        if m.trailer.has(t) {
            return Err(Stop::Err(vec![TagAppearsMoreThanOnce]));
        }
        p.pos += 1;
        m.trailer.fields.push((t, v.clone()));
        if let Some(g) = d.trailer.groups.get(&t) {
            group(p, t, &v, g, &mut m.trailer)?;
        }
    }
    Ok(m)
}

/// What the text means.
pub fn meaning(d: &RefDict, text: &str) -> Outcome {
    let body = text.strip_suffix(SOH).unwrap_or(text);
    let toks: Vec<Tok> = if text.is_empty() { vec![] } else { body.split(SOH).map(token).collect() };
    let mut bad = BTreeSet::new();
    let mut good: Vec<(Tag, String)> = vec![];
    for t in toks {
        match t {
            Tok::Bad(r) => {
                bad.insert(r);
            }
            Tok::Field(t, v) => {
                if bad.is_empty() {
                    good.push((t, v));
                }
            }
        }
    }
    let mut p = P { toks: &good, pos: 0, also: BTreeSet::new() };
    let r = structure(&mut p, d, !bad.is_empty());
    let mut also = p.also;
    if !bad.is_empty() {
        // the fields before the first bad one may break a rule as well
        match r {
            Err(Stop::Err(v)) => bad.extend(v),
            // (a count that the fields before the bad one can not satisfy)
            _ => {}
        }
        bad.extend(also);
        return Outcome::Reject(bad, true);
    }
    match r {
        Ok(m) => Outcome::Accept(m),
        Err(Stop::Open) => Outcome::Open,
        Err(Stop::Err(v)) => {
            also.extend(v);
            Outcome::Reject(also, true)
        }
        Err(Stop::Eof(v)) => {
            also.extend(v);
            Outcome::Reject(also, false)
        }
    }
}
