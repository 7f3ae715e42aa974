//! C07: a loaded dictionary means what its document says. C08: malformed documents are refused.
use super::codec::{from_json_str, Stats};
use super::kit::*;
use super::refmodel::*;
use super::specs::{all_minis, c, doc, f, fix43_path, g};
use crate::data_dictionary::DataDictionary;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::Write;
use std::str::FromStr;

fn set_of(s: Option<&HashSet<u32>>) -> BTreeSet<u32> {
    s.map(|x| x.iter().copied().collect()).unwrap_or_default()
}

fn cmp_set(dd: &DataDictionary, key: &str, want: &RefSet, tags: &[Tag], at: &str, in_group: bool) -> Result<(), String> {
    let fields: BTreeSet<u32> = want.order.iter().copied().collect();
    let got = set_of(dd.get_msg_fields(key));
    if got != fields {
        return Err(format!("{}: fields {:?}, should be {:?}", at, got, fields));
    }
    let got = set_of(dd.get_msg_required_field(key));
    if got != want.req {
        return Err(format!("{}: required fields {:?}, should be {:?}", at, got, want.req));
    }
    if in_group {
        let o = dd.get_ordered_fields();
        if o != want.order {
            return Err(format!("{}: member order {:?}, should be {:?}", at, o, want.order));
        }
    }
    for t in tags {
        if dd.is_msg_field(key, *t) != fields.contains(t) {
            return Err(format!("{}: is_msg_field({}) is wrong", at, t));
        }
        if dd.is_msg_req_field(key, *t) != want.req.contains(t) {
            return Err(format!("{}: is_msg_req_field({}) is wrong", at, t));
        }
        let grp = want.groups.get(t);
        if dd.is_msg_group(key, *t) != grp.is_some() || dd.get_msg_group(key, *t).is_some() != grp.is_some() {
            return Err(format!("{}: group {} should {}be there", at, t, if grp.is_some() { "" } else { "not " }));
        }
        if let Some(g) = grp {
            let gi = dd.get_msg_group(key, *t).unwrap();
            let here = format!("{} group {}", at, t);
            if !g.order.is_empty() && gi.delimiter() != g.delim() {
                return Err(format!("{}: first field {}, should be {}", here, gi.delimiter(), g.delim()));
            }
            cmp_set(gi.data_dictionary(), key, g, tags, &here, true)?;
        }
    }
    Ok(())
}

const TYPES: &[&str] = &[
    "CHAR", "BOOLEAN", "DATA", "FLOAT", "AMT", "PERCENTAGE", "PRICE", "PRICEOFFSET", "QTY", "INT", "LENGTH",
    "NUMINGROUP", "SEQNUM", "TAGNUM", "STRING", "COUNTRY", "CURRENCY", "EXCHANGE", "LOCALMKTDATE", "MONTHYEAR",
    "MULTIPLEVALUESTRING", "UTCDATE", "UTCTIMEONLY", "UTCTIMESTAMP",
];

fn compare(dd: &DataDictionary, doc: &Doc, rf: &RefDict) -> Result<(), String> {
    let mut tags: Vec<Tag> = doc.fields.iter().map(|f| f.num).collect();
    tags.push(4999);
    cmp_set(dd, "header", &rf.header, &tags, "header", false)?;
    cmp_set(dd, "trailer", &rf.trailer, &tags, "trailer", false)?;
    for (t, s) in &rf.msgs {
        cmp_set(dd, t, s, &tags, &format!("message {}", t), false)?;
    }
    cmp_set(dd, "no such message", &RefSet::default(), &tags, "undefined message", false)?;
    for t in &tags {
        if dd.is_header_field(*t) != rf.header.has(*t) || dd.is_trailer_field(*t) != rf.trailer.has(*t) {
            return Err(format!("field {} is not in the right one of header and trailer", t));
        }
    }
    for fd in &doc.fields {
        let got = dd.get_field_type(fd.num).map(|t| t.to_string());
        let want = if TYPES.contains(&fd.typ.as_str()) { fd.typ.as_str() } else { "UNKNOWN" };
        if got.as_deref() != Some(want) {
            return Err(format!("field {} has type {:?}, should have {}", fd.num, got, want));
        }
        let mut got: Vec<String> = dd.get_field_values(fd.num).map(|s| s.iter().cloned().collect()).unwrap_or_default();
        got.sort();
        let mut want = fd.values.clone();
        want.sort();
        if got != want {
            return Err(format!("field {} allows {:?}, should allow {:?}", fd.num, got, want));
        }
    }
    if dd.get_field_type(4999).is_some() || dd.get_field_values(4999).is_some() {
        return Err("an undefined field has a type".into());
    }
    Ok(())
}

fn load_and_compare(doc: &Doc, xml: &str) -> Result<(), String> {
    let rf = expand(doc);
    guard(|| match DataDictionary::from_str(xml) {
        Err(e) => Err(format!("valid dictionary is refused: {}", e)),
        Ok(dd) => compare(&dd, doc, &rf),
    })
    .unwrap_or_else(|p| Err(format!("panics: {}", p)))
}

// ------------------------------------------------------------------ all forests
/// Structure of a message before names are given.
#[derive(Clone, Debug)]
enum S {
    F(bool),
    G(bool, Vec<S>),
    C(bool, Vec<S>),
    Again(bool), // the first component once more
}
/// Calls f for every forest of exactly n nodes.
fn forests(n: usize, f: &mut dyn FnMut(&[S])) {
    fn rest(left: usize, cur: &mut Vec<S>, f: &mut dyn FnMut(&[S])) {
        if left == 0 {
            f(cur);
            return;
        }
        for r in [false, true] {
            cur.push(S::F(r));
            rest(left - 1, cur, f);
            cur.pop();
            cur.push(S::Again(r));
            rest(left - 1, cur, f);
            cur.pop();
        }
        for kids in 0..left {
            let mut list: Vec<Vec<S>> = vec![];
            forests(kids, &mut |k| list.push(k.to_vec()));
            for k in list {
                for r in [false, true] {
                    cur.push(S::G(r, k.clone()));
                    rest(left - 1 - kids, cur, f);
                    cur.pop();
                    cur.push(S::C(r, k.clone()));
                    rest(left - 1 - kids, cur, f);
                    cur.pop();
                }
            }
        }
    }
    rest(n, &mut vec![], f);
}

/// Gives names to a forest: a document with it in message A (or header, or trailer), the components
/// used once more with the other flag in message B. None: not a valid document.
fn name_it(s: &[S], place: usize) -> Option<Doc> {
    struct N {
        next: u32,
        comps: Vec<(String, Vec<Node>)>,
        top: Vec<(String, bool)>, // components not inside of components
        again: bool,
    }
    fn go(n: &mut N, s: &[S], in_comp: bool) -> Vec<Node> {
        s.iter()
            .map(|x| match x {
                S::F(r) => {
                    n.next += 1;
                    Node::Field(format!("F{}", n.next), *r)
                }
                S::G(r, k) => {
                    n.next += 1;
                    let name = format!("F{}", n.next);
                    Node::Group(name, *r, go(n, k, in_comp))
                }
                S::C(r, k) => {
                    let name = format!("C{}", n.comps.len());
                    n.comps.push((name.clone(), vec![]));
                    let at = n.comps.len() - 1;
                    if !in_comp {
                        n.top.push((name.clone(), *r));
                    }
                    let nodes = go(n, k, true);
                    n.comps[at].1 = nodes;
                    Node::Comp(name, *r)
                }
                S::Again(r) => {
                    n.again = true;
                    Node::Comp("C0".into(), *r)
                }
            })
            .collect()
    }
    let mut n = N { next: 100, comps: vec![], top: vec![], again: false };
    let nodes = go(&mut n, s, false);
    if n.again && (n.comps.is_empty() || cyclic(&n.comps)) {
        return None;
    }
    let b: Vec<Node> = n.top.iter().map(|(c, r)| Node::Comp(c.clone(), !*r)).collect();
    let mut d = doc(vec![], vec![], vec![]);
    d.comps = n.comps;
    let mut a_nodes = vec![];
    match place {
        0 => a_nodes = nodes,
        1 => d.header.extend(nodes),
        _ => d.trailer.extend(nodes),
    }
    for (t, k) in [("A", a_nodes), ("B", b)] {
        d.msgs.push(MsgDef { name: format!("M{}", t), typ: t.into(), cat: "app".into(), nodes: k });
    }
    for i in 101..=n.next {
        d.fields.push(FieldDef { num: i, name: format!("F{}", i), typ: "STRING".into(), values: vec![] });
    }
    // no field twice in a message or group
    let rf = expand(&d);
    fn dup(s: &RefSet) -> bool {
        let u: BTreeSet<_> = s.order.iter().collect();
        u.len() != s.order.len() || s.groups.values().any(dup)
    }
    if dup(&rf.header) || dup(&rf.trailer) || rf.msgs.values().any(dup) {
        return None;
    }
    Some(d)
}
fn cyclic(comps: &[(String, Vec<Node>)]) -> bool {
    fn refs(ns: &[Node], out: &mut Vec<String>) {
        for n in ns {
            match n {
                Node::Comp(c, _) => out.push(c.clone()),
                Node::Group(_, _, k) => refs(k, out),
                _ => {}
            }
        }
    }
    let m: BTreeMap<&str, Vec<String>> = comps
        .iter()
        .map(|(n, k)| {
            let mut o = vec![];
            refs(k, &mut o);
            (n.as_str(), o)
        })
        .collect();
    fn reach(m: &BTreeMap<&str, Vec<String>>, from: &str, to: &str, d: usize) -> bool {
        d > 0 && m.get(from).map_or(false, |v| v.iter().any(|x| x == to || reach(m, x, to, d - 1)))
    }
    m.keys().any(|k| reach(&m, k, k, m.len() + 1))
}

/// The same document with other names for its fields, components, messages and types; names which could
/// be taken for one another. Nothing else of its meaning changes.
const NAMINGS: usize = 6;
fn renamed(d: &Doc, how: usize) -> Doc {
    let fields: Vec<String> = d.fields.iter().map(|f| f.name.clone()).collect();
    let comps: Vec<String> = d.comps.iter().map(|c| c.0.clone()).collect();
    let case = |i: usize| -> String {
        // the same letters, upper and lower case as the bits of i
        "abcdefghij"
            .chars()
            .enumerate()
            .map(|(b, c)| if i >> b & 1 == 1 { c.to_ascii_uppercase() } else { c })
            .collect()
    };
    let new = |i: usize, name: &str, all: &[String], comp: bool| -> String {
        match how {
            0 => case(i),
            1 => "F".repeat(i + 1),
            2 => "F".repeat(all.len() - i),
            // each gets the name of the next
            3 => all[(i + 1) % all.len()].clone(),
            // numbers of other fields, names of sections and elements
            4 => {
                let odd = ["header", "trailer", "fields", "components", "messages", "field", "group", "Y", "N", "name"];
                if i < odd.len() {
                    odd[i].to_string()
                } else if comp {
                    format!("{}", 100 + i)
                } else {
                    format!("{}", d.fields[(i + 1) % d.fields.len()].num)
                }
            }
            _ => format!("{}é {}<&\"'>\u{3b1}", if comp { "c" } else { "f" }, name),
        }
    };
    let fname = |n: &str| -> String {
        let i = fields.iter().position(|x| x == n).unwrap();
        new(i, n, &fields, false)
    };
    let cname = |n: &str| -> String {
        let i = comps.iter().position(|x| x == n).unwrap();
        new(i, n, &comps, true)
    };
    fn nodes(ns: &[Node], fname: &dyn Fn(&str) -> String, cname: &dyn Fn(&str) -> String) -> Vec<Node> {
        ns.iter()
            .map(|n| match n {
                Node::Field(s, r) => Node::Field(fname(s), *r),
                Node::Comp(s, r) => Node::Comp(cname(s), *r),
                Node::Group(s, r, k) => Node::Group(fname(s), *r, nodes(k, fname, cname)),
            })
            .collect()
    }
    let typ = |i: usize, t: &str| -> String {
        match how {
            0 => case(i),
            1 => "A".repeat(i + 1),
            4 => ["header", "trailer", "0", "00", "é"].get(i).map(|s| s.to_string()).unwrap_or(t.to_string()),
            _ => t.to_string(),
        }
    };
    // (types "header" and "trailer" would clash with what the queries call header and trailer)
    let typ = |i: usize, t: &str| -> String { if how == 4 && i < 2 { ["Header", "TRAILER"][i].into() } else { typ(i, t) } };
    Doc {
        fields: d.fields.iter().map(|x| FieldDef { name: fname(&x.name), ..x.clone() }).collect(),
        comps: d.comps.iter().map(|(n, k)| (cname(n), nodes(k, &fname, &cname))).collect(),
        header: nodes(&d.header, &fname, &cname),
        trailer: nodes(&d.trailer, &fname, &cname),
        msgs: d
            .msgs
            .iter()
            .enumerate()
            .map(|(i, m)| MsgDef {
                name: m.name.clone(),
                typ: typ(i, &m.typ),
                cat: m.cat.clone(),
                nodes: nodes(&m.nodes, &fname, &cname),
            })
            .collect(),
    }
}
/// The same document with other numbers for its fields.
fn renumbered(d: &Doc, how: usize) -> Doc {
    let mut r = d.clone();
    let n = r.fields.len() as u32;
    for (i, f) in r.fields.iter_mut().enumerate() {
        let i = i as u32;
        f.num = match how {
            0 => 4000 - i,
            1 => u32::MAX - i,
            2 => (i + n / 2) % n + 1,
            _ => 1 << (i % 31),
        };
    }
    if how == 3 && n > 31 {
        return d.clone();
    }
    // and declared in another order
    if how == 2 {
        r.fields.reverse();
    }
    r
}

fn styles() -> Vec<Style> {
    let mut v = vec![];
    for sections in 0..3 {
        for spaced in [false, true] {
            for attr_rev in [false, true] {
                v.push(Style { spaced, attr_rev, sections });
            }
        }
    }
    v
}

pub fn c07(ctx: &Ctx) {
    if let Some(r) = &ctx.replay {
        let b = replay_body(r);
        for l in b.lines() {
            if let Some(x) = l.strip_prefix("xml ") {
                let xml = from_json_str(x);
                // (the document model is read back from the text)
                let d = read_doc(&xml);
                if let Err(e) = load_and_compare(&d, &xml) {
                    ctx.violation(&e, &b);
                }
            }
        }
        return;
    }
    let st12 = styles();
    let one = |d: &Doc, xml: &str, st: &mut Stats| {
        let desc = format!("xml {}", json_str(xml));
        case(&desc);
        st.states += 1;
        st.traces += 1;
        if let Err(e) = load_and_compare(d, xml) {
            ctx.violation(&e, &desc);
        }
    };
    let nmax = ctx.pick(5, 6);
    let mut work: Vec<Vec<S>> = vec![];
    for n in 0..=nmax {
        forests(n, &mut |s| work.push(s.to_vec()));
    }
    let chunks: Vec<(usize, &[S])> = work.iter().map(|s| s.as_slice()).enumerate().collect();
    let chunks: Vec<&[(usize, &[S])]> = chunks.chunks(500).collect();
    fn size(s: &[S]) -> usize {
        s.iter()
            .map(|x| match x {
                S::G(_, k) | S::C(_, k) => 1 + size(k),
                _ => 1,
            })
            .sum()
    }
    par(&chunks, |ch| {
        let mut st = Stats::default();
        for (i, s) in ch.iter() {
            let n = size(s);
            for place in 0..if n < nmax { 3 } else { 1 } {
                let d = match name_it(s, place) {
                    Some(d) => d,
                    None => {
                        st.count("structures that are not valid documents");
                        continue;
                    }
                };
                st.count("documents");
                st.trans += 1;
                if n <= 3 {
                    for x in &st12 {
                        one(&d, &render(&d, *x), &mut st);
                    }
                } else {
                    one(&d, &render(&d, st12[i % 12]), &mut st);
                }
            }
        }
        st.flush(ctx);
    });
    let mut st = Stats::default();
    // every field type, alone and next to every other, with every small set of values
    let vals: Vec<Vec<&str>> =
        vec![vec![], vec!["1"], vec!["A", "a"], vec!["1", "2", "10", "é", "<&\"'>", " ", "0"], vec!["N", "Y"]];
    let mut types: Vec<&str> = TYPES.to_vec();
    types.extend(["MYTYPE", "string", "UTCDATEONLY", "NUMINGROUPS"]);
    for a in &types {
        for b in &types {
            for (vi, va) in vals.iter().enumerate() {
                let mut d = doc(vec![], vec![], vec![("A", vec![f(1), f(2), f(4294967295)])]);
                for fd in d.fields.iter_mut() {
                    if fd.num == 1 {
                        fd.typ = a.to_string();
                        fd.values = va.iter().map(|s| s.to_string()).collect();
                    }
                    if fd.num == 2 {
                        fd.typ = b.to_string();
                        fd.values = vals[(vi + 1) % vals.len()].iter().map(|s| s.to_string()).collect();
                    }
                }
                one(&d, &render(&d, st12[vi % 12]), &mut st);
            }
        }
    }
    // every two short strings as values, names of fields, of components and of messages, and as types of messages
    let mut words: Vec<String> = vec![String::new()];
    let mut all: Vec<String> = vec![];
    for _ in 0..3 {
        words = words.iter().flat_map(|w| ["a", "A", "0", " "].map(|c| format!("{}{}", w, c))).collect();
        all.extend(words.clone());
    }
    for a in &all {
        for b in &all {
            if a == b {
                continue;
            }
            let mut d = doc(
                vec![],
                vec![("C1", vec![f(4)]), ("C2", vec![f(5)])],
                vec![("A", vec![f(1), f(2), c("C1")]), ("B", vec![f(2), f(3), c("C2")])],
            );
            d.fields.iter_mut().find(|x| x.num == 1).unwrap().values = vec![a.clone(), b.clone()];
            let swap = |n: &str| match n {
                "F2" => a.clone(),
                "F3" => b.clone(),
                "C1" => a.clone(),
                "C2" => b.clone(),
                o => o.to_string(),
            };
            for x in d.fields.iter_mut() {
                x.name = swap(&x.name);
            }
            for x in d.comps.iter_mut() {
                x.0 = swap(&x.0);
            }
            for (m, w) in d.msgs.iter_mut().zip([a, b]) {
                m.name = w.clone();
                m.typ = w.clone();
                for n in m.nodes.iter_mut() {
                    match n {
                        Node::Field(s, _) | Node::Comp(s, _) => *s = swap(s),
                        _ => {}
                    }
                }
            }
            one(&d, &render(&d, Style::default()), &mut st);
        }
    }
    // names and numbers which could be taken for others
    let mut docs: Vec<Doc> = all_minis().into_iter().map(|s| s.doc).collect();
    docs.extend(bases());
    docs.push(read_doc(&std::fs::read_to_string(fix43_path()).expect("FIX43.xml")));
    for d in &docs {
        for how in 0..NAMINGS {
            let r = renamed(d, how);
            for k in 0..5 {
                let r = if k == 4 { r.clone() } else { renumbered(&r, k) };
                one(&r, &render(&r, st12[(how + k) % 12]), &mut st);
            }
        }
        for k in 0..4 {
            let r = renumbered(d, k);
            one(&r, &render(&r, Style::default()), &mut st);
        }
    }
    // every small set of required flags is in the forests; many messages
    for s in all_minis() {
        for x in &st12 {
            one(&s.doc, &render(&s.doc, *x), &mut st);
        }
    }
    // the shipped dictionary, as it is and rewritten
    let xml = std::fs::read_to_string(fix43_path()).expect("FIX43.xml");
    let d = read_doc(&xml);
    one(&d, &xml, &mut st);
    for x in &st12 {
        one(&d, &render(&d, *x), &mut st);
    }
    let rf = expand(&d);
    match guard(|| compare(&DataDictionary::from_xml(fix43_path()), &d, &rf)) {
        Ok(Ok(())) => {}
        Ok(Err(e)) | Err(e) => ctx.violation(&format!("from_xml: {}", e), &format!("xml {}", json_str(&xml))),
    }
    // each message of the shipped dictionary alone
    for m in &d.msgs {
        let mut one_msg = d.clone();
        one_msg.msgs = vec![m.clone()];
        let x = render(&one_msg, Style::default());
        one(&one_msg, &x, &mut st);
    }
    st.flush(ctx);
    ctx.note("nodes", nmax.to_string());
    ctx.note("exhaustive", "true".into());
    if let Some(d) = name_it(&[S::C(true, vec![S::G(false, vec![S::F(true)])]), S::F(false)], 0) {
        ctx.sample(render(&d, Style::default()));
    }
    ctx.note_str("bounds", "all forests of fields, groups, components and component reuse up to `nodes` nodes with all required flags, in a message (and in header and trailer below the largest size), 12 ways of writing; all pairs of field types; FIX43.xml; six ways of naming (differing in case, prefixes of each other, exchanged, markup) times five of numbering");
}

// ------------------------------------------------------------------ C08
#[derive(Clone, Debug)]
struct E {
    name: String,
    attrs: Vec<(String, String)>,
    kids: Vec<E>,
}
fn tree(n: roxmltree::Node) -> E {
    E {
        name: n.tag_name().name().to_string(),
        attrs: n.attributes().iter().map(|a| (a.name().to_string(), a.value().to_string())).collect(),
        kids: n.children().filter(|c| c.is_element()).map(tree).collect(),
    }
}
fn write(e: &E, out: &mut String) {
    out.push('<');
    out.push_str(&e.name);
    for (k, v) in &e.attrs {
        out.push_str(&format!(" {}=\"{}\"", k, esc(v)));
    }
    out.push('>');
    for k in &e.kids {
        write(k, out);
    }
    out.push_str(&format!("</{}>", e.name));
}
fn paths(e: &E, at: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
    out.push(at.clone());
    for (i, k) in e.kids.iter().enumerate() {
        at.push(i);
        paths(k, at, out);
        at.pop();
    }
}
fn at<'a>(e: &'a E, p: &[usize]) -> &'a E {
    p.iter().fold(e, |x, i| &x.kids[*i])
}
fn at_mut<'a>(e: &'a mut E, p: &[usize]) -> &'a mut E {
    p.iter().fold(e, |x, i| &mut x.kids[*i])
}
fn txt(e: &E) -> String {
    let mut s = String::new();
    write(e, &mut s);
    s
}
fn elem(name: &str, attrs: &[(&str, &str)]) -> E {
    E {
        name: name.into(),
        attrs: attrs.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect(),
        kids: vec![],
    }
}

fn bases() -> Vec<Doc> {
    let mut v = vec![
        doc(vec![f(34)], vec![], vec![("A", vec![f(1)])]),
        doc(
            vec![f(34), g(627, vec![f(628), c("X")])],
            vec![
                ("X", vec![f(102), g(200, vec![f(201), c("Y")]), f(103)]),
                ("Y", vec![f(301), g(300, vec![f(302), f(303)])]),
            ],
            vec![
                ("A", vec![f(1), g(100, vec![f(101), c("X"), g(110, vec![f(111)])]), f(2)]),
                ("B", vec![c("X"), f(1)]),
            ],
        ),
        doc(vec![], vec![("X", vec![f(5), c("Y")]), ("Y", vec![f(6)])], vec![("A", vec![c("X")]), ("B", vec![c("Y")])]),
    ];
    v[1].trailer.insert(0, c("Z"));
    v[1].comps.push(("Z".into(), vec![f(94)]));
    v[1].fields.push(FieldDef { num: 94, name: "F94".into(), typ: "STRING".into(), values: vec![] });
    v[1].fields[3].values = vec!["1".into(), "2".into(), "3".into()];
    v
}

/// The dictionary with one of its messages only, and what that one needs (header and trailer whole in the
/// first, else only what is mandatory).
fn alone(big: &Doc, i: usize) -> Doc {
    let mut d = big.clone();
    d.msgs = vec![big.msgs[i].clone()];
    if i > 0 {
        d.header.retain(|n| matches!(n, Node::Field(f, true) if f != "MsgSeqNum"));
        d.trailer.retain(|n| matches!(n, Node::Field(_, true)));
    }
    let (mut comps, mut fields) = (BTreeSet::new(), BTreeSet::new());
    fn uses(ns: &[Node], d: &Doc, comps: &mut BTreeSet<String>, fields: &mut BTreeSet<String>) {
        for n in ns {
            match n {
                Node::Comp(c, _) => {
                    if comps.insert(c.clone()) {
                        uses(&d.comps.iter().find(|x| x.0 == *c).unwrap().1, d, comps, fields)
                    }
                }
                Node::Group(f, _, k) => {
                    fields.insert(f.clone());
                    uses(k, d, comps, fields)
                }
                Node::Field(f, _) => {
                    fields.insert(f.clone());
                }
            }
        }
    }
    for ns in [&d.header, &d.trailer, &d.msgs[0].nodes] {
        uses(ns, &d, &mut comps, &mut fields);
    }
    d.comps.retain(|c| comps.contains(&c.0));
    d.fields.retain(|f| fields.contains(&f.name));
    for f in d.fields.iter_mut() {
        f.values.truncate(3);
    }
    d
}

/// (what is wrong, document)
fn defects(base: &Doc) -> Vec<(String, String)> {
    let xml = render(base, Style::default());
    let d = roxmltree::Document::parse(&xml).unwrap();
    let root = tree(d.root_element());
    let mut ps = vec![];
    paths(&root, &mut vec![], &mut ps);
    let mut out = vec![];
    let sections = ["header", "trailer", "messages", "components", "fields"];
    let fields_at = root.kids.iter().position(|k| k.name == "fields").unwrap();
    let msgs_at = root.kids.iter().position(|k| k.name == "messages").unwrap();
    let comps_at = root.kids.iter().position(|k| k.name == "components").unwrap();
    for (i, k) in root.kids.iter().enumerate() {
        let mut r = root.clone();
        r.kids.remove(i);
        out.push((format!("no section {}", k.name), txt(&r)));
        let mut r = root.clone();
        r.kids[i].name = "other".into();
        out.push((format!("section {} has another name", k.name), txt(&r)));
    }
    let _ = sections;
    for p in &ps {
        let e = at(&root, p);
        let mandatory: &[&str] = if p.is_empty() {
            &["type", "major", "minor"]
        } else if p[0] == fields_at {
            match p.len() {
                2 => &["number", "name", "type"],
                3 => &["enum"],
                _ => &[],
            }
        } else if p[0] == msgs_at && p.len() == 2 {
            &["name", "msgtype", "msgcat"]
        } else if p[0] == comps_at && p.len() == 2 {
            &["name"]
        } else if p.len() >= 2 {
            &["name", "required"]
        } else {
            &[]
        };
        for a in mandatory {
            let mut r = root.clone();
            at_mut(&mut r, p).attrs.retain(|x| x.0 != *a);
            out.push((format!("{} without {}", e.name, a), txt(&r)));
            let mut r = root.clone();
            at_mut(&mut r, p).attrs.iter_mut().for_each(|x| {
                if x.0 == *a {
                    x.1 = String::new()
                }
            });
            out.push((format!("{} with empty {}", e.name, a), txt(&r)));
        }
        // references
        let in_list = p.len() >= 2 && p[0] != fields_at && !(p.len() == 2 && (p[0] == msgs_at || p[0] == comps_at));
        if in_list {
            for to in ["Nope", "F", " F1", "f1"] {
                let mut r = root.clone();
                at_mut(&mut r, p).attrs.iter_mut().for_each(|x| {
                    if x.0 == "name" {
                        x.1 = to.into()
                    }
                });
                out.push((format!("{} refers to undefined {:?}", e.name, to), txt(&r)));
            }
            // a component name used as a field and the other way round
            let mut r = root.clone();
            let x = at_mut(&mut r, p);
            x.name = if x.name == "component" { "field".into() } else { "component".into() };
            x.kids.clear();
            out.push((format!("{} turned into another kind of reference", e.name), txt(&r)));
            let mut r = root.clone();
            at_mut(&mut r, p).name = "fieldx".into();
            out.push((format!("{} is an unknown element", e.name), txt(&r)));
        }
        // containers of members: unknown element and repeated members
        let container = (p.len() == 1 && (e.name == "header" || e.name == "trailer"))
            || (p.len() == 2 && (p[0] == msgs_at || p[0] == comps_at))
            || (in_list && e.name == "group");
        if container {
            for i in 0..=e.kids.len() {
                let mut r = root.clone();
                at_mut(&mut r, p).kids.insert(i, elem("value", &[("name", "F1"), ("required", "N")]));
                out.push((format!("unknown element in {}", e.name), txt(&r)));
            }
            for i in 0..e.kids.len() {
                if e.kids[i].name == "component" && empty_component(base, &e.kids[i]) {
                    continue;
                }
                for to in 0..=e.kids.len() {
                    let mut r = root.clone();
                    let copy = e.kids[i].clone();
                    at_mut(&mut r, p).kids.insert(to, copy);
                    out.push((format!("{} of {} twice", e.kids[i].name, e.name), txt(&r)));
                }
                // the same field once as plain field and once in its component or as a group
                if e.kids[i].name == "group" {
                    let mut r = root.clone();
                    let n = e.kids[i].attrs.iter().find(|a| a.0 == "name").unwrap().1.clone();
                    at_mut(&mut r, p).kids.push(elem("field", &[("name", &n), ("required", "N")]));
                    out.push((format!("group of {} once more as a field", e.name), txt(&r)));
                }
                if e.kids[i].name == "component" {
                    for n in first_fields(base, &e.kids[i].attrs.iter().find(|a| a.0 == "name").unwrap().1) {
                        for to in [0, e.kids.len()] {
                            let mut r = root.clone();
                            at_mut(&mut r, p).kids.insert(to, elem("field", &[("name", &n), ("required", "Y")]));
                            out.push((format!("field of a component of {} once more", e.name), txt(&r)));
                        }
                    }
                }
            }
        }
        if p.len() == 2 && p[0] == fields_at {
            for n in ["x", "-1", "1.5", "4294967296", " 1", "1 ", "0x1", "1a", "99999999999999999999", "é"] {
                let mut r = root.clone();
                at_mut(&mut r, p).attrs.iter_mut().for_each(|x| {
                    if x.0 == "number" {
                        x.1 = n.into()
                    }
                });
                out.push((format!("field number {:?}", n), txt(&r)));
            }
            for (a, fresh) in [("name", ("number", "4000")), ("number", ("name", "Fresh")), ("", ("", ""))] {
                let _ = a;
                let mut copy = e.clone();
                copy.kids.clear();
                copy.attrs.iter_mut().for_each(|x| {
                    if x.0 == fresh.0 {
                        x.1 = fresh.1.into()
                    }
                });
                for to in [0, p[1] + 1, root.kids[fields_at].kids.len()] {
                    let mut r = root.clone();
                    r.kids[fields_at].kids.insert(to, copy.clone());
                    out.push(("field declared twice".into(), txt(&r)));
                }
            }
        }
        if p.len() == 3 && p[0] == fields_at {
            let n = at(&root, &p[..2]).kids.len();
            for to in 0..=n {
                let mut r = root.clone();
                at_mut(&mut r, &p[..2]).kids.insert(to, e.clone());
                out.push(("field value declared twice".into(), txt(&r)));
            }
        }
        if p.len() == 2 && p[0] == msgs_at {
            for fresh in [("name", "Fresh"), ("msgtype", "Fresh"), ("", "")] {
                for empty in [true, false] {
                    let mut copy = e.clone();
                    if empty {
                        copy.kids.clear();
                    }
                    copy.attrs.iter_mut().for_each(|x| {
                        if x.0 == fresh.0 {
                            x.1 = fresh.1.into()
                        }
                    });
                    for to in 0..=root.kids[msgs_at].kids.len() {
                        let mut r = root.clone();
                        r.kids[msgs_at].kids.insert(to, copy.clone());
                        out.push(("message declared twice".into(), txt(&r)));
                    }
                }
            }
        }
        if p.len() == 2 && p[0] == comps_at {
            // the component is not defined
            let mut r = root.clone();
            r.kids[comps_at].kids.remove(p[1]);
            out.push(("undefined component".into(), txt(&r)));
        }
    }
    out
}
fn first_fields(d: &Doc, comp: &str) -> Vec<String> {
    let mut v = vec![];
    if let Some((_, k)) = d.comps.iter().find(|x| x.0 == comp) {
        for n in k {
            match n {
                Node::Field(s, _) | Node::Group(s, _, _) => v.push(s.clone()),
                Node::Comp(s, _) => v.extend(first_fields(d, s)),
            }
        }
    }
    v
}
fn empty_component(d: &Doc, e: &E) -> bool {
    first_fields(d, &e.attrs.iter().find(|a| a.0 == "name").unwrap().1).is_empty()
}

/// Documents with components that include themselves: every graph of includes over up to three
/// components which has a cycle, includes placed directly or inside of a group, used or not.
fn cycles(max: usize, acyclic: bool) -> Vec<(String, String)> {
    let mut out = vec![];
    for n in 1..=max {
        for bits in 0u32..(1 << (n * n)) {
            let has = |a: usize, b: usize| bits & (1 << (a * n + b)) != 0;
            for grouped in 0..2usize {
                for used in 0..if n < 3 { 5 } else { 2 } {
                    let comps: Vec<(String, Vec<Node>)> = (0..n)
                        .map(|a| {
                            let mut k = vec![f(50 + a as u32)];
                            let inc: Vec<Node> =
                                (0..n).filter(|b| has(a, *b)).map(|b| Node::Comp(format!("C{}", b), true)).collect();
                            if grouped == 1 && !inc.is_empty() {
                                let mut gk = vec![f(60 + a as u32)];
                                gk.extend(inc);
                                k.push(g(70 + a as u32, gk));
                            } else {
                                k.extend(inc);
                            }
                            (format!("C{}", a), k)
                        })
                        .collect();
                    if cyclic(&comps) == acyclic {
                        continue;
                    }
                    let mut d = doc(
                        vec![],
                        vec![],
                        vec![("A", vec![f(1)])],
                    );
                    for i in (50..53).chain(60..63).chain(70..73) {
                        d.fields.push(FieldDef { num: i, name: format!("F{}", i), typ: "STRING".into(), values: vec![] });
                    }
                    d.comps = comps;
                    let u = Node::Comp("C0".into(), false);
                    match used {
                        0 => d.msgs[0].nodes.push(u),
                        1 => {}
                        2 => d.header.push(u),
                        3 => d.trailer.push(u),
                        _ => {
                            d.fields.push(FieldDef { num: 80, name: "F80".into(), typ: "INT".into(), values: vec![] });
                            d.msgs[0].nodes.push(Node::Group("F80".into(), true, vec![u]))
                        }
                    }
                    out.push(("a component includes itself".to_string(), render(&d, Style::default())));
                }
            }
        }
    }
    out
}

/// Components that include each other more than once, level by level: following every path would take forever.
fn shared_components(quick: bool) -> Vec<(String, String)> {
    let mut out = vec![];
    let levels: Vec<usize> = if quick { vec![1, 2, 3, 5, 8, 20, 30, 60, 98] } else { (1..=98).collect() };
    for n in levels {
        for times in [2usize, 3] {
            for how in 0..4usize {
                // how the levels are joined: directly, with a field, through another component, in groups
                let mut comps: Vec<(String, Vec<Node>)> = vec![];
                let mut d = doc(vec![], vec![], vec![("A", vec![f(1)])]);
                let num = |d: &mut Doc, i: u32| {
                    d.fields.push(FieldDef { num: i, name: format!("F{}", i), typ: "STRING".into(), values: vec![] });
                    f(i)
                };
                for l in 0..n {
                    let next = Node::Comp(format!("C{}", l + 1), true);
                    let mut k = vec![];
                    if how == 1 {
                        k.push(num(&mut d, 1000 + l as u32));
                    }
                    for t in 0..times {
                        match how {
                            2 => {
                                k.push(Node::Comp(format!("D{}x{}", l, t), true));
                                comps.push((format!("D{}x{}", l, t), vec![next.clone()]));
                            }
                            3 => {
                                let (a, b) = (2000 + (l * 8 + t) as u32, 3000 + (l * 8 + t) as u32);
                                num(&mut d, a);
                                let first = num(&mut d, b);
                                k.push(g(a, vec![first, next.clone()]));
                            }
                            _ => k.push(next.clone()),
                        }
                    }
                    comps.push((format!("C{}", l), k));
                }
                for defect in 0..3usize {
                    if defect == 0 && how == 3 {
                        continue; // (each group has its own: nothing comes twice)
                    }
                    let mut d = d.clone();
                    d.comps = comps.clone();
                    let last = num(&mut d, 900);
                    d.comps.push((format!("C{}", n), vec![last]));
                    let what = match defect {
                        // the last component's field comes twice in the message
                        0 => {
                            d.msgs[0].nodes.push(Node::Comp("C0".into(), true));
                            "a field comes twice through shared components"
                        }
                        // the components are not used, something else is wrong
                        1 => {
                            d.msgs[0].nodes.push(Node::Comp("Nowhere".into(), true));
                            "a component is not defined, others are shared"
                        }
                        _ => {
                            d.comps.last_mut().unwrap().1.push(Node::Comp("C0".into(), true));
                            "shared components include themselves"
                        }
                    };
                    out.push((format!("{} ({} levels)", what, n), render(&d, Style::default())));
                }
            }
        }
    }
    out
}

/// Child process: loads the documents of a file (separated by NUL), prints a line for each.
pub fn child(args: &[String]) {
    let text = std::fs::read_to_string(&args[0]).expect("documents");
    let from: usize = args.get(1).and_then(|s| s.parse().ok()).unwrap_or(0);
    for (i, x) in text.split('\0').enumerate().skip(from) {
        say(&format!("start {}", i));
        let r = guard(|| DataDictionary::from_str(x).is_err());
        say(&match r {
            Ok(true) => format!("refused {}", i),
            Ok(false) => format!("accepted {}", i),
            Err(p) => format!("panic {} {}", i, p.replace('\n', " ")),
        });
    }
    say("end");
}

/// Loads documents in a child process: a crash of the process is a result, too.
fn in_child(ctx: &Ctx, docs: &[(String, String)], tag: &str) {
    let dir = std::env::temp_dir().join(format!("fixrs-c08-{}-{}", std::process::id(), tag));
    std::fs::create_dir_all(&dir).unwrap();
    let file = dir.join("docs");
    let mut f = std::fs::File::create(&file).unwrap();
    f.write_all(docs.iter().map(|d| d.1.as_str()).collect::<Vec<_>>().join("\0").as_bytes()).unwrap();
    drop(f);
    let out = std::process::Command::new(std::env::current_exe().unwrap())
        .arg("child")
        .arg(&file)
        .stdin(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .output()
        .expect("child process");
    let _ = std::fs::remove_dir_all(&dir);
    let s = String::from_utf8_lossy(&out.stdout).to_string();
    let mut open = None;
    let mut ended = false;
    for l in s.lines() {
        let mut w = l.splitn(3, ' ');
        let (kind, i) = (w.next().unwrap(), w.next().and_then(|x| x.parse::<usize>().ok()));
        match kind {
            "start" => open = i,
            "refused" => open = None,
            "accepted" => ctx.violation(
                &format!("accepted, but {}", docs[i.unwrap()].0),
                &format!("xml {}", json_str(&docs[i.unwrap()].1)),
            ),
            "panic" => ctx.violation(
                &format!("panics ({}): {}", docs[i.unwrap()].0, l),
                &format!("xml {}", json_str(&docs[i.unwrap()].1)),
            ),
            "end" => ended = true,
            _ => {}
        }
    }
    if let Some(i) = open {
        ctx.violation(
            &format!("loading ends the process ({:?}), {}", out.status, docs[i].0),
            &format!("xml {}", json_str(&docs[i].1)),
        );
    }
    if !ended {
        eprintln!("child process gave no answer: {:?}", out.status);
        std::process::exit(3);
    }
}

pub fn c08(ctx: &Ctx) {
    if let Some(r) = &ctx.replay {
        let b = replay_body(r);
        for l in b.lines() {
            if let Some(x) = l.strip_prefix("xml ") {
                in_child(ctx, &[("replayed".into(), from_json_str(x))], "r");
            }
        }
        return;
    }
    let refused = |what: &str, xml: &str, st: &mut Stats| {
        let desc = format!("xml {}", json_str(xml));
        case(&desc);
        st.states += 1;
        st.trans += 1;
        st.traces += 1;
        match guard(|| DataDictionary::from_str(xml).is_err()) {
            Ok(true) => {}
            Ok(false) => ctx.violation(&format!("accepted, but {}", what), &desc),
            Err(p) => ctx.violation(&format!("panics ({}): {}", what, p), &desc),
        }
    };
    // cycles first: in other processes, since they may end them
    let cy = cycles(3, false);
    let parts: Vec<(usize, &[(String, String)])> = cy.chunks(cy.len() / 8 + 1).enumerate().collect();
    par(&parts, |(i, d)| in_child(ctx, d, &i.to_string()));
    ctx.add(cy.len() as u64, cy.len() as u64, cy.len() as u64);
    ctx.add_outcomes(&[("cyclic".to_string(), cy.len() as u64)].into_iter().collect());
    // (the same documents without a cycle are accepted unless they use a component twice: the cycle is
    // the only thing wrong with the ones above)
    let good = cycles(3, true).iter().filter(|d| guard(|| DataDictionary::from_str(&d.1).is_ok()).unwrap_or(false)).count();
    ctx.note("acyclic_counterparts_accepted", good.to_string());
    let many = shared_components(ctx.quick());
    par(&many, |(what, xml)| {
        let mut st = Stats::default();
        refused(what, xml, &mut st);
        st.count("shared components");
        st.flush(ctx);
    });
    let mut ds: Vec<Doc> = bases();
    ds.extend(all_minis().into_iter().filter(|s| s.name != "components").map(|s| s.doc));
    let mut work: Vec<(String, String)> = vec![];
    for d in &ds {
        let ok = guard(|| DataDictionary::from_str(&render(d, Style::default())).is_ok()).unwrap_or(false);
        if !ok {
            continue; // (that a valid document is refused is C07's business)
        }
        work.extend(defects(d));
    }
    let mut kinds: BTreeMap<String, u64> = BTreeMap::new();
    for (w, _) in &work {
        *kinds.entry(w.clone()).or_insert(0) += 1;
    }
    ctx.add_outcomes(&kinds);
    par(&work, |(what, xml)| {
        let mut st = Stats::default();
        refused(what, xml, &mut st);
        st.flush(ctx);
    });
    // every defect at every place of each message of the shipped dictionary, with what it uses
    let big = read_doc(&std::fs::read_to_string(fix43_path()).expect("FIX43.xml"));
    let which: Vec<usize> = (0..big.msgs.len()).collect();
    par(&which, |i| {
        let mut st = Stats::default();
        let d = alone(&big, *i);
        let ok = guard(|| DataDictionary::from_str(&render(&d, Style::default())).is_ok()).unwrap_or(false);
        if ok {
            for (what, xml) in defects(&d) {
                refused(&what, &xml, &mut st);
                st.count(&format!("message of FIX43: {}", what));
            }
        }
        st.flush(ctx);
    });
    // texts that are no XML: every prefix, every character removed, doubled or replaced
    let mut texts: Vec<String> = vec![String::new(), " ".into(), "<fix/>".into(), "<fix".into(), "x".into()];
    for d in &bases() {
        let x = render(d, Style { spaced: false, attr_rev: true, sections: 0 });
        let b: Vec<char> = x.chars().collect();
        for i in 0..b.len() {
            texts.push(b[..i].iter().collect());
            texts.push(b[i + 1..].iter().collect());
            for r in ["", "<", ">", "'", "&", "/", "x", "\0", "é"] {
                texts.push(format!("{}{}{}", b[..i].iter().collect::<String>(), r, b[i + 1..].iter().collect::<String>()));
                if !ctx.quick() {
                    texts.push(format!("{}{}{}", b[..i].iter().collect::<String>(), r, b[i..].iter().collect::<String>()));
                }
            }
        }
    }
    let ch: Vec<&[String]> = texts.chunks(200).collect();
    par(&ch, |l| {
        let mut st = Stats::default();
        for t in l.iter() {
            if roxmltree::Document::parse(t).is_err() {
                refused("it is not well-formed", t, &mut st);
                st.count("not well-formed");
            } else {
                // whatever it is, it is loaded or refused. (a changed component name may make a cycle,
                // which the bases can not: no component name differs from another in one character
                // without also being undefined or used twice)
                let desc = format!("xml {}", json_str(t));
                case(&desc);
                st.states += 1;
                st.traces += 1;
                if let Err(p) = guard(|| DataDictionary::from_str(t).is_err()) {
                    ctx.violation(&format!("panics: {}", p), &desc);
                }
                st.count("well-formed after all");
            }
        }
        st.flush(ctx);
    });
    ctx.note("exhaustive", "true".into());
    ctx.sample(work[0].1.clone());
    ctx.sample(cy[0].1.clone());
    ctx.note_str("bounds", "every defect kind at every place of the base documents; all include graphs with a cycle over up to three components; every prefix and every one-character change of the base documents");
}
