//! The small dictionaries over which texts and builder sequences are enumerated.
use super::refmodel::*;
use std::str::FromStr;

pub struct Spec {
    pub name: &'static str,
    pub doc: Doc,
    pub xml: String,
    pub rf: RefDict,
    pub dd: crate::data_dictionary::DataDictionary,
}

pub fn f(n: u32) -> Node {
    Node::Field(format!("F{}", n), false)
}
pub fn g(n: u32, k: Vec<Node>) -> Node {
    Node::Group(format!("F{}", n), false, k)
}
pub fn c(n: &str) -> Node {
    Node::Comp(n.to_string(), false)
}

pub fn doc(header: Vec<Node>, comps: Vec<(&str, Vec<Node>)>, msgs: Vec<(&str, Vec<Node>)>) -> Doc {
    doc_with_trailer(header, comps, msgs, vec![])
}
pub fn doc_with_trailer(
    header: Vec<Node>, comps: Vec<(&str, Vec<Node>)>, msgs: Vec<(&str, Vec<Node>)>, trailer: Vec<Node>,
) -> Doc {
    let mut d = Doc {
        header: [8, 9, 35].iter().map(|t| Node::Field(format!("F{}", t), true)).chain(header).collect(),
        trailer: [f(93), f(89)].into_iter().chain(trailer).chain([Node::Field("F10".into(), true)]).collect(),
        comps: comps.into_iter().map(|(n, k)| (n.to_string(), k)).collect(),
        msgs: msgs
            .into_iter()
            .map(|(t, k)| MsgDef { name: format!("M{}", t), typ: t.into(), cat: "app".into(), nodes: k })
            .collect(),
        fields: vec![],
    };
    // declare every field that is used anywhere
    fn names(ns: &[Node], out: &mut Vec<String>) {
        for n in ns {
            match n {
                Node::Field(s, _) => out.push(s.clone()),
                Node::Group(s, _, k) => {
                    out.push(s.clone());
                    names(k, out)
                }
                Node::Comp(..) => {}
            }
        }
    }
    let mut all = vec![];
    names(&d.header, &mut all);
    names(&d.trailer, &mut all);
    for (_, k) in &d.comps {
        names(k, &mut all);
    }
    for m in &d.msgs {
        names(&m.nodes, &mut all);
    }
    let mut nums: Vec<u32> = all.iter().map(|s| s[1..].parse().unwrap()).collect();
    nums.sort();
    nums.dedup();
    d.fields = nums
        .iter()
        .map(|n| FieldDef { num: *n, name: format!("F{}", n), typ: "STRING".into(), values: vec![] })
        .collect();
    d
}

pub fn spec(name: &'static str, doc: Doc) -> Spec {
    let xml = render(&doc, Style::default());
    let rf = expand(&doc);
    let dd = crate::data_dictionary::DataDictionary::from_str(&xml)
        .unwrap_or_else(|e| panic!("dictionary {} is refused: {}", name, e));
    Spec { name, doc, xml, rf, dd }
}

/// The family of small dictionaries: every way groups can be placed and nested that the parser treats
/// differently, each as small as possible.
pub fn minis() -> Vec<(&'static str, Doc)> {
    vec![
        ("flat", doc(vec![f(34), f(49)], vec![], vec![("A", vec![f(1), f(2)])])),
        (
            "header-group",
            doc(vec![f(34), g(627, vec![f(628), f(629)])], vec![], vec![("A", vec![f(1)])]),
        ),
        ("group", doc(vec![f(34)], vec![], vec![("A", vec![f(1), g(100, vec![f(101), f(102), f(103)]), f(2)])])),
        (
            "nested",
            doc(
                vec![],
                vec![],
                vec![("A", vec![g(100, vec![f(101), g(200, vec![f(201), f(202)]), f(103)]), f(2)])],
            ),
        ),
        (
            "delim-is-group",
            doc(vec![], vec![], vec![("A", vec![g(100, vec![g(200, vec![f(201), f(202)]), f(103)]), f(2)])]),
        ),
        (
            "siblings",
            doc(
                vec![],
                vec![],
                vec![("A", vec![g(100, vec![f(101), f(102)]), f(3), g(110, vec![f(111), f(102)])])],
            ),
        ),
        (
            "inner-siblings",
            doc(
                vec![],
                vec![],
                vec![(
                    "A",
                    vec![g(100, vec![f(101), g(200, vec![f(201)]), g(210, vec![f(211)]), f(104)])],
                )],
            ),
        ),
        (
            "deep",
            doc(
                vec![],
                vec![],
                vec![("A", vec![g(100, vec![f(101), g(200, vec![f(201), g(300, vec![f(301), f(302)])])])])],
            ),
        ),
        (
            "components",
            doc(
                vec![],
                vec![("X", vec![f(102), f(103)]), ("Y", vec![g(100, vec![f(101), c("X"), f(104)])]), ("E", vec![])],
                vec![("A", vec![f(1), c("Y"), c("E")]), ("B", vec![c("X"), f(1)])],
            ),
        ),
        (
            "by-type",
            doc(
                vec![],
                vec![],
                vec![
                    ("A", vec![g(100, vec![f(101), f(102)])]),
                    ("B", vec![g(100, vec![f(102), f(101)])]),
                    ("C", vec![f(100), f(101)]),
                ],
            ),
        ),
        (
            "header-nested",
            doc(
                vec![g(627, vec![f(628), g(640, vec![f(641)]), f(629)])],
                vec![],
                vec![("A", vec![f(1), g(100, vec![f(101)])])],
            ),
        ),
        (
            "trailer-group",
            doc_with_trailer(
                vec![f(34)],
                vec![],
                vec![("A", vec![f(1), g(100, vec![f(101)])])],
                vec![g(700, vec![f(701), f(702)])],
            ),
        ),
        (
            "trailer-nested",
            doc_with_trailer(
                vec![],
                vec![],
                vec![("A", vec![f(1)])],
                vec![g(700, vec![f(701), g(710, vec![f(711)]), f(703)])],
            ),
        ),
    ]
}

pub fn mini(name: &str) -> Spec {
    let (n, d) = minis().into_iter().find(|(n, _)| *n == name).unwrap();
    spec(n, d)
}
pub fn all_minis() -> Vec<Spec> {
    minis().into_iter().map(|(n, d)| spec(n, d)).collect()
}

pub fn fix43_path() -> String {
    "resources/FIX43.xml".to_string()
}
pub fn fix43() -> Spec {
    let xml = std::fs::read_to_string(fix43_path()).expect("FIX43.xml");
    let doc = read_doc(&xml);
    let rf = expand(&doc);
    let dd = crate::data_dictionary::DataDictionary::from_str(&xml).expect("FIX43 loads");
    Spec { name: "FIX43", doc, xml, rf, dd }
}

/// All tags a dictionary knows about, in groups too.
pub fn tags_of(s: &RefSet, out: &mut Vec<Tag>) {
    for t in &s.order {
        out.push(*t);
        if let Some(g) = s.groups.get(t) {
            tags_of(g, out);
        }
    }
}
