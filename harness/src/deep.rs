//! Long and deep inputs on the code as cargo builds it by default (no optimisation) and on a thread with
//! the stack Rust gives to threads: an unoptimised recursion per field, instance, line or level ends the
//! process there. The cases run one after another in a child process, the unoptimised build of this program.
use super::kit::*;
use super::refmodel::*;
use super::specs::*;
use crate::data_dictionary::DataDictionary;
use crate::message::{Message, StringField, SOH};
use crate::session::Properties;
use std::str::FromStr;

type Res = Result<(), String>;
type Case = (String, Box<dyn FnOnce() -> Res + Send>);

fn need(ok: bool, what: &str) -> Res {
    if ok {
        Ok(())
    } else {
        Err(what.to_string())
    }
}

/// One text, with what is to come of it.
struct Long {
    name: String,
    spec: &'static str,
    text: String,
    accepted: bool,
    instances: Option<u32>,
    pairs: usize,
}

fn text_of(what: &str, n: usize, ids_last: bool) -> (&'static str, String) {
    let rep = |f: &dyn Fn(usize) -> String| (0..n).map(|i| f(i)).collect::<String>();
    let g = format!("100={}{}", n, SOH);
    let (spec, mid) = match what {
        "unknown fields" => ("flat", rep(&|i| format!("{}=v{}{}", 10_000 + i, i, SOH))),
        "the same field" => ("flat", rep(&|_| format!("1=v{}", SOH))),
        "separators" => ("flat", SOH.to_string().repeat(n)),
        "equal signs" => ("flat", format!("1=v{}{}", "=".repeat(n), SOH)),
        "letters" => ("flat", format!("1=v{}{}", "x".repeat(n), SOH)),
        "no values" => ("flat", rep(&|i| format!("{}{}", 10_000 + i, SOH))),
        "instances" => ("group", g + &rep(&|i| format!("101=v{}{}", i, SOH))),
        "full instances" => ("group", g + &rep(&|i| format!("101=v{}{1}102=b{1}103=c{1}", i, SOH))),
        "one instance more" => ("group", g + &rep(&|_| format!("101=v{}", SOH)) + &format!("101=v{}", SOH)),
        "nested instances" => ("nested", g + &rep(&|i| format!("101=v{}{1}200=1{1}201=a{1}103=c{1}", i, SOH))),
        "instances of an inner group" => {
            ("nested", format!("100=1{0}101=o{0}200={1}{0}", SOH, n) + &rep(&|i| format!("201=v{}{}", i, SOH)))
        }
        _ => ("delim-is-group", g + &rep(&|_| format!("200=1{0}201=a{0}", SOH))),
    };
    let start = format!("8=FIX.4.3{0}9=5{0}35=A{0}", SOH);
    let ids = format!("49=S{0}56=T{0}", SOH);
    let sum = format!("10=000{}", SOH);
    (spec, if ids_last { start + &mid + &ids + &sum } else { start + &ids + &mid + &sum })
}

fn texts(quick: bool) -> Vec<Long> {
    let mut v = vec![];
    for n in if quick { vec![0usize, 1, 10, 1000, 40_000] } else { vec![0, 1, 2, 10, 100, 1000, 10_000, 100_000, 300_000] } {
        for what in [
            "unknown fields",
            "the same field",
            "separators",
            "equal signs",
            "letters",
            "no values",
            "instances",
            "full instances",
            "one instance more",
            "nested instances",
            "instances of an inner group",
            "instances of instances",
        ] {
            for ids_last in [false, true] {
                let (spec, text) = text_of(what, n, ids_last);
                // more than three of them are like three
                let small = text_of(what, n.min(3), ids_last).1;
                let accepted = matches!(meaning(&mini(spec).rf, &small), Outcome::Accept(_));
                let (many, inner) = (what.contains("instances"), what.contains("inner"));
                v.push(Long {
                    name: format!("{} x {}{}", what, n, if ids_last { ", ids last" } else { "" }),
                    spec,
                    pairs: text.matches(SOH).count(),
                    text,
                    accepted,
                    instances: if inner { Some(1) } else { (many && n > 0).then_some(n as u32) },
                });
            }
        }
    }
    v
}

fn text_case(prop: &str, l: Long) -> Case {
    let prop = prop.to_string();
    (
        l.name.clone(),
        Box::new(move || {
            let sp = mini(l.spec);
            match prop.as_str() {
                "C01" => {
                    let _ = Message::from_str(&l.text, &sp.dd).is_ok();
                    let _ = (Message::get_session_id(&l.text), Message::get_reverse_session_id(&l.text));
                    Ok(())
                }
                "C03" => need(Message::from_str(&l.text, &sp.dd).is_ok() == l.accepted, "the verdict is wrong"),
                "C06" => {
                    let (a, b) = (Message::get_session_id(&l.text), Message::get_reverse_session_id(&l.text));
                    need(a.sender_compid() == "S" && a.target_compid() == "T", "the identity is wrong")?;
                    need(b.sender_compid() == "T" && b.target_compid() == "S", "the reverse identity is wrong")
                }
                _ => {
                    let Ok(m) = Message::from_str(&l.text, &sp.dd) else {
                        return Ok(());
                    };
                    if prop == "C02" {
                        let n = [m.header(), m.body(), m.trailer()].iter().map(|p| p.iter().into_iter().count()).sum::<usize>();
                        need(n == l.pairs, "fields are missing or there are too many")?;
                        if let Some(n) = l.instances {
                            need(m.get_group(100).map(|g| g.size()) == Some(n), "the group has another size")?;
                        }
                        return Ok(());
                    }
                    let e = m.to_string();
                    need(e.len() == l.text.len(), "the encoding has another length")?;
                    let again = Message::from_str(&e, &sp.dd).map_err(|x| format!("the encoding is refused: {}", x))?;
                    need(again.to_string() == e, "the encoding is not stable")
                }
            }
        }),
    )
}

fn build_cases(quick: bool) -> Vec<Case> {
    let mut v: Vec<Case> = vec![];
    for n in if quick { vec![0u32, 1, 10, 1000, 50_000] } else { vec![0, 1, 2, 10, 100, 1000, 10_000, 100_000] } {
        for kind in ["fields", "instances", "fields of an instance", "nested instances", "letters"] {
            v.push((
                format!("built with {} {}", n, kind),
                Box::new(move || {
                    let mut m = Message::new();
                    m.header_mut().set_field(StringField::new(8, "FIX.4.3"));
                    m.header_mut().set_field(StringField::new(35, "A"));
                    match kind {
                        "fields" => (0..n).for_each(|i| m.set_field(StringField::new(10_000 + i, "v"))),
                        "instances" => {
                            let g = m.set_group(100, n, 101);
                            (0..n).for_each(|i| g[i as usize].set_field(StringField::new(101, "v")))
                        }
                        "fields of an instance" => {
                            let g = m.set_group(100, 1, 101);
                            g[0].set_field(StringField::new(101, "v"));
                            (0..n).for_each(|i| g[0].set_field(StringField::new(10_000 + i, "v")))
                        }
                        "nested instances" => {
                            let g = m.set_group(100, n, 101);
                            for i in 0..n {
                                g[i as usize].set_field(StringField::new(101, "v"));
                                g[i as usize].set_group(200, 1, 201)[0].set_field(StringField::new(201, "w"));
                            }
                        }
                        _ => m.set_field(StringField::new(58, &"x".repeat(n as usize))),
                    }
                    framed(m)
                }),
            ));
        }
    }
    // so many bytes that their sum has no room in 32 bits
    for (n, c) in [(23_000_000usize, '\u{10FFFF}'), (22_000_000, '\u{10FFFF}')] {
        let n = n / c.len_utf8();
        v.push((
            format!("built with {} {:?}", n, c),
            Box::new(move || {
                let mut m = Message::new();
                m.header_mut().set_field(StringField::new(8, "FIX.4.3"));
                m.header_mut().set_field(StringField::new(35, "A"));
                m.set_field(StringField::new(58, &c.to_string().repeat(n)));
                framed(m)
            }),
        ));
    }
    v
}
fn framed(mut m: Message) -> Res {
    m.set_body_len();
    m.set_checksum();
    let t = m.to_string();
    let a = t.find("\u{1}35=").ok_or("no MsgType")? + 1;
    let b = t.rfind("10=").ok_or("no CheckSum")?;
    let sum: u64 = t[..b].bytes().map(|x| x as u64).sum::<u64>() % 256;
    need(t.contains(&format!("\u{1}9={}\u{1}", b - a)), "the body length is wrong")?;
    need(t[b..] == format!("10={:03}\u{1}", sum), "the checksum is wrong")
}

fn document(comps: &str, message: &str, fields: u32) -> String {
    let f: String = (1..=fields).map(|i| format!("<field number='{0}' name='F{0}' type='STRING'/>", i)).collect();
    format!(
        "<fix type='FIX' major='4' minor='3'><header><field name='F8' required='Y'/><field name='F9' required='Y'/>\
         <field name='F35' required='Y'/></header><messages><message name='A' msgcat='app' msgtype='A'>{}</message>\
         </messages><trailer><field name='F10' required='Y'/></trailer><components>{}</components><fields>{}</fields></fix>",
        message, comps, f
    )
}
fn groups(n: u32, inner: &str) -> String {
    (0..n).map(|i| format!("<group name='F{}' required='N'>", 100 + i)).collect::<String>() + inner + &"</group>".repeat(n as usize)
}
/// Components C0 > C1 > ... with one field each; `last` is inside of the innermost.
fn comps(n: u32, last: &str, in_group: bool) -> String {
    (0..n)
        .map(|i| {
            let inner = if i + 1 < n { format!("<component name='C{}' required='N'/>", i + 1) } else { last.to_string() };
            if in_group {
                format!("<component name='C{0}'><group name='F{1}' required='N'>{2}</group></component>", i, 100 + i, inner)
            } else {
                format!("<component name='C{0}'><field name='F{1}' required='N'/>{2}</component>", i, 100 + i, inner)
            }
        })
        .collect()
}

fn dictionary_cases(prop: &str, quick: bool) -> Vec<Case> {
    let mut v: Vec<Case> = vec![];
    let levels: Vec<u32> = if quick { vec![1, 2, 3, 5, 10, 25, 50, 100] } else { (1..=100).collect() };
    for n in levels {
        let leaf = "<field name='F11' required='N'/>";
        let use_c0 = "<component name='C0' required='N'/>";
        if prop == "C07" {
            v.push((
                format!("{} nested groups", n),
                Box::new(move || {
                    let d = DataDictionary::from_str(&document("", &groups(n, leaf), 300)).map_err(|e| e.to_string())?;
                    let mut at = &d;
                    for i in 0..n {
                        need(at.is_msg_field("A", 100 + i), "a group is missing")?;
                        let g = at.get_msg_group("A", 100 + i).ok_or("a group is missing")?;
                        need(g.delimiter() == if i + 1 < n { 101 + i } else { 11 }, "the first field is wrong")?;
                        at = g.data_dictionary();
                    }
                    need(at.get_ordered_fields() == vec![11], "the innermost group is wrong")
                }),
            ));
            for in_group in [false, true] {
                v.push((
                    format!("{} nested components, {}", n, if in_group { "in groups" } else { "flat" }),
                    Box::new(move || {
                        let d = DataDictionary::from_str(&document(&comps(n, leaf, in_group), use_c0, 300)).map_err(|e| e.to_string())?;
                        if !in_group {
                            let got = d.get_msg_fields("A").map_or(0, |f| f.len());
                            return need(got == n as usize + 1, "fields of components are missing");
                        }
                        let mut at = &d;
                        for i in 0..n {
                            at = at.get_msg_group("A", 100 + i).ok_or("a group is missing")?.data_dictionary();
                        }
                        need(at.get_ordered_fields() == vec![11], "the innermost group is wrong")
                    }),
                ));
            }
            v.push((
                format!("{} fields, values, messages", n * 20),
                Box::new(move || {
                    let k = n * 20;
                    let values: String = (0..k).map(|i| format!("<value enum='{}' description='d'/>", i)).collect();
                    let msgs: String = (0..k)
                        .map(|i| format!("<message name='M{0}' msgcat='app' msgtype='m{0}'><field name='F11' required='Y'/></message>", i))
                        .collect();
                    let all: String = (0..k).map(|i| format!("<field name='F{}' required='N'/>", 100 + i)).collect();
                    let x = document("", &all, k + 200)
                        .replace(
                            "<field number='11' name='F11' type='STRING'/>",
                            &format!("<field number='11' name='F11' type='STRING'>{}</field>", values),
                        )
                        .replace("</messages>", &format!("{}</messages>", msgs));
                    let d = DataDictionary::from_str(&x).map_err(|e| e.to_string())?;
                    need(d.get_msg_fields("A").map_or(0, |f| f.len()) == k as usize, "fields are missing")?;
                    need(d.get_field_values(11).map_or(0, |f| f.len()) == k as usize, "values are missing")?;
                    need((0..k).all(|i| d.is_msg_req_field(&format!("m{}", i), 11)), "messages are missing")
                }),
            ));
        } else {
            for (what, bad) in [
                ("an undefined field", "<field name='Nowhere' required='N'/>"),
                ("an unknown element", "<fild name='F11' required='N'/>"),
                ("an undefined component", "<component name='Nowhere' required='N'/>"),
                ("no name", "<field required='N'/>"),
                ("a field twice", "<field name='F11' required='N'/><field name='F11' required='N'/>"),
            ] {
                let refused = |x: String| need(DataDictionary::from_str(&x).is_err(), "the document is accepted");
                v.push((format!("{} below {} nested groups", what, n), Box::new(move || refused(document("", &groups(n, bad), 300)))));
                for in_group in [false, true] {
                    v.push((
                        format!("{} below {} nested components{}", what, n, if in_group { ", in groups" } else { "" }),
                        Box::new(move || refused(document(&comps(n, bad, in_group), use_c0, 300))),
                    ));
                }
            }
            for in_group in [false, true] {
                for back in [0, n / 2, n - 1] {
                    v.push((
                        format!("a cycle of components of length {} after {}{}", n - back, back, if in_group { ", in groups" } else { "" }),
                        Box::new(move || {
                            let c = format!("<component name='C{}' required='N'/>", back);
                            for used in [use_c0, leaf] {
                                let x = document(&comps(n, &c, in_group), used, 300);
                                need(DataDictionary::from_str(&x).is_err(), "the document is accepted")?;
                            }
                            Ok(())
                        }),
                    ));
                }
            }
        }
    }
    v
}

fn settings_cases(quick: bool) -> Vec<Case> {
    let mut v: Vec<Case> = vec![];
    for n in if quick { vec![0usize, 1, 10, 1000, 20_000] } else { vec![0, 1, 2, 10, 100, 1000, 10_000, 50_000] } {
        for kind in ["lines", "blank lines", "letters", "sessions"] {
            v.push((
                format!("{} {}", n, kind),
                Box::new(move || {
                    let mut t = String::from(
                        "[Default]\nconnection_type=acceptor\nsocket_accept_port=9000\nbegin_string=FIX.4.3\nsender_comp_id=S\n",
                    );
                    let one = |i: usize| format!("[Session]\ntarget_comp_id=T{}\n", i);
                    match kind {
                        "lines" => {
                            t += &one(0);
                            (0..n).for_each(|i| t += &format!("key{}=v{}\n", i, i));
                        }
                        "blank lines" => {
                            t += &"\n".repeat(n);
                            t += &one(0);
                            t += &"\n".repeat(n);
                            t += &format!("key0=v0\n");
                        }
                        "letters" => t += &format!("{}key0={}\n", one(0), "x".repeat(n)),
                        _ => (0..n.min(2000)).for_each(|i| t += &one(i)),
                    }
                    let p = Properties::from_str(&t);
                    let ids = p.session_ids();
                    if kind == "sessions" {
                        need(ids.len() == n.min(2000), "sessions are missing")?;
                        return need(
                            ids.iter().all(|i| p.get_config::<String>(i, "target_comp_id").ok().as_ref() == Some(i.target_compid())),
                            "a session has the settings of another",
                        );
                    }
                    need(ids.len() == 1, "the session is missing")?;
                    let get = |k: &str| p.get_config::<String>(ids[0], k).unwrap_or_default();
                    match kind {
                        "lines" => need((0..n).all(|i| get(&format!("key{}", i)) == format!("v{}", i)), "a setting is wrong"),
                        "letters" => need(get("key0").len() == n, "a setting is wrong"),
                        _ => need(get("key0") == "v0", "a setting is wrong"),
                    }
                }),
            ));
        }
    }
    v
}

fn cases(prop: &str, quick: bool) -> Vec<Case> {
    match prop {
        "C05" => build_cases(quick),
        "C07" | "C08" => dictionary_cases(prop, quick),
        "C09" => settings_cases(quick),
        _ => texts(quick).into_iter().map(|l| text_case(prop, l)).collect(),
    }
}

/// In the child: says which case it begins and how it went.
pub fn child(args: &[String]) {
    let prop = args[0].clone();
    let only: Option<usize> = args.get(1).and_then(|x| x.parse().ok());
    let quick = std::env::var("VERIF_TIER").as_deref() != Ok("thorough");
    quiet_panics(true);
    let say = |s: String| say(&s);
    for (i, (name, run)) in cases(&prop, quick).into_iter().enumerate() {
        if only.map_or(false, |o| o != i) {
            continue;
        }
        say(format!("begin {} {}", i, name));
        // a thread as Rust makes it when nothing is said about its stack
        let r = std::thread::Builder::new().stack_size(2 << 20).spawn(run).unwrap().join();
        match r {
            Ok(Ok(())) => say(format!("good {}", i)),
            Ok(Err(e)) => say(format!("wrong {} {}", i, e)),
            Err(_) => say(format!("panic {}", i)),
        }
    }
    say("end".to_string());
}

fn run_child(ctx: &Ctx, only: Option<usize>) {
    let Ok(bin) = std::env::var("FIX_RS_VERIF_PLAIN") else {
        eprintln!("FIX_RS_VERIF_PLAIN names the unoptimised build; run this through check.sh");
        std::process::exit(3);
    };
    let mut cmd = std::process::Command::new(bin);
    cmd.arg("deep").arg(&ctx.id).env("VERIF_TIER", &ctx.tier).stdin(std::process::Stdio::null()).stderr(std::process::Stdio::null());
    if let Some(i) = only {
        cmd.arg(i.to_string());
    }
    cmd.stdout(std::process::Stdio::piped());
    let mut child = cmd.spawn().expect("the unoptimised build");
    let out = child.stdout.take().unwrap();
    let mut open: Option<(usize, String)> = None;
    let mut ended = false;
    let mut n = 0u64;
    // a case that goes on for minutes does not end
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        for l in std::io::BufRead::lines(std::io::BufReader::new(out)) {
            if tx.send(l.unwrap_or_default()).is_err() {
                break;
            }
        }
    });
    let case_of = |o: &Option<(usize, String)>| o.as_ref().map_or(String::new(), |o| format!("deep {} {}", o.0, o.1));
    loop {
        let l = match rx.recv_timeout(std::time::Duration::from_secs(120)) {
            Ok(l) => l,
            Err(std::sync::mpsc::RecvTimeoutError::Disconnected) => break,
            Err(_) => {
                let _ = child.kill();
                ctx.violation(&format!("does not end: {}", case_of(&open)), &case_of(&open))
            }
        };
        let (kind, rest) = l.split_once(' ').unwrap_or((&l, ""));
        match kind {
            "begin" => {
                let (i, name) = rest.split_once(' ').unwrap_or((rest, ""));
                open = Some((i.parse().unwrap_or(0), name.to_string()));
                n += 1;
            }
            "good" => open = None,
            "wrong" => ctx.violation(&format!("{} ({})", rest.split_once(' ').map_or("", |x| x.1), case_of(&open)), &case_of(&open)),
            "panic" => ctx.violation(&format!("panics: {}", case_of(&open)), &case_of(&open)),
            "end" => ended = true,
            _ => {}
        }
    }
    let status = child.wait();
    if open.is_some() {
        ctx.violation(&format!("the process ends ({:?}): {}", status, case_of(&open)), &case_of(&open));
    }
    if !ended {
        eprintln!("the unoptimised build gave no answer: {:?}", status);
        std::process::exit(3);
    }
    ctx.add(n, n, n);
    ctx.note("long_and_deep_cases_unoptimised_2MB_stack", n.to_string());
}

/// All cases of the property; gives true if it was a replay of one of them.
pub fn check(ctx: &Ctx) -> bool {
    if let Some(r) = &ctx.replay {
        let b = replay_body(r);
        if let Some(x) = b.lines().find_map(|l| l.strip_prefix("deep ")) {
            run_child(ctx, x.split(' ').next().and_then(|i| i.parse().ok()));
            return true;
        }
        return false;
    }
    run_child(ctx, None);
    false
}
