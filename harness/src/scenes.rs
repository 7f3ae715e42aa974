//! The scenarios of the engine checks.
use super::engine::{ids, sess, Scen, Sess, S};
use tokio::sim::{Act, Act::*, Policy, POLICIES};

fn raw(t: &str) -> Vec<u8> {
    t.replace('|', &S.to_string()).into_bytes()
}
/// A well-formed message of the session's peer; x: further fields, ending with |
fn msg(s: &Sess, x: &str, text: &str) -> Vec<u8> {
    raw(&format!("8={}|9=0|35=D|34=1|{}{}58={}|10=000|", s.begin, ids(&s.peer, &s.me), x, text))
}
fn m(s: &Sess, text: &str) -> Vec<u8> {
    msg(s, "", text)
}
fn cat(v: &[Vec<u8>]) -> Vec<u8> {
    v.concat()
}
const P: u16 = 7001;
const Q: u16 = 7002;
fn one() -> Vec<Sess> {
    vec![sess("C0", P, 0)]
}
/// two sessions on one port
fn shared() -> Vec<Sess> {
    vec![sess("C0", P, 0), sess("C1", P, 0)]
}
/// two sessions, a port each
fn apart() -> Vec<Sess> {
    vec![sess("C0", P, 0), sess("C1", Q, 0)]
}
/// two on one port, one on another
fn three() -> Vec<Sess> {
    vec![sess("C0", P, 0), sess("C1", P, 0), sess("C2", Q, 0)]
}

/// Two sessions of one port whose identities differ in one part only, or are written alike.
fn alike() -> Vec<(&'static str, Vec<Sess>)> {
    let s = |begin, me, peer| Sess { begin, me, peer, ..sess("", P, 0) };
    let f = "FIX.4.3";
    [
        ("a sub id apart", s(f, ["SRV", "", ""], ["C0", "", ""]), s(f, ["SRV", "", ""], ["C0", "B", ""])),
        ("a location apart", s(f, ["SRV", "", ""], ["C0", "", ""]), s(f, ["SRV", "", ""], ["C0", "", "B"])),
        ("a sub id of ours apart", s(f, ["SRV", "", ""], ["C0", "", ""]), s(f, ["SRV", "B", ""], ["C0", "", ""])),
        ("a location of ours apart", s(f, ["SRV", "", ""], ["C0", "", ""]), s(f, ["SRV", "", "B"], ["C0", "", ""])),
        ("sub id and location exchanged", s(f, ["SRV", "", ""], ["C0", "B", ""]), s(f, ["SRV", "", ""], ["C0", "", "B"])),
        ("each the other's mirror", s(f, ["A", "", ""], ["B", "", ""]), s(f, ["B", "", ""], ["A", "", ""])),
        ("a version apart", s(f, ["SRV", "", ""], ["C0", "", ""]), s("FIX.4.4", ["SRV", "", ""], ["C0", "", ""])),
        ("another version apart", s("FIX.4.2", ["SRV", "", ""], ["C0", "", ""]), s(f, ["SRV", "", ""], ["C0", "", ""])),
        ("letter case apart", s(f, ["SRV", "", ""], ["C0", "", ""]), s(f, ["SRV", "", ""], ["c0", "", ""])),
        ("letter case of ours apart", s(f, ["SRV", "", ""], ["C0", "", ""]), s(f, ["Srv", "", ""], ["C0", "", ""])),
        ("one longer", s(f, ["SRV", "", ""], ["C0", "", ""]), s(f, ["SRV", "", ""], ["C01", "", ""])),
        ("one longer in front", s(f, ["SRV", "", ""], ["C0", "", ""]), s(f, ["SRV", "", ""], ["AC0", "", ""])),
        ("written alike", s(f, ["SRV", "", ""], ["C0/B", "", ""]), s(f, ["SRV", "", ""], ["C0", "B", ""])),
        ("written alike with an arrow", s(f, ["A->B", "", ""], ["C", "", ""]), s(f, ["A", "", ""], ["B->C", "", ""])),
        ("joined alike", s(f, ["AB", "", ""], ["C0", "", ""]), s(f, ["A", "", ""], ["BC0", "", ""])),
        ("a sub id that is the other's name", s(f, ["SRV", "C0", ""], ["C1", "", ""]), s(f, ["SRV", "", ""], ["C0", "C1", ""])),
    ]
    .into_iter()
    .map(|(n, a, b)| (n, vec![a, b]))
    .collect()
}

pub fn of(id: &str, quick: bool) -> Vec<Scen> {
    match id {
        "C13" => c13(quick),
        "C14" => c14(quick),
        "C15" => c15(quick),
        "C16" => c16(quick),
        "C17" => c17(quick),
        "C18" => c18(quick),
        _ => vec![],
    }
}

// ------------------------------------------------------------------ C13
fn streams() -> Vec<(&'static str, Vec<u8>)> {
    let s = &one()[0];
    vec![
        ("one message", m(s, "a0;R")),
        ("two messages", cat(&[m(s, "a0;R"), m(s, "a1")])),
        ("values that look like a checksum", cat(&[msg(s, "11=10=5|", "a0;10=7"), m(s, "a1;8=FIX")])),
        ("tags that end in 10", cat(&[msg(s, "110=5|210=10=6|1010=7|", "a0"), m(s, "a1")])),
        ("groups", cat(&[msg(s, "100=2|101=a|102=b|101=c|", "a0"), msg(s, "100=1|101=10=|", "a1;R")])),
        ("text of several bytes per character", cat(&[msg(s, "11=äöü€😀|", "a0"), m(s, "a1;é")])),
        (
            "checksums of other lengths",
            cat(&[
                raw(&format!("8=FIX.4.3|9=0|35=D|{}58=a0|10=1|", ids(&s.peer, &s.me))),
                raw(&format!("8=FIX.4.3|9=0|35=D|{}58=a1|89=x|10=123456789|", ids(&s.peer, &s.me))),
                m(s, "a2"),
            ]),
        ),
        (
            "rubbish in between",
            cat(&[m(s, "a0"), raw("x10=1|10=2|"), m(s, "a1"), raw("|10|"), raw("10=|"), m(s, "a2")]),
        ),
        ("three messages", cat(&[m(s, "a0"), m(s, "a1;R"), m(s, "a2;R")])),
    ]
}
fn chunks(b: &[u8], at: &[usize]) -> Vec<Act> {
    let mut v = vec![];
    let mut p = 0;
    for a in at.iter().chain([&b.len()]) {
        if *a > p && *a <= b.len() {
            v.push(Send(b[p..*a].to_vec()));
            p = *a;
        }
    }
    v
}
fn conn(p: u16, acts: Vec<Act>) -> Vec<Act> {
    [vec![Connect(p)], acts].concat()
}
fn c13(quick: bool) -> Vec<Scen> {
    let mut v = vec![];
    let s = one();
    for (n, b) in streams() {
        // every read may return any prefix of what has come in
        v.push(
            Scen::new(format!("{}: any reads", n), s.clone(), vec![conn(P, vec![Send(b.clone())])])
                .with(|s| {
                    s.split_reads = true;
                    s.policies = vec![Policy::ClientsFirst];
                })
                .devs(0, if quick || b.len() > 100 { 2 } else { 3 })
                .shards(if quick { 8 } else { 16 }),
        );
        // pieces of one size, sent one after the other
        for k in 1..=b.len().min(if quick { 24 } else { 200 }) {
            let at: Vec<usize> = (1..b.len()).filter(|i| i % k == 0).collect();
            v.push(
                Scen::new(format!("{}: pieces of {}", n, k), s.clone(), vec![conn(P, chunks(&b, &at))])
                    .with(|s| s.policies = vec![Policy::RoundRobin, Policy::CodeFirst]),
            );
        }
        // two pieces with a pause, and the end of the connection after every byte
        for t in 0..=b.len() {
            {
                v.push(
                    Scen::new(
                        format!("{}: pause after {}", n, t),
                        s.clone(),
                        vec![conn(P, [chunks(&b[..t], &[]), vec![Pause(20)], chunks(&b[t..], &[])].concat())],
                    )
                    .with(|s| s.policies = vec![Policy::RoundRobin]),
                );
            }
            for (e, end) in
                [("end", Fin), ("close", Close), ("reset", Reset { discard: false }), ("abort", Reset { discard: true })]
            {
                v.push(
                    Scen::new(
                        format!("{}: {} after {}", n, e, t),
                        s.clone(),
                        vec![conn(P, [chunks(&b[..t], &[]), vec![end]].concat())],
                    )
                    .with(|s| {
                        s.policies =
                            if quick { vec![Policy::RoundRobin, Policy::ClientsFirst] } else { POLICIES.to_vec() };
                        s.split_reads = !quick;
                    })
                    .devs(0, if quick { 0 } else { 1 }),
                );
            }
        }
    }
    // what a connection leaves unfinished does not get into another one
    let b = cat(&[m(&s[0], "a0"), m(&s[0], "a1;R")]);
    for t in 0..=b.len() {
        let rest = [chunks(&b[t..], &[]), vec![Send(m(&s[0], "b0;R"))]].concat();
        v.push(
            Scen::new(
                format!("the rest after {} on another connection", t),
                s.clone(),
                vec![[conn(P, chunks(&b[..t], &[])), vec![Close, Connect(P)], rest.clone()].concat()],
            )
            .with(|s| s.policies = vec![Policy::RoundRobin, Policy::ClientsFirst]),
        );
        v.push(
            Scen::new(
                format!("halves after {} on two connections", t),
                s.clone(),
                vec![conn(P, chunks(&b[..t], &[])), conn(P, rest)],
            )
            .with(|s| s.policies = vec![Policy::RoundRobin, Policy::CodeFirst, Policy::ClientsFirst]),
        );
    }
    // two connections, interleaved pieces, with answers written in the meantime
    let sh = shared();
    let piece = |b: &[u8], k: usize| chunks(b, &(1..b.len()).filter(|i| i % k == 0).collect::<Vec<_>>());
    let two = |k: usize| {
        vec![
            conn(P, piece(&cat(&[m(&sh[0], "a0;R3"), m(&sh[0], "a1;R"), m(&sh[0], "a2")]), k)),
            conn(P, piece(&cat(&[m(&sh[1], "b0;R"), m(&sh[1], "b1;S0;R")]), k)),
        ]
    };
    v.push(Scen::new("two connections in pieces of 40", shared(), two(40)).devs(1, 0).shards(8));
    v.push(Scen::new("two connections in pieces of 29", shared(), two(29)).devs(if quick { 1 } else { 2 }, 0).shards(if quick { 8 } else { 64 }));
    v.push(Scen::new("two connections in pieces of 7", shared(), two(7)).devs(1, 0).shards(8));
    // answers come out while a message is still coming in
    v.push(
        Scen::new(
            "answers in the middle of a message",
            s.clone(),
            vec![{
                let x = m(&s[0], "a1");
                let mut a = conn(P, vec![Send(cat(&[m(&s[0], "a0;R2"), x[..30].to_vec()]))]);
                a.extend([Await(1), Send(x[30..50].to_vec()), Await(2), Send(x[50..].to_vec()), Send(m(&s[0], "a2;R"))]);
                a
            }],
        )
        .devs(2, 0)
        .shards(16),
    );
    // fields which are nearly a checksum, and what comes behind them
    let mut nearly: Vec<(String, Vec<u8>)> = vec![];
    for b in 0..=255u8 {
        if b != 1 {
            nearly.push((format!("{:?} in front of 10=", b as char), vec![b, b'1', b'0', b'=', b'5']));
            nearly.push((format!("{:?} behind 1", b as char), vec![b'1', b, b'0', b'=', b'5']));
            nearly.push((format!("{:?} behind 10", b as char), vec![b'1', b'0', b, b'=', b'5']));
            nearly.push((format!("{:?} in place of =", b as char), vec![b'1', b'0', b, b'5']));
        }
    }
    for t in ["10", "1", "0=5", "=10=5", "100=5", "010=5", "0010=5", "+10=5", "\r\n10=5", "  10=5", "x\n10=5", "11=\n10=5", "10 =5", "10.0=5"] {
        nearly.push((format!("{:?}", t), t.as_bytes().to_vec()));
    }
    for (n, f) in nearly {
        if f.starts_with(b"10=") {
            continue;
        }
        let b = cat(&[
            raw(&format!("8=FIX.4.3|9=0|35=D|{}58=a0|", ids(&s[0].peer, &s[0].me))),
            f,
            vec![1],
            m(&s[0], "a1"),
            m(&s[0], "a2;R"),
        ]);
        v.push(
            Scen::new(format!("nearly a checksum: {}", n), s.clone(), vec![conn(P, vec![Send(b)])]).with(|s| {
                s.policies = vec![Policy::RoundRobin];
                s.deepen = false;
            }),
        );
    }
    // longer than the buffers of the code
    for n in [1010usize, 1024, 2000, 8150, 8192, 9000, 20_000, 70_000, 300_000, if quick { 1_500_000 } else { 9_000_000 }] {
        let b = cat(&[m(&s[0], "a0"), msg(&s[0], &format!("11={}|", "y".repeat(n)), "a1;R"), m(&s[0], "a2")]);
        v.push(
            Scen::new(format!("a message of {} bytes", n), s.clone(), vec![conn(P, chunks(&b, &[]))])
                .with(|s| {
                    s.policies = vec![Policy::RoundRobin];
                    s.split_reads = !quick && n < 10_000;
                })
                .devs(0, 1)
                .shards(8),
        );
        v.push(
            Scen::new(
                format!("a message of {} bytes in pieces", n),
                s.clone(),
                vec![conn(P, chunks(&b, &(1..b.len()).filter(|i| i % (if n < 100_000 { 1000 } else { n / 30 }) == 0).collect::<Vec<_>>()))],
            )
            .with(|s| s.policies = vec![Policy::RoundRobin, Policy::ClientsFirst]),
        );
    }
    v
}

/// Every history of so many messages of these kinds: on one connection, and dealt out to two.
fn histories(quick: bool) -> Vec<Scen> {
    let ss = shared();
    let kind = |k: usize, i: usize| -> Vec<u8> {
        let own = format!("h{}", i);
        match k {
            0 => m(&ss[0], &format!("{};R", own)),
            // long, and longer than the buffers
            1 => m(&ss[0], &format!("{};R;{}", own, "y".repeat(700))),
            2 => msg(&ss[0], &format!("11={}|", "z".repeat(9000)), &own),
            // the same text each time
            3 => m(&ss[0], "same;R"),
            4 => m(&ss[1], &format!("{};R;S0", own)),
            5 => msg(&ss[0], "11=|", &own),
            6 => m(&sess("XX", P, 0), &own),
            7 => raw(&format!("8=FIX.4.3|9=0|35=E|34=1|{}58={}|10=000|", ids(&ss[0].peer, &ss[0].me), own)),
            8 => msg(&ss[0], "100=2|101=a|102=b|101=c|", &own),
            _ => raw("10=000|"),
        }
    };
    let depth = if quick { 3 } else { 4 };
    let mut v = vec![];
    for code in 0..10usize.pow(depth) {
        let ks: Vec<usize> = (0..depth).map(|d| code / 10usize.pow(d) % 10).collect();
        let name: String = ks.iter().map(|k| char::from(b'0' + *k as u8)).collect();
        let all: Vec<Act> = ks.iter().enumerate().map(|(i, k)| Send(kind(*k, i))).collect();
        let small = |s: &mut Scen| {
            s.policies = vec![Policy::RoundRobin, Policy::CodeFirst];
            s.deepen = false;
        };
        v.push(Scen::new(format!("history {}", name), ss.clone(), vec![conn(P, all.clone())]).with(small));
        // every way to deal them out (the first to the first), one connection after the other
        for deal in 1..1usize << (depth - 1) {
            let mut cl = vec![vec![], vec![]];
            for (i, a) in all.iter().enumerate() {
                cl[if i == 0 { 0 } else { deal >> (i - 1) & 1 }].push(a.clone());
            }
            if ks.iter().filter(|k| **k == 3).count() > 1 {
                // whose of the same texts is answered first is open
                continue;
            }
            v.push(
                Scen::new(
                    format!("history {} on two connections, {}", name, deal),
                    ss.clone(),
                    cl.into_iter().map(|a| conn(P, a)).collect(),
                )
                .with(small)
                .with(|s| s.policies = vec![Policy::RoundRobin]),
            );
        }
    }
    v
}
// ------------------------------------------------------------------ C14
fn hostile() -> Vec<(&'static str, Vec<u8>)> {
    let ss = three();
    let (s0, s2) = (&ss[0], &ss[2]);
    let id = ids(&s0.peer, &s0.me);
    let r = |t: String| raw(&t);
    let mut v = vec![
        ("separators", raw("||||10=|")),
        ("only a checksum", raw("10=000|")),
        ("no tag", raw("=|10=000|")),
        ("no text", raw("hello world")),
        ("a tag alone", raw("8|10=000|")),
        ("only a begin string", raw("8=FIX.4.3|10=000|")),
        ("unknown sender", m(&sess("XX", P, 0), "h;R")),
        ("unknown target", m(&Sess { me: ["YY", "", ""], ..s0.clone() }, "h;R")),
        ("unknown sub id", m(&Sess { peer: ["C0", "SUB", ""], ..s0.clone() }, "h;R")),
        ("session of another port", m(s2, "h;R")),
        ("other version", r(format!("8=FIX.4.4|9=0|35=D|{}58=h;R|10=000|", id))),
        ("no sender", r(format!("8=FIX.4.3|9=0|35=D|56=SRV|58=h;R|10=000|"))),
        ("empty sender", r(format!("8=FIX.4.3|9=0|35=D|49=|56=SRV|58=h;R|10=000|"))),
        ("no type", r(format!("8=FIX.4.3|9=0|{}58=h;R|10=000|", id))),
        ("unknown type", r(format!("8=FIX.4.3|9=0|35=ZZ|{}58=h;R|10=000|", id))),
        ("unknown tag", msg(s0, "9999=x|", "h;R")),
        ("huge tag", msg(s0, "99999999999999999999=x|", "h;R")),
        ("tag zero", msg(s0, "0=x|", "h;R")),
        ("negative tag", msg(s0, "-5=x|", "h;R")),
        ("empty value", msg(s0, "11=|", "h;R")),
        ("same tag twice", msg(s0, "11=a|11=b|", "h;R")),
        ("bad count", msg(s0, "100=x|101=a|", "h;R")),
        ("huge count", msg(s0, "100=4294967295|101=a|", "h;R")),
        ("larger count", msg(s0, "100=18446744073709551616|101=a|", "h;R")),
        ("negative count", msg(s0, "100=-1|101=a|", "h;R")),
        ("count too large", msg(s0, "100=3|101=a|", "h;R")),
        ("count too small", msg(s0, "100=1|101=a|101=b|", "h;R")),
        ("group without its first field", msg(s0, "100=1|102=a|", "h;R")),
        ("header in the body", msg(s0, "11=a|35=D|", "h;R")),
        ("trailer in the body", msg(s0, "89=a|11=b|", "h;R")),
        ("no utf-8", cat(&[raw(&format!("8=FIX.4.3|9=0|35=D|{}11=", id)), vec![0xff, 0xc3, 0x28, 1], raw("58=h|10=000|")])),
        ("nul bytes", cat(&[vec![0, 0, 0], raw("10=0|")])),
        ("no utf-8 at all", vec![0xff, 0xfe, 1, 0x80, 1, b'1', b'0', b'=', 0xff, 1]),
        ("begin string not first", r(format!("9=0|8=FIX.4.3|35=D|{}58=h|10=000|", id))),
        ("half a message", m(s0, "h;R")[..40].to_vec()),
        ("half a checksum", { let x = m(s0, "h;R"); x[..x.len() - 3].to_vec() }),
        ("a long line", vec![b'a'; 20_000]),
        ("many fields", msg(s0, &"11=a|".repeat(3000), "h;R")),
        ("many separators", vec![1; 20_000]),
    ];
    v.push(("many bad messages", (0..300).flat_map(|_| raw("8=X|10=0|")).collect()));
    v.push(("many bad messages of a session", (0..300).flat_map(|_| msg(s0, "11=|", "h;R")).collect()));
    v.push(("many messages of nobody", (0..300).flat_map(|_| m(&sess("XX", P, 0), "h;R")).collect()));
    v.push(("many checksums", (0..300).flat_map(|_| raw("10=0|")).collect()));
    v
}
fn ends_message(b: &[u8]) -> bool {
    // a later message starts anew
    let t = String::from_utf8_lossy(b).to_string();
    t.ends_with(S) && t[..t.len() - 1].rsplit(S).next().unwrap().starts_with("10=")
}
fn c14(quick: bool) -> Vec<Scen> {
    let mut v = histories(quick);
    let ss = three();
    // connections that fail in some other way than a reset
    for errno in [110, 113, 103, 100] {
        for discard in [false, true] {
            for t in [0, 30, 200] {
                let bad = cat(&[m(&ss[0], "a0;R;S1"), m(&ss[0], "a1;R3")]);
                let bad = bad[..t.min(bad.len())].to_vec();
                let good = |k: usize, p: u16, x: &str| {
                    conn(p, vec![Send(m(&ss[k], &format!("{}0;R;S0", x))), Await(1), Pause(1), Send(m(&ss[k], &format!("{}1;S0;R", x)))])
                };
                v.push(
                    Scen::new(
                        format!("a connection fails with error {} after {} bytes{}", errno, t, if discard { ", which are lost" } else { "" }),
                        ss.clone(),
                        vec![conn(P, [chunks(&bad, &[]), vec![Reset { discard }]].concat()), good(1, P, "b"), good(2, Q, "c")],
                    )
                    .with(|s| s.errors.reset = errno),
                );
            }
        }
    }
    let ends: Vec<(&str, Vec<Act>)> = vec![
        ("stays", vec![]),
        ("closes", vec![Close]),
        ("ends", vec![Fin]),
        ("resets", vec![Reset { discard: false }]),
        ("aborts", vec![Reset { discard: true }]),
    ];
    for (n, b) in hostile() {
        let big = b.len() > 1000;
        for (e, end) in &ends {
            let after = if ends_message(&b) && end.is_empty() {
                vec![Send(m(&ss[0], "a1;R"))]
            } else {
                vec![]
            };
            let bad = conn(
                P,
                [vec![Send(m(&ss[0], "a0;R")), Send(b.clone())], after, end.clone()].concat(),
            );
            let good = |k: usize, p: u16, x: &str| {
                conn(p, vec![Send(m(&ss[k], &format!("{}0;R", x))), Await(1), Send(m(&ss[k], &format!("{}1;R", x)))])
            };
            if !quick || e == &"stays" || e == &"closes" {
                v.push(
                    Scen::new(
                        format!("{}, then {}", n, e),
                        ss.clone(),
                        vec![bad.clone(), good(1, P, "b"), good(2, Q, "c")],
                    )
                    .with(|s| {
                        if big {
                            s.policies = vec![Policy::RoundRobin, Policy::ClientsFirst];
                        }
                    })
                    .devs(if quick || big { 0 } else { 1 }, 0)
                    .shards(if quick || big { 1 } else { 8 }),
                );
            }
            // longer ones behind it
            if ends_message(&b) && end.is_empty() {
                for size in [600usize, 1500, 9000, 70_000] {
                    v.push(
                        Scen::new(
                            format!("{}, then a message of {} bytes", n, size),
                            ss[..2].to_vec(),
                            vec![conn(P, vec![Send(b.clone()), Send(m(&ss[0], &format!("a1;R;{}", "y".repeat(size)))), Send(m(&ss[0], "a2;R"))])],
                        )
                        .with(|s| {
                            s.policies = vec![Policy::RoundRobin];
                            s.deepen = false;
                        }),
                    );
                }
            }
            // one other connection: more schedules
            if !big && (!quick || ["unknown sender", "bad count", "session of another port"].contains(&n)) {
                v.push(
                    Scen::new(
                        format!("{}, then {}; one other", n, e),
                        ss[..2].to_vec(),
                        vec![bad[..].to_vec(), good(1, P, "b")],
                    )
                    .devs(1, 0)
                    .shards(4),
                );
            }
        }
    }
    // messages whose answers can not be delivered anymore
    for (e, end) in &ends[1..] {
        for w in [false, true] {
            v.push(
                Scen::new(
                    format!("asks, then {}{}", e, if w { ", does not read" } else { "" }),
                    shared(),
                    vec![
                        conn(P, [vec![Send(cat(&[m(&ss[0], "a0;R2"), m(&ss[0], "a1;L200")]))], end.clone()].concat()),
                        conn(P, vec![Send(m(&ss[1], "b0;S0;R;S0")), Await(1), Send(m(&ss[1], "b1;S0;R"))]),
                    ],
                )
                .with(|s| {
                    if w {
                        s.window.insert(0, 50);
                    }
                })
                .devs(if quick { 1 } else { 2 }, if w { 0 } else { 1 })
                .shards(if quick { 4 } else { 64 }),
            );
        }
    }
    // answers for sessions which are not connected, or not anymore
    v.push(
        Scen::new(
            "answers for sessions that are not connected",
            three(),
            vec![conn(P, vec![Send(m(&ss[0], "a0;S1;S2;R")), Send(m(&ss[0], "a1;S2;R;S1")), Await(2), Send(m(&ss[0], "a2;R"))])],
        )
        .devs(if quick { 1 } else { 2 }, 0)
        .with(|s| s.seeds = vec![1, 2, 3, 4])
        .shards(if quick { 2 } else { 16 }),
    );
    v.push(
        Scen::new(
            "all connections end, another comes",
            shared(),
            vec![[
                conn(P, vec![Send(m(&ss[0], "a0;R;S1")), Await(1), Close]),
                conn(P, vec![Send(m(&ss[1], "b0;S0;R")), Await(1), Reset { discard: true }]),
                conn(P, vec![Send(m(&ss[0], "a1;R;S1")), Await(1)]),
            ]
            .concat()],
        )
        .devs(if quick { 1 } else { 2 }, 0)
        .shards(if quick { 4 } else { 32 }),
    );
    // a peer that never reads does not hold up the others
    v.push(
        Scen::new(
            "a peer that reads late",
            shared(),
            vec![
                conn(P, vec![Send(m(&ss[0], "a0;R3")), Send(m(&ss[0], "a1;L500"))]),
                conn(P, vec![Send(m(&ss[1], "b0;R")), Await(1), Send(m(&ss[1], "b1;R;S0")), Await(2), Send(m(&ss[1], "b2;R"))]),
            ],
        )
        .with(|s| {
            s.window.insert(0, 10);
        })
        .devs(1, 0)
        .shards(8),
    );
    // more bad messages than a small counter holds
    if !quick {
        for (n, one) in [("of nobody", raw("8=X|10=0|")), ("of a session", msg(&ss[0], "11=|", "h"))] {
            v.push(
                Scen::new(
                    format!("66000 bad messages {}", n),
                    shared(),
                    vec![
                        conn(P, vec![Send(one.repeat(66_000)), Send(m(&ss[0], "a0;R"))]),
                        conn(P, vec![Send(m(&ss[1], "b0;R")), Await(1), Send(m(&ss[1], "b1;R"))]),
                    ],
                )
                .with(|s| {
                    s.policies = vec![Policy::RoundRobin, Policy::CodeFirst];
                    s.horizon = 3_000_000;
                }),
            );
        }
    }
    // many that come and go
    v.push(
        Scen::new(
            "many that come and go",
            shared(),
            vec![
                (0..8).flat_map(|i| conn(P, vec![Send(m(&ss[0], &format!("a{}", i))[..14 + i * 5].to_vec()), if i % 2 == 0 { Close } else { Reset { discard: true } }])).collect(),
                conn(P, vec![Send(m(&ss[1], "b0;R")), Await(1), Send(m(&ss[1], "b1;R;S0")), Await(2), Send(m(&ss[1], "b2;R"))]),
            ],
        )
        .devs(1, 0)
        .shards(8),
    );
    v
}

// ------------------------------------------------------------------ C15
fn c15(quick: bool) -> Vec<Scen> {
    let mut v = vec![];
    let (sh, ap, th) = (shared(), apart(), three());
    // every history of so many acts of the application, in answer to one message or to several
    let acts = ["R", "L600", "L9000", "I", "S1", "S0", "I2"];
    let depth = if quick { 3u32 } else { 4 };
    for code in 0..acts.len().pow(depth) {
        let ks: Vec<&str> = (0..depth).map(|d| acts[code / acts.len().pow(d) % acts.len()]).collect();
        let name = ks.join(",");
        for cuts in 0..1usize << (depth - 1) {
            let mut texts = vec![format!("a0;{}", ks[0])];
            for (i, k) in ks.iter().enumerate().skip(1) {
                if cuts >> (i - 1) & 1 == 1 {
                    texts.push(format!("a{};{}", i, k));
                } else {
                    let t = texts.last_mut().unwrap();
                    t.push_str(&format!(";{}", k));
                }
            }
            v.push(
                Scen::new(
                    format!("acts {} cut {}", name, cuts),
                    sh.clone(),
                    vec![conn(P, texts.iter().map(|t| Send(m(&sh[0], t))).collect()), conn(P, vec![Send(m(&sh[1], "b0;R;I"))])],
                )
                .with(|s| {
                    s.policies = vec![Policy::RoundRobin, Policy::ClientsFirst];
                    s.deepen = false;
                }),
            );
        }
    }
    // the same text again and again
    for n in [2usize, 3, 15] {
        v.push(
            Scen::new(
                format!("the same answer {} times", n),
                sh.clone(),
                vec![conn(P, vec![Send(m(&sh[0], &format!("a0;I{}", n))), Send(m(&sh[0], "a1;I"))]), conn(P, vec![Send(m(&sh[1], "b0;I2;S0"))])],
            )
            .devs(1, 0),
        );
    }
    // one connection, answers, any writes
    v.push(
        Scen::new("answers, any writes", one(), vec![conn(P, vec![Send(m(&sh[0], "a0;R3"))])])
            .with(|s| s.split_writes = true)
            .devs(1, if quick { 2 } else { 3 })
            .shards(if quick { 16 } else { 64 }),
    );
    let cross = |ss: &[Sess], p1: u16| {
        vec![
            conn(P, vec![Send(m(&ss[0], "a0;R;S1")), Send(m(&ss[0], "a1;S1;R;S1"))]),
            conn(p1, vec![Send(m(&ss[1], "b0;R;S0")), Send(m(&ss[1], "b1;R;S0;S0"))]),
        ]
    };
    for (n, ss, p1) in [("one port", &sh, P), ("two ports", &ap, Q)] {
        v.push(
            Scen::new(format!("messages to each other, {}", n), ss.clone(), cross(ss, p1))
                .devs(1, 0)
                .shards(16),
        );
        v.push(
            Scen::new(format!("messages to each other, {}, any writes", n), ss.clone(), cross(ss, p1))
                .with(|s| {
                    s.split_writes = true;
                    s.policies = vec![Policy::RoundRobin, Policy::ClientsFirst];
                })
                .devs(if quick { 0 } else { 1 }, if quick { 2 } else { 1 })
                .shards(16),
        );
        v.push(
            Scen::new(
                format!("one answer each, {}", n),
                ss.clone(),
                vec![conn(P, vec![Send(m(&ss[0], "a0;R;S1"))]), conn(p1, vec![Send(m(&ss[1], "b0;S0;R"))])],
            )
            .with(|s| s.seeds = if quick { vec![1] } else { vec![1, 2, 3] })
            .devs(2, 0)
            .shards(64),
        );
    }
    // connections that have not said who they are get nothing
    v.push(
        Scen::new(
            "a silent connection beside",
            sh.clone(),
            vec![
                conn(P, vec![AwaitDelivered(1), Send(m(&sh[1], "b0;R"))]),
                conn(P, vec![Send(m(&sh[0], "a0;R;S1")), Await(1), Send(m(&sh[0], "a1;R;S1"))]),
                conn(P, vec![]),
            ],
        )
        .devs(1, 0)
        .shards(8),
    );
    v.push(
        Scen::new(
            "three sessions on two ports",
            th.clone(),
            vec![
                conn(P, vec![Send(m(&th[0], "a0;R;S1;S2")), Send(m(&th[0], "a1;R;S1;S2"))]),
                conn(P, vec![Send(m(&th[1], "b0;R;S0;S2"))]),
                conn(Q, vec![Send(m(&th[2], "c0;R;S0;S1"))]),
            ],
        )
        .with(|s| s.seeds = vec![1, 2, 3])
        .devs(if quick { 0 } else { 1 }, 0)
        .shards(if quick { 1 } else { 8 }),
    );
    // sessions whose identities could be taken for one another
    for (n, ss) in alike() {
        v.push(
            Scen::new(format!("similar sessions: {}", n), ss.clone(), cross(&ss, P))
                .devs(if quick { 0 } else { 1 }, 0)
                .shards(if quick { 1 } else { 16 }),
        );
    }
    // one connection that talks for two sessions
    v.push(
        Scen::new(
            "one connection for two sessions",
            sh.clone(),
            vec![
                conn(P, vec![Send(m(&sh[0], "a0;R;S1")), Send(m(&sh[1], "b0;R;S0")), Send(m(&sh[0], "a1;S1;R"))]),
                conn(P, vec![]),
            ],
        )
        .devs(1, 0)
        .shards(4),
    );
    // reconnects
    for (e, end) in [("close", Close), ("reset", Reset { discard: true }), ("end", Fin)] {
        v.push(
            Scen::new(
                format!("{} and connect again", e),
                sh.clone(),
                vec![
                    [
                        conn(P, vec![Send(m(&sh[0], "a0;R")), Await(1), Send(m(&sh[0], "a1;R2")), end.clone()]),
                        conn(P, vec![Send(m(&sh[0], "a2;R")), Await(1), Send(m(&sh[0], "a3;R2;S1"))]),
                    ]
                    .concat(),
                    conn(P, vec![Send(m(&sh[1], "b0;S0;R")), Await(1), Send(m(&sh[1], "b1;S0;R"))]),
                ],
            )
            .devs(1, if quick { 0 } else { 1 })
            .shards(16),
        );
    }
    v.push(
        Scen::new(
            "a session on two connections",
            sh.clone(),
            vec![
                conn(P, vec![Send(m(&sh[0], "a0;R")), Await(1), Send(m(&sh[0], "a1;R"))]),
                conn(P, vec![Send(m(&sh[0], "b0;R")), Await(1), Send(m(&sh[0], "b1;R"))]),
                conn(P, vec![Send(m(&sh[1], "c0;R;S0"))]),
            ],
        )
        .devs(1, 0)
        .shards(16),
    );
    // slow readers
    for w in [1usize, 30, 61, 100] {
        v.push(
            Scen::new(
                format!("a window of {}", w),
                sh.clone(),
                vec![
                    conn(P, vec![Send(m(&sh[0], "a0;R2;S1;L150;R"))]),
                    conn(P, vec![Send(m(&sh[1], "b0;R;S0;S0;R"))]),
                ],
            )
            .with(|s| {
                s.window.insert(0, w);
                if quick {
                    s.policies = vec![Policy::RoundRobin, Policy::ClientsFirst, Policy::ThreadsLast];
                }
            })
            .devs(1, 0)
            .shards(16),
        );
    }
    // bursts
    for n in [8usize, 15, 31, 32, 33, 40, 64, 70, 100] {
        for w in [None, Some(70usize), Some(500)] {
            v.push(
                Scen::new(
                    format!("{} answers at once, window {:?}", n, w),
                    sh.clone(),
                    vec![
                        conn(P, vec![Send(m(&sh[0], &format!("a0;R{}", n)))]),
                        conn(P, vec![Send(m(&sh[1], "b0;R")), Send(m(&sh[1], "b1;R"))]),
                    ],
                )
                .with(|s| {
                    if let Some(w) = w {
                        s.window.insert(0, w);
                    }
                    s.policies = if n < 16 { POLICIES.to_vec() } else { vec![Policy::RoundRobin, Policy::CodeFirst, Policy::ThreadsLast] };
                })
                .devs(if quick && n > 8 { 0 } else { 1 }, 0)
                .shards(if quick && n > 8 { 1 } else { 16 }),
            );
        }
    }
    // many answers over a long time
    v.push(
        Scen::new(
            "three hundred answers one by one",
            sh.clone(),
            vec![
                conn(P, (0..300).flat_map(|i| vec![Send(m(&sh[0], &format!("a{};R", i))), Await(i + 1)]).collect()),
                conn(P, (0..100).flat_map(|i| vec![Send(m(&sh[1], &format!("b{};R3;S0", i))), Await(3 * i + 3)]).collect()),
            ],
        )
        .with(|s| {
            s.policies = vec![Policy::RoundRobin, Policy::CodeFirst];
            s.horizon = 300_000;
        }),
    );
    // several activities of the application send
    v.push(
        Scen::new(
            "two threads send",
            sh.clone(),
            vec![conn(P, vec![Send(m(&sh[0], "a0;R;T0,3;T0,2;R"))]), conn(P, vec![Send(m(&sh[1], "b0;T0,2;R"))])],
        )
        .devs(1, 0)
        .shards(16),
    );
    v.push(
        Scen::new("a thread sends", one(), vec![conn(P, vec![Send(m(&sh[0], "a0;T0,2;R2"))])])
            .devs(2, 0)
            .shards(64),
    );
    for pad in [600usize, 5000, 70_000] {
        v.push(
            Scen::new(
                format!("two threads send {} bytes each", pad),
                one(),
                vec![conn(P, vec![Send(m(&sh[0], &format!("a0;T0,2,{};T0,2,{};R", pad, pad)))])],
            )
            .devs(1, 0)
            .shards(8),
        );
    }
    // long messages
    for n in [500usize, 4000, 9000, 70_000, 300_000, if quick { 1_500_000 } else { 9_000_000 }] {
        v.push(
            Scen::new(
                format!("an answer of {} bytes", n),
                sh.clone(),
                vec![conn(P, vec![Send(m(&sh[0], &format!("a0;R;L{};R;S1", n)))]), conn(P, vec![Send(m(&sh[1], "b0;R;S0"))])],
            )
            .with(|s| {
                s.window.insert(0, n / 3);
                s.split_writes = true;
                s.policies = vec![Policy::RoundRobin, Policy::ThreadsLast];
            })
            .devs(0, 1)
            .shards(2),
        );
    }
    // disconnects while answers are written
    for (e, end) in [("close", Close), ("reset", Reset { discard: false }), ("end", Fin)] {
        v.push(
            Scen::new(
                format!("{} while answers are written", e),
                sh.clone(),
                vec![
                    conn(P, vec![Send(m(&sh[0], "a0;R3")), end]),
                    conn(P, vec![Send(m(&sh[1], "b0;R;S0;R"))]),
                ],
            )
            .with(|s| {
                s.window.insert(0, 90);
            })
            .devs(1, 1)
            .shards(16),
        );
    }
    v
}

// ------------------------------------------------------------------ C16
fn c16(quick: bool) -> Vec<Scen> {
    let mut v = vec![];
    let (sh, ap, th) = (shared(), apart(), three());
    let served = |k: &Sess, p: u16, x: &str| conn(p, vec![Send(m(k, &format!("{};R", x)))]);
    v.push(
        Scen::new("two connections", sh.clone(), vec![served(&sh[0], P, "a"), served(&sh[1], P, "b")])
            .devs(2, 0)
            .shards(64),
    );
    v.push(
        Scen::new("two ports", ap.clone(), vec![served(&ap[0], P, "a"), served(&ap[1], Q, "b")])
            .with(|s| s.seeds = vec![1, 2])
            .devs(if quick { 1 } else { 2 }, 0)
            .shards(if quick { 8 } else { 64 }),
    );
    v.push(
        Scen::new(
            "connections that say nothing",
            sh.clone(),
            vec![conn(P, vec![]), conn(P, vec![]), conn(P, vec![]), served(&sh[0], P, "a")],
        )
        .devs(if quick { 1 } else { 2 }, 0)
        .shards(if quick { 8 } else { 64 }),
    );
    v.push(
        Scen::new(
            "connections that come and go",
            sh.clone(),
            vec![
                [conn(P, vec![Close]), conn(P, vec![Reset { discard: true }]), served(&sh[0], P, "a")].concat(),
                [served(&sh[1], P, "b"), vec![Await(1), Close], served(&sh[1], P, "c"), vec![Await(1)]].concat(),
            ],
        )
        .devs(if quick { 1 } else { 2 }, 0)
        .shards(if quick { 8 } else { 64 }),
    );
    v.push(
        Scen::new(
            "one after the other with long pauses",
            ap.clone(),
            vec![
                (0..4).flat_map(|i| [served(&ap[0], P, &format!("a{}", i)), vec![Await(1), Pause(300), Close, Pause(400)]].concat()).collect(),
                [vec![Pause(1000)], served(&ap[1], Q, "b"), vec![Pause(1500), Send(m(&ap[1], "b1;R"))]].concat(),
            ],
        )
        .devs(1, 0)
        .shards(8),
    );
    for n in [6usize, 20, 70, 130, 300, 1100] {
        if quick && n > 300 {
            continue;
        }
        v.push(
            Scen::new(
                format!("{} connections at once", n),
                sh.clone(),
                (0..n).map(|i| served(&sh[i % 2], P, &format!("a{}", i))).collect(),
            )
            .with(|s| {
                s.policies = if n > 20 { vec![Policy::RoundRobin, Policy::ClientsFirst] } else { POLICIES.to_vec() };
                s.horizon = 60_000 + 3000 * n as u64;
            })
            .devs(if quick || n > 6 { 0 } else { 1 }, 0)
            .shards(if quick || n > 6 { 1 } else { 64 }),
        );
    }
    v.push(
        Scen::new(
            "three hundred connections one after the other",
            sh.clone(),
            vec![(0..300).flat_map(|i| [served(&sh[0], P, &format!("a{}", i)), vec![Await(1), if i % 3 == 0 { Close } else { Fin }]].concat()).collect()],
        ),
    );
    // failures
    for (p, q) in [(1, 0), (2, 0), (0, 1), (1, 1), (5, 2)] {
        v.push(
            Scen::new(
                format!("binding fails {} and {} times", p, q),
                th.clone(),
                vec![served(&th[0], P, "a"), served(&th[1], P, "b"), served(&th[2], Q, "c")],
            )
            .with(|s| {
                s.bind_fail.insert(P, p);
                s.bind_fail.insert(Q, q);
                s.seeds = vec![1, 2];
            })
            .devs(1, 0)
            .shards(8),
        );
    }
    // for long: pauses do not add up to never, nothing overflows
    for (p, q) in [(40u32, 0u32), (70, 33), (300, 140)] {
        v.push(
            Scen::new(
                format!("binding fails {} and {} times", p, q),
                th.clone(),
                vec![served(&th[0], P, "a"), served(&th[1], P, "b"), served(&th[2], Q, "c")],
            )
            .with(|s| {
                s.bind_fail.insert(P, p);
                s.bind_fail.insert(Q, q);
            }),
        );
        v.push(
            Scen::new(format!("accepting fails {} times in a row", p), sh.clone(), vec![served(&sh[0], P, "a"), served(&sh[1], P, "b")])
                .with(|s| {
                    s.accept_fail.insert(P, (1..1 + p).collect());
                }),
        );
    }
    for f in [vec![0u32], vec![1], vec![0, 1], vec![0, 1, 2, 3], vec![1, 2], vec![2], vec![0, 2]] {
        v.push(
            Scen::new(
                format!("accepting fails {:?}", f),
                sh.clone(),
                vec![served(&sh[0], P, "a"), served(&sh[1], P, "b")],
            )
            .with(|s| {
                s.accept_fail.insert(P, f);
            })
            .devs(if quick { 1 } else { 2 }, 0)
            .shards(if quick { 4 } else { 32 }),
        );
    }
    // whatever the reason
    for errno in [13, 24, 23, 12, 99, 105] {
        v.push(
            Scen::new(
                format!("binding fails with error {}", errno),
                th.clone(),
                vec![served(&th[0], P, "a"), served(&th[1], P, "b"), served(&th[2], Q, "c")],
            )
            .with(|s| {
                s.bind_fail.insert(P, 2);
                s.bind_fail.insert(Q, 1);
                s.errors.bind = errno;
            }),
        );
    }
    for errno in [23, 105, 12, 103, 4, 71, 100, 113, 110, 101, 1] {
        for f in [vec![0u32], vec![1, 2, 3]] {
            v.push(
                Scen::new(
                    format!("accepting fails {:?} with error {}", f, errno),
                    sh.clone(),
                    vec![served(&sh[0], P, "a"), served(&sh[1], P, "b")],
                )
                .with(|s| {
                    s.accept_fail.insert(P, f);
                    s.errors.accept = errno;
                }),
            );
        }
    }
    // both
    v.push(
        Scen::new("binding and accepting fail", ap.clone(), vec![served(&ap[0], P, "a"), served(&ap[1], Q, "b")])
            .with(|s| {
                s.bind_fail.insert(P, 1);
                s.accept_fail.insert(P, vec![0, 1]);
                s.accept_fail.insert(Q, vec![1]);
                s.bind_fail.insert(Q, 2);
            })
            .devs(1, 0)
            .shards(8),
    );
    // configurations
    let ports = [7001u16, 7002, 7003, 7004];
    let names = ["C0", "C1", "C2", "C3", "C4"];
    for n in 1..=4usize {
        for code in 0..(n as u32).pow(n as u32) {
            let mut c = code;
            let pick: Vec<usize> = (0..n)
                .map(|_| {
                    let x = (c % n as u32) as usize;
                    c /= n as u32;
                    x
                })
                .collect();
            // (ports numbered in the order of their first use)
            let mut high = 0;
            if pick.iter().any(|x| {
                let ok = *x <= high;
                high = high.max(x + 1);
                !ok
            }) {
                continue;
            }
            for def in [false, true] {
                let ss: Vec<Sess> = (0..n).map(|i| sess(names[i], ports[pick[i]], 0)).collect();
                let cl = (0..n).map(|i| served(&ss[i], ss[i].port, &format!("a{}", i))).collect();
                v.push(
                    Scen::new(format!("ports {:?}{}", pick, if def { ", the first one by default" } else { "" }), ss, cl)
                        .with(|s| {
                            s.port_in_default = def;
                            s.seeds = vec![1, 2, 3, 4];
                        })
                        .devs(if quick || n > 3 { 0 } else { 1 }, 0)
                        .shards(if quick { 1 } else { 4 }),
                );
            }
        }
    }
    v
}

// ------------------------------------------------------------------ C17
fn c17(quick: bool) -> Vec<Scen> {
    let mut v = vec![];
    let sh = shared();
    let ends: Vec<(&str, Act)> =
        vec![("close", Close), ("end", Fin), ("reset", Reset { discard: false }), ("abort", Reset { discard: true })];
    let b = cat(&[m(&sh[0], "a0;R"), m(&sh[0], "a1;R2")]);
    // connections that fail for other reasons: timed out, no route, aborted, network down
    for errno in [110, 113, 103, 100] {
        for discard in [false, true] {
            for t in [0, 20, b.len() / 2, b.len()] {
                v.push(
                    Scen::new(
                        format!("error {} after {} bytes{}", errno, t, if discard { ", which are lost" } else { "" }),
                        one(),
                        vec![conn(P, [chunks(&b[..t], &[]), vec![Reset { discard }]].concat())],
                    )
                    .with(|s| s.errors.reset = errno)
                    .devs(1, 0),
                );
            }
            v.push(
                Scen::new(
                    format!("error {} while another connection is served{}", errno, if discard { ", input is lost" } else { "" }),
                    sh.clone(),
                    vec![
                        conn(P, vec![Send(m(&sh[0], "a0;R2;S1")), Reset { discard }]),
                        conn(P, vec![Send(m(&sh[1], "b0;R;S0")), Await(1), Send(m(&sh[1], "b1;S0;R")), Close]),
                    ],
                )
                .with(|s| {
                    s.window.insert(0, 30);
                    s.errors.reset = errno;
                })
                .devs(1, 0)
                .shards(4),
            );
        }
    }
    for (e, end) in &ends {
        for t in 0..=b.len() {
            let deep = [0, 1, 20, b.len() / 2, b.len() - 1, b.len()].contains(&t);
            if quick && !deep && t % 4 != 0 {
                continue;
            }
            v.push(
                Scen::new(
                    format!("{} after {} bytes", e, t),
                    one(),
                    vec![conn(P, [chunks(&b[..t], &[]), vec![end.clone()]].concat())],
                )
                .with(|s| s.split_reads = !quick)
                .devs(if quick && !deep { 0 } else { 1 }, if quick { 0 } else { 1 })
                .shards(if quick { 1 } else { 4 }),
            );
        }
        for (w, window) in [("", None), (", blocked", Some(0usize)), (", partly written", Some(30))] {
            v.push(
                Scen::new(
                    format!("{} while answers are written{}", e, w),
                    one(),
                    vec![conn(P, vec![Send(m(&sh[0], "a0;R2")), AwaitDelivered(1), end.clone()])],
                )
                .with(|s| {
                    if let Some(w) = window {
                        s.window.insert(0, w);
                    }
                })
                .devs(2, 1)
                .shards(if quick { 16 } else { 32 }),
            );
            v.push(
                Scen::new(
                    format!("{} while another connection is served{}", e, w),
                    sh.clone(),
                    vec![
                        conn(P, vec![Send(m(&sh[0], "a0;R2;S1")), end.clone()]),
                        conn(P, vec![Send(m(&sh[1], "b0;R;S0")), Await(1), Send(m(&sh[1], "b1;S0;R")), Close]),
                    ],
                )
                .with(|s| {
                    if let Some(w) = window {
                        s.window.insert(0, w);
                    }
                })
                .devs(if quick { 1 } else { 2 }, 1)
                .shards(if quick { 8 } else { 64 }),
            );
        }
        // the queue to the application is full
        v.push(
            Scen::new(
                format!("{} while the application is busy", e),
                one(),
                vec![conn(P, vec![Send((0..80).flat_map(|i| m(&sh[0], &format!("a{};Z50;R", i))).collect()), AwaitDelivered(1), end.clone()])],
            )
            .devs(if quick { 0 } else { 1 }, 0)
            .shards(if quick { 1 } else { 16 }),
        );
        // a burst beyond the queue, the peer does not read
        for n in [20usize, 50] {
            v.push(
                Scen::new(
                    format!("{} after {} unread answers", e, n),
                    one(),
                    vec![conn(P, vec![Send(m(&sh[0], &format!("a0;R{}", n))), AwaitDelivered(1), Pause(1), end.clone()])],
                )
                .with(|s| {
                    s.window.insert(0, 100);
                })
                .devs(if quick { 0 } else { 1 }, 0)
                .shards(if quick { 1 } else { 8 }),
            );
        }
        v.push(
            Scen::new(
                format!("three hundred connections {} one after the other", e),
                sh.clone(),
                vec![(0..300).flat_map(|i| conn(P, [chunks(&b[..(i * 17) % b.len()], &[]), vec![end.clone()]].concat())).collect()],
            )
            .with(|s| {
                s.policies = vec![Policy::RoundRobin, Policy::CodeFirst, Policy::ClientsFirst];
                s.horizon = 500_000;
            }),
        );
        v.push(
            Scen::new(
                format!("connections {} one after the other", e),
                sh.clone(),
                vec![
                    (0..5).flat_map(|i| conn(P, [chunks(&b[..i * 17], &[]), vec![end.clone()]].concat())).collect(),
                    (0..3).flat_map(|i| conn(P, vec![Send(m(&sh[1], &format!("b{};R;S0", i))), end.clone()])).collect(),
                ],
            )
            .devs(1, 0)
            .shards(8),
        );
    }
    v
}

// ------------------------------------------------------------------ C18
fn c18(quick: bool) -> Vec<Scen> {
    let mut v = histories(quick);
    // the same texts again and again, on one connection and on two of a session
    let s0 = &one()[0];
    for n in [2usize, 3, 10, 70] {
        let same = |end: &str| vec![conn(P, vec![Send(m(s0, &format!("x{}", end)).repeat(n)), Send(m(s0, &format!("y{}", end)).repeat(n))])];
        v.push(Scen::new(format!("the same message {} times", n), one(), same("")).devs(if n > 10 { 0 } else { 1 }, 0));
        v.push(Scen::new(format!("the same message {} times, answered", n), one(), same(";R")).devs(if n > 10 { 0 } else { 1 }, 0));
        v.push(
            Scen::new(format!("the same message {} times on two connections", n), one(), [same(""), same("")].concat()).devs(if n > 10 { 0 } else { 1 }, 0),
        );
        v.push(
            Scen::new(
                format!("the same message {} times, a connection each", n),
                one(),
                vec![(0..n).flat_map(|_| conn(P, vec![Send(m(s0, "x")), Fin, AwaitEof])).collect()],
            )
            .devs(if n > 10 { 0 } else { 1 }, 0),
        );
    }
    let g = "100=2|101=a|102=b|101=c|";
    let flat = "100=2|101=a|102=b|";
    // the same port, other ports, other dictionaries
    let mut confs: Vec<(String, Vec<Sess>)> = vec![
        ("one port".to_string(), vec![sess("C0", P, 0), sess("C1", P, 1)]),
        ("two ports".to_string(), vec![sess("C0", P, 0), sess("C1", Q, 1)]),
        ("two ports, other order".to_string(), vec![sess("C1", P, 1), sess("C0", Q, 0)]),
    ];
    for (n, mut ss) in alike() {
        ss[1].dict = 1;
        confs.push((n.to_string(), ss.clone()));
        if !quick {
            // apart on ports, too
            ss[1].port = Q;
            confs.push((format!("{}, and on ports", n), ss));
        }
    }
    for (n, ss) in &confs {
        let content = |s: &Sess, i: usize, x: &str| {
            let f = match (s.dict, i % 3) {
                (_, 0) => flat.replace("100=2", "100=1"),
                (0, 1) => g.to_string(),
                (_, 1) => flat.to_string(),
                _ => "11=z|".to_string(),
            };
            Send(msg(s, &f, x))
        };
        let cl: Vec<Vec<Act>> = ss
            .iter()
            .enumerate()
            .map(|(k, s)| conn(s.port, (0..3).map(|i| content(s, i, &format!("s{}m{}", k, i))).collect()))
            .collect();
        v.push(
            Scen::new(format!("{}, three messages each", n), ss.clone(), cl)
                .with(|s| s.seeds = if quick { vec![1, 2] } else { vec![1, 2, 3, 4] })
                .devs(1, 0)
                .shards(if quick { 4 } else { 8 }),
        );
        let cl: Vec<Vec<Act>> = ss
            .iter()
            .enumerate()
            .map(|(k, s)| conn(s.port, vec![content(s, 1, &format!("s{}m", k))]))
            .collect();
        if !quick || ["one port", "two ports"].contains(&n.as_str()) {
            v.push(
                Scen::new(format!("{}, a message each", n), ss.clone(), cl)
                    .devs(2, 0)
                    .shards(64),
            );
        }
        // both on one connection
        if ss[0].port == ss[1].port {
            v.push(
                Scen::new(
                    format!("{}, on one connection", n),
                    ss.clone(),
                    vec![conn(
                        P,
                        vec![
                            content(&ss[0], 1, "a0;R"),
                            content(&ss[1], 1, "b0;R"),
                            Send(cat(&[msg(&ss[1], flat, "b1"), msg(&ss[0], g, "a1;R"), msg(&ss[1], flat, "b2")])),
                        ],
                    )],
                )
                .devs(if quick { 1 } else { 2 }, 0)
                .shards(if quick { 4 } else { 32 }),
            );
        }
    }
    // more sessions than one: messages come before all is set up
    let many: Vec<Sess> = ["C0", "C1", "C2", "C3", "C4", "C5"]
        .iter()
        .enumerate()
        .map(|(i, n)| sess(n, 7001 + (i as u16 % 3), i % 2))
        .collect();
    v.push(
        Scen::new(
            "six sessions on three ports",
            many.clone(),
            many.iter()
                .enumerate()
                .map(|(k, s)| conn(s.port, vec![Send(msg(s, if s.dict == 0 { g } else { flat }, &format!("s{}m0;R;S{}", k, (k + 1) % 6))), Send(m(s, &format!("s{}m1", k)))]))
                .collect(),
        )
        .with(|s| s.seeds = vec![1, 2, 3])
        .devs(if quick { 0 } else { 1 }, 0)
        .shards(if quick { 1 } else { 16 }),
    );
    // many sessions on many ports
    const NAMES: [&str; 40] = [
        "N0", "N1", "N2", "N3", "N4", "N5", "N6", "N7", "N8", "N9", "O0", "O1", "O2", "O3", "O4", "O5", "O6", "O7", "O8",
        "O9", "P0", "P1", "P2", "P3", "P4", "P5", "P6", "P7", "P8", "P9", "Q0", "Q1", "Q2", "Q3", "Q4", "Q5", "Q6", "Q7",
        "Q8", "Q9",
    ];
    for ports in [1u16, 8, 40] {
        let ss: Vec<Sess> = NAMES.iter().enumerate().map(|(i, n)| sess(n, 7001 + i as u16 % ports, i % 2)).collect();
        v.push(
            Scen::new(
                format!("forty sessions on {} ports", ports),
                ss.clone(),
                ss.iter()
                    .enumerate()
                    .map(|(k, s)| {
                        let x = if s.dict == 0 { g } else { flat };
                        conn(s.port, vec![Send(msg(s, x, &format!("s{}m0;R", k))), Send(m(s, &format!("s{}m1;R", k)))])
                    })
                    .collect(),
            )
            .with(|s| {
                s.policies = if quick { vec![Policy::RoundRobin, Policy::ClientsFirst] } else { POLICIES.to_vec() };
                s.horizon = 200_000;
            }),
        );
    }
    // many messages over a long time
    let sh = shared();
    for n in [5_000usize, 70_000] {
        if quick && n > 5_000 {
            continue;
        }
        v.push(
            Scen::new(
                format!("{} messages in all", n),
                sh.clone(),
                vec![
                    conn(P, vec![Send((0..n).flat_map(|i| m(&sh[0], &format!("a{}", i))).collect())]),
                    conn(P, (0..300).flat_map(|i| vec![Send(m(&sh[1], &format!("b{};R", i))), Await(i + 1)]).collect()),
                ],
            )
            .with(|s| {
                s.policies = vec![Policy::RoundRobin];
                s.horizon = 100_000 + 60 * n as u64;
            }),
        );
    }
    // faster than the application takes them
    for n in [63usize, 64, 65, 66, 130, 300] {
        for (w, z) in [("", ""), (", slow application", ";Z5"), (", answered", ";R")] {
            let b = |s: &Sess, x: &str, n: usize| -> Vec<u8> { (0..n).flat_map(|i| m(s, &format!("{}{}{}", x, i, z))).collect() };
            v.push(
                Scen::new(
                    format!("{} messages at once{}", n, w),
                    sh.clone(),
                    vec![conn(P, vec![Send(b(&sh[0], "a", n))]), conn(P, vec![Send(b(&sh[1], "b", n / 3))])],
                )
                .with(|s| s.policies = if quick && n > 66 { vec![Policy::CodeFirst, Policy::ThreadsLast] } else { POLICIES.to_vec() })
                .devs(if quick || n > 66 { 0 } else { 1 }, 0)
                .shards(if quick || n > 66 { 1 } else { 32 }),
            );
        }
    }
    // each message by itself, the queue runs full
    v.push(
        Scen::new(
            "ninety messages one by one, slow application",
            sh.clone(),
            vec![
                conn(P, (0..90).map(|i| Send(m(&sh[0], &format!("a{};Z20", i)))).collect()),
                conn(P, (0..10).map(|i| Send(m(&sh[1], &format!("b{};R", i)))).collect()),
            ],
        )
        .devs(if quick { 0 } else { 1 }, 0)
        .shards(if quick { 1 } else { 32 }),
    );
    // connections come and go
    for (e, end) in [("close", Close), ("end", Fin), ("reset", Reset { discard: false })] {
        v.push(
            Scen::new(
                format!("three connections of a session, then {}", e),
                sh.clone(),
                vec![
                    (0..3).flat_map(|i| conn(P, vec![Send(m(&sh[0], &format!("a{}0", i))), Send(m(&sh[0], &format!("a{}1;R", i))), end.clone()])).collect(),
                    conn(P, vec![Send(m(&sh[1], "b0;R")), Send(m(&sh[1], "b1;S0"))]),
                ],
            )
            .devs(1, 0)
            .shards(8),
        );
    }
    v
}
