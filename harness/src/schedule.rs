//! C11, C12: session schedules.
use super::codec::{from_json_str, Stats};
use super::kit::*;
use super::settings::{section, write_cfg, Section, PLAIN};
use crate::session::*;
use chrono::{NaiveDateTime, NaiveTime, Offset, TimeZone, Timelike, Weekday};
use chrono_tz::Tz;
use std::str::FromStr;

const DAY: i64 = 86_400;
const NS: i64 = 1_000_000_000;

// ------------------------------------------------------------------ reference
/// A schedule in plain numbers: times in nanoseconds of the day, days 0 = Monday.
#[derive(Clone, Copy, Debug, PartialEq)]
struct Plan {
    times: Option<(i64, i64)>, // none: non-stop
    days: Option<(i64, i64)>,
    tz: Tz,
}
fn offset_at(tz: Tz, sec: i64) -> i64 {
    tz.offset_from_utc_datetime(&NaiveDateTime::from_timestamp(sec, 0)).fix().local_minus_utc() as i64
}
/// Some(in session), None where the statement leaves it open.
fn in_session(p: &Plan, sec: i64, ns: i64) -> Option<bool> {
    let (start, end) = match p.times {
        None => return Some(true),
        Some(t) => t,
    };
    let local = sec + offset_at(p.tz, sec);
    let now = local.rem_euclid(DAY) * NS + ns;
    match p.days {
        None => Some(if start <= end { start <= now && now <= end } else { start <= now || now <= end }),
        Some((sd, ed)) => {
            let week = 7 * DAY * NS;
            let weekday = (local.div_euclid(DAY) + 3).rem_euclid(7); // 1970-01-01 was a Thursday
            let (a, b, t) = (sd * DAY * NS + start, ed * DAY * NS + end, weekday * DAY * NS + now);
            if a == b {
                // from the start to the same time of the same day: now or a week later
                return if t == a { Some(true) } else { None };
            }
            let (len, at) = ((b - a).rem_euclid(week), (t - a).rem_euclid(week));
            Some(at <= len)
        }
    }
}

fn ntime(ns: i64) -> NaiveTime {
    NaiveTime::from_num_seconds_from_midnight((ns / NS) as u32, (ns % NS) as u32)
}
const WD: [Weekday; 7] =
    [Weekday::Mon, Weekday::Tue, Weekday::Wed, Weekday::Thu, Weekday::Fri, Weekday::Sat, Weekday::Sun];

fn make(p: &Plan) -> SessionSchedule {
    let (a, b) = p.times.unwrap_or((9 * 3600 * NS, 17 * 3600 * NS));
    SessionSchedule::new(
        ntime(a),
        p.days.map(|d| WD[d.0 as usize]),
        ntime(b),
        p.days.map(|d| WD[d.1 as usize]),
        p.tz,
        p.times.is_none(),
    )
}
/// The same schedule through its builder.
fn build(p: &Plan) -> SessionSchedule {
    let mut b = SessionScheduleBuilder::default();
    let (s, e) = p.times.unwrap_or((0, 0));
    b.start_time(ntime(s)).end_time(ntime(e)).time_zone(p.tz);
    if p.times.is_none() {
        b.is_non_stop(true);
    }
    if let Some((s, e)) = p.days {
        b.start_day(WD[s as usize]).end_day(WD[e as usize]);
    }
    b.build().unwrap()
}

fn probe(s: &SessionSchedule, p: &Plan, sec: i64, ns: i64) -> Result<bool, String> {
    set_clock(Some((sec, ns)));
    let got = guard(|| s.is_session_time());
    set_clock(None);
    let local = sec + offset_at(p.tz, sec);
    let at = || {
        let (y, m, d) = super::builder::civil(local.div_euclid(DAY));
        let t = local.rem_euclid(DAY);
        format!(
            "{} {:04}-{:02}-{:02} {:02}:{:02}:{:02}.{:09} local time",
            ["Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"][(local.div_euclid(DAY) + 3).rem_euclid(7) as usize],
            y, m, d, t / 3600, t / 60 % 60, t % 60, ns
        )
    };
    match got {
        Err(e) => Err(format!("panics at {}: {}", at(), e)),
        Ok(g) => match in_session(p, sec, ns) {
            Some(w) if w != g => {
                Err(format!("at {} in {} the schedule says {}, should be {}", at(), p.tz, g, w))
            }
            _ => Ok(g),
        },
    }
}

// ------------------------------------------------------------------ instants
fn days_from_civil(y: i64, m: i64, d: i64) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = y.div_euclid(400);
    let yoe = y - era * 400;
    let doy = (153 * (m + if m > 2 { -3 } else { 9 }) + 2) / 5 + d - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    era * 146097 + doe - 719468
}

/// Offset changes of the zone in the window, to the second.
fn transitions(tz: Tz, from: i64, to: i64) -> Vec<i64> {
    let mut v = vec![];
    let mut t = from;
    while t < to {
        if offset_at(tz, t) != offset_at(tz, t + 3600) {
            let (mut a, mut b) = (t, t + 3600);
            while b - a > 1 {
                let m = (a + b) / 2;
                if offset_at(tz, m) == offset_at(tz, a) {
                    a = m
                } else {
                    b = m
                }
            }
            v.push(b);
        }
        t += 3600;
    }
    v
}

/// Every instant of the window at which the wall clock shows one of the times of day, the instants just
/// around it, and those around offset changes and midnights.
fn instants(tz: Tz, day0: i64, ndays: i64, tods: &[i64]) -> Vec<(i64, i64)> {
    let (from, to) = (day0 * DAY, (day0 + ndays) * DAY);
    let tr = transitions(tz, from - 2 * DAY, to + 2 * DAY);
    let mut offs: Vec<i64> = vec![offset_at(tz, from), offset_at(tz, to)];
    for t in &tr {
        offs.push(offset_at(tz, *t));
        offs.push(offset_at(tz, *t - 1));
    }
    offs.sort();
    offs.dedup();
    let mut v: Vec<(i64, i64)> = vec![];
    let mut around = |s: i64, n: i64| {
        let t = s as i128 * NS as i128 + n as i128;
        for d in [-NS as i128, -1, 0, 1, NS as i128] {
            let x = t + d;
            let p = (x.div_euclid(NS as i128) as i64, x.rem_euclid(NS as i128) as i64);
            if p.0 >= 0 {
                v.push(p);
            }
        }
    };
    for d in day0..day0 + ndays {
        for tod in tods {
            for o in &offs {
                around(d * DAY + tod / NS - o, tod % NS);
            }
        }
    }
    for t in tr {
        around(t, 0);
    }
    v.sort();
    v.dedup();
    v
}

fn plan_case(p: &Plan, route: u32, sec: i64, ns: i64) -> String {
    let o = |x: Option<(i64, i64)>| x.map_or("- -".to_string(), |(a, b)| format!("{} {}", a, b));
    format!("plan {} {} {} {} at {} {}", o(p.times), o(p.days), p.tz.name(), route, sec, ns)
}

/// Schedules which differ in one thing each, and the instants they are asked at.
fn history_plans() -> (Vec<Plan>, Vec<(i64, i64)>) {
    let t = |h: i64, m: i64| (h * 3600 + m * 60) * NS;
    let mut plans = vec![];
    for tz in [Tz::UTC, Tz::Europe__London, Tz::America__New_York] {
        for times in [(t(8, 0), t(16, 0)), (t(16, 0), t(8, 0)), (t(8, 0), t(16, 30))] {
            for days in [None, Some((0, 4)), Some((0, 3)), Some((4, 0)), Some((2, 2))] {
                plans.push(Plan { times: Some(times), days, tz });
            }
        }
        plans.push(Plan { times: None, days: None, tz });
    }
    // the days of a week with the summer time of London in its middle, the same a week later, and years apart
    let mut pts = vec![];
    for (y, m, d) in [(2023, 3, 24), (2023, 3, 25), (2023, 3, 26), (2023, 3, 27), (2023, 3, 31), (2023, 4, 1), (2024, 3, 25), (2022, 12, 26)] {
        let day = days_from_civil(y, m, d) * DAY;
        for h in [(7, 30), (8, 0), (12, 0), (15, 15), (16, 15), (20, 30)] {
            pts.push((day + h.0 * 3600 + h.1 * 60, 0));
        }
    }
    (plans, pts)
}
/// Questions one after another: number of the schedule, number of the instant. What was asked before is no matter.
fn history(family: &(Vec<Plan>, Vec<(i64, i64)>), asked: &[usize]) -> Result<(), String> {
    let (plans, pts) = family;
    let mut made: Vec<(usize, SessionSchedule)> = vec![];
    for (k, q) in asked.chunks(2).enumerate() {
        if !made.iter().any(|m| m.0 == q[0]) {
            made.push((q[0], make(&plans[q[0]])));
        }
        let s = &made.iter().find(|m| m.0 == q[0]).unwrap().1;
        let (sec, ns) = pts[q[1]];
        probe(s, &plans[q[0]], sec, ns).map_err(|e| format!("question {} of {:?}: {}", k + 1, asked, e))?;
    }
    Ok(())
}
fn histories(ctx: &Ctx) {
    let family = history_plans();
    let (np, nt) = (family.0.len(), family.1.len());
    let all: Vec<(usize, usize)> = (0..np * nt).map(|i| (i / nt, i % nt)).collect();
    let run = |st: &mut Stats, h: &[usize]| {
        st.states += 1;
        st.trans += 1;
        st.traces += h.len() as u64 / 2;
        if let Err(e) = history(&family, h) {
            let d = h.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ");
            ctx.violation(&e, &format!("history {}", d));
        }
    };
    par(&all, |a| {
        let mut st = Stats::default();
        case(&format!("history {} {}", a.0, a.1));
        for b in &all {
            run(&mut st, &[a.0, a.1, b.0, b.1]);
        }
        // the first one again, after another one
        for b in all.iter().filter(|b| b.0 == a.0 || b.1 == a.1) {
            for c in all.iter().filter(|c| c.1 == a.1 || (!ctx.quick() && c.0 == a.0)) {
                run(&mut st, &[a.0, a.1, b.0, b.1, c.0, c.1]);
                run(&mut st, &[a.0, a.1, b.0, b.1, c.0, c.1, a.0, a.1]);
            }
        }
        st.flush(ctx);
    });
    ctx.note("questions_in_histories", (np * nt).to_string());
}

pub fn c11(ctx: &Ctx) {
    clock_self_test();
    if let Some(r) = &ctx.replay {
        let b = replay_body(r);
        if let Some(h) = b.strip_prefix("history ") {
            let n: Vec<usize> = h.split_whitespace().map(|x| x.parse().unwrap()).collect();
            if let Err(e) = history(&history_plans(), &n) {
                ctx.violation(&e, &b);
            }
            return;
        }
        let w: Vec<&str> = b.trim().split(' ').collect();
        let o = |i: usize| (w[i] != "-").then(|| (w[i].parse().unwrap(), w[i + 1].parse().unwrap()));
        let p = Plan { times: o(1), days: o(3), tz: Tz::from_str(w[5]).unwrap() };
        let s = if w[6] == "0" { make(&p) } else { build(&p) };
        if let Err(e) = probe(&s, &p, w[8].parse().unwrap(), w[9].parse().unwrap()) {
            ctx.violation(&e, &b);
        }
        return;
    }
    let t = |h: i64, m: i64, s: i64| (h * 3600 + m * 60 + s) * NS;
    let mut tods = vec![t(0, 0, 0), t(1, 30, 0), t(2, 30, 0), t(9, 0, 1), t(17, 0, 0), t(23, 59, 59)];
    tods.extend([t(2, 0, 0), t(12, 0, 0) + 500_000_000]);
    if !ctx.quick() {
        tods.extend([t(0, 0, 1), t(3, 0, 0), t(23, 59, 59) + 999_999_999]);
    }
    // windows with an ordinary week, offset changes forward and back (also at midnight), a skipped day,
    // the ends of the year and of February
    let wins: &[(&str, &[(i64, i64, i64)])] = &[
        ("UTC", &[(2022, 10, 10), (2023, 12, 27), (2024, 2, 25), (1970, 1, 2)]),
        ("GMT", &[(2100, 2, 25)]),
        ("Europe/London", &[(2022, 3, 23), (2022, 10, 26), (2022, 7, 1)]),
        ("America/New_York", &[(2023, 3, 8), (2023, 11, 1), (2021, 12, 28)]),
        ("Asia/Kolkata", &[(2022, 10, 10)]),
        ("Asia/Kathmandu", &[(2022, 1, 1)]),
        ("Australia/Lord_Howe", &[(2022, 3, 30), (2022, 9, 28)]),
        ("America/Sao_Paulo", &[(2018, 10, 31), (2018, 2, 14)]),
        ("Asia/Beirut", &[(2022, 3, 23), (2022, 10, 26)]),
        ("Pacific/Apia", &[(2011, 12, 26)]),
        ("Pacific/Kiritimati", &[(2022, 10, 10)]),
        ("Pacific/Pago_Pago", &[(2022, 10, 10)]),
        ("Africa/Casablanca", &[(2023, 3, 15), (2023, 4, 19)]),
        ("America/St_Johns", &[(2010, 3, 10), (2010, 11, 3)]),
        ("Antarctica/Troll", &[(2022, 3, 23), (2022, 10, 26)]),
    ];
    let mut items: Vec<(Tz, i64, Option<(i64, i64)>)> = vec![];
    let mut day_pairs: Vec<Option<(i64, i64)>> = vec![None];
    for a in 0..7 {
        for b in 0..7 {
            day_pairs.push(Some((a, b)));
        }
    }
    for (z, starts) in wins {
        for (y, m, d) in starts.iter() {
            for p in &day_pairs {
                items.push((Tz::from_str(z).unwrap(), days_from_civil(*y, *m, *d), *p));
            }
        }
    }
    par(&items, |(tz, day0, days)| {
        let mut st = Stats::default();
        let pts = instants(*tz, *day0, 9, &tods);
        let mut plans: Vec<Plan> = vec![Plan { times: None, days: *days, tz: *tz }];
        for a in &tods {
            for b in &tods {
                plans.push(Plan { times: Some((*a, *b)), days: *days, tz: *tz });
            }
        }
        for p in &plans {
            for route in 0..2u32 {
                let s = if route == 0 { make(p) } else { build(p) };
                st.states += 1;
                case(&plan_case(p, route, pts[0].0, pts[0].1));
                for (sec, ns) in pts.iter() {
                    st.trans += 1;
                    st.traces += 1;
                    match probe(&s, p, *sec, *ns) {
                        Ok(true) => st.count("in session"),
                        Ok(false) => st.count("not in session"),
                        Err(e) => ctx.violation(&e, &plan_case(p, route, *sec, *ns)),
                    }
                }
            }
        }
        st.flush(ctx);
    });
    // every time zone, around each of its offset changes of some years
    let zones: Vec<Tz> = chrono_tz::TZ_VARIANTS.to_vec();
    let years: Vec<i64> = if ctx.quick() { (2005..2025).collect() } else { (1971..2038).collect() };
    par(&zones, |tz| {
        let mut st = Stats::default();
        for y in &years {
            let (from, to) = (days_from_civil(*y, 1, 1) * DAY, days_from_civil(y + 1, 1, 1) * DAY);
            for tr in transitions(*tz, from, to) {
                let local = tr + offset_at(*tz, tr);
                let before = tr + offset_at(*tz, tr - 1);
                let wd = (local.div_euclid(DAY) + 3).rem_euclid(7);
                // boundaries on the skipped or repeated hour
                let mid = (local.min(before) + (local - before).abs() / 2).rem_euclid(DAY) * NS;
                let times = [mid, before.rem_euclid(DAY) * NS, local.rem_euclid(DAY) * NS, t(12, 0, 0)];
                let mut pts = vec![];
                for h in -26..=26 {
                    pts.push((tr + h * 3600, 0));
                }
                for o in [offset_at(*tz, tr), offset_at(*tz, tr - 1)] {
                    for x in times {
                        for d in -1..=1 {
                            for e in [-1, 0, 1] {
                                pts.push(((local.div_euclid(DAY) + d) * DAY + x / NS - o + e, 0));
                            }
                        }
                    }
                }
                for a in times {
                    for b in times {
                        for days in [None, Some((wd, wd)), Some((wd, (wd + 1) % 7)), Some(((wd + 6) % 7, wd)), Some(((wd + 1) % 7, wd))] {
                            let p = Plan { times: Some((a, b)), days, tz: *tz };
                            let s = make(&p);
                            st.states += 1;
                            case(&plan_case(&p, 0, tr, 0));
                            for (sec, ns) in &pts {
                                st.trans += 1;
                                st.traces += 1;
                                if let Err(e) = probe(&s, &p, *sec, *ns) {
                                    ctx.violation(&e, &plan_case(&p, 0, *sec, *ns));
                                }
                            }
                        }
                    }
                }
            }
        }
        st.flush(ctx);
    });
    histories(ctx);
    ctx.note("time_zones", zones.len().to_string());
    ctx.note("schedules_per_window", (day_pairs.len() * (tods.len() * tods.len() + 1)).to_string());
    ctx.note("exhaustive", "true".into());
    ctx.sample(plan_case(&Plan { times: Some((t(17, 0, 0), t(9, 0, 1))), days: Some((6, 4)), tz: Tz::Europe__London }, 0, 1_666_483_200, 0));
    ctx.assume("the time zone database of chrono-tz is right; weekly schedules which start and end at the same day and time are only required to include that time");
}

// ------------------------------------------------------------------ C12
const SKEYS: [&str; 5] = ["start_time", "end_time", "start_day", "end_day", "default_timezone"];

fn parse_tod(s: &str) -> Option<i64> {
    let b: Vec<&str> = s.split(':').collect();
    if b.len() != 3 || b.iter().any(|x| x.len() != 2 || !x.bytes().all(|c| c.is_ascii_digit())) {
        return None;
    }
    let n: Vec<i64> = b.iter().map(|x| x.parse().unwrap()).collect();
    (n[0] < 24 && n[1] < 60 && n[2] < 60).then(|| (n[0] * 3600 + n[1] * 60 + n[2]) * NS)
}
fn parse_day(s: &str) -> Option<i64> {
    let names = ["monday", "tuesday", "wednesday", "thursday", "friday", "saturday", "sunday"];
    let l = s.to_lowercase();
    names.iter().position(|n| *n == l || (l.len() == 3 && n.starts_with(&l))).map(|i| i as i64)
}
fn parse_tz(s: &str) -> Option<Tz> {
    chrono_tz::TZ_VARIANTS.iter().find(|t| t.name() == s).copied()
}

/// The schedule of session i (section i of the configuration), or why there is none.
fn plan_of(c: &[Section], i: usize) -> Result<Plan, &'static str> {
    let get = |k: &str| {
        let f = |s: &Section| s.sets.iter().find(|(x, _)| x == k).map(|(_, v)| v.clone());
        f(&c[i]).or_else(|| f(&c[0]))
    };
    let t = |k: &str| get(k).map_or(Ok(None), |v| parse_tod(&v).map(Some).ok_or("unparsable time"));
    let d = |k: &str| get(k).map_or(Ok(None), |v| parse_day(&v).map(Some).ok_or("unparsable day"));
    let (st, et) = (t(SKEYS[0])?, t(SKEYS[1])?);
    let (sd, ed) = (d(SKEYS[2])?, d(SKEYS[3])?);
    let tz = get(SKEYS[4]).map_or(Ok(Tz::UTC), |v| parse_tz(&v).ok_or("unparsable time zone"))?;
    if st.is_some() != et.is_some() {
        return Err("only one of start and end time");
    }
    if sd.is_some() != ed.is_some() {
        return Err("only one of start and end day");
    }
    if sd.is_some() && st.is_none() {
        return Err("days without times");
    }
    Ok(Plan { times: st.map(|s| (s, et.unwrap())), days: sd.map(|s| (s, ed.unwrap())), tz })
}

fn sched_case(ctx: &Ctx, c: &[Section], st: &mut Stats) {
    let text = write_cfg(c, &PLAIN);
    let desc = format!("config {}", json_str(&text));
    case(&desc);
    let p = match guard(|| Properties::from_str(&text)) {
        Ok(p) => p,
        Err(e) => ctx.violation(&format!("a configuration is refused: {}", e), &desc),
    };
    for i in 1..c.len() {
        let target = &c[i].sets.iter().find(|(k, _)| k == TARGET_COMPID_SETTING).unwrap().1;
        let id = SessionIdBuilder::new("FIX.4.3", "S", target.as_str()).build().unwrap();
        st.traces += 1;
        let got = guard(|| SessionSchedule::create_schedule(&id, &p));
        match (got, plan_of(c, i)) {
            (Err(_), Err(_)) => st.count("refused"),
            (Ok(_), Err(why)) => ctx.violation(&format!("settings of {} give a schedule although: {}", target, why), &desc),
            (Err(e), Ok(_)) => ctx.violation(&format!("complete settings of {} are refused: {}", target, e), &desc),
            (Ok(s), Ok(plan)) => {
                st.count("created");
                let mut tods = vec![0, 12 * 3600 * NS];
                if let Some((a, b)) = plan.times {
                    tods.extend([a, b]);
                }
                // 2023-03-06, a Monday, to the day after the next Monday; the offset changes on its Sunday
                for (sec, ns) in instants(plan.tz, 19_422, 8, &tods) {
                    st.trans += 1;
                    if let Err(e) = probe(&s, &plan, sec, ns) {
                        ctx.violation(&format!("{} (session {})", e, target), &format!("{}\nat {} {}", desc, sec, ns));
                    }
                }
            }
        }
    }
}

pub fn c12(ctx: &Ctx) {
    clock_self_test();
    if let Some(r) = &ctx.replay {
        let b = replay_body(r);
        let text = from_json_str(b.lines().next().unwrap().strip_prefix("config ").unwrap());
        let mut c: Vec<Section> = vec![];
        for l in text.lines() {
            if l.starts_with('[') {
                c.push(section(l == "[Default]", &[]));
            } else if let Some((k, v)) = l.split_once(" = ") {
                c.last_mut().unwrap().sets.push((k.to_string(), v.trim_matches('"').to_string()));
            }
        }
        return sched_case(ctx, &c, &mut Stats::default());
    }
    let base = |n: usize| {
        let mut c = vec![section(
            true,
            &[
                (CONNECTION_TYPE_SETTING, "acceptor"),
                (BEGIN_STRING_SETTING, "FIX.4.3"),
                (SENDER_COMPID_SETTING, "S"),
                (SOCKET_ACCEPT_PORT_SETTING, "9000"),
            ],
        )];
        for i in 1..=n {
            c.push(section(false, &[(TARGET_COMPID_SETTING, &format!("T{}", i))]));
        }
        c
    };
    // where each of the five settings is written: value classes for (default, session 1)
    // default, session: values valid and different
    let vals: [[&str; 3]; 5] = [
        ["08:00:00", "09:30:00", "25:00:00"],
        ["16:00:00", "07:15:30", "noon"],
        ["Monday", "tue", "Someday"],
        ["Thu", "FRIDAY", ""],
        ["America/New_York", "Asia/Tokyo", "Nowhere/Land"],
    ];
    // (default, session): 0 absent, 1 first value, 2 second value, 3 invalid
    let places: &[(usize, usize)] =
        &[(0, 0), (1, 0), (0, 2), (1, 2), (3, 0), (0, 3), (3, 2), (1, 3), (2, 1)];
    let n = places.len();
    let items: Vec<usize> = (0..n * n).collect();
    par(&items, |a| {
        let mut st = Stats::default();
        for b in 0..n * n * n {
            let p = [a % n, a / n, b % n, b / n % n, b / n / n];
            let mut c = base(1);
            for k in 0..5 {
                let (d, s) = places[p[k]];
                if d > 0 {
                    c[0].sets.push((SKEYS[k].into(), vals[k][d - 1].into()));
                }
                if s > 0 {
                    c[1].sets.push((SKEYS[k].into(), vals[k][s - 1].into()));
                }
            }
            st.states += 1;
            sched_case(ctx, &c, &mut st);
        }
        st.flush(ctx);
    });
    // two sessions with each setting in any of the three sections: values do not mix
    let v3: [[&str; 3]; 5] = [
        ["08:00:00", "09:30:00", "22:00:00"],
        ["16:00:00", "07:15:30", "05:00:00"],
        ["Mon", "tuesday", "SUN"],
        ["Thursday", "fri", "Tuesday"],
        ["America/New_York", "Asia/Tokyo", "Europe/London"],
    ];
    let items: Vec<u32> = (0..64).collect();
    par(&items, |a| {
        let mut st = Stats::default();
        for b in 0..512u32 {
            let mask = *a * 512 + b;
            let mut c = base(2);
            for k in 0..5 {
                for s in 0..3 {
                    if mask >> (k * 3 + s) & 1 == 1 {
                        c[s].sets.push((SKEYS[k].into(), v3[k][s].into()));
                    }
                }
            }
            st.states += 1;
            sched_case(ctx, &c, &mut st);
            if !ctx.quick() {
                c.swap(1, 2);
                sched_case(ctx, &c, &mut st);
            }
        }
        st.flush(ctx);
    });
    // every combination of times (also the same ones), days and zones
    let tods = ["00:00:00", "00:00:01", "08:00:00", "16:30:00", "23:59:59"];
    let names = ["Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday", "Sunday"];
    let zones = if ctx.quick() { vec!["", "Europe/London", "Asia/Kolkata"] } else { vec!["", "UTC", "Europe/London", "Asia/Kolkata", "America/New_York", "Australia/Lord_Howe", "Pacific/Apia"] };
    let items: Vec<usize> = (0..50).collect();
    par(&items, |d| {
        let mut st = Stats::default();
        for a in tods {
            for b in tods {
                for z in &zones {
                    // in the default section, in the session's
                    for at in 0..2 {
                        let mut c = base(1);
                        let mut add = |k: usize, v: &str| c[at].sets.push((SKEYS[k].into(), v.into()));
                        add(0, a);
                        add(1, b);
                        if *d < 49 {
                            add(2, names[d / 7]);
                            add(3, names[d % 7]);
                        }
                        if !z.is_empty() {
                            add(4, z);
                        }
                        st.states += 1;
                        sched_case(ctx, &c, &mut st);
                    }
                }
            }
        }
        st.flush(ctx);
    });
    // spellings: every weekday in its forms, several zones and times, and values which are none
    let mut st = Stats::default();
    let days = ["Monday", "TUESDAY", "wednesday", "Thu", "fri", "SAT", "Sunday", "Mo", "Mond ay", "1", "", "mondays"];
    for a in days {
        for b in days {
            for z in ["UTC", "GMT", "Europe/London", "America/Sao_Paulo", "Asia/Kolkata", "Etc/GMT+5", "London", "", "UTC+1"] {
                for (x, y) in [("00:00:00", "23:59:59"), ("23:59:59", "00:00:00"), ("09:00:01", "09:00:02"), ("24:00:00", "01:00:00"), ("09:00:00", "09:60:00"), ("", "09:00:00"), ("09:00:00", "-1"), ("9 am", "17:00:00")] {
                    let mut c = base(1);
                    for (k, v) in SKEYS.iter().zip([x, y, a, b, z]) {
                        c[1].sets.push((k.to_string(), v.into()));
                    }
                    st.states += 1;
                    sched_case(ctx, &c, &mut st);
                }
            }
        }
    }
    st.flush(ctx);
    ctx.note("exhaustive", "true".into());
    ctx.sample(write_cfg(&base(1), &PLAIN));
    ctx.assume("times are written HH:MM:SS, days by their English names or the first three letters, zones by their IANA names");
}
