//! Makes library calls in the threads and under the schedule a request describes; one forked process per request.
use latkerlo_jvotci::*;
use std::fmt::Debug;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

unsafe extern "C" {
    fn sim_setup(seed: u64, gap: u64, rare: u64, sync: u64, spurious: i32, wall: u64, cap: u64);
    fn sim_segment(t: i32, kind: i32, n: u64);
    fn sim_sync(from: i64, size: i64);
    fn sim_run() -> i32;
    fn sim_call_ended();
    fn sim_count(what: i32, t: i32) -> u64;
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn alarm(s: u32) -> u32;
}

fn text<T: Debug, E: Debug>(r: Result<T, E>) -> String {
    match r {
        Ok(v) => format!("ok {v:?}"),
        Err(e) => format!("err {e:?}"),
    }
}

fn ok<T: Debug>(v: T) -> String {
    format!("ok {v:?}")
}

#[cfg(more)]
fn owned(words: &[&str]) -> Vec<String> {
    words.iter().map(|w| w.to_string()).collect()
}

#[cfg(more)]
fn more(f: &str, a: &str, s: &Settings) -> String {
    let words: Vec<&str> = a.split(' ').collect();
    match f {
        "jvokaha" => text(katna::jvokaha(a, s)),
        "jvokaha2" => text(katna::jvokaha2(a, s)),
        "is_slinkuhi" => text(tools::is_slinkuhi(a, s)),
        "is_gismu_or_lujvo" => text(tools::is_gismu_or_lujvo(a, s)),
        "search_selrafsi_from_rafsi" => ok(katna::search_selrafsi_from_rafsi(a)),
        "get_rafsi_indices" => ok(tools::get_rafsi_indices(&words)),
        "check_zihevla_or_rafsi" => text(tools::check_zihevla_or_rafsi(a, s, false)),
        "check_zihevla" => text(tools::check_zihevla_or_rafsi(a, s, true)),
        "is_valid_rafsi" => ok(tarmi::is_valid_rafsi(a, s)),
        "is_gismu" => ok(tarmi::is_gismu(a, s)),
        "rafsi_tarmi" => ok(tarmi::rafsi_tarmi(a)),
        "strip_hyphens" => ok(tarmi::strip_hyphens(a)),
        "split_vowel_cluster" => text(tarmi::split_vowel_cluster(a)),
        "is_zihevla_middle_cluster" => ok(tarmi::is_zihevla_middle_cluster(a)),
        "process_tanru" => ok(jvozba::process_tanru(a)),
        "get_lujvo_from_list" => text(jvozba::get_lujvo_from_list(&owned(&words), s)),
        "get_rafsi_list_list" => text(jvozba::get_rafsi_list_list(&owned(&words), s)),
        "selrafsi_list_from_rafsi_list" => text(katna::selrafsi_list_from_rafsi_list(&owned(&words), s)),
        "compare_lujvo_pieces" => ok(katna::compare_lujvo_pieces(&owned(&words), &owned(&words))),
        "score" => ok(jvozba::score(a)),
        _ => "none".into(),
    }
}

#[cfg(not(more))]
fn more(_f: &str, _a: &str, _s: &Settings) -> String {
    "none".into()
}

fn make(f: &str, a: &str, s: &Settings) -> String {
    match f {
        "get_lujvo" => text(get_lujvo(a, s)),
        "get_lujvo_with_analytics" => text(get_lujvo_with_analytics(a, s)),
        "get_veljvo" => text(get_veljvo(a, s)),
        "score_lujvo" => text(score_lujvo(a, s)),
        "analyze_brivla" => text(analyze_brivla(a, s)),
        "is_brivla" => ok(is_brivla(a, s)),
        "normalize" => ok(normalize(a)),
        "grll" => text(grll(a, s)),
        _ => more(f, a, s),
    }
}

fn outcome(f: &str, a: &str, s: &Settings) -> String {
    match catch_unwind(AssertUnwindSafe(|| make(f, a, s))) {
        Ok(t) => t,
        Err(p) => {
            let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|m| m.to_string()));
            format!("panic {m:?}")
        }
    }
}

fn unhex(h: &str) -> String {
    let b: Vec<u8> = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
    String::from_utf8(b).unwrap()
}

fn child(req: &[String]) -> ! {
    std::panic::set_hook(Box::new(|_| {}));
    let mut threads: Vec<Vec<(String, Settings, String)>> = vec![];
    for l in req {
        let w: Vec<&str> = l.split(' ').collect();
        match w[0] {
            "run" => unsafe { sim_setup(w[1].parse().unwrap(), w[2].parse().unwrap(), w[3].parse().unwrap(), w[4].parse().unwrap(), w[5].parse().unwrap(), w[6].parse().unwrap(), w[7].parse().unwrap()) },
            "seg" => unsafe { sim_segment(w[1].parse().unwrap(), w[2].parse().unwrap(), w[3].parse().unwrap()) },
            "thread" => threads.push(vec![]),
            "call" => threads.last_mut().unwrap().push((w[1].into(), w[2].parse().unwrap_or_default(), unhex(w.get(3).unwrap_or(&"")))),
            _ => {}
        }
    }
    let n = threads.len();
    let results: Vec<*mut Vec<Option<String>>> = threads.iter().map(|c| Box::into_raw(Box::new(vec![None; c.len()]))).collect();
    for (t, calls) in threads.into_iter().enumerate() {
        let to = results[t] as usize;
        std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn(move || {
                for (i, (f, s, a)) in calls.iter().enumerate() {
                    let r = outcome(f, a, s);
                    unsafe { (&mut *(to as *mut Vec<Option<String>>))[i] = Some(r) };
                    unsafe { sim_call_ended() };
                }
            })
            .unwrap();
    }
    let status = unsafe { sim_run() };
    let mut out = String::new();
    for (t, r) in results.iter().enumerate() {
        for (i, x) in unsafe { &**r }.iter().enumerate() {
            if let Some(x) = x {
                out += &format!("o {t} {i} {}\n", x.bytes().map(|b| format!("{b:02x}")).collect::<String>());
            }
        }
        out += &format!("t {t} {} {} {}\n", unsafe { sim_count(0, t as i32) }, unsafe { sim_count(1, t as i32) }, unsafe { sim_count(8, t as i32) });
    }
    let log = unsafe { sim_count(6, 0) }.min(400);
    out += "l";
    for i in 0..log {
        out += &format!(" {}:{}", unsafe { sim_count(9, i as i32) }, unsafe { sim_count(10, i as i32) });
    }
    out += &format!("\ns {} {} {} {} {}\n", n, unsafe { sim_count(2, 0) }, unsafe { sim_count(3, 0) }, unsafe { sim_count(4, 0) }, unsafe { sim_count(5, 0) });
    out += &format!("end {status}\n");
    let mut o = std::io::stdout().lock();
    o.write_all(out.as_bytes()).unwrap();
    o.flush().unwrap();
    unsafe { _exit(0) }
}

fn main() {
    for l in std::fs::read_to_string(std::env::args().nth(1).unwrap()).unwrap().lines() {
        let (from, size) = l.split_once(' ').unwrap();
        unsafe { sim_sync(from.parse().unwrap(), size.parse().unwrap()) };
    }
    let mut req = vec![];
    for l in std::io::stdin().lock().lines() {
        let l = l.unwrap();
        if l != "go" {
            req.push(l);
            continue;
        }
        let pid = unsafe { fork() };
        if pid == 0 {
            unsafe { alarm(60) };
            child(&req);
        }
        let mut st = 0;
        unsafe { waitpid(pid, &mut st, 0) };
        if st != 0 {
            println!("died {st}");
        }
        std::io::stdout().flush().unwrap();
        req.clear();
    }
}
