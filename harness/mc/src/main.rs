mod core;
mod eng_arch;
mod eng_clash;
mod eng_count;
mod eng_data;
mod eng_diff;
mod eng_huge;
mod eng_limit;
mod eng_nested;
mod eng_order;
mod eng_read;
mod eng_sets;
mod eng_slots;
mod eng_store;
mod faults;
mod forks;
mod hist;
mod props;
mod tables;
mod world;

use crate::core::*;
use std::sync::atomic::Ordering::*;
use std::time::{Duration, Instant};

#[global_allocator]
static GLOBAL: mcbase::alloc::Checked = mcbase::alloc::Checked;

pub mod sys {
    extern "C" {
        pub fn fork() -> i32;
        pub fn waitpid(pid: i32, status: *mut i32, opt: i32) -> i32;
        pub fn kill(pid: i32, sig: i32) -> i32;
        pub fn _exit(c: i32) -> !;
        pub fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
        pub fn munmap(a: *mut u8, n: usize) -> i32;
        pub fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
        pub fn mprotect(a: *mut u8, n: usize, prot: i32) -> i32;
        pub fn sigaction(sig: i32, new: *const [u64; 19], old: *mut [u64; 19]) -> i32;
        pub fn prctl(a: i32, b: u64, c: u64, d: u64, e: u64) -> i32;
    }
}

pub const PROFILE: &str = if cfg!(debug_assertions) { "checked" } else { "release" };

pub fn shared<T>(n: usize) -> *mut T {
    unsafe { sys::mmap(std::ptr::null_mut(), n * std::mem::size_of::<T>(), 3, 0x21, -1, 0) as *mut T }
}

fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        mcbase::alloc::user(|| {
            let l = i.location().map_or(String::new(), |l| format!("{}:{}", l.file(), l.line()));
            LAST_PANIC.with(|p| *p.borrow_mut() = l);
            if std::env::var_os("MC_TRACE").is_some() {
                eprintln!("panic: {i}");
            }
        })
    }));
}

enum End {
    Exit(i32),
    Signal(i32),
    Hang,
}
fn wait(pid: i32, limit: Duration, mut hung: impl FnMut() -> bool) -> End {
    let t0 = Instant::now();
    loop {
        let mut st = 0;
        let r = unsafe { sys::waitpid(pid, &mut st, 1) };
        if r == pid {
            return if st & 0x7f == 0 { End::Exit(st >> 8 & 0xff) } else { End::Signal(st & 0x7f) };
        }
        if t0.elapsed() > limit || hung() {
            unsafe {
                sys::kill(pid, 9);
                sys::waitpid(pid, &mut st, 0);
            }
            return End::Hang;
        }
        std::thread::sleep(Duration::from_millis(if t0.elapsed().as_millis() < 200 { 2 } else { 20 }));
    }
}
fn no_core() {
    unsafe {
        sys::setrlimit(4, &[0, 0]);
    }
}

/// Runs one case in a fresh process.  Some(message) if it violates the property.
fn confirm(pr: &props::Prop, tier: Tier, cases: &[Vec<Word>], limit: Duration) -> Option<String> {
    let buf: *mut u8 = shared(4096);
    let pid = unsafe { sys::fork() };
    if pid == 0 {
        no_core();
        unsafe { sys::prctl(1, 9, 0, 0, 0) };
        let mut hit = None;
        for w in cases {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| pr.run(tier, w)));
            match r {
                Ok(fs) => {
                    if let Some(f) = fs.into_iter().find(|f| f.props & p(pr.id) != 0) {
                        hit = Some(f.msg);
                    }
                }
                Err(e) => hit = Some(format!("panic: {} at {}", pmsg(&*e), last_panic_loc())),
            }
            if hit.is_some() {
                break;
            }
        }
        mcbase::alloc::flush_quarantine();
        if let Some(m) = &hit {
            let b = m.as_bytes();
            let n = b.len().min(4000);
            unsafe {
                std::ptr::copy_nonoverlapping(b.as_ptr(), buf.add(2), n);
                *(buf as *mut u16) = n as u16;
            }
        }
        unsafe { sys::_exit(hit.is_some() as i32) }
    }
    let r = match wait(pid, limit, || false) {
        End::Exit(0) => None,
        End::Exit(_) => unsafe {
            let n = *(buf as *mut u16) as usize;
            Some(String::from_utf8_lossy(std::slice::from_raw_parts(buf.add(2), n)).to_string())
        },
        End::Signal(9) => None,
        End::Signal(s) => Some(format!("the process was killed by signal {s}{}", match s { 11 => " (invalid memory access)", 6 => " (abort)", 7 => " (bus error)", _ => "" })),
        End::Hang => Some(format!("does not finish within {} s", limit.as_secs())),
    };
    unsafe { sys::munmap(buf, 4096) };
    r
}

fn run(prop: u32, tier: Tier, out: &str, threads: usize) -> i32 {
    let pr = props::all().into_iter().find(|x| x.id == prop).expect("unknown property");
    let t0 = Instant::now();
    let slots: *mut Slot = shared(MAXT);
    let hang_ms = pr.hang_s * 1000;
    let limit = if tier == Tier::Quick { 700 } else { 6 * 3600 };
    let tmp = format!("{out}.part");
    let pid = unsafe { sys::fork() };
    if pid == 0 {
        no_core();
        unsafe { sys::prctl(1, 9, 0, 0, 0) };
        let cx = Cx {
            prop,
            tier,
            profile: PROFILE,
            slots,
            threads,
            deadline: Instant::now() + Duration::from_secs(if tier == Tier::Quick { 420 } else { 5 * 3600 }),
            stop: Default::default(),
            states: Default::default(),
            transitions: Default::default(),
            executions: Default::default(),
            violation: Default::default(),
            cover: Default::default(),
            notes: Default::default(),
            samples: Default::default(),
            truncated: Default::default(),
            foreign: Default::default(),
        };
        pr.explore(&cx);
        let v = cx.violation.lock().unwrap().clone();
        let mut j = String::from("{");
        j += &format!("\"states\":{},\"transitions\":{},\"executions\":{},", cx.states.load(Relaxed), cx.transitions.load(Relaxed), cx.executions.load(Relaxed));
        j += &format!("\"truncated\":{},", cx.truncated.load(Relaxed));
        j += &format!("\"cover\":{{{}}},", cx.cover.lock().unwrap().iter().map(|(k, v)| format!("{}:{}", json_str(k), v)).collect::<Vec<_>>().join(","));
        j += &format!("\"foreign\":{{{}}},", cx.foreign.lock().unwrap().iter().map(|(k, v)| format!("{}:{}", json_str(k), v)).collect::<Vec<_>>().join(","));
        j += &format!("\"notes\":[{}],", cx.notes.lock().unwrap().iter().map(|s| json_str(s)).collect::<Vec<_>>().join(","));
        j += &format!("\"samples\":[{}],", cx.samples.lock().unwrap().iter().map(|s| json_str(&pr.show(tier, s))).collect::<Vec<_>>().join(","));
        let words = v.as_ref().map(|v| v.0.clone()).unwrap_or_default();
        j += &format!("\"violation\":{},", v.as_ref().map_or("null".into(), |v| json_str(&v.1)));
        j += &format!("\"words\":[{}]}}", words.iter().map(|w| format!("\"{w:x}\"")).collect::<Vec<_>>().join(","));
        std::fs::write(&tmp, j).unwrap();
        unsafe { sys::_exit(0) }
    }
    let mut hung_slot = None;
    let end = wait(pid, Duration::from_secs(limit), || {
        let now = now_ms();
        for t in 0..MAXT {
            let b = unsafe { &*slots.add(t) }.began.load(Relaxed);
            if b != 0 && now > b + hang_ms {
                hung_slot = Some(t);
                return true;
            }
        }
        false
    });
    let mut body = std::fs::read_to_string(&tmp).unwrap_or_default();
    let _ = std::fs::remove_file(&tmp);
    let mut viol: Option<(Vec<Vec<Word>>, String)> = None;
    let mut inconclusive = String::new();
    let get = |t: usize, i: u64| -> Vec<Word> {
        let s = unsafe { &*slots.add(t) };
        let r = (i % RING as u64) as usize;
        let l = s.len[r].load(Relaxed) as usize;
        (0..l).map(|j| s.words[r][j].load(Relaxed)).collect()
    };
    match end {
        End::Exit(0) => {
            if let Some((words, msg)) = parse_violation(&body) {
                // once more, in a fresh process
                let again = confirm(&pr, tier, &[words.clone()], Duration::from_secs(pr.hang_s));
                let note = if again.is_some() { "" } else { " [seen once, not reproduced by a second execution]" };
                viol = Some((vec![words], again.unwrap_or(msg) + note));
            }
        }
        End::Signal(9) => inconclusive = "the exploring process was killed (out of memory?)".into(),
        End::Exit(c) => inconclusive = format!("the exploring process exited with {c}"),
        End::Signal(_) | End::Hang => {
            let what = match end {
                End::Signal(s) => format!("signal {s}"),
                _ => "hang".into(),
            };
            for t in 0..MAXT {
                let s = unsafe { &*slots.add(t) };
                if s.began.load(Relaxed) == 0 || viol.is_some() {
                    continue;
                }
                if matches!(end, End::Hang) && hung_slot.map_or(false, |h| h != t) {
                    continue;
                }
                let n = s.n.load(Relaxed);
                let w = get(t, n - 1);
                if let Some(m) = confirm(&pr, tier, &[w.clone()], Duration::from_secs(pr.hang_s)) {
                    viol = Some((vec![w], m));
                    break;
                }
            }
            if viol.is_none() {
                // damage done by an earlier case of the same thread
                for t in 0..MAXT {
                    let s = unsafe { &*slots.add(t) };
                    let n = s.n.load(Relaxed);
                    if n == 0 || viol.is_some() {
                        continue;
                    }
                    let ws: Vec<Vec<Word>> = (n.saturating_sub(RING as u64)..n).map(|i| get(t, i)).collect();
                    if let Some(m) = confirm(&pr, tier, &ws, Duration::from_secs(pr.hang_s * 2)) {
                        viol = Some((ws, m));
                    }
                }
            }
            if viol.is_none() {
                if let End::Signal(s) = end {
                    // Memory was damaged by something the recorded cases do not reproduce on their own.
                    let ws: Vec<Vec<Word>> = (0..MAXT).filter(|t| unsafe { &*slots.add(*t) }.began.load(Relaxed) != 0).map(|t| get(t, unsafe { &*slots.add(t) }.n.load(Relaxed) - 1)).collect();
                    viol = Some((ws, format!("the exploring process was killed by signal {s} while these cases ran (memory corruption); none of them reproduces it alone")));
                } else {
                    inconclusive = format!("exploration ended with {what}, which no recorded case reproduces");
                }
            }
        }
    }
    if body.is_empty() {
        body = "{\"states\":0,\"transitions\":0,\"executions\":0,\"truncated\":true,\"cover\":{},\"foreign\":{},\"notes\":[],\"samples\":[],\"violation\":null,\"words\":[]}".into();
    }
    let mut j = body.trim_end_matches('}').to_string();
    j += &format!(",\"profile\":\"{PROFILE}\",\"wall_s\":{:.2},\"inconclusive\":{}", t0.elapsed().as_secs_f64(), json_str(&inconclusive));
    if let Some((ws, m)) = &viol {
        let story = ws.iter().map(|w| pr.show(tier, w)).collect::<Vec<_>>().join("\nthen: ");
        j += &format!(
            ",\"confirmed\":{{\"message\":{},\"history\":{},\"cases\":[{}]}}",
            json_str(m),
            json_str(&story),
            ws.iter().map(|w| json_str(&w.iter().map(|x| format!("{x:x}")).collect::<Vec<_>>().join(" "))).collect::<Vec<_>>().join(",")
        );
    }
    j += "}";
    std::fs::write(out, j).unwrap();
    if viol.is_some() {
        1
    } else if !inconclusive.is_empty() {
        2
    } else {
        0
    }
}

fn parse_violation(body: &str) -> Option<(Vec<Word>, String)> {
    let i = body.rfind("\"violation\":")? + 12;
    if body[i..].starts_with("null") {
        return None;
    }
    let j = body.rfind(",\"words\":[")?;
    let msg = body[i..j].trim_matches('"').replace("\\\"", "\"").replace("\\n", "\n");
    let words = body[j + 10..].trim_end_matches(|c| c == '}' || c == ']').split(',').filter_map(|x| u64::from_str_radix(x.trim_matches('"'), 16).ok()).collect();
    Some((words, msg))
}

fn main() {
    quiet_panics();
    let a: Vec<String> = std::env::args().collect();
    let tier = |s: &str| if s == "thorough" { Tier::Thorough } else { Tier::Quick };
    let pid = |s: &str| s.trim_start_matches(|c: char| !c.is_ascii_digit()).parse::<u32>().expect("property id");
    match a.get(1).map(|s| s.as_str()) {
        Some("run") => {
            let th = std::env::var("MC_THREADS").ok().and_then(|x| x.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get()).min(MAXT));
            std::process::exit(run(pid(&a[2]), tier(&a[3]), &a[4], th));
        }
        Some("replay") => {
            // mc replay P05 quick "<hex words>" ["<hex words>" ...]
            let pr = props::all().into_iter().find(|x| x.id == pid(&a[2])).unwrap();
            let t = tier(&a[3]);
            let cases: Vec<Vec<Word>> = a[4..].iter().map(|c| c.split_whitespace().map(|x| u64::from_str_radix(x, 16).unwrap()).collect()).collect();
            for c in &cases {
                println!("{}", pr.show(t, c));
            }
            match confirm(&pr, t, &cases, Duration::from_secs(pr.hang_s)) {
                Some(m) => {
                    println!("FAILS: {m}");
                    std::process::exit(1)
                }
                None => println!("holds"),
            }
        }
        Some("list") => {
            for x in props::all() {
                println!("P{:02}", x.id);
            }
        }
        _ => {
            eprintln!("usage: mc run|replay|list ...");
            std::process::exit(2)
        }
    }
}
