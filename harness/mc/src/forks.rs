//! Runs cases in forked copies of the calling process, so that a state that is expensive to build can be continued
//! in many ways. Only to be called while this process has a single thread.
use crate::core::*;
use crate::sys;
use std::time::{Duration, Instant};

pub enum Out {
    Fine,
    Failed(Vec<Fail>),
    /// Crashed, was killed or did not end.
    Lost,
}
const MSG: usize = 2048;

/// For each i < n runs `f(i)` in a child, at most `par` at a time.
pub fn fork_map(n: usize, par: usize, limit: Duration, f: &dyn Fn(usize) -> Vec<Fail>) -> Vec<Out> {
    let buf = crate::shared::<u8>(MSG * n.max(1));
    let mut out: Vec<Out> = (0..n).map(|_| Out::Lost).collect();
    let mut running: Vec<(i32, usize, Instant)> = vec![];
    let mut next = 0;
    let mut stop = false;
    while (next < n && !stop) || !running.is_empty() {
        while next < n && !stop && running.len() < par {
            let slot = unsafe { buf.add(MSG * next) };
            let pid = unsafe { sys::fork() };
            if pid == 0 {
                unsafe { sys::prctl(1, 9, 0, 0, 0) };
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(next)));
                let fails = match r {
                    Ok(v) => v,
                    Err(e) => vec![Fail { props: ALL, msg: format!("panic: {} at {}", pmsg(&*e), last_panic_loc()) }],
                };
                unsafe {
                    *slot.add(1) = fails.len().min(255) as u8;
                    if let Some(x) = fails.iter().find(|x| x.props & ALL == x.props).or(fails.first()) {
                        let b = x.msg.as_bytes();
                        let l = b.len().min(MSG - 32);
                        *(slot.add(8) as *mut u64) = x.props;
                        *(slot.add(16) as *mut u64) = l as u64;
                        std::ptr::copy_nonoverlapping(b.as_ptr(), slot.add(24), l);
                    }
                    *slot = 1;
                    sys::_exit(0)
                }
            }
            if pid < 0 {
                if running.is_empty() {
                    stop = true;
                }
                break;
            }
            running.push((pid, next, Instant::now()));
            next += 1;
        }
        let mut k = 0;
        while k < running.len() {
            let (pid, i, t0) = running[k];
            let mut st = 0;
            let r = unsafe { sys::waitpid(pid, &mut st, 1) };
            let over = t0.elapsed() > limit;
            if r == pid || over {
                if over && r != pid {
                    unsafe {
                        sys::kill(pid, 9);
                        sys::waitpid(pid, &mut st, 0);
                    }
                } else {
                    let s = unsafe { buf.add(MSG * i) };
                    unsafe {
                        if *s == 1 {
                            out[i] = if *s.add(1) == 0 {
                                Out::Fine
                            } else {
                                let props = *(s.add(8) as *const u64);
                                let l = *(s.add(16) as *const u64) as usize;
                                Out::Failed(vec![Fail { props, msg: String::from_utf8_lossy(std::slice::from_raw_parts(s.add(24), l)).into_owned() }])
                            };
                        }
                    }
                }
                if !matches!(out[i], Out::Fine) {
                    stop = true;
                }
                running.swap_remove(k);
            } else {
                k += 1;
            }
        }
        std::thread::sleep(Duration::from_micros(500));
    }
    unsafe { sys::munmap(buf, MSG * n.max(1)) };
    for o in out.iter_mut().skip(next) {
        *o = Out::Fine; // not started because of an earlier failure
    }
    out
}
