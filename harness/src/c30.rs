//! C30: log messages arrive whole, once and in order.
use crate::core::*;
use crate::ensure;
use hexodsp::log::*;
use serde_json::json;
use std::collections::HashMap;
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

static NAMES: AtomicU64 = AtomicU64::new(0);
/// Completed retrievals.
static FETCHES: AtomicU64 = AtomicU64::new(0);
/// Everything that was received, by thread name (cases run next to each other).
static GOT: Mutex<Vec<(String, Vec<String>, Arc<AtomicU64>)>> = Mutex::new(vec![]);

fn text(thread: u64, seq: u64, len: usize) -> String {
    let mut s = format!("<{}.{}.{}:", thread, seq, len);
    let alpha = ["a", "Z", "0", " ", "\n", "ä", "€", "𝄞", "{}", "\u{7f}", "\0"];
    let mut x = seq.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ thread;
    while s.len() < len {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        s.push_str(alpha[(x % alpha.len() as u64) as usize]);
    }
    while s.len() > len.max(24) {
        s.pop();
    }
    s.push('>');
    s
}

pub fn run(rep: &mut Report) {
    rep.rule = "one evaluation = one to six threads logging numbered messages of 25 to 510 bytes (paced by what was received, or at full speed), partly with messages that are too long in between, while one or two readers fetch them at random moments; what is received is compared with what was logged".into();
    rep.assumptions = vec![
        "up to 511 bytes are a message, up to 3500 bytes may be waiting; beyond this messages may be lost as a whole, too long ones may be cut off".into(),
        "messages are text (no byte 0xFF)".into(),
        "messages of other threads of the harness are ignored".into(),
    ];
    let n = rep.opts.n(150, 700);
    rep.run("threads", n, |rng, case, obs| {
        let nt = rng.range(1, 6) as usize;
        let paced = case % 3 != 0;
        let over = case % 2 == 0;
        let readers = if rng.chance(0.3) { 2 } else { 1 };
        let stop = Arc::new(AtomicBool::new(false));
        let base = NAMES.fetch_add(nt as u64, Ordering::Relaxed);
        let names: Vec<&'static str> = (0..nt).map(|i| &*Box::leak(format!("mon{}", base + i as u64).into_boxed_str())).collect();
        let recvd: Arc<Vec<Arc<AtomicU64>>> = Arc::new((0..nt).map(|_| Default::default()).collect());
        for i in 0..nt {
            GOT.lock().unwrap().push((names[i].to_string(), vec![], recvd[i].clone()));
        }
        let fetch = || {
            // (the lock is taken first, to keep the order of several readers)
            let mut g = GOT.lock().unwrap();
            retrieve_log_messages(|n, m| {
                if let Some(x) = g.iter_mut().find(|x| x.0 == n) {
                    x.1.push(m.to_string());
                    x.2.fetch_add(m.len() as u64 + 1, Ordering::Relaxed);
                }
            });
            FETCHES.fetch_add(1, Ordering::SeqCst);
        };
        let mut rs = vec![];
        for _ in 0..readers {
            let (stop, fetch, mut r) = (stop.clone(), fetch.clone(), Rng::new(rng.u64()));
            rs.push(std::thread::spawn(move || {
                while !stop.load(Ordering::Relaxed) {
                    fetch();
                    match r.below(4) {
                        0 => std::thread::sleep(std::time::Duration::from_micros(r.below(300) as u64)),
                        1 => std::thread::yield_now(),
                        _ => (),
                    }
                }
            }));
        }
        let mut ws = vec![];
        for t in 0..nt {
            let (mut r, recvd, name) = (Rng::new(rng.u64()), recvd.clone(), names[t]);
            let k = r.range(20, 400) as u64;
            ws.push(std::thread::spawn(move || {
                // not ready yet: lost, but harmless
                log(|w| {
                    let _ = write!(w, "too early");
                });
                let first = init_thread_logger(name);
                let second = init_thread_logger("mon-second");
                let mut sent: Vec<(String, bool)> = vec![];
                let mut bytes = 0u64;
                for seq in 0..k {
                    let big = over && r.chance(0.1);
                    let len = if big { r.range(512, 1400) } else if r.chance(0.15) { 510 } else { r.range(24, 500) } as usize;
                    let m = text(t as u64, seq, len);
                    if paced {
                        let t0 = std::time::Instant::now();
                        while bytes + m.len() as u64 + 1 > recvd[t].load(Ordering::Relaxed) + 3500 {
                            std::thread::yield_now();
                            if t0.elapsed().as_secs() > 20 {
                                return Err(format!("{}: {} bytes were logged, only {} arrived", name, bytes, recvd[t].load(Ordering::Relaxed)));
                            }
                        }
                    }
                    let parts = r.below(3);
                    log(|w| match parts {
                        0 => {
                            let _ = write!(w, "{}", m);
                        }
                        1 => {
                            let _ = w.write_all(m.as_bytes());
                        }
                        _ => {
                            for c in m.as_bytes().chunks(7) {
                                if w.write_all(c).is_err() {
                                    break;
                                }
                            }
                        }
                    });
                    if !big {
                        bytes += m.len() as u64 + 1;
                    } else if paced {
                        // (whatever of it arrives: all before it is waited for)
                        let (t0, f0) = (std::time::Instant::now(), FETCHES.load(Ordering::SeqCst));
                        while FETCHES.load(Ordering::SeqCst) < f0 + 2 && t0.elapsed().as_secs() < 20 {
                            std::thread::yield_now();
                        }
                        bytes = recvd[t].load(Ordering::Relaxed);
                    }
                    sent.push((m, big));
                }
                Ok((sent, first, second))
            }));
        }
        let mut sents = vec![];
        for w in ws {
            let s = w.join();
            if s.is_err() || matches!(&s, Ok(Err(_))) {
                stop.store(true, Ordering::Relaxed);
                for r in rs {
                    let _ = r.join();
                }
                return match s {
                    Ok(Err(e)) => fail("lost", e),
                    _ => fail("panic", "a logging thread panicked".to_string()),
                };
            }
            sents.push(s.unwrap().unwrap());
        }
        stop.store(true, Ordering::Relaxed);
        for r in rs {
            ensure!(r.join().is_ok(), "panic", "a reading thread panicked");
        }
        fetch();
        let got: HashMap<String, Vec<String>> = GOT.lock().unwrap().iter_mut().filter(|x| names.iter().any(|n| *n == x.0)).map(|x| (x.0.clone(), std::mem::take(&mut x.1))).collect();
        let (mut arrived, mut lost, mut cut) = (0u64, 0u64, 0u64);
        for (t, (sent, first, second)) in sents.iter().enumerate() {
            ensure!(*first && !*second, "init", "initialising a thread's logger the first time gives {}, again {}", first, second);
            let g = got.get(names[t]).cloned().unwrap_or_default();
            let mut i = 0;
            for m in g.iter() {
                // the next message sent that this may be
                let mut j = i;
                while j < sent.len() {
                    let (s, big) = &sent[j];
                    if s == m || *big && m.len() >= 24 && s.as_bytes().starts_with(m.trim_end_matches('\u{FFFD}').as_bytes()) {
                        break;
                    }
                    j += 1;
                }
                if j == sent.len() {
                    let again = sent[..i].iter().any(|(s, _)| s == m);
                    return fail(if again { "order" } else { "mixed-up" }, format!("{}: received {:?} {}, after {} of {} messages", names[t], m, if again { "once more or out of order" } else { "that was never logged" }, i, sent.len()));
                }
                for s in sent[i..j].iter() {
                    lost += 1;
                    ensure!(!paced || s.1, "lost", "{}: {:?} never arrived ({} bytes at most were waiting)", names[t], s.0, 3500);
                }
                if sent[j].1 {
                    cut += 1;
                } else {
                    arrived += 1;
                }
                i = j + 1;
            }
            for s in sent[i..].iter() {
                lost += 1;
                ensure!(!paced || s.1, "lost", "{}: {:?} never arrived", names[t], s.0);
            }
        }
        obs.nontrivial = arrived > 10;
        obs.fingerprint = format!("{}-{}-{}", arrived, lost, cut);
        obs.count("messages that arrived", arrived);
        obs.count("excess or too long messages lost", lost);
        obs.count("too long messages that arrived cut off", cut);
        obs.sample = Some(json!({"threads": nt, "readers": readers, "paced": paced}));
        Ok(())
    });
}
