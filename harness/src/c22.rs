//! C22: custom Rust nodes.
use crate::core::*;
use crate::ensure;
use crate::eng::*;
use hexodsp::*;
use serde_json::json;
use std::cell::Cell as StdCell;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

thread_local! {
    static IN_AUDIO: StdCell<bool> = StdCell::new(false);
}

#[derive(Clone, Debug)]
struct Call {
    id: u64,
    inst: usize,
    ins: [Vec<f32>; 5],
    out: Vec<f32>,
    sr: Option<f32>,
}
#[derive(Default)]
struct Log {
    calls: Vec<Call>,
    /// (id, on the audio thread)
    drops: Vec<(u64, bool)>,
}
type LogRef = Arc<Mutex<Log>>;

struct Node {
    id: u64,
    inst: usize,
    sr: Option<f32>,
    log: LogRef,
    state: f32,
}
impl DynamicNode1x1 for Node {
    fn set_sample_rate(&mut self, sr: f32) {
        self.sr = Some(sr);
    }
    fn process(&mut self, input: &[f32], output: &mut [f32], ctx: &DynNode1x1Context) {
        for (i, o) in output.iter_mut().enumerate() {
            self.state += 0.001;
            *o = self.id as f32 * 0.01 + 0.5 * input.get(i).copied().unwrap_or(9.9) + self.state;
        }
        let ins = [input.to_vec(), ctx.alpha_slice().to_vec(), ctx.beta_slice().to_vec(), ctx.delta_slice().to_vec(), ctx.gamma_slice().to_vec()];
        self.log.lock().unwrap().calls.push(Call { id: self.id, inst: self.inst, ins, out: output.to_vec(), sr: self.sr });
    }
}
impl Drop for Node {
    fn drop(&mut self) {
        let a = IN_AUDIO.with(|a| a.get());
        // (a poisoned log is only met while a violation is being reported)
        if let Ok(mut l) = self.log.lock() {
            l.drops.push((self.id, a));
        }
    }
}

fn check_drops(log: &LogRef, given: u64, what: &str) -> Result<(), Fail> {
    let l = log.lock().unwrap();
    let mut seen = vec![0u32; given as usize + 1];
    for (id, audio) in l.drops.iter() {
        seen[*id as usize] += 1;
        ensure!(!*audio, "destroyed-on-audio", "node {} was destroyed on the audio thread ({})", id, what);
    }
    for id in 1..=given {
        ensure!(seen[id as usize] == 1, "destroyed-once", "node {} was destroyed {} times ({})", id, seen[id as usize], what);
    }
    Ok(())
}

pub fn run(rep: &mut Report) {
    rep.rule = "one evaluation = one engine with custom nodes on several instances, nodes given before and after their position exists, several at once or none between blocks, graph rebuilt meanwhile; every call, what it saw and wrote, what downstream nodes heard, and every destruction is logged. Threads group: an audio thread runs while another gives new nodes at full speed".into();
    rep.assumptions = vec![
        "in the single threaded part a node given before a block starts is the one to run in this block".into(),
        "with threads: a node whose call to give it has returned before a block starts, or a newer one, runs in that block".into(),
        "after clearing the matrix nodes are given again, as documented".into(),
    ];
    let n = rep.opts.n(250, 6000);
    rep.run("swap", n, |rng, _case, obs| {
        let mut sr = *rng.pick(&[44100.0f32, 48000.0, 96000.0]);
        let log: LogRef = Default::default();
        let mut e = Eng::new(12, 20, sr);
        let k = rng.range(1, 4) as usize;
        let base = if rng.chance(0.2) { rng.below(100) } else { 0 };
        let id_of = |i: usize| NodeId::Rust1x1((base + i) as u8);
        let (pl, rc) = (base + k, base + k + 1);
        let mut seed = rng.u64() | 1;
        let (nd, src) = probe_fn(false, move |_i, o| {
            for x in o.iter_mut() {
                seed ^= seed << 13;
                seed ^= seed >> 7;
                seed ^= seed << 17;
                *x = (seed >> 40) as f32 / (1u64 << 24) as f32 * 2.0 - 1.0;
            }
        });
        e.m.set_dynamic_node1x1(pl, nd);
        let (player, rec) = (NodeId::Rust1x1(pl as u8), NodeId::Rust1x1(rc as u8));
        let (nd, heard) = probe_fn(false, |ins, o| o.copy_from_slice(ins[0]));
        e.m.set_dynamic_node1x1(rc, nd);
        let mut given = 0u64;
        // per instance: the newest node
        let mut newest = vec![0u64; k];
        let mut knob = vec![[0.0f32; 5]; k];
        for i in 0..k {
            for p in 0..5 {
                if rng.chance(0.6) {
                    knob[i][p] = rng.f(-1.0, 1.0);
                    e.set(id_of(i), PROBE_IN[p], knob[i][p]);
                }
            }
        }
        let (mut swaps, mut calls, mut lone) = (0u64, 0u64, 0u64);
        let mut placed: Vec<bool> = vec![false; k];
        let mut links: Vec<(Option<usize>, usize)> = vec![(None, 0); k];
        let mut recin: Vec<Option<usize>> = vec![None; 5];
        // given before anything exists
        for _ in 0..rng.below(6) {
            let i = rng.below(k);
            given += 1;
            newest[i] = given;
            e.m.set_dynamic_node1x1(base + i, Box::new(Node { id: given, inst: i, sr: None, log: log.clone(), state: 0.0 }));
        }
        let steps = rng.range(10, 60);
        let mut cleared = 0u64;
        for step in 0..steps {
            if step == 0 || rng.chance(0.12) {
                // another graph
                let (w, h) = e.m.size();
                if step > 0 && rng.chance(0.2) {
                    e.m.clear();
                    cleared += 1;
                    for i in 0..k {
                        newest[i] = 0;
                        knob[i] = [0.0; 5];
                    }
                    placed = vec![false; k];
                } else {
                    for x in 0..w {
                        for y in 0..h {
                            e.m.place(x, y, Cell::empty(NodeId::Nop));
                        }
                    }
                }
                let mut edges = vec![];
                recin = vec![None; 5];
                let mut free: Vec<usize> = (0..5).collect();
                for i in 0..k {
                    placed[i] = rng.chance(0.7);
                    links[i] = (None, 0);
                    if !placed[i] {
                        continue;
                    }
                    let p = rng.below(5);
                    if rng.chance(0.8) {
                        edges.push(edge(player, "sig", id_of(i), PROBE_IN[p]));
                        links[i] = (Some(usize::MAX), p);
                    } else if i > 0 && placed[i - 1] {
                        edges.push(edge(id_of(i - 1), "sig", id_of(i), PROBE_IN[p]));
                        links[i] = (Some(i - 1), p);
                    }
                    if let Some(q) = free.pop() {
                        edges.push(edge(id_of(i), "sig", rec, PROBE_IN[q]));
                        recin[q] = Some(i);
                    }
                }
                let mut nodes: Vec<NodeId> = (0..k).filter(|i| placed[*i]).map(id_of).collect();
                nodes.push(player);
                nodes.push(rec);
                place_edges(&mut e.m, &nodes, &edges);
                ensure!(e.m.sync().is_ok(), "sync", "refused");
                if cleared > 0 && newest.iter().all(|x| *x == 0) {
                    // everything is given again
                    let mut s2 = rng.u64() | 1;
                    let s3 = src.clone();
                    e.m.set_dynamic_node1x1(
                        pl,
                        Box::new(Probe {
                            rec: s3,
                            fun: Box::new(move |_i, o| {
                                for x in o.iter_mut() {
                                    s2 = s2.wrapping_mul(6364136223846793005).wrapping_add(1);
                                    *x = (s2 >> 40) as f32 / (1u64 << 24) as f32 * 2.0 - 1.0;
                                }
                            }),
                            append: false,
                        }),
                    );
                    e.m.set_dynamic_node1x1(rc, Box::new(Probe { rec: heard.clone(), fun: Box::new(|ins, o| o.copy_from_slice(ins[0])), append: false }));
                }
            }
            let gives = *rng.pick(&[0usize, 0, 1, 1, 2, 5]);
            for _ in 0..gives {
                let i = rng.below(k);
                given += 1;
                newest[i] = given;
                swaps += 1;
                e.m.set_dynamic_node1x1(base + i, Box::new(Node { id: given, inst: i, sr: None, log: log.clone(), state: 0.0 }));
            }
            if rng.chance(0.05) {
                sr = *rng.pick(&[44100.0f32, 48000.0, 96000.0]);
                // (what was sent before may or may not have arrived)
                if rng.chance(0.5) {
                    e.ex.process_graph_updates();
                }
                e.ex.set_sample_rate(sr);
            }
            for _ in 0..rng.range(1, 4) {
                let nf = rng.range(1, MAXB as i64) as usize;
                log.lock().unwrap().calls.clear();
                IN_AUDIO.with(|a| a.set(true));
                e.block(nf);
                IN_AUDIO.with(|a| a.set(false));
                let cs = log.lock().unwrap().calls.clone();
                let s = src.lock().unwrap().out.clone();
                let hd = heard.lock().unwrap().ins.clone();
                for i in 0..k {
                    let mine: Vec<&Call> = cs.iter().filter(|c| c.inst == i).collect();
                    if newest[i] == 0 || !placed[i] {
                        ensure!(
                            newest[i] != 0 || mine.is_empty() || cleared > 0,
                            "calls",
                            "instance {} runs {:?}, but nothing was given",
                            i,
                            mine.iter().map(|c| c.id).collect::<Vec<_>>()
                        );
                        if placed[i] || !mine.is_empty() {
                            lone += 1;
                        }
                        continue;
                    }
                    ensure!(
                        mine.len() == 1 && mine[0].id == newest[i],
                        "newest",
                        "instance {}: in one block the nodes {:?} ran, node {} is the newest given",
                        i,
                        mine.iter().map(|c| c.id).collect::<Vec<_>>(),
                        newest[i]
                    );
                    let c = mine[0];
                    calls += 1;
                    ensure!(c.sr == Some(sr), "sample-rate", "node {} at {} Hz ran with its sample rate set to {:?}", c.id, sr, c.sr);
                    for p in 0..5 {
                        ensure!(c.ins[p].len() == nf && c.out.len() == nf, "length", "block of {} frames: node {} got {} samples at {}, {} to write", nf, c.id, c.ins[p].len(), PROBE_IN[p], c.out.len());
                        match links[i] {
                            (Some(from), q) if q == p => {
                                let up: &Vec<f32> = if from == usize::MAX {
                                    &s
                                } else {
                                    match cs.iter().find(|c| c.inst == from) {
                                        Some(c) => &c.out,
                                        None => continue,
                                    }
                                };
                                ensure!(bits_eq(up, &c.ins[p]).is_none(), "inputs", "node {} saw {:?} at {}, fed was {:?}", c.id, &c.ins[p][..nf.min(4)], PROBE_IN[p], &up[..nf.min(4)]);
                            }
                            _ => {
                                ensure!(c.ins[p].iter().all(|x| (*x - knob[i][p]).abs() < 1e-6), "inputs", "node {} saw {:?} at {}, the parameter is {}", c.id, &c.ins[p][..nf.min(4)], PROBE_IN[p], knob[i][p]);
                            }
                        }
                    }
                    for q in 0..5 {
                        if recin[q] == Some(i) {
                            ensure!(bits_eq(&c.out, &hd[q]).is_none(), "output", "node {} wrote {:?}, downstream got {:?}", c.id, &c.out[..nf.min(4)], &hd[q][..nf.min(4)]);
                        }
                    }
                }
            }
        }
        drop(e);
        // (what is left with the engine is destroyed by its helper thread)
        let t0 = std::time::Instant::now();
        while (log.lock().unwrap().drops.len() as u64) < given && t0.elapsed().as_secs_f32() < 5.0 {
            std::thread::sleep(std::time::Duration::from_millis(5));
        }
        check_drops(&log, given, "swap")?;
        obs.fingerprint = format!("{:016x}", rng.u64());
        obs.nontrivial = calls > 0;
        obs.count("nodes given", swaps);
        obs.count("calls checked", calls);
        obs.count("calls before anything was given", lone);
        obs.count("matrix cleared", cleared);
        obs.sample = Some(json!({"instances": k, "given": given}));
        Ok(())
    });

    let n = rep.opts.n(24, 400);
    rep.run_t("threads", n, 3, |rng, _case, obs| {
        let log: LogRef = Default::default();
        let k = rng.range(1, 3) as usize;
        let mut e = Eng::new(8, 20, 44100.0);
        let nodes: Vec<NodeId> = (0..k).map(|i| NodeId::Rust1x1(i as u8)).collect();
        place_edges(&mut e.m, &nodes, &[]);
        ensure!(e.m.sync().is_ok(), "sync", "refused");
        let published: Vec<AtomicU64> = (0..k).map(|_| AtomicU64::new(0)).collect();
        let started: Vec<AtomicU64> = (0..k).map(|_| AtomicU64::new(0)).collect();
        let stop = AtomicU64::new(0);
        let total = rng.range(200, 1500) as u64;
        let Eng { m, mut ex, mut ctx } = e;
        let (mut pauses, nf) = (rng.u64(), rng.range(1, 64) as usize);
        let (log2, pubs, st, sp) = (log.clone(), &published, &started, &stop);
        let r: Result<(u64, u64), Fail> = std::thread::scope(|s| {
            let h = s.spawn(move || -> Result<(u64, u64), Fail> {
                IN_AUDIO.with(|a| a.set(true));
                let mut last = vec![0u64; k];
                let (mut blocks, mut changes) = (0u64, 0u64);
                let res = (|| {
                    while sp.load(Ordering::Acquire) == 0 || blocks < 10 {
                        let before: Vec<u64> = pubs.iter().map(|p| p.load(Ordering::Acquire)).collect();
                        ex.process_graph_updates();
                        ctx.n = nf;
                        ex.process(&mut ctx);
                        let after: Vec<u64> = st.iter().map(|p| p.load(Ordering::Acquire)).collect();
                        let cs = std::mem::take(&mut log2.lock().unwrap().calls);
                        blocks += 1;
                        for i in 0..k {
                            let mine: Vec<u64> = cs.iter().filter(|c| c.inst == i).map(|c| c.id).collect();
                            if before[i] == 0 && mine.is_empty() {
                                continue;
                            }
                            ensure!(mine.len() == 1, "newest", "instance {}: nodes {:?} ran in one block", i, mine);
                            let x = mine[0];
                            ensure!(x >= before[i] && x >= last[i] && x <= after[i], "newest", "instance {}: node {} ran, {} had been given before, {} ran before", i, x, before[i], last[i]);
                            if x != last[i] {
                                changes += 1;
                            }
                            last[i] = x;
                        }
                    }
                    Ok((blocks, changes))
                })();
                IN_AUDIO.with(|a| a.set(false));
                drop(ex);
                res
            });
            for id in 1..=total {
                let i = (id % k as u64) as usize;
                let nd = Box::new(Node { id, inst: i, sr: None, log: log.clone(), state: 0.0 });
                started[i].store(id, Ordering::Release);
                m.set_dynamic_node1x1(i, nd);
                published[i].store(id, Ordering::Release);
                pauses = pauses.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                for _ in 0..(pauses >> 50) % 4000 {
                    std::hint::spin_loop();
                }
            }
            stop.store(1, Ordering::Release);
            match h.join() {
                Ok(r) => r,
                Err(_) => fail("panic", "the audio thread panicked".into()),
            }
        });
        let (blocks, changes) = r?;
        drop(m);
        let t0 = std::time::Instant::now();
        while (log.lock().unwrap().drops.len() as u64) < total && t0.elapsed().as_secs_f32() < 5.0 {
            std::thread::sleep(std::time::Duration::from_millis(5));
        }
        check_drops(&log, total, "threads")?;
        obs.fingerprint = format!("{}-{}", changes, blocks);
        obs.nontrivial = changes > 1;
        obs.count("nodes given while running", total);
        obs.count("changes seen by the audio thread", changes);
        obs.count("blocks while giving", blocks);
        Ok(())
    });
}
