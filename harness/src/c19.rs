//! C19: feedback values (output feedback, LED and phase values) of the nodes.
use crate::core::*;
use crate::ensure;
use crate::eng::*;
use crate::gen::*;
use hexodsp::*;
use serde_json::json;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

fn bits(v: Option<f32>) -> Option<u32> {
    v.map(|v| v.to_bits())
}

/// What the last polls showed, to judge the filtered values.
#[derive(Default, Clone)]
struct Hist {
    asked: Vec<f32>,
}
impl Hist {
    /// All windows of up to ten values that end now; the very first value asked for may be missing.
    fn bounds(&self) -> ((f32, f32), (f32, f32)) {
        let n = self.asked.len();
        let ext = |s: &[f32]| {
            let neg = s.iter().filter(|v| **v < 0.0).fold(0.0f32, |a, v| a.max(v.abs()));
            let pos = s.iter().filter(|v| **v >= 0.0).fold(0.0f32, |a, v| a.max(v.abs()));
            (neg, pos)
        };
        let from = n.saturating_sub(10);
        let lo = ext(&self.asked[from.max(1).min(n)..]);
        let hi = ext(&self.asked[from..]);
        (lo, hi)
    }
    fn judge(&self, got: (f32, f32)) -> bool {
        let (lo, hi) = self.bounds();
        got.0 >= lo.0 && got.0 <= hi.0 && got.1 >= lo.1 && got.1 <= hi.1
    }
}

struct LedProbe {
    id: usize,
    set: bool,
    log: Arc<Mutex<(f32, f32)>>,
    k: u32,
}
impl DynamicNode1x1 for LedProbe {
    fn process(&mut self, _inp: &[f32], out: &mut [f32], ctx: &DynNode1x1Context) {
        for o in out.iter_mut() {
            *o = 0.0;
        }
        if self.set {
            self.k += 1;
            let l = self.id as f32 * 1000.0 + self.k as f32;
            let p = -l - 0.5;
            ctx.led_value().set(l);
            ctx.phase_value().set(p);
            *self.log.lock().unwrap() = (l, p);
        }
    }
}

pub fn run(rep: &mut Report) {
    rep.rule = "one evaluation = one random graph with up to five outputs recorded by a probe in the graph, feedback polled at random times and compared with the recorded last samples; one set of custom nodes publishing LED and phase values over graph changes; or one run with the front end polling while the audio thread works".into();
    rep.assumptions = vec![
        "filtered values are asked for once or several times after each poll; the very first value asked for may be missing in them".into(),
        "LED and phase values for the first 256 nodes of an engine".into(),
    ];
    let types = all_types();
    let n = rep.opts.n(250, 5000);
    rep.run("outputs", n, |rng, case, obs| {
        let (w, h) = (16usize, 16usize);
        let mut e = Eng::new(w, h, 44100.0);
        let k = rng.range(1, 9) as usize;
        let (mut nodes, mut edges) = rand_graph(rng, &types, k, false);
        nodes.retain(|n| n.name() != "rust1x1");
        edges.retain(|e| e.from.name() != "rust1x1" && e.to.name() != "rust1x1");
        let mut pairs: Vec<(NodeId, u8)> = vec![];
        for n in nodes.iter() {
            for o in 0..n_outs(*n) {
                pairs.push((*n, o as u8));
            }
        }
        rng.shuffle(&mut pairs);
        pairs.truncate(5);
        let probe = NodeId::Rust1x1(0);
        for (i, (n, o)) in pairs.iter().enumerate() {
            edges.push(E { from: *n, out: *o, to: probe, inp: inp_idx(probe, PROBE_IN[i]) });
        }
        nodes.push(probe);
        let (node, rec) = probe_fn(false, |ins, out| out.copy_from_slice(ins[0]));
        e.m.set_dynamic_node1x1(0, node);
        for n in nodes.iter() {
            for p in params_of(*n) {
                if rng.chance(0.3) {
                    e.m.set_param(p, SAtom::param(rand_param(rng, p)));
                }
            }
        }
        let lay = match layout(rng, w, h, &nodes, &edges) {
            Some(l) => l,
            None => return fail("harness", "no room".into()),
        };
        lay.apply(&mut e.m);
        ensure!(e.m.sync().is_ok(), "sync", "refused");
        let mut shown: Vec<Option<u32>> = vec![];
        let mut hist = vec![Hist::default(); pairs.len()];
        let mut led_hist = Hist::default();
        let led_node = *rng.pick(&nodes);
        let mut values = std::collections::BTreeSet::new();
        for b in 0..rng.range(5, 40) {
            if rng.chance(0.05) {
                // the same graph placed elsewhere
                if let Some(l) = layout(rng, w, h, &nodes, &edges) {
                    l.apply(&mut e.m);
                    ensure!(e.m.sync().is_ok(), "sync", "refused");
                    shown.clear();
                    e.block(1);
                }
            }
            let bl = rng.range(1, MAXB as i64) as usize;
            for ch in 0..2 {
                for f in 0..bl {
                    e.ctx.inp[ch][f] = rng.f(-0.9, 0.9);
                }
            }
            e.block(bl);
            let last: Vec<f32> = {
                let r = rec.lock().unwrap();
                (0..pairs.len()).map(|i| *r.ins[i].last().unwrap_or(&f32::NAN)).collect()
            };
            if rng.chance(0.7) {
                if rng.chance(0.5) {
                    e.m.update_filters();
                    for (i, (n, o)) in pairs.iter().enumerate() {
                        hist[i].asked.push(last[i]);
                        for _ in 0..rng.range(1, 3) {
                            let f = e.m.filtered_out_fb_for(n, *o);
                            ensure!(hist[i].judge(f), "filtered", "{:?} for output {} of {} after {:?}", f, o, n, hist[i].asked);
                        }
                    }
                    led_hist.asked.push(e.m.led_value_for(&led_node));
                    let f = e.m.filtered_led_for(&led_node);
                    ensure!(led_hist.judge(f), "filtered-led", "{:?} for {} after {:?}", f, led_node, led_hist.asked);
                } else {
                    e.m.update_output_feedback();
                }
                shown = last.iter().map(|v| Some(v.to_bits())).collect();
                obs.count("polls", 1);
            }
            for (i, (n, o)) in pairs.iter().enumerate() {
                if shown.is_empty() {
                    continue;
                }
                let got = e.m.out_fb_for(n, *o);
                ensure!(bits(got) == shown[i], "value", "block {}: output {} of {} shows {:?}, its last sample was {:?}", b, o, n, got, shown[i].map(f32::from_bits));
                values.insert(got.map(|v| v.to_bits()));
                obs.count("compared", 1);
            }
            for n in nodes.iter() {
                let k = n_outs(*n) as u8;
                ensure!(e.m.out_fb_for(n, k).is_none() && e.m.out_fb_for(n, 255).is_none(), "port", "{} has no output {}, but a value for it", n, k);
                ensure!(shown.is_empty() || k == 0 || e.m.out_fb_for(n, k - 1).is_some(), "port", "no value for output {} of {}", k - 1, n);
            }
            ensure!(e.m.out_fb_for(&NodeId::Sin(200), 0).is_none() && e.m.led_value_for(&NodeId::Sin(200)) == 0.0 && e.m.phase_value_for(&NodeId::Sin(200)) == 0.0, "unknown", "values for a node that is not there");
        }
        obs.max("distinct_values", values.len() as u64);
        obs.nontrivial = true;
        obs.fingerprint = format!("{:x}", hash64(&format!("{:?}{:?}{:?}", nodes, pairs, values)));
        if case < 2 {
            obs.sample = Some(json!({"nodes": format!("{:?}", nodes), "watched": format!("{:?}", pairs), "values": values.len()}));
        }
        Ok(())
    });
    let n = rep.opts.n(60, 1200);
    rep.run("leds", n, |rng, case, obs| {
        let (w, h) = (20usize, 20usize);
        let mut e = Eng::new(w, h, 44100.0);
        let others: Vec<NodeId> = vec![NodeId::Sin(0), NodeId::Amp(0), NodeId::TsLFO(0), NodeId::Noise(0), NodeId::Out(0)];
        let mut regs: Vec<(NodeId, bool, Arc<Mutex<(f32, f32)>>)> = vec![];
        let mut log = vec![];
        for step in 0..rng.range(2, 9) {
            match if step == 0 { 0 } else { rng.below(4) } {
                0 | 1 => {
                    // more custom nodes, in between other nodes
                    let top = if rng.chance(0.2) { 60 } else { 6 };
                    for _ in 0..rng.range(1, top) {
                        let i = regs.len();
                        if i > 200 {
                            break;
                        }
                        let l = Arc::new(Mutex::new((0.0, 0.0)));
                        let set = rng.chance(0.7);
                        e.m.set_dynamic_node1x1(i, Box::new(LedProbe { id: i + 1 + (rng.below(50) * 250), set, log: l.clone(), k: 0 }));
                        regs.push((NodeId::Rust1x1(i as u8), set, l));
                    }
                }
                2 => {
                    e.m.clear();
                    e.block(8);
                    regs.clear();
                    log.push("clear".to_string());
                    continue;
                }
                _ => {}
            }
            let mut nodes: Vec<NodeId> = regs.iter().map(|r| r.0).collect();
            for o in others.iter() {
                if rng.chance(0.5) {
                    nodes.push(*o);
                }
            }
            rng.shuffle(&mut nodes);
            let lay = match layout(rng, w, h, &nodes, &[]) {
                Some(l) => l,
                None => return fail("harness", "no room".into()),
            };
            lay.apply(&mut e.m);
            ensure!(e.m.sync().is_ok(), "sync", "refused");
            log.push(format!("{} nodes", nodes.len()));
            for _ in 0..rng.range(1, 5) {
                e.block(rng.range(1, MAXB as i64) as usize);
                for (n, _set, l) in regs.iter() {
                    let want = *l.lock().unwrap();
                    let got = (e.m.led_value_for(n), e.m.phase_value_for(n));
                    ensure!(got == want, "led", "LED and phase of {} are {:?}, it published {:?} ({:?})", n, got, want, log);
                    obs.count("compared", 2);
                }
            }
        }
        obs.nontrivial = true;
        obs.fingerprint = format!("{:x}", hash64(&format!("{:?}{}", log, rng.u64())));
        if case < 2 {
            obs.sample = Some(json!(log));
        }
        Ok(())
    });
    let n = rep.opts.n(16, 200);
    rep.run("polling", n, |rng, _case, obs| {
        let mut e = Eng::new(12, 12, 44100.0);
        let k = rng.range(2, 12) as usize;
        let seq = Arc::new(AtomicU64::new(0));
        for i in 0..k {
            let s = seq.clone();
            let first = i == 0;
            let _ = first;
            let mut my = 0u64;
            let _ = &s;
            e.m.set_dynamic_node1x1(
                i,
                Box::new(move |_inp: &[f32], out: &mut [f32], _ctx: &DynNode1x1Context| {
                    my += 1;
                    for o in out.iter_mut() {
                        *o = -1.0;
                    }
                    let l = out.len();
                    out[l - 1] = my as f32;
                }),
            );
        }
        let nodes: Vec<NodeId> = (0..k).map(|i| NodeId::Rust1x1(i as u8)).collect();
        place_edges(&mut e.m, &nodes, &[]);
        ensure!(e.m.sync().is_ok(), "sync", "refused");
        let stop = Arc::new(AtomicBool::new(false));
        let Eng { mut m, mut ex, mut ctx } = e;
        let (st, sq) = (stop.clone(), seq.clone());
        let seed = rng.u64();
        let th = std::thread::spawn(move || {
            let mut r = Rng::new(seed);
            let mut n = 0u64;
            while !st.load(Ordering::Relaxed) && n < 4_000_000 {
                ctx.n = r.range(1, 64) as usize;
                ex.process_graph_updates();
                ex.process(&mut ctx);
                n += 1;
                sq.store(n, Ordering::Release);
                if r.chance(0.1) {
                    std::thread::yield_now();
                }
            }
            (ex, n)
        });
        let t0 = std::time::Instant::now();
        let mut last = 0.0f32;
        let mut seen = std::collections::BTreeSet::new();
        let mut res: Res = Ok(());
        let mut polls = 0u64;
        while t0.elapsed().as_millis() < 60 && res.is_ok() {
            let before = seq.load(Ordering::Acquire);
            m.update_output_feedback();
            polls += 1;
            let vals: Vec<Option<f32>> = nodes.iter().map(|n| m.out_fb_for(n, 0)).collect();
            let v = match vals[0] {
                Some(v) => v,
                None => {
                    if before > 0 {
                        res = fail("poll", format!("no value after {} blocks", before));
                    }
                    continue;
                }
            };
            if vals.iter().any(|x| *x != Some(v)) {
                res = fail("torn", format!("the values of one poll are from different blocks: {:?}", vals));
            } else if v < last {
                res = fail("back", format!("block {} shown after block {}", v, last));
            } else if (v as u64) < before {
                res = fail("old", format!("block {} shown, although block {} was finished before the poll", v, before));
            }
            last = v;
            seen.insert(v as u64);
            if rng.chance(0.3) {
                std::thread::yield_now();
            }
        }
        stop.store(true, Ordering::Relaxed);
        let (_ex, blocks) = match th.join() {
            Ok(x) => x,
            Err(_) => return fail("panic", "the audio thread panicked".into()),
        };
        res?;
        obs.count("polls", polls);
        obs.count("blocks", blocks);
        obs.count("blocks_seen", seen.len() as u64);
        obs.nontrivial = seen.len() > 3;
        obs.fingerprint = format!("{} {}", k, seen.len());
        Ok(())
    });
    let n = rep.opts.n(4, 40);
    rep.run("many", n, |rng, _case, obs| {
        // more nodes than fit in a byte
        let mut e = Eng::new(20, 20, 44100.0);
        let top = rng.range(130, 200) as u8;
        let mut edges = vec![];
        // Sin(top) creates all the lower ones, too
        let (a, b) = (NodeId::Amp(top), NodeId::Sin(top));
        edges.push(edge(b, "sig", a, "inp"));
        let p = NodeId::Rust1x1(0);
        edges.push(edge(a, "sig", p, "inp"));
        let more = NodeId::Sin(rng.below(top as usize) as u8);
        edges.push(edge(more, "sig", p, "alpha"));
        let (node, rec) = probe_fn(false, |_ins, out| out.iter_mut().for_each(|o| *o = 0.25));
        e.m.set_dynamic_node1x1(0, node);
        place_edges(&mut e.m, &[], &edges);
        ensure!(e.m.sync().is_ok(), "sync", "refused");
        for _ in 0..20 {
            e.block(64);
            e.m.update_filters();
            let r = rec.lock().unwrap();
            for (n, i) in [(a, 0usize), (more, 1)] {
                let want = r.ins[i].last().copied();
                let got = e.m.out_fb_for(&n, 0);
                ensure!(bits(got) == bits(want), "value", "{} shows {:?}, its last sample was {:?}", n, got, want);
            }
            ensure!(e.m.out_fb_for(&p, 0) == Some(0.25), "value", "the custom node shows {:?}", e.m.out_fb_for(&p, 0));
            let _ = (e.m.led_value_for(&a), e.m.led_value_for(&b), e.m.led_value_for(&p), e.m.phase_value_for(&p));
            let lo = NodeId::Sin(0);
            ensure!(e.m.led_value_for(&lo) == 0.0, "led", "the LED of {} is {}, although it is not on the grid", lo, e.m.led_value_for(&lo));
            obs.count("compared", 3);
        }
        obs.nontrivial = rec.lock().unwrap().ins[0].iter().any(|v| *v != 0.0);
        obs.fingerprint = format!("{} {}", top, more);
        Ok(())
    });
}
