//! C21: what scopes show.
use crate::bench::*;
use crate::core::*;
use crate::ensure;
use crate::eng::*;
use hexodsp::*;
use serde_json::json;

const N: usize = hexodsp::nodes::SCOPE_SAMPLES;

/// Are entries `from..to` the min/max of consecutive stretches of `spb` samples from `start` on?
/// Boundaries may be off by a few samples, but leave no gap and are the same for all inputs.
fn stretches(sigs: &[(usize, &[f32])], start: f64, spb: f64, from: usize, to: usize, slack: i64, get: &dyn Fn(usize, usize) -> (f32, f32)) -> Result<u64, String> {
    if from >= to {
        return Ok(0);
    }
    let cands = |j: usize| -> Vec<i64> {
        let x = start + j as f64 * spb;
        let a = x.round() as i64;
        ((a - slack)..=(a + slack)).collect()
    };
    let mut ok: Vec<i64> = cands(from);
    for j in from..to {
        let want: Vec<(f32, f32)> = sigs.iter().map(|(i, _)| get(*i, j)).collect();
        let mut next: Vec<i64> = vec![];
        let cs = cands(j + 1);
        let last = *cs.last().unwrap();
        for b in ok.iter() {
            let mut mm: Vec<(f32, f32)> = vec![(f32::NEG_INFINITY, f32::INFINITY); sigs.len()];
            let mut e = *b;
            while e <= last {
                if e > *b && cs.contains(&e) && mm == want && !next.contains(&e) {
                    next.push(e);
                }
                for (k, (_, s)) in sigs.iter().enumerate() {
                    let v = if e < 0 || e as usize >= s.len() { f32::NAN } else { s[e as usize] };
                    mm[k].0 = mm[k].0.max(v);
                    mm[k].1 = mm[k].1.min(v);
                }
                e += 1;
            }
        }
        if next.is_empty() {
            let a = (start + j as f64 * spb).round().max(0.0) as usize;
            let b = (start + (j + 1) as f64 * spb).round().max(0.0) as usize;
            let real: Vec<(f32, f32)> = sigs
                .iter()
                .map(|(_, s)| {
                    let w = &s[a.min(s.len() - 1)..b.max(a + 1).min(s.len())];
                    (w.iter().copied().fold(f32::MIN, f32::max), w.iter().copied().fold(f32::MAX, f32::min))
                })
                .collect();
            return Err(format!(
                "entry {} shows (max, min) {:?}, the samples {}..{} of the inputs {:?} have {:?}",
                j,
                want,
                a,
                b,
                sigs.iter().map(|s| s.0 + 1).collect::<Vec<_>>(),
                real
            ));
        }
        ok = next;
    }
    Ok((to - from) as u64 * sigs.len() as u64)
}

/// Short spans: every sample fills the same number of entries.
fn copies(sigs: &[(usize, &[f32])], start: f64, spb: f64, from: usize, to: usize, slack: i64, get: &dyn Fn(usize, usize) -> (f32, f32)) -> Result<u64, String> {
    let c0 = (1.0 / spb).floor() as i64;
    let mut why = String::new();
    for c in [c0, c0 - 1, c0 + 1] {
        if c < 1 || ((1.0 / spb) - c as f64).abs() > 1.001 {
            continue;
        }
        let c = (c as usize).min(N);
        for d in -slack..=slack {
            let s0 = start.round() as i64 + d;
            let mut bad = None;
            'o: for j in from..to {
                for (i, s) in sigs.iter() {
                    let p = s0 + (j / c) as i64;
                    let v = if p < 0 || p as usize >= s.len() { f32::NAN } else { s[p as usize] };
                    let g = get(*i, j);
                    if g != (v, v) {
                        bad = Some(format!("entry {} of input {} shows {:?}, sample {} is {} ({} entries per sample)", j, i + 1, g, p, v, c));
                        break 'o;
                    }
                }
            }
            match bad {
                None => return Ok(to.saturating_sub(from) as u64 * sigs.len() as u64),
                Some(b) => {
                    if d == 0 && c as i64 == c0.max(1) {
                        why = b
                    }
                }
            }
        }
    }
    Err(why)
}

struct Sc {
    node: NodeId,
    inst: usize,
    tsrc: i64,
    thr: f32,
    time_ms: f64,
    /// nominal length of a capture in samples
    len: usize,
    spb: f64,
    sigs: [Option<Vec<f32>>; 4],
    knobs: [f32; 3],
    og: [(f32, f32); 3],
    trigs: Vec<usize>,
}

fn gen(rng: &mut Rng, inst: usize, tsrc: i64, sr: f64, e: &mut Eng, edges: &mut Vec<E>, k: usize, frames: &mut usize, long: bool) -> Sc {
    let node = NodeId::Scope(inst as u8);
    let tp = node.inp_param("time").unwrap();
    let (mut time_ms, mut spb);
    loop {
        let want = match rng.below(5) {
            0 => rng.f(0.1, 11.0),
            1 => rng.f(5.0, 60.0),
            2 => *rng.pick(&[20.0f32, 50.0, 100.0, 1000.0 * N as f32 / 44100.0 * 2.0]),
            3 => rng.f(20.0, if long { 2500.0 } else { 400.0 }),
            _ => rng.f(20.0, 150.0),
        };
        e.set_denorm(node, "time", want);
        let x = e.m.get_param(&tp).unwrap().f() as f64;
        time_ms = 0.1 * (1.0 - x.powi(6)) + 300000.0 * x.powi(6);
        time_ms = time_ms.max(0.1).min(300000.0);
        spb = time_ms * sr / 1000.0 / N as f64;
        if (spb - 1.0).abs() > 0.01 {
            break;
        }
    }
    let len = if spb < 1.0 { (N + (1.0 / spb) as usize - 1) / ((1.0 / spb) as usize).max(1) } else { (N as f64 * spb).ceil() as usize + 1 };
    let thr = if rng.chance(0.3) { 0.0 } else { rng.f(-0.6, 0.6) };
    let n = (len + 40) * 4;
    *frames = (*frames).max(n);
    Sc { node, inst, tsrc, thr, time_ms, len, spb, sigs: [None, None, None, None], knobs: [0.0; 3], og: [(0.0, 1.0); 3], trigs: vec![] }
        .finish(rng, e, edges, k)
}
impl Sc {
    fn finish(self, _rng: &mut Rng, e: &mut Eng, _edges: &mut Vec<E>, _k: usize) -> Sc {
        e.seti(self.node, "tsrc", self.tsrc);
        e.set(self.node, "thrsh", self.thr);
        self
    }
    fn wire(&mut self, rng: &mut Rng, e: &mut Eng, edges: &mut Vec<E>, k: usize, frames: usize) {
        let ins = ["in1", "in2", "in3", "trig"];
        let ti = if self.tsrc == 1 { 0 } else { 3 };
        for i in 0..4 {
            if self.tsrc > 0 && i == ti {
                // low for longer than the first capture, then pulses
                let mut v: Vec<f32> = vec![];
                let mut hi = false;
                let mut first = true;
                let flat = rng.chance(0.3);
                while v.len() < frames {
                    let l = if first {
                        self.len + rng.range(15, 200) as usize
                    } else {
                        1 + (self.len as f32 * rng.f(0.0, if hi { 0.5 } else { 1.4 })) as usize
                    };
                    first = false;
                    if hi {
                        self.trigs.push(v.len());
                    }
                    for _ in 0..l {
                        v.push(if hi {
                            self.thr + if flat { 0.05 } else { rng.f(0.01, 0.4) }
                        } else {
                            self.thr - if flat { 0.05 } else { rng.f(0.01, 0.4) }
                        });
                    }
                    hi = !hi;
                }
                self.sigs[i] = Some(v);
            } else if i < 3 && rng.chance(0.75) {
                self.sigs[i] = Some(if rng.chance(0.6) { noise_sig(rng, frames, 1.0) } else { sig(rng, frames, -1.0, 1.0) });
            } else if i < 3 {
                self.knobs[i] = rng.f(-1.0, 1.0);
                e.set(self.node, ins[i], self.knobs[i]);
            }
            if let Some(s) = &self.sigs[i] {
                let (nd, _) = player(s.clone());
                e.m.set_dynamic_node1x1(k + i, nd);
                edges.push(edge(NodeId::Rust1x1((k + i) as u8), "sig", self.node, ins[i]));
            }
        }
        for i in 0..3 {
            if rng.chance(0.5) {
                let (o, g) = (rng.f(-1.0, 1.0), rng.f(0.0, 1.0));
                e.set(self.node, ["off1", "off2", "off3"][i], o);
                e.set(self.node, ["gain1", "gain2", "gain3"][i], g);
                self.og[i] = (o, db_gain(g as f64, -24.0, 24.0) as f32);
            }
        }
    }
    fn check_state(&self, m: &Matrix, when: &str) -> Result<(), Fail> {
        let h = m.get_scope_handle(self.inst).expect("a handle");
        for i in 0..3 {
            ensure!(h.is_active(i) == self.sigs[i].is_some(), "active", "{}: input {} of {} connected: {}, reported active: {}", when, i + 1, self.node, self.sigs[i].is_some(), h.is_active(i));
            let (o, g) = h.get_offs_gain(i);
            ensure!((o - self.og[i].0).abs() < 1e-4 && (g - self.og[i].1).abs() < 1e-3 * (1.0 + g), "offs-gain", "{}: input {} has offset and gain {:?}, set to {:?}", when, i + 1, (o, g), self.og[i]);
        }
        let t = h.get_threshold();
        ensure!(
            if self.tsrc == 0 { t.is_none() } else { t.map(|t| (t - self.thr).abs() < 1e-4).unwrap_or(false) },
            "threshold",
            "{}: trigger source {}, threshold {}, reported {:?}",
            when,
            self.tsrc,
            self.thr,
            t
        );
        Ok(())
    }
}

pub fn run(rep: &mut Report) {
    rep.rule = "one evaluation = one or two scopes with random time spans (from 0.1 ms on), trigger sources, thresholds and connected inputs, fed with known signals; after blocks of random size the shown entries are compared with the minimum and maximum of consecutive stretches of what was fed since the trigger".into();
    rep.assumptions = vec![
        "stretch boundaries may be off by two samples, as long as there is no gap or overlap and they are the same for all inputs".into(),
        "when there are fewer samples than entries every sample fills the same whole number of entries".into(),
        "a trigger that comes while the former capture is being completed is not used; a new one counts after the capture".into(),
    ];
    let n = rep.opts.n(160, 3000);
    let thorough = rep.opts.thorough;
    rep.run("scope", n, |rng, case, obs| {
        let sr = *rng.pick(&[44100.0f32, 44100.0, 48000.0, 96000.0, 22050.0]);
        let mut e = Eng::new(10, 30, sr);
        let cnt = if rng.chance(0.4) { 2 } else { 1 };
        let free = case % 3 == 0;
        let mut frames = 0;
        let mut edges = vec![];
        let mut scs: Vec<Sc> = vec![];
        let i0 = rng.below(8);
        for c in 0..cnt {
            let tsrc = if free { 0 } else { rng.range(1, 2) };
            let inst = (i0 + c * (1 + rng.below(7))) % 8;
            if scs.iter().any(|s| s.inst == inst) {
                continue;
            }
            scs.push(gen(rng, inst, tsrc, sr as f64, &mut e, &mut edges, 0, &mut frames, thorough));
        }
        let frames = frames.min(if thorough { 400_000 } else { 80_000 });
        for (c, s) in scs.iter_mut().enumerate() {
            s.wire(rng, &mut e, &mut edges, c * 4, frames);
        }
        let nodes: Vec<NodeId> = scs.iter().map(|s| s.node).collect();
        place_edges(&mut e.m, &nodes, &edges);
        ensure!(e.m.sync().is_ok(), "sync", "refused");
        let blocks = rand_blocks(rng);
        let mut now = 0usize;
        let mut bi = 0;
        let mut entries = 0u64;
        let mut caps = 0u64;
        // per scope: start of the capture in progress (its first sample), ambiguous
        struct St {
            start: usize,
            done: bool,
            lost: bool,
        }
        let mut st: Vec<St> = scs.iter().map(|_| St { start: 0, done: false, lost: false }).collect();
        let stride = 1 + frames / 40_000;
        while now < frames {
            let n = blocks[bi % blocks.len()].min(frames - now);
            bi += 1;
            e.block(n);
            now += n;
            for (c, s) in scs.iter().enumerate() {
                let h = e.m.get_scope_handle(s.inst).expect("a handle");
                let get = |i: usize, j: usize| h.read(i, j);
                let sg: Vec<(usize, &[f32])> = (0..3).filter_map(|i| s.sigs[i].as_ref().map(|v| (i, v.as_slice()))).collect();
                let f = |start: f64, a: usize, b: usize| if s.spb < 1.0 { copies(&sg, start, s.spb, a, b, 1, &get) } else { stretches(&sg, start, s.spb, a, b, 2, &get) };
                if s.tsrc == 0 {
                    if !rng.chance(0.1) || sg.is_empty() {
                        continue;
                    }
                    // a capture may start up to two samples after the end of the one before
                    let (lenf, per, drift);
                    if s.spb < 1.0 {
                        let cc = ((1.0 / s.spb) as usize).min(N);
                        if ((1.0 / s.spb) - (1.0 / s.spb).round()).abs() < 1e-3 {
                            continue;
                        }
                        lenf = ((N + cc - 1) / cc) as f64;
                        per = 1.0 / cc as f64;
                        drift = 0.0;
                    } else {
                        lenf = N as f64 * s.spb;
                        per = s.spb;
                        drift = 2.0;
                    }
                    let k = ((now - 1) as f64 / (lenf + drift)).floor();
                    // (not clear which capture this is, or too many of them)
                    if now as f64 >= (k + 1.0) * lenf && drift > 0.0 || k > 20.0 && drift > 0.0 {
                        continue;
                    }
                    let (mlo, mhi) = ((now - 1) as f64 - k * (lenf + drift), now as f64 - k * lenf);
                    let (mlo, mhi) = ((mlo.max(0.0) / per) as usize, (mhi / per) as usize);
                    let g = if s.spb < 1.0 { 2 * (1.0 / s.spb) as usize } else { 3 };
                    let search = |k: f64, a: usize, b: usize| -> Result<u64, String> {
                        let mut first = None;
                        let mut d = 0.0;
                        while d <= k * drift + 0.5 {
                            match f(k * lenf + d, a, b) {
                                Ok(x) => return Ok(x),
                                Err(x) => first = first.or(Some(x)),
                            }
                            d += 2.0;
                        }
                        Err(first.unwrap_or_default())
                    };
                    let r = search(k, 0, mlo.saturating_sub(g).min(N)).and_then(|a| if k >= 1.0 { search(k - 1.0, (mhi + g + 1).min(N), N).map(|b| a + b) } else { Ok(a) });
                    match r {
                        Ok(x) => {
                            entries += x;
                            caps += 1;
                        }
                        Err(x) => return fail("free", format!("{} running freely, {:.3} ms ({:.3} samples per entry), after {} samples: {}", s.node, s.time_ms, s.spb, now, x)),
                    }
                } else {
                    let t = &mut st[c];
                    if t.lost {
                        continue;
                    }
                    // advance the reference
                    loop {
                        let end = t.start + s.len;
                        if now <= end + 6 {
                            break;
                        }
                        // complete by now; triggered again?
                        let next = s.trigs.iter().copied().find(|x| *x >= end - 6.min(end));
                        if let Some(x) = next {
                            if x <= end + 6 {
                                t.lost = true;
                                break;
                            }
                            if x < now {
                                t.start = x + 1;
                                t.done = false;
                                continue;
                            }
                        }
                        if !t.done && !sg.is_empty() {
                            match f(t.start as f64, 0, N) {
                                Ok(x) => entries += x,
                                Err(x) => {
                                    return fail(
                                        "capture",
                                        format!("{} (trigger source {}, threshold {}), {:.3} ms ({:.3} samples per entry), capture from sample {} on, looked at after {} samples: {}", s.node, s.tsrc, s.thr, s.time_ms, s.spb, t.start, now, x),
                                    )
                                }
                            }
                            t.done = true;
                            caps += 1;
                        } else if t.done && rng.chance(0.02) && !sg.is_empty() {
                            // it stays until the next trigger
                            if let Err(x) = f(t.start as f64, 0, N) {
                                return fail("hold", format!("{}, {:.3} ms, capture from sample {} on isn't there any more after {} samples: {}", s.node, s.time_ms, t.start, now, x));
                            }
                        }
                        break;
                    }
                    if !t.lost && now <= t.start + s.len && now > t.start + 20 && !sg.is_empty() && rng.chance(0.1) {
                        let done = (now - t.start) as f64 / s.spb.max(1.0);
                        let m = if s.spb < 1.0 { (now - t.start - 2) * ((1.0 / s.spb) as usize).min(N) } else { (done as usize).saturating_sub(4) };
                        match f(t.start as f64, 0, m.min(N)) {
                            Ok(x) => entries += x,
                            Err(x) => return fail("partial", format!("{}, {:.3} ms, capture from sample {} on, after {} samples: {}", s.node, s.time_ms, t.start, now, x)),
                        }
                    }
                }
                if bi % (7 * stride) == 1 {
                    s.check_state(&e.m, "running")?;
                }
            }
        }
        // connections change: the flags follow
        if rng.chance(0.5) {
            let mut rest = vec![];
            for ed in edges.iter() {
                if rng.chance(0.5) {
                    rest.push(*ed);
                }
            }
            for s in scs.iter_mut() {
                for i in 0..3 {
                    let k = inp_idx(s.node, ["in1", "in2", "in3"][i]);
                    if !rest.iter().any(|ed| ed.to == s.node && ed.inp == k) {
                        s.sigs[i] = None;
                    }
                }
            }
            let (w, hh) = e.m.size();
            for x in 0..w {
                for y in 0..hh {
                    e.m.place(x, y, Cell::empty(NodeId::Nop));
                }
            }
            place_edges(&mut e.m, &nodes, &rest);
            ensure!(e.m.sync().is_ok(), "sync", "refused");
            for _ in 0..3 {
                e.block(64);
            }
            for s in scs.iter() {
                s.check_state(&e.m, "after reconnecting")?;
            }
        }
        obs.fingerprint = format!("{:016x}", rng.u64());
        obs.nontrivial = caps > 0 || scs.iter().all(|s| s.sigs.iter().take(3).all(|x| x.is_none()));
        obs.count("entries compared", entries);
        obs.count("captures compared", caps);
        obs.sample = Some(json!({"scopes": scs.iter().map(|s| json!({"tsrc": s.tsrc, "ms": s.time_ms, "samples per entry": s.spb})).collect::<Vec<_>>()}));
        Ok(())
    });
}
