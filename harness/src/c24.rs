//! C24: nodes that mix, map and route.
use crate::bench::*;
use crate::core::*;
use crate::ensure;
use crate::eng::*;
use hexodsp::*;
use serde_json::json;
use std::sync::atomic::{AtomicU32, Ordering};
use std::sync::Arc;

/// Chooses for every input whether it's a knob or a signal.
struct Plan {
    names: Vec<&'static str>,
    knob: Vec<f32>,
    sig: Vec<Option<Vec<f32>>>,
}
impl Plan {
    fn new() -> Self {
        Plan { names: vec![], knob: vec![], sig: vec![] }
    }
    fn add(&mut self, rng: &mut Rng, name: &'static str, n: usize, lo: f32, hi: f32, p: f32) {
        let knob = if rng.chance(0.15) { *rng.pick(&[lo, hi]) } else { rng.f(lo, hi) };
        self.names.push(name);
        self.knob.push(knob);
        self.sig.push(if rng.chance(p) { Some(sig(rng, n, lo, hi)) } else { None });
    }
    fn knobs(&self) -> Vec<(&'static str, f32)> {
        self.names.iter().copied().zip(self.knob.iter().copied()).collect()
    }
    fn sigs(&self) -> Vec<(&'static str, Vec<f32>)> {
        self.names.iter().copied().zip(self.sig.iter()).filter_map(|(n, s)| s.clone().map(|s| (n, s))).collect()
    }
    fn src(&self, b: &Bench, name: &str) -> Src {
        let i = self.names.iter().position(|n| *n == name).expect("harness: input");
        if self.sig[i].is_some() {
            Src::Sig(b.inp(name))
        } else {
            Src::Knob(self.knob[i])
        }
    }
}

fn close(what: &str, i: usize, got: f32, exp: f64, tol: f64) -> Result<(), Fail> {
    if !((got as f64 - exp).abs() <= tol) {
        return fail(what, format!("sample {}: got {}, expected {} (tolerance {:e})", i, got, exp, tol));
    }
    Ok(())
}

struct Ext {
    v: Vec<AtomicU32>,
}
macro_rules! ext {
    ($($n: ident $i: expr),*) => {
        impl ExternalParams for Ext {
            $(fn $n(&self) -> f32 { f32::from_bits(self.v[$i].load(Ordering::Relaxed)) })*
        }
    }
}
use hexodsp::nodes::ExternalParams;
ext! {a1 0, a2 1, a3 2, b1 3, b2 4, b3 5, c1 6, c2 7, c3 8, d1 9, d2 10, d3 11, e1 12, e2 13, e3 14, f1 15, f2 16, f3 17}

pub fn run(rep: &mut Report) {
    rep.rule = "one evaluation = one node with a random choice of knobs and connected inputs (noise, steps, ramps, gates), random settings, block sizes and sample rate; every output sample is compared with a reference computed from what the inputs were really fed".into();
    rep.assumptions = vec![
        "volumes run from -90 dB (silence) to +18 dB, gains from -24 dB to +24 dB, as shown by the parameters".into(),
        "negative values at att count by their size when not clipped".into(),
    ];
    let srs = [44100.0f32, 48000.0, 96000.0, 22050.0];

    let n = rep.opts.n(260, 6000);
    rep.run("amp-mix3", n, |rng, case, obs| {
        let frames = rng.range(300, 2500) as usize;
        let sr = *rng.pick(&srs);
        let blocks = rand_blocks(rng);
        let inst = rng.below(4) as u8;
        let mut p = Plan::new();
        if case % 2 == 0 {
            let node = NodeId::Amp(inst);
            p.add(rng, "inp", frames, -1.0, 1.0, 0.7);
            p.add(rng, "gain", frames, 0.0, 1.0, 0.5);
            p.add(rng, "att", frames, -1.0, 1.0, 0.6);
            if p.sig[2].is_none() {
                p.knob[2] = p.knob[2].abs();
            }
            let neg = rng.below(2) as i64;
            let s = Setup { node, sr, knobs: p.knobs(), atoms: vec![("neg_att", neg)], sigs: p.sigs(), outs: vec!["sig"], edges: vec![], blocks, raw: vec![] };
            let mut b = Bench::new(&s)?;
            b.run(frames);
            let (i, g, a, o) = (p.src(&b, "inp"), p.src(&b, "gain"), p.src(&b, "att"), b.out(0));
            ensure!(o.len() == frames, "count", "{} samples for {} frames", o.len(), frames);
            for f in 0..frames {
                let at = a.at(f);
                let at = if neg == 1 { at.max(0.0) } else { at.abs() };
                let e = i.at(f) * at * db_gain(g.at(f), -24.0, 24.0);
                close("amp", f, o[f], e, 2e-5 * e.abs() + 1e-6)?;
            }
            obs.sample = Some(json!({"node":"amp","neg":neg}));
        } else {
            let node = NodeId::Mix3(inst);
            for c in ["ch1", "ch2", "ch3"] {
                p.add(rng, c, frames, -1.0, 1.0, 0.6);
            }
            for c in ["vol1", "vol2", "vol3", "ovol"] {
                p.add(rng, c, frames, 0.0, 1.0, 0.4);
            }
            let s = Setup { node, sr, knobs: p.knobs(), atoms: vec![], sigs: p.sigs(), outs: vec!["sig"], edges: vec![], blocks, raw: vec![] };
            let mut b = Bench::new(&s)?;
            b.run(frames);
            let o = b.out(0);
            ensure!(o.len() == frames, "count", "{} samples for {} frames", o.len(), frames);
            let ch: Vec<Src> = ["ch1", "ch2", "ch3"].iter().map(|n| p.src(&b, n)).collect();
            let vo: Vec<Src> = ["vol1", "vol2", "vol3", "ovol"].iter().map(|n| p.src(&b, n)).collect();
            for f in 0..frames {
                let (mut e, mut scale) = (0.0, 0.0);
                let ov = db_gain(vo[3].at(f), -90.0, 18.0);
                for k in 0..3 {
                    let x = ch[k].at(f) * db_gain(vo[k].at(f), -90.0, 18.0) * ov;
                    e += x;
                    scale += x.abs();
                }
                // (the step to silence at the lower end may fall on either side)
                let edge = (0..4).any(|k| vo[k].at(f) < 0.0012);
                close("mix3", f, o[f], e, 3e-5 * scale + 1e-6 + if edge { 3e-4 * (1.0 + ov) } else { 0.0 })?;
            }
            obs.sample = Some(json!({"node":"mix3"}));
        }
        obs.fingerprint = format!("{:016x}", rng.u64());
        obs.nontrivial = true;
        obs.count("samples compared", frames as u64);
        Ok(())
    });

    let n = rep.opts.n(260, 6000);
    rep.run("map-smap", n, |rng, case, obs| {
        let frames = rng.range(300, 2500) as usize;
        let sr = *rng.pick(&srs);
        let blocks = rand_blocks(rng);
        let inst = rng.below(4) as u8;
        let mut p = Plan::new();
        let clip = rng.below(2) as i64;
        if case % 2 == 0 {
            let node = NodeId::Map(inst);
            for c in ["inp", "atv", "offs", "imin", "imax", "min", "max"] {
                p.add(rng, c, frames, -1.0, 1.0, if c == "inp" { 0.8 } else { 0.3 });
            }
            let s = Setup { node, sr, knobs: p.knobs(), atoms: vec![("clip", clip)], sigs: p.sigs(), outs: vec!["sig"], edges: vec![], blocks, raw: vec![] };
            let mut b = Bench::new(&s)?;
            b.run(frames);
            let o = b.out(0);
            ensure!(o.len() == frames, "count", "{} samples for {} frames", o.len(), frames);
            let v: Vec<Src> = ["inp", "atv", "offs", "imin", "imax", "min", "max"].iter().map(|n| p.src(&b, n)).collect();
            let mut outside = 0;
            for f in 0..frames {
                let x: Vec<f64> = v.iter().map(|s| s.at(f)).collect();
                let s = x[0] * x[1] + x[2];
                let d = x[4] - x[3];
                if d.abs() < 1e-3 {
                    ensure!(o[f].is_finite(), "map", "sample {}: {} for an empty input range", f, o[f]);
                    continue;
                }
                let t = (s - x[3]) / d;
                if t < 0.0 || t > 1.0 {
                    outside += 1;
                }
                let mut e = x[5] + (x[6] - x[5]) * t;
                if clip == 1 {
                    e = e.max(x[5].min(x[6])).min(x[5].max(x[6]));
                }
                let tol = 1e-6 * (1.0 + ((x[0] * x[1]).abs() + x[2].abs() + x[3].abs() + t.abs() * (x[3].abs() + x[4].abs())) / d.abs()) * (1.0 + (x[6] - x[5]).abs() * (1.0 + t.abs()));
                close(if clip == 1 { "map-clip" } else { "map" }, f, o[f], e, tol)?;
            }
            obs.count("map samples outside the input range", outside);
            obs.sample = Some(json!({"node":"map","clip":clip}));
        } else {
            let node = NodeId::SMap(inst);
            let mode = rng.below(4) as i64;
            let r = if rng.chance(0.5) { 1.0 } else { 2.0 };
            p.add(rng, "inp", frames, -r, r, 1.0);
            for c in ["min", "max"] {
                p.add(rng, c, frames, -1.0, 1.0, 0.4);
            }
            let s = Setup { node, sr, knobs: p.knobs(), atoms: vec![("clip", clip), ("mode", mode)], sigs: p.sigs(), outs: vec!["sig"], edges: vec![], blocks, raw: vec![] };
            let mut b = Bench::new(&s)?;
            b.run(frames);
            let o = b.out(0);
            ensure!(o.len() == frames, "count", "{} samples for {} frames", o.len(), frames);
            let v: Vec<Src> = ["inp", "min", "max"].iter().map(|n| p.src(&b, n)).collect();
            for f in 0..frames {
                let x: Vec<f64> = v.iter().map(|s| s.at(f)).collect();
                let mut t = if mode % 2 == 0 { x[0] } else { (x[0] + 1.0) * 0.5 };
                if mode >= 2 {
                    t = 1.0 - t;
                }
                if clip == 1 {
                    t = t.max(0.0).min(1.0);
                }
                let e = x[1] + (x[2] - x[1]) * t;
                close("smap", f, o[f], e, 4e-6)?;
            }
            obs.sample = Some(json!({"node":"smap","mode":mode,"clip":clip}));
        }
        obs.fingerprint = format!("{:016x}", rng.u64());
        obs.nontrivial = true;
        obs.count("samples compared", frames as u64);
        Ok(())
    });

    let n = rep.opts.n(300, 6000);
    rep.run("mux9", n, |rng, _case, obs| {
        let sr = *rng.pick(&srs);
        let blocks = rand_blocks(rng);
        let node = NodeId::Mux9(rng.below(4) as u8);
        let segs = rng.range(1, 4) as usize;
        let seg_len: Vec<usize> = (0..segs).map(|_| rng.range(200, 1500) as usize).collect();
        let frames: usize = seg_len.iter().sum();
        let cnt: Vec<i64> = (0..segs).map(|_| rng.below(9) as i64).collect();
        let mut p = Plan::new();
        let ins = ["in_1", "in_2", "in_3", "in_4", "in_5", "in_6", "in_7", "in_8", "in_9"];
        for c in ins {
            p.add(rng, c, frames, -1.0, 1.0, 0.25);
        }
        let with_slct = rng.chance(0.4);
        p.names.push("slct");
        p.knob.push(rng.f(0.0, 1.0));
        p.sig.push(if with_slct { Some(sig(rng, frames, 0.0, 1.0)) } else { None });
        for c in ["t_rst", "t_up", "t_down"] {
            p.names.push(c);
            p.knob.push(rng.f(-1.0, 0.2));
            let (lo, hi) = if c == "t_rst" { (20, 400) } else { *rng.pick(&[(1usize, 8usize), (1, 60), (20, 200)]) };
            p.sig.push(if rng.chance(0.7) { Some(gates(rng, frames, lo, hi)) } else { None });
        }
        let s = Setup { node, sr, knobs: p.knobs(), atoms: vec![("in_cnt", cnt[0])], sigs: p.sigs(), outs: vec!["sig"], edges: vec![], blocks, raw: vec![] };
        let mut b = Bench::new(&s)?;
        for k in 0..segs {
            if k > 0 {
                b.e.seti(node, "in_cnt", cnt[k]);
            }
            b.run(seg_len[k]);
        }
        let o = b.out(0);
        ensure!(o.len() == frames, "count", "{} samples for {} frames", o.len(), frames);
        let v: Vec<Src> = ins.iter().map(|n| p.src(&b, n)).collect();
        let sl = p.src(&b, "slct");
        let (tr, tu, td) = (p.src(&b, "t_rst"), p.src(&b, "t_up"), p.src(&b, "t_down"));
        let (mut gr, mut gu, mut gd) = (Trig::default(), Trig::default(), Trig::default());
        // positions that are possible (changing the number of inputs may choose any)
        let mut cand: Vec<usize> = vec![0];
        let (mut f, mut events, mut routes) = (0usize, 0u64, [false; 9]);
        for k in 0..segs {
            let max = cnt[k] as usize + 1;
            if k > 0 {
                cand = if cand.len() == 1 && cand[0] < max { cand } else { (0..max).collect() };
            }
            for _ in 0..seg_len[k] {
                if with_slct {
                    let x = sl.at(f) * max as f64;
                    let lo = ((x - 2e-3).floor().max(0.0) as usize).min(max - 1);
                    let hi = ((x + 2e-3).floor().max(0.0) as usize).min(max - 1);
                    cand = (lo..=hi).collect();
                } else {
                    let (r, u, d) = (gr.next(tr.at32(f)), gu.next(tu.at32(f)), gd.next(td.at32(f)));
                    events += r as u64 + u as u64 + d as u64;
                    if r && (u || d) {
                        // (several at once: the order isn't documented)
                        let mut c2 = vec![];
                        for c in cand.iter() {
                            for x in [0, 1 % max, max - 1, *c, (*c + 1) % max, (*c + max - 1) % max] {
                                if !c2.contains(&x) {
                                    c2.push(x);
                                }
                            }
                        }
                        cand = c2;
                    } else {
                        for c in cand.iter_mut() {
                            if r {
                                *c = 0;
                            }
                            if u {
                                *c = (*c + 1) % max;
                            }
                            if d {
                                *c = (*c + max - 1) % max;
                            }
                        }
                        cand.sort();
                        cand.dedup();
                    }
                }
                let before = cand.clone();
                cand.retain(|c| v[*c].at32(f) == o[f]);
                ensure!(
                    !cand.is_empty(),
                    if with_slct { "mux9-slct" } else { "mux9-trig" },
                    "sample {}: the output is {}, the inputs {:?} that may be selected (of {}, slct {}) have {:?}",
                    f,
                    o[f],
                    before,
                    max,
                    sl.at(f),
                    before.iter().map(|c| v[*c].at32(f)).collect::<Vec<_>>()
                );
                if cand.len() == 1 {
                    routes[cand[0]] = true;
                }
                f += 1;
            }
        }
        obs.fingerprint = format!("{:016x}", rng.u64());
        obs.nontrivial = true;
        obs.count("samples compared", frames as u64);
        obs.count("triggers", events);
        obs.count("different inputs routed", routes.iter().filter(|r| **r).count() as u64);
        obs.sample = Some(json!({"slct":with_slct,"in_cnt":cnt}));
        Ok(())
    });

    let n = rep.opts.n(200, 4000);
    rep.run("inp-out", n, |rng, _case, obs| {
        let frames = rng.range(300, 2500) as usize;
        let sr = *rng.pick(&srs);
        let blocks = rand_blocks(rng);
        let mono = rng.below(2) as i64;
        let (ni, no) = (NodeId::Inp(rng.below(3) as u8), NodeId::Out(0));
        let through = rng.chance(0.6);
        let mut e = Eng::new(8, 20, sr);
        let il = noise_sig(rng, frames, 1.0);
        let ir = noise_sig(rng, frames, 1.0);
        let kvol = if rng.chance(0.2) { 0.0 } else { rng.f(0.01, 1.0) };
        let kin = rng.f(0.01, 1.0);
        // volumes by their real value, or as normalised signals
        let by_sig = rng.chance(0.5);
        let by_sig_in = rng.chance(0.5);
        let mut edges = vec![];
        e.seti(no, "mono", mono);
        let ov = sig(rng, frames, 0.01, 1.0);
        let iv = sig(rng, frames, 0.01, 1.0);
        let amps = (rng.f(0.05, 4.0), rng.f(0.05, 4.0));
        if by_sig {
            let (nd, _) = player(ov.clone());
            e.m.set_dynamic_node1x1(0, nd);
            edges.push(edge(NodeId::Rust1x1(0), "sig", no, "vol"));
        } else if rng.chance(0.5) {
            e.set(no, "vol", kvol);
        } else {
            e.set_denorm(no, "vol", amps.0);
        }
        let okn = no.inp_param("vol").map(|p| e.m.get_param(&p).map_or(0.0, |v| v.f())).unwrap();
        if by_sig_in {
            let (nd, _) = player(iv.clone());
            e.m.set_dynamic_node1x1(1, nd);
            edges.push(edge(NodeId::Rust1x1(1), "sig", ni, "vol"));
        } else if rng.chance(0.5) {
            e.set(ni, "vol", kin);
        } else {
            e.set_denorm(ni, "vol", amps.1);
        }
        let ikn = ni.inp_param("vol").map(|p| e.m.get_param(&p).map_or(0.0, |v| v.f())).unwrap();
        let (ch1, ch2) = (rng.chance(0.8), rng.chance(0.7));
        let (swap, k1, k2) = (rng.chance(0.3), rng.f(-1.0, 1.0), rng.f(-1.0, 1.0));
        let (a, b) = if swap { ("sig2", "sig1") } else { ("sig1", "sig2") };
        let (s1, s2) = (noise_sig(rng, frames, 1.0), noise_sig(rng, frames, 1.0));
        if ch1 {
            if through {
                edges.push(edge(ni, a, no, "ch1"));
            } else {
                let (nd, _) = player(s1.clone());
                e.m.set_dynamic_node1x1(2, nd);
                edges.push(edge(NodeId::Rust1x1(2), "sig", no, "ch1"));
            }
        } else {
            e.set(no, "ch1", k1);
        }
        if ch2 {
            if through {
                edges.push(edge(ni, b, no, "ch2"));
            } else {
                let (nd, _) = player(s2.clone());
                e.m.set_dynamic_node1x1(3, nd);
                edges.push(edge(NodeId::Rust1x1(3), "sig", no, "ch2"));
            }
        } else {
            e.set(no, "ch2", k2);
        }
        place_edges(&mut e.m, &[no, ni], &edges);
        ensure!(e.m.sync().is_ok(), "sync", "refused");
        let (l, r) = e.render_in(&il, &ir, &blocks);
        for f in 0..frames {
            let vo = db_gain(if by_sig { ov[f] as f64 } else { okn as f64 }, -90.0, 18.0);
            let vi = db_gain(if by_sig_in { iv[f] as f64 } else { ikn as f64 }, -90.0, 18.0);
            let (x1, x2) = if swap { (ir[f], il[f]) } else { (il[f], ir[f]) };
            let c1 = if !ch1 {
                k1 as f64
            } else if through {
                x1 as f64 * vi
            } else {
                s1[f] as f64
            };
            let c2 = if !ch2 {
                k2 as f64
            } else if through {
                x2 as f64 * vi
            } else {
                s2[f] as f64
            };
            let (el, er) = (c1 * vo, if mono == 1 { c1 } else { c2 } * vo);
            close("out-left", f, l[f], el, 5e-5 * el.abs() + 2e-6)?;
            close("out-right", f, r[f], er, 5e-5 * er.abs() + 2e-6)?;
        }
        obs.fingerprint = format!("{:016x}", rng.u64());
        obs.nontrivial = through || ch1;
        obs.count("samples compared", frames as u64 * 2);
        obs.sample = Some(json!({"mono":mono,"through":through,"swap":swap}));
        Ok(())
    });

    let n = rep.opts.n(200, 4000);
    rep.run("ext", n, |rng, _case, obs| {
        let sr = *rng.pick(&srs);
        let which = rng.below(6);
        let inst = rng.below(3) as u8;
        let node = match which {
            0 => NodeId::ExtA(inst),
            1 => NodeId::ExtB(inst),
            2 => NodeId::ExtC(inst),
            3 => NodeId::ExtD(inst),
            4 => NodeId::ExtE(inst),
            _ => NodeId::ExtF(inst),
        };
        let frames = rng.range(1000, 6000) as usize;
        let mut p = Plan::new();
        for c in ["atv1", "atv2", "atv3"] {
            p.add(rng, c, frames, -1.0, 1.0, 0.4);
        }
        // the time for a change of 1.0: the square of the knob times 5 s
        let slew = if rng.chance(0.3) { 0.0 } else { rng.f(0.01, 0.12) };
        p.names.push("slew");
        p.knob.push(slew);
        p.sig.push(if rng.chance(0.2) { Some(sig(rng, frames, 0.006, 0.12)) } else { None });
        let s = Setup { node, sr, knobs: p.knobs(), atoms: vec![], sigs: p.sigs(), outs: vec!["sig1", "sig2", "sig3"], edges: vec![], blocks: rand_blocks(rng), raw: vec![] };
        let mut b = Bench::new(&s)?;
        let ext = Arc::new(Ext { v: (0..18).map(|_| AtomicU32::new(rng.f(-1.0, 1.0).to_bits())).collect() });
        b.e.ex.set_external_params(ext.clone());
        let mut want: Vec<[f32; 3]> = vec![];
        let mut left = frames;
        let mut changes = 0u64;
        while left > 0 {
            if rng.chance(0.1) {
                // (all of them: a mixup would show)
                for x in ext.v.iter() {
                    if rng.chance(0.6) {
                        x.store((if rng.chance(0.2) { 0.0 } else { rng.f(-1.0, 1.0) }).to_bits(), Ordering::Relaxed);
                    }
                }
                changes += 1;
            }
            let n = b.next_block().min(left);
            b.e.block(n);
            let g = |k: usize| f32::from_bits(ext.v[which * 3 + k].load(Ordering::Relaxed));
            for _ in 0..n {
                want.push([g(0), g(1), g(2)]);
            }
            left -= n;
        }
        let sl = p.src(&b, "slew");
        for k in 0..3 {
            let o = b.out(k);
            ensure!(o.len() == frames, "count", "{} samples for {} frames", o.len(), frames);
            let a = p.src(&b, ["atv1", "atv2", "atv3"][k]);
            let mut cur = 0.0f64;
            for f in 0..frames {
                let ms = sl.at(f) * sl.at(f) * 5000.0;
                let t = want[f][k] as f64;
                if ms < 0.11 {
                    cur = t;
                } else {
                    let d = 1000.0 / sr as f64 / ms;
                    cur = t.min(cur + d).max(cur - d);
                }
                // (rounding adds up while it is on its way)
                close("ext", f, o[f], cur * a.at(f), 3e-4)?;
            }
        }
        obs.fingerprint = format!("{:016x}", rng.u64());
        obs.nontrivial = changes > 0;
        obs.count("samples compared", frames as u64 * 3);
        obs.count("parameter changes", changes);
        obs.sample = Some(json!({"node": format!("{}", node), "slew": slew}));
        Ok(())
    });
}
