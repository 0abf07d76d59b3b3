//! C09: every node yields finite audio for every in-range parameter, block and rate.
use crate::core::*;
use crate::ensure;
use crate::eng::*;
use crate::gen::*;
use hexodsp::*;
use serde_json::json;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Lvl {
    /// within -1..1
    Unit,
    /// any finite value
    Wild,
}

/// A hostile control / audio signal.
pub fn hostile_sig(rng: &mut Rng, n: usize, lvl: Lvl) -> Vec<f32> {
    let amp = match lvl {
        Lvl::Unit => 1.0,
        Lvl::Wild => *rng.pick(&[1.0f32, 10.0, 1e3, 1e6, 1e12, 1e30, 3e38]),
    };
    let kind = rng.below(9);
    let c = rng.f(-amp, amp);
    let period = rng.range(1, 400) as usize;
    let freq = rng.f(0.0001, 0.5);
    let mut walk = 0.0f32;
    (0..n)
        .map(|i| match kind {
            0 => c,
            1 => rng.f(-amp, amp),
            2 => {
                if i % period == 0 {
                    amp
                } else {
                    0.0
                }
            }
            3 => {
                if (i / period) % 2 == 0 {
                    amp
                } else {
                    -amp
                }
            }
            4 => ((i as f32) * freq * 6.283).sin() * amp,
            5 => {
                if i < n / 2 {
                    -amp
                } else {
                    amp
                }
            }
            6 => {
                walk = (walk + rng.f(-0.05, 0.05) * amp).max(-amp).min(amp);
                walk
            }
            7 => *rng.pick(&[0.0, -0.0, 1e-38, -1e-42, 1e-20, 0.5 * amp, -amp, amp]),
            _ => {
                if (i / period) % 2 == 0 {
                    0.0
                } else {
                    c.abs()
                }
            }
        })
        .collect()
}

pub const RATES: [f32; 5] = [44100.0, 48000.0, 88200.0, 96000.0, 192000.0];

/// The bowed string is documented to work from 55 Hz to 1760 Hz.
fn knob_for(rng: &mut Rng, p: ParamId, lvl: Lvl, corner: bool, moog: bool) -> f32 {
    if lvl == Lvl::Unit && moog {
        match p.name() {
            "freq" => return if corner && rng.chance(0.5) { p.norm(8000.0) } else { rng.f(p.norm(20.0), p.norm(8000.0)) },
            "res" => return if corner && rng.chance(0.5) { 0.85 } else { rng.f(0.0, 0.85) },
            _ => {}
        }
    }
    if lvl == Lvl::Unit && p.node_id().name() == "bowstri" {
        match p.name() {
            "freq" => return rng.f(p.norm(55.0), p.norm(1760.0)),
            "det" => return 0.0,
            _ => {}
        }
    }
    let v = if corner {
        // at the ends of the range
        let (min, max) = p.param_min_max().map(|x| x.0).unwrap_or((0.0, 1.0));
        match rng.below(10) {
            0..=3 => min,
            4..=7 => max,
            8 => p.norm_def(),
            _ => rand_param(rng, p),
        }
    } else {
        rand_param(rng, p)
    };
    if lvl == Lvl::Unit && p.node_id().name() == "pverb" && p.name() == "size" {
        return v.max(0.15);
    }
    v
}

const RESONATORS: [&str; 6] = ["sfilter", "biqfilt", "fvafilt", "bowstri", "formfm", "pverb"];

/// The setting of the Stilson/Moog low pass of SFilter, the last one of its types.
const MOOG: i64 = 13;

struct Single {
    t: NodeId,
    lvl: Lvl,
    rate: f32,
    driven: Vec<(ParamId, Option<f32>)>,
    sig: Vec<Vec<f32>>,
}

pub fn run(rep: &mut Report) {
    rep.rule = "one evaluation = one node type with random settings and parameters, its inputs driven by hostile signals, rendered in random blocks at a random rate with parameter changes under way; every output sample checked".into();
    let types: Vec<NodeId> = all_types();
    rep.note("node_types", json!(types.len()));
    let samples = sample_files();
    let n = rep.opts.n(types.len() * 110, types.len() * 2000);
    rep.run("single", n, |rng, case, obs| {
        let t = types[case % types.len()].to_instance(rng.below(3));
        // a third of the cases: knobs at the ends of their ranges, nothing but the audio driven
        let corner = (case / types.len()) % 3 == 2;
        let lvl = if corner || rng.chance(0.6) { Lvl::Unit } else { Lvl::Wild };
        let rate = if corner && rng.chance(0.5) { RATES[0] } else { *rng.pick(&RATES) };
        let mut e = Eng::new(16, 16, rate);
        if rng.chance(0.5) {
            // Only if the rate really changes on the running engine
            e.ex.set_sample_rate(rate);
        }
        let ins = params_of(t);
        // (the circuit solvers of this filter are slow while they do not converge)
        let frames = if t.name() == "fvafilt" { rng.range(40, if lvl == Lvl::Wild { 80 } else { 400 }) } else { rng.range(1500, 6000) } as usize;
        let mut driven = vec![];
        for p in ins.iter() {
            // Resonators are not promised to stay stable if their coefficients are modulated
            // at audio rate: within range their parameters are only turned like knobs.
            let knob = lvl == Lvl::Unit && RESONATORS.contains(&t.name()) && !matches!(p.name(), "inp" | "in_l" | "in_r" | "trig");
            if !knob && rng.chance(if !corner { 0.5 } else if p.name().starts_with("in") { 0.95 } else { 0.1 }) {
                let amt = if lvl == Lvl::Wild && rng.chance(0.5) { Some(rng.f(-1.0, 1.0)) } else { None };
                driven.push((*p, amt));
            }
        }
        let s = Single { t, lvl, rate, sig: driven.iter().map(|(p, _)| {
            let mut v = hostile_sig(rng, frames, lvl);
            if lvl == Lvl::Unit {
                // inside the range of the parameter
                let (min, max) = p.param_min_max().map(|x| x.0).unwrap_or((-1.0, 1.0));
                for x in v.iter_mut() {
                    *x = if min < 0.0 { (*x * min.abs().max(max.abs())).max(min).min(max) } else { (min + x.abs() * (max - min)).max(min).min(max) };
                }
            }
            v
        }).collect(), driven };
        let mut nodes = vec![t];
        let mut edges = vec![];
        let is_rust = t.name() == "rust1x1";
        let off = if is_rust { 3 } else { 0 };
        for (i, (p, _)) in s.driven.iter().enumerate() {
            let r = NodeId::Rust1x1((i + off) as u8);
            nodes.push(r);
            edges.push(E { from: r, out: 0, to: t, inp: p.inp() });
        }
        let outs = n_outs(t);
        let mut recs = vec![];
        for o in 0..outs {
            let k = s.driven.len() + off + o / 5;
            let r = NodeId::Rust1x1(k as u8);
            edges.push(E { from: t, out: o as u8, to: r, inp: inp_idx(r, PROBE_IN[o % 5]) });
        }
        for k in 0..(outs + 4) / 5 {
            recs.push(k + s.driven.len() + off);
        }
        place_edges(&mut e.m, &nodes, &edges);
        for (p, a) in s.driven.iter() {
            let _ = e.m.set_param_modamt(*p, *a);
        }
        // The Stilson/Moog low pass only up to 8 kHz and a resonance of 0.85 (known finding,
        // see the group moog-high), and not switched to another type under way.
        let is_sfilt = t.name() == "sfilter";
        let moog = is_sfilt && rng.chance(0.1);
        let atom_for = |rng: &mut Rng, p: ParamId| -> SAtom {
            if is_sfilt && p.name() == "ftype" && (lvl == Lvl::Unit || moog) {
                return if moog { SAtom::setting(MOOG) } else { SAtom::setting(rng.below(MOOG as usize) as i64) };
            }
            rand_atom(rng, p, &samples)
        };
        for p in atoms_of(t) {
            if rng.chance(0.8) || p.name() == "ftype" {
                let v = atom_for(rng, p);
                e.m.set_param(p, v);
            }
        }
        for p in ins.iter() {
            if corner || rng.chance(0.7) {
                e.m.set_param(*p, SAtom::param(knob_for(rng, *p, lvl, corner, moog)));
            }
        }
        ensure!(e.m.sync().is_ok(), "sync", "single node graph refused for {}", t);
        let mut rr = vec![];
        for (i, sg) in s.sig.iter().enumerate() {
            let (b, _) = player(sg.clone());
            e.m.set_dynamic_node1x1(i + off, b);
        }
        for k in recs.iter() {
            let (b, r) = recorder();
            e.m.set_dynamic_node1x1(*k, b);
            rr.push(r);
        }
        if t.name() == "tseq" {
            Pat::gen(rng).apply(&mut e.m, t.instance());
        }
        let il = hostile_sig(rng, frames, lvl);
        let ir = hostile_sig(rng, frames, lvl);
        let blocks = rand_blocks(rng);
        let mut done = 0;
        let mut bi = 0;
        while done < frames {
            let n = blocks[bi % blocks.len()].min(frames - done);
            bi += 1;
            e.ctx.inp[0][0..n].copy_from_slice(&il[done..done + n]);
            e.ctx.inp[1][0..n].copy_from_slice(&ir[done..done + n]);
            e.m.check_pattern_data(t.instance());
            if rng.chance(if corner { 0.02 } else { 0.1 }) {
                // change something under way
                if rng.chance(0.6) || atoms_of(t).is_empty() {
                    if !ins.is_empty() {
                        let p = *rng.pick(&ins);
                        e.m.set_param(p, SAtom::param(knob_for(rng, p, lvl, corner, moog)));
                    }
                } else {
                    let p = *rng.pick(&atoms_of(t));
                    let v = atom_for(rng, p);
                    e.m.set_param(p, v);
                }
            }
            e.block(n);
            done += n;
            if s.lvl == Lvl::Unit {
                for ch in 0..2 {
                    for f in 0..n {
                        ensure!(e.ctx.out[ch][f].is_finite(), "output-not-finite", "{} at {} Hz: audio output {} frame {} is {}", t, rate, ch, done - n + f, e.ctx.out[ch][f]);
                    }
                }
            }
        }
        let mut peak = 0.0f32;
        for o in 0..outs {
            let r = rr[o / 5].lock().unwrap();
            let sig = &r.ins[o % 5];
            for (f, v) in sig.iter().enumerate() {
                if s.lvl == Lvl::Unit {
                    ensure!(v.is_finite(), format!("not-finite-{}", t.name()).as_str(), "{} at {} Hz: output {} frame {} is {} (driven {:?}, {})", t, s.rate, t.out_name_by_idx(o as u8).unwrap_or("?"), f, v, s.driven.iter().map(|d| (d.0.name(), d.1)).collect::<Vec<_>>(), params_of(t).into_iter().chain(atoms_of(t)).map(|p| format!("{}={:?}", p.name(), e.m.get_param(&p))).collect::<Vec<_>>().join(" "));
                    peak = peak.max(v.abs());
                }
            }
            obs.count("samples_checked", sig.len() as u64);
        }
        obs.count(&format!("cases_{:?}", s.lvl), 1);
        obs.count("cases_at_range_ends", corner as u64);
        obs.max(&format!("peak_{}", s.t.name()), peak.min(1e15) as u64);
        obs.nontrivial = outs > 0;
        obs.fingerprint = format!("{} {:?} {} {:?}", t, lvl, rate, blocks);
        Ok(())
    });
    rep.assumptions.push("coefficients of filters and reverbs, and the bowed string, are turned like knobs (set_param), not driven at audio rate, where finite output is required; the bowed string within its documented 55 Hz to 1760 Hz".into());
    rep.assumptions.push("size of the plate reverb at least 0.15: below that its modulated delay lines can run away (known finding, fixed reproducer in group pverb-small)".into());
    rep.run("pverb-small", 1, |rng, _case, obs| {
        obs.nontrivial = true;
        obs.fingerprint = "pverb-small".into();
        let t = NodeId::PVerb(0);
        let mut e = Eng::new(4, 4, 88200.0);
        let (src, out) = (NodeId::Rust1x1(0), NodeId::Out(0));
        place_edges(&mut e.m, &[], &[E { from: src, out: 0, to: t, inp: inp_idx(t, "in_l") }, E { from: t, out: 0, to: out, inp: 0 }]);
        for (k, v) in [("size", 0.0), ("dcy", 0.0), ("mspeed", 0.0), ("mshp", 0.7628738), ("mdepth", 0.5067397), ("dmix", 1.0), ("mix", 1.0)] {
            e.set(t, k, v);
        }
        e.m.sync().map_err(|e| Fail { key: "sync".into(), msg: format!("{:?}", e) })?;
        let (b, _) = player(noise_sig(rng, 8000, 1.0));
        e.m.set_dynamic_node1x1(0, b);
        let (l, _) = e.render(8000, &[64]);
        let bad = l.iter().position(|v| !v.is_finite());
        ensure!(bad.is_none(), "pverb-small-size-runaway", "PVerb with size 0 and mdepth 0.5 is not finite from frame {:?} on", bad);
        obs.count("samples_checked", l.len() as u64);
        Ok(())
    });
    rep.run("moog-high", 1, |_rng, _case, obs| {
        obs.nontrivial = true;
        obs.fingerprint = "moog-high".into();
        let t = NodeId::SFilter(0);
        let mut e = Eng::new(4, 4, 44100.0);
        let (src, out) = (NodeId::Rust1x1(0), NodeId::Out(0));
        place_edges(&mut e.m, &[], &[E { from: src, out: 0, to: t, inp: inp_idx(t, "inp") }, E { from: t, out: 0, to: out, inp: 0 }]);
        let f = t.inp_param("freq").unwrap();
        e.m.set_param(f, SAtom::param(f.norm(20000.0)));
        e.set(t, "res", 1.0);
        e.m.set_param(t.inp_param("ftype").unwrap(), SAtom::setting(MOOG));
        e.m.sync().map_err(|e| Fail { key: "sync".into(), msg: format!("{:?}", e) })?;
        let (b, _) = player(noise_sig(&mut Rng::new(1), 20000, 1.0));
        e.m.set_dynamic_node1x1(0, b);
        let (l, _) = e.render(20000, &[64]);
        let bad = l.iter().position(|v| !v.is_finite());
        ensure!(bad.is_none(), "sfilter-moog-high-runaway", "SFilter ftype {} (Stilson/Moog) at 20 kHz with res 1 is not finite from frame {:?} on", MOOG, bad);
        obs.count("samples_checked", l.len() as u64);
        Ok(())
    });
}
