//! C26: quantised, random and control nodes stay inside their promised range.
use crate::bench::*;
use crate::core::*;
use crate::ensure;
use crate::eng::*;
use hexodsp::*;
use serde_json::json;

/// Times and lengths of the pulses of a trigger output.
fn pulses(v: &[f32]) -> Vec<(usize, usize)> {
    let mut r: Vec<(usize, usize)> = vec![];
    let mut on = false;
    for (i, x) in v.iter().enumerate() {
        if *x > 0.5 {
            if !on {
                r.push((i, 0));
            }
            r.last_mut().unwrap().1 += 1;
            on = true;
        } else {
            on = false;
        }
    }
    r
}
fn two_level(v: &[f32], what: &str) -> Result<(), Fail> {
    for (i, x) in v.iter().enumerate() {
        ensure!(*x == 0.0 || *x == 1.0, "trigger-levels", "{}: sample {} of the trigger output is {}", what, i, x);
    }
    Ok(())
}
fn hold_sig(rng: &mut Rng, n: usize, lo: f32, hi: f32, min: usize, max: usize) -> Vec<f32> {
    let mut v = vec![];
    while v.len() < n {
        let x = rng.f(lo, hi);
        for _ in 0..rng.range(min as i64, max as i64) {
            v.push(x);
        }
    }
    v.truncate(n);
    v
}

pub fn run(rep: &mut Report) {
    rep.rule = "one evaluation = one quantizer, random walk, envelope, LFO or noise node with random settings, knobs, input signals, block sizes and sample rate; every output sample is checked against the limits, and triggers, times and values against what the inputs and settings demand".into();
    rep.assumptions = vec![
        "the pitch quantizer first rounds to semitones: the note chosen may be up to 1.5 semitones farther away than the nearest one".into(),
        "envelope times are met within 2 % plus 4 samples, with a minimum of a few samples per stage".into(),
        "the random walk is inside of its bounds from the first trigger on (it starts at zero), up to 2e-4".into(),
    ];
    let srs = [44100.0f32, 44100.0, 48000.0, 96000.0, 22050.0];
    let n = rep.opts.n(200, 4000);
    rep.run("quant", n, |rng, case, obs| {
        let sr = *rng.pick(&srs);
        let frames = rng.range(1500, 6000) as usize;
        let keys = if rng.chance(0.15) { 0 } else { rng.range(1, 4095) };
        let keys = if rng.chance(0.2) { 1 << rng.below(12) } else { keys };
        let mask = if keys == 0 { 4095 } else { keys };
        let gap = (sr * 0.004) as usize;
        let slow = rng.chance(0.6);
        let octk = if rng.chance(0.4) { 0.0 } else { rng.range(-4, 4) as f32 * 0.1 };
        let oct_sig = rng.chance(0.3);
        let mut sigs = vec![];
        let inst = rng.below(3) as u8;
        let name = if case % 2 == 0 { "freq" } else { "inp" };
        let (lo, hi) = if case % 2 == 0 { (-0.9, 0.5) } else { (-0.1, 1.1) };
        sigs.push((name, if slow { hold_sig(rng, frames, lo, hi, gap, gap * 3) } else { sig(rng, frames, lo, hi) }));
        if oct_sig {
            sigs.push(("oct", sig(rng, frames, -0.4, 0.4)));
        }
        let node = if case % 2 == 0 { NodeId::Quant(inst) } else { NodeId::CQnt(inst) };
        let (omin, omax) = (rng.below(5) as i64, rng.below(5) as i64);
        let mut atoms = vec![("keys", keys)];
        if case % 2 == 1 {
            atoms.push(("omin", omin));
            atoms.push(("omax", omax));
        }
        let s = Setup { node, sr, knobs: vec![("oct", octk)], atoms, sigs, outs: vec!["sig", "t"], edges: vec![], blocks: rand_blocks(rng), raw: vec![] };
        let mut b = Bench::new(&s)?;
        b.run(frames);
        let (o, t, x) = (b.out(0), b.out(1), b.inp(name));
        let oc = if oct_sig { Src::Sig(b.inp("oct")) } else { Src::Knob(octk) };
        ensure!(o.len() == frames, "count", "{} samples for {} frames", o.len(), frames);
        two_level(&t, "quantizer")?;
        let mut notes: Vec<i64> = vec![];
        for f in 0..frames {
            // semitones relative to A4
            let st = (o[f] as f64 - oc.at(f)) * 120.0;
            let r = st.round();
            ensure!((st - r).abs() < 2e-3, "note", "{} sample {}: {} is no note ({} semitones from A4)", node, f, o[f], st);
            let r = r as i64;
            // (the first key of the mask is a C)
            let key = (r + 9).rem_euclid(12);
            ensure!(mask >> key & 1 == 1, "selected", "{} sample {}: input {}, output {} is key {}, selected are {:#014b}", node, f, x[f], o[f], key, mask);
            if case % 2 == 0 {
                let want = x[f] as f64 * 120.0;
                let best = (-40..=40)
                    .map(|d| want.round() as i64 + d)
                    .filter(|k| mask >> (k + 9).rem_euclid(12) & 1 == 1)
                    .map(|k| (k as f64 - want).abs())
                    .fold(f64::MAX, f64::min);
                ensure!((r as f64 - want).abs() <= best + 1.51, "nearest", "sample {}: {} semitones from A4 became {}, the nearest selected note is {} away (keys {:#014b})", f, want, r, best, mask);
            } else {
                // notes from C up over all octaves, evenly
                let mut all: Vec<i64> = vec![];
                for oo in -omin..=omax {
                    for k in 0..12 {
                        if mask >> k & 1 == 1 {
                            all.push(oo * 12 + k - 9);
                        }
                    }
                }
                let p = (x[f].clamp(0.0, 0.9999) as f64) * all.len() as f64;
                let l = all.len() as i64;
                let a = ((p - 1e-4).floor() as i64).clamp(0, l - 1) as usize;
                let c = ((p + 1e-4).floor() as i64).clamp(0, l - 1) as usize;
                ensure!(r == all[a] || r == all[c], "evenly", "sample {}: input {} became note {}, expected {} ({} notes from {} to {})", f, x[f], r, all[a], l, all[0], all[all.len() - 1]);
            }
            notes.push(r);
        }
        // one trigger per change (and one for the first note)
        let mut changes = vec![0usize];
        for f in 1..frames {
            if notes[f] != notes[f - 1] {
                changes.push(f);
            }
        }
        let ps = pulses(&t);
        if slow {
            let at: Vec<usize> = ps.iter().map(|p| p.0).collect();
            ensure!(at == changes, "change-trigger", "{}: the note changes at {:?}, triggers are sent at {:?}", node, &changes[..changes.len().min(12)], &at[..at.len().min(12)]);
            let len = (sr * 0.002) as i64;
            for p in ps.iter() {
                ensure!((p.1 as i64 - len).abs() <= 2 || p.0 + p.1 >= frames, "trigger-length", "a trigger of {} samples at {} Hz", p.1, sr);
            }
        } else {
            for c in changes.iter() {
                ensure!(t[*c] == 1.0, "change-trigger", "{}: the note changes at sample {}, the trigger output is {}", node, c, t[*c]);
            }
        }
        obs.fingerprint = format!("{:016x}", rng.u64());
        obs.nontrivial = changes.len() > 1 || mask.count_ones() == 1;
        obs.count("quantised samples", frames as u64);
        obs.count("note changes", changes.len() as u64);
        obs.sample = Some(json!({"node": format!("{}", node), "keys": format!("{:012b}", mask)}));
        Ok(())
    });

    let n = rep.opts.n(200, 4000);
    rep.run("rndwk", n, |rng, _case, obs| {
        let sr = *rng.pick(&srs);
        let frames = rng.range(2000, 8000) as usize;
        let node = NodeId::RndWk(rng.below(4) as u8);
        let mut sigs = vec![("trig", gates(rng, frames, 1, 60))];
        let slew = if rng.chance(0.5) { 0.0 } else { rng.f(0.005, 0.2) };
        let walk = rng.below(3);
        let step = if walk == 0 { 0.0 } else { rng.f01() };
        let offs = if walk == 1 { 0.0 } else { rng.f(-1.0, 1.0) };
        let (min, max) = if rng.chance(0.1) { let x = rng.f01(); (x, x) } else { (rng.f01(), rng.f01()) };
        let mut knobs = vec![("slew", slew), ("step", step), ("offs", offs), ("min", min), ("max", max)];
        let moving = rng.chance(0.3);
        if moving {
            sigs.push(("min", hold_sig(rng, frames, 0.0, 1.0, 50, 900)));
            sigs.push(("max", hold_sig(rng, frames, 0.0, 1.0, 50, 900)));
            knobs.retain(|k| k.0 != "min" && k.0 != "max");
        }
        let s = Setup { node, sr, knobs, atoms: vec![], sigs, outs: vec!["sig"], edges: vec![], blocks: rand_blocks(rng), raw: vec![] };
        let mut b = Bench::new(&s)?;
        b.run(frames);
        let (o, t) = (b.out(0), b.inp("trig"));
        let (mi, ma) = if moving { (Src::Sig(b.inp("min")), Src::Sig(b.inp("max"))) } else { (Src::Knob(min), Src::Knob(max)) };
        ensure!(o.len() == frames, "count", "{} samples for {} frames", o.len(), frames);
        let ms = slew as f64 * slew as f64 * 5000.0;
        let rate = if ms < 0.11 { f64::MAX } else { 1000.0 / (sr as f64 * ms) };
        let mut tr = Trig::default();
        let (mut lo, mut hi) = (0.0f64, 0.0f64);
        let mut trigs = 0u64;
        let mut last = 0.0f64;
        let mut seg = (0.0f64, 0.0f64);
        for f in 0..frames {
            let x = o[f] as f64;
            let fired = tr.next(t[f]);
            if fired {
                trigs += 1;
                let (a, c) = (mi.at(f).min(ma.at(f)), mi.at(f).max(ma.at(f)));
                seg = (a, c);
                // the target is inside of the bounds, the way to it starts here
                lo = a.min(last);
                hi = c.max(last);
                if rate == f64::MAX {
                    lo = a;
                    hi = c;
                    // reflected steps are never longer
                    let inside = last >= a && last <= c;
                    if inside && (step as f64 + offs.abs() as f64) < (c - a) {
                        ensure!((x - last).abs() <= step as f64 + offs.abs() as f64 + 1e-4, "step", "sample {}: from {} to {}, step {}, offs {}, range {:?}", f, last, x, step, offs, seg);
                    }
                    if step == 0.0 && inside {
                        let want = last + offs as f64;
                        if want >= a && want <= c {
                            ensure!((x - want).abs() < 1e-4, "step", "sample {}: from {} by {} (no random step), became {}", f, last, offs, x);
                        }
                    }
                }
            } else if rate == f64::MAX && trigs > 0 {
                ensure!((x - last).abs() < 1e-6, "untriggered", "sample {}: changed from {} to {} without a trigger", f, last, x);
            }
            ensure!(x >= lo - 2e-4 && x <= hi + 2e-4, "bounds", "sample {}: {} is outside of {}..{} (bounds {:?}, {} triggers so far, slew {} ms)", f, x, lo, hi, seg, trigs, ms);
            if rate != f64::MAX {
                ensure!((x - last).abs() <= rate * 1.01 + 1e-6, "slew", "sample {}: from {} to {} in one sample, slew is {} ms", f, last, x, ms);
            }
            last = x;
        }
        obs.fingerprint = format!("{:016x}", rng.u64());
        obs.nontrivial = trigs > 3;
        obs.count("random walk triggers", trigs);
        obs.count("random walk samples", frames as u64);
        Ok(())
    });

    let n = rep.opts.n(240, 5000);
    rep.run("envelopes", n, |rng, case, obs| {
        let sr = *rng.pick(&srs);
        let adsr = case % 2 == 1;
        let node = if adsr { NodeId::Adsr(rng.below(3) as u8) } else { NodeId::Ad(rng.below(3) as u8) };
        let mult = if rng.chance(0.3) { rng.range(1, 2) } else { 0 };
        let mf = [1.0f64, 10.0, 100.0][mult as usize];
        let lim = (60.0 / mf) as f32; // ms before the multiplier
        let ms_knob = |rng: &mut Rng| -> (f32, f64) {
            let ms = if rng.chance(0.15) { 0.0 } else { rng.f(0.05, lim) };
            let k = (ms / 1000.0).sqrt();
            (k, (k as f64) * (k as f64) * 1000.0 * mf)
        };
        let (ka, a) = ms_knob(rng);
        let (kd, d) = ms_knob(rng);
        let (kr, r) = ms_knob(rng);
        let shp = |rng: &mut Rng| if rng.chance(0.4) { 0.5 } else { rng.f01() };
        let (sa, sd, sr_) = (shp(rng), shp(rng), shp(rng));
        let sus = if rng.chance(0.2) { 0.0 } else { rng.f01() };
        let inp = if rng.chance(0.5) { 1.0 } else { rng.f(0.1, 1.0) };
        let spm = sr as f64 / 1000.0;
        let tol = |ms: f64| (ms * spm * 0.02) as usize + 5;
        let (na, nd, nr) = (a * spm, d * spm, r * spm);
        let rounds = rng.range(1, 4) as usize;
        let busy = rng.chance(0.25);
        let tin = if adsr { "gate" } else { "trig" };
        // the trigger or gate signal
        let mut g: Vec<f32> = vec![0.0; rng.range(3, 300) as usize];
        let mut starts = vec![];
        let mut offs = vec![];
        let trl = (sr * 0.002) as usize + 4;
        if busy {
            g = gates(rng, 6000, 5, 600);
        } else {
            for _ in 0..rounds {
                starts.push(g.len());
                let body = (na + nd) as usize + tol(a) + tol(d) + 8;
                let hold = if adsr { body + rng.range(5, 400) as usize } else { rng.range(1, body as i64) as usize };
                g.extend(std::iter::repeat(rng.f(0.6, 1.0)).take(hold));
                offs.push(g.len());
                let rest = if adsr { nr as usize + tol(r) } else { body };
                g.extend(std::iter::repeat(0.0).take(rest + trl + rng.range(5, 400) as usize));
            }
        }
        let frames = g.len();
        let mut knobs = vec![("atk", ka), ("dcy", kd), ("ashp", sa), ("dshp", sd), ("inp", inp)];
        if adsr {
            knobs.push(("rel", kr));
            knobs.push(("rshp", sr_));
            knobs.push(("sus", sus));
        }
        let s = Setup { node, sr, knobs, atoms: vec![("mult", mult)], sigs: vec![(tin, g.clone())], outs: vec!["sig", "eoet"], edges: vec![], blocks: rand_blocks(rng), raw: vec![] };
        let mut b = Bench::new(&s)?;
        b.run(frames);
        let (o, t) = (b.out(0), b.out(1));
        ensure!(o.len() == frames, "count", "{} samples for {} frames", o.len(), frames);
        two_level(&t, "envelope")?;
        for f in 0..frames {
            ensure!(o[f] >= -1e-6 && o[f] <= inp + 1e-5, "envelope-range", "{} sample {}: {} is outside of 0..{}", node, f, o[f], inp);
        }
        let desc = || format!("{} at {} Hz, attack {:.3} ms (shape {}), decay {:.3} ms (shape {}), sustain {}, release {:.3} ms, inp {}", node, sr, a, sa, d, sd, sus, r, inp);
        if !busy {
            let ps = pulses(&t);
            ensure!(ps.len() == starts.len(), "envelope-end", "{}: {} rounds, {} end triggers ({:?})", desc(), starts.len(), ps.len(), ps);
            for (k, st) in starts.iter().enumerate() {
                // the peak
                let pk = st + na as usize;
                let (lo, hi) = (pk.saturating_sub(tol(a)).max(*st), (pk + tol(a)).min(frames));
                let m = o[lo..hi].iter().copied().fold(0.0f32, f32::max);
                ensure!(m >= inp * 0.9 || na < 4.0 || nd < 20.0, "envelope-peak", "{}: triggered at {}, the highest value around {} is {}", desc(), st, pk, m);
                for f in *st..lo {
                    ensure!(o[f + 1] >= o[f] - 1e-5, "envelope-attack", "{}: falls at sample {} from {} to {} during the attack from {} on", desc(), f, o[f], o[f + 1], st);
                }
                if sa == 0.5 && na > 40.0 {
                    for q in [0.25, 0.5, 0.75] {
                        let f = st + (na * q) as usize;
                        ensure!((o[f] as f64 - q * inp as f64).abs() < 0.03 + 3.0 / na, "envelope-attack", "{}: {} at {} of the linear attack", desc(), o[f], q);
                    }
                }
                let dend = pk + nd as usize;
                let floor = if adsr { sus * inp } else { 0.0 };
                for f in hi..(dend.saturating_sub(tol(a) + tol(d))).max(hi) {
                    ensure!(o[f + 1] <= o[f] + 1e-5, "envelope-decay", "{}: rises at sample {} from {} to {} during the decay", desc(), f, o[f], o[f + 1]);
                }
                if sd == 0.5 && nd > 60.0 && na > 4.0 {
                    let f = pk + (nd * 0.5) as usize;
                    let want = (inp + floor) as f64 * 0.5;
                    ensure!((o[f] as f64 - want).abs() < 0.03 + 6.0 / nd + 0.02 * na / nd, "envelope-decay", "{}: {} in the middle of the linear decay, expected {}", desc(), o[f], want);
                }
                let settled = dend + tol(a) + tol(d);
                let end;
                if adsr {
                    for f in settled..offs[k] {
                        ensure!((o[f] - floor).abs() < 1e-4, "envelope-sustain", "{}: {} at sample {}, {} samples after the decay", desc(), o[f], f, f - dend);
                    }
                    end = offs[k] + nr as usize;
                    if sr_ == 0.5 && nr > 60.0 {
                        let f = offs[k] + (nr * 0.5) as usize;
                        ensure!((o[f] as f64 - floor as f64 * 0.5).abs() < 0.03 + 4.0 / nr, "envelope-release", "{}: {} in the middle of the linear release, from {}", desc(), o[f], floor);
                    }
                } else {
                    end = dend;
                }
                let et = if adsr { tol(r) } else { tol(a) + tol(d) };
                let p = ps[k].0;
                ensure!(p + et >= end && p <= end + et, "envelope-end", "{}: round {} started at {} should end at {}, the end trigger comes at {}", desc(), k, st, end, p);
                let next = starts.get(k + 1).copied().unwrap_or(frames);
                for f in (end + et)..next {
                    ensure!(o[f].abs() < 1e-5, "envelope-end", "{}: {} at sample {}, the envelope ended at {}", desc(), o[f], f, end);
                }
            }
            obs.count("envelope rounds", starts.len() as u64);
        }
        obs.fingerprint = format!("{:016x}", rng.u64());
        obs.nontrivial = o.iter().any(|x| *x > 0.1 * inp);
        obs.count("envelope samples", frames as u64);
        obs.sample = Some(json!(desc()));
        Ok(())
    });

    let n = rep.opts.n(160, 4000);
    rep.run("lfo-noise", n, |rng, case, obs| {
        let sr = *rng.pick(&srs);
        if case % 2 == 0 {
            let node = NodeId::TsLFO(rng.below(3) as u8);
            let frames = rng.range(2000, 8000) as usize;
            let want_ms = rng.f(0.3, 120.0);
            let k = (((want_ms - 0.1) / (300000.0 - 0.1)) as f64).powf(1.0 / 6.0) as f32;
            let kk = (k as f64).powi(6);
            let ms = 0.1 * (1.0 - kk) + 300000.0 * kk;
            let rev = match rng.below(4) {
                0 => 0.5,
                1 => 0.0,
                2 => 1.0,
                _ => rng.f01(),
            };
            let per = ms * sr as f64 / 1000.0;
            let mut sigs = vec![];
            let synced = rng.chance(0.6);
            let mut resets = vec![];
            if synced {
                let mut v = vec![];
                while v.len() < frames {
                    let l = (rng.f(0.3, 3.0) as f64 * per) as usize + 3;
                    v.extend(std::iter::repeat(0.0).take(l));
                    resets.push(v.len());
                    v.extend(std::iter::repeat(0.9).take(rng.range(1, 30) as usize));
                }
                resets.retain(|x| *x < frames);
                v.truncate(frames);
                sigs.push(("trig", v));
            }
            let wild = !synced && rng.chance(0.3);
            if wild {
                sigs.push(("time", sig(rng, frames, -1.0, 1.0)));
                sigs.push(("rev", sig(rng, frames, -0.5, 1.5)));
            }
            let s = Setup { node, sr, knobs: vec![("time", k), ("rev", rev)], atoms: vec![], sigs, outs: vec!["sig"], edges: vec![], blocks: rand_blocks(rng), raw: vec![] };
            let mut b = Bench::new(&s)?;
            b.run(frames);
            let o = b.out(0);
            ensure!(o.len() == frames, "count", "{} samples for {} frames", o.len(), frames);
            for f in 0..frames {
                ensure!(o[f] >= -1e-4 && o[f] <= 1.0001, "lfo-range", "sample {}: {} ({} ms, rev {})", f, o[f], ms, rev);
            }
            if !wild {
                let rv = (rev as f64).max(0.0001).min(0.999);
                let mut start = 0;
                let mut ri = 0;
                for f in 0..frames {
                    if ri < resets.len() && resets[ri] == f {
                        start = f;
                        ri += 1;
                    }
                    let ph = ((f - start) as f64 / per).rem_euclid(1.0);
                    let slack = 2e-3 * (1.0 + (f - start) as f64 / per / 20.0) / per.max(1.0).min(10.0);
                    // (not at the corners)
                    let near = 1.5 / per + slack;
                    if ph < near || ph > 1.0 - near || (ph - rv).abs() < near {
                        continue;
                    }
                    let want = if ph < rv { ph / rv } else { (1.0 - ph) / (1.0 - rv) };
                    let steep = (1.0 / rv).max(1.0 / (1.0 - rv)).min(if ph < rv { 1.0 / rv } else { 1.0 / (1.0 - rv) });
                    ensure!((o[f] as f64 - want).abs() <= 1e-3 + steep * slack, "lfo-wave", "sample {} ({} after the last reset): {}, expected {} (period {:.3} samples, reverse point {})", f, f - start, o[f], want, per, rev);
                }
            }
            obs.nontrivial = true;
            obs.count("lfo samples", frames as u64);
            obs.sample = Some(json!({"lfo ms": ms, "rev": rev}));
        } else {
            let node = NodeId::Noise(rng.below(6) as u8);
            let frames = rng.range(2000, 5000) as usize;
            let mode = rng.below(2) as i64;
            let (ka, ko) = (rng.f(-1.0, 1.0), rng.f(-1.0, 1.0));
            let mut sigs = vec![];
            let (sa, so) = (rng.chance(0.4), rng.chance(0.4));
            if sa {
                sigs.push(("atv", sig(rng, frames, -1.0, 1.0)));
            }
            if so {
                sigs.push(("offs", sig(rng, frames, -1.0, 1.0)));
            }
            let s = Setup { node, sr, knobs: vec![("atv", ka), ("offs", ko)], atoms: vec![("mode", mode)], sigs, outs: vec!["sig"], edges: vec![], blocks: rand_blocks(rng), raw: vec![] };
            let mut b = Bench::new(&s)?;
            b.run(frames);
            let o = b.out(0);
            let a = if sa { Src::Sig(b.inp("atv")) } else { Src::Knob(ka) };
            let of = if so { Src::Sig(b.inp("offs")) } else { Src::Knob(ko) };
            ensure!(o.len() == frames, "count", "{} samples for {} frames", o.len(), frames);
            let (mut mn, mut mx, mut sum, mut cnt) = (f64::MAX, f64::MIN, 0.0, 0u64);
            let mut same = 0;
            for f in 0..frames {
                if a.at(f).abs() < 0.05 {
                    ensure!((o[f] as f64 - of.at(f)).abs() <= a.at(f).abs() + 1e-5, "noise-range", "sample {}: {} with atv {} and offs {}", f, o[f], a.at(f), of.at(f));
                    continue;
                }
                let u = (o[f] as f64 - of.at(f)) / a.at(f);
                ensure!(u >= if mode == 0 { -1.0 } else { 0.0 } - 1e-4 && u <= 1.0001, "noise-range", "sample {}: {} with atv {} and offs {} ({})", f, o[f], a.at(f), of.at(f), if mode == 0 { "bipolar" } else { "unipolar" });
                mn = mn.min(u);
                mx = mx.max(u);
                sum += u;
                cnt += 1;
                if f > 0 && o[f] == o[f - 1] {
                    same += 1;
                }
            }
            if cnt > 1000 {
                // uniformly distributed: the whole range is used
                let (lo, hi, mean) = if mode == 0 { (-0.9, 0.9, 0.0) } else { (0.05, 0.95, 0.5) };
                ensure!(mn < lo && mx > hi && (sum / cnt as f64 - mean).abs() < 0.12 && same < 50, "noise-spread", "{} samples in {}..{}, mean {}, {} equal in a row ({})", cnt, mn, mx, sum / cnt as f64, same, if mode == 0 { "bipolar" } else { "unipolar" });
            }
            obs.nontrivial = cnt > 100;
            obs.count("noise samples", frames as u64);
            obs.sample = Some(json!({"noise mode": mode}));
        }
        obs.fingerprint = format!("{:016x}", rng.u64());
        Ok(())
    });
}
