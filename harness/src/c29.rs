//! C29: delays keep time.
use crate::bench::*;
use crate::core::*;
use crate::ensure;
use crate::eng::*;
use hexodsp::*;
use serde_json::json;

/// The value `off` samples before the newest one of the history, cubic (Hermite) interpolation.
fn tap(y: &dyn Fn(i64) -> f64, n: i64, off: f64) -> f64 {
    let o = off.floor();
    let fr = 1.0 - (off - o);
    let i = n - 1 - o as i64 - 1;
    let (xm1, x0, x1, x2) = (y(i - 1), y(i), y(i + 1), y(i + 2));
    let c = (x1 - xm1) * 0.5;
    let v = x0 - x1;
    let w = c + v;
    let a = w + v + (x2 - x0) * 0.5;
    (((a * fr) - (w + a)) * fr + c) * fr + x0
}

fn exp_time(x: f64, lo: f64, hi: f64) -> f64 {
    lo * (1.0 - x * x) + hi * x * x
}

/// One input: a signal or a knob.
struct In {
    name: &'static str,
    knob: f32,
    sig: Option<Vec<f32>>,
}
fn mk(rng: &mut Rng, name: &'static str, frames: usize, lo: f32, hi: f32, p: f32) -> In {
    In { name, knob: rng.f(lo, hi), sig: if rng.chance(p) { Some(sig(rng, frames, lo, hi)) } else { None } }
}
fn src(b: &Bench, i: &In) -> Src {
    if i.sig.is_some() {
        Src::Sig(b.inp(i.name))
    } else {
        Src::Knob(i.knob)
    }
}

/// A time signal: constant pieces and glides.
fn time_sig(rng: &mut Rng, frames: usize, lo: f32, hi: f32) -> Vec<f32> {
    let mut v = vec![];
    let mut x = rng.f(lo, hi);
    while v.len() < frames {
        let l = rng.range(1, 600) as usize;
        let t = rng.f(lo, hi);
        match rng.below(3) {
            0 => {
                x = t;
                for _ in 0..l {
                    v.push(x);
                }
            }
            1 => {
                for i in 0..l {
                    v.push(x + (t - x) * i as f32 / l as f32);
                }
                x = t;
            }
            _ => {
                for _ in 0..l {
                    v.push(rng.f(lo, hi));
                }
            }
        }
    }
    v.truncate(frames);
    v
}

pub fn run(rep: &mut Report) {
    rep.rule = "one evaluation = one delay, comb or all-pass node with knobs or signals at all of its inputs, a sample rate from 22 to 192 kHz and random block sizes; every output sample is compared with a reference line computed from what was really fed".into();
    rep.assumptions = vec![
        "the line is read before the current sample enters it: a delay time of t gives a delay of t plus one sample".into(),
        "times are between the documented minimum and maximum".into(),
    ];
    let srs = [44100.0f32, 48000.0, 96000.0, 22050.0, 88200.0, 192000.0];
    let thorough = rep.opts.thorough;
    let n = rep.opts.n(200, 4000);
    rep.run("delay", n, |rng, case, obs| {
        let sr = *rng.pick(&srs);
        let sync = case % 2 == 1;
        let node = NodeId::Delay(rng.below(4) as u8);
        let long = !sync && case % 16 == 0;
        let mut tk = *rng.pick(&[0.0f32, 0.02, 0.05, 0.1]);
        tk += rng.f(0.0, 0.1);
        let mut frames = rng.range(1500, 12000) as usize;
        if long {
            tk = rng.f(0.3, if case % 32 == 0 || thorough { 1.0 } else { 0.6 });
            if rng.chance(0.3) {
                tk = 1.0;
            }
            frames = (exp_time(tk as f64, 0.5, 5000.0) / 1000.0 * sr as f64) as usize + 3000;
        }
        let mut time = In { name: "time", knob: tk, sig: None };
        if !sync && !long && rng.chance(0.5) {
            time.sig = Some(time_sig(rng, frames, 0.0, tk));
        }
        let inp = mk(rng, "inp", frames, -1.0, 1.0, 1.0);
        let fb = if rng.chance(0.4) { In { name: "fb", knob: 0.0, sig: None } } else { mk(rng, "fb", frames, -0.7, 0.7, 0.5) };
        let mix = if rng.chance(0.3) { In { name: "mix", knob: 1.0, sig: None } } else { mk(rng, "mix", frames, 0.0, 1.0, 0.5) };
        let mut trig = In { name: "trig", knob: 0.0, sig: None };
        if sync {
            let (a, b) = if rng.chance(0.3) { (1, 6) } else { (20, *rng.pick(&[60usize, 300, 2000])) };
            trig.sig = Some(gates(rng, frames, a, b));
        }
        let ins = [&inp, &time, &fb, &mix, &trig];
        let s = Setup {
            node,
            sr,
            knobs: ins.iter().map(|i| (i.name, i.knob)).collect(),
            atoms: vec![("mode", sync as i64)],
            sigs: ins.iter().filter_map(|i| i.sig.clone().map(|s| (i.name, s))).collect(),
            outs: vec!["sig"],
            edges: vec![],
            blocks: rand_blocks(rng),
            raw: vec![],
        };
        let mut b = Bench::new(&s)?;
        b.run(frames);
        let (x, t, f, m, g) = (src(&b, &inp), src(&b, &time), src(&b, &fb), src(&b, &mix), src(&b, &trig));
        let out = b.out(0);
        let tp = node.inp_param("time").unwrap();
        let mut y: Vec<f64> = Vec::with_capacity(frames);
        let mut tr = Trig { on: true };
        let (mut period, mut count) = (0i64, 0i64);
        let (mut big, mut echo) = (1.0f64, 0u64);
        let mut edges = 0u64;
        for i in 0..frames {
            let n = i as i64;
            let hist = |k: i64| if k < 0 || k >= y.len() as i64 { 0.0 } else { y[k as usize] };
            let (w, what);
            if sync {
                if tr.next(g.at32(i)) {
                    period = count;
                    count = 0;
                    edges += 1;
                }
                count += 1;
                w = hist(n - 1 - period);
                what = period as f64;
            } else {
                let raw = t.at32(i);
                let ms = tp.denorm(raw);
                let want = exp_time(raw as f64, 0.5, 5000.0);
                ensure!((ms as f64 - want).abs() <= 1e-5 * want, "time", "{} at time is {} ms, {} ms are documented", raw, ms, want);
                let off = (ms * sr) / 1000.0;
                w = tap(&hist, n, off as f64);
                what = off as f64;
            }
            if w != 0.0 {
                echo += 1;
            }
            let v = x.at(i) + w * f.at(i);
            big = big.max(v.abs());
            let mx = m.at(i).max(0.0).min(1.0);
            let exp = x.at(i) * (1.0 - mx) + w * mx;
            let tol = 2e-5 * big * 4.0;
            if !((out[i] as f64 - exp).abs() <= tol) {
                return fail(
                    if sync { "sync" } else { "delay" },
                    format!("{} at {} Hz: sample {} is {}, expected {} (a delay of {} samples, feedback {}, mix {})", node, sr, i, out[i], exp, what, f.at(i), mx),
                );
            }
            y.push(v);
        }
        obs.nontrivial = echo > 100 && (!sync || edges > 2);
        obs.fingerprint = format!("{:016x}", rng.u64());
        obs.count(if sync { "samples of clocked delays" } else { "samples of timed delays" }, frames as u64);
        obs.count("clock edges", edges);
        obs.max("longest delay (samples)", (if sync { period as f64 } else { exp_time(t.at(frames - 1), 0.5, 5000.0) * sr as f64 / 1000.0 }) as u64);
        obs.sample = Some(json!({"node": node.to_string(), "rate": sr, "sync": sync, "time": tk}));
        Ok(())
    });

    let n = rep.opts.n(200, 4000);
    rep.run("comb-allpass", n, |rng, case, obs| {
        let sr = *rng.pick(&srs);
        let comb = case % 3 > 0;
        let ff = case % 3 == 2;
        let node = if comb { NodeId::Comb(rng.below(4) as u8) } else { NodeId::AllP(rng.below(4) as u8) };
        let long = case % 12 < 3;
        let mut tk = rng.f(0.0, 0.25);
        let mut frames = rng.range(1500, 9000) as usize;
        if long {
            tk = if rng.chance(0.4) { 1.0 } else { rng.f(0.25, 1.0) };
            frames = (exp_time(tk as f64, 0.1, 1000.0) / 1000.0 * sr as f64) as usize + 4000;
        }
        let mut time = In { name: "time", knob: tk, sig: None };
        if !long && rng.chance(0.5) {
            time.sig = Some(time_sig(rng, frames, 0.0, tk));
        }
        let inp = mk(rng, "inp", frames, -1.0, 1.0, 1.0);
        let gn = mk(rng, "g", frames, -0.75, 0.75, 0.5);
        let ins = [&inp, &time, &gn];
        let s = Setup {
            node,
            sr,
            knobs: ins.iter().map(|i| (i.name, i.knob)).collect(),
            atoms: if comb { vec![("mode", ff as i64)] } else { vec![] },
            sigs: ins.iter().filter_map(|i| i.sig.clone().map(|s| (i.name, s))).collect(),
            outs: vec!["sig"],
            edges: vec![],
            blocks: rand_blocks(rng),
            raw: vec![],
        };
        let mut b = Bench::new(&s)?;
        b.run(frames);
        let (x, t, g) = (src(&b, &inp), src(&b, &time), src(&b, &gn));
        let out = b.out(0);
        let tp = node.inp_param("time").unwrap();
        let mut y: Vec<f64> = Vec::with_capacity(frames);
        let (mut big, mut echo) = (1.0f64, 0u64);
        for i in 0..frames {
            let hist = |k: i64| if k < 0 || k >= y.len() as i64 { 0.0 } else { y[k as usize] };
            let raw = t.at32(i);
            let ms = tp.denorm(raw);
            let want = exp_time(raw as f64, 0.1, 1000.0);
            ensure!((ms as f64 - want).abs() <= 1e-5 * want, "time", "{} at time is {} ms, {} ms are documented", raw, ms, want);
            let off = if comb { ((ms * sr) / 1000.0) as f64 } else { ms as f64 * sr as f64 / 1000.0 };
            let w = tap(&hist, i as i64, off);
            if w != 0.0 {
                echo += 1;
            }
            let (xi, gi) = (x.at(i), g.at(i));
            let (v, exp) = if !comb {
                let v = xi - gi * w;
                (v, v * gi + w)
            } else if ff {
                (xi, xi + w * gi)
            } else {
                (xi + w * gi, xi + w * gi)
            };
            big = big.max(v.abs());
            let tol = 1e-4 * big;
            if !((out[i] as f64 - exp).abs() <= tol) {
                return fail(
                    if comb { "comb" } else { "allpass" },
                    format!("{} ({}) at {} Hz: sample {} is {}, expected {} (a delay of {} samples, g {})", node, if ff { "feed forward" } else { "feedback" }, sr, i, out[i], exp, off, gi),
                );
            }
            y.push(v);
        }
        obs.nontrivial = echo > 100;
        obs.fingerprint = format!("{:016x}", rng.u64());
        obs.count(if comb { "samples of combs" } else { "samples of all-passes" }, frames as u64);
        obs.max("longest delay (samples)", (exp_time(t.at(frames - 1), 0.1, 1000.0) * sr as f64 / 1000.0) as u64);
        obs.sample = Some(json!({"node": node.to_string(), "rate": sr, "feed forward": ff, "time": tk}));
        Ok(())
    });

    // clocks slower than any buffer
    let n = rep.opts.n(1, 6);
    rep.run("slow-clock", n, |rng, _case, obs| {
        let sr = 192000.0f32;
        let frames = 4_200_000 + rng.range(0, 300_000) as usize;
        let node = NodeId::Delay(0);
        let mut e = Eng::new(6, 10, sr);
        let (src, _) = {
            let mut i = 0usize;
            let first = rng.range(100, 50_000) as usize;
            let second = first + 3_900_000 + rng.range(0, 200_000) as usize;
            probe_fn(false, move |_ins, o| {
                for x in o.iter_mut() {
                    *x = if (i >= first && i < first + 100) || (i >= second && i < second + 100) { 1.0 } else { 0.0 };
                    i += 1;
                }
            })
        };
        e.m.set_dynamic_node1x1(0, src);
        let worst = std::sync::Arc::new(std::sync::atomic::AtomicU32::new(0));
        let w2 = worst.clone();
        let (rc, _) = probe_fn(false, move |ins, o| {
            for x in ins[0].iter() {
                let b = if x.is_finite() { x.abs() } else { f32::MAX };
                if b > f32::from_bits(w2.load(std::sync::atomic::Ordering::Relaxed)) {
                    w2.store(b.to_bits(), std::sync::atomic::Ordering::Relaxed);
                }
            }
            o.fill(0.0);
        });
        e.m.set_dynamic_node1x1(1, rc);
        e.seti(node, "mode", 1);
        e.set(node, "inp", 0.5);
        e.set(node, "mix", 1.0);
        e.set(node, "fb", 0.0);
        place_edges(&mut e.m, &[node], &[edge(NodeId::Rust1x1(0), "sig", node, "trig"), edge(node, "sig", NodeId::Rust1x1(1), "inp")]);
        ensure!(e.m.sync().is_ok(), "sync", "refused");
        let mut done = 0;
        while done < frames {
            e.block(MAXB);
            done += MAXB;
        }
        let w = f32::from_bits(worst.load(std::sync::atomic::Ordering::Relaxed));
        ensure!(w <= 0.5001, "slow-clock", "a clocked delay of a constant 0.5 gives up to {}", w);
        obs.nontrivial = w > 0.4;
        obs.fingerprint = format!("{:016x}", rng.u64());
        obs.count("samples of very slow clocks", frames as u64);
        obs.sample = Some(json!({"frames": frames}));
        Ok(())
    });
}
