//! C08: front end and audio thread race freely, in the ThreadSanitizer build.
use crate::churn::*;
use crate::core::*;
use crate::eng::*;
use crate::ensure;
use hexodsp::*;
use serde_json::json;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Arc;
use std::time::Duration;

fn jitter(rng: &mut Rng) {
    match rng.below(12) {
        0 => std::thread::sleep(Duration::from_micros(rng.range(1, 300) as u64)),
        1 | 2 => std::thread::yield_now(),
        3 => {
            for _ in 0..rng.below(2000) {
                std::hint::spin_loop();
            }
        }
        _ => (),
    }
}

pub fn run(rep: &mut Report) {
    rep.rule = "one evaluation = one session: a front end thread using the whole API while an audio thread renders, with random delays on both sides, in the ThreadSanitizer build".into();
    rep.assumptions.push("external crates are instrumented, too; JIT compiled code is not".into());
    let world = World::new(&["pverb"]);
    let n = rep.opts.n(300, 8000);
    let t = rep.opts.threads.min(6);
    rep.run_t("churn", n, t, |rng, case, obs| {
        let Eng { mut m, mut ex, mut ctx } = {
            let (conf, ex) = new_node_engine();
            Eng { m: Matrix::new(conf, 10, 10), ex, ctx: Ctx::new() }
        };
        ex.set_sample_rate(44100.0);
        m.set_observer(Arc::new(CountObs::default()));
        let stop = Arc::new(AtomicBool::new(false));
        let blocks = Arc::new(AtomicU64::new(0));
        let (stop2, blocks2) = (stop.clone(), blocks.clone());
        let mut arng = Rng::new(rng.u64());
        let th = std::thread::spawn(move || {
            while !stop2.load(Ordering::Relaxed) {
                ctx.n = arng.range(1, MAXB as i64) as usize;
                ex.process_graph_updates();
                let evs = rand_midi(&mut arng, ctx.n, 4);
                let mut i = 0;
                ex.feed_midi_events_from(|| {
                    let r = evs.get(i).copied();
                    i += 1;
                    r
                });
                ex.process(&mut ctx);
                blocks2.fetch_add(1, Ordering::Relaxed);
                jitter(&mut arng);
            }
            ex
        });
        let mut f = Front::new(&world, 10, 10, 8, rng);
        f.heavy = rng.chance(0.2);
        let mut r = f.install(&mut m);
        let b0 = blocks.load(Ordering::Relaxed);
        if r.is_ok() {
            for _ in 0..rng.range(30, 80) {
                r = f.op(&mut m, rng).map(|_| ());
                if r.is_err() {
                    break;
                }
                jitter(rng);
            }
        }
        let b1 = blocks.load(Ordering::Relaxed);
        let early = rng.chance(0.4);
        if early {
            // the front end goes first
            drop(m);
            std::thread::sleep(Duration::from_millis(1));
            stop.store(true, Ordering::Relaxed);
            let _ = th.join();
        } else {
            stop.store(true, Ordering::Relaxed);
            match th.join() {
                Ok(ex) => drop(ex),
                Err(_) => return fail("audio-panic", "the audio thread panicked".into()),
            }
            drop(m);
        }
        r?;
        for (k, v) in f.ops.iter() {
            obs.count(&format!("op_{}", k), *v);
        }
        obs.count("blocks_during_ops", b1 - b0);
        obs.nontrivial = b1 > b0;
        obs.fingerprint = format!("{} {}", case, b1 - b0);
        obs.sample = Some(json!({"case": case, "blocks_during_operations": b1 - b0, "ops": f.ops}));
        Ok(())
    });

    // Values that cross the threads are whole: the audio side only ever publishes a few
    // distinct levels.
    let n = rep.opts.n(6, 100);
    rep.run_t("whole-values", n, t, |rng, case, obs| {
        let (conf, mut ex) = new_node_engine();
        ex.no_logging();
        ex.set_sample_rate(44100.0);
        let mut m = Matrix::new(conf, 6, 6);
        let r1 = NodeId::Rust1x1(0);
        let sc = NodeId::Scope(0);
        let o = NodeId::Out(0);
        place_edges(&mut m, &[], &[edge(r1, "sig", sc, "in1"), edge(r1, "sig", o, "ch1")]);
        m.sync().map_err(|e| Fail { key: "sync".into(), msg: format!("{:?}", e) })?;
        let mut k = 0u32;
        let levels = [0.25f32, -0.75, 1.0e-3, -1.0];
        let (dn, _rec) = probe_fn(false, move |_, out| {
            k = k.wrapping_add(1);
            let v = levels[(k % 4) as usize];
            for x in out.iter_mut() {
                *x = v;
            }
        });
        m.set_dynamic_node1x1(0, dn);
        m.monitor_cell(m.get_copy(0, 0).unwrap());
        let h = m.get_scope_handle(0).expect("scope");
        let stop = Arc::new(AtomicBool::new(false));
        let stop2 = stop.clone();
        let mut arng = Rng::new(rng.u64());
        let th = std::thread::spawn(move || {
            let mut ctx = Ctx::new();
            while !stop2.load(Ordering::Relaxed) {
                ctx.n = arng.range(1, MAXB as i64) as usize;
                ex.process_graph_updates();
                ex.process(&mut ctx);
                jitter(&mut arng);
            }
        });
        let ok = |v: f32| v == 0.0 || levels.contains(&v);
        let mut bad = None;
        let mut seen = 0u64;
        for _ in 0..400 {
            m.update_filters();
            if let Some(v) = m.out_fb_for(&r1, 0) {
                seen += 1;
                if !ok(v) {
                    bad = Some(format!("feedback value {}", v));
                }
            }
            for j in 0..h.len() {
                let (a, b) = h.read(0, j);
                seen += 1;
                if !ok(a) || !ok(b) {
                    bad = Some(format!("scope value {} {}", a, b));
                }
            }
            let s = m.get_minmax_monitor_samples(5);
            for j in 0..s.len() {
                let (a, b) = *s.at(j);
                seen += 1;
                if !ok(a) || !ok(b) {
                    bad = Some(format!("monitor value {} {}", a, b));
                }
            }
            jitter(rng);
        }
        stop.store(true, Ordering::Relaxed);
        let p = th.join().is_err();
        ensure!(!p, "audio-panic", "the audio thread panicked");
        if let Some(b) = bad {
            return fail("torn", format!("a value that was never written was read: {}", b));
        }
        obs.count("values_read", seen);
        obs.nontrivial = true;
        obs.fingerprint = format!("{}", case);
        Ok(())
    });
}
