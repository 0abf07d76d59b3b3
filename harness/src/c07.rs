//! C07: no memory errors, no leaks. Runs in the AddressSanitizer build.
use crate::alloc;
use crate::churn::*;
use crate::core::*;
use crate::eng::*;
use crate::ensure;
use crate::gen::*;
use hexodsp::*;
use serde_json::json;
use std::time::Duration;

fn session(rng: &mut Rng, world: &World, steps: i64, obs: &mut Obs) -> Res {
    let mut e = Eng::new(10, 10, *rng.pick(&[44100.0, 48000.0]));
    let mut f = Front::new(world, 10, 10, 12, rng);
    f.heavy = rng.chance(0.3);
    f.install(&mut e.m)?;
    for _ in 0..rng.range(steps / 2, steps) {
        for _ in 0..rng.range(1, 5) {
            f.op(&mut e.m, rng)?;
        }
        if rng.chance(0.9) {
            for _ in 0..rng.range(1, 4) {
                let n = rng.range(1, MAXB as i64) as usize;
                for fr in 0..n {
                    e.ctx.inp[0][fr] = rng.f(-1.0, 1.0);
                }
                let evs = rand_midi(rng, n, 10);
                e.block_midi(n, &evs);
                obs.count("blocks", 1);
            }
        }
        if rng.chance(0.02) {
            e.ex.set_sample_rate(*rng.pick(&[44100.0, 48000.0, 96000.0, 192000.0]));
        }
    }
    for (k, v) in f.ops.iter() {
        obs.count(&format!("op_{}", k), *v);
    }
    // take it apart in any order
    let Eng { m, mut ex, mut ctx } = e;
    match rng.below(3) {
        0 => {
            drop(ex);
            let mut m = m;
            for _ in 0..rng.below(20) {
                f.op(&mut m, rng)?;
            }
            drop(m);
        }
        1 => {
            drop(m);
            for _ in 0..rng.below(6) {
                ex.process_graph_updates();
                ctx.n = rng.range(1, 128) as usize;
                ex.process(&mut ctx);
            }
            drop(ex);
        }
        _ => {
            let h = std::thread::spawn(move || drop(ex));
            drop(m);
            let _ = h.join();
        }
    }
    Ok(())
}

pub fn run(rep: &mut Report) {
    rep.rule = "one evaluation = one life of an engine under API churn in the AddressSanitizer build (out of bounds, use after free, double free, leaks at exit), or a bounded memory check".into();
    let world = World::new(&["pverb"]);
    let n = rep.opts.n(200, 3000);
    let t = rep.opts.threads.min(12);
    rep.run_t("churn", n, t, |rng, case, obs| {
        session(rng, &world, 30, obs)?;
        obs.nontrivial = true;
        obs.fingerprint = format!("{}", case);
        obs.sample = Some(json!({"case": case, "seen": obs.counters}));
        Ok(())
    });
    let types = all_types();
    let n = rep.opts.n(3, 30) * types.len();
    rep.run_t("each-type", n, t, |rng, case, obs| {
        let t = types[case % types.len()];
        let t = if t.name() == "bosc" { NodeId::BOsc(1) } else { t };
        let mut e = Eng::new(8, 8, *rng.pick(&[44100.0, 96000.0, 192000.0]));
        let src = NodeId::BOsc(0);
        let mut edges = vec![];
        for p in params_of(t) {
            if rng.chance(0.4) && edges.len() < 14 {
                edges.push(E { from: src, out: 0, to: t, inp: p.inp() });
            }
        }
        if n_outs(t) > 0 && t != NodeId::Out(0) {
            edges.push(E { from: t, out: rng.below(n_outs(t)) as u8, to: NodeId::Out(0), inp: 0 });
        }
        place_edges(&mut e.m, &[src, t], &edges);
        ensure!(e.m.sync().is_ok(), "sync", "graph of {} refused", t);
        for _ in 0..25 {
            for p in params_of(t) {
                if rng.chance(0.3) {
                    e.m.set_param(p, SAtom::param(rand_param(rng, p)));
                }
                if rng.chance(0.1) {
                    let _ = e.m.set_param_modamt(p, Some(rng.f(-1.0, 1.0)));
                }
            }
            for p in atoms_of(t).iter() {
                if rng.chance(0.3) {
                    e.m.set_param(*p, rand_atom(rng, *p, &world.samples));
                }
            }
            for _ in 0..4 {
                let n = rng.range(1, 128) as usize;
                let evs = rand_midi(rng, n, 20);
                e.block_midi(n, &evs);
                obs.count("blocks", 1);
            }
        }
        obs.nontrivial = true;
        obs.fingerprint = format!("{}", case);
        Ok(())
    });

    // What an engine allocated is gone when both halves are gone.
    let n = rep.opts.n(8, 100);
    rep.run_t("returned", n, 1, |rng, case, obs| {
        let r0 = rng.clone();
        let mut last = 0;
        let mut grow = vec![];
        for k in 0..4 {
            let mut r = r0.clone();
            let mut o = Obs::default();
            session(&mut r, &world, 12, &mut o)?;
            let b = alloc::process_bytes();
            if k > 1 {
                grow.push(b - last);
            }
            last = b;
        }
        // caches and tables are filled in the first round
        ensure!(grow.iter().any(|g| *g < 1_000), "leak", "each of the identical sessions leaves memory behind: {:?} bytes", grow);
        obs.max("growth", grow.iter().min().copied().unwrap().max(0) as u64);
        obs.nontrivial = true;
        obs.fingerprint = format!("{}", case);
        Ok(())
    });

    // While it lives, repeating the same edits does not pile up memory.
    let n = rep.opts.n(4, 60);
    rep.run_t("bounded", n, 1, |rng, case, obs| {
        let mut e = Eng::new(10, 10, 44100.0);
        let mut f = Front::new(&world, 10, 10, 8, rng);
        let mut g = Front::new(&world, 10, 10, 8, rng);
        let mut marks = vec![];
        for round in 0..5 {
            for _ in 0..12 {
                f.install(&mut e.m)?;
                e.block(64);
                g.install(&mut e.m)?;
                e.block(64);
                e.m.handle_graph_events();
                if rng.chance(0.2) {
                    e.m.clear();
                    e.block(64);
                }
                e.m.set_dynamic_node1x1(0, Box::new(Plain { mem: vec![0.0; 1000], k: 0 }));
                e.block(16);
            }
            e.m.clear();
            e.block(16);
            std::thread::sleep(Duration::from_millis(300));
            e.block(16);
            if round > 0 {
                marks.push(alloc::process_bytes());
            }
        }
        let grow: Vec<i64> = marks.windows(2).map(|w| w[1] - w[0]).collect();
        ensure!(grow.iter().any(|g| *g < 4_000), "grows", "memory grows with each round of the same edits: {:?} bytes", grow);
        obs.nontrivial = true;
        obs.fingerprint = format!("{}", case);
        Ok(())
    });
}
