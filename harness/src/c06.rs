//! C06: the audio thread never allocates, frees, waits or does I/O.
use crate::alloc;
use crate::churn::*;
use crate::core::*;
use crate::eng::*;
use crate::ensure;
use crate::gen::*;
use crate::sys;
use hexodsp::nodes::HxTimedEvent;
use hexodsp::*;
use serde_json::json;
use std::sync::mpsc;
use std::time::Duration;

fn audio(e: &mut Eng, n: usize, evs: &[HxTimedEvent], ctxmsg: &str) -> Res {
    let ex = &mut e.ex;
    let ctx = &mut e.ctx;
    ctx.n = n;
    let ((_, io, wait), al) = alloc::watch(|| {
        sys::watch(|| {
            ex.process_graph_updates();
            let mut i = 0;
            ex.feed_midi_events_from(|| {
                let r = evs.get(i).copied();
                i += 1;
                r
            });
            ex.process(ctx);
        })
    });
    ensure!(al == 0, "allocation", "{} heap operations on the audio thread; {}", al, ctxmsg);
    ensure!(io == 0, "io", "{} I/O calls on the audio thread; {}", io, ctxmsg);
    ensure!(wait == 0, "waits", "the audio thread waited {} times; {}", wait, ctxmsg);
    Ok(())
}

/// Only locked, never looked into, by the other thread.
struct Held(NodeGlobalRef);
unsafe impl Send for Held {}

pub fn run(rep: &mut Report) {
    rep.rule = "one evaluation = one history of front end operations interleaved with audio callbacks, each watched for heap operations, I/O and waiting system calls".into();
    rep.assumptions.push("fewer than 512 discarded objects per quarter second (the capacity of the channel to the releasing thread); the log channel is set up in the very first block".into());
    let world = World::new(&["pverb"]);
    let n = rep.opts.n(500, 12000);
    rep.run("churn", n, |rng, _case, obs| {
        let (conf, ex) = new_node_engine();
        let global = conf.get_node_global();
        let mut e = Eng { m: Matrix::new(conf, 10, 10), ex, ctx: Ctx::new() };
        if rng.chance(0.5) {
            e.m.set_observer(std::sync::Arc::new(CountObs::default()));
        }
        e.ex.set_sample_rate(*rng.pick(&[44100.0, 48000.0, 96000.0]));
        e.ctx.n = 16;
        e.ex.process(&mut e.ctx);
        let mut f = Front::new(&world, 10, 10, 10, rng);
        f.heavy = rng.chance(0.2);
        f.install(&mut e.m)?;
        let mut fp = String::new();
        let mut last = vec![];
        for _ in 0..rng.range(10, 40) {
            let held = rng.chance(0.06);
            for _ in 0..rng.range(1, 4) {
                let o = f.op(&mut e.m, rng)?;
                last.push(o);
                fp += o;
            }
            if f.garbage > 200 {
                // give the releasing thread (250 ms period) time
                std::thread::sleep(Duration::from_millis(300));
                f.garbage = 0;
            }
            if last.len() > 12 {
                last.drain(0..last.len() - 12);
            }
            let k = rng.range(1, 6);
            let mut blocks = vec![];
            for _ in 0..k {
                let n = rng.range(1, MAXB as i64) as usize;
                let maxev = *rng.pick(&[0usize, 5, 60]);
                let evs = rand_midi(rng, n, maxev);
                for fr in 0..n {
                    e.ctx.inp[0][fr] = rng.f(-1.0, 1.0);
                    e.ctx.inp[1][fr] = rng.f(-1.0, 1.0);
                }
                blocks.push((n, evs));
            }
            let msg = format!("nodes {:?}, last operations {:?}", f.patch.nodes.iter().map(|n| format!("{}", n)).collect::<Vec<_>>(), last);
            if held {
                // The front end is busy holding everything it can hold.
                let (tx, rx) = mpsc::channel();
                let (dtx, drx) = mpsc::channel::<()>();
                let pats: Vec<_> = (0..4).filter_map(|i| e.m.get_pattern_data(i)).collect();
                let g = Held(global.clone());
                let r = std::thread::scope(|sc| {
                    sc.spawn(move || {
                        let g = g;
                        let _g = g.0.lock().unwrap();
                        let _p: Vec<_> = pats.iter().map(|p| p.lock().unwrap()).collect();
                        tx.send(()).unwrap();
                        let _ = drx.recv_timeout(Duration::from_millis(500));
                    });
                    rx.recv().unwrap();
                    let mut r = Ok(());
                    for (n, evs) in blocks.iter() {
                        r = r.and_then(|_| audio(&mut e, *n, evs, &msg));
                    }
                    let _ = dtx.send(());
                    r
                });
                r?;
                obs.count("blocks_with_all_locks_held", k as u64);
            } else {
                for (n, evs) in blocks.iter() {
                    obs.count("midi_events", evs.len() as u64);
                    audio(&mut e, *n, evs, &msg)?;
                }
            }
            obs.count("blocks", k as u64);
        }
        for (k, v) in f.ops.iter() {
            obs.count(&format!("op_{}", k), *v);
        }
        obs.nontrivial = true;
        obs.fingerprint = fp;
        obs.sample = Some(json!({"ops": f.ops, "final_nodes": f.patch.nodes.iter().map(|n| format!("{}", n)).collect::<Vec<_>>()}));
        Ok(())
    });

    // Every node type with every setting moved while it runs.
    let types = all_types();
    let n = rep.opts.n(10, 200) * types.len();
    rep.run("each-type", n, |rng, case, obs| {
        let t = types[case % types.len()];
        let mut e = Eng::new(8, 8, 44100.0);
        let src = NodeId::BOsc(0);
        let t = if t.name() == "bosc" { NodeId::BOsc(1) } else { t };
        let mut edges = vec![];
        for p in params_of(t) {
            if rng.chance(0.5) && edges.len() < 14 {
                edges.push(E { from: src, out: 0, to: t, inp: p.inp() });
            }
        }
        if n_outs(t) > 0 && t != NodeId::Out(0) {
            edges.push(E { from: t, out: 0, to: NodeId::Out(0), inp: 0 });
        }
        place_edges(&mut e.m, &[src, t], &edges);
        if e.m.sync().is_err() {
            return fail("sync", format!("graph of {} refused", t));
        }
        let settings = atoms_of(t);
        for step in 0..12 {
            for p in params_of(t) {
                if rng.chance(0.3) {
                    e.m.set_param(p, SAtom::param(rand_param(rng, p)));
                }
                if rng.chance(0.1) {
                    let _ = e.m.set_param_modamt(p, Some(rng.f(-1.0, 1.0)));
                }
            }
            for p in settings.iter() {
                if rng.chance(0.5) {
                    e.m.set_param(*p, rand_atom(rng, *p, &world.samples));
                }
            }
            if step == 6 {
                // a real graph change keeps all nodes running
                let mut c = e.m.get_copy(0, 0).unwrap();
                if let Some(l) = e.m.get(7, 7) {
                    if l.is_empty() {
                        c = Cell::empty(NodeId::Amp(3));
                    }
                }
                e.m.place(7, 7, c);
                let _ = e.m.sync();
            }
            let evs = rand_midi(rng, 64, 20);
            audio(&mut e, rng.range(20, 128) as usize, &evs, &format!("node {}", t))?;
            audio(&mut e, rng.range(1, 128) as usize, &[], &format!("node {}", t))?;
            obs.count("blocks", 2);
        }
        obs.nontrivial = true;
        obs.fingerprint = format!("{} {}", t.name(), case);
        Ok(())
    });
}
