//! C03: saving and loading a patch loses nothing.
use crate::core::*;
use crate::ensure;
use crate::eng::*;
use crate::gen::*;
use hexodsp::matrix_repr::*;
use hexodsp::*;
use serde_json::json;

fn load(m: &mut Matrix, bytes: &[u8]) -> Res {
    match load_patch_from_mem(m, bytes) {
        Ok(()) => Ok(()),
        Err(e) => fail("load", format!("loading a saved patch failed: {:?}", e)),
    }
}

fn render(e: &mut Eng, pats: &[usize], bfs: &[usize], seed: u64, frames: usize) -> (Vec<f32>, Vec<f32>) {
    for b in bfs {
        let _ = e.m.check_block_function(*b);
    }
    publish_patterns(e, pats);
    // let the sequencers take over all columns before listening
    let mut r = Rng::new(seed);
    let il = noise_sig(&mut r, frames, 0.7);
    let ir = noise_sig(&mut r, frames, 0.7);
    e.render_in(&il, &ir, &[64])
}

/// Saved bytes compared by meaning: the order of cells, parameters and blocks is not part of it.
fn canon_saved(b: &[u8]) -> serde_json::Value {
    let mut v: serde_json::Value = serde_json::from_slice(b).unwrap_or(json!(null));
    for k in ["params", "atoms", "props", "cells"] {
        if let Some(a) = v[k].as_array_mut() {
            a.sort_by_key(|x| x.to_string());
        }
    }
    if let Some(a) = v["block_funs"].as_array_mut() {
        for bf in a.iter_mut() {
            if let Some(ars) = bf["areas"].as_array_mut() {
                for ar in ars.iter_mut() {
                    if let Some(o) = ar.as_object_mut() {
                        o.remove("size");
                    }
                    if let Some(bl) = ar["blocks"].as_array_mut() {
                        bl.sort_by_key(|x| x.to_string());
                    }
                }
            }
        }
    }
    v
}

pub fn run(rep: &mut Report) {
    rep.rule = "one evaluation = one random patch (all node types, settings, amounts, properties, patterns, block functions) saved and loaded into a fresh and into a used instance, all state and the rendered audio compared".into();
    rep.assumptions = vec![
        "parameters are compared up to 1e-4 of their range (conversion to the saved display value and back)".into(),
        "gate columns use full probability (the other steps are drawn at random)".into(),
        "audio is compared if no node of instance 3 or above is used (their start phase is documented as random)".into(),
        "the cursor of a completely empty pattern is not content".into(),
    ];
    let types = all_types();
    let samples = sample_files();
    let n = rep.opts.n(400, 8000);
    rep.note("node_types", json!(types.len()));
    rep.run("roundtrip", n, |rng, case, obs| {
        let (w, h) = *rng.pick(&[(8usize, 10usize), (12, 12), (16, 9)]);
        let mut a = Eng::new(w, h, 44100.0);
        let bt = bf_types(&a.m);
        let o = GenOpts { types: &types, samples: &samples, max_nodes: 14, bf_types: &bt, with_out: rng.chance(0.9), w, h };
        let p = Patch::gen(rng, &o);
        p.apply(&mut a.m)?;
        if rng.chance(0.5) {
            // removing a cell must leave the parameters of its node alone
            let (x, y, _) = p.cells[rng.below(p.cells.len())];
            a.m.place(x, y, Cell::empty(NodeId::Nop));
            let _ = a.m.sync();
        }
        if rng.chance(0.5) {
            a.block(64);
            a.block(64);
        }
        // the other content the second instance has before
        let q = Patch::gen(rng, &o);
        let mut pats: Vec<usize> = p.pats.iter().chain(q.pats.iter()).map(|x| x.0).chain([0, 5, 127]).collect();
        pats.sort();
        pats.dedup();
        let mut bfs: Vec<usize> = p.bfs.iter().chain(q.bfs.iter()).map(|x| x.0).chain([0, 31]).collect();
        bfs.sort();
        bfs.dedup();
        let mut props: Vec<String> = p.props.iter().chain(q.props.iter()).map(|x| x.0.clone()).collect();
        props.push("nope".into());
        let mut nodes: Vec<NodeId> = vec![];
        for n in p.vals.iter().map(|v| v.0.node_id()).chain(p.nodes.iter().copied()).chain(q.nodes.iter().copied()).chain(q.vals.iter().map(|v| v.0.node_id())) {
            if !nodes.contains(&n) {
                nodes.push(n);
            }
        }
        let va = view(&mut a.m, &nodes, &pats, &bfs, &props);
        let file = if case % 4 == 0 { Some(format!("{}/p{}-{}.hxy", scratch(), case, rng.u64())) } else { None };
        let bytes = if let Some(f) = &file {
            ensure!(save_patch_to_file(&mut a.m, f).is_ok(), "save", "saving to a file failed");
            std::fs::read(f).map_err(|e| Fail { key: "save".into(), msg: format!("saved file unreadable: {}", e) })?
        } else {
            save_patch_to_mem(&mut a.m)
        };
        // saving changes nothing
        let va2 = view(&mut a.m, &nodes, &pats, &bfs, &props);
        if let Some((k, d)) = view_diff(&va, &va2, 0.0) {
            return fail(&format!("save-changes-{}", k), d);
        }
        // fresh instance
        let mut b = Eng::new(w, h, 44100.0);
        if let Some(f) = &file {
            match load_patch_from_file(&mut b.m, f) {
                Ok(()) => {}
                Err(e) => return fail("load", format!("loading a saved file failed: {:?}", e)),
            }
            let _ = std::fs::remove_file(f);
        } else {
            load(&mut b.m, &bytes)?;
        }
        let vb = view(&mut b.m, &nodes, &pats, &bfs, &props);
        if let Some((k, d)) = view_diff(&va, &vb, 1e-4) {
            return fail(&format!("fresh-{}", k), d);
        }
        // saved again: the same patch
        let bytes2 = save_patch_to_mem(&mut b.m);
        let mut b2 = Eng::new(w, h, 44100.0);
        load(&mut b2.m, &bytes2)?;
        let vb2 = view(&mut b2.m, &nodes, &pats, &bfs, &props);
        if let Some((k, d)) = view_diff(&vb, &vb2, 1e-4) {
            return fail(&format!("second-{}", k), d);
        }
        // used instance
        let mut c = Eng::new(w, h, 44100.0);
        q.apply(&mut c.m)?;
        for b in bfs.iter() {
            let _ = c.m.check_block_function(*b);
        }
        publish_patterns(&mut c, &pats);
        for _ in 0..rng.below(12) {
            c.block(64);
        }
        load(&mut c.m, &bytes)?;
        let vc = view(&mut c.m, &nodes, &pats, &bfs, &props);
        if let Some((k, d)) = view_diff(&vb, &vc, 0.0) {
            return fail(&format!("used-{}", k), d);
        }
        let bytes3 = save_patch_to_mem(&mut c.m);
        let (s2, s3) = (canon_saved(&bytes2), canon_saved(&bytes3));
        if s2 != s3 {
            let d = first_diff(&s2, &s3, "");
            return fail("saved-bytes", format!("the same patch saves differently from a used instance: {}", d));
        }
        // the same patch placed by hand
        let mut d = Eng::new(w, h, 44100.0);
        for n in nodes.iter() {
            for p in params_of(*n) {
                if let Some(v) = b.m.get_param(&p) {
                    d.m.set_param(p, v);
                }
                if let Some(v) = b.m.get_param_modamt(&p) {
                    let _ = d.m.set_param_modamt(p, Some(v));
                }
            }
            for p in atoms_of(*n) {
                if let Some(v) = b.m.get_param(&p) {
                    d.m.set_param(p, v);
                }
            }
        }
        for (i, pt) in p.pats.iter() {
            pt.apply(&mut d.m, *i);
        }
        for (i, ops) in p.bfs.iter() {
            apply_bf(&mut d.m, *i, ops);
        }
        // The nodes appear last, so that they start with these values.
        let mut cells = vec![];
        b.m.for_each(|x, y, c| cells.push((x, y, *c)));
        for (x, y, c) in cells {
            d.m.place(x, y, c);
        }
        ensure!(d.m.sync().is_ok(), "sync", "placing the loaded patch by hand failed");
        let seed = rng.u64();
        let frames = 64 * 40;
        let (bl, br) = render(&mut b, &pats, &bfs, seed, frames);
        let (cl, cr) = render(&mut c, &pats, &bfs, seed, frames);
        obs.count("frames_compared", frames as u64 * 2);
        // (the phase of the fourth and further instances of an oscillator is documented as random)
        let fixed = p.nodes.iter().all(|n| n.instance() < 3);
        if let (true, Some(i)) = (fixed, bits_eq(&bl, &cl).or(bits_eq(&br, &cr))) {
            return fail("used-audio", format!("audio differs from a fresh instance at frame {} ({} {} / {} {}) nodes {}", i, bl[i], cl[i], br[i], cr[i], p.describe()));
        }
        let (dl, dr) = render(&mut d, &pats, &bfs, seed, frames);
        if let (true, Some(i)) = (fixed, bits_eq(&bl, &dl).or(bits_eq(&br, &dr))) {
            return fail("hand-audio", format!("audio differs from the same patch placed by hand at frame {} ({} {} / {} {}) nodes {}", i, bl[i], dl[i], br[i], dr[i], p.describe()));
        }
        let loud = bl.iter().chain(br.iter()).filter(|x| **x != 0.0).count();
        obs.count("cells", va.cells.iter().filter(|c| c.2 != "nop").count() as u64);
        obs.count("params", va.params.len() as u64);
        obs.count("atoms", va.atoms.len() as u64);
        obs.count("nonsilent", (loud > 0) as u64);
        obs.count("audio_compared", fixed as u64);
        obs.max("patch_bytes", bytes.len() as u64);
        obs.nontrivial = p.nodes.len() > 1 && !p.vals.is_empty();
        obs.fingerprint = format!("{:x}", hash64(&String::from_utf8_lossy(&bytes)));
        if case < 2 {
            obs.sample = Some(p.describe());
        }
        Ok(())
    });
    save_faults(rep, &types);
}

#[repr(C)]
struct Rlimit {
    cur: u64,
    max: u64,
}
extern "C" {
    fn setrlimit(r: i32, l: *const Rlimit) -> i32;
    fn getrlimit(r: i32, l: *mut Rlimit) -> i32;
    fn signal(s: i32, h: usize) -> usize;
}

/// Saving over an existing patch file while the disk fills up at any byte.
fn save_faults(rep: &mut Report, types: &[NodeId]) {
    let n = rep.opts.n(16, 200);
    rep.run_t("save-fault", n, 1, |rng, case, obs| {
        const RLIMIT_FSIZE: i32 = 1;
        const SIGXFSZ: i32 = 25;
        let mut a = Eng::new(8, 10, 44100.0);
        let o = GenOpts { types, samples: &[], max_nodes: 6, bf_types: &[], with_out: true, w: 8, h: 10 };
        let p = Patch::gen(rng, &o);
        p.apply(&mut a.m)?;
        let dir = format!("{}/sf{}", scratch(), case);
        std::fs::create_dir_all(&dir).unwrap();
        let f = format!("{}/patch.hxy", dir);
        ensure!(save_patch_to_file(&mut a.m, &f).is_ok(), "save", "saving to a file failed");
        let old = std::fs::read(&f).unwrap_or_default();
        // another, larger content over it
        let q = Patch::gen(rng, &o);
        let _ = q.apply(&mut a.m);
        for i in 0..20 {
            a.m.set_prop(&format!("k{}", i), SAtom::setting(i));
        }
        let whole = save_patch_to_mem(&mut a.m);
        let at = match case % 4 {
            0 => 0,
            1 => whole.len() as u64 - 1,
            _ => rng.below(whole.len()) as u64,
        };
        let r;
        unsafe {
            let mut old_l = Rlimit { cur: 0, max: 0 };
            let h = signal(SIGXFSZ, 1); // ignore: the write fails instead
            getrlimit(RLIMIT_FSIZE, &mut old_l);
            setrlimit(RLIMIT_FSIZE, &Rlimit { cur: at, max: old_l.max });
            r = save_patch_to_file(&mut a.m, &f);
            setrlimit(RLIMIT_FSIZE, &old_l);
            signal(SIGXFSZ, h);
        }
        let now = std::fs::read(&f).unwrap_or_default();
        ensure!(r.is_err(), "save-fault-silent", "saving reported success although only {} of {} bytes could be written", at, whole.len());
        ensure!(now == old, "save-fault-lost", "a failed save (disk full after {} of {} bytes) changed the previous file: {} bytes instead of {}", at, whole.len(), now.len(), old.len());
        let mut b = Eng::new(8, 10, 44100.0);
        ensure!(load_patch_from_file(&mut b.m, &f).is_ok(), "save-fault-load", "previous file cannot be loaded after a failed save");
        // and with room again
        ensure!(save_patch_to_file(&mut a.m, &f).is_ok(), "save-again", "saving failed after an earlier failure");
        let now = std::fs::read(&f).unwrap_or_default();
        ensure!(canon_saved(&now) == canon_saved(&whole), "save-again", "the file differs from the patch saved to memory");
        // an interrupted save of this patch must not show in a smaller one saved to the same place
        unsafe {
            let mut old_l = Rlimit { cur: 0, max: 0 };
            let h = signal(SIGXFSZ, 1);
            getrlimit(RLIMIT_FSIZE, &mut old_l);
            setrlimit(RLIMIT_FSIZE, &Rlimit { cur: whole.len() as u64 - 1 - rng.below(20) as u64, max: old_l.max });
            let _ = save_patch_to_file(&mut a.m, &f);
            setrlimit(RLIMIT_FSIZE, &old_l);
            signal(SIGXFSZ, h);
        }
        let mut small = Eng::new(8, 10, 44100.0);
        small.m.place(rng.below(8), rng.below(10), Cell::empty(NodeId::Sin(0)));
        ensure!(small.m.sync().is_ok(), "sync", "refused");
        let want = save_patch_to_mem(&mut small.m);
        ensure!(save_patch_to_file(&mut small.m, &f).is_ok(), "save-small", "saving a small patch failed after an interrupted save");
        let now = std::fs::read(&f).unwrap_or_default();
        ensure!(canon_saved(&now) == canon_saved(&want), "save-small", "after an interrupted save of {} bytes, a patch of {} bytes is saved as {} bytes that differ", whole.len(), want.len(), now.len());
        let mut b = Eng::new(8, 10, 44100.0);
        ensure!(load_patch_from_file(&mut b.m, &f).is_ok(), "save-small-load", "a small patch saved after an interrupted save cannot be loaded");
        // whoever reads the file while it is saved sees one of the patches, and nothing else
        let stop = std::sync::atomic::AtomicBool::new(false);
        let (cw, cs) = (canon_saved(&whole), canon_saved(&want));
        let (reads, bad) = std::thread::scope(|sc| {
            let t = sc.spawn(|| {
                let (mut reads, mut bad) = (0u64, None);
                while !stop.load(std::sync::atomic::Ordering::Relaxed) && bad.is_none() {
                    let c = std::fs::read(&f).unwrap_or_default();
                    let cc = canon_saved(&c);
                    if cc != cw && cc != cs {
                        bad = Some(c.len());
                    }
                    reads += 1;
                }
                (reads, bad)
            });
            for i in 0..12 {
                let _ = save_patch_to_file(if i % 2 == 0 { &mut a.m } else { &mut small.m }, &f);
            }
            stop.store(true, std::sync::atomic::Ordering::Relaxed);
            t.join().unwrap()
        });
        ensure!(bad.is_none(), "save-partial", "a reader saw {} bytes in the file, neither the old nor the new patch ({}, {} bytes)", bad.unwrap_or(0), want.len(), whole.len());
        obs.count("reads_during_saves", reads);
        let _ = std::fs::remove_dir_all(&dir);
        obs.count("failed_saves", 1);
        obs.nontrivial = true;
        obs.fingerprint = format!("{} {}", at, whole.len());
        Ok(())
    });
}

pub fn first_diff(a: &serde_json::Value, b: &serde_json::Value, path: &str) -> String {
    use serde_json::Value::*;
    match (a, b) {
        (Object(x), Object(y)) => {
            for (k, v) in x.iter() {
                match y.get(k) {
                    None => return format!("{}.{} missing", path, k),
                    Some(w) => {
                        if v != w {
                            return first_diff(v, w, &format!("{}.{}", path, k));
                        }
                    }
                }
            }
            format!("{}: extra keys", path)
        }
        (Array(x), Array(y)) => {
            if x.len() != y.len() {
                return format!("{}: {} != {} elements", path, x.len(), y.len());
            }
            for i in 0..x.len() {
                if x[i] != y[i] {
                    return first_diff(&x[i], &y[i], &format!("{}[{}]", path, i));
                }
            }
            "".to_string()
        }
        _ => format!("{}: {} != {}", path, a, b),
    }
}
