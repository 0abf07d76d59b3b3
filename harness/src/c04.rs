//! C04: arbitrary patch data never crashes, hangs or corrupts the engine.
use crate::alloc;
use crate::core::*;
use crate::ensure;
use crate::eng::*;
use crate::gen::*;
use hexodsp::*;
use serde_json::{json, Value};

fn count(v: &Value) -> usize {
    1 + match v {
        Value::Array(a) => a.iter().map(count).sum(),
        Value::Object(o) => o.values().map(count).sum(),
        _ => 0,
    }
}
fn nth<'a>(v: &'a mut Value, k: &mut usize) -> Option<&'a mut Value> {
    if *k == 0 {
        return Some(v);
    }
    *k -= 1;
    match v {
        Value::Array(a) => {
            for x in a.iter_mut() {
                let c = count(x);
                if *k < c {
                    return nth(x, k);
                }
                *k -= c;
            }
            None
        }
        Value::Object(o) => {
            for (_, x) in o.iter_mut() {
                let c = count(x);
                if *k < c {
                    return nth(x, k);
                }
                *k -= c;
            }
            None
        }
        _ => None,
    }
}

const NUMS: [i64; 32] = [
    0, 1, -1, 2, 3, 5, 6, 7, 8, 9, 12, 15, 16, 17, 63, 64, 127, 128, 129, 254, 255, 256, 257, 1000, 4096, 65535, 65536,
    i32::MAX as i64, i32::MIN as i64, 4294967296, i64::MAX, i64::MIN,
];

fn rand_leaf(rng: &mut Rng, words: &[String]) -> Value {
    match rng.below(9) {
        0 => Value::Null,
        1 => json!(*rng.pick(&NUMS)),
        2 => json!(rng.range(-3, 20)),
        3 => json!(*rng.pick(&[0.5, -0.0, 1e39, -1e39, 1e300, 1e-300, -1.5, 3.999, 255.5, 1e19, -1e19])),
        4 => json!(rng.pick(words).clone()),
        5 => json!(rand_string(rng)),
        6 => json!(rng.chance(0.5)),
        7 => json!([]),
        _ => json!({}),
    }
}

fn mutate(rng: &mut Rng, v: &mut Value, words: &[String]) -> &'static str {
    let n = count(v);
    let donor = {
        let mut k = rng.below(n);
        nth(v, &mut k).cloned().unwrap_or(Value::Null)
    };
    // prefer small top level parts over the many pattern cells
    let mut k = if rng.chance(0.3) { rng.below(n.min(60)) } else { rng.below(n) };
    let Some(t) = nth(v, &mut k) else { return "none" };
    match rng.below(10) {
        0..=3 => {
            // same kind, other value
            match t {
                Value::Number(x) => {
                    if rng.chance(0.5) {
                        *t = json!(*rng.pick(&NUMS));
                    } else if let Some(i) = x.as_i64() {
                        *t = json!(i.wrapping_add(rng.range(-2, 2)));
                    } else {
                        *t = json!(*rng.pick(&[1e39, -1e39, 2.0, -2.0, 1e10, -1e10, 0.0, 1e-40]));
                    }
                    "number"
                }
                Value::String(_) => {
                    *t = json!(rng.pick(words).clone());
                    "word"
                }
                _ => {
                    *t = rand_leaf(rng, words);
                    "leaf"
                }
            }
        }
        4 => {
            *t = rand_leaf(rng, words);
            "leaf"
        }
        5 => {
            *t = donor;
            "splice"
        }
        6 => match t {
            Value::Array(a) if !a.is_empty() => {
                let i = rng.below(a.len());
                a.remove(i);
                "remove"
            }
            Value::Object(o) if !o.is_empty() => {
                let k = o.keys().nth(rng.below(o.len())).cloned().unwrap();
                o.remove(&k);
                "remove"
            }
            _ => {
                *t = Value::Null;
                "null"
            }
        },
        7 => match t {
            Value::Array(a) => {
                let x = if a.is_empty() || rng.chance(0.3) { donor } else { a[rng.below(a.len())].clone() };
                let c = if count(&x) < 20 { rng.range(1, 300) } else { rng.range(1, 4) };
                let i = rng.below(a.len() + 1);
                for _ in 0..c {
                    a.insert(i, x.clone());
                }
                "grow"
            }
            Value::Object(o) => {
                o.insert(rng.pick(words).clone(), donor);
                "key"
            }
            _ => {
                *t = json!([t.clone(), t.clone()]);
                "wrap"
            }
        },
        8 => {
            if let Value::Array(a) = t {
                if a.len() > 1 {
                    let (i, j) = (rng.below(a.len()), rng.below(a.len()));
                    a.swap(i, j);
                    return "swap";
                }
            }
            *t = json!([t.clone()]);
            "wrap"
        }
        _ => {
            let mut x = json!(1);
            for _ in 0..rng.range(2, 100) {
                x = if rng.chance(0.5) { json!([x]) } else { json!({ "a": x }) };
            }
            *t = x;
            "deep"
        }
    }
}

fn mutate_bytes(rng: &mut Rng, b: &mut Vec<u8>) -> &'static str {
    if b.is_empty() {
        return "none";
    }
    match rng.below(5) {
        0 => {
            let n = rng.below(b.len());
            b.truncate(n);
            "truncate"
        }
        1 => {
            for _ in 0..rng.range(1, 5) {
                let i = rng.below(b.len());
                b[i] ^= 1 << rng.below(8);
            }
            "flip"
        }
        2 => {
            let i = rng.below(b.len());
            let j = (i + rng.range(1, 40) as usize).min(b.len());
            b.drain(i..j);
            "cut"
        }
        3 => {
            let i = rng.below(b.len());
            for _ in 0..rng.range(1, 10) {
                let c = *rng.pick(b"[]{}\",:0123456789e-\xff\x00");
                b.insert(i, c);
            }
            "insert"
        }
        _ => {
            let i = rng.below(b.len());
            let x = *rng.pick(b"0123456789-.e");
            b[i] = x;
            "set"
        }
    }
}

/// The engine must still work after the load: audio, editing, saving.
fn still_works(e: &mut Eng, rng: &mut Rng, obs: &mut Obs, loaded: bool) -> Res {
    for _ in 0..rng.range(1, 6) {
        e.block(rng.range(1, 128) as usize);
    }
    for id in 0..3 {
        e.m.check_pattern_data(id);
        let _ = e.m.check_block_function(id);
    }
    // the front end reads
    let nodes: Vec<NodeId> = {
        let mut v = vec![];
        e.m.for_each(|_, _, c| {
            if !v.contains(&c.node_id()) {
                v.push(c.node_id())
            }
        });
        v
    };
    obs.count("nodes_loaded", nodes.iter().filter(|n| **n != NodeId::Nop).count() as u64);
    let _ = view(&mut e.m, &nodes, &[0, 1, 2, 3, 7, 127], &[0, 1, 2, 31], &[]);
    for _ in 0..3 {
        e.block(64);
    }
    // save, load the saved
    let s = save_patch_to_mem(&mut e.m);
    let mut e2 = Eng::new(12, 12, 44100.0);
    // (A load that was refused because of a cycle may leave the cycle in the cells.)
    let r2 = load_patch_from_mem(&mut e2.m, &s);
    if let (true, Err(x)) = (loaded, r2) {
        return fail("saved-not-loadable", format!("what was saved after loading can not be loaded: {:?}", x));
    }
    e2.block(32);
    // editing and sound
    e.m.clear();
    let (o, r) = (NodeId::Out(0), NodeId::Amp(0));
    e.m.place(0, 0, Cell::empty(r).out(None, None, r.out("sig")));
    e.m.place(0, 1, Cell::empty(o).input(o.inp("ch1"), None, None));
    ensure!(e.m.sync().is_ok(), "dead", "after the load a legal graph is refused");
    e.m.set_param(r.inp_param("inp").unwrap(), SAtom::param(0.25));
    let mut last = 0.0;
    for _ in 0..30 {
        last = e.block(64).0[63];
    }
    ensure!((last - 0.25).abs() < 0.01, "dead", "after the load the engine plays {} instead of 0.25", last);
    Ok(())
}

pub fn run(rep: &mut Report) {
    rep.rule = "one evaluation = one mutated patch (structure, types, numbers, bytes) loaded into an engine with random prior contents; result, memory, audio, editing, saving checked".into();
    let types = all_types();
    let all = types.clone();
    let types: Vec<NodeId> = types.into_iter().filter(|t| t.name() != "pverb").collect();
    let probe = Eng::new(4, 4, 44100.0);
    let bft = bf_types(&probe.m);
    drop(probe);
    let samples = sample_files();
    let mut words: Vec<String> = all.iter().map(|t| t.name().to_string()).collect();
    for t in all.iter() {
        for p in params_of(*t).iter().chain(atoms_of(*t).iter()) {
            words.push(p.name().to_string());
        }
        for o in 0..n_outs(*t) {
            words.push(t.out_name_by_idx(o as u8).unwrap_or("?").to_string());
        }
    }
    for (b, _) in bft.iter() {
        words.push(b.clone());
    }
    for w in ["", "nop", "param", "setting", "str", "audio_sample", "micro_sample", "p", "i", "s", "as", "ms", "cells", "VERSION", "1", "2", "value", "number", "out1", "in1", "get", "set", "phase", "phse", "delay", "unknown_node", "\u{0}", "x", "y", "rt", "id", "contains", "rows", "cols", "<num>", "-> ", "f.in1", "+"] {
        words.push(w.to_string());
    }
    words.sort();
    words.dedup();
    let n = rep.opts.n(1800, 40000);
    rep.run("mutated", n, |rng, _case, obs| {
        let o = GenOpts { types: &types, samples: &samples, max_nodes: 8, bf_types: &bft, with_out: true, w: 12, h: 12 };
        let mut p = Patch::gen(rng, &o);
        p.pats.truncate(1);
        if let Some(x) = p.pats.get_mut(0) {
            x.0 = x.0.min(3);
        }
        if let Some(b) = p.bfs.get_mut(0) {
            b.0 = b.0.min(2);
        }
        p.bfs.truncate(1);
        let mut src = Eng::new(12, 12, 44100.0);
        p.apply(&mut src.m)?;
        let s = save_patch_to_mem(&mut src.m);
        drop(src);
        let mut v: Value = serde_json::from_slice(&s).expect("harness: valid json");
        // the many unused slots are of no interest
        for k in ["patterns", "block_funs"] {
            if let Some(a) = v.get_mut(k).and_then(|a| a.as_array_mut()) {
                while a.len() > 8 && a.last() == Some(&Value::Null) {
                    a.pop();
                }
            }
        }
        let mut what = vec![];
        let bytes_mode = rng.chance(0.15);
        if !bytes_mode || rng.chance(0.3) {
            for _ in 0..rng.range(1, 12) {
                what.push(mutate(rng, &mut v, &words));
            }
        }
        // A node of instance n brings its n predecessors along: keep the big ones few.
        for k in ["cells", "params", "atoms"] {
            if let Some(a) = v.get_mut(k).and_then(|a| a.as_array_mut()) {
                for c in a.iter_mut() {
                    if let (Some(nm), Some(i)) = (c[0].as_str().map(|s| s.to_string()), c[1].as_i64()) {
                        let cheap = ["amp", "mix3", "map", "mux9", "quant", "sin", "smap", "ad", "out"].contains(&nm.as_str());
                        if nm == "pverb" {
                            // (100 MB each)
                            *c.get_mut(1).unwrap() = json!(i.rem_euclid(2));
                        } else if !cheap && !(0..=12).contains(&i) {
                            *c.get_mut(1).unwrap() = json!(i.rem_euclid(256) % 8);
                        }
                    }
                }
            }
        }
        let mut b = v.to_string().into_bytes();
        if bytes_mode {
            for _ in 0..rng.range(1, 3) {
                what.push(mutate_bytes(rng, &mut b));
            }
        }
        let mut e = Eng::new(12, 12, 44100.0);
        if rng.chance(0.5) {
            let q = Patch::gen(rng, &o);
            q.apply(&mut e.m)?;
            e.block(64);
        }
        if let Ok(path) = std::env::var("C04_DUMP") {
            std::fs::write(path, &b).unwrap();
        }
        let (r, peak) = alloc::peak(|| load_patch_from_mem(&mut e.m, &b));
        ensure!(peak < 700 << 20, "memory", "loading {} bytes took {} MB", b.len(), peak >> 20);
        obs.max("peak_kb", (peak >> 10) as u64);
        obs.count(if r.is_ok() { "accepted" } else { "rejected" }, 1);
        obs.max("bytes", b.len() as u64);
        for w in what.iter() {
            obs.count(&format!("mut_{}", w), 1);
        }
        still_works(&mut e, rng, obs, r.is_ok())?;
        obs.nontrivial = !what.is_empty();
        obs.sample = Some(json!({"mutations": what, "bytes": b.len(), "accepted": r.is_ok(), "peak_kb": peak >> 10}));
        obs.fingerprint = format!("{:x}", hash64(&String::from_utf8_lossy(&b)));
        Ok(())
    });

    // Cells that can not be placed must not disturb the others.
    let n = rep.opts.n(300, 6000);
    rep.run("foreign-cells", n, |rng, _case, obs| {
        let o = GenOpts { types: &types, samples: &samples, max_nodes: 8, bf_types: &[], with_out: true, w: 12, h: 12 };
        let p = Patch::gen(rng, &o);
        let mut src = Eng::new(12, 12, 44100.0);
        p.apply(&mut src.m)?;
        let s = save_patch_to_mem(&mut src.m);
        let want = view(&mut src.m, &p.nodes, &[], &[], &[]);
        let mut v: Value = serde_json::from_slice(&s).expect("harness: valid json");
        let cells = v["cells"].as_array_mut().expect("harness: cells");
        let k = rng.range(1, 6);
        for _ in 0..k {
            let donor = cells[rng.below(cells.len())].clone();
            let mut d = if donor[0].is_string() && rng.chance(0.5) { donor } else { json!(["amp", 7, 0, 0, [-1, -1, -1], [-1, -1, -1]]) };
            if rng.chance(0.7) {
                let bad = *rng.pick(&[12i64, 13, 100, 255, 256, 257, 258, 260, 512, 513, 65536, 65537, -1, -255, -256, 4294967296, 4294967297, i64::MIN, i64::MAX]);
                let c = rng.range(2, 3) as usize;
                d[c] = json!(bad);
                let other = 5 - c;
                d[other] = json!(rng.range(0, 11));
            } else {
                d[0] = json!(rng.pick(&["unknown_node", "", "nope", "Amp", "amp "]).to_string());
                // an unknown node on a free or occupied cell
            }
            let at = rng.below(cells.len() + 1);
            cells.insert(at, d);
        }
        let mut e = Eng::new(12, 12, 44100.0);
        let r = load_patch_from_mem(&mut e.m, v.to_string().as_bytes());
        e.block(64);
        if r.is_ok() {
            let got = view(&mut e.m, &p.nodes, &[], &[], &[]);
            for (a, b) in want.cells.iter().zip(got.cells.iter()) {
                if a.2 != "nop" && a.2 != format!("{}", NodeId::Nop) {
                    ensure!(a == b, "cell-overwritten", "a cell outside of the grid or of an unknown node replaced {:?} by {:?}", a, b);
                } else {
                    ensure!(a == b, "cell-invented", "a cell outside of the grid or of an unknown node appeared: {:?} instead of {:?}", b, a);
                }
            }
            obs.count("accepted", 1);
        } else {
            obs.count("rejected", 1);
        }
        obs.nontrivial = true;
        obs.fingerprint = format!("{:x}", hash64(&v.to_string()));
        Ok(())
    });
}
