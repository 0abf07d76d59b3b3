//! C15: editing block functions. The observable state is the serialized snapshot.
use crate::core::*;
use crate::ensure;
use hexodsp::wblockdsp::*;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
struct Blk {
    id: i64,
    rows: i64,
    typ: String,
    ins: Vec<Option<String>>,
    outs: Vec<Option<String>>,
    contains: Vec<Option<usize>>,
    /// everything but the id and the contained areas
    body: String,
}

type Area = BTreeMap<(i64, i64), Blk>;
#[derive(Clone, Debug, PartialEq)]
struct St {
    areas: Vec<Area>,
    sizes: Vec<(i64, i64)>,
    misc: Vec<String>,
}

fn state(f: &BlockFun) -> Result<St, Fail> {
    let v = f.save_snapshot().serialize();
    parse(&v)
}

fn parse(v: &Value) -> Result<St, Fail> {
    let strs = |v: &Value| -> Vec<Option<String>> {
        v.as_array().map(|a| a.iter().map(|x| x.as_str().map(|s| s.to_string())).collect()).unwrap_or_default()
    };
    let mut st = St { areas: vec![], sizes: vec![], misc: vec![] };
    for a in v["areas"].as_array().expect("areas") {
        let mut area = Area::new();
        for b in a["blocks"].as_array().expect("blocks") {
            let p = (b["x"].as_i64().unwrap(), b["y"].as_i64().unwrap());
            let b = &b["block"];
            let mut body = b.clone();
            body["id"] = json!(0);
            body["contains"] = json!(0);
            let blk = Blk {
                id: b["id"].as_i64().unwrap(),
                rows: b["rows"].as_i64().unwrap(),
                typ: b["typ"].as_str().unwrap().into(),
                ins: strs(&b["inputs"]),
                outs: strs(&b["outputs"]),
                contains: b["contains"].as_array().unwrap().iter().map(|c| c.as_u64().map(|c| c as usize)).collect(),
                body: body.to_string(),
            };
            ensure!(area.insert(p, blk).is_none(), "twice", "two blocks at {:?}", p);
        }
        st.areas.push(area);
        st.sizes.push((a["size"][0].as_i64().unwrap(), a["size"][1].as_i64().unwrap()));
        st.misc.push(format!("{} {}", a["header"], a["auto_shrink"]));
    }
    Ok(st)
}

fn covered(a: &Area, x: i64, y: i64) -> Option<(i64, i64)> {
    a.iter().find(|(p, b)| p.0 == x && y >= p.1 && y < p.1 + b.rows).map(|(p, _)| *p)
}
fn free(a: &Area, x: i64, y: i64, rows: i64) -> bool {
    (0..rows).all(|r| covered(a, x, y + r).is_none())
}
fn port(v: &[Option<String>], r: i64) -> bool {
    r >= 0 && v.get(r as usize).cloned().flatten().is_some()
}
/// the blocks connected with the one at `p` by touching ports
fn chain(a: &Area, p: (i64, i64)) -> BTreeSet<(i64, i64)> {
    let mut todo = vec![p];
    let mut out = BTreeSet::new();
    while let Some(p) = todo.pop() {
        if !out.insert(p) {
            continue;
        }
        let b = &a[&p];
        for r in 0..b.rows {
            if port(&b.ins, r) {
                if let Some(q) = covered(a, p.0 - 1, p.1 + r) {
                    if port(&a[&q].outs, p.1 + r - q.1) {
                        todo.push(q);
                    }
                }
            }
            if port(&b.outs, r) {
                if let Some(q) = covered(a, p.0 + 1, p.1 + r) {
                    if port(&a[&q].ins, p.1 + r - q.1) {
                        todo.push(q);
                    }
                }
            }
        }
    }
    out
}
/// all areas below a block
fn sub_areas(st: &St, b: &Blk, out: &mut BTreeSet<usize>) {
    for c in b.contains.iter().flatten() {
        if out.insert(*c) {
            for s in st.areas[*c].values() {
                sub_areas(st, s, out);
            }
        }
    }
}

fn invariants(f: &BlockFun, st: &St) -> Res {
    let mut ids = BTreeSet::new();
    let mut used = BTreeSet::new();
    for (ai, a) in st.areas.iter().enumerate() {
        let mut cells = BTreeSet::new();
        for (p, b) in a {
            ensure!(ids.insert(b.id), "id", "block id {} is used twice", b.id);
            for r in 0..b.rows {
                ensure!(cells.insert((p.0, p.1 + r)), "overlap", "blocks overlap at {},{} in area {}", p.0, p.1 + r, ai);
                // the lookup by position agrees
                let o = f.origin_at(ai, p.0, p.1 + r);
                ensure!(o == Some(*p), "origin", "origin of {},{} in area {} is {:?} instead of {:?}", p.0, p.1 + r, ai, o, p);
                ensure!(f.block_ref(ai, p.0, p.1 + r).map(|b| b.rows()) == Some(b.rows as usize), "lookup", "no block found at {},{}", p.0, p.1 + r);
            }
            ensure!(f.block_at(ai, p.0, p.1).is_some(), "view", "no block to draw at {:?}", p);
            for c in b.contains.iter().flatten() {
                ensure!(*c < st.areas.len() && *c != 0, "area", "block contains unknown area {}", c);
                ensure!(used.insert(*c), "shared", "area {} belongs to two blocks", c);
            }
        }
        for x in -4..14 {
            for y in -4..14 {
                if !cells.contains(&(x, y)) {
                    ensure!(f.block_ref(ai, x, y).is_none() && f.block_at(ai, x, y).is_none() && f.origin_at(ai, x, y).is_none(), "ghost", "a block is found at {},{} in area {}", x, y, ai);
                }
            }
        }
    }
    Ok(())
}

/// the blocks of `b` that are not in `a` by id
fn by_id(st: &St) -> BTreeMap<i64, (usize, (i64, i64), Blk)> {
    let mut m = BTreeMap::new();
    for (ai, a) in st.areas.iter().enumerate() {
        for (p, b) in a {
            m.insert(b.id, (ai, *p, b.clone()));
        }
    }
    m
}

const TYPES: &[&str] = &["zero", "value", "->", "->2", "->3", "set", "get", "if", "+", "-", "sin", "/%", "accum"];

pub fn run(rep: &mut Report) {
    rep.rule = "one evaluation = one random editing session on a block function; after every operation the snapshot is compared with the operation's effect on the previous one".into();
    let n = rep.opts.n(6000, 200000);
    rep.run("edit", n, |rng, _c, obs| {
        let lib = synfx_dsp_jit::get_standard_library();
        let lang: Rc<RefCell<BlockLanguage>> = setup_hxdsp_block_language(lib);
        let mut f = BlockFun::new(lang.clone());
        let mut st = state(&f)?;
        let steps = rng.range(10, 70);
        let mut trail: Vec<String> = vec![];
        let (mut oks, mut errs) = (0u64, 0u64);
        let lim = rng.range(3, 9);
        for _ in 0..steps {
            let na = st.areas.len();
            let pick_area = |rng: &mut Rng| if rng.chance(0.04) { na + rng.below(3) } else if rng.chance(0.6) { 0 } else { rng.below(na) };
            let id = pick_area(rng);
            // a position, more often one of a block
            let pos = |rng: &mut Rng, id: usize, hit: f32| -> (i64, i64) {
                if id < na && !st.areas[id].is_empty() && rng.chance(hit) {
                    let k: Vec<_> = st.areas[id].iter().collect();
                    let (p, b) = *rng.pick(&k);
                    (p.0, p.1 + rng.range(0, b.rows - 1))
                } else {
                    (rng.range(-2, lim), rng.range(-2, lim))
                }
            };
            let before = st.clone();
            let gen = f.generation();
            let op;
            let res: Result<(), String>;
            match rng.below(20) {
                0..=7 => {
                    let (x, y) = pos(rng, id, 0.15);
                    let t = if rng.chance(0.03) { "nope" } else { *rng.pick(TYPES) };
                    let ui = if ["value", "set", "get"].contains(&t) { Some(format!("{}", rng.below(5))) } else { None };
                    op = format!("instanciate {} at {} {},{}", t, id, x, y);
                    let r = f.instanciate_at(id, x, y, t, ui.clone());
                    st = state(&f)?;
                    if r.is_ok() {
                        ensure!(id < na && t != "nope", "accepted", "{} was accepted", op);
                        let new = st.areas[id].get(&(x, y)).cloned();
                        let new = match new {
                            Some(b) => b,
                            None => return fail("missing", format!("{} placed nothing", op)),
                        };
                        ensure!(new.typ == t, "type", "{} placed a {}", op, new.typ);
                        ensure!(!by_id(&before).contains_key(&new.id), "id", "{} reused id {}", op, new.id);
                        let mut cmp = st.clone();
                        cmp.areas[id].remove(&(x, y));
                        ensure!(cmp.areas[..na] == before.areas[..], "others", "{} changed other blocks", op);
                        let want = if t == "if" { 2 } else { 0 };
                        ensure!(st.areas.len() == na + want, "areas", "{} made {} areas", op, st.areas.len() - na);
                    } else {
                        let ok = id < na && t != "nope";
                        let rows = match t {
                            "->2" | "+" | "-" | "/%" | "accum" => 2,
                            "->3" => 3,
                            _ => 1,
                        };
                        ensure!(!(ok && free(&before.areas[id], x, y, rows)), "refused", "{} was refused although there is space", op);
                    }
                    res = r.map_err(|e| format!("{:?}", e));
                }
                8 | 9 => {
                    let (x, y) = pos(rng, id, 0.8);
                    op = format!("remove at {} {},{}", id, x, y);
                    let r = f.remove_at(id, x, y);
                    st = state(&f)?;
                    let at = before.areas.get(id).and_then(|a| covered(a, x, y));
                    ensure!(r.is_ok() == at.is_some(), "remove", "{} gave {:?}", op, r);
                    if let Some(p) = at {
                        let mut cmp = before.clone();
                        cmp.areas[id].remove(&p);
                        ensure!(cmp.areas == st.areas, "others", "{} changed something else", op);
                    }
                    res = r.map_err(|e| format!("{:?}", e));
                }
                10 | 11 | 12 | 13 => {
                    let clone = rng.chance(0.4);
                    let (x, y) = pos(rng, id, 0.9);
                    let id2 = if rng.chance(0.6) { id } else { pick_area(rng) };
                    let (x2, y2) = pos(rng, id2, 0.2);
                    op = format!("{} {} {},{} to {} {},{}", if clone { "clone" } else { "move" }, id, x, y, id2, x2, y2);
                    let r = if clone { f.clone_block_from_to(id, x, y, id2, x2, y2) } else { f.move_block_from_to(id, x, y, id2, x2, y2) };
                    st = state(&f)?;
                    if r.is_ok() {
                        let p = match before.areas.get(id).and_then(|a| covered(a, x, y)) {
                            Some(p) => p,
                            None => return fail("accepted", format!("{} was accepted without a block there", op)),
                        };
                        let b = before.areas[id][&p].clone();
                        let mut cmp = before.clone();
                        if !clone {
                            cmp.areas[id].remove(&p);
                        }
                        // find the new one
                        let (q, nb) = {
                            let now = by_id(&st);
                            let old = by_id(&before);
                            let found: Vec<_> = if clone {
                                now.values().filter(|v| !old.contains_key(&v.2.id)).cloned().collect()
                            } else {
                                now.get(&b.id).cloned().into_iter().collect()
                            };
                            ensure!(found.len() == 1 && found[0].0 == id2, "lost", "{}: {} blocks arrived", op, found.len());
                            (found[0].1, found[0].2.clone())
                        };
                        ensure!(nb.body == b.body, "changed", "{}: the block changed from {} to {}", op, b.body, nb.body);
                        // grabbed at another row than the top row: that row lands at the destination
                        let yy = if y > p.1 { (y2 - (y - p.1)).max(0) } else { y2 };
                        ensure!(q == (x2, yy), "where", "{}: arrived at {:?} instead of {:?}", op, q, (x2, yy));
                        if clone {
                            let want: usize = b.contains.iter().flatten().count();
                            ensure!(st.areas.len() == na + want, "areas", "{} made {} areas", op, st.areas.len() - na);
                        } else {
                            ensure!(nb.contains == b.contains, "contains", "{} changed the contained areas", op);
                            let mut sub = BTreeSet::new();
                            sub_areas(&before, &b, &mut sub);
                            ensure!(!sub.contains(&id2), "circular", "{} moved a block into itself", op);
                        }
                        let mut now = st.clone();
                        now.areas[id2].remove(&q);
                        ensure!(now.areas[..na] == cmp.areas[..], "others", "{} changed other blocks", op);
                    }
                    res = r.map_err(|e| format!("{:?}", e));
                }
                14 | 15 => {
                    let (x, y) = pos(rng, id, 0.9);
                    let id2 = if rng.chance(0.6) { id } else { pick_area(rng) };
                    let (x2, y2) = pos(rng, id2, 0.2);
                    op = format!("move chain {} {},{} to {} {},{}", id, x, y, id2, x2, y2);
                    let r = f.move_block_chain_from_to(id, x, y, id2, x2, y2);
                    st = state(&f)?;
                    if r.is_ok() {
                        let p = match before.areas.get(id).and_then(|a| covered(a, x, y)) {
                            Some(p) => p,
                            None => return fail("accepted", format!("{} was accepted without a block there", op)),
                        };
                        let ch = chain(&before.areas[id], p);
                        let now = by_id(&st);
                        let mut cmp = before.clone();
                        let moved: Vec<_> = ch.iter().map(|p| (*p, cmp.areas[id].remove(p).unwrap())).collect();
                        let mut offs = None;
                        for (p, b) in moved {
                            let nb = match now.get(&b.id) {
                                Some(n) => n.clone(),
                                None => return fail("lost", format!("{}: block {} at {:?} is gone", op, b.id, p)),
                            };
                            ensure!(nb.0 == id2 && nb.2 == b, "changed", "{}: block {:?} became {:?}", op, b, nb);
                            let o = (nb.1 .0 - p.0, nb.1 .1 - p.1);
                            ensure!(offs.is_none() || offs == Some(o), "torn", "{}: blocks moved by {:?} and {:?}", op, offs, o);
                            offs = Some(o);
                            ensure!(cmp.areas[id2].insert(nb.1, b).is_none(), "overlap", "{}: another block was there", op);
                        }
                        ensure!(cmp.areas == st.areas, "others", "{} changed other blocks", op);
                        obs.max("chain", ch.len() as u64);
                    }
                    res = r.map_err(|e| format!("{:?}", e));
                }
                16 => {
                    let (x, y) = pos(rng, id, 0.9);
                    let fill = match rng.below(4) {
                        0 => None,
                        1 => Some("->2"),
                        2 if rng.chance(0.2) => Some("nope"),
                        _ => Some("->"),
                    };
                    op = format!("split {} {},{} with {:?}", id, x, y, fill);
                    let r = f.split_block_chain_after(id, x, y, fill);
                    st = state(&f)?;
                    if r.is_ok() {
                        let p = match before.areas.get(id).and_then(|a| covered(a, x, y)) {
                            Some(p) => p,
                            None => return fail("accepted", format!("{} was accepted without a block there", op)),
                        };
                        let ch = chain(&before.areas[id], p);
                        let mut cmp = before.clone();
                        let moved: Vec<_> = ch.iter().map(|p| (*p, cmp.areas[id].remove(p).unwrap())).collect();
                        for (p, b) in moved {
                            let q = if p.0 > x { (p.0 + 1, p.1) } else { p };
                            ensure!(cmp.areas[id].insert(q, b).is_none(), "overlap", "{}: another block was at {:?}", op, q);
                        }
                        // what is new are fillers in the opened column
                        let old = by_id(&before);
                        let mut now = st.clone();
                        let news: Vec<_> = now.areas[id].iter().filter(|(_, b)| !old.contains_key(&b.id)).map(|(p, b)| (*p, b.clone())).collect();
                        for (q, b) in news {
                            ensure!(Some(&b.typ[..]) == fill && q.0 == x + 1, "filler", "{} added {:?} at {:?}", op, b, q);
                            now.areas[id].remove(&q);
                        }
                        ensure!(cmp.areas == now.areas, "others", "{} changed or lost blocks", op);
                    }
                    res = r.map_err(|e| format!("{:?}", e));
                }
                17 => {
                    let (x, y) = pos(rng, id, 0.9);
                    let out = rng.chance(0.5);
                    let row = rng.below(4);
                    op = format!("shift port {} {},{} row {} output {}", id, x, y, row, out);
                    f.shift_port(id, x, y, row, out);
                    st = state(&f)?;
                    let at = before.areas.get(id).and_then(|a| covered(a, x, y));
                    let mut now = st.clone();
                    let mut old = before.clone();
                    if let Some(p) = at {
                        let (a, b) = match (now.areas[id].remove(&p), old.areas[id].remove(&p)) {
                            (Some(a), Some(b)) => (a, b),
                            _ => return fail("lost", op),
                        };
                        let names = |v: &Vec<Option<String>>| {
                            let mut v: Vec<String> = v.iter().flatten().cloned().collect();
                            v.sort();
                            v
                        };
                        ensure!(a.id == b.id && a.rows == b.rows && a.contains == b.contains && a.typ == b.typ, "changed", "{}: {:?} became {:?}", op, b, a);
                        ensure!(names(&a.ins) == names(&b.ins) && names(&a.outs) == names(&b.outs), "ports", "{}: {:?} became {:?}", op, b, a);
                        ensure!(a.ins.len() <= a.rows as usize && a.outs.len() <= a.rows as usize, "port-rows", "{}: {:?} became {:?}", op, b, a);
                        let (x1, x0) = if out { (&a.ins, &b.ins) } else { (&a.outs, &b.outs) };
                        ensure!(x1 == x0, "other-side", "{}: {:?} became {:?}", op, b, a);
                        if (row as i64) < b.rows && b.rows > 1 {
                            let (v1, v0) = if out { (&a.outs, &b.outs) } else { (&a.ins, &b.ins) };
                            let mut w = v0.clone();
                            w.resize(b.rows as usize, None);
                            let el = w.remove(row);
                            w.insert((row + 1) % b.rows as usize, el);
                            let mut v = v1.clone();
                            v.resize(b.rows as usize, None);
                            ensure!(v == w, "shift", "{}: {:?} became {:?}", op, v0, v1);
                        }
                    }
                    ensure!(now == old, "others", "{} changed other blocks", op);
                    res = Ok(());
                }
                18 => {
                    op = "sizes".to_string();
                    f.recalculate_area_sizes();
                    st = state(&f)?;
                    ensure!(st.areas == before.areas, "others", "recalculating sizes changed blocks");
                    // (areas of removed blocks are not part of the function any more)
                    let mut live = BTreeSet::new();
                    live.insert(0);
                    for b in st.areas[0].values() {
                        sub_areas(&st, b, &mut live);
                    }
                    for ai in live {
                        let (w, h) = f.area_size(ai);
                        for (p, b) in &st.areas[ai] {
                            ensure!(p.0 < w as i64 && p.1 + b.rows <= h as i64, "size", "area {} is {}x{} but has a block at {:?}", ai, w, h, p);
                        }
                    }
                    res = Ok(());
                }
                _ => {
                    op = "save and load".to_string();
                    let snap = f.save_snapshot();
                    let v = snap.serialize();
                    let txt = v.to_string();
                    let v2: Value = serde_json::from_str(&txt).unwrap();
                    let snap2 = match BlockFunSnapshot::deserialize(&v2) {
                        Ok(s) => s,
                        Err(e) => return fail("load", format!("could not load {}: {:?}", txt, e)),
                    };
                    let mut f2 = BlockFun::new(lang.clone());
                    let _ = f2.instanciate_at(0, 0, 0, "if", None);
                    f2.load_snapshot(&snap2);
                    let s2 = state(&f2)?;
                    // (blocks nobody can reach may be dropped)
                    let mut live = BTreeSet::new();
                    live.insert(0usize);
                    for b in st.areas[0].values() {
                        sub_areas(&st, b, &mut live);
                    }
                    for ai in live {
                        ensure!(s2.areas.get(ai) == Some(&st.areas[ai]), "snapshot", "area {} differs after loading: {:?} became {:?}", ai, st.areas[ai], s2.areas.get(ai));
                    }
                    invariants(&f2, &s2)?;
                    // continue with the loaded one: new blocks get new ids
                    f = f2;
                    st = s2;
                    res = Ok(());
                }
            }
            trail.push(op.clone());
            match &res {
                Ok(()) => {
                    oks += 1;
                    if st.areas != before.areas && op != "save and load" {
                        ensure!(f.generation() != gen, "generation", "{} did not change the generation", op);
                    }
                }
                Err(e) => {
                    errs += 1;
                    ensure!(st == before, "not-undone", "{} failed ({}) but changed the function from {:?} to {:?}", op, e, before, st);
                }
            }
            if let Err(mut x) = invariants(&f, &st) {
                x.msg = format!("after {}: {}", op, x.msg);
                return Err(x);
            }
        }
        obs.count("operations done", oks);
        obs.count("operations refused", errs);
        obs.nontrivial = oks > 5 && errs > 0;
        obs.fingerprint = format!("{:x}", hash64(&trail.join(";")));
        obs.sample = Some(json!({"operations": trail.iter().take(6).collect::<Vec<_>>()}));
        Ok(())
    });
}
