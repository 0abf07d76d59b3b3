//! C27: sound files load as recorded, the sample player plays them as they are.
use crate::bench::*;
use crate::core::*;
use crate::ensure;
use crate::eng::*;
use hexodsp::*;
use serde_json::json;
use std::path::PathBuf;
use std::sync::Arc;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fmt {
    U8,
    I16,
    I24,
    I32,
    F32,
}

struct Wav {
    bytes: Vec<u8>,
    rate: u32,
    chans: u16,
    fmt: Fmt,
    first: Vec<f32>,
}

fn chunk(o: &mut Vec<u8>, id: &[u8; 4], data: &[u8]) {
    o.extend_from_slice(id);
    o.extend_from_slice(&(data.len() as u32).to_le_bytes());
    o.extend_from_slice(data);
    if data.len() % 2 == 1 {
        o.push(0);
    }
}

fn gen_wav(rng: &mut Rng, fmt: Fmt, rate: u32, len: usize) -> Wav {
    let chans = *rng.pick(&[1u16, 1, 2, 2, 3, 4, 6, 8]);
    let bytes_per = match fmt {
        Fmt::U8 => 1,
        Fmt::I16 => 2,
        Fmt::I24 => 3,
        _ => 4,
    };
    let mut data = vec![];
    let mut first = vec![];
    for _ in 0..len {
        for c in 0..chans {
            let x: f32 = match rng.below(12) {
                0 => -1.0,
                1 => 0.99999,
                2 => 0.0,
                _ => rng.f(-1.0, 1.0),
            };
            let real = match fmt {
                Fmt::U8 => {
                    let v = (x * 128.0).round().max(-128.0).min(127.0) as i32;
                    data.push((v + 128) as u8);
                    v as f64 / 128.0
                }
                Fmt::I16 => {
                    let v = (x * 32768.0).round().max(-32768.0).min(32767.0) as i16;
                    data.extend_from_slice(&v.to_le_bytes());
                    v as f64 / 32768.0
                }
                Fmt::I24 => {
                    let v = (x as f64 * 8388608.0).round().max(-8388608.0).min(8388607.0) as i32;
                    data.extend_from_slice(&v.to_le_bytes()[0..3]);
                    v as f64 / 8388608.0
                }
                Fmt::I32 => {
                    let v = (x as f64 * 2147483648.0).round().max(-2147483648.0).min(2147483647.0) as i32;
                    data.extend_from_slice(&v.to_le_bytes());
                    v as f64 / 2147483648.0
                }
                Fmt::F32 => {
                    data.extend_from_slice(&x.to_le_bytes());
                    x as f64
                }
            };
            if c == 0 {
                first.push(real as f32);
            }
        }
    }
    let ext = rng.chance(0.25);
    let tag: u16 = if fmt == Fmt::F32 { 3 } else { 1 };
    let mut f = vec![];
    f.extend_from_slice(&(if ext { 0xFFFEu16 } else { tag }).to_le_bytes());
    f.extend_from_slice(&chans.to_le_bytes());
    f.extend_from_slice(&rate.to_le_bytes());
    f.extend_from_slice(&(rate.wrapping_mul(chans as u32 * bytes_per as u32)).to_le_bytes());
    f.extend_from_slice(&(chans * bytes_per as u16).to_le_bytes());
    f.extend_from_slice(&(bytes_per as u16 * 8).to_le_bytes());
    if ext {
        f.extend_from_slice(&22u16.to_le_bytes());
        f.extend_from_slice(&(bytes_per as u16 * 8).to_le_bytes());
        f.extend_from_slice(&((1u32 << chans) - 1).to_le_bytes());
        f.extend_from_slice(&tag.to_le_bytes());
        f.extend_from_slice(&[0, 0, 0, 0, 0x10, 0, 0x80, 0, 0, 0xaa, 0, 0x38, 0x9b, 0x71]);
    } else if fmt == Fmt::F32 {
        f.extend_from_slice(&0u16.to_le_bytes());
    }
    let mut body = b"WAVE".to_vec();
    chunk(&mut body, b"fmt ", &f);
    if rng.chance(0.3) {
        let n = rng.below(40);
        chunk(&mut body, b"LIST", &vec![b'x'; n * 2]);
    }
    chunk(&mut body, b"data", &data);
    if rng.chance(0.2) {
        chunk(&mut body, b"LIST", &[1, 2, 3, 4]);
    }
    let mut bytes = vec![];
    chunk(&mut bytes, b"RIFF", &body);
    Wav { bytes, rate, chans, fmt, first }
}

fn data_of(a: &SAtom) -> Option<Arc<Vec<f32>>> {
    match a {
        SAtom::AudioSample((_, Some(d))) => Some(d.clone()),
        _ => None,
    }
}

fn check_loaded(w: &Wav, d: &[f32]) -> Result<(), Fail> {
    ensure!(d.len() >= 1 && d[0] == w.rate as f32, "rate", "{:?}, {} channels, {} Hz: loaded with the sample rate {:?}", w.fmt, w.chans, w.rate, d.get(0));
    let n = w.first.len().min(60 * w.rate as usize);
    ensure!(d.len() == n + 1, "length", "{:?}, {} channels, {} Hz, {} samples: {} samples were loaded (the limit is 60 seconds)", w.fmt, w.chans, w.rate, w.first.len(), d.len() - 1);
    for i in 0..n {
        ensure!(
            (d[i + 1] - w.first[i]).abs() <= 1.0e-6,
            "samples",
            "{:?}, {} channels, {} Hz: sample {} of the first channel is {}, was recorded as {}",
            w.fmt,
            w.chans,
            w.rate,
            i,
            d[i + 1],
            w.first[i]
        );
    }
    Ok(())
}

fn herm(s: &[f32], i: i64, t: f64) -> f64 {
    let l = s.len() as i64;
    let g = |k: i64| s[k.rem_euclid(l) as usize] as f64;
    let (xm1, x0, x1, x2) = (g(i - 1), g(i), g(i + 1), g(i + 2));
    let c = (x1 - xm1) * 0.5;
    let v = x0 - x1;
    let w = c + v;
    let a = w + v + (x2 - x0) * 0.5;
    (((a * t) - (w + a)) * t + c) * t + x0
}

pub fn run(rep: &mut Report) {
    rep.rule = "files: one evaluation = one generated WAV file (8, 16, 24, 32 bit, float, up to 8 channels, plain or extensible header, further chunks), intact, cut off or with damaged bytes, loaded through the library or a node. player: one evaluation = one sample player with a random sample, start, length, direction, mode, triggers, speed and block sizes, every output sample compared with the sample".into();
    rep.assumptions = vec![
        "at most 60 seconds of a file are loaded".into(),
        "backwards the playback starts at the very first sample and goes on with the last one, as the existing tests have it".into(),
        "at other speeds the value between samples is the cubic interpolation of the neighbours".into(),
    ];
    let dir = PathBuf::from(std::env::var("VERIF_SCRATCH").unwrap_or_else(|_| std::env::temp_dir().to_string_lossy().to_string())).join(format!("wav-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    let d1 = dir.clone();
    let n = rep.opts.n(500, 12000);
    rep.run("files", n, move |rng, case, obs| {
        let fmt = *rng.pick(&[Fmt::U8, Fmt::I16, Fmt::I16, Fmt::I24, Fmt::I32, Fmt::F32, Fmt::F32]);
        let long = case % 25 == 3;
        let rate = if long { rng.range(8, 60) as u32 } else { *rng.pick(&[44100u32, 48000, 8000, 22050, 96000, 192000, 11025, 1234]) };
        let len = if long { 60 * rate as usize + rng.below(200) - 100 } else { *rng.pick(&[0usize, 1, 2, 3, 17, 100, 1000]) + rng.below(50) };
        let w = gen_wav(rng, fmt, rate, len);
        let path = d1.join(format!("s{}.wav", case));
        let p = path.to_string_lossy().to_string();
        let mut lib = SampleLibrary::new();
        let kind = case % 5;
        if kind < 3 {
            std::fs::write(&path, &w.bytes).expect("harness: write");
            let r = lib.load(&p).map(|a| a.clone());
            match r {
                Ok(a) => {
                    let Some(d) = data_of(&a) else { return fail("load", "no data in the loaded sample".to_string()) };
                    check_loaded(&w, &d)?;
                    // again
                    let b = lib.load(&p).map(|a| data_of(a));
                    ensure!(matches!(&b, Ok(Some(x)) if x[..] == d[..]), "load-again", "loading {} again gives {:?}", p, b.map(|x| x.map(|x| x.len())));
                    obs.count("intact files loaded", 1);
                    obs.count("samples compared", w.first.len() as u64);
                }
                Err(e) => return fail("load", format!("{:?}, {} channels, {} Hz, {} samples can't be loaded: {:?}", w.fmt, w.chans, w.rate, w.first.len(), e)),
            }
        } else {
            // damaged
            let mut b = w.bytes.clone();
            let what;
            if rng.chance(0.4) {
                let n = if rng.chance(0.5) { rng.below(b.len().min(80)) } else { rng.below(b.len()) };
                b.truncate(n);
                what = format!("cut off after {} bytes", n);
            } else if rng.chance(0.1) {
                let n = rng.below(300);
                b = (0..n).map(|_| rng.u64() as u8).collect();
                what = "random bytes".to_string();
            } else {
                let k = rng.range(1, 5);
                for _ in 0..k {
                    let i = if rng.chance(0.85) { rng.below(b.len().min(72)) } else { rng.below(b.len()) };
                    let bit = 1u8 << rng.below(8);
                    b[i] = *rng.pick(&[0u8, 0xFF, 1, 0x80, 0x7F, 3, b[i] ^ bit]);
                }
                what = format!("{} bytes changed", k);
            }
            std::fs::write(&path, &b).expect("harness: write");
            match lib.load(&p) {
                Ok(a) => {
                    let Some(d) = data_of(a) else { return fail("damaged", format!("{}: loaded without data", what)) };
                    // nothing out of thin air
                    ensure!(d.len() <= b.len() + 1, "damaged", "{}: {} samples from {} bytes", what, d.len(), b.len());
                    obs.count("damaged files that still loaded", 1);
                }
                Err(_) => {
                    obs.count("damaged files refused", 1);
                    // not remembered
                    std::fs::write(&path, &w.bytes).expect("harness: write");
                    match lib.load(&p) {
                        Ok(a) => check_loaded(&w, &data_of(a).unwrap_or_default())?,
                        Err(e) => return fail("after-error", format!("an intact file isn't loaded after a damaged one of this name: {:?}", e)),
                    }
                }
            }
        }
        obs.nontrivial = true;
        obs.fingerprint = format!("{:016x}", rng.u64());
        obs.sample = Some(json!({"format": format!("{:?}", w.fmt), "channels": w.chans, "rate": w.rate, "len": w.first.len(), "damaged": kind >= 3}));
        Ok(())
    });

    let d2 = dir.clone();
    let n = rep.opts.n(400, 10000);
    rep.run("player", n, move |rng, case, obs| {
        let sr = *rng.pick(&[44100.0f32, 48000.0, 96000.0, 22050.0]);
        let unit = case % 3 > 0;
        let srate = if unit { sr } else { *rng.pick(&[44100.0f32, 48000.0, 22050.0, 8000.0, 96000.0]) };
        let l = *rng.pick(&[3usize, 5, 20, 150, 1000]) + rng.below(40);
        let data: Vec<f32> = (0..l).map(|_| ((rng.f(-1.0, 1.0) * 32767.0) as i16) as f32 / 32768.0).collect();
        let mut v = vec![srate];
        v.extend_from_slice(&data);
        let node = NodeId::Sampl(rng.below(4) as u8);
        let from_file = unit && rng.chance(0.2);
        let atom = if from_file {
            let path = d2.join(format!("p{}.wav", case));
            let mut w = Wav { bytes: vec![], rate: srate as u32, chans: 1, fmt: Fmt::I16, first: vec![] };
            let mut raw = vec![];
            for x in data.iter() {
                raw.extend_from_slice(&((x * 32768.0) as i16).to_le_bytes());
            }
            let mut f = vec![1, 0, 1, 0];
            f.extend_from_slice(&w.rate.to_le_bytes());
            f.extend_from_slice(&(w.rate * 2).to_le_bytes());
            f.extend_from_slice(&[2, 0, 16, 0]);
            let mut body = b"WAVE".to_vec();
            chunk(&mut body, b"fmt ", &f);
            chunk(&mut body, b"data", &raw);
            chunk(&mut w.bytes, b"RIFF", &body);
            std::fs::write(&path, &w.bytes).expect("harness: write");
            SAtom::audio_unloaded(&path.to_string_lossy())
        } else {
            SAtom::audio("memory", Arc::new(v))
        };
        let (rev, once) = (rng.chance(0.4), rng.chance(0.5));
        let offs = if rng.chance(0.4) { rng.f(0.0, 1.0) } else { 0.0 };
        let len = if rng.chance(0.4) { rng.f(0.0, 1.0) } else { 1.0 };
        let octave = if unit { 0.0 } else { rng.f(-0.2, 0.2) };
        let frames = if unit { rng.range(500, 6000) } else { rng.range(500, 3000) } as usize;
        let longest = *rng.pick(&[30usize, 400, 3000]);
        let trig = if once || rng.chance(0.5) { Some(gates(rng, frames, 1, longest)) } else { None };
        let mut sigs: Vec<(&str, Vec<f32>)> = trig.iter().map(|t| ("trig", t.clone())).collect();
        // start and length moved while playing
        let mut steps = |rng: &mut Rng| {
            let mut v = vec![];
            while v.len() < frames {
                let x = if rng.chance(0.2) { *rng.pick(&[0.0f32, 1.0, 0.5]) } else { rng.f(-0.1, 1.1) };
                v.extend(std::iter::repeat(x).take(rng.range(1, 600) as usize));
            }
            v.truncate(frames);
            v
        };
        if unit && rng.chance(0.4) {
            sigs.push(("offs", steps(rng)));
        }
        if unit && rng.chance(0.4) {
            sigs.push(("len", steps(rng)));
        }
        let moved: Vec<&str> = sigs.iter().map(|x| x.0).filter(|x| *x != "trig").collect();
        let s = Setup {
            node,
            sr,
            knobs: vec![("offs", offs), ("len", len), ("freq", octave), ("trig", 0.0)],
            atoms: vec![("pmode", once as i64), ("dir", rev as i64), ("dclick", 0)],
            sigs,
            outs: vec!["sig"],
            edges: vec![],
            blocks: rand_blocks(rng),
            raw: vec![("sample", atom)],
        };
        let mut b = Bench::new(&s)?;
        if let Some(e) = b.e.m.pop_error() {
            return fail("load", format!("the sample can't be loaded: {}", e));
        }
        b.run(frames);
        let out = b.out(0);
        let tg = trig.as_ref().map(|_| b.inp("trig"));
        let offs_sig = moved.contains(&"offs").then(|| b.inp("offs"));
        let len_sig = moved.contains(&"len").then(|| b.inp("len"));
        let slice_at = |i: usize| {
            let o = offs_sig.as_ref().map(|s| s[i]).unwrap_or(offs).abs().min(0.999999);
            let n = len_sig.as_ref().map(|s| s[i]).unwrap_or(len).abs().min(1.0);
            let start = ((l as f64 * o as f64).floor() as usize).min(l);
            (start, ((l as f64 * n as f64).round() as usize).min(l - start))
        };
        let (start, cnt) = slice_at(0);
        if !moved.is_empty() {
            obs.count("playbacks with a moving start or length", 1);
        }
        let fq = 440.0 * 2f64.powf(octave as f64 * 10.0);
        let inc = if unit { 1.0 } else { srate as f64 / sr as f64 * (fq / 440.0) };
        let mut tr = Trig { on: false };
        let desc = format!("{}, sample of {} at {} Hz, engine at {} Hz, from {} on {} samples, {}, {}, speed {}", node, l, srate, sr, start, cnt, if once { "once" } else { "loop" }, if rev { "backwards" } else { "forwards" }, inc);
        // position since the last (re)start, None: not playing
        let mut pos: Option<f64> = if once { None } else { Some(0.0) };
        let (mut heard, mut trigs, mut ends) = (0u64, 0u64, 0u64);
        let mut grace = 0;
        for i in 0..frames {
            if let Some(t) = &tg {
                if tr.next(t[i]) {
                    pos = Some(0.0);
                    trigs += 1;
                    grace = 0;
                }
            }
            let (start, cnt) = slice_at(i);
            let sl = &data[start..start + cnt];
            let got = out[i] as f64;
            let mut exp = 0.0;
            let mut tol = 1e-6;
            if let Some(p) = pos {
                if cnt == 0 {
                    if once {
                        pos = None;
                    }
                } else {
                    let q = if once { p } else { p.rem_euclid(cnt as f64) };
                    // the end of a resampled slice can be off by a rounding
                    if once && !unit && (p - cnt as f64).abs() < 1e-2 {
                        grace = 1;
                    }
                    if once && p >= cnt as f64 - 1e-6 {
                        // (cut off by a shortened slice: ends within a sample)
                        if p >= cnt as f64 + 0.5 || !moved.is_empty() {
                            grace = 1;
                        }
                        pos = None;
                        ends += 1;
                    } else {
                        let k = q.floor();
                        exp = if rev { herm(sl, cnt as i64 - 1 - k as i64, 1.0 - (q - k)) } else { herm(sl, k as i64, q - k) };
                        tol = if unit { 1e-6 } else { 2e-2 };
                        heard += 1;
                        pos = Some(q + inc);
                        if unit && once && q + inc >= cnt as f64 {
                            pos = None;
                            ends += 1;
                        }
                    }
                }
            }
            if grace > 0 {
                grace -= 1;
                if got.abs() <= 1.3 {
                    continue;
                }
            }
            if !((got - exp).abs() <= tol) {
                return fail("player", format!("{}: sample {} is {}, expected {} (position {:?}, {} triggers so far)", desc, i, got, exp, pos, trigs));
            }
        }
        // unloaded: silence
        if rng.chance(0.3) {
            let p = node.inp_param("sample").unwrap();
            let bad = rng.chance(0.5);
            b.e.m.set_param(p, SAtom::audio_unloaded(if bad { "/nonexistent/sample.wav" } else { "" }));
            if bad {
                ensure!(b.e.m.pop_error().is_some(), "error", "a sample that doesn't exist is not reported");
            }
            b.run(MAXB * 2);
            let o = b.out(0);
            ensure!(o[o.len() - MAXB..].iter().all(|x| *x == 0.0), "unloaded", "{}: without a sample something is heard", desc);
        }
        obs.nontrivial = heard > 50;
        obs.fingerprint = format!("{:016x}", rng.u64());
        obs.count("samples played and compared", heard);
        obs.count("triggers", trigs);
        obs.count("playbacks that ended", ends);
        obs.sample = Some(json!(desc));
        Ok(())
    });
    let _ = std::fs::remove_dir_all(&dir);
}
