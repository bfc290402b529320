use crate::alloc_track::{BAD, LIVE};
use crate::chk;
use crate::core::*;
use essay_tensor::init;
use essay_tensor::io::{decode_wav, read_file};
use essay_tensor::random::{Rand32, Rand64};
use essay_tensor::signal::{rfft_norm, FftOpt};
use essay_tensor::stats::{histogram, histogram2d};
use essay_tensor::tensor::{Tensor, Type};
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::atomic::Ordering;

// ------------------------------------------------------------------ C19
macro_rules! arrs { ($c:ident, $base:ident, $k:literal $m:literal $n:literal) => { {
    let e3: [[[i64; $n]; $m]; $k] = std::array::from_fn(|a| std::array::from_fn(|b| std::array::from_fn(|d| $base + ((a * $m + b) * $n + d) as i64)));
    $c.case(|| format!("arrays {} {} {}", $k, $m, $n), || {
        let flat: Vec<i64> = e3.iter().flatten().flatten().cloned().collect();
        same("[[[T;n];m];k]", &Tensor::from(e3), &M::new(vec![$k, $m, $n], flat.clone()))?;
        for a in 0..$k { let f: Vec<i64> = e3[a].iter().flatten().cloned().collect();
            same("[[T;n];m]", &Tensor::from(e3[a]), &M::new(vec![$m, $n], f.clone()))?;
            same("&[[T;n]]", &Tensor::from(e3[a].as_slice()), &M::new(vec![$m, $n], f.clone()))?;
            let v: Vec<[i64; $n]> = e3[a].to_vec();
            same("&Vec<[T;n]>", &Tensor::from(&v), &M::new(vec![$m, $n], f.clone()))?;
            same("Vec<[T;n]>", &Tensor::from(v), &M::new(vec![$m, $n], f))?;
            for b in 0..$m { same("[T;n]", &Tensor::from(e3[a][b]), &M::new(vec![$n], e3[a][b].to_vec()))?; }
        }
        let vv: Vec<Vec<[i64; $n]>> = e3.iter().map(|r| r.to_vec()).collect();
        if $k > 0 { same("&Vec<Vec<[T;n]>>", &Tensor::from(&vv), &M::new(vec![$k, $m, $n], flat.clone()))?; }
        let e4: [[[[i64; $n]; $m]; $k]; 2] = [e3, e3.map(|x| x.map(|y| y.map(|z| z + 1000)))];
        let f4: Vec<i64> = e4.iter().flatten().flatten().flatten().cloned().collect();
        same("[[[[T;n];m];k];2]", &Tensor::from(e4), &M::new(vec![2, $k, $m, $n], f4))
    });
} } }
fn nest<T: Clone>(m: &M<T>) -> (Vec<Vec<Vec<Vec<Vec<T>>>>>,) {
    let d = &m.d;
    let g = |a: usize, b: usize, c: usize, e: usize, f: usize| m.e[(((a * d[1] + b) * d[2] + c) * d[3] + e) * d[4] + f].clone();
    ((0..d[0]).map(|a| (0..d[1]).map(|b| (0..d[2]).map(|c| (0..d[3]).map(|e| (0..d[4]).map(|f| g(a, b, c, e, f)).collect()).collect()).collect()).collect()).collect(),)
}
pub fn c19(c: &mut Ctx) {
    let base = 100i64;
    arrs!(c, base, 1 1 1); arrs!(c, base, 2 3 4); arrs!(c, base, 4 3 2); arrs!(c, base, 1 4 1); arrs!(c, base, 3 1 2); arrs!(c, base, 2 2 1); arrs!(c, base, 3 7 5); arrs!(c, base, 1 1 9); arrs!(c, base, 9 1 1);
    arrs!(c, base, 2 3 0); arrs!(c, base, 2 0 3);
    c.case(|| "scalars and strings".into(), || {
        same("T", &Tensor::from(3i32), &M::new(vec![], vec![3]))?;
        same("Some", &Tensor::from(Some(3i32)), &M::new(vec![], vec![3]))?;
        same("None", &Tensor::<i32>::from(None), &M::new(vec![0], vec![]))?;
        same("&str", &Tensor::<String>::from("héllo"), &M::new(vec![], vec!["héllo".to_string()]))?;
        same("String", &Tensor::from("x".to_string()), &M::new(vec![], vec!["x".to_string()]))?;
        same("Vec<&str>", &Tensor::<String>::from(vec!["a", "", "c"]), &M::new(vec![3], vec!["a".into(), "".into(), "c".into()]))?;
        same("[&str]", &Tensor::<String>::from(["a", "b", "c", "d"]), &M::new(vec![4], vec!["a".into(), "b".into(), "c".into(), "d".into()]))?;
        let t = Tensor::from_vec(vec![1i32, 2, 3, 4], [2, 2]);
        same("&Tensor", &Tensor::from(&t), &M::new(vec![2, 2], vec![1, 2, 3, 4]))?;
        let q: Tensor<i32> = essay_tensor::ten![[1, 2], [3, 4]];
        same("ten!", &q, &M::new(vec![2, 2], vec![1, 2, 3, 4]))?;
        let q: Tensor<i32> = essay_tensor::ten![1, 2, 3];
        same("ten!", &q, &M::new(vec![3], vec![1, 2, 3]))?;
        let q: Tensor<i32> = essay_tensor::ten![[[1, 2]], [[3, 4]]];
        same("ten!", &q, &M::new(vec![2, 1, 2], vec![1, 2, 3, 4]))
    });
    let nmax = if c.thorough { 100000 } else { 5000 };
    for it in 0..nmax {
        if !c.left() { break; }
        let d5: Vec<usize> = (0..5).map(|_| c.rng.range(1, if it % 7 == 0 { 6 } else { 3 })).collect();
        let last0 = c.rng.below(12) == 0;
        let mut d5 = d5; if last0 { d5[4] = 0; }
        if it % 50 == 0 && !c.lits.is_empty() { let l = *c.rng.pick(&c.lits); if l < 2000 { d5 = vec![1, 1, 2, l, 1]; d5.rotate_left(it / 50 % 5); } }
        let m = strs(&d5, "s");
        let v5 = nest(&m).0;
        c.case(|| format!("nested vectors {:?}", d5), || {
            same("v5", &Tensor::<String>::from(&v5), &m)?;
            same("v4", &Tensor::<String>::from(&v5[0]), &M::new(d5[1..].to_vec(), m.e[..prod(&d5[1..])].to_vec()))?;
            same("v3", &Tensor::<String>::from(&v5[0][0]), &M::new(d5[2..].to_vec(), m.e[..prod(&d5[2..])].to_vec()))?;
            same("v2", &Tensor::<String>::from(&v5[0][0][0]), &M::new(d5[3..].to_vec(), m.e[..prod(&d5[3..])].to_vec()))?;
            let r = &v5[d5[0] - 1][d5[1] - 1][d5[2] - 1][d5[3] - 1];
            let w = M::new(vec![d5[4]], r.clone());
            same("&Vec", &Tensor::<String>::from(r), &w)?;
            same("Vec", &Tensor::<String>::from(r.clone()), &w)?;
            same("&[T]", &Tensor::<String>::from(r.as_slice()), &w)?;
            same("iter T", &r.iter().cloned().collect::<Tensor<String>>(), &w)?;
            same("iter &T", &r.iter().collect::<Tensor<String>>(), &w)
        });
        // ragged: lengthen or shorten one list below the top
        let lvl = 1 + c.rng.below(4);
        let path: Vec<usize> = (0..4).map(|i| c.rng.below(d5[i])).collect();
        let grow = c.rng.below(2) == 0;
        let mut r5 = v5.clone();
        macro_rules! edit { ($v:expr) => { { let v = &mut $v; if grow || v.is_empty() { if let Some(x) = v.last().cloned() { v.push(x) } else { continue } } else { v.pop(); } } } }
        match lvl {
            1 => { if d5[0] < 2 { continue } edit!(r5[path[0]]) }
            2 => { if d5[0] * d5[1] < 2 { continue } edit!(r5[path[0]][path[1]]) }
            3 => { if d5[0] * d5[1] * d5[2] < 2 { continue } edit!(r5[path[0]][path[1]][path[2]]) }
            _ => { if d5[0] * d5[1] * d5[2] * d5[3] < 2 { continue } edit!(r5[path[0]][path[1]][path[2]][path[3]]) }
        }
        // ragged with the right total: an element moved from one list to another of the same level
        let other: Vec<usize> = (0..4).map(|i| c.rng.below(d5[i])).collect();
        if it % 2 == 0 && other[..lvl] != path[..lvl] {
            let (p, o) = (&path, &other);
            macro_rules! mv { ($($i:literal)*) => { { let src = &mut v5.clone(); if let Some(x) = src$([p[$i]])*.pop() { src$([o[$i]])*.push(x); } src.clone() } } }
            let w5 = match lvl { 1 => mv!(0), 2 => mv!(0 1), 3 => mv!(0 1 2), _ => mv!(0 1 2 3) };
            if w5 != v5 && d5[lvl] > 0 {
                c.case(|| format!("ragged {:?} level {}: an element moved from the list at {:?} to that at {:?}", d5, lvl, &p[..lvl], &o[..lvl]), || {
                    must_panic("ragged v5", || Tensor::<String>::from(&w5).shape().as_vec())?;
                    let q = |k: usize| lvl > k && p[..k] == o[..k];
                    if q(1) { must_panic("ragged v4", || Tensor::<String>::from(&w5[p[0]]).shape().as_vec())?; }
                    if q(2) { must_panic("ragged v3", || Tensor::<String>::from(&w5[p[0]][p[1]]).shape().as_vec())?; }
                    if q(3) { must_panic("ragged v2", || Tensor::<String>::from(&w5[p[0]][p[1]][p[2]]).shape().as_vec())?; }
                    Ok(())
                });
            }
        }
        c.case(|| format!("ragged {:?} level {} at {:?} grow {}", d5, lvl, path, grow), || {
            must_panic("ragged v5", || Tensor::<String>::from(&r5).shape().as_vec())?;
            if lvl >= 2 && d5[1..lvl].iter().product::<usize>() > 1 { must_panic("ragged v4", || Tensor::<String>::from(&r5[path[0]]).shape().as_vec())?; }
            if lvl >= 3 && d5[2..lvl].iter().product::<usize>() > 1 { must_panic("ragged v3", || Tensor::<String>::from(&r5[path[0]][path[1]]).shape().as_vec())?; }
            if lvl >= 4 && d5[3] > 1 { must_panic("ragged v2", || Tensor::<String>::from(&r5[path[0]][path[1]][path[2]]).shape().as_vec())?; }
            Ok(())
        });
        let ra: Vec<Vec<[i32; 2]>> = (0..d5[0]).map(|a| vec![[1, 2]; d5[1] + usize::from(a == path[0])]).collect();
        let rb: Vec<Vec<[i32; 2]>> = (0..d5[0]).map(|a| vec![[1, 2]; d5[1] + usize::from(a == 0) - usize::from(a + 1 == d5[0])]).collect();
        if d5[0] > 1 { c.case(|| format!("ragged Vec<Vec<[T;2]>> with the right total {:?}", d5), || must_panic("ragged", || Tensor::from(&rb).shape().as_vec())); }
        if d5[0] > 1 { c.case(|| format!("ragged Vec<Vec<[T;2]>> {:?}", d5), || must_panic("ragged", || Tensor::from(&ra).shape().as_vec())); }
    }
}

// ------------------------------------------------------------------ C20
struct R32(u64);
impl R32 {
    fn next(&mut self) -> u32 { self.0 = self.0.wrapping_mul(0x4822581B885237D5).wrapping_add(0x6ED29E641A5F9CE5); let mut r = (self.0 >> 32) as u32; r ^= r >> 16; r.wrapping_mul(0x8A53002D) }
    fn text(s: &str) -> Self { let mut x = 0u64; for b in s.bytes() { x = x.wrapping_mul(0x4822581B885237D5).wrapping_add(0x6ED29E641A5F9CE5).wrapping_add(b as u64) } R32(x) }
    fn normal(&mut self) -> f32 { let a = self.next() as f32 / u32::MAX as f32; let b = self.next() as f32 / u32::MAX as f32; (-2. * a.ln()).sqrt() * (std::f32::consts::TAU * b).cos() }
}
struct R64(u128);
const A64: u128 = 0xACAEAEFB4BF4A6A78B6E278B66409E7D;
const C64: u128 = 0x351402A3544A25016AEE39FBBADBB38D;
impl R64 {
    fn next(&mut self) -> u64 { self.0 = self.0.wrapping_mul(A64).wrapping_add(C64); let mut r = (self.0 >> 32) as u64; r ^= r >> 32; r.wrapping_mul(0xA18E4C689403AE2D) }
    fn text(s: &str) -> Self { let mut x = 0u128; for b in s.bytes() { x = x.wrapping_mul(A64).wrapping_add(C64).wrapping_add(b as u128) } R64(x) }
}
pub fn c20(c: &mut Ctx) {
    let nmax = if c.thorough { 400000 } else { 40000 };
    let mut seeds: Vec<u64> = vec![0, 1, 2, 42, u64::MAX, u64::MAX - 1, 1 << 32, 1 << 63];
    for l in &c.lits { seeds.push(*l as u64); }
    for i in 0..nmax {
        if !c.until(0.8) { break; }
        let s = if i < seeds.len() { seeds[i] } else { c.rng.next() >> c.rng.below(60) };
        let hi = c.rng.next() as u128;
        let s64: u128 = if i % 3 == 0 { s as u128 } else { (hi << 64) | s as u128 };
        c.case(|| format!("seeds {} {}", s, s64), || {
            let (mut a, mut b, mut w) = (Rand32(s), Rand32(s), R32(s));
            let (mut a64, mut b64, mut w64) = (Rand64(s64), Rand64(s64), R64(s64));
            for k in 0..12 {
                let x = w.next();
                eq("Rand32::next", a.next(), x)?;
                let y = w64.next();
                eq("Rand64::next", a64.next(), y)?;
                if k % 2 == 0 { let u = b.next_uniform(); chk!((0. ..=1.).contains(&u), "uniform {} outside [0,1]", u); eq("Rand32 uniform", u, x as f32 / u32::MAX as f32)?;
                    let u = b64.next_uniform(); chk!((0. ..=1.).contains(&u), "uniform64 {} outside [0,1]", u); eq("Rand64 uniform", u, y as f64 / u64::MAX as f64)?; }
                else { eq("Rand32::next again", b.next(), x)?; eq("Rand64::next again", b64.next(), y)?; }
            }
            eq("state", a.0, w.0)?; eq("state64", a64.0, w64.0)
        });
        let n = c.rng.below(12);
        let txt: String = (0..n).map(|_| *c.rng.pick(&['a', 'b', 'é', ' ', '\0', '漢', 'z', '0'])).collect();
        c.case(|| format!("text seed {:?}", txt), || {
            let (mut a, mut w) = (Rand32::from(txt.as_str()), R32::text(&txt));
            let (mut a64, mut w64) = (Rand64::from(txt.as_str()), R64::text(&txt));
            eq("state", a.0, w.0)?; eq("state64", a64.0, w64.0)?;
            for _ in 0..4 { eq("Rand32", a.next(), w.next())?; eq("Rand64", a64.next(), w64.next())?; }
            eq("normal32", Rand32::from(txt.as_str()).next_normal(), R32::text(&txt).normal())
        });
    }
    let mut k = 0;
    while c.left() && c.evals < nmax as u64 * 3 {
        let mut d = c.rshape(0, 4, 300);
        if k < seeds.len() && prod(&d) == 0 { d = vec![3, 2]; }
        let seed = if k < seeds.len() { seeds[k] } else { c.rng.next() >> c.rng.below(60) }; k += 1;
        let (mean, sd) = ((c.rng.f() * 64.).round() / 4. - 8., (c.rng.f() * 32.).round() / 4.);
        c.case(|| format!("random_normal {:?} seed {} mean {} std {}", d, seed, mean, sd), || {
            let go = |mean: f32, sd: f32| { let mut w = R32(seed); M { d: d.clone(), e: (0..prod(&d)).map(|_| mean + w.normal() * sd).collect::<Vec<f32>>() } };
            let o = init::Normal::mean(mean).with_std(sd).with_seed(seed);
            same("mean.with_std.with_seed", &init::random_normal(d.as_slice(), o), &go(mean, sd))?;
            same("again", &Tensor::random_normal(d.as_slice(), o), &go(mean, sd))?;
            same("std.with_mean.with_seed", &init::random_normal(d.as_slice(), init::Normal::std(sd).with_mean(mean).with_seed(seed)), &go(mean, sd))?;
            same("seed.with_std.with_mean", &init::random_normal(d.as_slice(), init::Normal::seed(seed).with_std(sd).with_mean(mean)), &go(mean, sd))?;
            same("pair", &init::random_normal(d.as_slice(), init::Normal::from((mean, sd)).with_seed(seed)), &go(mean, sd))?;
            same("Some(seed)", &init::random_normal(d.as_slice(), Some(seed)), &go(0., 1.))?;
            same("seed", &init::random_normal(d.as_slice(), init::Normal::seed(seed)), &go(0., 1.))?;
            // random_uniform: the same draws, shifted by min and scaled by max - min
            let (lo, hi) = (mean, sd);
            let un = |lo: f32, hi: f32| { let mut w = R32(seed); M { d: d.clone(), e: (0..prod(&d)).map(|_| lo + w.normal() * (hi - lo).max(0.)).collect::<Vec<f32>>() } };
            use init::Uniform as U;
            same("uniform min.with_max.with_seed", &init::random_uniform(d.as_slice(), U::min(lo).with_max(hi).with_seed(seed)), &un(lo, hi))?;
            same("uniform seed.with_min.with_max", &Tensor::random_uniform(d.as_slice(), U::seed(seed).with_min(lo).with_max(hi)), &un(lo, hi))?;
            same("uniform max.with_seed", &init::random_uniform(d.as_slice(), U::max(hi).with_seed(seed)), &un(0., hi))?;
            same("uniform min.with_seed", &init::random_uniform(d.as_slice(), U::min(lo).with_seed(seed)), &un(lo, 1.))?;
            same("uniform pair", &init::random_uniform(d.as_slice(), U::from((lo, hi)).with_seed(seed)), &un(lo, hi))?;
            same("uniform default", &init::random_uniform(d.as_slice(), U::default().with_seed(seed)), &un(0., 1.))?;
            same("uniform Some(seed)", &init::random_uniform(d.as_slice(), Some(seed)), &un(0., 1.))
        });
    }
}

// ------------------------------------------------------------------ C21
pub fn c21(c: &mut Ctx) {
    let nmax = if c.thorough { 300000 } else { 20000 };
    for it in 0..nmax {
        if !c.left() { break; }
        // exactly representable: bin width is a power of two, samples are multiples of a quarter of it
        let exact = it % 2 == 0;
        let n = if it % 40 == 0 { *c.rng.pick(&c.lits) % 4000 + 1 } else { c.rng.range(1, 40) };
        let bins = if exact { *c.rng.pick(&[1usize, 2, 4, 8, 16]) } else if c.rng.below(10) == 0 { *c.rng.pick(&c.lits) % 300 + 1 } else { c.rng.range(1, 20) };
        let w = *c.rng.pick(&[0.25f32, 1., 2., 8., 0.25, 1., 1. / (1u64 << 40) as f32, (1u64 << 50) as f32]);
        let sc = *c.rng.pick(&[37.7f32, 37.7, 37.7, 3.1e-9, 2.3e-20, 1.7e15]);
        let lo = (c.rng.below(64) as f32 - 32.) * w;
        let col = |c: &mut Ctx| -> Vec<f32> {
            let mut v: Vec<f32> = (0..n).map(|_| if exact { lo + w * (c.rng.below(bins * 4 + 1) as f32) / 4. } else { (c.rng.f() - 0.3) * sc }).collect();
            if exact && n >= 2 { let (i, j) = (c.rng.below(n), c.rng.below(n)); v[i] = lo; if i != j { v[j] = lo + w * bins as f32; } }
            if c.rng.below(30) == 0 { let x = v[0]; for y in v.iter_mut() { *y = x; } }
            v
        };
        let x = col(c); let y = col(c);
        let v = c.rng.below(3);
        let mm = |z: &[f32]| (z.iter().cloned().fold(f32::INFINITY, f32::min), z.iter().cloned().fold(f32::NEG_INFINITY, f32::max));
        // acceptable bins of a sample: every bin whose interval contains it up to rounding
        let okbins = move |s: f32, min: f32, max: f32| -> (usize, usize) {
            if min == max { return (0, bins - 1); }
            let q = (s as f64 - min as f64) / ((max as f64 - min as f64) / bins as f64);
            if exact && max - min == w * bins as f32 { let b = (q.floor() as usize).min(bins - 1); return (b, b); }
            let e = 1e-5 * (q.abs() + 1.) + 1e-5 * (min.abs().max(max.abs()) / (max - min)) as f64 * bins as f64;
            (((q - e).floor().max(0.) as usize).min(bins - 1), ((q + e).floor().max(0.) as usize).min(bins - 1))
        };
        let edges = move |what: &str, t: &Tensor, min: f32, max: f32| -> Result<(), String> {
            eq(&format!("{} edges", what), t.shape().as_vec(), vec![bins + 1])?;
            eq(&format!("{} first edge", what), t.as_slice()[0], min)?;
            for k in 0..=bins { let wv = min as f64 + k as f64 * (max as f64 - min as f64) / bins as f64;
                chk!((t.as_slice()[k] as f64 - wv).abs() <= 4e-6 * (min.abs() + max.abs()) as f64 + 1e-30, "{} edge {}: got {} want {}", what, k, t.as_slice()[k], wv); }
            Ok(())
        };
        c.case(|| format!("histogram bins {} of {:?} view {}", bins, x, v), || {
            let m = M::new(vec![n], x.clone());
            let (h, e) = histogram(&mk(&m, v, 1e7), bins);
            let (min, max) = mm(&x);
            edges("histogram", &e, min, max)?;
            eq("counts shape", h.shape().as_vec(), vec![bins])?;
            let cnt = h.as_slice();
            eq("total", cnt.iter().map(|v| *v as f64).sum::<f64>(), n as f64)?;
            let (mut lo_c, mut hi_c) = (vec![0usize; bins], vec![0usize; bins]);
            for s in &x { let (a, b) = okbins(*s, min, max); for k in a..=b { hi_c[k] += 1; } if a == b { lo_c[a] += 1; } }
            if min != max { for k in 0..bins { chk!(cnt[k] as usize >= lo_c[k] && cnt[k] as usize <= hi_c[k] && cnt[k].fract() == 0., "bin {}: count {} outside [{}, {}]", k, cnt[k], lo_c[k], hi_c[k]); } }
            else { let nzb = cnt.iter().filter(|v| **v != 0.).count(); eq("one bin holds all equal samples", nzb, 1)?; }
            Ok(())
        });
        c.case(|| format!("histogram2d bins {} of x {:?} y {:?} view {}", bins, x, y, v), || {
            let m = M::new(vec![n, 2], x.iter().zip(&y).flat_map(|(a, b)| [*a, *b]).collect());
            let (h, ex, ey) = histogram2d(&mk(&m, v, 1e7), bins);
            let ((nx, xx), (ny, xy)) = (mm(&x), mm(&y));
            edges("x", &ex, nx, xx)?; edges("y", &ey, ny, xy)?;
            eq("counts shape", h.shape().as_vec(), vec![bins, bins])?;
            let cnt = h.as_slice();
            eq("total", cnt.iter().map(|v| *v as f64).sum::<f64>(), n as f64)?;
            let (mut lo_c, mut hi_c) = (vec![0usize; bins * bins], vec![0usize; bins * bins]);
            for i in 0..n { let (a, b) = okbins(x[i], nx, xx); let (p, q) = okbins(y[i], ny, xy);
                for r in p..=q { for k in a..=b { hi_c[r * bins + k] += 1; } } if a == b && p == q { lo_c[p * bins + a] += 1; } }
            for k in 0..bins * bins { chk!(cnt[k] as usize >= lo_c[k] && cnt[k] as usize <= hi_c[k] && cnt[k].fract() == 0., "cell row {} col {}: count {} outside [{}, {}]", k / bins, k % bins, cnt[k], lo_c[k], hi_c[k]); }
            Ok(())
        });
    }
}

// ------------------------------------------------------------------ C22
fn wav(ch: u16, rate: u32, data: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    v.extend(b"RIFF"); v.extend((36 + data.len() as u32).to_le_bytes()); v.extend(b"WAVE"); v.extend(b"fmt "); v.extend(16u32.to_le_bytes());
    v.extend(1u16.to_le_bytes()); v.extend(ch.to_le_bytes()); v.extend(rate.to_le_bytes()); v.extend((rate.wrapping_mul(ch as u32 * 2)).to_le_bytes()); v.extend((ch.wrapping_mul(2)).to_le_bytes()); v.extend(16u16.to_le_bytes());
    v.extend(b"data"); v.extend((data.len() as u32).to_le_bytes()); v.extend(data); v
}
pub fn c22(c: &mut Ctx) {
    let nmax = if c.thorough { 300000 } else { 25000 };
    for it in 0..nmax {
        if !c.left() { break; }
        let ch = if it % 20 == 0 { c.rng.range(1, 600) } else { c.rng.range(1, 6) };
        let fr = if it % 30 == 0 { let l = *c.rng.pick(&c.lits); if l * ch < 40000 { l } else { 3 } } else { c.rng.below(30) };
        let rate = if c.rng.below(2) == 0 { 44100 } else { c.rng.next() as u32 };
        let samples: Vec<i16> = (0..ch * fr).map(|_| match c.rng.below(6) { 0 => i16::MIN, 1 => i16::MAX, 2 => -1, 3 => 255, _ => c.rng.next() as i16 }).collect();
        let data: Vec<u8> = samples.iter().flat_map(|s| s.to_le_bytes()).collect();
        let mut b = wav(ch as u16, rate, &data);
        // bytes after the data chunk (another chunk), counted in the RIFF length
        if c.rng.below(4) == 0 { let k = c.rng.below(20); for _ in 0..k { b.push(c.rng.next() as u8); } let l = (b.len() - 8) as u32; b[4..8].copy_from_slice(&l.to_le_bytes()); }
        let v = c.rng.below(3);
        let h = b.iter().take(60).cloned().collect::<Vec<u8>>();
        c.case(|| format!("wav {} bytes, {} channels, {} frames, rate {} view {} head {:?}", b.len(), ch, fr, rate, v, h), || {
            let (t, r) = decode_wav(&mk(&M::new(vec![b.len()], b.clone()), v, 0xEEu8));
            same("samples", &t, &M::new(vec![fr, ch], samples.iter().map(|s| *s as f32 / 32768.).collect()))?;
            same("rate", &r, &M::new(vec![], vec![rate as usize]))
        });
        // byte rate and block align are ignored
        let mut b2 = b.clone(); for i in 28..34 { b2[i] = c.rng.next() as u8; }
        c.case(|| format!("wav with odd rate fields {:?}", &b2[..44]), || { let (t, _) = decode_wav(b2.clone()); eq("samples", t.size(), fr * ch) });
        // malformed
        let kind = c.rng.below(9);
        let mut m = b.clone();
        match kind {
            0 => { let i = c.rng.below(4); m[i] ^= 1 << c.rng.below(8); }
            1 => if c.rng.below(2) == 0 { let i = 4 + c.rng.below(4); m[i] ^= 1 << c.rng.below(8); } else {
                // a length off by a little, or one that counts the header differently
                let l = (m.len() - 8) as i64; let l2 = l + *c.rng.pick(&[1, -1, 2, -2, 3, 8, -8, 4, -4, 36, -36, 44, -l]); if l2 == l { continue; }
                m[4..8].copy_from_slice(&(l2 as u32).to_le_bytes()); }
            2 => { let i = 8 + c.rng.below(4); m[i] ^= 1 << c.rng.below(8); }
            3 => { let i = 12 + c.rng.below(10); m[i] ^= 1 << c.rng.below(8); }
            4 => { let i = 34 + c.rng.below(2); m[i] ^= 1 << c.rng.below(8); }
            5 => { let i = 36 + c.rng.below(4); m[i] ^= 1 << c.rng.below(8); }
            6 => { let l = (m.len() - 44) as u32 + 2 + c.rng.below(5) as u32; m[40..44].copy_from_slice(&l.to_le_bytes()); }
            7 => { m[22] = 0; m[23] = 0; }
            _ => { let k = c.rng.below(m.len()); m.truncate(k); if k >= 8 && c.rng.below(2) == 0 { let l = (k - 8) as u32; m[4..8].copy_from_slice(&l.to_le_bytes()); if k >= 44 + data.len() { continue; } } else if k == b.len() { continue; } }
        }
        c.case(|| format!("malformed wav kind {} bytes {:?} (of {})", kind, m.iter().take(60).collect::<Vec<_>>(), m.len()), || must_panic("decode_wav", || decode_wav(m.clone()).0.shape().as_vec()));
        // data length not a whole number of frames
        if ch > 1 && fr > 0 { let extra = 2 * (1 + c.rng.below(ch - 1)); let mut d2 = data.clone(); d2.extend(vec![7u8; extra]); let w2 = wav(ch as u16, rate, &d2);
            c.case(|| format!("wav with a partial frame: {} channels, data {} bytes", ch, d2.len()), || must_panic("decode_wav", || decode_wav(w2.clone()).0.shape().as_vec())); }
    }
}

// ------------------------------------------------------------------ C23
pub fn c23(c: &mut Ctx) {
    let dir = std::env::temp_dir().join(format!("replay_c23_{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let path = |n: &str| dir.join(n).to_string_lossy().to_string();
    let mut sizes: Vec<usize> = vec![0, 1, 2, 31, 32, 33, 63, 64, 65, 255, 256, 257, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537, 1 << 20, (1 << 20) + 1];
    for l in c.lits.clone() { sizes.push(l); }
    for _ in 0..if c.thorough { 400 } else { 40 } { sizes.push(c.rng.below(100_000)); }
    for n in sizes {
        if !c.until(0.6) { break; }
        let data: Vec<u8> = (0..n).map(|_| c.rng.next() as u8).collect();
        let p = path("f.bin");
        std::fs::write(&p, &data).unwrap();
        c.case(|| format!("read_file of {} bytes", n), || {
            let t = read_file(p.as_str()).map_err(|e| e.to_string())?;
            eq("shape", t.shape().as_vec(), vec![n])?;
            chk!(t.as_slice() == data.as_slice(), "contents differ (first difference at {:?})", t.as_slice().iter().zip(&data).position(|(a, b)| a != b));
            Ok(())
        });
    }
    // every byte value first, last, alone, doubled at both ends; every pair of bytes; line ends and marks
    let mut texts: Vec<(String, Vec<u8>)> = vec![];
    for b in 0..=255u8 {
        texts.push((format!("the byte {}", b), vec![b]));
        texts.push((format!("three bytes and the byte {}", b), vec![65, 66, 67, b]));
        texts.push((format!("the byte {} and three bytes", b), vec![b, 65, 66, 67]));
        texts.push((format!("the byte {} twice, three bytes, and twice again", b), vec![b, b, 65, 66, 67, b, b]));
        texts.push((format!("2000 times the byte {}", b), vec![b; 2000]));
    }
    texts.push(("every pair of bytes".into(), (0..65536usize).flat_map(|i| [(i >> 8) as u8, i as u8]).collect()));
    for t in ["\u{feff}abc", "abc\u{feff}", "a\r\nb\r\n", "a\n\n", "\r\n", "\n", "#!x\n", " a ", "\ta\t", "é漢", "", "\0\0", "\x1b[0m"] { texts.push((format!("{:?}", t), t.as_bytes().to_vec())); }
    texts.push(("utf-16 marks".into(), vec![0xff, 0xfe, 65, 0, 0xff, 0xfe])); texts.push(("utf-16be mark".into(), vec![0xfe, 0xff, 0, 65])); texts.push(("gzip magic".into(), vec![0x1f, 0x8b, 8, 0, 1, 2, 3]));
    for (what, data) in texts {
        if !c.until(0.7) { break; }
        let p = path("g.bin");
        std::fs::write(&p, &data).unwrap();
        c.case(|| format!("read_file of {}", what), || {
            let t = read_file(p.as_str()).map_err(|e| e.to_string())?;
            chk!(t.as_slice() == data.as_slice(), "contents differ: {} bytes for {}", t.size(), data.len());
            eq("shape", t.shape().as_vec(), vec![data.len()])
        });
    }
    // a named pipe hands out the bytes in pieces and reports size 0
    for round in 0..if c.thorough { 40 } else { 8 } {
        if !c.until(0.9) { break; }
        let p = path(&format!("pipe{}", round));
        if !std::process::Command::new("mkfifo").arg(&p).status().map(|s| s.success()).unwrap_or(false) { break; }
        let n = [0usize, 1, 10, 5000, 70000, 200_000, 3, 65536][round % 8];
        let data: Vec<u8> = (0..n).map(|_| c.rng.next() as u8).collect();
        let chunk = [1usize, 7, 4096, 1000, 30000, 65536, 1, 8192][round % 8];
        let (p2, d2) = (p.clone(), data.clone());
        let th = std::thread::spawn(move || {
            use std::io::Write;
            let mut f = std::fs::OpenOptions::new().write(true).open(&p2).unwrap();
            for (i, ch) in d2.chunks(chunk).enumerate() { if f.write_all(ch).is_err() { return } if i < 20 { std::thread::sleep(std::time::Duration::from_millis(3)); } }
        });
        c.case(|| format!("read_file of a pipe delivering {} bytes in pieces of {}", n, chunk), || {
            let t = read_file(p.as_str()).map_err(|e| e.to_string())?;
            eq("length", t.size(), n)?;
            chk!(t.as_slice() == data.as_slice(), "contents differ");
            Ok(())
        });
        // unblock a writer whose reader never came
        let _ = std::fs::OpenOptions::new().read(true).write(true).open(&p);
        let _ = th.join();
    }
    for f in ["/proc/version", "/proc/cpuinfo", "/proc/self/status", "/proc/filesystems"] {
        let Ok(w) = std::fs::read(f) else { continue };
        c.case(|| format!("read_file {}", f), || { let t = read_file(f).map_err(|e| e.to_string())?;
            if f.contains("self") || f.contains("cpuinfo") { chk!(t.size() > 0, "empty") ; Ok(()) } else { eq("contents", t.as_slice().to_vec(), w.clone()) } });
    }
    for bad in [path("missing"), path("missing/deeper"), dir.to_string_lossy().to_string(), String::new(), "a\0b".to_string(), "/proc/self/mem".to_string()] {
        c.case(|| format!("read_file {:?} is an error", bad), || match read_file(bad.as_str()) { Err(_) => Ok(()), Ok(t) => Err(format!("returned {} bytes", t.size())) });
    }
    let _ = std::fs::remove_dir_all(&dir);
}

// ------------------------------------------------------------------ C27
pub fn c27(c: &mut Ctx) {
    let nmax = if c.thorough { 60000 } else { 4000 };
    let mut lens: Vec<usize> = (1..34).collect();
    for l in c.lits.clone() { if l <= 300 { lens.push(l); } }
    for it in 0..nmax {
        if !c.left() { break; }
        let len = if it < lens.len() { lens[it] } else { *c.rng.pick(&lens) };
        let outer = if it % 4 == 0 { vec![] } else { c.rshape(0, 3, 8) };
        let mut d = outer.clone(); d.push(len);
        let nb = prod(&outer);
        let fl = match c.rng.below(3) { 0 => None, 1 => Some(c.rng.below(len / 2 + 2)), _ => Some(c.rng.below(len * 2 + 4)) };
        let m = M { d: d.clone(), e: (0..prod(&d)).map(|_| (c.rng.f() * 64.).round() / 8. - 4.).collect::<Vec<f32>>() };
        let v = c.rng.below(3);
        c.case(|| format!("rfft_norm {:?} fft_length {:?} view {} x={:?}", d, fl, v, m.e.iter().take(60).collect::<Vec<_>>()), || {
            let t = mk(&m, v, 1e5);
            let r = match fl { None => rfft_norm(&t, ()), Some(n) => rfft_norm(&t, ().fft_length(n)) };
            let full = len / 2 + 1;
            let on = fl.unwrap_or(full);
            let mut od = outer.clone(); od.push(on);
            eq("shape", r.shape().as_vec(), od)?;
            eq("size", r.as_slice().len(), on * nb)?;
            for b in 0..nb {
                let x: Vec<f64> = (0..len).map(|i| m.e[b * len + i] as f64 * (std::f64::consts::PI * i as f64 / len as f64).sin().powi(2)).collect();
                let norm: f64 = x.iter().map(|v| v.abs()).sum::<f64>() + 1.;
                for k in 0..on {
                    let g = r.as_slice()[b * on + k] as f64;
                    let w = if k < full {
                        let (mut re, mut im) = (0f64, 0f64);
                        for (i, xv) in x.iter().enumerate() { let a = -2. * std::f64::consts::PI * ((i * k) % len) as f64 / len as f64; re += xv * a.cos(); im += xv * a.sin(); }
                        (re * re + im * im).sqrt()
                    } else { 0. };
                    chk!((g - w).abs() <= 2e-5 * norm, "row {} entry {}: got {} want {}", b, k, g, w);
                    if k >= full { eq("padding is zero", g, 0.)?; }
                }
            }
            Ok(())
        });
    }
}

// ------------------------------------------------------------------ C28
#[derive(Debug)]
struct D(Rc<RefCell<Vec<u32>>>, usize, Box<u64>);
impl Drop for D { fn drop(&mut self) { assert_eq!(*self.2, self.1 as u64 ^ 0xABCD); self.0.borrow_mut()[self.1] += 1; } }
impl Type for D {}
impl Clone for D { fn clone(&self) -> Self { let k = self.0.borrow().len(); self.0.borrow_mut().push(0); D(self.0.clone(), k, Box::new(k as u64 ^ 0xABCD)) } }
// SAFETY-free single-threaded use: the tensors below never leave this thread
unsafe impl Send for D {}
unsafe impl Sync for D {}
fn items(log: &Rc<RefCell<Vec<u32>>>, n: usize) -> Vec<D> { (0..n).map(|_| { let k = log.borrow().len(); log.borrow_mut().push(0); D(log.clone(), k, Box::new(k as u64 ^ 0xABCD)) }).collect() }
fn boxed<const N: usize>(log: &Rc<RefCell<Vec<u32>>>, n: usize) -> Tensor<D> {
    let v: Vec<[D; N]> = (0..n).map(|_| { let mut i = items(log, N).into_iter(); std::array::from_fn(|_| i.next().unwrap()) }).collect();
    Tensor::from(v)
}
fn make(log: &Rc<RefCell<Vec<u32>>>, how: usize, n: usize, extra: usize) -> (Tensor<D>, String) {
    match how {
        0 => { let v = items(log, n); (Tensor::from(v), format!("from(Vec) of {}", n)) }
        1 => { let mut v = Vec::with_capacity(n + extra); v.extend(items(log, n)); (Tensor::from(v), format!("from(Vec) of {} capacity {}", n, n + extra)) }
        2 => match extra % 4 { 0 => (boxed::<1>(log, n), format!("boxed rows {}x1", n)), 1 => (boxed::<2>(log, n), format!("boxed rows {}x2", n)), 2 => (boxed::<3>(log, n), format!("boxed rows {}x3", n)), _ => (boxed::<0>(log, n), format!("boxed rows {}x0", n)) },
        3 => { let mut i = items(log, n).into_iter(); (Tensor::init([n], || i.next().unwrap()), format!("init {}", n)) }
        4 => { let t = Tensor::from((0..n as i32).collect::<Vec<_>>()); let mut i = items(log, n).into_iter(); (t.map(|_| i.next().unwrap()), format!("map {}", n)) }
        5 => { let mut i = items(log, 1).into_iter(); (Tensor::from(i.next().unwrap()), "scalar".to_string()) }
        6 => { let mut i = items(log, 3).into_iter(); let a: [D; 3] = std::array::from_fn(|_| i.next().unwrap()); (Tensor::from(a), "array of 3".to_string()) }
        7 => { let mut i = items(log, 6).into_iter(); let a: [[D; 3]; 2] = std::array::from_fn(|_| std::array::from_fn(|_| i.next().unwrap())); (Tensor::from(a), "array 2x3".to_string()) }
        8 => { let v = items(log, n); (v.into_iter().collect::<Tensor<D>>(), format!("collect {}", n)) }
        9 => { let mut i = items(log, n).into_iter(); (Tensor::init_rindexed([n, 1], |_| i.next().unwrap()), format!("init_rindexed {}", n)) }
        10 => { let v = items(log, n); (Tensor::<D>::from(&v), format!("from(&Vec) {}", n)) }
        11 => { let mut i = items(log, 1).into_iter(); (Tensor::from(Some(i.next().unwrap())), "option".to_string()) }
        _ => { (Tensor::from(None::<D>), "none".to_string()) }
    }
}
static ZLIVE: std::sync::atomic::AtomicIsize = std::sync::atomic::AtomicIsize::new(0);
#[derive(PartialEq, Debug)]
struct Z;
impl Clone for Z { fn clone(&self) -> Self { ZLIVE.fetch_add(1, Ordering::SeqCst); Z } }
impl Drop for Z { fn drop(&mut self) { ZLIVE.fetch_sub(1, Ordering::SeqCst); } }
impl essay_tensor::tensor::Type for Z {}
pub fn c28(c: &mut Ctx) {
    let nmax = if c.thorough { 400000 } else { 30000 };
    let mut k = 0u64;
    while c.left() && k < nmax {
        k += 1;
        let n = match k % 9 { 0 => 0, 1 => 1, 2 => { let l = *c.rng.pick(&c.lits); if l < 2000 { l } else { 2 } } _ => c.rng.below(12) };
        let how = c.rng.below(13); let extra = c.rng.below(8);
        let script: Vec<usize> = (0..c.rng.below(8)).map(|_| c.rng.next() as usize).collect();
        let sz = n;
        c.case(|| format!("constructor {} n {} extra {} operations {:?}", how, sz, extra, script), || {
            let (b0, l0) = (BAD.load(Ordering::SeqCst), LIVE.load(Ordering::SeqCst));
            {
                let log = Rc::new(RefCell::new(vec![]));
                let (t, w) = make(&log, how, n, extra);
                let mine: Vec<usize> = t.as_slice().iter().map(|d| d.1).collect();
                let others: Vec<usize> = (0..log.borrow().len()).filter(|i| !mine.contains(i)).collect();
                for i in &others { eq(&format!("{}: temporary {} dropped", w, i), log.borrow()[*i], 1)?; }
                let size = t.size();
                let mut pool: Vec<Tensor<D>> = vec![t];
                let mut derived: Vec<Vec<usize>> = vec![];
                for s in &script {
                    let i = (s >> 8) % pool.len();
                    match s % 8 {
                        0 | 1 => { let q = pool[i].clone(); pool.push(q); }
                        2 => { let q = pool[i].clone().flatten(); pool.push(q); }
                        3 => { let z = pool[i].size(); let a = (s >> 16) % (z + 1); let b = (s >> 24) % (z - a + 1); let q = pool[i].subslice_flat(a, b, b); pool.push(q); }
                        4 => { let q = pool[i].clone().reshape([1, pool[i].size()]); pool.push(q); }
                        5 => { let q = Tensor::from(&pool[i]); pool.push(q); }
                        6 => { if pool.len() > 1 { pool.swap_remove(i); } }
                        _ => { let q = pool[i].map(|x| x.clone()); let ids: Vec<usize> = q.as_slice().iter().map(|d| d.1).collect(); drop(q); derived.push(ids); }
                    }
                    for i in &mine { eq(&format!("{}: element {} dropped while shared", w, i), log.borrow()[*i], 0)?; }
                }
                while pool.len() > 1 { let i = pool.len() / 2; pool.swap_remove(i); for i in &mine { eq(&format!("{}: element {} dropped while shared", w, i), log.borrow()[*i], 0)?; } }
                drop(pool);
                let _ = size;
                let l = log.borrow();
                for i in 0..l.len() { eq(&format!("{}: drops of element {}", w, i), l[i], 1)?; }
            }
            eq("releases with a different layout", BAD.load(Ordering::SeqCst), b0)?;
            let live = LIVE.load(Ordering::SeqCst);
            chk!(live <= l0, "{} blocks leaked", live - l0);
            Ok(())
        });
    }
    // elements of size zero that count their drops
    for n in (0..20usize).chain(c.lits.clone().into_iter().filter(|l| *l < 2000)) {
        for how in 0..7 {
            c.case(|| format!("{} elements of size zero, constructor {}", n, how), || {
                ZLIVE.store(0, Ordering::SeqCst);
                let z = || { ZLIVE.fetch_add(1, Ordering::SeqCst); Z };
                let t: Tensor<Z> = match how {
                    0 => Tensor::from_vec((0..n).map(|_| z()).collect(), [n]),
                    1 => Tensor::from((0..n).map(|_| z()).collect::<Vec<Z>>()),
                    2 => Tensor::from((0..n).map(|_| [z(), z(), z()]).collect::<Vec<[Z; 3]>>()),
                    3 => (0..n).map(|_| z()).collect::<Tensor<Z>>(),
                    4 => Tensor::init([n], z),
                    5 => Tensor::from_vec((0..n).map(|_| z()).collect::<Vec<Z>>(), [n]).map(|x| x.clone()),
                    _ => Tensor::from_vec((0..n).map(|_| z()).collect::<Vec<Z>>(), [n, 1]).clone().flatten(),
                };
                let want = if how == 2 { 3 * n } else { n };
                eq("size", t.size(), want)?;
                eq("live elements", ZLIVE.load(Ordering::SeqCst), want as isize)?;
                let u = t.clone(); drop(t);
                eq("live elements while shared", ZLIVE.load(Ordering::SeqCst), want as isize)?;
                drop(u);
                eq("live elements after the last drop", ZLIVE.load(Ordering::SeqCst), 0)
            });
        }
    }
    // more operations over owned strings: storage balance
    let mut k = 0;
    while c.until(1.2) && k < if c.thorough { 4000 } else { 400 } {
        k += 1;
        let d = c.rshape(1, 4, 200);
        c.case(|| format!("storage balance over {:?}", d), || {
            let (b0, l0) = (BAD.load(Ordering::SeqCst), LIVE.load(Ordering::SeqCst));
            {
                let m = strs(&d, "x");
                let t = mk(&m, 1, "j".to_string());
                let _ = t.transpose(); let u = t.map2(&t, |a, b| format!("{}{}", a, b)); let _ = u.reduce(|a, b| format!("{}{}", a, b));
                let _ = u.reduce_axis(0, |a, b| if a < b { a } else { b });
                let _ = t.map_row::<2, String>(|r: &[String]| [r[0].clone(), r[r.len() - 1].clone()]);
                let _ = t.append(&u); let _ = essay_tensor::array::concatenate((&t, &u, &t));
                let _ = essay_tensor::array::stack((&t, &u)); let _ = t.tile([2]);
                let _ = t.clone().reshape(t.size()).subslice(0, 1);
                let z: Tensor<String> = Tensor::init([0], || unreachable!()); let _ = z.clone();
                let zz = Tensor::from(Vec::<[String; 3]>::new()); let _ = zz.clone();
            }
            eq("releases with a different layout", BAD.load(Ordering::SeqCst), b0)?;
            let live = LIVE.load(Ordering::SeqCst);
            chk!(live <= l0, "{} blocks leaked", live - l0);
            Ok(())
        });
    }
}
