use crate::chk;
use crate::core::*;
use essay_tensor::init;
use essay_tensor::tensor::{Tensor, Type};

#[derive(Clone, Debug, PartialEq)]
struct Tag(String);
impl Type for Tag {}

pub fn c14(c: &mut Ctx) {
    let mut ds = std_shapes(0, 6);
    ds.push(vec![0]); ds.push(vec![3, 0]); ds.push(vec![0, 3]); ds.push(vec![2, 0, 3]);
    for _ in 0..if c.thorough { 3000 } else { 300 } { ds.push(c.rshape(0, 6, 600)); }
    for l in c.lits.clone() { if l <= 3000 { ds.push(vec![l]); ds.push(vec![2, l]); ds.push(vec![l, 2]); } }
    for d in &ds {
        if !c.until(0.6) { break; }
        let n = prod(d);
        c.case(|| format!("init {:?}", d), || {
            let mut k = 0i64;
            let t: Tensor<i64> = Tensor::init(d.as_slice(), || { k += 1; k });
            same("init", &t, &M::new(d.clone(), (1..=n as i64).collect()))?;
            eq("init calls", k, n as i64)
        });
        c.case(|| format!("init_rindexed {:?}", d), || {
            let mut k = 0i64;
            let t: Tensor<Tag> = Tensor::init_rindexed(d.as_slice(), |ix: &[usize]| { k += 1; let mut v = ix.to_vec(); v.reverse(); Tag(format!("{:?} {}", v, k)) });
            let mut j = 0;
            let w = M::gen(d, |ix| { j += 1; Tag(format!("{:?} {}", ix, j)) });
            same("init_rindexed", &t, &w)
        });
        c.case(|| format!("zeros/ones/fill {:?}", d), || {
            same("zeros", &Tensor::<i32>::zeros(d.as_slice()), &M::new(d.clone(), vec![0; n]))?;
            same("ones", &Tensor::<i32>::ones(d.as_slice()), &M::new(d.clone(), vec![1; n]))?;
            same("zeros f32", &init::zeros::<f32>(d.as_slice()), &M::new(d.clone(), vec![0.; n]))?;
            same("ones f32", &init::ones::<f32>(d.as_slice()), &M::new(d.clone(), vec![1.; n]))?;
            same("fill", &Tensor::fill(d.as_slice(), "q".to_string()), &M::new(d.clone(), vec!["q".to_string(); n]))?;
            same("fill", &init::fill(d.as_slice(), 7u8), &M::new(d.clone(), vec![7u8; n]))
        });
        if d.len() >= 2 && n > 0 {
            for v in 0..3 {
                let m = ints(d, 1);
                c.case(|| format!("tril/triu {:?} view {}", d, v), || {
                    let t = mk(&m, v, -9i64);
                    let r = d.len();
                    let lo = M::gen(d, |ix| if ix[r - 1] <= ix[r - 2] { *m.at(ix) } else { 0 });
                    let hi = M::gen(d, |ix| if ix[r - 2] <= ix[r - 1] { *m.at(ix) } else { 0 });
                    same("tril", &t.tril(), &lo)?;
                    same("triu", &t.triu(), &hi)
                });
            }
        }
    }
    let mut ns: Vec<usize> = (0..40).collect();
    for l in c.lits.clone() { if l <= 300 { ns.push(l); } }
    for n in ns {
        if !c.left() { break; }
        c.case(|| format!("eye/identity/tri {}", n), || {
            let e = M::gen(&[n, n], |ix| if ix[0] == ix[1] { 1i32 } else { 0 });
            if n > 0 {
                for (w, t) in [("eye", Tensor::<i32>::eye(n)), ("identity", Tensor::<i32>::identity(n)), ("init::eye", init::eye(n)), ("init::identity", init::identity(n))] { same(w, &t, &e)?; }
                let ef = M::gen(&[n, n], |ix| if ix[0] == ix[1] { 1f32 } else { 0. });
                same("eye f32", &init::eye::<f32>(n), &ef)?;
            }
            let e = M::gen(&[n, n], |ix| if ix[1] <= ix[0] { 1i32 } else { 0 });
            same("tri", &Tensor::<i32>::tri(n), &e)?;
            same("init::tri", &init::tri(n), &e)
        });
        for v in 0..3 {
            let m = ints(&[n], 5);
            c.case(|| format!("diagflat {} view {}", n, v), || {
                let t = mk(&m, v, -9i64);
                same("diagflat", &t.diagflat(), &M::gen(&[n, n], |ix| if ix[0] == ix[1] { m.e[ix[0]] } else { 0 }))
            });
        }
    }
}

pub fn c15(c: &mut Ctx) {
    let mut ns: Vec<Vec<usize>> = vec![];
    for a in 1..7 { ns.push(vec![a]); for b in 1..7 { ns.push(vec![a, b]); for d in 1..5 { ns.push(vec![a, b, d]); } } }
    for l in c.lits.clone() { if l <= 500 { ns.push(vec![l]); ns.push(vec![l, 3]); ns.push(vec![3, l]); ns.push(vec![2, l, 3]); ns.push(vec![l, 2, 2]); ns.push(vec![2, 3, l]); } }
    for _ in 0..if c.thorough { 3000 } else { 400 } { let k = c.rng.range(1, 3); ns.push((0..k).map(|_| c.rng.range(1, 30)).collect()); }
    for n in ns {
        if !c.left() { break; }
        let view = c.rng.below(27);
        c.case(|| format!("meshgrid {:?} views {}", n, view), || {
            let ms: Vec<M<i64>> = n.iter().enumerate().map(|(i, &k)| ints(&[k], 1000 * i as i64)).collect();
            let ts: Vec<Tensor<i64>> = mk_all(&ms.iter().collect::<Vec<_>>(), view, -9);
            let mut rd = n.clone(); rd.reverse();
            let xy: Vec<M<i64>> = (0..n.len()).map(|k| M::gen(&rd, |ix| ms[k].e[ix[n.len() - 1 - k]])).collect();
            let ij: Vec<M<i64>> = (0..n.len()).map(|k| M::gen(&n, |ix| ms[k].e[ix[k]])).collect();
            let (a, b, a2, b2): (Vec<_>, Vec<_>, Vec<_>, Vec<_>) = match n.len() {
                1 => (init::meshgrid([&ts[0]]).to_vec(), init::meshgrid_ij([&ts[0]]).to_vec(), init::meshgrid([ts[0].clone()]).to_vec(), init::meshgrid_ij([ts[0].clone()]).to_vec()),
                2 => {
                    let m1 = ts[0].meshgrid(&ts[1]); let m2 = ts[0].meshgrid_ij(&ts[1]);
                    for k in 0..2 { same("Tensor::meshgrid", &m1[k], &xy[k])?; same("Tensor::meshgrid_ij", &m2[k], &ij[k])?; }
                    (init::meshgrid([&ts[0], &ts[1]]).to_vec(), init::meshgrid_ij([&ts[0], &ts[1]]).to_vec(), init::meshgrid([ts[0].clone(), ts[1].clone()]).to_vec(), init::meshgrid_ij([ts[0].clone(), ts[1].clone()]).to_vec())
                }
                _ => (init::meshgrid([&ts[0], &ts[1], &ts[2]]).to_vec(), init::meshgrid_ij([&ts[0], &ts[1], &ts[2]]).to_vec(),
                      init::meshgrid([ts[0].clone(), ts[1].clone(), ts[2].clone()]).to_vec(), init::meshgrid_ij([ts[0].clone(), ts[1].clone(), ts[2].clone()]).to_vec()),
            };
            for (w, got, want) in [("meshgrid", &a, &xy), ("meshgrid owned", &a2, &xy), ("meshgrid_ij", &b, &ij), ("meshgrid_ij owned", &b2, &ij)] {
                eq("count", got.len(), want.len())?;
                for k in 0..want.len() { same(&format!("{}[{}]", w, k), &got[k], &want[k])?; }
            }
            Ok(())
        });
    }
    fn g<const A: usize, const B: usize>(c: &mut Ctx) {
        c.case(|| format!("mgrid {} {}", A, B), || {
            let t = init::mgrid::<A, B>();
            same("mgrid x", &t[0], &M::gen(&[B, A], |ix| ix[1] as f32))?;
            same("mgrid y", &t[1], &M::gen(&[B, A], |ix| ix[0] as f32))
        });
    }
    g::<1, 1>(c); g::<1, 2>(c); g::<2, 1>(c); g::<3, 2>(c); g::<2, 3>(c); g::<5, 4>(c); g::<1, 9>(c); g::<9, 1>(c); g::<16, 17>(c);
}

fn close(what: &str, g: f32, w: f64, scale: f64) -> Result<(), String> {
    let tol = 4e-6 * (w.abs() + scale) + 1e-30;
    if (g as f64 - w).abs() <= tol { Ok(()) } else { Err(format!("{}: got {} want {} (+-{:e})", what, g, w, tol)) }
}

pub fn c16(c: &mut Ctx) {
    let nmax = if c.thorough { 60000 } else { 6000 };
    let mut lens: Vec<usize> = (0..40).collect();
    for l in c.lits.clone() { if l <= 5000 { lens.push(l); } }
    for _ in 0..nmax {
        if !c.until(0.7) { break; }
        let len = if c.rng.below(2) == 0 { *c.rng.pick(&lens) } else { c.rng.range(0, 30) };
        let d = if c.rng.below(3) == 0 { vec![] } else { c.rshape(0, 4, 40) };
        let n = prod(&d);
        let view = c.rng.below(9);
        let s: Vec<f32> = (0..n).map(|_| (c.rng.f() * 200.).round() / 8. - 12.).collect();
        let e: Vec<f32> = s.iter().map(|x| if c.rng.below(8) == 0 { *x } else { x + (c.rng.f() * 100.).round() / 4. }).collect();
        let (ms, me) = (M::new(d.clone(), s.clone()), M::new(d.clone(), e.clone()));
        let mut od = vec![len]; od.extend(&d);
        let desc = format!("start {:?} {:?} end {:?} n {} view {}", d, s, e, len, view);
        let at = |k: usize, i: usize| -> f64 { let (a, b) = (s[i] as f64, e[i] as f64); if len > 1 { a + k as f64 * (b - a) / (len - 1) as f64 } else { a } };
        c.case(|| format!("linspace {}", desc), || {
            let (ts, te) = mk2(&ms, &me, view, 1e9);
            for (w, t) in [("linspace", init::linspace(&ts, &te, len)), ("Tensor::linspace", ts.linspace(&te, len))] {
                eq("shape", t.shape().as_vec(), od.clone())?;
                eq("size", t.as_slice().len(), len * n)?;
                for k in 0..len { for i in 0..n { close(&format!("{} sample {} of pair {}", w, k, i), t.as_slice()[k * n + i], at(k, i), (s[i].abs() + e[i].abs()) as f64)?; } }
                if len > 0 { for i in 0..n { eq("start is exact", t.as_slice()[i], s[i])?; } }
            }
            Ok(())
        });
        let base = *c.rng.pick(&[2f32, 10., 3., 0.5]);
        c.case(|| format!("logspace base {} {}", base, desc), || {
            let sc = |m: &M<f32>| M::new(m.d.clone(), m.e.iter().map(|x| x / 16.).collect());
            let (s2, e2) = (sc(&ms), sc(&me));
            let (ts, te) = mk2(&s2, &e2, view, 1e9);
            for (w, t, b) in [("logspace", init::logspace(&ts, &te, len), 10f32), ("Tensor::logspace", ts.logspace(&te, len), 10.), ("logspace_opt", init::logspace_opt(&ts, &te, len, base), base), ("logspace_opt none", init::logspace_opt(&ts, &te, len, None), 10.)] {
                eq("shape", t.shape().as_vec(), od.clone())?;
                for k in 0..len { for i in 0..n {
                    let x = at(k, i) / 16.; let wv = (b as f64).powf(x);
                    let tol = wv.abs() * (4e-6 * (1. + 4. * (s2.e[i].abs() + e2.e[i].abs()) as f64 * (b as f64).ln().abs()));
                    let g = t.as_slice()[k * n + i] as f64;
                    chk!((g - wv).abs() <= tol + 1e-30, "{} sample {} of pair {}: got {} want {}", w, k, i, g, wv);
                } }
            }
            Ok(())
        });
        c.case(|| format!("geomspace {}", desc), || {
            let ex = |m: &M<f32>| M::new(m.d.clone(), m.e.iter().map(|x| (x / 8.).exp()).collect::<Vec<f32>>());
            let (s2, e2) = (ex(&ms), ex(&me));
            let (ts, te) = mk2(&s2, &e2, view, 1e9);
            for (w, t) in [("geomspace", init::geomspace(&ts, &te, len)), ("Tensor::geomspace", ts.geomspace(&te, len))] {
                eq("shape", t.shape().as_vec(), if n == 1 { vec![len] } else { od.clone() })?;
                for k in 0..len { for i in 0..n {
                    let (a, b) = ((s2.e[i] as f64).ln(), (e2.e[i] as f64).ln());
                    let wv = (if len > 1 { a + k as f64 * (b - a) / (len - 1) as f64 } else { a }).exp();
                    let g = t.as_slice()[k * n + i] as f64;
                    chk!((g - wv).abs() <= wv * 4e-6 * (1. + a.abs() + b.abs()), "{} sample {} of pair {}: got {} want {}", w, k, i, g, wv);
                } }
            }
            Ok(())
        });
        if d.len() > 0 { c.case(|| format!("shape mismatch {}", desc), || {
            let t = Tensor::from_vec(s.clone(), d.as_slice());
            let mut d2 = d.clone(); d2.push(1);
            let u = Tensor::from_vec(e.clone(), d2.as_slice());
            must_panic("linspace", || init::linspace(&t, &u, 3))?; must_panic("logspace", || init::logspace(&t, &u, 3))?; must_panic("geomspace", || init::geomspace(&t, &u, 3))
        }); }
    }
    // arange: exact repeated addition
    for _ in 0..nmax {
        if !c.until(0.85) { break; }
        let mut step = (c.rng.f() * 64.).round() / 8. - 4.;
        if step == 0. { step = 0.5 }
        let start = (c.rng.f() * 256.).round() / 8. - 16.;
        let cnt = c.rng.below(60) as f32;
        let end = start + step * cnt + *c.rng.pick(&[0f32, 0., step / 2., step / 4.]);
        // an end one rounding step to either side of a sample
        let up = |x: f32, d: i32| if x == 0. { d as f32 * 1e-30 } else { f32::from_bits((x.to_bits() as i32 + if x > 0. { d } else { -d }) as u32) };
        let end = match c.rng.below(6) { 0 => up(end, 1), 1 => up(end, -1), _ => end };
        if step > 0. && end < start || step < 0. && end > start { continue; }
        c.case(|| format!("arange {} {} {}", start, end, step), || {
            let mut w = vec![]; let mut x = start;
            while if step > 0. { x < end } else { x > end } { w.push(x); x += step; }
            let n = w.len();
            same("arange", &init::arange(start, end, step), &M::new(vec![n], w.clone()))?;
            same("Tensor::arange", &Tensor::arange(start, end, step), &M::new(vec![n], w))
        });
    }
    for _ in 0..nmax {
        if !c.until(0.95) { break; }
        let depth = c.rng.below(30);
        let k = c.rng.below(6);
        let ix: Vec<usize> = (0..k).map(|_| c.rng.below(depth + 1 + (depth / 4))).collect();
        c.case(|| format!("one_hot {:?} depth {}", ix, depth), || {
            if ix.iter().any(|i| *i >= depth) { must_panic("one_hot", || init::one_hot(&ix, depth))?; return must_panic("one_hot", || Tensor::one_hot(&ix, depth)); }
            let w = M::gen(&[depth], |i| if ix.contains(&i[0]) { 1f32 } else { 0. });
            same("one_hot", &init::one_hot(&ix, depth), &w)?;
            same("Tensor::one_hot", &Tensor::one_hot(ix.as_slice(), depth), &w)
        });
    }
}
