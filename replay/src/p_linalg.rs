use crate::core::*;
use essay_tensor::linalg::{matmul, Transpose};
use essay_tensor::tensor::Tensor;

// small integers: every product and partial sum is exact in f32 whatever the order
fn small(d: &[usize], r: &mut Rng) -> M<f32> { M { d: d.to_vec(), e: (0..prod(d)).map(|_| r.below(15) as f32 - 7.).collect() } }
fn tr(k: usize) -> Transpose { match k { 0 => Transpose::None, 1 => Transpose::TransposeA, 2 => Transpose::TransposeB, _ => Transpose::TransposeAB } }

fn dims(c: &mut Ctx) -> usize {
    if !c.fresh.is_empty() && c.rng.below(3) == 0 { let l = *c.rng.pick(&c.fresh); if l <= 300 { return l; } }
    match c.rng.below(8) { 0 => c.rng.range(1, 40), 1 => { let l = *c.rng.pick(&c.lits); if l <= 70 { l } else { c.rng.range(1, 4) } } _ => c.rng.range(1, 5) }
}

pub fn c17(c: &mut Ctx) {
    let nmax = if c.thorough { 200000 } else { 20000 };
    for it in 0..nmax {
        if !c.left() { break; }
        let batch = if it % 3 == 0 { vec![] } else { c.rshape(0, 4, 12) };
        let (m, k, n) = (dims(c), dims(c), dims(c));
        if prod(&batch) * m * k * n > 60000 { continue; }
        let t = c.rng.below(4);
        let (ta, tb) = (t == 1 || t == 3, t >= 2);
        let mut da = batch.clone(); da.extend(if ta { [k, m] } else { [m, k] });
        let mut db = batch.clone(); db.extend(if tb { [n, k] } else { [k, n] });
        let bad = c.rng.below(5);
        if bad == 1 { let i = da.len() - if ta { 2 } else { 1 }; da[i] += 1 + c.rng.below(3); }
        if bad == 2 && !batch.is_empty() { let i = c.rng.below(batch.len()); db[i] += 1; }
        if bad == 3 && it % 2 == 0 { db.insert(0, 1 + c.rng.below(2)); }
        let wrong = da[..da.len() - 2] != db[..db.len() - 2] || (bad == 1);
        let (ma, mb) = (small(&da, &mut c.rng), small(&db, &mut c.rng));
        let v = c.rng.below(9);
        if da.len() > 6 || db.len() > 6 { continue; }
        c.case(|| format!("matmul A {:?} B {:?} transpose {} views {} a={:?} b={:?}", da, db, t, v, ma.e.iter().take(40).collect::<Vec<_>>(), mb.e.iter().take(40).collect::<Vec<_>>()), || {
            let (a, b) = mk2(&ma, &mb, v, 1e9);
            if wrong {
                must_panic("matmul_t", || a.matmul_t(&b, tr(t)))?;
                if t == 0 { must_panic("matmul", || matmul(&a, &b))?; must_panic("matmul", || a.matmul(&b))?; }
                return Ok(());
            }
            let mut od = batch.clone(); od.extend([m, n]);
            let nb = batch.len();
            let w = M::gen(&od, |ix| {
                let mut s = 0f32;
                let (r, cc) = (ix[nb], ix[nb + 1]);
                for q in 0..k {
                    let mut ia = ix[..nb].to_vec(); ia.extend(if ta { [q, r] } else { [r, q] });
                    let mut ib = ix[..nb].to_vec(); ib.extend(if tb { [cc, q] } else { [q, cc] });
                    s += ma.at(&ia) * mb.at(&ib);
                }
                s
            });
            same("matmul_t", &a.matmul_t(&b, tr(t)), &w)?;
            if t == 0 { same("matmul", &matmul(&a, &b), &w)?; same("Tensor::matmul", &a.matmul(&b), &w)?; }
            Ok(())
        });
    }
    for d in [vec![], vec![3]] { c.case(|| format!("matmul rank {:?}", d), || {
        let m = M { d: d.clone(), e: vec![1f32; prod(&d)] };
        let a = mk(&m, 0, 0.); let b = Tensor::from_vec(vec![1f32; 9], [3, 3]);
        must_panic("matmul", || matmul(&a, &b))?; must_panic("matmul", || matmul(&b, &a)) }); }
}

pub fn c18(c: &mut Ctx) {
    let nmax = if c.thorough { 200000 } else { 20000 };
    for it in 0..nmax {
        if !c.left() { break; }
        let abatch = if it % 2 == 0 { vec![] } else { c.rshape(0, 2, 8) };
        let (m, k) = (dims(c), dims(c));
        let t = c.rng.below(2);
        let mut da = abatch.clone(); da.extend(if t == 1 { [k, m] } else { [m, k] });
        // vectors: [k], [rows, k], or [extra.., abatch.., rows, k]
        let xrows = dims(c);
        let mut dx;
        let kind = c.rng.below(3);
        if abatch.is_empty() && kind == 0 { dx = vec![k]; }
        else { dx = if kind == 1 { abatch.clone() } else { let mut e = c.rshape(0, 2, 6); e.extend(&abatch); e }; dx.extend([xrows, k]); }
        let bad = c.rng.below(5);
        let mut wrong = false;
        if bad == 1 { let i = dx.len() - 1; dx[i] += 1 + c.rng.below(3); wrong = true; }
        if bad == 2 && !abatch.is_empty() && dx.len() == 2 + abatch.len() { let i = c.rng.below(abatch.len()); dx[i] += 1; wrong = true; }
        if da.len() > 6 || dx.len() > 6 || prod(&dx) * m > 60000 || prod(&da) > 60000 { continue; }
        let (ma, mx) = (small(&da, &mut c.rng), small(&dx, &mut c.rng));
        let v = c.rng.below(9);
        c.case(|| format!("matvec A {:?} x {:?} transpose {} views {} a={:?} x={:?}", da, dx, t, v, ma.e.iter().take(40).collect::<Vec<_>>(), mx.e.iter().take(40).collect::<Vec<_>>()), || {
            let (a, x) = mk2(&ma, &mx, v, 1e9);
            if wrong { must_panic("matvec_t", || a.matvec_t(&x, tr(t)))?; if t == 0 { must_panic("matvec", || a.matvec(&x))?; } return Ok(()); }
            let mut od = dx.clone(); let l = od.len() - 1; od[l] = m;
            let na = abatch.len();
            let w = M::gen(&od, |ix| {
                let mut s = 0f32;
                for q in 0..k {
                    // batch of A: the trailing batch coordinates of x
                    let xb = if dx.len() >= 2 { &ix[..dx.len() - 2] } else { &ix[..0] };
                    let mut ia = if na > 0 { xb[xb.len() - na..].to_vec() } else { vec![] };
                    ia.extend(if t == 1 { [q, ix[l]] } else { [ix[l], q] });
                    let mut ixx = ix.to_vec(); ixx[l] = q;
                    s += ma.at(&ia) * mx.at(&ixx);
                }
                s
            });
            same("matvec_t", &a.matvec_t(&x, tr(t)), &w)?;
            if t == 0 { same("matvec", &a.matvec(&x), &w)?; }
            Ok(())
        });
    }
}
