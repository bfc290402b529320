use crate::core::*;
use essay_tensor::tensor::{Axis, Shape, Tensor};

fn window(t: &Tensor<i64>, m: &M<i64>) -> Result<(), String> {
    same("tensor", t, m)?;
    let n = m.e.len();
    eq("iter", t.iter().cloned().collect::<Vec<_>>(), m.e.clone())?;
    eq("into_iter", t.into_iter().cloned().collect::<Vec<_>>(), m.e.clone())?;
    eq("deref", (**t).to_vec(), m.e.clone())?;
    let r: &[i64] = t.as_ref();
    eq("as_ref", r.to_vec(), m.e.clone())?;
    for k in 0..n + 3 {
        eq(&format!("get({})", k), t.get(k).cloned(), m.e.get(k).cloned())?;
        if k < n { eq(&format!("[{}]", k), t[k], m.e[k])?; } else { must_panic(&format!("[{}]", k), || t[k])?; }
    }
    must_panic("[max]", || t[usize::MAX])?;
    eq("get(max)", t.get(usize::MAX), None)?;
    for far in [1usize << 8, 1 << 16, 1 << 31, 1 << 32, 1 << 63] {
        if far < n { continue; }
        eq(&format!("get({})", far), t.get(far), None)?;
        must_panic(&format!("[{}]", far), || t[far])?;
        must_panic(&format!("subslice_flat({}, 0)", far), || t.subslice_flat(far, 0, [0]).size())?;
        must_panic(&format!("subslice_flat(0, {})", far), || t.subslice_flat(0, far, [far & 0xffff_ffff]).size())?;
        if n > 0 { eq(&format!("as_wrap_slice({})", far), t.as_wrap_slice(far).to_vec(), m.e[far % n..].to_vec())?;
            eq(&format!("as_wrap_ptr({})", far), unsafe { *t.as_wrap_ptr(far) }, m.e[far % n])?; }
    }
    if n > 0 {
        for k in 0..2 * n + 2 {
            let w = &m.e[k % n..];
            eq(&format!("as_wrap_slice({})", k), t.as_wrap_slice(k).to_vec(), w.to_vec())?;
            for l in 0..=n + 2 {
                if l <= w.len() { eq(&format!("as_wrap_slice_n({},{})", k, l), t.as_wrap_slice_n(k, l).to_vec(), w[..l].to_vec())?; }
                else { must_panic(&format!("as_wrap_slice_n({},{})", k, l), || t.as_wrap_slice_n(k, l).len())?; }
            }
            eq(&format!("as_wrap_ptr({})", k), unsafe { *t.as_wrap_ptr(k) }, w[0])?;
        }
        eq("as_ptr", unsafe { *t.as_ptr() }, m.e[0])?;
    }
    if m.d.len() > 0 && m.d[m.d.len() - 1] > 0 {
        let cols = if m.d.len() > 1 { m.d[m.d.len() - 1] } else { 1 };
        eq("iter_row", t.iter_row().map(|r| r.to_vec()).collect::<Vec<_>>(), m.e.chunks(cols).map(|r| r.to_vec()).collect::<Vec<_>>())?;
    }
    Ok(())
}

pub fn c01(c: &mut Ctx) {
    let mut ds = std_shapes(0, 6);
    ds.push(vec![0]); ds.push(vec![0, 3]); ds.push(vec![2, 0]); ds.push(vec![3, 0, 2]);
    for _ in 0..if c.thorough { 3000 } else { 300 } { ds.push(c.rshape(0, 6, 150)); }
    for d in ds {
        if !c.left() { break; }
        for view in 0..3 {
            let m = ints(&d, 100);
            c.case(|| format!("window of {:?} view {}", d, view), || window(&mk(&m, view, -7), &m));
        }
        let n = prod(&d);
        c.case(|| format!("constructors {:?}", d), || {
            let m = ints(&d, 5);
            for wrong in [n + 1, n + 2, 2 * n + 1, n.wrapping_sub(1)] {
                if wrong == n || wrong > 100000 { continue; }
                let v: Vec<i64> = (0..wrong as i64).collect();
                must_panic(&format!("from_vec {} for {:?}", wrong, d), || Tensor::from_vec(v.clone(), d.as_slice()).size())?;
                must_panic(&format!("from_box {} for {:?}", wrong, d), || Tensor::from_box(v.clone().into_boxed_slice(), d.as_slice()).size())?;
                let t = Tensor::from_vec(v.clone(), wrong);
                must_panic("from_merge", || Tensor::from_merge(&[t], d.as_slice()).size())?;
            }
            same("from_vec", &Tensor::from_vec(m.e.clone(), d.as_slice()), &m)?;
            same("from_box", &Tensor::from_box(m.e.clone().into_boxed_slice(), d.as_slice()), &m)?;
            same("from_slice", &Tensor::from_slice(&m.e), &M::new(vec![n], m.e.clone()))?;
            same("join_vec", &Tensor::join_vec(&vec![m.e.clone(), vec![1, 2], vec![]]), &M::new(vec![n + 2], [m.e.clone(), vec![1, 2]].concat()))?;
            same("from_scalar", &Tensor::from_scalar(7i64), &M::new(vec![], vec![7]))?;
            same("init_default", &Tensor::<i64>::init_default(d.as_slice()), &M::new(d.clone(), vec![0; n]))?;
            let s = strs(&d, "s");
            same("from_vec strings", &Tensor::from_vec(s.e.clone(), d.as_slice()), &s)?;
            same("clone strings", &mk(&s, 1, "junk".into()).clone(), &s)
        });
    }
    // chains of sub-views
    while c.until(0.7) && c.evals < if c.thorough { 60000 } else { 6000 } {
        let d = c.rshape(1, 4, 200);
        let m = ints(&d, 100);
        let steps: Vec<(u64, u64, u64)> = (0..c.rng.range(1, 4)).map(|_| (c.rng.next(), c.rng.next(), c.rng.next())).collect();
        c.case(|| format!("views of {:?} by {:?}", d, steps), || {
            let mut t = mk(&m, 0, 0); let mut mm = m.clone();
            for (a, b, k) in &steps { (t, mm) = step(t, mm, *a, *b, *k); }
            window(&t, &mm)
        });
    }
}
// one random valid view step on the tensor and on the model
fn step(t: Tensor<i64>, m: M<i64>, a: u64, b: u64, k: u64) -> (Tensor<i64>, M<i64>) {
    let n = m.e.len();
    match k % 5 {
        0 if !m.d.is_empty() && m.d[0] > 0 => {
            let off = (a % m.d[0] as u64) as usize; let len = 1 + (b % (m.d[0] - off) as u64) as usize;
            let s = prod(&m.d[1..]);
            let mut d = m.d.clone(); d[0] = len;
            (t.subslice(off, len), M::new(d, m.e[off * s..(off + len) * s].to_vec()))
        }
        1 if n > 0 => {
            let off = (a % n as u64) as usize; let len = 1 + (b % (n - off) as u64) as usize;
            let d = if len % 2 == 0 { vec![len / 2, 2] } else { vec![len] };
            (t.subslice_flat(off, len, d.as_slice()), M::new(d, m.e[off..off + len].to_vec()))
        }
        2 => (t.flatten(), M::new(vec![n], m.e)),
        3 if m.d.len() < 6 && n > 0 => { let d = [m.d.clone(), vec![1]].concat(); (t.expand_dims(-1), M::new(d, m.e)) }
        4 => (t.clone(), m),
        _ => (t, m),
    }
}

pub fn c04(c: &mut Ctx) {
    let mut ds = std_shapes(2, 5);
    for _ in 0..if c.thorough { 2000 } else { 300 } { ds.push(c.rshape(2, 5, 300)); }
    for l in c.lits.clone() { if l <= 2000 { ds.push(vec![2, l]); ds.push(vec![l, 2]); ds.push(vec![1, l, 2]); } }
    for d in ds {
        if !c.left() { break; }
        for view in 0..3 {
            if view > 0 && prod(&d) > 400 { continue; }
            let m = ints(&d, 100);
            c.case(|| format!("index {:?} view {}", d, view), || {
                let t = mk(&m, view, -7);
                let at = |ix: &[usize]| -> i64 { match ix.len() { 2 => t[(ix[0], ix[1])], 3 => t[(ix[0], ix[1], ix[2])], 4 => t[(ix[0], ix[1], ix[2], ix[3])], _ => t[(ix[0], ix[1], ix[2], ix[3], ix[4])] } };
                for k in 0..prod(&d) { let ix = unravel(k, &d); eq(&format!("{:?}", ix), at(&ix), m.e[k])?; }
                for k in [0, prod(&d) - 1, prod(&d) / 2] { for z in 0..d.len() { for over in [d[z], d[z] + 1, d[z] * 2 + 3] {
                    let mut ix = unravel(k, &d); ix[z] = over;
                    must_panic(&format!("{:?}", ix), || at(&ix))?;
                }
                for far in [1usize << 8, 1 << 16, 1 << 31, 1 << 32, 1 << 63] {
                    let mut ix = unravel(k, &d); ix[z] = ix[z].wrapping_add(far);
                    if ix[z] >= d[z] { must_panic(&format!("{:?}", ix), || at(&ix))?; }
                } } }
                Ok(())
            });
        }
    }
}

pub fn c05(c: &mut Ctx) {
    let mut ds = std_shapes(0, 6);
    for _ in 0..if c.thorough { 3000 } else { 300 } { ds.push(c.rshape(0, 6, 150)); }
    for d in ds {
        if !c.left() { break; }
        for view in 0..3 {
            let m = ints(&d, 100); let n = prod(&d); let r = d.len();
            c.case(|| format!("views of {:?} view {}", d, view), || {
                let t = || mk(&m, view, -7);
                same("clone", &t().clone(), &m)?;
                same("flatten", &t().flatten(), &M::new(vec![n], m.e.clone()))?;
                for nd in [vec![n], vec![1, n], vec![n, 1], { let mut x = d.clone(); x.reverse(); x }] {
                    if nd.len() <= 6 { same(&format!("reshape {:?}", nd), &t().reshape(nd.as_slice()), &M::new(nd.clone(), m.e.clone()))?; }
                }
                if n == 1 { same("reshape []", &t().reshape(Shape::scalar()), &M::new(vec![], m.e.clone()))?; }
                for bad in [vec![n + 1], vec![n, 2], vec![2, n]] { must_panic(&format!("reshape {:?}", bad), || t().reshape(bad.as_slice()).size())?; }
                if n > 1 { must_panic("reshape short", || t().reshape([n - 1]).size())?; must_panic("reshape []", || t().reshape(Shape::scalar()).size())?; }
                if r < 6 { for a in -(r as isize) - 1..=r as isize {
                    let i = if a >= 0 { a } else { r as isize + a + 1 } as usize;
                    let mut nd = d.clone(); nd.insert(i, 1);
                    same(&format!("expand_dims {}", a), &t().expand_dims(a), &M::new(nd, m.e.clone()))?;
                } }
                let sq: Vec<usize> = d.iter().cloned().filter(|x| *x != 1).collect();
                let sq = if sq.is_empty() { vec![1] } else { sq };
                same("squeeze", &t().squeeze(), &M::new(sq.clone(), m.e.clone()))?;
                same("squeeze_axis none", &t().squeeze_axis(None), &M::new(sq, m.e.clone()))?;
                for a in -(r as isize)..r as isize {
                    let i = if a >= 0 { a } else { r as isize + a } as usize;
                    let mut nd = d.clone(); if nd[i] == 1 { nd.remove(i); } if nd.is_empty() { nd.push(1); }
                    same(&format!("squeeze_axis {}", a), &t().squeeze_axis(Axis::axis(a)), &M::new(nd, m.e.clone()))?;
                }
                if r > 0 {
                    let s = prod(&d[1..]);
                    for off in 0..=d[0] { for len in 1..=d[0] + 2 {
                        if off + len <= d[0] { let mut nd = d.clone(); nd[0] = len; same(&format!("subslice({},{})", off, len), &t().subslice(off, len), &M::new(nd, m.e[off * s..(off + len) * s].to_vec()))?; }
                        else { must_panic(&format!("subslice({},{})", off, len), || t().subslice(off, len).size())?; }
                    } }
                }
                for off in 0..=n + 1 { for len in 0..=n + 2 {
                    if off > 12 && len > 12 { continue; }
                    if off + len <= n { same(&format!("subslice_flat({},{})", off, len), &t().subslice_flat(off, len, [len]), &M::new(vec![len], m.e[off..off + len].to_vec()))?; 
                        must_panic("subslice_flat wrong shape", || t().subslice_flat(off, len, [len + 1]).size())?;
                        if len != 1 { must_panic("subslice_flat scalar shape", || t().subslice_flat(off, len, Shape::scalar()).size())?; } }
                    else { must_panic(&format!("subslice_flat({},{})", off, len), || t().subslice_flat(off, len, [len]).size())?; }
                } }
                must_panic("subslice_flat huge", || t().subslice_flat(usize::MAX, 1, [1]).size())
            });
        }
    }
    while c.until(0.8) && c.evals < if c.thorough { 60000 } else { 8000 } {
        let d = c.rshape(1, 4, 300);
        let m = ints(&d, 100);
        let steps: Vec<(u64, u64, u64)> = (0..c.rng.range(2, 6)).map(|_| (c.rng.next(), c.rng.next(), c.rng.next())).collect();
        c.case(|| format!("chain of views of {:?} by {:?}", d, steps), || {
            let mut t = mk(&m, 0, 0); let mut mm = m.clone();
            for (a, b, k) in &steps { (t, mm) = step(t, mm, *a, *b, *k); same("view", &t, &mm)?; }
            Ok(())
        });
    }
}
