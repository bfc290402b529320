use crate::core::*;
use essay_tensor::array::*;
use essay_tensor::tensor::{Axis, Tensor};

fn m_concat(ms: &[M<i64>], ax: usize) -> M<i64> {
    let mut d = ms[0].d.clone();
    d[ax] = ms.iter().map(|m| m.d[ax]).sum();
    M::gen(&d, |ix| { let mut k = ix[ax]; for m in ms { if k < m.d[ax] { let mut x = ix.to_vec(); x[ax] = k; return *m.at(&x); } k -= m.d[ax]; } unreachable!() })
}
fn m_stack(ms: &[M<i64>], ax: usize) -> M<i64> {
    let mut d = ms[0].d.clone(); d.insert(ax, ms.len());
    M::gen(&d, |ix| { let mut x = ix.to_vec(); let k = x.remove(ax); *ms[k].at(&x) })
}

pub fn c10(c: &mut Ctx) {
    let mut cases: Vec<(Vec<usize>, usize, Vec<usize>)> = vec![];  // base shape, axis, lengths along the axis
    for d in std_shapes(1, 4) { for ax in 0..d.len() { cases.push((d.clone(), ax, vec![d[ax]])); cases.push((d.clone(), ax, vec![1, d[ax]])); cases.push((d.clone(), ax, vec![d[ax], 2, 1])); } }
    for d in shapes(5, 6, 2, 64).into_iter().step_by(3) { let ax = c.rng.below(d.len()); cases.push((d, ax, vec![1, 2])); }
    for _ in 0..if c.thorough { 5000 } else { 500 } { let d = c.rshape(1, 6, 120); let ax = c.rng.below(d.len()); let mut n = c.rng.range(1, 5);
        if !c.fresh.is_empty() && c.rng.below(6) == 0 { let l = *c.rng.pick(&c.fresh); if l <= 400 { n = l; } }
        let mut ls: Vec<usize> = (0..n).map(|_| c.rng.range(1, 4)).collect();
        if !c.fresh.is_empty() && c.rng.below(3) == 0 { let l = *c.rng.pick(&c.fresh); if l <= 3000 { let k = c.rng.below(ls.len()); ls[k] = l; } }
        if prod(&d) / d[ax] * ls.iter().sum::<usize>() > 30_000 { continue; }
        cases.push((d, ax, ls)); }
    for (d, ax, ls) in cases {
        if !c.left() { break; }
        let r = d.len();
        let v = c.rng.below(27); let rep = c.rng.below(4) == 0;
        let ms: Vec<M<i64>> = ls.iter().enumerate().map(|(i, l)| { let mut x = d.clone(); x[ax] = *l; ints(&x, if rep { 1000 } else { 1000 * (i as i64 + 1) }) }).collect();
        c.case(|| format!("concat {:?} axis {} lengths {:?} views {}", d, ax, ls, v), || {
            let mut ts: Vec<Tensor<i64>> = mk_all(&ms.iter().collect::<Vec<_>>(), v, -7);
            if rep { for i in 1..ts.len() { if ms[i].d == ms[0].d { ts[i] = ts[0].clone(); } } }   // one tensor several times
            let refs: Vec<&Tensor<i64>> = ts.iter().collect();
            let w = m_concat(&ms, ax);
            same("concatenate_axis", &concatenate_axis(ax as isize, ts.clone()), &w)?;
            same("concatenate_axis neg", &concatenate_axis(ax as isize - r as isize, refs.clone()), &w)?;
            same("concatenate_axis slice", &concatenate_axis(Axis::axis(ax as isize), ts.as_slice()), &w)?;
            same("concatenate_axis refs", &concatenate_axis(Axis::axis(ax as isize), refs.as_slice()), &w)?;
            same("t.concatenate_axis", &ts[0].concatenate_axis(ax as isize, ts[1..].to_vec()), &w)?;
            if ts.len() == 2 { same("tuple", &concatenate_axis(ax as isize, (ts[0].clone(), &ts[1])), &w)?; same("array", &concatenate_axis(ax as isize, [&ts[0], &ts[1]]), &w)?; same("array own", &concatenate_axis(ax as isize, [ts[0].clone(), ts[1].clone()]), &w)?; }
            if ax == 0 {
                same("concatenate", &concatenate(ts.clone()), &w)?;
                same("t.concatenate", &ts[0].concatenate(ts[1..].to_vec()), &w)?;
                if ts.len() == 2 { same("append", &ts[0].append(&ts[1]), &w)?; same("append own", &ts[0].append(ts[1].clone()), &w)?; }
                if r == 1 { same("hstack", &hstack(ts.clone()), &w)?; }
            }
            if ax == 1 && r > 1 { same("hstack", &hstack(refs.clone()), &w)?; }
            // disagreeing other dimensions
            for j in 0..r { if j == ax { continue; }
                let mut x = ms[0].d.clone(); x[j] += 1; let bad = mk(&ints(&x, 0), 0, 0);
                must_panic("concat mismatch", || concatenate_axis(ax as isize, vec![ts[0].clone(), bad.clone()]).size())?;
                must_panic("concat mismatch", || concatenate_axis(ax as isize, vec![bad.clone(), ts[0].clone()]).size())?;
                if ax == 0 { must_panic("append mismatch", || ts[0].append(&bad).size())?; must_panic("concatenate mismatch", || concatenate(vec![ts[0].clone(), bad.clone()]).size())?; }
            }
            if r < 6 { let mut x = ms[0].d.clone(); x.push(1); let bad = mk(&ints(&x, 0), 0, 0); must_panic("concat rank mismatch", || concatenate_axis(ax as isize, vec![ts[0].clone(), bad.clone()]).size())?; }
            // same elements split differently: other dims swapped but sizes equal
            if r > 2 { let mut x = ms[0].d.clone(); let (p, q) = { let o: Vec<usize> = (0..r).filter(|j| *j != ax).collect(); (o[0], o[1]) }; x.swap(p, q); if x != ms[0].d { let bad = mk(&ints(&x, 0), 0, 0);
                must_panic("concat swapped", || concatenate_axis(ax as isize, vec![ts[0].clone(), bad.clone()]).size())?; } }
            Ok(())
        });
    }
    // stacking
    let mut cases: Vec<(Vec<usize>, usize)> = vec![];
    for d in std_shapes(0, 4) { for n in 1..=3 { cases.push((d.clone(), n)); } }
    for d in shapes(5, 5, 2, 64).into_iter().step_by(4) { cases.push((d, 2)); }
    for _ in 0..if c.thorough { 4000 } else { 400 } { let d = c.rshape(0, 5, 120); let mut n = c.rng.range(1, 5); if !c.fresh.is_empty() && c.rng.below(4) == 0 { let l = *c.rng.pick(&c.fresh); if l <= 400 { n = l; } } if prod(&d) * n > 30_000 { continue; } cases.push((d, n)); }
    for (d, n) in cases {
        if !c.left() { break; }
        let r = d.len();
        let v = c.rng.below(27); let rep = c.rng.below(4) == 0;
        let ms: Vec<M<i64>> = (0..n).map(|i| ints(&d, if rep { 1000 } else { 1000 * (i as i64 + 1) })).collect();
        c.case(|| format!("stack {} of {:?} views {}", n, d, v), || {
            let mut ts: Vec<Tensor<i64>> = mk_all(&ms.iter().collect::<Vec<_>>(), v, -7);
            if rep { for i in 1..ts.len() { if ms[i].d == ms[0].d { ts[i] = ts[0].clone(); } } }   // one tensor several times
            let refs: Vec<&Tensor<i64>> = ts.iter().collect();
            let w0 = m_stack(&ms, 0);
            same("stack", &stack(ts.clone()), &w0)?;
            same("vstack", &vstack(refs.clone()), &w0)?;
            same("t.vstack", &ts[0].vstack(ts[1..].to_vec()), &w0)?;
            same("from &[Tensor]", &Tensor::from(ts.as_slice()), &w0)?;
            same("from &Vec<Tensor>", &Tensor::from(&ts), &w0)?;
            if n == 2 { same("from [Tensor;2]", &Tensor::from([ts[0].clone(), ts[1].clone()]), &w0)?; }
            for ax in 0..=r {
                let w = m_stack(&ms, ax);
                same(&format!("stack_axis {}", ax), &stack_axis(ax as isize, ts.clone()), &w)?;
                same(&format!("stack_axis neg {}", ax), &stack_axis(ax as isize - r as isize - 1, refs.as_slice()), &w)?;
                same(&format!("t.stack {}", ax), &ts[0].stack(ts[1..].to_vec(), ax as isize), &w)?;
            }
            if r >= 1 && (r == 1 || r == 2 || r >= 3) {
                let e: Vec<M<i64>> = ms.iter().map(|m| M::new(match r { 1 => vec![1, m.d[0], 1], 2 => vec![m.d[0], m.d[1], 1], _ => m.d.clone() }, m.e.clone())).collect();
                let w = m_concat(&e, 2);
                same("dstack", &dstack(ts.clone()), &w)?;
                same("t.dstack", &ts[0].dstack(ts[1..].to_vec()), &w)?;
            }
            for j in 0..r {
                let mut x = d.clone(); x[j] += 1; let bad = mk(&ints(&x, 0), 0, 0);
                must_panic("stack mismatch", || stack(vec![ts[0].clone(), bad.clone()]).size())?;
                must_panic("vstack mismatch", || vstack(vec![ts[0].clone(), bad.clone()]).size())?;
                must_panic("dstack mismatch", || dstack(vec![ts[0].clone(), bad.clone()]).size())?;
                must_panic("from mismatch", || Tensor::from(&vec![ts[0].clone(), bad.clone()]).size())?;
                for ax in 0..=r { must_panic("stack_axis mismatch", || stack_axis(ax as isize, vec![ts[0].clone(), bad.clone()]).size())?; }
            }
            if r >= 2 { let mut x = d.clone(); x.swap(0, r - 1); if x != d { let bad = mk(&ints(&x, 0), 0, 0);
                must_panic("stack swapped", || stack(vec![ts[0].clone(), bad.clone()]).size())?;
                must_panic("vstack swapped", || vstack(vec![ts[0].clone(), bad.clone()]).size())?;
                must_panic("from swapped", || Tensor::from(&vec![ts[0].clone(), bad.clone()]).size())?; } }
            Ok(())
        });
    }
}

pub fn c11(c: &mut Ctx) {
    let mut cases: Vec<(Vec<usize>, usize, Vec<usize>)> = vec![];
    for d in std_shapes(1, 6).into_iter() { for ax in 0..d.len() {
        let n = d[ax];
        cases.push((d.clone(), ax, vec![]));
        for a in 1..n { cases.push((d.clone(), ax, vec![a])); for b in a + 1..n { cases.push((d.clone(), ax, vec![a, b])); } }
    } }
    for _ in 0..if c.thorough { 8000 } else { 800 } {
        let d = c.rshape(1, 6, 300); let ax = c.rng.below(d.len());
        let mut cuts: Vec<usize> = (1..d[ax]).filter(|_| c.rng.below(3) == 0).collect(); cuts.dedup();
        cases.push((d, ax, cuts));
    }
    for (d, ax, cuts) in cases {
        if !c.left() { break; }
        let v = c.rng.below(3); let r = d.len(); let n = d[ax];
        let m = ints(&d, 100);
        c.case(|| format!("split {:?} axis {} cuts {:?} view {}", d, ax, cuts, v), || {
            let t = mk(&m, v, -7);
            let pieces = |b: &[usize]| -> Vec<M<i64>> { b.windows(2).map(|w| { let mut x = d.clone(); x[ax] = w[1] - w[0]; M::gen(&x, |ix| { let mut y = ix.to_vec(); y[ax] += w[0]; *m.at(&y) }) }).collect() };
            let mut b = vec![0]; b.extend(&cuts); b.push(n);
            let want = pieces(&b);
            let cmp = |what: &str, got: Vec<Tensor<i64>>, want: &Vec<M<i64>>| -> Result<(), String> {
                eq(&format!("{} pieces", what), got.len(), want.len())?;
                for (g, w) in got.iter().zip(want) { same(what, g, w)?; }
                same(&format!("{} rejoined", what), &concatenate_axis(ax as isize, got), &m)
            };
            cmp("split_axis cuts", t.split_axis(ax as isize, cuts.clone()), &want)?;
            cmp("split_axis neg", t.split_axis(ax as isize - r as isize, cuts.as_slice()), &want)?;
            cmp("split_axis &vec", t.split_axis(Axis::axis(ax as isize), &cuts), &want)?;
            if ax == 0 { cmp("split", t.split(cuts.clone()), &want)?; cmp("vsplit", t.vsplit(cuts.clone()), &want)?; }
            if ax == 1 { cmp("hsplit", t.hsplit(cuts.clone()), &want)?; }
            if ax == 2 { cmp("dsplit", t.dsplit(cuts.clone()), &want)?; }
            if cuts.len() == 1 { cmp("array", t.split_axis(ax as isize, [cuts[0]]), &want)?; }
            for k in 1..=n { if n % k == 0 {
                let b: Vec<usize> = (0..=k).map(|i| i * (n / k)).collect(); let want = pieces(&b);
                cmp(&format!("sections {}", k), t.split_axis(ax as isize, k), &want)?;
                if ax == 0 { cmp("vsplit", t.vsplit(k), &want)?; cmp("split", t.split(k), &want)?; }
                if ax == 1 { cmp("hsplit", t.hsplit(k), &want)?; }
                if ax == 2 { cmp("dsplit", t.dsplit(k), &want)?; }
            } }
            for past in [n + 1, n + 3, 2 * n + 1] { let mut bad = cuts.clone(); bad.push(past); must_panic(&format!("cuts {:?}", bad), || t.split_axis(ax as isize, bad.clone()).len())?; must_panic("cut past", || t.split_axis(ax as isize, vec![past]).len())?; }
            Ok(())
        });
    }
}

pub fn c12(c: &mut Ctx) {
    let mut ds = std_shapes(1, 6);
    for _ in 0..if c.thorough { 6000 } else { 600 } { ds.push(c.rshape(1, 6, 500)); }
    for l in c.lits.clone() { if l <= 3000 { ds.push(vec![l]); ds.push(vec![2, l]); ds.push(vec![l, 3]); ds.push(vec![2, l, 3]); ds.push(vec![2, 3, l]); if l < 60 { ds.push(vec![l, l]); ds.push(vec![2, l, l]); ds.push(vec![l, 2, 3]); } } }
    for b in 1..=9 { for n in 1..=9 { ds.push(vec![b, n, n]); ds.push(vec![b, n, (n * 3 + b) % 9 + 1]); if n < 6 { ds.push(vec![2, b, n, n]); } } }
    for d in ds {
        if !c.left() { break; }
        for view in 0..3 {
            let m = strs(&d, ""); let r = d.len();
            c.case(|| format!("transpose {:?} view {}", d, view), || {
                let t = mk(&m, view, "junk".into());
                let w = if r == 1 { M::new(vec![d[0], 1], m.e.clone()) } else {
                    let mut x = d.clone(); x.swap(r - 1, r - 2);
                    M::gen(&x, |ix| { let mut y = ix.to_vec(); y.swap(r - 1, r - 2); m.at(&y).clone() }) };
                same("transpose", &t.transpose(), &w)?; same("t", &t.t(), &w)?; same("fn transpose", &transpose(&t), &w)?; same("fn transpose own", &transpose(t.clone()), &w)?;
                if r > 1 { same("twice", &t.t().t(), &m)?; }
                Ok(())
            });
        }
    }
}

pub fn c13(c: &mut Ctx) {
    let mut cases: Vec<(Vec<usize>, Vec<usize>)> = vec![];
    for d in std_shapes(0, 3) { for k in shapes(1, 4, 2, 64) { if prod(&d) * prod(&k) <= 200 { cases.push((d.clone(), k)); } } }
    for d in std_shapes(4, 6).into_iter().step_by(5) { cases.push((d.clone(), vec![2])); cases.push((d.clone(), vec![3, 1])); cases.push((d.clone(), vec![2, 1, 2, 1])); cases.push((d.clone(), vec![2, 1, 1, 1, 1, 1])); }
    for _ in 0..if c.thorough { 10000 } else { 1000 } { let d = c.rshape(0, 6, 60); let k = c.rshape(1, 6, 30); cases.push((d, k)); }
    for (d, k) in cases {
        if !c.left() { break; }
        let v = c.rng.below(3);
        if prod(&d) * prod(&k) > if c.fresh.is_empty() { 3000 } else { 40_000 } { continue; }
        let m = strs(&d, "");
        c.case(|| format!("tile {:?} by {:?} view {}", d, k, v), || {
            let t = mk(&m, v, "junk".into());
            let r = d.len().max(k.len());
            let dd: Vec<usize> = [vec![1; r - d.len()], d.clone()].concat(); let kk: Vec<usize> = [vec![1; r - k.len()], k.clone()].concat();
            let od: Vec<usize> = dd.iter().zip(&kk).map(|(a, b)| a * b).collect();
            let src = M::new(dd.clone(), m.e.clone());
            let w = M::gen(&od, |ix| { let x: Vec<usize> = ix.iter().zip(&dd).map(|(a, b)| a % b).collect(); src.at(&x).clone() });
            same("tile", &t.tile(k.clone()), &w)?;
            same("fn tile", &tile(&t, &Tensor::from(k.clone())), &w)
        });
    }
}
