use crate::core::*;
use essay_tensor::tensor::{Axis, FoldState, Tensor, Type};

// tagged values make every call observable
#[derive(Clone, Debug, PartialEq)]
pub struct Tag(pub String);
impl Type for Tag {}

fn bc(a: &[usize], b: &[usize]) -> Option<Vec<usize>> {
    let m = a.len().min(b.len());
    if a[a.len() - m..] != b[b.len() - m..] { return None; }
    Some(if a.len() < b.len() { b.to_vec() } else { a.to_vec() })
}

pub fn c06(c: &mut Ctx) {
    let mut ds = std_shapes(0, 6);
    ds.push(vec![0]); ds.push(vec![2, 0]);
    for _ in 0..if c.thorough { 2000 } else { 300 } { ds.push(c.rshape(0, 6, 400)); }
    for l in c.lits.clone() { if l <= 3000 { ds.push(vec![l]); ds.push(vec![2, l]); } }
    let ds2 = ds.clone();
    for d in ds {
        if !c.left() { break; }
        for view in 0..3 {
            let m = strs(&d, "a");
            c.case(|| format!("map {:?} view {}", d, view), || {
                let t = mk(&m, view, "junk".into());
                let mut calls = vec![];
                let r = t.map(|x| { calls.push(x.clone()); Tag(format!("f({},{})", x, calls.len())) });
                eq("calls", calls, m.e.clone())?;
                same("map", &r, &M::new(d.clone(), m.e.iter().enumerate().map(|(i, x)| Tag(format!("f({},{})", x, i + 1))).collect()))
            });
        }
    }
    let run2 = |c: &mut Ctx, a: Vec<usize>, b: Vec<usize>, v: usize| {
        let (ma, mb) = (strs(&a, "a"), ints(&b, 100));
        c.case(|| format!("map2 {:?} {:?} views {}", a, b, v), || {
            let (ta, tb) = (mk(&ma, v, "junk".into()), mk(&mb, v / 3, -7));
            let mut calls = 0usize;
            let mut f = |x: &String, y: &i64| { calls += 1; Tag(format!("{}|{}|{}", x, y, calls)) };
            match bc(&a, &b) {
                None => must_panic("map2", || ta.map2(&tb, |_, _| 0i64).shape().as_vec()),
                Some(d) => {
                    let r = ta.map2(&tb, &mut f);
                    let n = prod(&d);
                    same("map2", &r, &M::new(d.clone(), (0..n).map(|k| Tag(format!("{}|{}|{}", ma.e[k % ma.e.len()], mb.e[k % mb.e.len()], k + 1))).collect()))?;
                    // both operands over one storage, and a tensor with itself
                    let mc = strs(&b, "c"); let (sa, sc) = mk2(&ma, &mc, v, "junk".into());
                    same("map2 shared", &sa.map2(&sc, |x, y| format!("{}|{}", x, y)), &M::new(d.clone(), (0..n).map(|k| format!("{}|{}", ma.e[k % ma.e.len()], mc.e[k % mc.e.len()])).collect()))?;
                    let whole = ta.clone().reshape([ma.e.len()]); let k = b.iter().product::<usize>();
                    if k <= ma.e.len() && ma.e.len() % k == 0 { let win = whole.subslice_flat(ma.e.len() - k, k, b.as_slice());
                        same("map2 overlapping", &ta.map2(&win, |x, y| format!("{}|{}", x, y)), &M::new(d, (0..n).map(|i| format!("{}|{}", ma.e[i % ma.e.len()], ma.e[ma.e.len() - k + i % k])).collect()))?; }
                    same("map2 itself", &ta.map2(&ta, |x, y| format!("{}|{}", x, y)), &M::new(a.clone(), ma.e.iter().map(|x| format!("{}|{}", x, x)).collect()))
                }
            }
        });
    };
    for d in ds2.iter().filter(|d| !d.contains(&0)) {
        if !c.until(0.6) { break; }
        for k in 0..=d.len() { let v = c.rng.below(9); run2(c, d.clone(), d[k..].to_vec(), v); let v = c.rng.below(9); run2(c, d[k..].to_vec(), d.clone(), v);
            if k < d.len() { let mut o = d[k..].to_vec(); o[0] += 1; run2(c, d.clone(), o.clone(), 0); run2(c, o, d.clone(), 0); } }
    }
    let tmax = if c.thorough { 40000 } else { 4000 };
    let mut n = 0;
    while c.until(0.9) && n < tmax {
        n += 1;
        let full = c.rshape(0, 6, 200);
        let mut ops: Vec<Vec<usize>> = vec![];
        for _ in 0..3 { let k = if c.rng.below(3) == 0 { 0 } else { c.rng.below(full.len() + 1) }; ops.push(full[k..].to_vec()); }
        if c.rng.below(8) == 0 { let i = c.rng.below(3); if !ops[i].is_empty() { let j = c.rng.below(ops[i].len()); ops[i][j] += 1; } }
        let v = c.rng.below(27);
        let (a, b, cc) = (ops[0].clone(), ops[1].clone(), ops[2].clone());
        let (ma, mb, mc) = (strs(&a, "a"), ints(&b, 100), strs(&cc, "c"));
        c.case(|| format!("map3 {:?} {:?} {:?} views {}", a, b, cc, v), || {
            let (ta, tb, tc) = (mk(&ma, v, "j".into()), mk(&mb, v / 3, -7), mk(&mc, v / 9, "j".into()));
            match bc(&a, &b).and_then(|d| bc(&d, &cc)) {
                None => must_panic("map3", || ta.map3(&tb, &tc, |_, _, _| 0i64).shape().as_vec()),
                Some(d) => {
                    let mut calls = 0usize;
                    let r = ta.map3(&tb, &tc, |x, y, z| { calls += 1; Tag(format!("{}|{}|{}|{}", x, y, z, calls)) });
                    let n = prod(&d);
                    same("map3", &r, &M::new(d, (0..n).map(|k| Tag(format!("{}|{}|{}|{}", ma.e[k % ma.e.len()], mb.e[k % mb.e.len()], mc.e[k % mc.e.len()], k + 1))).collect()))
                }
            }
        });
    }
}

// lanes of d along axis i: for every remaining coordinate (row-major) the flat positions in axis order
fn lanes(d: &[usize], ax: Option<usize>) -> (Vec<usize>, Vec<Vec<usize>>) {
    match ax {
        None => (vec![], vec![(0..prod(d)).collect()]),
        Some(i) => {
            let mut od = d.to_vec(); od.remove(i);
            let l = (0..prod(&od)).map(|k| { let ix = unravel(k, &od); (0..d[i]).map(|j| { let mut x = ix.clone(); x.insert(i, j); ravel(&x, d) }).collect() }).collect();
            (od, l)
        }
    }
}
fn ax(i: Option<isize>) -> Axis { Axis::axis_opt(i) }
fn norm(a: isize, r: usize) -> usize { if a >= 0 { a as usize } else { (a + r as isize) as usize } }

#[derive(Clone)]
struct St(String);
impl FoldState for St { type Out = Tag; fn into_result(self) -> Tag { Tag(format!("<{}>", self.0)) } }

fn axes(r: usize) -> Vec<Option<isize>> { let mut v: Vec<Option<isize>> = vec![None]; for a in -(r as isize)..r as isize { v.push(Some(a)); } v }

pub fn c07(c: &mut Ctx) {
    let mut ds = std_shapes(1, 6);
    for _ in 0..if c.thorough { 4000 } else { 400 } { ds.push(c.rshape(1, 6, 300)); }
    for l in c.lits.clone() { if l <= 2000 { ds.push(vec![l]); ds.push(vec![2, l]); ds.push(vec![l, 2]); } }
    ds.insert(0, vec![]);
    for d in ds {
        if !c.left() { break; }
        let r = d.len();
        for a in axes(r) {
            let view = c.rng.below(3);
            let m = strs(&d, "");
            c.case(|| format!("reduce/fold {:?} axis {:?} view {}", d, a, view), || {
                let t = mk(&m, view, "junk".into());
                let (od, ls) = lanes(&d, a.map(|a| norm(a, r)));
                let red = |l: &Vec<usize>| { let mut s = m.e[l[0]].clone(); for k in &l[1..] { s = format!("({}+{})", s, m.e[*k]); } s };
                let fol = |l: &Vec<usize>| { let mut s = "i".to_string(); for k in l { s = format!("({},{})", s, m.e[*k]); } Tag(format!("<{}>", s)) };
                if d.is_empty() && a.is_some() { return Ok(()); }
                same("reduce_axis", &t.reduce_axis(ax(a), |x, y| format!("({}+{})", x, y)), &M::new(od.clone(), ls.iter().map(red).collect()))?;
                same("fold_axis", &t.fold_axis(ax(a), St("i".into()), |s, v| St(format!("({},{})", s.0, v))), &M::new(od.clone(), ls.iter().map(fol).collect()))?;
                if a.is_none() {
                    same("reduce", &t.reduce(|x, y| format!("({}+{})", x, y)), &M::new(vec![], ls.iter().map(red).collect()))?;
                    same("fold", &t.fold(St("i".into()), |s, v| St(format!("({},{})", s.0, v))), &M::new(vec![], ls.iter().map(fol).collect()))?;
                    // a plain value is its own state
                    let mi = ints(&d, 3);
                    same("fold plain", &mk(&mi, view, 0).fold(7i64, |s, v| s.wrapping_mul(3).wrapping_add(*v)), &M::new(vec![], vec![mi.e.iter().fold(7i64, |s, v| s.wrapping_mul(3).wrapping_add(*v))]))?;
                }
                Ok(())
            });
        }
    }
}

pub fn c08(c: &mut Ctx) {
    let mut ds = std_shapes(1, 5);
    for _ in 0..if c.thorough { 4000 } else { 400 } { ds.push(c.rshape(1, 5, 300)); }
    for l in c.lits.clone() { if l <= 2000 { ds.push(vec![l]); ds.push(vec![2, l]); ds.push(vec![l, 2]); } }
    fn one<const N: usize>(d: &[usize], view: usize) -> Result<(), String> {
        let m = strs(d, "");
        let t = mk(&m, view, "junk".into());
        let cols = d[d.len() - 1];
        let rows: Vec<&[String]> = m.e.chunks(cols).collect();
        let mut calls = vec![];
        let r = t.map_row::<N, Tag>(|row| { calls.push(row.to_vec()); let n = calls.len(); std::array::from_fn(|k| Tag(format!("{}:{}:{}", row.join(","), n, k))) });
        eq("map_row calls", calls, rows.iter().map(|r| r.to_vec()).collect::<Vec<_>>())?;
        let mut od = d.to_vec();
        if N == 1 && d.len() > 1 { od.pop(); } else { *od.last_mut().unwrap() = N; }
        let mut e = vec![];
        for (i, row) in rows.iter().enumerate() { for k in 0..N { e.push(Tag(format!("{}:{}:{}", row.join(","), i + 1, k))); } }
        same("map_row", &r, &M::new(od, e))?;
        let mut calls = vec![];
        let r = t.map_expand::<N, Tag>(|x| { calls.push(x.clone()); let n = calls.len(); std::array::from_fn(|k| Tag(format!("{}:{}:{}", x, n, k))) });
        eq("map_expand calls", calls, m.e.clone())?;
        let mut od = d.to_vec(); od.push(N);
        let mut e = vec![];
        for (i, x) in m.e.iter().enumerate() { for k in 0..N { e.push(Tag(format!("{}:{}:{}", x, i + 1, k))); } }
        same("map_expand", &r, &M::new(od, e))?;
        // fold_row
        let outer = &d[..d.len() - 1];
        for a in axes(d.len()) {
            let (od, ls) = match a {
                None => (vec![], vec![(0..prod(outer)).collect::<Vec<_>>()]),
                Some(a) => { let i = norm(a, d.len());
                    if d.len() == 1 { (vec![], vec![vec![0]]) }
                    else if i + 1 >= d.len() { must_panic("fold_row innermost", || t.fold_row::<N, _, _, Tag>(ax(Some(a)), std::array::from_fn(|_| Tag("".into())), |s: [Tag; N], _| s).size())?; continue; }
                    else { lanes(outer, Some(i)) } }
            };
            let mut od = od; od.push(N);
            let r = t.fold_row::<N, [Tag; N], _, Tag>(ax(a), std::array::from_fn(|k| Tag(format!("i{}", k))), |s, row| std::array::from_fn(|k| Tag(format!("({};{})", s[k].0, row.join(",")))));
            let mut e = vec![];
            for l in &ls { for k in 0..N { let mut s = format!("i{}", k); for j in l { s = format!("({};{})", s, rows[*j].join(",")); } e.push(Tag(s)); } }
            same(&format!("fold_row axis {:?}", a), &r, &M::new(od, e))?;
        }
        Ok(())
    }
    for d in ds {
        if !c.left() { break; }
        for view in 0..3 {
            c.case(|| format!("row maps {:?} N=1 view {}", d, view), || one::<1>(&d, view));
            c.case(|| format!("row maps {:?} N=2 view {}", d, view), || one::<2>(&d, view));
            c.case(|| format!("row maps {:?} N=3 view {}", d, view), || one::<3>(&d, view));
            if view == 0 && prod(&d) < 40 { c.case(|| format!("row maps {:?} N=5 view {}", d, view), || one::<5>(&d, view)); }
        }
    }
}

pub fn c09(c: &mut Ctx) {
    let mut ds = std_shapes(1, 6);
    for _ in 0..if c.thorough { 4000 } else { 400 } { ds.push(c.rshape(1, 6, 200)); }
    for l in c.lits.clone() { if l <= 1000 { ds.push(vec![l]); ds.push(vec![2, l]); ds.push(vec![l, 2]); } }
    for d in ds {
        if !c.left() { break; }
        let r = d.len();
        for a in axes(r) {
            let view = c.rng.below(3);
            let m = strs(&d, "");
            c.case(|| format!("normalize {:?} axis {:?} view {}", d, a, view), || {
                let t = mk(&m, view, "junk".into());
                let (_, ls) = lanes(&d, a.map(|a| norm(a, r)));
                let mut e = vec![Tag("".into()); m.e.len()];
                for l in &ls { let mut s = "i".to_string(); for k in l { s = format!("{}.{}", s, m.e[*k]); } for k in l { e[*k] = Tag(format!("[{}]{}", s, m.e[*k])); } }
                let g = t.normalize(ax(a), "i".to_string(), |s, v| format!("{}.{}", s, v), |s| Tag(format!("[{}]", s)), |s, v| Tag(format!("{}{}", s.0, v)));
                same("normalize", &g, &M::new(d.clone(), e))
            });
        }
        let m = floats(&d, &mut c.rng);
        let view = c.rng.below(3);
        c.case(|| format!("normalize_unit {:?} {:?}", d, &m.e[..m.e.len().min(12)]), || {
            let t: Tensor<f32> = mk(&m, view, 99.);
            let lo = m.e.iter().cloned().fold(f32::MAX, f32::min); let hi = m.e.iter().cloned().fold(f32::MIN, f32::max);
            let w: Vec<u32> = m.e.iter().map(|v| ((v - lo) / (hi - lo)).to_bits()).collect();
            let g = t.normalize_unit();
            eq("shape", g.shape().as_vec(), d.clone())?;
            let nan = |b: &Vec<u32>| b.iter().map(|x| if f32::from_bits(*x).is_nan() { 0x7fc00000 } else { *x }).collect::<Vec<_>>();
            eq("normalize_unit", nan(&g.iter().map(|x| x.to_bits()).collect()), nan(&w))
        });
    }
}
