use crate::chk;
use crate::core::*;
use essay_tensor::tensor::{Axis, Shape};

fn mkshape(d: &[usize]) -> Shape { Shape::from(d) }
// every dimension list of rank 0..=6 over a few distinct values
fn lists(c: &mut Ctx) -> Vec<Vec<usize>> {
    let mut v: Vec<Vec<usize>> = vec![];
    for r in 0..=6 {
        v.push((0..r).map(|i| 2 + i).collect());
        v.push((0..r).map(|i| 9 - i).collect());
        v.push(vec![1; r]);
        v.push((0..r).map(|i| if i % 2 == 0 { 1 } else { i + 2 }).collect());
        v.push((0..r).map(|i| if i % 2 == 1 { 1 } else { i + 2 }).collect());
        v.push(vec![3; r]);
        for k in 0..(1usize << r) { v.push((0..r).map(|i| if k >> i & 1 == 1 { 1 } else { i + 2 }).collect()); }
    }
    for r in 1..=6 { for z in 0..r { v.push((0..r).map(|i| if i == z { 0 } else { i + 2 }).collect()); } }
    let n = if c.thorough { 4000 } else { 800 };
    for _ in 0..n { v.push(c.rshape(0, 6, 2_000_000_000)); }
    for l in c.lits.clone() { v.push(vec![l]); v.push(vec![l, 2]); v.push(vec![3, l]); v.push(vec![2, l, 1]); }
    v
}
// edit(list) either gives the list or says "must panic"
fn same(what: &str, f: impl FnOnce() -> Shape, want: Option<Vec<usize>>) -> Result<(), String> {
    match want {
        None => must_panic(what, || f().as_vec()),
        Some(w) => {
            let s = f();
            eq(&format!("{} as_vec", what), s.as_vec(), w.clone())?;
            eq(&format!("{} rank", what), s.rank(), w.len())?;
            // equality must not see anything but the list
            let fresh = mkshape(&w);
            chk!(s == fresh && fresh == s, "{}: edited shape {:?} is not == the shape with the same list", what, w);
            chk!(s.clone() == fresh, "{}: clone differs", what);
            for k in 0..w.len() { let mut o = w.clone(); o[k] += 1; chk!(s != mkshape(&o), "{}: {:?} == {:?}", what, w, o); }
            if w.len() < 6 { let mut o = w.clone(); o.push(1); chk!(s != mkshape(&o), "{}: {:?} == {:?}", what, w, o);
                let mut o = w.clone(); o.insert(0, 0); chk!(s != mkshape(&o), "{}: {:?} == {:?}", what, w, o); }
            Ok(())
        }
    }
}
fn upd(d: &[usize], i: usize, v: usize) -> Vec<usize> { let mut x = d.to_vec(); x[i] = v; x }
fn ins(d: &[usize], i: usize, v: usize) -> Vec<usize> { let mut x = d.to_vec(); x.insert(i, v); x }
fn del(d: &[usize], i: usize) -> Vec<usize> { let mut x = d.to_vec(); x.remove(i); x }
fn or1(v: Vec<usize>) -> Vec<usize> { if v.is_empty() { vec![1] } else { v } }

pub fn edits(d: &[usize], src: &dyn Fn() -> Shape) -> Result<(), String> {
    let r = d.len();
    for v in [0usize, 1, 7, 4_000_000_000] {
        for i in 0..=r + 2 {
            let w = if i < r { Some(upd(d, i, v)) } else { None };
            same(&format!("replace({},{})", i, v), || src().replace(i, v), w.clone())?;
            same(&format!("with_dim({},{})", i, v), || src().with_dim(i, v), w)?;
            same(&format!("rreplace({},{})", i, v), || src().rreplace(i, v), if i < r { Some(upd(d, r - 1 - i, v)) } else { None })?;
            same(&format!("insert({},{})", i, v), || src().insert(i, v), if i <= r && r < 6 { Some(ins(d, i, v)) } else { None })?;
            same(&format!("rinsert({},{})", i, v), || src().rinsert(i, v), if i <= r && r < 6 { Some(ins(d, r - i, v)) } else { None })?;
        }
        same(&format!("with_cols({})", v), || src().with_cols(v), if r > 0 { Some(upd(d, r - 1, v)) } else { None })?;
        same(&format!("with_rows({})", v), || src().with_rows(v), if r > 1 { Some(upd(d, r - 2, v)) } else { None })?;
        same(&format!("push({})", v), || src().push(v), if r < 6 { Some(ins(d, 0, v)) } else { None })?;
    }
    for i in 0..=r + 1 {
        same(&format!("remove({})", i), || src().remove(i), if i < r { Some(del(d, i)) } else { None })?;
        same(&format!("rremove({})", i), || src().rremove(i), if i < r { Some(del(d, r - 1 - i)) } else { None })?;
    }
    same("pop", || src().pop(), if r > 0 { Some(del(d, 0)) } else { None })?;
    if r > 0 { same("reduce", || src().reduce(), Some(if r > 1 { del(d, r - 1) } else { vec![1] }))?; }
    for n in 0..=4usize {
        let tail: Vec<usize> = (0..n).map(|k| 11 + k).collect();
        let mut w = tail.clone(); w.reverse(); w.extend_from_slice(d);
        same(&format!("append({:?})", tail), || src().append(&tail), if r + n <= 6 { Some(w) } else { None })?;
    }
    if !d.contains(&0) {
        for a in -(r as isize) - 1..=(r as isize) {
            let i = if a >= 0 { a } else { r as isize + a + 1 } as usize;
            same(&format!("expand_dims({})", a), || src().expand_dims(a), if i <= r && r < 6 { Some(ins(d, i, 1)) } else { None })?;
        }
        same(&format!("expand_dims({})", r + 1), || src().expand_dims(r as isize + 1), None)?;
        same(&format!("expand_dims({})", r + 2), || src().expand_dims(-(r as isize) - 2), None)?;
    }
    same("squeeze(None)", || src().squeeze(None), Some(or1(d.iter().cloned().filter(|x| *x != 1).collect())))?;
    for a in -(r as isize)..(r as isize) {
        let i = if a >= 0 { a } else { r as isize + a } as usize;
        same(&format!("squeeze({})", a), || src().squeeze(a), Some(if d[i] == 1 { or1(del(d, i)) } else { d.to_vec() }))?;
        same(&format!("squeeze(Some({}))", a), || src().squeeze(Axis::axis(a)), Some(if d[i] == 1 { or1(del(d, i)) } else { d.to_vec() }))?;
    }
    Ok(())
}

pub fn c02(c: &mut Ctx) {
    for d in lists(c) {
        if !c.left() { break; }
        let dd = d.clone();
        c.case(|| format!("Shape::from({:?})", dd), || {
            eq("as_vec", mkshape(&dd).as_vec(), dd.clone())?;
            edits(&dd, &|| mkshape(&dd))
        });
    }
    for n in [0usize, 1, 2, 9] {
        c.case(|| format!("constructors {}", n), || {
            if n == 0 { must_panic("vector(0)", || Shape::vector(0))?; } else { same("vector", || Shape::vector(n), Some(vec![n]))?; }
            same("scalar", || Shape::scalar(), Some(vec![]))?;
            same("from usize", || Shape::from(n), Some(vec![n]))?;
            same("from []", || Shape::from([n, 2]), Some(vec![n, 2]))?;
            same("from [6]", || Shape::from([1, 2, n, 4, 5, 6]), Some(vec![1, 2, n, 4, 5, 6]))?;
            same("from [7]", || Shape::from([1, 2, n, 4, 5, 6, 7]), None)?;
            same("from slice 7", || Shape::from(&[1, 2, n, 4, 5, 6, 7][..]), None)?;
            if n > 0 { same("from vec", || Shape::from(vec![n, 3, 4]), Some(vec![n, 3, 4]))?; }
            same("from vec 7", || Shape::from(vec![1, 2, 3, 4, 5, 6, 7]), None)?;
            same("from &shape", || Shape::from(&Shape::from([n, 5])), Some(vec![n, 5]))
        });
    }
    // histories: a chain of edits, then every edit from the resulting shape
    let n = if c.thorough { 20000 } else { 1500 };
    for _ in 0..n {
        if !c.left() { break; }
        let start = c.rshape(0, 4, 1_000_000);
        let mut d = start.clone();
        let mut ops: Vec<(usize, usize, usize)> = vec![];
        for _ in 0..c.rng.range(1, 6) {
            let r = d.len();
            let v = c.rng.range(1, 9);
            let op = c.rng.below(10);
            let i = c.rng.below(r + 1);
            match op {
                0 if i < r => d = upd(&d, i, v),
                1 if r < 6 => d = ins(&d, i, v),
                2 if i < r => d = del(&d, i),
                3 if r < 6 => d = ins(&d, 0, v),
                4 if r > 0 => d = del(&d, 0),
                5 if r > 0 => d = if r > 1 { del(&d, r - 1) } else { vec![1] },
                6 => d = or1(d.into_iter().filter(|x| *x != 1).collect()),
                7 if r > 0 => d = upd(&d, r - 1, v),
                8 if r > 1 => d = upd(&d, r - 2, v),
                9 if r < 6 => d = ins(&d, r - i, v),
                _ => continue,
            }
            ops.push((op, i, v));
        }
        let build = || {
            let mut s = Shape::from(start.as_slice());
            for &(op, i, v) in &ops {
                s = match op { 0 => s.replace(i, v), 1 => s.insert(i, v), 2 => s.remove(i), 3 => s.push(v), 4 => s.pop(), 5 => s.reduce(),
                    6 => s.squeeze(None), 7 => s.with_cols(v), 8 => s.with_rows(v), _ => s.rinsert(i, v) };
            }
            s
        };
        c.case(|| format!("chain from {:?} ops {:?}", start, ops), || { same("chain", || build(), Some(d.clone()))?; edits(&d, &build) });
    }
}

pub fn c03(c: &mut Ctx) {
    let mut ls = lists(c);
    ls.retain(|d| d.iter().fold(1u64, |a, b| a.saturating_mul(*b as u64)) < u32::MAX as u64);
    for d in &ls {
        if !c.left() { break; }
        let (d, r) = (d.clone(), d.len());
        c.case(|| format!("measures of {:?}", d), || {
            let s = mkshape(&d);
            eq("rank", s.rank(), r)?; eq("size", s.size(), prod(&d))?; eq("as_vec", s.as_vec(), d.clone())?;
            eq("cols", s.cols(), if r > 0 { d[r - 1] } else { 0 })?;
            eq("rows", s.rows(), if r > 1 { d[r - 2] } else { 0 })?;
            if r > 0 { eq("len", s.len(), d[0])?; }
            for i in 0..r { eq("dim", s.dim(i), d[i])?; eq("rdim", s.rdim(i), d[r - 1 - i])?; }
            must_panic("dim(rank)", || s.dim(r))?;
            for a in -(r as isize)..(r as isize) {
                let i = if a >= 0 { a } else { a + r as isize } as usize;
                eq("idim", s.idim(a), d[i])?;
                eq("axis_from_rank", Axis::axis(a).axis_from_rank(r), i)?;
                eq("get_axis", Axis::axis(a).get_axis(), Some(a))?;
                eq("get_axis", Axis::from(Some(a)).get_axis(), Some(a))?;
                eq("get_axis", Axis::from(a).get_axis(), Some(a))?;
            }
            eq("get_axis", Axis::from(None).get_axis(), None)?;
            for a in 0..=r { for b in a..=r {
                eq(&format!("sublen({},{})", a, b), s.sublen(a, b), prod(&d[a..b]))?;
                eq(&format!("rsublen({},{})", a, b), s.rsublen(a, b), prod(&d[r - b..r - a]))?;
            } }
            for b in 0..=r + 2 { eq(&format!("batch_len({})", b), s.batch_len(b), if b < r { prod(&d[..r - b]) } else { 1 })?; }
            must_panic("sublen past rank", || s.sublen(0, r + 1))?;
            Ok(())
        });
        for a in -(r as isize)..(r as isize) {
            c.case(|| format!("Axis({}).reduce of {:?}", a, d), || {
                let s = mkshape(&d);
                let i = if a >= 0 { a } else { a + r as isize } as usize;
                if d.contains(&0) { return Ok(()); }
                let (os, outer, len, inner) = Axis::axis(a).reduce(&s);
                eq("reduce shape", os.as_vec(), del(&d, i))?;
                eq("reduce dims", (outer, len, inner), (prod(&d[..i]), d[i], prod(&d[i + 1..])))?;
                let (os, outer, len, inner) = Axis::from(None).reduce(&s);
                eq("reduce None", (os.as_vec(), outer, len, inner), (vec![], 1, prod(&d), 1))
            });
        }
    }
    // broadcast pairs
    let mut pairs: Vec<(Vec<usize>, Vec<usize>)> = vec![];
    for d in ls.iter().take(400) { for k in 0..=d.len() { pairs.push((d.clone(), d[k..].to_vec())); pairs.push((d[k..].to_vec(), d.clone())); 
        for z in k..d.len() { let mut o = d[k..].to_vec(); o[z - k] += 1; pairs.push((d.clone(), o.clone())); pairs.push((o, d.clone())); }
        if k > 0 { let mut o = d[k..].to_vec(); o.insert(0, d[k - 1] + 1); pairs.push((d.clone(), o)); } } }
    for _ in 0..if c.thorough { 20000 } else { 3000 } { let a = c.rshape(0, 6, 100000); let b = if c.rng.below(2) == 0 { let k = c.rng.below(a.len() + 1); a[k..].to_vec() } else { c.rshape(0, 6, 100000) }; pairs.push((a, b)); }
    for (a, b) in pairs {
        if !c.left() { break; }
        if prod(&a) > u32::MAX as usize || prod(&b) > u32::MAX as usize { continue; }
        c.case(|| format!("broadcast {:?} {:?}", a, b), || {
            let (sa, sb) = (mkshape(&a), mkshape(&b));
            let m = a.len().min(b.len());
            let ok = a[a.len() - m..] == b[b.len() - m..];
            let w = if a.len() < b.len() { b.clone() } else { a.clone() };
            if ok {
                eq("broadcast_to", sa.broadcast_to(&sb).as_vec(), w.clone())?;
                eq("broadcast", sa.broadcast(&sb), prod(&w))?;
                sa.check_broadcast(&sb);
            } else {
                must_panic("broadcast_to", || sa.broadcast_to(&sb))?;
                must_panic("broadcast", || sa.broadcast(&sb))?;
                must_panic("check_broadcast", || sa.check_broadcast(&sb))?;
            }
            for am in 0..=a.len().min(2) { for bm in 0..=b.len().min(2) {
                let (x, y) = (&a[..a.len() - am], &b[..b.len() - bm]);
                let m = x.len().min(y.len());
                let ok = x[x.len() - m..] == y[y.len() - m..];
                let w = if x.len() < y.len() { prod(y) } else { prod(x) };
                if ok { eq("broadcast_min", sa.broadcast_min(am, &sb, bm), w)?; } else { must_panic("broadcast_min", || sa.broadcast_min(am, &sb, bm))?; }
            } }
            Ok(())
        });
    }
}
