use crate::core::*;
use essay_tensor::tensor::{Tensor, Type};
use num_complex::Complex;
use num_traits::{Float, MulAdd};

fn pairs(c: &mut Ctx, n: usize) -> Vec<(Vec<usize>, Vec<usize>, Vec<usize>)> {
    let mut v = vec![];
    for i in 0..n {
        let d = if i % 5 == 0 { c.rshape(0, 3, 3000) } else { c.rshape(0, 5, 60) };
        let k = c.rng.below(d.len() + 1);
        let s = if c.rng.below(2) == 0 { d.clone() } else { d[k..].to_vec() };
        if c.rng.below(2) == 0 { v.push((d.clone(), s, d)) } else { v.push((s, d.clone(), d)) }
    }
    v
}
fn zip<A: Clone, B: Clone, R>(a: &M<A>, b: &M<B>, d: &[usize], f: impl Fn(A, B) -> R) -> M<R> {
    let n = prod(d);
    M { d: d.to_vec(), e: (0..n).map(|k| f(a.e[k % a.e.len()].clone(), b.e[k % b.e.len()].clone())).collect() }
}
fn each<A: Clone, R>(a: &M<A>, f: impl Fn(A) -> R) -> M<R> { M { d: a.d.clone(), e: a.e.iter().map(|x| f(x.clone())).collect() } }

macro_rules! ops {
    ($c:ident, $ty:ty, $gen:expr, $d:ident, $v:ident, $($op:tt)*) => { $( {
        let (a, b, d) = &$d;
        let (ma, mb): (M<$ty>, M<$ty>) = (M { d: a.clone(), e: (0..prod(a)).map(|_| $gen(&mut $c.rng)).collect() }, M { d: b.clone(), e: (0..prod(b)).map(|_| $gen(&mut $c.rng)).collect() });
        let s: $ty = $gen(&mut $c.rng);
        $c.case(|| format!("{} {} {:?}={:?} {:?}={:?} scalar {:?} view {}", stringify!($ty), stringify!($op), a, ma.e.iter().take(30).collect::<Vec<_>>(), b, mb.e.iter().take(30).collect::<Vec<_>>(), s, $v), || {
            let (ta, tb) = mk2(&ma, &mb, $v, Default::default());
            let w = zip(&ma, &mb, d, |x, y| x $op y);
            same2("ref op ref", &(&ta $op &tb), &w)?;
            same2("ref op val", &(&ta $op tb.clone()), &w)?;
            same2("val op ref", &(ta.clone() $op &tb), &w)?;
            same2("val op val", &(ta.clone() $op tb.clone()), &w)?;
            same2("ref op scalar", &(&ta $op s), &each(&ma, |x| x $op s))?;
            same2("val op scalar", &(ta.clone() $op s), &each(&ma, |x| x $op s))?;
            same2("scalar op ref", &(s $op &ta), &each(&ma, |x| s $op x))?;
            same2("scalar op val", &(s $op ta.clone()), &each(&ma, |x| s $op x))?;
            Ok(())
        });
    } )* }
}
trait Bits { fn bits(&self) -> String; }
macro_rules! bits_int { ($($t:ty)*) => { $( impl Bits for $t { fn bits(&self) -> String { format!("{:?}", self) } } )* } }
bits_int!(i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize bool String);
impl Bits for f32 { fn bits(&self) -> String { if self.is_nan() { "NaN".into() } else { format!("{:?}", self) } } }
impl Bits for f64 { fn bits(&self) -> String { if self.is_nan() { "NaN".into() } else { format!("{:?}", self) } } }
impl<T: Bits> Bits for Complex<T> { fn bits(&self) -> String { format!("{}+{}i", self.re.bits(), self.im.bits()) } }
impl<T: Bits, U: Bits> Bits for (T, U) { fn bits(&self) -> String { format!("({},{})", self.0.bits(), self.1.bits()) } }
fn same2<T: Type + Bits>(what: &str, t: &Tensor<T>, m: &M<T>) -> Result<(), String> {
    eq(&format!("{} shape", what), t.shape().as_vec(), m.d.clone())?;
    eq(&format!("{} size", what), t.as_slice().len(), m.e.len())?;
    for (i, (g, w)) in t.as_slice().iter().zip(m.e.iter()).enumerate() {
        let (g, w) = (g.bits(), w.bits());
        if g != w { return Err(format!("{} element {}: got {} want {}", what, i, g, w)); }
    }
    Ok(())
}
fn gi(r: &mut Rng) -> i64 { r.below(21) as i64 - 10 }
fn nz(r: &mut Rng) -> i64 { let v = r.below(10) as i64 + 1; if r.below(2) == 0 { v } else { -v } }
fn gf(r: &mut Rng) -> f32 { (r.f() * 64.).round() / 8. - 4.1 }

macro_rules! int_all { ($c:ident, $p:ident, $v:ident, signed: $($s:ty)*; unsigned: $($u:ty)*) => {
    $( ops!($c, $s, (|r: &mut Rng| gi(r) as $s), $p, $v, + - * & | ^); ops!($c, $s, (|r: &mut Rng| nz(r) as $s), $p, $v, / %); ops!($c, $s, (|r: &mut Rng| r.below(4) as $s), $p, $v, << >>); )*
    $( ops!($c, $u, (|r: &mut Rng| r.below(11) as $u), $p, $v, + * & | ^); ops!($c, $u, (|r: &mut Rng| (1 + r.below(11)) as $u), $p, $v, / %); ops!($c, $u, (|r: &mut Rng| r.below(4) as $u), $p, $v, << >>); )*
} }

pub fn c24(c: &mut Ctx) {
    let n = if c.thorough { 4000 } else { 120 };
    for p in pairs(c, n) {
        if !c.until(0.7) { break; }
        let v = c.rng.below(9);
        if v % 2 == 0 { int_all!(c, p, v, signed: i8 i32 i64; unsigned: u8 u32 usize); }
        else { int_all!(c, p, v, signed: i16 i128 isize; unsigned: u16 u64 u128); }
        ops!(c, f32, gf, p, v, + - * / %);
        ops!(c, f64, (|r: &mut Rng| gf(r) as f64), p, v, + - * / %);
        ops!(c, bool, (|r: &mut Rng| r.below(2) == 1), p, v, & | ^);
        // unsigned subtraction: left operand larger
        let (a, b, d) = &p;
        for k in 0..2 {
            let ma: M<u32> = M { d: a.clone(), e: (0..prod(a)).map(|_| 50 + c.rng.below(20) as u32).collect() };
            let mb: M<u32> = M { d: b.clone(), e: (0..prod(b)).map(|_| c.rng.below(20) as u32).collect() };
            c.case(|| format!("u32 - {:?} {:?} {}", a, b, k), || {
                let (ta, tb) = mk2(&ma, &mb, v, 0);
                same2("sub", &(&ta - &tb), &zip(&ma, &mb, d, |x, y| x - y))?;
                same2("sub scalar", &(&ta - 3u32), &each(&ma, |x| x - 3))?;
                same2("scalar sub", &(100u32 - &ta), &each(&ma, |x| 100 - x))?;
                same2("scalar sub val", &(100u32 - ta.clone()), &each(&ma, |x| 100 - x))
            });
        }
        let ma: M<i64> = M { d: a.clone(), e: (0..prod(a)).map(|_| gi(&mut c.rng)).collect() };
        let mb: M<i64> = M { d: b.clone(), e: (0..prod(b)).map(|_| gi(&mut c.rng)).collect() };
        let fa: M<f32> = M { d: a.clone(), e: (0..prod(a)).map(|_| gf(&mut c.rng)).collect() };
        let fb: M<f32> = M { d: b.clone(), e: (0..prod(b)).map(|_| gf(&mut c.rng)).collect() };
        c.case(|| format!("unary/min/max {:?}={:?} {:?}={:?} view {}", a, ma.e.iter().take(30).collect::<Vec<_>>(), b, mb.e.iter().take(30).collect::<Vec<_>>(), v), || {
            use num_traits::Signed;
            let (ta, tb) = mk2(&ma, &mb, v, 77);
            let (sa, sb) = mk2(&fa, &fb, v, 77.);
            same2("-ref", &(-&ta), &each(&ma, |x| -x))?; same2("-val", &(-ta.clone()), &each(&ma, |x| -x))?;
            same2("!ref", &(!&ta), &each(&ma, |x| !x))?; same2("!val", &(!ta.clone()), &each(&ma, |x| !x))?;
            same2("-f", &(-&sa), &each(&fa, |x| -x))?;
            same2("abs", &ta.abs(), &each(&ma, |x| x.abs()))?; same2("abs f", &sa.abs(), &each(&fa, |x| x.abs()))?;
            same2("neg", &Tensor::neg(&ta), &each(&ma, |x| -x))?;
            same2("abs_sub", &ta.abs_sub(&tb), &zip(&ma, &mb, d, |x, y| Signed::abs_sub(&x, &y)))?;
            same2("abs_sub f", &sa.abs_sub(&sb), &zip(&fa, &fb, d, |x, y| Signed::abs_sub(&x, &y)))?;
            same2("is_negative", &ta.is_negative(), &each(&ma, |x| Signed::is_negative(&x)))?;
            same2("is_positive", &ta.is_positive(), &each(&ma, |x| Signed::is_positive(&x)))?;
            same2("is_negative f", &sa.is_negative(), &each(&fa, |x| Signed::is_negative(&x)))?;
            same2("is_positive f", &sa.is_positive(), &each(&fa, |x| Signed::is_positive(&x)))?;
            same2("min", &ta.min(&tb), &zip(&ma, &mb, d, |x, y| Ord::min(x, y)))?;
            same2("max", &ta.max(&tb), &zip(&ma, &mb, d, |x, y| Ord::max(x, y)))?;
            same2("square", &ta.square(), &each(&ma, |x| x * x))?; same2("square f", &sa.square(), &each(&fa, |x| x * x))?;
            eq("cmp", ta.partial_cmp(&tb), ma.e.iter().partial_cmp(mb.e.iter()))?;
            eq("cmp self", ta.partial_cmp(&ta), Some(std::cmp::Ordering::Equal))?;
            eq("cmp f", sa.partial_cmp(&sb), fa.e.iter().partial_cmp(fb.e.iter()))
        });
    }
    while c.left() && c.evals < if c.thorough { 4_000_000 } else { 60000 } {
        let n = c.rng.below(6); let m = c.rng.below(6);
        let a: Vec<f32> = (0..n).map(|_| *c.rng.pick(&[0f32, 1., 2., f32::NAN])).collect();
        let b: Vec<f32> = (0..m).map(|k| if c.rng.below(3) > 0 && k < a.len() { a[k] } else { *c.rng.pick(&[0f32, 1., 2., f32::NAN]) }).collect();
        c.case(|| format!("compare {:?} {:?}", a, b), || {
            let (ta, tb) = (Tensor::from(a.clone()), Tensor::from(b.clone()));
            eq("partial_cmp", ta.partial_cmp(&tb), a.iter().partial_cmp(b.iter()))?;
            eq("lt", ta < tb, a < b)?; eq("le", ta <= tb, a <= b)?; eq("gt", ta > tb, a > b)?;
            eq("eq", ta == tb, a == b)?; eq("ne", ta != tb, a != b)?; eq("eq to its clone", ta == ta.clone(), a == a)?;
            // the same storage, different windows and shapes
            let t = Tensor::from([a.clone(), b.clone()].concat());
            let (wa, wb) = (t.subslice_flat(0, a.len(), a.len()), t.subslice_flat(a.len(), b.len(), b.len()));
            eq("windows of one storage", wa == wb, a == b)?; eq("windows of one storage, ordered", wa.partial_cmp(&wb), a.iter().partial_cmp(b.iter()))?;
            if a.len() > 0 {
                let col = wa.clone().reshape([a.len(), 1]);
                let rowv = wa.clone().reshape([1, a.len()]);
                eq("vector and column, ordered", (ta.partial_cmp(&col), col.partial_cmp(&ta), rowv.partial_cmp(&col)), { let o = a.iter().partial_cmp(a.iter()); (o, o, o) })?;
                eq("column and vector, ordered", (col.partial_cmp(&tb), tb.partial_cmp(&rowv)), (a.iter().partial_cmp(b.iter()), b.iter().partial_cmp(a.iter())))?;
                eq("vector and column", ta == col, false)?; eq("column and itself", col == col.clone(), a == a)?;
                eq("row and column", ta.clone().reshape([1, a.len()]) == col, a.len() == 1 && a == a)?;
            }
            Ok(())
        });
    }
}

macro_rules! un { ($t:ident, $m:ident, $($f:ident)*) => { $( same2(stringify!($f), &$t.$f(), &each(&$m, |x| x.$f()))?; )* } }
macro_rules! bi { ($t:ident, $u:ident, $m:ident, $n:ident, $d:ident, $($f:ident)*) => { $( same2(stringify!($f), &$t.$f(&$u), &zip(&$m, &$n, $d, |x, y| x.$f(y)))?; )* } }
macro_rules! fl { ($c:ident, $ty:ty, $p:ident, $v:ident) => { {
    let (a, b, d) = &$p;
    let g = |r: &mut Rng| -> $ty { match r.below(12) { 0 => 0., 1 => -0.0, 2 => <$ty>::NAN, 3 => <$ty>::INFINITY, 4 => 1.0, 5 => 2.5, _ => ((r.f() * 80. - 30.) as $ty) / 7. } };
    let ma: M<$ty> = M { d: a.clone(), e: (0..prod(a)).map(|_| g(&mut $c.rng)).collect() };
    let mb: M<$ty> = M { d: b.clone(), e: (0..prod(b)).map(|_| g(&mut $c.rng)).collect() };
    let mp: M<i32> = M { d: b.clone(), e: (0..prod(b)).map(|_| match $c.rng.below(8) { 0 => $c.rng.below(140) as i32 - 70, 1 => { let s = $c.rng.below(31); ($c.rng.next() as i32) >> s } 2 => { let l = *$c.rng.pick(&$c.lits) as i32; if $c.rng.below(2) == 0 { l } else { l.wrapping_neg() } } _ => $c.rng.below(9) as i32 - 4 }).collect() };
    $c.case(|| format!("{} methods {:?}={:?} {:?}={:?} view {}", stringify!($ty), a, ma.e.iter().take(30).collect::<Vec<_>>(), b, mb.e.iter().take(30).collect::<Vec<_>>(), $v), || {
        let (t, u, p) = (mk(&ma, $v, 3.), mk(&mb, $v / 3, 3.), mk(&mp, $v / 3, 2)); let (t, u) = if $v % 5 > 2 { mk2(&ma, &mb, $v, 3.) } else { (t, u) };
        un!(t, ma, floor ceil round trunc fract signum recip sqrt exp exp2 ln log2 log10 to_degrees to_radians cbrt sin asin sinh asinh cos acos cosh acosh tan atan tanh atanh exp_m1 ln_1p);
        bi!(t, u, ma, mb, d, powf log hypot atan2 copysign);
        same2("powi", &t.powi(&p), &zip(&ma, &mp, d, |x, y| x.powi(y)))?;
        same2("sin_cos", &t.sin_cos(), &each(&ma, |x| x.sin_cos()))?;
        let w = M { d: d.clone(), e: (0..prod(d)).map(|k| MulAdd::mul_add(ma.e[k % ma.e.len()], mb.e[k % mb.e.len()], mp.e[k % mp.e.len()] as $ty)).collect() };
        let pf = mk(&each(&mp, |x| x as $ty), 0, 0.);
        same2("mul_add", &MulAdd::mul_add(t.clone(), &u, &pf), &w)?;
        if a.len() >= b.len() { let w = M { d: d.clone(), e: (0..prod(d)).map(|k| MulAdd::mul_add(mb.e[k % mb.e.len()], mp.e[k % mp.e.len()] as $ty, ma.e[k % ma.e.len()])).collect() };
            same2("mul_add 2", &MulAdd::mul_add(u.clone(), &pf, &t), &w)?; }
        Ok(())
    });
} } }
macro_rules! it { ($c:ident, $ty:ty, $p:ident, $v:ident) => { {
    let (a, b, d) = &$p;
    let ma: M<$ty> = M { d: a.clone(), e: (0..prod(a)).map(|_| { let s = $c.rng.below(40); ($c.rng.next() >> s) as $ty }).collect() };
    let mb: M<u32> = M { d: b.clone(), e: (0..prod(b)).map(|_| $c.rng.below(40) as u32).collect() };
    $c.case(|| format!("{} methods {:?}={:?} {:?} view {}", stringify!($ty), a, ma.e.iter().take(30).collect::<Vec<_>>(), b, $v), || {
        let (t, u) = (mk(&ma, $v, 3), mk(&mb, $v / 3, 3));
        un!(t, ma, count_ones count_zeros leading_ones leading_zeros trailing_ones trailing_zeros swap_bytes reverse_bits to_be to_le);
        bi!(t, u, ma, mb, d, rotate_left rotate_right);
        Ok(())
    });
} } }
pub fn c25(c: &mut Ctx) {
    let n = if c.thorough { 20000 } else { 600 };
    for p in pairs(c, n) {
        if !c.left() { break; }
        let v = c.rng.below(9);
        fl!(c, f32, p, v); fl!(c, f64, p, v);
        it!(c, u8, p, v); it!(c, i16, p, v); it!(c, u32, p, v); it!(c, i64, p, v);
        let (a, b, d) = &p;
        type C = Complex<f64>;
        let g = |r: &mut Rng| C::new(gf(r) as f64, gf(r) as f64 + 0.3);
        let ma: M<C> = M { d: a.clone(), e: (0..prod(a)).map(|_| g(&mut c.rng)).collect() };
        let mb: M<C> = M { d: b.clone(), e: (0..prod(b)).map(|_| g(&mut c.rng)).collect() };
        let mr: M<f64> = each(&mb, |x| x.re * 0.5 + 0.7);
        let mu: M<u32> = M { d: b.clone(), e: (0..prod(b)).map(|_| c.rng.below(6) as u32).collect() };
        c.case(|| format!("complex {:?}={:?} {:?}={:?} view {}", a, ma.e.iter().take(10).collect::<Vec<_>>(), b, mb.e.iter().take(10).collect::<Vec<_>>(), v), || {
            let (t, u, r, k) = (mk(&ma, v, C::new(1., 1.)), mk(&mb, v / 3, C::new(2., 2.)), mk(&mr, v / 3, 9.), mk(&mu, v / 3, 1));
            un!(t, ma, conj inv norm_sqr l1_norm norm arg finv to_polar);
            bi!(t, u, ma, mb, d, powc fdiv);
            bi!(t, r, ma, mr, d, scale unscale expf);
            same2("powu", &t.powu(&k), &zip(&ma, &mu, d, |x, y| x.powu(y)))?;
            same2("re", &t.re(), &each(&ma, |x| x.re))?; same2("im", &t.im(), &each(&ma, |x| x.im))?;
            let pol = each(&ma, |x| (x.re, x.im));
            let tp = Tensor::from_vec(pol.e.clone(), a.as_slice());
            same2("from_polar", &Tensor::<C>::from_polar(&tp), &each(&ma, |x| C::from_polar(x.re, x.im)))
        });
    }
    let _ = f32::max_value;
}

// lanes of a tensor along an axis (all elements when None)
fn lanes<T: Clone>(m: &M<T>, ax: Option<usize>) -> (Vec<usize>, Vec<Vec<T>>) {
    match ax {
        None => (vec![], vec![m.e.clone()]),
        Some(a) => {
            let mut od = m.d.clone(); let l = od.remove(a);
            let r = (0..prod(&od)).map(|k| { let ix = unravel(k, &od); (0..l).map(|q| { let mut i = ix.clone(); i.insert(a, q); m.at(&i).clone() }).collect() }).collect();
            (od, r)
        }
    }
}
fn welford(l: &[f32]) -> (usize, f32) {
    let (mut k, mut m, mut s) = (0usize, 0f32, 0f32);
    for &x in l { if k == 0 { k = 1; m = x; s = 0.; } else { k += 1; let m2 = m + (x - m) / k as f32; s = s + (x - m) * (x - m2); m = m2; } }
    (k, s)
}
pub fn c26(c: &mut Ctx) {
    let n = if c.thorough { 100000 } else { 5000 };
    let mut ds = std_shapes(0, 5);
    for l in c.lits.clone() { if l <= 5000 { ds.push(vec![l]); ds.push(vec![l, 2]); ds.push(vec![2, l]); } }
    let mut i = 0;
    while c.left() && i < n {
        let d = if i < ds.len() { ds[i].clone() } else { c.rshape(0, 5, 2000) };
        i += 1;
        let v = c.rng.below(9);
        let m: M<f32> = M { d: d.clone(), e: (0..prod(&d)).map(|_| gf(&mut c.rng) * 1.37).collect() };
        let mi: M<i64> = M { d: d.clone(), e: (0..prod(&d)).map(|_| gi(&mut c.rng) % 3 + if c.rng.below(4) == 0 { 3 } else { 0 }).collect() };
        let mut axs: Vec<Option<isize>> = vec![None];
        if !d.is_empty() { let a = c.rng.below(d.len()) as isize; axs.push(Some(a)); axs.push(Some(a - d.len() as isize)); }
        for ax in axs {
            c.case(|| format!("reduce {:?}={:?} axis {:?} view {}", d, m.e.iter().take(50).collect::<Vec<_>>(), ax, v), || {
                let (t, ti) = (mk(&m, v, 1e6), mk(&mi, v / 3, 1000));
                let ua = ax.map(|a| if a < 0 { (a + d.len() as isize) as usize } else { a as usize });
                let (od, ls) = lanes(&m, ua);
                let (_, li) = lanes(&mi, ua);
                let w = |f: &dyn Fn(&[f32]) -> f32| M { d: od.clone(), e: ls.iter().map(|l| f(l)).collect() };
                let wi = |f: &dyn Fn(&[i64]) -> i64| M { d: od.clone(), e: li.iter().map(|l| f(l)).collect() };
                let sum = |l: &[f32]| l[1..].iter().fold(l[0], |a, b| a + b);
                let prd = |l: &[f32]| l[1..].iter().fold(l[0], |a, b| a * b);
                let min = |l: &[f32]| l[1..].iter().fold(l[0], |a, b| Float::min(a, *b));
                let max = |l: &[f32]| l[1..].iter().fold(l[0], |a, b| Float::max(a, *b));
                let mean = |l: &[f32]| l.iter().fold(0f32, |a, b| a + b) / l.len() as f32;
                let var = |l: &[f32]| { let (k, s) = welford(l); if k > 1 { s / k as f32 } else { 0. } };
                let std = |l: &[f32]| { let (k, s) = welford(l); if k > 1 { (s / k as f32).sqrt() } else { 0. } };
                match ax {
                    None => {
                        same2("sum", &t.reduce_sum(), &w(&sum))?; same2("product", &t.reduce_product(), &w(&prd))?;
                        same2("min", &t.reduce_min(), &w(&min))?; same2("max", &t.reduce_max(), &w(&max))?;
                        same2("mean", &t.reduce_mean(), &w(&mean))?; same2("variance", &t.reduce_variance(), &w(&var))?; same2("std", &t.reduce_std(), &w(&std))?;
                        same2("hypot", &t.reduce_hypot(), &w(&|l| l.iter().fold(0f32, |a, b| a + b * b).sqrt()))?;
                        same2("sum i", &ti.reduce_sum(), &wi(&|l| l.iter().sum()))?;
                    }
                    Some(_) => {}
                }
                let a = ax;
                macro_rules! axis { ($($n:literal $f:ident $w:expr, $t:ident;)*) => { $( { let got = match a { None => $t.$f(None), Some(x) => $t.$f(x) }; same2($n, &got, &$w)?; } )* } }
                axis! { "sum_axis" reduce_sum_axis w(&sum), t; "product_axis" reduce_product_axis w(&prd), t; "min_axis" reduce_min_axis w(&min), t; "max_axis" reduce_max_axis w(&max), t;
                    "mean_axis" reduce_mean_axis w(&mean), t; "variance_axis" reduce_variance_axis w(&var), t; "std_axis" reduce_std_axis w(&std), t; "sum_axis i" reduce_sum_axis wi(&|l| l.iter().sum()), ti; }
                Ok(())
            });
        }
    }
}
