@spec
// ---- nested lists, flattened in row-major order
pub open spec fn fv1<T>(v: Seq<Vec<T>>, k: int) -> Seq<T> decreases k { if k <= 0 { Seq::empty() } else { fv1(v, k - 1) + v[k - 1]@ } }
pub open spec fn fv2<T>(v: Seq<Vec<Vec<T>>>, k: int) -> Seq<T> decreases k { if k <= 0 { Seq::empty() } else { fv2(v, k - 1) + fv1(v[k - 1]@, v[k - 1]@.len() as int) } }
pub open spec fn fv3<T>(v: Seq<Vec<Vec<Vec<T>>>>, k: int) -> Seq<T> decreases k { if k <= 0 { Seq::empty() } else { fv3(v, k - 1) + fv2(v[k - 1]@, v[k - 1]@.len() as int) } }
pub open spec fn fv4<T>(v: Seq<Vec<Vec<Vec<Vec<T>>>>>, k: int) -> Seq<T> decreases k { if k <= 0 { Seq::empty() } else { fv4(v, k - 1) + fv3(v[k - 1]@, v[k - 1]@.len() as int) } }
pub open spec fn fa1<T, const N: usize>(v: Seq<[T; N]>, k: int) -> Seq<T> decreases k { if k <= 0 { Seq::empty() } else { fa1(v, k - 1) + v[k - 1]@ } }
pub open spec fn fva<T, const N: usize>(v: Seq<Vec<[T; N]>>, k: int) -> Seq<T> decreases k { if k <= 0 { Seq::empty() } else { fva(v, k - 1) + fa1(v[k - 1]@, v[k - 1]@.len() as int) } }
pub open spec fn fa2<T, const N: usize, const M: usize>(v: Seq<[[T; N]; M]>, k: int) -> Seq<T> decreases k { if k <= 0 { Seq::empty() } else { fa2(v, k - 1) + fa1(v[k - 1]@, M as int) } }
pub open spec fn fa3<T, const N: usize, const M: usize, const L: usize>(v: Seq<[[[T; N]; M]; L]>, k: int) -> Seq<T> decreases k { if k <= 0 { Seq::empty() } else { fa3(v, k - 1) + fa2(v[k - 1]@, L as int) } }
pub open spec fn rc1<T>(v: Seq<Vec<T>>, n: nat) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i])@.len() == n }
pub open spec fn rc2<T>(v: Seq<Vec<Vec<T>>>, m: nat, n: nat) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i])@.len() == m && rc1(v[i]@, n) }
pub open spec fn rc3<T>(v: Seq<Vec<Vec<Vec<T>>>>, l: nat, m: nat, n: nat) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i])@.len() == l && rc2(v[i]@, m, n) }
pub open spec fn rc4<T>(v: Seq<Vec<Vec<Vec<Vec<T>>>>>, k: nat, l: nat, m: nat, n: nat) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i])@.len() == k && rc3(v[i]@, l, m, n) }

@fn From<T> for Tensor<T>::from(value) -> r
@prop C19
@ens r.l() =~= Seq::<nat>::empty();; r.e() =~= seq![value]
@fn From<&Tensor<T>> for Tensor<T>::from(value) -> r
@prop C19
@ens r.shape == value.shape;; r.e() =~= value.e();; r == *value
@fn From<Option<T>> for Tensor<T>::from(value) -> r
@prop C19
@ens match value { Some(x) => r.l() =~= Seq::<nat>::empty() && r.e() =~= seq![x], None => r.l() =~= seq![0nat] && r.e() =~= Seq::<T>::empty() }
@pre lemma_p1(0);
@call Tensor::from_vec
assert(value.is_none() ==> $1.l() =~= seq![0nat]);
@fn From<Vec<T>> for Tensor<T>::from(value) -> r
@prop C19
@ens r.l() =~= seq![value@.len()];; r.e() =~= value@
@call Tensor::from_vec
lemma_p1(value@.len()); assert($1.l() =~= seq![value@.len()]);
@fn From<&Vec<T>> for Tensor<T>::from(value) -> r
@prop C19
@ens r.l() =~= seq![value@.len()];; r.e() =~= value@
@call Tensor::from_vec
lemma_p1(value@.len()); assert($1.l() =~= seq![value@.len()]);
@fn From<&[T]> for Tensor<T>::from(value) -> r
@prop C19
@ens r.l() =~= seq![value@.len()];; r.e() =~= value@
@call Tensor::from_vec
lemma_p1(value@.len()); assert($1.l() =~= seq![value@.len()]);
@fn From<[T;N]> for Tensor<T>::from(value) -> r
@prop C19
@ens r.l() =~= seq![N as nat];; r.e() =~= value@
@call Tensor::from_vec
lemma_p1(N as nat); assert($1.l() =~= seq![N as nat]);
@spec
pub proof fn lemma_mul1(k: int, n: int) ensures (k - 1) * n + n == k * n { assert((k - 1) * n + n == k * n) by(nonlinear_arith); }
pub proof fn lemma_fv1<T>(v: Seq<Vec<T>>, k: int, n: nat) requires rc1(v, n), 0 <= k <= v.len() ensures fv1(v, k).len() == k * n decreases k { if k > 0 { lemma_fv1(v, k - 1, n); lemma_mul1(k, n as int); assert(v[k - 1]@.len() == n); } else { assert(k * n == 0) by(nonlinear_arith) requires k == 0; } }
pub proof fn lemma_fa1<T, const N: usize>(v: Seq<[T; N]>, k: int) requires 0 <= k <= v.len() ensures fa1(v, k).len() == k * N decreases k { if k > 0 { lemma_fa1(v, k - 1); lemma_mul1(k, N as int); } else { assert(k * N == 0) by(nonlinear_arith) requires k == 0; } }
pub proof fn lemma_fv2<T>(v: Seq<Vec<Vec<T>>>, k: int, m: nat, n: nat) requires rc2(v, m, n), 0 <= k <= v.len() ensures fv2(v, k).len() == k * (m * n) decreases k { if k > 0 { lemma_fv2(v, k - 1, m, n); lemma_mul1(k, (m * n) as int); assert(v[k - 1]@.len() == m && rc1(v[k - 1]@, n)); lemma_fv1(v[k - 1]@, m as int, n); } else { assert(k * (m * n) == 0) by(nonlinear_arith) requires k == 0; } }
pub proof fn lemma_fv3<T>(v: Seq<Vec<Vec<Vec<T>>>>, k: int, l: nat, m: nat, n: nat) requires rc3(v, l, m, n), 0 <= k <= v.len() ensures fv3(v, k).len() == k * (l * (m * n)) decreases k { if k > 0 { lemma_fv3(v, k - 1, l, m, n); lemma_mul1(k, (l * (m * n)) as int); assert(v[k - 1]@.len() == l && rc2(v[k - 1]@, m, n)); lemma_fv2(v[k - 1]@, l as int, m, n); } else { assert(k * (l * (m * n)) == 0) by(nonlinear_arith) requires k == 0; } }
pub proof fn lemma_fv4<T>(v: Seq<Vec<Vec<Vec<Vec<T>>>>>, k: int, h: nat, l: nat, m: nat, n: nat) requires rc4(v, h, l, m, n), 0 <= k <= v.len() ensures fv4(v, k).len() == k * (h * (l * (m * n))) decreases k { if k > 0 { lemma_fv4(v, k - 1, h, l, m, n); lemma_mul1(k, (h * (l * (m * n))) as int); assert(v[k - 1]@.len() == h && rc3(v[k - 1]@, l, m, n)); lemma_fv3(v[k - 1]@, h as int, l, m, n); } else { assert(k * (h * (l * (m * n))) == 0) by(nonlinear_arith) requires k == 0; } }
pub proof fn lemma_fva<T, const N: usize>(v: Seq<Vec<[T; N]>>, k: int, m: nat) requires rc1(v, m), 0 <= k <= v.len() ensures fva(v, k).len() == k * (m * N) decreases k { if k > 0 { lemma_fva(v, k - 1, m); lemma_mul1(k, (m * N) as int); assert(v[k - 1]@.len() == m); lemma_fa1(v[k - 1]@, m as int); } else { assert(k * (m * N) == 0) by(nonlinear_arith) requires k == 0; } }
pub proof fn lemma_fa2<T, const N: usize, const M: usize>(v: Seq<[[T; N]; M]>, k: int) requires 0 <= k <= v.len() ensures fa2(v, k).len() == k * (M * N) decreases k { if k > 0 { lemma_fa2(v, k - 1); lemma_mul1(k, (M * N) as int); lemma_fa1(v[k - 1]@, M as int); } else { assert(k * (M * N) == 0) by(nonlinear_arith) requires k == 0; } }
pub proof fn lemma_fa3<T, const N: usize, const M: usize, const L: usize>(v: Seq<[[[T; N]; M]; L]>, k: int) requires 0 <= k <= v.len() ensures fa3(v, k).len() == k * (L * (M * N)) decreases k { if k > 0 { lemma_fa3(v, k - 1); lemma_mul1(k, (L * (M * N)) as int); lemma_fa2(v[k - 1]@, L as int); } else { assert(k * (L * (M * N)) == 0) by(nonlinear_arith) requires k == 0; } }
pub proof fn lemma_p1(a: nat) ensures prod(seq![a]) == a { reveal_with_fuel(prod, 3); assert(seq![a].drop_last() =~= Seq::<nat>::empty()); assert(1 * a == a) by(nonlinear_arith); }
pub proof fn lemma_p2(a: nat, b: nat) ensures prod(seq![a, b]) == a * b { lemma_p1(a); assert(seq![a, b].drop_last() =~= seq![a]); }
pub proof fn lemma_p3(a: nat, b: nat, c: nat) ensures prod(seq![a, b, c]) == a * (b * c) { lemma_p2(a, b); assert(seq![a, b, c].drop_last() =~= seq![a, b]); assert(a * b * c == a * (b * c)) by(nonlinear_arith); }
pub proof fn lemma_p4(a: nat, b: nat, c: nat, d: nat) ensures prod(seq![a, b, c, d]) == a * (b * (c * d)) { lemma_p3(a, b, c); assert(seq![a, b, c, d].drop_last() =~= seq![a, b, c]); assert(a * (b * c) * d == a * (b * (c * d))) by(nonlinear_arith); }
pub proof fn lemma_p5(a: nat, b: nat, c: nat, d: nat, e: nat) ensures prod(seq![a, b, c, d, e]) == a * (b * (c * (d * e))) { lemma_p4(a, b, c, d); assert(seq![a, b, c, d, e].drop_last() =~= seq![a, b, c, d]); assert(a * (b * (c * d)) * e == a * (b * (c * (d * e)))) by(nonlinear_arith); }
pub proof fn lemma_sr<T>(a: Seq<T>, k: int) requires 0 <= k < a.len() ensures a.subrange(0, k + 1) =~= a.subrange(0, k).push(a[k]) {}

@fn From<Vec<[T;N]>> for Tensor<T>::from(value) -> r
@prop C19
@treq value@.len() * N <= usize::MAX
@ens r.l() =~= seq![value@.len(), N as nat];; r.e() =~= fa1(value@, value@.len() as int)
@pre lemma_p2(value@.len(), N as nat); lemma_fa1(value@, value@.len() as int);
@call TensorData::from_boxed_rows
assert($1.l() =~= seq![value@.len(), N as nat]);
@post lemma_fa1_at(value@, value@.len() as int); assert forall|k: int| 0 <= k < r.e().len() implies r.e()[k] == #[trigger] fa1(value@, value@.len() as int)[k] by { lemma_dm_rev(k, N as int); assert(k / (N as int) < value@.len()) by(nonlinear_arith) requires k < value@.len() * N, N > 0, k == (k / (N as int)) * N + k % (N as int), 0 <= k % (N as int); assert(value@[k / (N as int)]@[k % (N as int)] == r.e()[(k / (N as int)) * N + k % (N as int)]); }
@spec
pub proof fn lemma_fa1_at<T, const N: usize>(v: Seq<[T; N]>, n: int) requires 0 <= n <= v.len() ensures forall|k: int| 0 <= k < n * N ==> #[trigger] fa1(v, n)[k] == v[k / (N as int)]@[k % (N as int)] decreases n
{
    lemma_fa1(v, n);
    if n > 0 {
        lemma_fa1_at(v, n - 1); lemma_mul1(n, N as int); lemma_fa1(v, n - 1);
        assert forall|k: int| 0 <= k < n * N implies #[trigger] fa1(v, n)[k] == v[k / (N as int)]@[k % (N as int)] by {
            if k >= (n - 1) * N { lemma_dm(n - 1, N as int, k - (n - 1) * N); } else { assert(fa1(v, n)[k] == fa1(v, n - 1)[k]); }
        }
    } else { assert(n * N == 0) by(nonlinear_arith) requires n == 0; }
}
@fn From<&Vec<[T;N]>> for Tensor<T>::from(value) -> r
@prop C19
@treq value@.len() * N <= usize::MAX
@ens r.l() =~= seq![value@.len(), N as nat];; r.e() =~= fa1(value@, value@.len() as int)
@loop 0
@inv $b@ == value@;; $v@ =~= fa1(value@, $i as int)
@end assert(row@.subrange(0, N as int) =~= row@);
@loop 1
@inv $b@ == row@;; $v0@ =~= fa1(value@, $x0 as int) + row@.subrange(0, $i as int)
@end lemma_sr(row@, $x as int);
@call Tensor::from_vec
lemma_p2(value@.len(), N as nat); lemma_fa1(value@, value@.len() as int); assert($1.l() =~= seq![value@.len(), N as nat]);
@fn From<&[[T;N]]> for Tensor<T>::from(value) -> r
@prop C19
@treq value@.len() * N <= usize::MAX
@ens r.l() =~= seq![value@.len(), N as nat];; r.e() =~= fa1(value@, value@.len() as int)
@loop 0
@inv $b@ == value@;; $v@ =~= fa1(value@, $i as int)
@end assert(row@.subrange(0, N as int) =~= row@);
@loop 1
@inv $b@ == row@;; $v0@ =~= fa1(value@, $x0 as int) + row@.subrange(0, $i as int)
@end lemma_sr(row@, $x as int);
@call Tensor::from_vec
lemma_p2(value@.len(), N as nat); lemma_fa1(value@, value@.len() as int); assert($1.l() =~= seq![value@.len(), N as nat]);
@fn From<&Vec<Vec<T>>> for Tensor<T>::from(value) -> r
@prop C19
@valid value@.len() > 0;; rc1(value@, value@[0]@.len())
@treq prod(seq![value@.len(), value@[0]@.len()]) <= usize::MAX
@ens rc1(value@, value@[0]@.len());; r.l() =~= seq![value@.len(), value@[0]@.len()];; r.e() =~= fv1(value@, value@.len() as int)
@loop 0
@inv $b@ == value@;; $v@ =~= fv1(value@, $i as int);; len_1 == value@[0]@.len();; value@.len() > 0;; forall|__q: int| 0 <= __q < $i ==> (#[trigger] value@[__q])@.len() == len_1
@end assert(v1@.subrange(0, v1@.len() as int) =~= v1@); assert($v@ =~= fv1(value@, $x as int) + v1@); 
@loop 1
@inv $b@ == v1@;; $v0@ =~= fv1(value@, $x0 as int) + v1@.subrange(0, $i as int);; len_1 == value@[0]@.len();; value@.len() > 0;; forall|__q: int| 0 <= __q < $x0 ==> (#[trigger] value@[__q])@.len() == len_1;; v1@ == value@[$x0 as int]@;; v1@.len() == len_1
@end lemma_sr(v1@, $x as int);
@call Tensor::from_vec
assert(rc1(value@, value@[0]@.len())); lemma_p2(value@.len(), value@[0]@.len()); lemma_fv1(value@, value@.len() as int, value@[0]@.len()); assert($1.l() =~= seq![value@.len(), value@[0]@.len()]);
@fn From<&Vec<Vec<[T;N]>>> for Tensor<T>::from(value) -> r
@prop C19
@valid value@.len() > 0;; rc1(value@, value@[0]@.len())
@treq prod(seq![value@.len(), value@[0]@.len(), N as nat]) <= usize::MAX
@ens rc1(value@, value@[0]@.len());; r.l() =~= seq![value@.len(), value@[0]@.len(), N as nat];; r.e() =~= fva(value@, value@.len() as int)
@loop 0
@inv $b@ == value@;; $v@ =~= fva(value@, $i as int);; len_1 == value@[0]@.len();; value@.len() > 0;; forall|__q: int| 0 <= __q < $i ==> (#[trigger] value@[__q])@.len() == len_1
@end assert($v@ =~= fva(value@, $x as int) + fa1(v1@, v1@.len() as int)); 
@loop 1
@inv $b@ == v1@;; $v0@ =~= fva(value@, $x0 as int) + fa1(v1@, $i as int);; len_1 == value@[0]@.len();; value@.len() > 0;; forall|__q: int| 0 <= __q < $x0 ==> (#[trigger] value@[__q])@.len() == len_1;; v1@ == value@[$x0 as int]@;; v1@.len() == len_1
@end assert(v2@.subrange(0, v2@.len() as int) =~= v2@); assert($v0@ =~= fva(value@, $x0 as int) + fa1(v1@, $x as int) + v2@); assert((fva(value@, $x0 as int) + fa1(v1@, $x as int)) + v2@ =~= fva(value@, $x0 as int) + (fa1(v1@, $x as int) + v2@));
@loop 2
@inv $b@ == v2@;; $v0@ =~= fva(value@, $x0 as int) + fa1(v1@, $x1 as int) + v2@.subrange(0, $i as int);; len_1 == value@[0]@.len();; value@.len() > 0;; forall|__q: int| 0 <= __q < $x0 ==> (#[trigger] value@[__q])@.len() == len_1;; v1@ == value@[$x0 as int]@;; v1@.len() == len_1;; v2@ == v1@[$x1 as int]@
@end lemma_sr(v2@, $x as int);
@call Tensor::from_vec
assert(rc1(value@, value@[0]@.len())); lemma_p3(value@.len(), value@[0]@.len(), N as nat); lemma_fva(value@, value@.len() as int, value@[0]@.len()); assert($1.l() =~= seq![value@.len(), value@[0]@.len(), N as nat]);
@fn From<&Vec<Vec<Vec<T>>>> for Tensor<T>::from(value) -> r
@prop C19
@valid value@.len() > 0;; value@[0]@.len() > 0;; rc2(value@, value@[0]@.len(), value@[0]@[0]@.len())
@treq prod(seq![value@.len(), value@[0]@.len(), value@[0]@[0]@.len()]) <= usize::MAX
@ens rc2(value@, value@[0]@.len(), value@[0]@[0]@.len());; r.l() =~= seq![value@.len(), value@[0]@.len(), value@[0]@[0]@.len()];; r.e() =~= fv2(value@, value@.len() as int)
@loop 0
@inv $b@ == value@;; data@ =~= fv2(value@, $i as int);; len_1 == value@[0]@.len();; len_2 == value@[0]@[0]@.len();; value@.len() > 0;; value@[0]@.len() > 0;; forall|__q: int| 0 <= __q < $i ==> (#[trigger] value@[__q])@.len() == len_1 && rc1(value@[__q]@, len_2 as nat)
@end assert(data@ =~= fv2(value@, $x as int) + fv1(v1@, v1@.len() as int)); 
@loop 1
@inv $b@ == v1@;; data@ =~= fv2(value@, $x0 as int) + fv1(v1@, $i as int);; len_1 == value@[0]@.len();; len_2 == value@[0]@[0]@.len();; value@.len() > 0;; value@[0]@.len() > 0;; forall|__q: int| 0 <= __q < $i ==> (#[trigger] v1@[__q])@.len() == len_2;; forall|__q: int| 0 <= __q < $x0 ==> (#[trigger] value@[__q])@.len() == len_1 && rc1(value@[__q]@, len_2 as nat);; v1@ == value@[$x0 as int]@;; v1@.len() == len_1
@end assert(v2@.subrange(0, v2@.len() as int) =~= v2@); assert(data@ =~= fv2(value@, $x0 as int) + fv1(v1@, $x as int) + v2@); assert((fv2(value@, $x0 as int) + fv1(v1@, $x as int)) + v2@ =~= fv2(value@, $x0 as int) + (fv1(v1@, $x as int) + v2@));
@loop 2
@inv $b@ == v2@;; data@ =~= fv2(value@, $x0 as int) + fv1(v1@, $x1 as int) + v2@.subrange(0, $i as int);; len_1 == value@[0]@.len();; len_2 == value@[0]@[0]@.len();; value@.len() > 0;; value@[0]@.len() > 0;; forall|__q: int| 0 <= __q < $x0 ==> (#[trigger] value@[__q])@.len() == len_1 && rc1(value@[__q]@, len_2 as nat);; v1@ == value@[$x0 as int]@;; v1@.len() == len_1;; forall|__q: int| 0 <= __q < $x1 ==> (#[trigger] v1@[__q])@.len() == len_2;; v2@ == v1@[$x1 as int]@;; v2@.len() == len_2
@end lemma_sr(v2@, $x as int);
@call Tensor::from_vec
assert(rc2(value@, value@[0]@.len(), value@[0]@[0]@.len())); lemma_p3(value@.len(), value@[0]@.len(), value@[0]@[0]@.len()); lemma_fv2(value@, value@.len() as int, value@[0]@.len(), value@[0]@[0]@.len()); assert($1.l() =~= seq![value@.len(), value@[0]@.len(), value@[0]@[0]@.len()]);
@fn From<&Vec<Vec<Vec<Vec<T>>>>> for Tensor<T>::from(value) -> r
@prop C19
@valid value@.len() > 0;; value@[0]@.len() > 0;; value@[0]@[0]@.len() > 0;; rc3(value@, value@[0]@.len(), value@[0]@[0]@.len(), value@[0]@[0]@[0]@.len())
@treq prod(seq![value@.len(), value@[0]@.len(), value@[0]@[0]@.len(), value@[0]@[0]@[0]@.len()]) <= usize::MAX
@ens rc3(value@, value@[0]@.len(), value@[0]@[0]@.len(), value@[0]@[0]@[0]@.len());; r.l() =~= seq![value@.len(), value@[0]@.len(), value@[0]@[0]@.len(), value@[0]@[0]@[0]@.len()];; r.e() =~= fv3(value@, value@.len() as int)
@loop 0
@inv $b@ == value@;; data@ =~= fv3(value@, $i as int);; len_1 == value@[0]@.len();; len_2 == value@[0]@[0]@.len();; len_3 == value@[0]@[0]@[0]@.len();; value@.len() > 0;; value@[0]@.len() > 0;; value@[0]@[0]@.len() > 0;; forall|__q: int| 0 <= __q < $i ==> (#[trigger] value@[__q])@.len() == len_1 && rc2(value@[__q]@, len_2 as nat, len_3 as nat)
@end assert(data@ =~= fv3(value@, $x as int) + fv2(v1@, v1@.len() as int)); 
@loop 1
@inv $b@ == v1@;; data@ =~= fv3(value@, $x0 as int) + fv2(v1@, $i as int);; len_1 == value@[0]@.len();; len_2 == value@[0]@[0]@.len();; len_3 == value@[0]@[0]@[0]@.len();; value@.len() > 0;; value@[0]@.len() > 0;; value@[0]@[0]@.len() > 0;; forall|__q: int| 0 <= __q < $i ==> (#[trigger] v1@[__q])@.len() == len_2 && rc1(v1@[__q]@, len_3 as nat);; forall|__q: int| 0 <= __q < $x0 ==> (#[trigger] value@[__q])@.len() == len_1 && rc2(value@[__q]@, len_2 as nat, len_3 as nat);; v1@ == value@[$x0 as int]@;; v1@.len() == len_1
@end assert(data@ =~= fv3(value@, $x0 as int) + fv2(v1@, $x as int) + fv1(v2@, v2@.len() as int)); assert((fv3(value@, $x0 as int) + fv2(v1@, $x as int)) + fv1(v2@, v2@.len() as int) =~= fv3(value@, $x0 as int) + (fv2(v1@, $x as int) + fv1(v2@, v2@.len() as int)));
@loop 2
@inv $b@ == v2@;; data@ =~= fv3(value@, $x0 as int) + fv2(v1@, $x1 as int) + fv1(v2@, $i as int);; len_1 == value@[0]@.len();; len_2 == value@[0]@[0]@.len();; len_3 == value@[0]@[0]@[0]@.len();; value@.len() > 0;; value@[0]@.len() > 0;; value@[0]@[0]@.len() > 0;; forall|__q: int| 0 <= __q < $i ==> (#[trigger] v2@[__q])@.len() == len_3;; forall|__q: int| 0 <= __q < $x0 ==> (#[trigger] value@[__q])@.len() == len_1 && rc2(value@[__q]@, len_2 as nat, len_3 as nat);; v1@ == value@[$x0 as int]@;; v1@.len() == len_1;; forall|__q: int| 0 <= __q < $x1 ==> (#[trigger] v1@[__q])@.len() == len_2 && rc1(v1@[__q]@, len_3 as nat);; v2@ == v1@[$x1 as int]@;; v2@.len() == len_2
@end assert(v3@.subrange(0, v3@.len() as int) =~= v3@); assert(data@ =~= fv3(value@, $x0 as int) + fv2(v1@, $x1 as int) + fv1(v2@, $x as int) + v3@); assert((fv3(value@, $x0 as int) + fv2(v1@, $x1 as int) + fv1(v2@, $x as int)) + v3@ =~= fv3(value@, $x0 as int) + fv2(v1@, $x1 as int) + (fv1(v2@, $x as int) + v3@));
@loop 3
@inv $b@ == v3@;; data@ =~= fv3(value@, $x0 as int) + fv2(v1@, $x1 as int) + fv1(v2@, $x2 as int) + v3@.subrange(0, $i as int);; len_1 == value@[0]@.len();; len_2 == value@[0]@[0]@.len();; len_3 == value@[0]@[0]@[0]@.len();; value@.len() > 0;; value@[0]@.len() > 0;; value@[0]@[0]@.len() > 0;; forall|__q: int| 0 <= __q < $x0 ==> (#[trigger] value@[__q])@.len() == len_1 && rc2(value@[__q]@, len_2 as nat, len_3 as nat);; v1@ == value@[$x0 as int]@;; v1@.len() == len_1;; forall|__q: int| 0 <= __q < $x1 ==> (#[trigger] v1@[__q])@.len() == len_2 && rc1(v1@[__q]@, len_3 as nat);; v2@ == v1@[$x1 as int]@;; v2@.len() == len_2;; forall|__q: int| 0 <= __q < $x2 ==> (#[trigger] v2@[__q])@.len() == len_3;; v3@ == v2@[$x2 as int]@;; v3@.len() == len_3
@end lemma_sr(v3@, $x as int);
@call Tensor::from_vec
assert(rc3(value@, value@[0]@.len(), value@[0]@[0]@.len(), value@[0]@[0]@[0]@.len())); lemma_p4(value@.len(), value@[0]@.len(), value@[0]@[0]@.len(), value@[0]@[0]@[0]@.len()); lemma_fv3(value@, value@.len() as int, value@[0]@.len(), value@[0]@[0]@.len(), value@[0]@[0]@[0]@.len()); assert($1.l() =~= seq![value@.len(), value@[0]@.len(), value@[0]@[0]@.len(), value@[0]@[0]@[0]@.len()]);
@fn From<&Vec<Vec<Vec<Vec<Vec<T>>>>>> for Tensor<T>::from(value) -> r
@prop C19
@valid value@.len() > 0;; value@[0]@.len() > 0;; value@[0]@[0]@.len() > 0;; value@[0]@[0]@[0]@.len() > 0;; rc4(value@, value@[0]@.len(), value@[0]@[0]@.len(), value@[0]@[0]@[0]@.len(), value@[0]@[0]@[0]@[0]@.len())
@treq prod(seq![value@.len(), value@[0]@.len(), value@[0]@[0]@.len(), value@[0]@[0]@[0]@.len(), value@[0]@[0]@[0]@[0]@.len()]) <= usize::MAX
@ens rc4(value@, value@[0]@.len(), value@[0]@[0]@.len(), value@[0]@[0]@[0]@.len(), value@[0]@[0]@[0]@[0]@.len());; r.l() =~= seq![value@.len(), value@[0]@.len(), value@[0]@[0]@.len(), value@[0]@[0]@[0]@.len(), value@[0]@[0]@[0]@[0]@.len()];; r.e() =~= fv4(value@, value@.len() as int)
@loop 0
@inv $b@ == value@;; $v@ =~= fv4(value@, $i as int);; len_1 == value@[0]@.len();; len_2 == value@[0]@[0]@.len();; len_3 == value@[0]@[0]@[0]@.len();; len_4 == value@[0]@[0]@[0]@[0]@.len();; value@.len() > 0;; value@[0]@.len() > 0;; value@[0]@[0]@.len() > 0;; value@[0]@[0]@[0]@.len() > 0;; forall|__q: int| 0 <= __q < $i ==> (#[trigger] value@[__q])@.len() == len_1 && rc3(value@[__q]@, len_2 as nat, len_3 as nat, len_4 as nat)
@end assert($v@ =~= fv4(value@, $x as int) + fv3(v1@, v1@.len() as int)); 
@loop 1
@inv $b@ == v1@;; $v0@ =~= fv4(value@, $x0 as int) + fv3(v1@, $i as int);; len_1 == value@[0]@.len();; len_2 == value@[0]@[0]@.len();; len_3 == value@[0]@[0]@[0]@.len();; len_4 == value@[0]@[0]@[0]@[0]@.len();; value@.len() > 0;; value@[0]@.len() > 0;; value@[0]@[0]@.len() > 0;; value@[0]@[0]@[0]@.len() > 0;; forall|__q: int| 0 <= __q < $i ==> (#[trigger] v1@[__q])@.len() == len_2 && rc2(v1@[__q]@, len_3 as nat, len_4 as nat);; forall|__q: int| 0 <= __q < $x0 ==> (#[trigger] value@[__q])@.len() == len_1 && rc3(value@[__q]@, len_2 as nat, len_3 as nat, len_4 as nat);; v1@ == value@[$x0 as int]@;; v1@.len() == len_1
@end assert($v0@ =~= fv4(value@, $x0 as int) + fv3(v1@, $x as int) + fv2(v2@, v2@.len() as int)); assert((fv4(value@, $x0 as int) + fv3(v1@, $x as int)) + fv2(v2@, v2@.len() as int) =~= fv4(value@, $x0 as int) + (fv3(v1@, $x as int) + fv2(v2@, v2@.len() as int)));
@loop 2
@inv $b@ == v2@;; $v0@ =~= fv4(value@, $x0 as int) + fv3(v1@, $x1 as int) + fv2(v2@, $i as int);; len_1 == value@[0]@.len();; len_2 == value@[0]@[0]@.len();; len_3 == value@[0]@[0]@[0]@.len();; len_4 == value@[0]@[0]@[0]@[0]@.len();; value@.len() > 0;; value@[0]@.len() > 0;; value@[0]@[0]@.len() > 0;; value@[0]@[0]@[0]@.len() > 0;; forall|__q: int| 0 <= __q < $i ==> (#[trigger] v2@[__q])@.len() == len_3 && rc1(v2@[__q]@, len_4 as nat);; forall|__q: int| 0 <= __q < $x0 ==> (#[trigger] value@[__q])@.len() == len_1 && rc3(value@[__q]@, len_2 as nat, len_3 as nat, len_4 as nat);; v1@ == value@[$x0 as int]@;; v1@.len() == len_1;; forall|__q: int| 0 <= __q < $x1 ==> (#[trigger] v1@[__q])@.len() == len_2 && rc2(v1@[__q]@, len_3 as nat, len_4 as nat);; v2@ == v1@[$x1 as int]@;; v2@.len() == len_2
@end assert($v0@ =~= fv4(value@, $x0 as int) + fv3(v1@, $x1 as int) + fv2(v2@, $x as int) + fv1(v3@, v3@.len() as int)); assert((fv4(value@, $x0 as int) + fv3(v1@, $x1 as int) + fv2(v2@, $x as int)) + fv1(v3@, v3@.len() as int) =~= fv4(value@, $x0 as int) + fv3(v1@, $x1 as int) + (fv2(v2@, $x as int) + fv1(v3@, v3@.len() as int)));
@loop 3
@inv $b@ == v3@;; $v0@ =~= fv4(value@, $x0 as int) + fv3(v1@, $x1 as int) + fv2(v2@, $x2 as int) + fv1(v3@, $i as int);; len_1 == value@[0]@.len();; len_2 == value@[0]@[0]@.len();; len_3 == value@[0]@[0]@[0]@.len();; len_4 == value@[0]@[0]@[0]@[0]@.len();; value@.len() > 0;; value@[0]@.len() > 0;; value@[0]@[0]@.len() > 0;; value@[0]@[0]@[0]@.len() > 0;; forall|__q: int| 0 <= __q < $i ==> (#[trigger] v3@[__q])@.len() == len_4;; forall|__q: int| 0 <= __q < $x0 ==> (#[trigger] value@[__q])@.len() == len_1 && rc3(value@[__q]@, len_2 as nat, len_3 as nat, len_4 as nat);; v1@ == value@[$x0 as int]@;; v1@.len() == len_1;; forall|__q: int| 0 <= __q < $x1 ==> (#[trigger] v1@[__q])@.len() == len_2 && rc2(v1@[__q]@, len_3 as nat, len_4 as nat);; v2@ == v1@[$x1 as int]@;; v2@.len() == len_2;; forall|__q: int| 0 <= __q < $x2 ==> (#[trigger] v2@[__q])@.len() == len_3 && rc1(v2@[__q]@, len_4 as nat);; v3@ == v2@[$x2 as int]@;; v3@.len() == len_3
@end assert(v4@.subrange(0, v4@.len() as int) =~= v4@); assert($v0@ =~= fv4(value@, $x0 as int) + fv3(v1@, $x1 as int) + fv2(v2@, $x2 as int) + fv1(v3@, $x as int) + v4@); assert((fv4(value@, $x0 as int) + fv3(v1@, $x1 as int) + fv2(v2@, $x2 as int) + fv1(v3@, $x as int)) + v4@ =~= fv4(value@, $x0 as int) + fv3(v1@, $x1 as int) + fv2(v2@, $x2 as int) + (fv1(v3@, $x as int) + v4@));
@loop 4
@inv $b@ == v4@;; $v0@ =~= fv4(value@, $x0 as int) + fv3(v1@, $x1 as int) + fv2(v2@, $x2 as int) + fv1(v3@, $x3 as int) + v4@.subrange(0, $i as int);; len_1 == value@[0]@.len();; len_2 == value@[0]@[0]@.len();; len_3 == value@[0]@[0]@[0]@.len();; len_4 == value@[0]@[0]@[0]@[0]@.len();; value@.len() > 0;; value@[0]@.len() > 0;; value@[0]@[0]@.len() > 0;; value@[0]@[0]@[0]@.len() > 0;; forall|__q: int| 0 <= __q < $x0 ==> (#[trigger] value@[__q])@.len() == len_1 && rc3(value@[__q]@, len_2 as nat, len_3 as nat, len_4 as nat);; v1@ == value@[$x0 as int]@;; v1@.len() == len_1;; forall|__q: int| 0 <= __q < $x1 ==> (#[trigger] v1@[__q])@.len() == len_2 && rc2(v1@[__q]@, len_3 as nat, len_4 as nat);; v2@ == v1@[$x1 as int]@;; v2@.len() == len_2;; forall|__q: int| 0 <= __q < $x2 ==> (#[trigger] v2@[__q])@.len() == len_3 && rc1(v2@[__q]@, len_4 as nat);; v3@ == v2@[$x2 as int]@;; v3@.len() == len_3;; forall|__q: int| 0 <= __q < $x3 ==> (#[trigger] v3@[__q])@.len() == len_4;; v4@ == v3@[$x3 as int]@;; v4@.len() == len_4
@end lemma_sr(v4@, $x as int);
@call Tensor::from_vec
assert(rc4(value@, value@[0]@.len(), value@[0]@[0]@.len(), value@[0]@[0]@[0]@.len(), value@[0]@[0]@[0]@[0]@.len())); lemma_p5(value@.len(), value@[0]@.len(), value@[0]@[0]@.len(), value@[0]@[0]@[0]@.len(), value@[0]@[0]@[0]@[0]@.len()); lemma_fv4(value@, value@.len() as int, value@[0]@.len(), value@[0]@[0]@.len(), value@[0]@[0]@[0]@.len(), value@[0]@[0]@[0]@[0]@.len()); assert($1.l() =~= seq![value@.len(), value@[0]@.len(), value@[0]@[0]@.len(), value@[0]@[0]@[0]@.len(), value@[0]@[0]@[0]@[0]@.len()]);
@fn From<[[T;N];M]> for Tensor<T>::from(value) -> r
@prop C19
@treq prod(seq![M as nat, N as nat]) <= usize::MAX
@ens r.l() =~= seq![M as nat, N as nat];; r.e() =~= fa1(value@, M as int)
@loop 0
@inv $b@ == value@;; $e == M;; $v@ =~= fa1(value@, $i as int)
@loop 1
@inv $e == N;; $v0@ =~= fa1(value@, $x0 as int) + $b1@.subrange(0, $i as int);; $b1@ == value@[$x0 as int]@
@end lemma_sr($b1@, $x as int);
@after assert($b1@.subrange(0, $i as int) =~= $b1@);
@call Tensor::from_vec
lemma_p2(M as nat, N as nat); lemma_fa1(value@, M as int); assert($1.l() =~= seq![M as nat, N as nat]);
@fn From<[[[T;N];M];L]> for Tensor<T>::from(value) -> r
@prop C19
@treq prod(seq![L as nat, M as nat, N as nat]) <= usize::MAX
@ens r.l() =~= seq![L as nat, M as nat, N as nat];; r.e() =~= fa2(value@, L as int)
@loop 0
@inv $b@ == value@;; $e == L;; $v@ =~= fa2(value@, $i as int)
@loop 1
@inv $e == M;; $v0@ =~= fa2(value@, $x0 as int) + fa1($b1@, $i as int);; $b1@ == value@[$x0 as int]@
@loop 2
@inv $e == N;; $v0@ =~= fa2(value@, $x0 as int) + fa1($b1@, $x1 as int) + $b2@.subrange(0, $i as int);; $b1@ == value@[$x0 as int]@;; $b2@ == $b1@[$x1 as int]@
@end lemma_sr($b2@, $x as int);
@after assert($b2@.subrange(0, $i as int) =~= $b2@); assert((fa2(value@, $x0 as int) + fa1($b1@, $x1 as int)) + $b2@ =~= fa2(value@, $x0 as int) + (fa1($b1@, $x1 as int) + $b2@));
@call Tensor::from_vec
lemma_p3(L as nat, M as nat, N as nat); lemma_fa2(value@, L as int); assert($1.l() =~= seq![L as nat, M as nat, N as nat]);
@fn From<[[[[T;N];M];L];K]> for Tensor<T>::from(value) -> r
@prop C19
@treq prod(seq![K as nat, L as nat, M as nat, N as nat]) <= usize::MAX
@ens r.l() =~= seq![K as nat, L as nat, M as nat, N as nat];; r.e() =~= fa3(value@, K as int)
@loop 0
@inv $b@ == value@;; $e == K;; $v@ =~= fa3(value@, $i as int)
@loop 1
@inv $e == L;; $v0@ =~= fa3(value@, $x0 as int) + fa2($b1@, $i as int);; $b1@ == value@[$x0 as int]@
@loop 2
@inv $e == M;; $v0@ =~= fa3(value@, $x0 as int) + fa2($b1@, $x1 as int) + fa1($b2@, $i as int);; $b1@ == value@[$x0 as int]@;; $b2@ == $b1@[$x1 as int]@
@after assert((fa3(value@, $x0 as int) + fa2($b1@, $x1 as int)) + fa1($b2@, M as int) =~= fa3(value@, $x0 as int) + (fa2($b1@, $x1 as int) + fa1($b2@, M as int)));
@loop 3
@inv $e == N;; $v0@ =~= fa3(value@, $x0 as int) + fa2($b1@, $x1 as int) + fa1($b2@, $x2 as int) + $b3@.subrange(0, $i as int);; $b1@ == value@[$x0 as int]@;; $b2@ == $b1@[$x1 as int]@;; $b3@ == $b2@[$x2 as int]@
@end lemma_sr($b3@, $x as int);
@after assert($b3@.subrange(0, $i as int) =~= $b3@); assert((fa3(value@, $x0 as int) + fa2($b1@, $x1 as int) + fa1($b2@, $x2 as int)) + $b3@ =~= fa3(value@, $x0 as int) + fa2($b1@, $x1 as int) + (fa1($b2@, $x2 as int) + $b3@));
@call Tensor::from_vec
lemma_p4(K as nat, L as nat, M as nat, N as nat); lemma_fa3(value@, K as int); assert($1.l() =~= seq![K as nat, L as nat, M as nat, N as nat]);
@spec
// the tensors have one shape
pub open spec fn oneshape<T>(v: Seq<Tensor<T>>) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).l() == v[0].l() }
pub proof fn lemma_flat_e<T>(v: Seq<Tensor<T>>, k: int) requires 0 <= k <= v.len(), v.len() > 0, oneshape(v), forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).wf() ensures flat_e(v, k).len() == k * v[0].n() decreases k
{ if k > 0 { lemma_flat_e(v, k - 1); lemma_mul1(k, v[0].n() as int); assert(v[k - 1].l() == v[0].l() && v[k - 1].wf()); } else { assert(k * v[0].n() == 0) by(nonlinear_arith) requires k == 0; } }
pub proof fn lemma_cons(a: nat, l: Seq<nat>) ensures prod(seq![a] + l) == a * prod(l) decreases l.len()
{ let s = seq![a] + l; if l.len() == 0 { assert(s =~= seq![a]); lemma_p1(a); assert(a * 1 == a) by(nonlinear_arith); } else { assert(s.drop_last() =~= seq![a] + l.drop_last()); lemma_cons(a, l.drop_last()); assert(a * prod(l.drop_last()) * l.last() == a * (prod(l.drop_last()) * l.last())) by(nonlinear_arith); } }
@template tens(key | x)
@fn %key%(values) -> r
@prop C19
@valid values@.len() > 0;; oneshape(values@);; values@[0].shape.rank < 6
@treq values@.len() * values@[0].n() <= usize::MAX
@ens r.l() =~= seq![values@.len()] + values@[0].l();; oneshape(values@);; r.e() =~= flat_e(values@, values@.len() as int)
@endtemplate
@use tens(From<&[Tensor<T>]> for Tensor<T>::from | )
@loop 0
@inv $b@ == values@;; forall|i: int| 0 <= i < $i ==> (#[trigger] values@[i]).l() == values@[0].l()
@loop 1
@inv $b@ == values@;; $v@ =~= flat_e(values@, $i as int)
@loop 2
@inv $b2@ == values@[$x1 as int].e();; $v1@ =~= flat_e(values@, $x1 as int) + values@[$x1 as int].e().subrange(0, $i2 as int)
@end lemma_sr(values@[$x1 as int].e(), $x2 as int);
@after assert(values@[$x1 as int].e().subrange(0, $i2 as int) =~= values@[$x1 as int].e());
@call Tensor::from_vec
lemma_flat_e(values@, values@.len() as int); lemma_cons(values@.len(), values@[0].l());
@use tens(From<&Vec<Tensor<T>>> for Tensor<T>::from | )
@use tens(From<[Tensor<T>;N]> for Tensor<T>::from | )
@fn Tensor::from_slice(data) -> r
@prop C19
@ens r.l() =~= seq![data@.len()];; r.e() =~= data@
@loop 0
@inv __h.cap() == data@.len();; $b@ == data@;; forall|k: int| 0 <= k < $i ==> #[trigger] __h.has(k);; forall|k: int| 0 <= k < $i ==> #[trigger] __h.at(k) == data@[k]
@pre lemma_p1(data@.len());
@fn Tensor::join_vec(vec) -> r
@prop C19
@treq fv1(vec@, vec@.len() as int).len() <= usize::MAX
@ens r.l() =~= seq![fv1(vec@, vec@.len() as int).len()];; r.e() =~= fv1(vec@, vec@.len() as int)
@loop 0
@inv $b@ == vec@;; $v@ =~= fv1(vec@, $i as int)
@end assert(row@.subrange(0, row@.len() as int) =~= row@);
@loop 1
@inv $b@ == row@;; $v0@ =~= fv1(vec@, $x0 as int) + row@.subrange(0, $i as int)
@end lemma_sr(row@, $x as int);
@call Tensor::from_vec
lemma_p1(fv1(vec@, vec@.len() as int).len());
@fn tensor::scalar(value) -> r
@prop C19
@ens r.l() =~= Seq::<nat>::empty();; r.e() =~= seq![value]
@fn From<&str> for Tensor<String>::from(value) -> r
@prop C19
@ens r.l() =~= Seq::<nat>::empty();; r.e() =~= seq![s_string(*value)]
@fn From<Vec<&str>> for Tensor<String>::from(value) -> r
@prop C19
@ens r.l() =~= seq![value@.len()];; r.e() =~= Seq::new(value@.len(), |i: int| s_string(*value@[i]))
@loop 0
@inv $b@ == value@;; $v@ =~= Seq::new($i as nat, |i: int| s_string(*value@[i]))
@call Tensor::from_vec
lemma_p1(value@.len()); assert($1.l() =~= seq![value@.len()]);
@fn From<[&str;N]> for Tensor<String>::from(value) -> r
@prop C19
@ens r.l() =~= seq![N as nat];; r.e() =~= Seq::new(N as nat, |i: int| s_string(*value@[i]))
@loop 0
@inv $b@ == value@;; $v@ =~= Seq::new($i as nat, |i: int| s_string(*value@[i]))
@call Tensor::from_vec
lemma_p1(N as nat); assert($1.l() =~= seq![N as nat]);
@fn FromIterator<T> for Tensor<T>::from_iter(iter) -> r
@prop C19
@ens r.l() =~= seq![iter@.len()];; r.e() =~= iter@
@loop 0
@inv $b@ == iter@;; $v@ =~= iter@.subrange(0, $i as int)
@end lemma_sr(iter@, $x as int);
@call Tensor::from_vec
lemma_p1(iter@.len()); assert($1.l() =~= seq![iter@.len()]);
@fn FromIterator<&T> for Tensor<T>::from_iter(iter) -> r
@prop C19
@ens r.l() =~= seq![iter@.len()];; r.e() =~= Seq::new(iter@.len(), |i: int| *iter@[i])
@loop 0
@inv $b@ == iter@;; $v@ =~= Seq::new($i as nat, |i: int| *iter@[i])
@call Tensor::from_vec
lemma_p1(iter@.len()); assert($1.l() =~= seq![iter@.len()]);
@spec
pub open spec fn vlist<T>(v0: Seq<Tensor<T>>, v1: Seq<Tensor<T>>, rows: Seq<Seq<T>>) -> bool {
    v1.len() == v0.len() + rows.len() && v1.subrange(0, v0.len() as int) =~= v0
    && forall|i: int| 0 <= i < rows.len() ==> (#[trigger] v1[v0.len() + i]).wf() && v1[v0.len() + i].l() =~= seq![rows[i].len()] && v1[v0.len() + i].e() =~= rows[i]
}
@template vl(ty | it)
@fn IntoTensorList<T> for %ty%::into_list(self_, vec)
@prop C10 C19
@ens vlist(old(vec)@, final(vec)@, Seq::new(self_@.len(), |i: int| self_@[i]@))
@loop 0
@inv $b@ == self_@;; vlist(old(vec)@, vec@, Seq::new($i as nat, |i: int| self_@[i]@))
@end assert(vec@.subrange(0, old(vec)@.len() as int) =~= old(vec)@);
@endtemplate
@use vl(Vec<Vec<T>> | )
@use vl(Vec<&Vec<T>> | )
@use vl(&[Vec<T>] | )
@use vl(&[&Vec<T>] | )
@use vl([Vec<T>;N] | )
@use vl([&Vec<T>;N] | )
