@spec
// ---- histograms: how many of the first k samples fall into bin b, and that number as a float counted up from zero
pub open spec fn cnt(ks: Seq<int>, b: int, k: int) -> nat decreases k { if k <= 0 { 0 } else { cnt(ks, b, k - 1) + (if ks[k - 1] == b { 1nat } else { 0nat }) } }
pub open spec fn fnum(k: nat) -> f32 decreases k { if k == 0 { sfl_0p0_f32() } else { s2_add::<f32, f32, f32>(fnum((k - 1) as nat), sfl_1p0_f32()) } }
pub open spec fn cnts(ks: Seq<int>, n: int, k: int) -> nat decreases n { if n <= 0 { 0 } else { cnts(ks, n - 1, k) + cnt(ks, n - 1, k) } }
// every sample is counted exactly once
pub proof fn lemma_cnts(ks: Seq<int>, n: int, k: int)
    requires 0 <= k <= ks.len(), 0 <= n, forall|i: int| 0 <= i < k ==> 0 <= #[trigger] ks[i] < n
    ensures cnts(ks, n, k) == k
    decreases k
{
    if k > 0 { lemma_cnts(ks, n, k - 1); lemma_cnts1(ks, n, k); assert(0 <= ks[k - 1] < n); } else { lemma_cnts0(ks, n); }
}
pub proof fn lemma_cnts0(ks: Seq<int>, n: int) requires 0 <= n ensures cnts(ks, n, 0) == 0 decreases n { if n > 0 { lemma_cnts0(ks, n - 1); } }
pub proof fn lemma_cnts1(ks: Seq<int>, n: int, k: int)
    requires 0 < k <= ks.len(), 0 <= n
    ensures cnts(ks, n, k) == cnts(ks, n, k - 1) + (if 0 <= ks[k - 1] < n { 1nat } else { 0nat })
    decreases n
{ if n > 0 { lemma_cnts1(ks, n - 1, k); } }
pub open spec fn f_mn() -> spec_fn(f32, f32) -> f32 { |_x: f32, _y: f32| s2_min::<f32, f32, f32>(_x, _y) }
pub open spec fn f_mx() -> spec_fn(f32, f32) -> f32 { |_x: f32, _y: f32| s2_max::<f32, f32, f32>(_x, _y) }
pub open spec fn hmin(a: Seq<f32>) -> f32 { rdl(f_mn(), a) }
pub open spec fn hmax(a: Seq<f32>) -> f32 { rdl(f_mx(), a) }
// the width of a bin, and the bin of a sample (the last one for the maximum)
pub open spec fn hdel(a: Seq<f32>, n: usize) -> f32 { if s2_eq::<f32, f32, bool>(hmin(a), hmax(a)) { sfl_cpEPSILON_f32() } else { s2_div::<f32, f32, f32>(s2_sub::<f32, f32, f32>(hmax(a), hmin(a)), s1_cast::<usize, f32>(n)) } }
pub open spec fn hbin(a: Seq<f32>, n: usize, x: f32) -> int { let b = s1_cast::<f32, usize>(s1_floor::<f32, f32>(s2_div::<f32, f32, f32>(s2_sub::<f32, f32, f32>(x, hmin(a)), hdel(a, n)))) as int; if b < n { b } else { n - 1 } }
pub open spec fn hedges(a: Seq<f32>, n: usize, r: Tensor<f32>) -> bool { r.l() =~= seq![(n + 1) as nat] && forall|k: int| 0 <= k <= n ==> #[trigger] r.e()[k] == spv(hmin(a), hmax(a), (n + 1) as usize, k as usize) }
pub open spec fn hcounts(ks: Seq<int>, n: int, e: Seq<f32>) -> bool { e.len() == n && cnts(ks, n, ks.len() as int) == ks.len() && forall|b: int| 0 <= b < n ==> #[trigger] e[b] == fnum(cnt(ks, b, ks.len() as int)) }
pub open spec fn hks(a: Seq<f32>, n: usize) -> Seq<int> { Seq::new(a.len(), |i: int| hbin(a, n, a[i])) }
// the two columns of a list of pairs
pub open spec fn col(e: Seq<f32>, c: int) -> Seq<f32> { lane(e, 0, c, (e.len() / 2) as nat, 2) }
pub open spec fn hks2(e: Seq<f32>, n: usize) -> Seq<int> { Seq::new((e.len() / 2) as nat, |i: int| idx2(hbin(col(e, 1), n, e[idx2(i, 1, 2)]), hbin(col(e, 0), n, e[idx2(i, 0, 2)]), n as int)) }

pub proof fn lemma_pairs(t: Tensor<f32>)
    requires t.wf(), t.l().len() == 2, t.l()[1] == 2
    ensures sprod(t.l(), 0, 0) == 1, sprod(t.l(), 1, 2) == 2, t.n() == t.l()[0] * 2, t.n() / 2 == t.l()[0], t.l().remove(0) =~= seq![2nat]
{
    let l = t.l(); lemma_sprod_empty(l, 0); lemma_sprod_one(l, 1); lemma_prod_at(l, 0, 0); assert(1 * l[0] * 2 == l[0] * 2) by(nonlinear_arith); assert(prod(l) == t.n()); assert(t.n() == l[0] * 2); assert((l[0] * 2) / 2 == l[0]) by(nonlinear_arith);
}
pub proof fn lemma_pair_red(t: Tensor<f32>, g: spec_fn(Seq<f32>) -> f32, r: Tensor<f32>)
    requires t.wf(), t.l().len() == 2, t.l()[1] == 2, red_of(t, Some(0isize), g, r)
    ensures r.n() == 2, r.e()[0] == g(col(t.e(), 0)), r.e()[1] == g(col(t.e(), 1))
{ lemma_pairs(t); assert(r.e()[idx2(0, 0, 2)] == g(lane(t.e(), 0, 0, t.l()[0], 2))); assert(r.e()[idx2(0, 1, 2)] == g(lane(t.e(), 0, 1, t.l()[0], 2))); }

@template lin(w)
@call vector::linspace
assert(f_id()($0.e()[0]) == $0.e()[0]); assert(f_id()($1.e()[0]) == $1.e()[0]); assert($0.l() =~= $1.l()); assert($0.n() == 1); assert($2 * 1 == $2);
@ret vector::linspace
lemma_p1($2 as nat); assert($0.l() =~= Seq::<nat>::empty());  assert($r.l() =~= seq![$2 as nat]); assert($0.e().len() == 1); assert forall|k: int| 0 <= k < $2 implies #[trigger] $r.e()[k] == spv($0.e()[0], $1.e()[0], $2, k as usize) by { assert($r.e()[idx2(k, 0, 1)] == f_id()(spv(f_id()($0.e()[0]), f_id()($1.e()[0]), $2, k as usize))); }
@endtemplate

@fn histogram::histogram(data0, args0) -> r
@prop C21
@valid data0.shape.rank == 1;; data0.n() > 0;; args0.n_bins > 0;; s2_le::<f32, f32, bool>(hmin(data0.e()), hmax(data0.e()))
@treq args0.n_bins < usize::MAX
@ens r.0.l() =~= seq![args0.n_bins as nat];; hcounts(hks(data0.e(), args0.n_bins), args0.n_bins as int, r.0.e());; hedges(data0.e(), args0.n_bins, r.1)
@loop 0
@inv data == data0;; args == args0;; min == hmin(data0.e());; delta == hdel(data0.e(), args0.n_bins);; values@.len() == args0.n_bins;; $i > 0 ==> args0.n_bins > 0;;
  forall|b: int| 0 <= b < values@.len() ==> #[trigger] values@[b] == fnum(cnt(hks(data0.e(), args0.n_bins), b, $i as int))
@after let ks = hks(data0.e(), args0.n_bins); lemma_cnts(ks, args0.n_bins as int, ks.len() as int);
@use lin(0)

@fn histogram2d::histogram2d(data0, args0) -> r
@prop C21
@valid data0.shape.rank == 2;; data0.shape.s_cols() == 2;; data0.n() > 0 ==> args0.n_bins > 0;; s2_le::<f32, f32, bool>(hmin(col(data0.e(), 0)), hmax(col(data0.e(), 0)));; s2_le::<f32, f32, bool>(hmin(col(data0.e(), 1)), hmax(col(data0.e(), 1)))
@treq data0.n() > 0;; args0.n_bins < usize::MAX;; args0.n_bins * args0.n_bins <= usize::MAX
@ens r.0.l() =~= seq![args0.n_bins as nat, args0.n_bins as nat];; hcounts(hks2(data0.e(), args0.n_bins), args0.n_bins * args0.n_bins, r.0.e());; hedges(col(data0.e(), 0), args0.n_bins, r.1);; hedges(col(data0.e(), 1), args0.n_bins, r.2)
@loop 0
@inv data == data0;; args == args0;; data.shape.rank == 2;; data.shape.s_cols() == 2;; min_x == hmin(col(data0.e(), 0));; delta_x == hdel(col(data0.e(), 0), args0.n_bins);; min_y == hmin(col(data0.e(), 1));; delta_y == hdel(col(data0.e(), 1), args0.n_bins);; values@.len() == args0.n_bins * args0.n_bins;; $i > 0 ==> args0.n_bins > 0;;
  forall|b: int| 0 <= b < values@.len() ==> #[trigger] values@[b] == fnum(cnt(hks2(data0.e(), args0.n_bins), b, $i as int))
@start let n = args0.n_bins; let q = $x as int; if n > 0 { lemma_idx2(hbin(col(data0.e(), 1), n, data0.e()[idx2(q, 1, 2)]), hbin(col(data0.e(), 0), n, data0.e()[idx2(q, 0, 2)]), n as int, n as int); }
@before lemma_pairs(data0);
@after lemma_pairs(data0); let n = args0.n_bins as int; let ks = hks2(data0.e(), args0.n_bins); assert forall|i: int| 0 <= i < ks.len() implies 0 <= #[trigger] ks[i] < n * n by { lemma_idx2(hbin(col(data0.e(), 1), args0.n_bins, data0.e()[idx2(i, 1, 2)]), hbin(col(data0.e(), 0), args0.n_bins, data0.e()[idx2(i, 0, 2)]), n, n); } lemma_cnts(ks, n * n, ks.len() as int);
@ret Tensor::reduce_min_axis
lemma_pair_red(*$0, |_a: Seq<f32>| rdl(|_x: f32, _y: f32| s2_min::<f32, f32, f32>(_x, _y), _a), $r);
@ret Tensor::reduce_max_axis
lemma_pair_red(*$0, |_a: Seq<f32>| rdl(|_x: f32, _y: f32| s2_max::<f32, f32, f32>(_x, _y), _a), $r);
@call Tensor::reshape
let n = args0.n_bins as nat; lemma_p2(n, n); assert($1.l() =~= seq![n, n]);
@use lin(0)

@template ha(A)
@fn %A%::n_bins(self0, n_bins) -> r
@prop C21
@valid n_bins > 0
@ens r.n_bins == n_bins
@fn Default for %A%::default() -> r
@prop C21
@ens r.n_bins == 10
@fn %A%::new() -> r
@prop C21
@ens r.n_bins == 10
@fn From<()> for %A%::from(u) -> r
@prop C21
@ens r.n_bins == 10
@fn From<usize> for %A%::from(n_bins) -> r
@prop C21
@valid n_bins > 0
@ens r.n_bins == n_bins
@endtemplate
@use ha(HistArgs)
@use ha(Hist2Args)
