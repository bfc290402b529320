@spec
// every element is v
pub open spec fn allv<T>(e: Seq<T>, v: T) -> bool { forall|k: int| 0 <= k < e.len() ==> #[trigger] e[k] == v }
@template cst(key | v)
@fn %key%(shape0) -> r
@prop C14
@ens r.shape == shape0;; allv(r.e(), %v%)
@endtemplate
@use cst(init::zeros | s0_zero::<T>())
@use cst(init::ones | s0_one::<T>())
@use cst(Tensor::zeros | s0_zero::<T>())
@use cst(Tensor::ones | s0_one::<T>())
@use cst(Tensor::init_default | s0_default::<T>())
@fn init::fill(shape0, fill) -> r
@prop C14
@ens r.shape == shape0;; allv(r.e(), fill)
@fn Tensor::fill(shape0, value) -> r
@prop C14
@ens r.shape == shape0;; allv(r.e(), value)

@spec
// an n by n matrix with g(row, column) at every position
pub open spec fn mat<T>(r: Tensor<T>, n: nat, g: spec_fn(int, int) -> T) -> bool {
    r.l() =~= seq![n, n] && forall|j: int, i: int| 0 <= j < n && 0 <= i < n ==> r.e()[#[trigger] idx2(j, i, n as int)] == g(j, i)
}
pub proof fn lemma_rco2(n: nat, j: int, i: int) requires 0 <= j < n, 0 <= i < n ensures rco(seq![n, n], idx2(j, i, n as int)).len() == 2, rco(seq![n, n], idx2(j, i, n as int))[0] == i, rco(seq![n, n], idx2(j, i, n as int))[1] == j, 0 <= idx2(j, i, n as int) < n * n
{
    lemma_idx2(j, i, n as int, n as int);
    lemma_dm(j, n as int, i); let d = seq![n, n]; let d1 = d.drop_first(); let d2 = d1.drop_first(); assert(d1.len() == 1 && d2.len() == 0 && d1[0] == n);
    reveal_with_fuel(rco, 4); vstd::arithmetic::div_mod::lemma_small_mod(j as nat, n);
}
pub proof fn lemma_idims2(s: Shape, n: nat) requires s.wf(), s.l() =~= seq![n, n] ensures idims(s) =~= seq![n, n] { assert(idims(s)[0] == s.l()[1] && idims(s)[1] == s.l()[0]) by { lemma_idims(s); } }
@spec
pub open spec fn g_eye<T>() -> spec_fn(int, int) -> T { |j: int, i: int| if i == j { s0_one::<T>() } else { s0_zero::<T>() } }
pub open spec fn g_tri<T>() -> spec_fn(int, int) -> T { |j: int, i: int| if i <= j { s0_one::<T>() } else { s0_zero::<T>() } }
pub open spec fn g_diag<T>(d: Seq<T>) -> spec_fn(int, int) -> T { |j: int, i: int| if i == j { d[i] } else { s0_zero::<T>() } }
@template mx0(key | g)
@fn %key%(n) -> r
@prop C14
@treq n * n <= usize::MAX
@ens n > 0 ==> mat(r, n as nat, %g%)
@endtemplate
@use mx0(matrix::eye | g_eye::<T>())
@closure 0
@req $0@.len() == 2
@ens __r == (if $0@[0] == $0@[1] { s0_one::<T>() } else { s0_zero::<T>() })
@call Tensor::init_rindexed
lemma_idims2($0, n as nat); lemma_p2(n as nat, n as nat);
@ret Tensor::init_rindexed
lemma_idims2($0, n as nat); assert($r.l() =~= seq![n as nat, n as nat]); assert($r.e().len() == n * n); assert forall|j: int, i: int| 0 <= j < n && 0 <= i < n implies $r.e()[#[trigger] idx2(j, i, n as int)] == g_eye::<T>()(j, i) by { lemma_rco2(n as nat, j, i); }
@use mx0(matrix::identity | g_eye::<T>())
@use mx0(Tensor::eye | g_eye::<T>())
@use mx0(Tensor::identity | g_eye::<T>())
@use mx0(matrix::tri | g_tri::<T>())
@closure 0
@req $0@.len() == 2
@ens __r == (if $0@[0] <= $0@[1] { s0_one::<T>() } else { s0_zero::<T>() })
@call Tensor::init_rindexed
lemma_idims2($0, n as nat); lemma_p2(n as nat, n as nat);
@ret Tensor::init_rindexed
lemma_idims2($0, n as nat); assert($r.l() =~= seq![n as nat, n as nat]); assert($r.e().len() == n * n); assert forall|j: int, i: int| 0 <= j < n && 0 <= i < n implies $r.e()[#[trigger] idx2(j, i, n as int)] == g_tri::<T>()(j, i) by { lemma_rco2(n as nat, j, i); }
@use mx0(Tensor::tri | g_tri::<T>())
@fn matrix::diagflat(diag) -> r
@prop C14
@valid diag.shape.rank == 1
@treq diag.n() * diag.n() <= usize::MAX
@ens mat(r, diag.n(), g_diag(diag.e()))
@closure 0
@req $0@.len() == 2;; $0@[0] < diag.n()
@ens __r == (if $0@[0] == $0@[1] { diag.e()[$0@[0] as int] } else { s0_zero::<T>() })
@call Tensor::init_rindexed
lemma_idims2($0, diag.n()); lemma_p2(diag.n(), diag.n());
@ret Tensor::init_rindexed
lemma_idims2($0, diag.n()); assert($r.l() =~= seq![n as nat, n as nat]); assert($r.e().len() == n * n); assert forall|j: int, i: int| 0 <= j < n && 0 <= i < n implies $r.e()[#[trigger] idx2(j, i, n as int)] == g_diag(diag.e())(j, i) by { lemma_rco2(n as nat, j, i); }
@fn Tensor::diagflat(self_) -> r
@prop C14
@valid self_.shape.rank == 1
@treq self_.n() * self_.n() <= usize::MAX
@ens mat(r, self_.n(), g_diag(self_.e()))
@spec
// the element of a triangle at position q: the source's where the triangle keeps it
pub open spec fn lo_at<T>(e: Seq<T>, R: int, C: int, q: int) -> T { if q % C <= (q / C) % R { e[q] } else { s0_zero::<T>() } }
pub open spec fn up_at<T>(e: Seq<T>, R: int, C: int, q: int) -> T { if (q / C) % R <= q % C { e[q] } else { s0_zero::<T>() } }
pub open spec fn tri_ok<T>(t: Tensor<T>, r: Tensor<T>, lower: bool) -> bool {
    let C = t.shape.s_cols() as int; let R = t.shape.s_rows() as int;
    r.shape == t.shape && forall|q: int| 0 <= q < r.n() ==> #[trigger] r.e()[q] == if lower { lo_at(t.e(), R, C, q) } else { up_at(t.e(), R, C, q) }
}
pub proof fn lemma_rc(l: Seq<nat>) requires l.len() >= 2 ensures prod(l) == sprod(l, 0, l.len() - 2) * (l[l.len() - 2] * l[l.len() - 1]),
    prod(l) > 0 ==> l[l.len() - 2] * l[l.len() - 1] > 0 && l[l.len() - 1] * l[l.len() - 2] > 0, l[l.len() - 1] * l[l.len() - 2] == l[l.len() - 2] * l[l.len() - 1]
{
    lemma_sprod_full(l); lemma_sprod_right(l, 0, l.len() as int); lemma_sprod_right(l, 0, l.len() - 1);
    let p = sprod(l, 0, l.len() - 2); let a = l[l.len() - 2]; let b = l[l.len() - 1]; assert(p * a * b == p * (a * b)) by(nonlinear_arith);
    assert(a * b == b * a) by(nonlinear_arith); if a * b == 0 { assert(p * (a * b) == 0) by(nonlinear_arith) requires a * b == 0; } assert(a * b >= 0) by(nonlinear_arith);
}
pub proof fn lemma_rows(k: int, j: int, i: int, n: int, R: int, C: int)
    requires 0 <= k < n, 0 <= j < R, 0 <= i < C
    ensures k * R * C + j * C + i == idx3(k, j, i, R, C), idx3(k, j, i, R, C) / C % R == j, idx3(k, j, i, R, C) % C == i, 0 <= idx3(k, j, i, R, C) < n * R * C,
        (k + 1) * R * C == k * R * C + R * C, (j + 1) * C == j * C + C, 0 <= k * R * C, 0 <= j * C, k * R <= k * R * C, k * R * C < n * R * C, k * R * C + j * C < n * R * C
{
    lemma_flat3b(k, j, i, R, C); lemma_idx3(k, j, i, n, R, C); lemma_dm(k * R + j, C, i); lemma_dm(k, R, j);
    assert((k + 1) * R * C == k * R * C + R * C) by(nonlinear_arith); assert((j + 1) * C == j * C + C) by(nonlinear_arith);
    assert(0 <= k * R) by(nonlinear_arith) requires 0 <= k, 0 <= R;
    assert(0 <= k * R * C && k * R <= k * R * C) by(nonlinear_arith) requires 0 <= k * R, 1 <= C; assert(0 <= j * C) by(nonlinear_arith) requires 0 <= j, 0 <= C;
}
@template tr3(key | f)
@fn matrix::%key%(tensor) -> r
@prop C14
@valid tensor.shape.rank >= 2
@treq tensor.n() > 0
@ens tri_ok(*tensor, r, %f%)
@pre if tensor.shape.rank >= 2 { lemma_rc(tensor.l()); if tensor.n() > 0 { lemma_pos_n(tensor.l()); } }
@endtemplate
@template tr3b(at)
@loop 0
@inv $e == n;; $s == 0;; __h.cap() == size;; size == tensor.n();; x@ == tensor.e();; n * rows * cols == size;;
  forall|q: int| 0 <= q < $i * rows * cols ==> #[trigger] __h.has(q);; forall|q: int| 0 <= q < $i * rows * cols ==> #[trigger] __h.at(q) == %at%(tensor.e(), rows as int, cols as int, q)
@before if rows * cols > 0 { let p = sprod(tensor.l(), 0, tensor.shape.rank - 2) as int; lemma_dm(p, rows * cols, 0); assert(n * rows * cols == n * (rows * cols)) by(nonlinear_arith); } assert(0 * rows * cols == 0) by(nonlinear_arith);
@start assert(($x + 1) * rows * cols == $x * rows * cols + rows * cols) by(nonlinear_arith);
@loop 1
@inv $e == rows;; $s == 0;; __h.cap() == size;;
  forall|q: int| 0 <= q < $x0 * rows * cols + $i * cols ==> #[trigger] __h.has(q);; forall|q: int| 0 <= q < $x0 * rows * cols + $i * cols ==> #[trigger] __h.at(q) == %at%(tensor.e(), rows as int, cols as int, q)
@before assert(0 * cols == 0) by(nonlinear_arith);
@start assert(($x + 1) * cols == $x * cols + cols) by(nonlinear_arith);
@loop 2
@inv $e == cols;; $s == 0;; __h.cap() == size;;
  forall|q: int| 0 <= q < $x0 * rows * cols + $x1 * cols + $i ==> #[trigger] __h.has(q);; forall|q: int| 0 <= q < $x0 * rows * cols + $x1 * cols + $i ==> #[trigger] __h.at(q) == %at%(tensor.e(), rows as int, cols as int, q)
@start lemma_rows($x0 as int, $x1 as int, $x as int, n as int, rows as int, cols as int);
@fin assert(forall|q: int| 0 <= q < __h.cap() ==> #[trigger] __h.has(q));
@endtemplate
@use tr3(tril | true)
@use tr3b(lo_at)
@use tr3(triu | false)
@use tr3b(up_at)
@template tr3w(key | f)
@fn Tensor::%key%(self_) -> r
@prop C14
@valid self_.shape.rank >= 2
@treq self_.n() > 0
@ens tri_ok(*self_, r, %f%)
@endtemplate
@use tr3w(tril | true)
@use tr3w(triu | false)
