@template gm(key | val)
@fn %key%(m, k, n, alpha, a, rsa, csa, b, rsb, csb, beta, c, rsc, csc)
@prop C17 C18
@req g_in(a.off(), rsa as int, csa as int, m as int, k as int, a.mem().len() as int);; g_in(b.off(), rsb as int, csb as int, k as int, n as int, b.mem().len() as int);; g_in(c.off@, rsc as int, csc as int, m as int, n as int, __h.cap() as int);; g_inj(c.off@, rsc as int, csc as int, m as int, n as int);; beta == sfl_0p0_f32()
@ens g_frame(*old(__h), *final(__h), c.off@, rsc as int, csc as int, m as int, n as int);;
  forall|i: int, j: int| 0 <= i < m && 0 <= j < n ==> final(__h).has(#[trigger] gix(c.off@, rsc as int, csc as int, i, j)) && final(__h).at(gix(c.off@, rsc as int, csc as int, i, j)) == %val%(alpha, g_row(a.mem(), a.off(), rsa as int, csa as int, i, k as int), g_col(b.mem(), b.off(), rsb as int, csb as int, j, k as int))
@endtemplate
@use gm(blas::sgemm | s_gdot)
@spec
// row i of a matrix stored at base with rows of length cols, or of its transpose
pub open spec fn m_row(x: Seq<f32>, base: int, cols: int, t: bool, i: int, k: int) -> Seq<f32> { if t { g_row(x, base, 1, cols, i, k) } else { g_row(x, base, cols, 1, i, k) } }
pub open spec fn m_col(x: Seq<f32>, base: int, cols: int, t: bool, j: int, k: int) -> Seq<f32> { if t { g_col(x, base, 1, cols, j, k) } else { g_col(x, base, cols, 1, j, k) } }
pub open spec fn t_a(t: Transpose) -> bool { t is TransposeA || t is TransposeAB }
pub open spec fn t_b(t: Transpose) -> bool { t is TransposeB || t is TransposeAB }
pub open spec fn mm_m(t: Transpose, a: Shape) -> nat { if t_a(t) { a.s_cols() } else { a.s_rows() } }
pub open spec fn mm_k(t: Transpose, a: Shape) -> nat { if t_a(t) { a.s_rows() } else { a.s_cols() } }
pub open spec fn mm_kb(t: Transpose, b: Shape) -> nat { if t_b(t) { b.s_cols() } else { b.s_rows() } }
pub open spec fn mm_n(t: Transpose, b: Shape) -> nat { if t_b(t) { b.s_rows() } else { b.s_cols() } }
pub proof fn lemma_gin(off: int, r: int, c: int, len: int) requires 0 <= off, off + r * c <= len, 0 <= r, 0 <= c
    ensures g_in(off, c, 1, r, c, len), g_in(off, 1, c, c, r, len), g_inj(off, c, 1, r, c)
{
    assert forall|i: int, j: int| 0 <= i < r && 0 <= j < c implies 0 <= #[trigger] gix(off, c, 1, i, j) < len by { lemma_idx2(i, j, r, c); assert(c * i == i * c) by(nonlinear_arith); }
    assert forall|i: int, j: int| 0 <= i < c && 0 <= j < r implies 0 <= #[trigger] gix(off, 1, c, i, j) < len by { lemma_idx2(j, i, r, c); assert(c * j == j * c) by(nonlinear_arith); }
    assert forall|i: int, j: int, x: int, y: int| 0 <= i < r && 0 <= j < c && 0 <= x < r && 0 <= y < c && #[trigger] gix(off, c, 1, i, j) == #[trigger] gix(off, c, 1, x, y) implies i == x && j == y by { lemma_idx2(i, j, r, c); assert(c * i == i * c && c * x == x * c) by(nonlinear_arith); assert(idx2(x, y, c) == idx2(i, j, c)); }
}
// one block of the output, rows by cols at off, holds v; nothing else changed
pub open spec fn blk(o: OutBuf<f32>, f: OutBuf<f32>, off: int, m: int, n: int, v: spec_fn(int, int) -> f32) -> bool {
    f.cap() == o.cap() && (forall|q: int| !(off <= q < off + m * n) ==> #[trigger] f.has(q) == o.has(q) && f.at(q) == o.at(q))
    && forall|i: int, j: int| 0 <= i < m && 0 <= j < n ==> f.has(off + #[trigger] idx2(i, j, n)) && f.at(off + idx2(i, j, n)) == v(i, j)
}
pub open spec fn vals(o: OutBuf<f32>, off: int, n: int, v: spec_fn(int, int) -> f32, m: int) -> bool { forall|i: int, j: int| 0 <= i < m && 0 <= j < n ==> o.has(#[trigger] gix(off, n, 1, i, j)) && o.at(gix(off, n, 1, i, j)) == v(i, j) }
pub proof fn lemma_blk(o: OutBuf<f32>, f: OutBuf<f32>, off: int, m: int, n: int, v: spec_fn(int, int) -> f32)
    requires g_frame(o, f, off, n, 1, m, n), vals(f, off, n, v, m), 0 <= m, 0 <= n
    ensures blk(o, f, off, m, n, v)
{
    assert forall|q: int| !(off <= q < off + m * n) implies #[trigger] f.has(q) == o.has(q) && f.at(q) == o.at(q) by {
        assert forall|i: int, j: int| 0 <= i < m && 0 <= j < n implies q != #[trigger] gix(off, n, 1, i, j) by { lemma_idx2(i, j, m, n); assert(n * i == i * n) by(nonlinear_arith); }
        assert(!g_pos(off, n, 1, m, n, q));
    }
    assert forall|i: int, j: int| 0 <= i < m && 0 <= j < n implies f.has(off + #[trigger] idx2(i, j, n)) && f.at(off + idx2(i, j, n)) == v(i, j) by { assert(n * i == i * n) by(nonlinear_arith); assert(gix(off, n, 1, i, j) == off + idx2(i, j, n)); }
}
// the same rows and columns, seen from the tensor's window
pub proof fn lemma_win(x: Seq<f32>, w: int, e: Seq<f32>, base: int, r: int, c: int)
    requires 0 <= w, w + e.len() <= x.len(), e =~= x.subrange(w, w + e.len()), 0 <= base, base + r * c <= e.len(), 0 <= r, 0 <= c
    ensures forall|i: int| 0 <= i < r ==> #[trigger] m_row(x, w + base, c, false, i, c) == m_row(e, base, c, false, i, c), forall|i: int| 0 <= i < c ==> #[trigger] m_row(x, w + base, c, true, i, r) == m_row(e, base, c, true, i, r),
        forall|j: int| 0 <= j < c ==> #[trigger] m_col(x, w + base, c, false, j, r) == m_col(e, base, c, false, j, r), forall|j: int| 0 <= j < r ==> #[trigger] m_col(x, w + base, c, true, j, c) == m_col(e, base, c, true, j, c)
{
    lemma_gin(base, r, c, e.len() as int);
    assert forall|i: int, j: int| 0 <= i < r && 0 <= j < c implies x[#[trigger] gix(w + base, c, 1, i, j)] == e[gix(base, c, 1, i, j)] by { }
    assert forall|i: int, j: int| 0 <= i < c && 0 <= j < r implies x[#[trigger] gix(w + base, 1, c, i, j)] == e[gix(base, 1, c, i, j)] by { }
    assert forall|i: int| 0 <= i < r implies #[trigger] m_row(x, w + base, c, false, i, c) == m_row(e, base, c, false, i, c) by { assert(g_row(x, w + base, c, 1, i, c) =~= g_row(e, base, c, 1, i, c)); }
    assert forall|i: int| 0 <= i < c implies #[trigger] m_row(x, w + base, c, true, i, r) == m_row(e, base, c, true, i, r) by { assert(g_row(x, w + base, 1, c, i, r) =~= g_row(e, base, 1, c, i, r)); }
    assert forall|j: int| 0 <= j < c implies #[trigger] m_col(x, w + base, c, false, j, r) == m_col(e, base, c, false, j, r) by { assert(g_col(x, w + base, c, 1, j, r) =~= g_col(e, base, c, 1, j, r)); }
    assert forall|j: int| 0 <= j < r implies #[trigger] m_col(x, w + base, c, true, j, c) == m_col(e, base, c, true, j, c) by { assert(g_col(x, w + base, 1, c, j, c) =~= g_col(e, base, 1, c, j, c)); }
}
pub open spec fn mmv(t: Transpose, x: Seq<f32>, xo: int, a: Shape, y: Seq<f32>, yo: int, b: Shape) -> spec_fn(int, int) -> f32 {
    |i: int, j: int| s_gdot(sfl_1p0_f32(), m_row(x, xo, a.s_cols() as int, t_a(t), i, mm_k(t, a) as int), m_col(y, yo, b.s_cols() as int, t_b(t), j, mm_k(t, a) as int))
}
@fn TransposeMatmul for Transpose::mkn(self_, a, b) -> r
@prop C17
@valid mm_k(*self_, a.shape) == mm_kb(*self_, b.shape)
@ens r.0 == mm_m(*self_, a.shape);; r.2 == mm_n(*self_, b.shape)
@fn TransposeMatmul for Transpose::sgemm(self_, a, b, a_ptr, b_ptr, o_ptr)
@prop C17
@req mm_k(*self_, a.shape) == mm_kb(*self_, b.shape);; 0 <= a_ptr.off();; a_ptr.off() + a.shape.s_rows() * a.shape.s_cols() <= a_ptr.mem().len();; 0 <= b_ptr.off();; b_ptr.off() + b.shape.s_rows() * b.shape.s_cols() <= b_ptr.mem().len();; 0 <= o_ptr.off@;; o_ptr.off@ + mm_m(*self_, a.shape) * mm_n(*self_, b.shape) <= __h.cap()
@ens blk(*old(__h), *final(__h), o_ptr.off@, mm_m(*self_, a.shape) as int, mm_n(*self_, b.shape) as int, mmv(*self_, a_ptr.mem(), a_ptr.off(), a.shape, b_ptr.mem(), b_ptr.off(), b.shape))
@pre lemma_gin(a_ptr.off(), a.shape.s_rows() as int, a.shape.s_cols() as int, a_ptr.mem().len() as int); lemma_gin(b_ptr.off(), b.shape.s_rows() as int, b.shape.s_cols() as int, b_ptr.mem().len() as int); lemma_gin(o_ptr.off@, mm_m(*self_, a.shape) as int, mm_n(*self_, b.shape) as int, __h.cap() as int);
@post let v = mmv(*self_, a_ptr.mem(), a_ptr.off(), a.shape, b_ptr.mem(), b_ptr.off(), b.shape); assert(vals(*__h, o_ptr.off@, mm_n(*self_, b.shape) as int, v, mm_m(*self_, a.shape) as int)); lemma_blk(*old(__h), *__h, o_ptr.off@, mm_m(*self_, a.shape) as int, mm_n(*self_, b.shape) as int, v);
@spec
// l without its last two dimensions
pub open spec fn bt2(l: Seq<nat>) -> Seq<nat> { l.subrange(0, l.len() - 2) }
pub open spec fn mm_ok(a: Shape, b: Shape, t: Transpose) -> bool { a.rank >= 2 && b.rank >= 2 && bt2(a.l()) =~= bt2(b.l()) && mm_k(t, a) == mm_kb(t, b) }
pub open spec fn mm_is(a: Tensor<f32>, b: Tensor<f32>, t: Transpose, r: Tensor<f32>) -> bool {
    let m = mm_m(t, a.shape); let n = mm_n(t, b.shape); let k = mm_k(t, a.shape);
    r.l() =~= bt2(a.l()) + seq![m, n] && forall|q: int, i: int, j: int| 0 <= q < prod(bt2(a.l())) && 0 <= i < m && 0 <= j < n ==> #[trigger] r.e()[idx3(q, i, j, m as int, n as int)]
        == s_gdot(sfl_1p0_f32(), m_row(a.e(), q * (a.shape.s_rows() * a.shape.s_cols()), a.shape.s_cols() as int, t_a(t), i, k as int), m_col(b.e(), q * (b.shape.s_rows() * b.shape.s_cols()), b.shape.s_cols() as int, t_b(t), j, k as int))
}
pub proof fn lemma_pcat2(l: Seq<nat>, m: nat, n: nat) ensures prod(l + seq![m, n]) == prod(l) * (m * n) { lemma_prod_concat(l, seq![m, n]); lemma_p2(m, n); }
pub proof fn lemma_bt2(s: Shape) requires s.wf() ensures s.rank >= 2 ==> s.n() == prod(bt2(s.l())) * (s.s_rows() * s.s_cols()) && sprod(s.l(), 0, s.rank - 2) == prod(bt2(s.l())) && s.l().remove(s.rank - 1).remove(s.rank - 2) =~= bt2(s.l())
{
    if s.rank >= 2 { let l = s.l(); assert(l =~= bt2(l) + seq![s.s_rows(), s.s_cols()]); lemma_pcat2(bt2(l), s.s_rows(), s.s_cols()); }
}
pub proof fn lemma_pm(w: int, r: int, c: int) requires 0 <= w, 0 <= r, 0 <= c ensures w * (r * c) == (r * c) * w, w * (r * c) > 0 ==> w > 0 && r > 0 && c > 0, w > 0 ==> r * c <= w * (r * c)
{
    assert(w * (r * c) == (r * c) * w) by(nonlinear_arith); assert(0 <= r * c) by(nonlinear_arith) requires 0 <= r, 0 <= c;
    if w * (r * c) > 0 { assert(w > 0 && r * c > 0) by(nonlinear_arith) requires w * (r * c) > 0, 0 <= w, 0 <= r * c; assert(r > 0 && c > 0) by(nonlinear_arith) requires r * c > 0, 0 <= r, 0 <= c; }
    if w > 0 { assert(r * c <= w * (r * c)) by(nonlinear_arith) requires w > 0, 0 <= r * c; }
}
pub proof fn lemma_chunk(q: int, w: int, s: int) requires 0 <= q < w, 0 <= s ensures 0 <= q * s, q * s + s <= w * s, q * s == s * q, w * s == s * w
{ assert(0 <= q * s && q * s + s <= w * s && q * s == s * q && w * s == s * w) by(nonlinear_arith) requires 0 <= q < w, 0 <= s; }
pub proof fn lemma_blk3(q: int, i: int, j: int, m: int, n: int) requires 0 <= q, 0 <= i < m, 0 <= j < n ensures idx3(q, i, j, m, n) == q * (m * n) + idx2(i, j, n), 0 <= idx2(i, j, n) < m * n
{ lemma_idx2(i, j, m, n); assert((q * m + i) * n + j == q * (m * n) + (i * n + j)) by(nonlinear_arith); }
@fn matmul::matmul_t(a, b, transpose) -> r
@prop C17
@valid mm_ok(a.shape, b.shape, transpose)
@treq a.n() > 0;; b.n() > 0;; mm_m(transpose, a.shape) * mm_n(transpose, b.shape) * prod(bt2(a.l())) <= usize::MAX
@ens mm_is(*a, *b, transpose, r)
@pre lemma_bt2(a.shape); lemma_bt2(b.shape); let am = prod(bt2(a.l())) as int; let bm = prod(bt2(b.l())) as int; lemma_pm(am, a.shape.s_rows() as int, a.shape.s_cols() as int); lemma_pm(bm, b.shape.s_rows() as int, b.shape.s_cols() as int); lemma_pm(am, mm_m(transpose, a.shape) as int, mm_n(transpose, b.shape) as int);
@loop 0
@inv $s == 0;; $e == batch_len;; __h.cap() == o_size * batch_len;; o_size == m * n;; mm_ok(a.shape, b.shape, transpose);; m == mm_m(transpose, a.shape);; n == mm_n(transpose, b.shape);; batch_len == prod(bt2(a.l()));; a_size == a.shape.s_rows() * a.shape.s_cols();; b_size == b.shape.s_rows() * b.shape.s_cols();;
  forall|q: int, i: int, j: int| 0 <= q < $i && 0 <= i < m && 0 <= j < n ==> __h.has(#[trigger] idx3(q, i, j, m as int, n as int)) && __h.at(idx3(q, i, j, m as int, n as int)) == mmv(transpose, a.e(), q * a_size, a.shape, b.e(), q * b_size, b.shape)(i, j)
@start let q = $x as int; let w = batch_len as int; lemma_bt2(a.shape); lemma_bt2(b.shape); lemma_chunk(q, w, a_size as int); lemma_chunk(q, w, b_size as int); lemma_chunk(q, w, o_size as int);
  lemma_win(a.data.data.cells(), a.offset as int, a.e(), q * a_size, a.shape.s_rows() as int, a.shape.s_cols() as int); lemma_win(b.data.data.cells(), b.offset as int, b.e(), q * b_size, b.shape.s_rows() as int, b.shape.s_cols() as int);
@end let x = $x as int; assert forall|q: int, i: int, j: int| 0 <= q < $i && 0 <= i < m && 0 <= j < n implies __h.has(#[trigger] idx3(q, i, j, m as int, n as int)) && __h.at(idx3(q, i, j, m as int, n as int)) == mmv(transpose, a.e(), q * a_size, a.shape, b.e(), q * b_size, b.shape)(i, j) by {
    lemma_blk3(q, i, j, m as int, n as int); if q < x { lemma_chunk(q, x, o_size as int); } else { lemma_chunk(q, batch_len as int, o_size as int); }
  }
@fin assert(o_size * batch_len == batch_len * m * n) by(nonlinear_arith) requires o_size == m * n; assert forall|p: int| 0 <= p < __h.cap() implies #[trigger] __h.has(p) by { lemma_unidx3(p, batch_len as int, m as int, n as int); assert(__h.has(idx3((p / (n as int)) / (m as int), (p / (n as int)) % (m as int), p % (n as int), m as int, n as int))); }
  assert forall|q: int, i: int, j: int| 0 <= q < batch_len && 0 <= i < m && 0 <= j < n implies #[trigger] __h.seq()[idx3(q, i, j, m as int, n as int)] == mmv(transpose, a.e(), q * a_size, a.shape, b.e(), q * b_size, b.shape)(i, j) by { lemma_idx3(q, i, j, batch_len as int, m as int, n as int); assert(__h.has(idx3(q, i, j, m as int, n as int))); }
@last assert(shape.l() =~= bt2(a.l()) + seq![m as nat, n as nat]); lemma_pcat2(bt2(a.l()), m as nat, n as nat);
@fn matmul::matmul(a, b) -> r
@prop C17
@valid mm_ok(a.shape, b.shape, Transpose::None)
@treq a.n() > 0;; b.n() > 0;; mm_m(Transpose::None, a.shape) * mm_n(Transpose::None, b.shape) * prod(bt2(a.l())) <= usize::MAX
@ens mm_is(*a, *b, Transpose::None, r)
@fn Tensor<f32>::matmul(self_, b) -> r
@prop C17
@valid mm_ok(self_.shape, b.shape, Transpose::None)
@treq self_.n() > 0;; b.n() > 0;; mm_m(Transpose::None, self_.shape) * mm_n(Transpose::None, b.shape) * prod(bt2(self_.l())) <= usize::MAX
@ens mm_is(*self_, *b, Transpose::None, r)
@fn Tensor<f32>::matmul_t(self_, b, transpose) -> r
@prop C17
@valid mm_ok(self_.shape, b.shape, transpose)
@treq self_.n() > 0;; b.n() > 0;; mm_m(transpose, self_.shape) * mm_n(transpose, b.shape) * prod(bt2(self_.l())) <= usize::MAX
@ens mm_is(*self_, *b, transpose, r)
@spec
pub open spec fn mv_n(t: Transpose, a: Shape) -> nat { if t is TransposeA { a.s_cols() } else { a.s_rows() } }
pub open spec fn mv_k(t: Transpose, a: Shape) -> nat { if t is TransposeA { a.s_rows() } else { a.s_cols() } }
// number of vectors in a stack
pub open spec fn mv_r(x: Shape) -> nat { if x.rank >= 2 { x.s_rows() } else { 1 } }
pub open spec fn mvv(t: Transpose, x: Seq<f32>, xo: int, xs: Shape, y: Seq<f32>, yo: int, b: Shape) -> spec_fn(int, int) -> f32 {
    |i: int, j: int| s_gdot(sfl_1p0_f32(), m_row(x, xo, xs.s_cols() as int, false, i, xs.s_cols() as int), m_col(y, yo, b.s_cols() as int, !(t is TransposeA), j, xs.s_cols() as int))
}
@fn TransposeMatvec for Transpose::o_size(self_, a, x) -> r
@prop C18
@valid *self_ is None || *self_ is TransposeA;; mv_k(*self_, a.shape) == x.shape.s_cols()
@ens r.0 == mv_n(*self_, a.shape);; r.1 == smax(1, x.shape.s_rows() as int)
@fn TransposeMatvec for Transpose::sgemm(self_, a, x, o_cols, o_rows, a_ptr, x_ptr, o_ptr)
@prop C18
@valid *self_ is None || *self_ is TransposeA
@req *self_ is None || *self_ is TransposeA ==> mv_k(*self_, a.shape) == x.shape.s_cols() && o_cols == mv_n(*self_, a.shape);; 0 <= a_ptr.off();; a_ptr.off() + a.shape.s_rows() * a.shape.s_cols() <= a_ptr.mem().len();; 0 <= x_ptr.off();; x_ptr.off() + o_rows * x.shape.s_cols() <= x_ptr.mem().len();; 0 <= o_ptr.off@;; o_ptr.off@ + o_rows * o_cols <= __h.cap()
@ens blk(*old(__h), *final(__h), o_ptr.off@, o_rows as int, o_cols as int, mvv(*self_, x_ptr.mem(), x_ptr.off(), x.shape, a_ptr.mem(), a_ptr.off(), a.shape))
@pre lemma_gin(a_ptr.off(), a.shape.s_rows() as int, a.shape.s_cols() as int, a_ptr.mem().len() as int); lemma_gin(x_ptr.off(), o_rows as int, x.shape.s_cols() as int, x_ptr.mem().len() as int); lemma_gin(o_ptr.off@, o_rows as int, o_cols as int, __h.cap() as int);
@post let v = mvv(*self_, x_ptr.mem(), x_ptr.off(), x.shape, a_ptr.mem(), a_ptr.off(), a.shape); assert(vals(*__h, o_ptr.off@, o_cols as int, v, o_rows as int)); lemma_blk(*old(__h), *__h, o_ptr.off@, o_rows as int, o_cols as int, v);
@spec
// the dimensions in front of the rows
pub open spec fn bx(x: Shape) -> Seq<nat> { x.l().subrange(0, x.rank - (if x.rank >= 2 { 2int } else { x.rank as int })) }
pub open spec fn mv_ok(a: Shape, x: Shape, t: Transpose) -> bool { a.rank >= 2 && x.rank >= 1 && (t is None || t is TransposeA) && mv_k(t, a) == x.s_cols() && bc(bt2(a.l()), bx(x)) }
pub open spec fn mv_is(a: Tensor<f32>, x: Tensor<f32>, t: Transpose, r: Tensor<f32>) -> bool {
    let n = mv_n(t, a.shape); let m = mv_r(x.shape); let k = x.shape.s_cols();
    r.l() =~= x.l().update(x.shape.rank - 1, n) && forall|q: int, i: int, j: int| 0 <= q < prod(bx(x.shape)) && 0 <= i < m && 0 <= j < n ==> #[trigger] r.e()[idx3(q, i, j, m as int, n as int)]
        == s_gdot(sfl_1p0_f32(), m_row(x.e(), q * (m * k), k as int, false, i, k as int), m_col(a.e(), (q % (prod(bt2(a.l())) as int)) * (a.shape.s_rows() * a.shape.s_cols()), a.shape.s_cols() as int, !(t is TransposeA), j, k as int))
}
pub proof fn lemma_bx(x: Shape) requires x.wf(), x.rank >= 1 ensures x.n() == prod(bx(x)) * (mv_r(x) * x.s_cols())
{
    if x.rank >= 2 { lemma_bt2(x); assert(bx(x) =~= bt2(x.l())); } else { assert(x.l() =~= seq![x.s_cols()]); lemma_p1(x.s_cols()); assert(bx(x) =~= Seq::<nat>::empty()); assert(prod(bx(x)) == 1); assert(1 * (1 * x.s_cols()) == x.s_cols()) by(nonlinear_arith); }
}
@template mv(key | a | x | t)
@fn %key%
@prop C18
@valid mv_ok(%a%.shape, %x%.shape, %t%)
@treq %a%.n() > 0;; %x%.n() > 0;; bt2(%a%.l()).len() <= bx(%x%.shape).len();; mv_n(%t%, %a%.shape) * mv_r(%x%.shape) * prod(bx(%x%.shape)) <= usize::MAX;; prod(bx(%x%.shape)) * (%a%.shape.s_rows() * %a%.shape.s_cols()) <= usize::MAX
@ens mv_is(*%a%, *%x%, %t%, r)
@endtemplate
@use mv(matvec::matvec_t_f32(a, x, transpose) -> r | a | x | transpose)
@pre lemma_bt2(a.shape); if x.shape.rank >= 1 { lemma_bx(x.shape); } assert(bt2(a.l()) =~= a.l().subrange(0, a.shape.rank - 2)); let ab = prod(bt2(a.l())) as int; let xb = prod(bx(x.shape)) as int; lemma_pm(ab, a.shape.s_rows() as int, a.shape.s_cols() as int); lemma_pm(xb, mv_r(x.shape) as int, x.shape.s_cols() as int); lemma_pm(xb, mv_n(transpose, a.shape) as int, mv_r(x.shape) as int); assert(a.shape.s_cols() * a.shape.s_rows() == a.shape.s_rows() * a.shape.s_cols() && mv_r(x.shape) * x.shape.s_cols() == x.shape.s_cols() * mv_r(x.shape)) by(nonlinear_arith);
@loop 0
@inv $s == 0;; $e == batch;; __h.cap() == o_size * batch;; o_size == o_rows * o_cols;; mv_ok(a.shape, x.shape, transpose);; o_cols == mv_n(transpose, a.shape);; o_rows == smax(1, x.shape.s_rows() as int);; a_size == a.shape.s_rows() * a.shape.s_cols();; x_size == o_rows * x.shape.s_cols();; $i > 0 ==> a.n() > 0 && x.n() > 0;; shape.l() =~= x.l().update(x.shape.rank - 1, o_cols as nat);;
  forall|q: int, i: int, j: int| 0 <= q < $i && 0 <= i < o_rows && 0 <= j < o_cols ==> __h.has(#[trigger] idx3(q, i, j, o_rows as int, o_cols as int)) && __h.at(idx3(q, i, j, o_rows as int, o_cols as int)) == mvv(transpose, x.e(), (q % (prod(bx(x.shape)) as int)) * x_size, x.shape, a.e(), (q % (prod(bt2(a.l())) as int)) * a_size, a.shape)(i, j)
@before assert(o_cols * o_rows == o_rows * o_cols && x.shape.s_cols() * x_rows == x_rows * x.shape.s_cols()) by(nonlinear_arith);
@start let q = $x as int; let ab = prod(bt2(a.l())) as int; let xb = prod(bx(x.shape)) as int; lemma_bt2(a.shape); lemma_bx(x.shape); lemma_chunk(q, batch as int, a_size as int); lemma_chunk(q, batch as int, o_size as int);
  if a.n() > 0 { lemma_wrapmul(q, ab, a_size as int); lemma_win(a.data.data.cells(), a.offset as int, a.e(), (q % ab) * a_size, a.shape.s_rows() as int, a.shape.s_cols() as int); }
  if x.n() > 0 { lemma_pm(xb, mv_r(x.shape) as int, x.shape.s_cols() as int); lemma_wrapmul(q, xb, x_size as int); lemma_win(x.data.data.cells(), x.offset as int, x.e(), (q % xb) * x_size, o_rows as int, x.shape.s_cols() as int); if bcl(bt2(a.l()), bx(x.shape)) == bx(x.shape) { lemma_chunk(q, xb, x_size as int); } }
@end let w = $x as int; assert forall|q: int, i: int, j: int| 0 <= q < $i && 0 <= i < o_rows && 0 <= j < o_cols implies __h.has(#[trigger] idx3(q, i, j, o_rows as int, o_cols as int)) && __h.at(idx3(q, i, j, o_rows as int, o_cols as int)) == mvv(transpose, x.e(), (q % (prod(bx(x.shape)) as int)) * x_size, x.shape, a.e(), (q % (prod(bt2(a.l())) as int)) * a_size, a.shape)(i, j) by {
    lemma_blk3(q, i, j, o_rows as int, o_cols as int); if q < w { lemma_chunk(q, w, o_size as int); } else { lemma_chunk(q, batch as int, o_size as int); }
  }
@fin assert(o_size * batch == batch * o_rows * o_cols) by(nonlinear_arith) requires o_size == o_rows * o_cols; assert forall|p: int| 0 <= p < __h.cap() implies #[trigger] __h.has(p) by { let n = o_cols as int; let m = o_rows as int; lemma_unidx3(p, batch as int, m, n); assert(__h.has(idx3((p / n) / m, (p / n) % m, p % n, m, n))); }
  assert forall|q: int, i: int, j: int| 0 <= q < batch && 0 <= i < o_rows && 0 <= j < o_cols implies #[trigger] __h.seq()[idx3(q, i, j, o_rows as int, o_cols as int)] == mvv(transpose, x.e(), (q % (prod(bx(x.shape)) as int)) * x_size, x.shape, a.e(), (q % (prod(bt2(a.l())) as int)) * a_size, a.shape)(i, j) by { lemma_idx3(q, i, j, batch as int, o_rows as int, o_cols as int); assert(__h.has(idx3(q, i, j, o_rows as int, o_cols as int))); }
@last if bc(bt2(a.l()), bx(x.shape)) && bt2(a.l()).len() <= bx(x.shape).len() { lemma_bcl_le(bt2(a.l()), bx(x.shape)); } assert(x.l().subrange(0, x.shape.rank - smin(2, x.shape.rank as int)) =~= bx(x.shape)); lemma_bx(shape); assert(shape.s_cols() == o_cols); assert(shape.rank >= 2 ==> shape.s_rows() == x.shape.s_rows()); assert(mv_r(shape) == mv_r(x.shape)); if x.n() > 0 { lemma_pm(prod(bx(x.shape)) as int, mv_r(x.shape) as int, x.shape.s_cols() as int); } assert(bx(shape) =~= bx(x.shape)); lemma_mvsz(prod(bx(x.shape)) as int, mv_r(x.shape) as int, o_cols as int, o_rows as int, batch as int);
@post let xb = prod(bx(x.shape)) as int; assert forall|q: int| 0 <= q < xb implies #[trigger] (q % xb) == q by { vstd::arithmetic::div_mod::lemma_small_mod(q as nat, xb as nat); }
@spec
pub proof fn lemma_wrapmul(q: int, w: int, s: int) requires 0 <= q, w * s > 0, 0 <= s, 0 <= w ensures (q * s) % (w * s) == (q % w) * s, 0 <= (q % w) * s, (q % w) * s + s <= w * s, w > 0, s > 0
{
    assert(w > 0 && s > 0) by(nonlinear_arith) requires w * s > 0, 0 <= s, 0 <= w; lemma_dm_rev(q, w); lemma_chunk(q % w, w, s); let d = q / w; let m = q % w;
    assert(q * s == d * (w * s) + m * s) by(nonlinear_arith) requires q == d * w + m; lemma_dm(d, w * s, m * s);
}
pub proof fn lemma_bcl_le(a: Seq<nat>, b: Seq<nat>) requires bc(a, b), a.len() <= b.len() ensures bcl(a, b) == b
{
    if a.len() == b.len() { assert(tl(a, a.len() as int) =~= a); assert(tl(b, b.len() as int) =~= b); assert(a =~= b); }
}
// the output has room for every batch exactly if the batches are the vectors' own
pub proof fn lemma_mvsz(xb: int, m: int, n: int, rows: int, batch: int) requires 0 <= xb, 0 <= m, 0 <= n, m > 0 ==> rows == m ensures m > 0 && n > 0 && xb * (m * n) == (n * rows) * batch ==> batch == xb, m > 0 && batch == xb ==> xb * (m * n) == (n * rows) * batch
{
    if m > 0 && n > 0 && xb * (m * n) == (n * rows) * batch { let p = m * n; assert(p > 0) by(nonlinear_arith) requires m > 0, n > 0, p == m * n; assert(n * rows == p) by(nonlinear_arith) requires p == m * n, rows == m; assert(batch == xb) by(nonlinear_arith) requires xb * p == p * batch, p > 0; }
    if m > 0 && batch == xb { assert(xb * (m * n) == (n * m) * xb) by(nonlinear_arith); }
}
@use mv(Tensor<f32>::matvec(self_, b) -> r | self_ | b | Transpose::None)
@use mv(Tensor<f32>::matvec_t(self_, b, transpose) -> r | self_ | b | transpose)
@spec
pub open spec fn n_dot(a: Seq<f32>, b: Seq<f32>) -> f32 decreases a.len() { if a.len() == 0 { sfl_0p0_f32() } else { s2_add::<f32, f32, f32>(n_dot(a.drop_last(), b.drop_last()), s2_mul::<f32, f32, f32>(a.last(), b.last())) } }
pub open spec fn n_gdot(alpha: f32, a: Seq<f32>, b: Seq<f32>) -> f32 { s2_mul::<f32, f32, f32>(alpha, n_dot(a, b)) }
@use gm(blas_naive::sgemm_naive | n_gdot)
@req 0 <= a.off();; 0 <= b.off();; 0 <= c.off@
@treq s2_eq::<f32, f32, bool>(beta, sfl_0p0_f32());; a.mem().len() <= usize::MAX;; b.mem().len() <= usize::MAX;; __h.cap() <= usize::MAX
@loop 0
@inv $s == 0;; $e == m;; g_frame(*old(__h), *__h, c.off@, rsc as int, csc as int, m as int, n as int);;
  forall|i: int, j: int| 0 <= i < $i && 0 <= j < n ==> __h.has(#[trigger] gix(c.off@, rsc as int, csc as int, i, j)) && __h.at(gix(c.off@, rsc as int, csc as int, i, j)) == n_gdot(alpha, g_row(a.mem(), a.off(), rsa as int, csa as int, i, k as int), g_col(b.mem(), b.off(), rsb as int, csb as int, j, k as int))
@loop 1
@inv $s == 0;; $e == n;; 0 <= $x0 < m;; g_frame(*old(__h), *__h, c.off@, rsc as int, csc as int, m as int, n as int);;
  forall|i: int, j: int| 0 <= i < $x0 && 0 <= j < n ==> __h.has(#[trigger] gix(c.off@, rsc as int, csc as int, i, j)) && __h.at(gix(c.off@, rsc as int, csc as int, i, j)) == n_gdot(alpha, g_row(a.mem(), a.off(), rsa as int, csa as int, i, k as int), g_col(b.mem(), b.off(), rsb as int, csb as int, j, k as int));;
  forall|j: int| 0 <= j < $i ==> __h.has(#[trigger] gix(c.off@, rsc as int, csc as int, $x0 as int, j)) && __h.at(gix(c.off@, rsc as int, csc as int, $x0 as int, j)) == n_gdot(alpha, g_row(a.mem(), a.off(), rsa as int, csa as int, $x0 as int, k as int), g_col(b.mem(), b.off(), rsb as int, csb as int, j, k as int))
@start assert(0 <= gix(c.off@, rsc as int, csc as int, $x0 as int, $x as int) < __h.cap()); assert(0 <= rsc * $x0 && 0 <= csc * $x) by(nonlinear_arith) requires 0 <= rsc, 0 <= $x0, 0 <= csc, 0 <= $x; assert(g_pos(c.off@, rsc as int, csc as int, m as int, n as int, gix(c.off@, rsc as int, csc as int, $x0 as int, $x as int)));
@loop 2
@inv $s == 0;; $e == k;; 0 <= $x0 < m;; 0 <= $x1 < n;; v == n_dot(g_row(a.mem(), a.off(), rsa as int, csa as int, $x0 as int, $i as int), g_col(b.mem(), b.off(), rsb as int, csb as int, $x1 as int, $i as int))
@start let q = $x as int; assert(0 <= gix(a.off(), rsa as int, csa as int, $x0 as int, q) < a.mem().len()); assert(0 <= gix(b.off(), rsb as int, csb as int, q, $x1 as int) < b.mem().len()); assert(0 <= rsa * $x0 && 0 <= csa * q && 0 <= rsb * q && 0 <= csb * $x1) by(nonlinear_arith) requires 0 <= rsa, 0 <= $x0, 0 <= csa, 0 <= q, 0 <= rsb, 0 <= csb, 0 <= $x1;
  let gr = g_row(a.mem(), a.off(), rsa as int, csa as int, $x0 as int, q + 1); let gc = g_col(b.mem(), b.off(), rsb as int, csb as int, $x1 as int, q + 1); assert(gr.drop_last() =~= g_row(a.mem(), a.off(), rsa as int, csa as int, $x0 as int, q)); assert(gc.drop_last() =~= g_col(b.mem(), b.off(), rsb as int, csb as int, $x1 as int, q));
