@spec
pub open spec fn hann(n: usize, i: int) -> f32 { let t = s1_sin::<f32, f32>(s2_mul::<f32, f32, f32>(s2_div::<f32, f32, f32>(sfl_cpPI_f32(), s1_cast::<usize, f32>(n)), s1_cast::<usize, f32>(i as usize))); s2_mul::<f32, f32, f32>(t, t) }
pub open spec fn hrow(row: Seq<f32>) -> Seq<Complex<f32>> { Seq::new(row.len(), |i: int| Complex { re: s2_mul::<f32, f32, f32>(row[i], hann(row.len() as usize, i)), im: sfl_0p0_f32() }) }
pub open spec fn trow(e: Seq<f32>, n: int, len: int) -> Seq<f32> { e.subrange(n * len, n * len + len) }
// entry i of the spectrum of a row
#[verifier::opaque]
pub open spec fn spect(row: Seq<f32>, i: int) -> f32 { if i < row.len() / 2 + 1 { s1_norm::<Complex<f32>, f32>(s_fft(hrow(row))[i]) } else { sfl_0p0_f32() } }
pub proof fn lemma_idims1(s: Shape, n: nat) requires s.wf(), s.l() =~= seq![n] ensures idims(s) =~= seq![n] { assert(idims(s)[0] == s.l()[0]) by { lemma_idims(s); } }
pub proof fn lemma_rco1(n: nat, i: int) requires 0 <= i < n ensures rco(seq![n], i).len() == 1, rco(seq![n], i)[0] == i
{ let d = seq![n]; assert(d.drop_first().len() == 0); reveal_with_fuel(rco, 3); vstd::arithmetic::div_mod::lemma_small_mod(i as nat, n); }

@spec
pub open spec fn fft_cols(t: Tensor<f32>, o: FftArg) -> nat { match o.fft_length { Some(k) => k as nat, None => (t.shape.s_cols() / 2 + 1) as nat } }
// the first m rows of length k hold spectra of the rows of e
pub open spec fn frows(h: OutBuf<f32>, e: Seq<f32>, len: int, m: int, k: int) -> bool { forall|n: int, i: int| 0 <= n < m && 0 <= i < k ==> h.has(#[trigger] idx2(n, i, k)) && h.at(idx2(n, i, k)) == spect(trow(e, n, len), i) }
pub open spec fn fspec(h: OutBuf<f32>, e: Seq<f32>, len: int, n: int, m: int, k: int) -> bool { forall|i: int| 0 <= i < m ==> h.has(#[trigger] idx2(n, i, k)) && h.at(idx2(n, i, k)) == spect(trow(e, n, len), i) }

@fn rfft::rfft_norm(t0, opt0) -> r
@prop C27
@valid t0.shape.rank > 0;; t0.shape.s_cols() > 0
@treq (t0.n() / t0.shape.s_cols()) * fft_cols(t0, opt0) <= usize::MAX
@call Tensor::as_wrap_slice
vstd::arithmetic::div_mod::lemma_small_mod((n * len) as nat, t0.n());
@ens r.l() =~= t0.l().update(t0.l().len() - 1, fft_cols(t0, opt0))
@ens forall|n: int, i: int| 0 <= n < t0.n() / t0.shape.s_cols() && 0 <= i < fft_cols(t0, opt0) ==> r.e()[#[trigger] idx2(n, i, fft_cols(t0, opt0) as int)] == spect(trow(t0.e(), n, t0.shape.s_cols() as int), i)
@loop 0
@inv tensor == t0;; opt == opt0;; len == t0.shape.s_cols();; len > 0;; batch == t0.n() / (len as nat);; batch * len == t0.n();; $e == batch;; fft_fwd.n() == len;; buffer@.len() == len;; window.l() =~= seq![len as nat];; window.e().len() == len;; forall|i: int| 0 <= i < len ==> #[trigger] window.e()[i] == hann(len, i);; fft_out == len / 2 + 1;; len_out == fft_cols(t0, opt0);; __h.cap() == batch * len_out
@inv frows(__h, t0.e(), len as int, $i as int, len_out as int)
@before lemma_p1(len as nat); lemma_cols(t0.shape); let sp = sprod(t0.l(), 0, t0.shape.rank - 1) as int; vstd::arithmetic::div_mod::lemma_div_multiples_vanish(sp, len as int); assert(sp * len == len * sp) by (nonlinear_arith); assert(t0.n() == len * sp); assert(batch == sp);
@start lemma_idx2($x as int, 0, batch as int, len as int); assert($x * len + len <= batch * len) by (nonlinear_arith) requires $x < batch;
@loop 1
@inv $e == len;; buffer@.len() == len;; x@ == t0.e().subrange($x0 * len, t0.n() as int);; window.l() =~= seq![len as nat];; window.e().len() == len;; forall|i: int| 0 <= i < len ==> #[trigger] window.e()[i] == hann(len, i);; $x0 * len + len <= t0.n();; t0.e().len() == t0.n();; forall|i: int| 0 <= i < $i ==> #[trigger] buffer@[i] == hrow(trow(t0.e(), $x0 as int, len as int))[i]
@after assert(buffer@ =~= hrow(trow(t0.e(), $x0 as int, len as int)));
@loop 2
@inv fft_slice@ == s_fft(hrow(trow(t0.e(), $x0 as int, len as int)));; fft_slice@.len() == len;; offset == $x0 * len_out;; __h.cap() == batch * len_out;; $x0 < batch;; fft_out == len / 2 + 1;; $e <= len_out;; $e <= fft_out
@inv frows(__h, t0.e(), len as int, $x0 as int, len_out as int);; fspec(__h, t0.e(), len as int, $x0 as int, $i as int, len_out as int)
@start lemma_idx2($x0 as int, $x as int, batch as int, len_out as int); reveal(spect);
@loop 3
@inv offset == $x0 * len_out;; __h.cap() == batch * len_out;; $x0 < batch;; fft_out == len / 2 + 1;; frows(__h, t0.e(), len as int, $x0 as int, len_out as int);; fspec(__h, t0.e(), len as int, $x0 as int, smin($i as int, len_out as int), len_out as int)
@start lemma_idx2($x0 as int, $x as int, batch as int, len_out as int); reveal(spect);
@fin lemma_cols(shape); lemma_cols(t0.shape); assert(shape.l().subrange(0, t0.shape.rank - 1) =~= t0.l().subrange(0, t0.shape.rank - 1));
  assert forall|x: int| 0 <= x < __h.cap() implies #[trigger] __h.has(x) by { lemma_unidx2(x, batch as int, len_out as int); assert(__h.has(idx2(x / (len_out as int), x % (len_out as int), len_out as int))); }
  assert forall|n: int, i: int| 0 <= n < batch && 0 <= i < len_out implies __h.seq()[#[trigger] idx2(n, i, len_out as int)] == spect(trow(t0.e(), n, len as int), i) by { lemma_idx2(n, i, batch as int, len_out as int); }
@fn rfft::hann_window(len) -> r
@prop C27
@ens r.l() =~= seq![len as nat];; forall|i: int| 0 <= i < len ==> #[trigger] r.e()[i] == hann(len, i)
@closure 0
@req $0@.len() == 1
@ens __r == s2_mul::<f32, f32, f32>(s1_sin::<f32, f32>(s2_mul::<f32, f32, f32>(step, s1_cast::<usize, f32>($0@[0]))), s1_sin::<f32, f32>(s2_mul::<f32, f32, f32>(step, s1_cast::<usize, f32>($0@[0]))))
@ret Tensor::init_rindexed
lemma_idims1($0, len as nat); lemma_p1(len as nat); assert($r.l() =~= seq![len as nat]); assert($r.e().len() == len); assert forall|i: int| 0 <= i < len implies #[trigger] $r.e()[i] == hann(len, i) by { lemma_rco1(len as nat, i); }
@fn FftOpt for FftArg::fft_length(self0, v) -> r
@prop C27
@ens r.fft_length == Some(v)
@fn FftOpt for ()::fft_length(self0, v) -> r
@prop C27
@ens r.fft_length == Some(v)
@fn FftOpt for FftArg::into_arg(self_) -> r
@prop C27
@ens r == self_
@fn FftOpt for ()::into_arg(self_) -> r
@prop C27
@ens r.fft_length is None
@fn Default for FftArg::default() -> r
@prop C27
@ens r.fft_length is None
