@spec
// ---- what a caller's function has been called with.  f0, f1: the function before and after;
// a: the arguments, call by call; o: the results.  Every call is in f1.hist(), in order.
pub open spec fn ran0<V, F: Fn0<V>>(f0: F, f1: F, o: Seq<V>) -> bool {
    &&& f1.env() == f0.env()
    &&& f1.hist().len() == f0.hist().len() + o.len()
    &&& f1.hist().subrange(0, f0.hist().len() as int) =~= f0.hist()
    &&& forall|k: int| 0 <= k < o.len() ==> f1.hist()[f0.hist().len() + k] == ((), #[trigger] o[k])
    &&& forall|k: int| 0 <= k < o.len() ==> F::rel(f0.env(), #[trigger] o[k])
}
pub open spec fn ranR<A, V, F: FnR<A, V>>(f0: F, f1: F, a: Seq<A>, o: Seq<V>) -> bool {
    &&& a.len() == o.len() && f1.env() == f0.env()
    &&& f1.hist().len() == f0.hist().len() + o.len()
    &&& f1.hist().subrange(0, f0.hist().len() as int) =~= f0.hist()
    &&& forall|k: int| 0 <= k < o.len() ==> f1.hist()[f0.hist().len() + k] == ((a[k],), #[trigger] o[k])
    &&& forall|k: int| 0 <= k < o.len() ==> F::rel(f0.env(), a[k], #[trigger] o[k])
}
pub open spec fn ranL<A, V, F: FnL<A, V>>(f0: F, f1: F, a: Seq<Seq<A>>, o: Seq<V>) -> bool {
    &&& a.len() == o.len() && f1.env() == f0.env()
    &&& f1.hist().len() == f0.hist().len() + o.len()
    &&& f1.hist().subrange(0, f0.hist().len() as int) =~= f0.hist()
    &&& forall|k: int| 0 <= k < o.len() ==> f1.hist()[f0.hist().len() + k] == ((a[k],), #[trigger] o[k])
    &&& forall|k: int| 0 <= k < o.len() ==> F::rel(f0.env(), a[k], #[trigger] o[k])
}
pub open spec fn ranRR<A, B, V, F: FnRR<A, B, V>>(f0: F, f1: F, a: Seq<A>, b: Seq<B>, o: Seq<V>) -> bool {
    &&& a.len() == o.len() && b.len() == o.len() && f1.env() == f0.env()
    &&& f1.hist().len() == f0.hist().len() + o.len()
    &&& f1.hist().subrange(0, f0.hist().len() as int) =~= f0.hist()
    &&& forall|k: int| 0 <= k < o.len() ==> f1.hist()[f0.hist().len() + k] == ((a[k], b[k]), #[trigger] o[k])
    &&& forall|k: int| 0 <= k < o.len() ==> F::rel(f0.env(), a[k], b[k], #[trigger] o[k])
}
pub open spec fn ranRRR<A, B, C, V, F: FnRRR<A, B, C, V>>(f0: F, f1: F, a: Seq<A>, b: Seq<B>, c: Seq<C>, o: Seq<V>) -> bool {
    &&& a.len() == o.len() && b.len() == o.len() && c.len() == o.len() && f1.env() == f0.env()
    &&& f1.hist().len() == f0.hist().len() + o.len()
    &&& f1.hist().subrange(0, f0.hist().len() as int) =~= f0.hist()
    &&& forall|k: int| 0 <= k < o.len() ==> f1.hist()[f0.hist().len() + k] == ((a[k], b[k], c[k]), #[trigger] o[k])
    &&& forall|k: int| 0 <= k < o.len() ==> F::rel(f0.env(), a[k], b[k], c[k], #[trigger] o[k])
}
pub open spec fn any0<V, F: Fn0<V>>(f: F) -> bool { F::req(f.env()) }
pub open spec fn anyR<A, V, F: FnR<A, V>>(f: F) -> bool { forall|x: A| #[trigger] F::req(f.env(), x) }
pub open spec fn anyV<A, V, F: FnV<A, V>>(f: F) -> bool { forall|x: A| #[trigger] F::req(f.env(), x) }
pub open spec fn anyL<A, V, F: FnL<A, V>>(f: F) -> bool { forall|x: Seq<A>| #[trigger] F::req(f.env(), x) }
pub open spec fn isco(x: Seq<usize>, y: Seq<int>) -> bool { x.len() == y.len() && forall|i: int| 0 <= i < x.len() ==> #[trigger] x[i] == y[i] }
// callable at every coordinate vector of an array with these (innermost first) dimensions
pub open spec fn cooL<V, F: FnL<usize, V>>(f: F, d: Seq<nat>) -> bool { forall|x: Seq<usize>| x.len() == d.len() && (forall|i: int| 0 <= i < d.len() ==> #[trigger] x[i] < d[i]) ==> #[trigger] F::req(f.env(), x) }
pub open spec fn anyRR<A, B, V, F: FnRR<A, B, V>>(f: F) -> bool { forall|x: A, y: B| #[trigger] F::req(f.env(), x, y) }
pub open spec fn anyVR<A, B, V, F: FnVR<A, B, V>>(f: F) -> bool { forall|x: A, y: B| #[trigger] F::req(f.env(), x, y) }
pub open spec fn anyVL<A, B, V, F: FnVL<A, B, V>>(f: F) -> bool { forall|x: A, y: Seq<B>| #[trigger] F::req(f.env(), x, y) }
pub open spec fn anyVV<A, B, V, F: FnVV<A, B, V>>(f: F) -> bool { forall|x: A, y: B| #[trigger] F::req(f.env(), x, y) }
pub open spec fn anyRRR<A, B, C, V, F: FnRRR<A, B, C, V>>(f: F) -> bool { forall|x: A, y: B, z: C| #[trigger] F::req(f.env(), x, y, z) }
// the elements a broadcast operand contributes
pub open spec fn wrap<T>(e: Seq<T>, n: nat) -> Seq<T> { Seq::new(n, |k: int| e[k % (e.len() as int)]) }

@fn map::init(shape0, f) -> r
@prop C14 C06
@req any0(*old(f))
@ens r.shape == shape0;; ran0(*old(f), *final(f), r.e())
@loop 0
@inv __h.cap() == size;; f.env() == old(f).env();; f.hist().len() == old(f).hist().len() + $i;; f.hist().subrange(0, old(f).hist().len() as int) =~= old(f).hist();;
  forall|k: int| 0 <= k < $i ==> #[trigger] __h.has(k);;
  forall|k: int| 0 <= k < $i ==> f.hist()[old(f).hist().len() + k] == ((), #[trigger] __h.at(k));;
  forall|k: int| 0 <= k < $i ==> $F(f)::rel(old(f).env(), #[trigger] __h.at(k))

@fn map::map(shape, a, f) -> r
@prop C06
@req anyR(*old(f))
@valid shape.n() == a.n()
@ens r.shape == shape;; ranR(*old(f), *final(f), a.e(), r.e())
@loop 0
@inv __h.cap() == len;; f.env() == old(f).env();; f.hist().len() == old(f).hist().len() + $i;; f.hist().subrange(0, old(f).hist().len() as int) =~= old(f).hist();;
  forall|k: int| 0 <= k < $i ==> #[trigger] __h.has(k);;
  forall|k: int| 0 <= k < $i ==> f.hist()[old(f).hist().len() + k] == ((a.e()[k],), #[trigger] __h.at(k));;
  forall|k: int| 0 <= k < $i ==> $F(f)::rel(old(f).env(), a.e()[k], #[trigger] __h.at(k))

@spec
// ---- coordinates, innermost first
pub open spec fn rco(d: Seq<nat>, k: int) -> Seq<int> decreases d.len() {
    if d.len() == 0 { Seq::empty() } else { seq![k % (d[0] as int)] + rco(d.drop_first(), k / (d[0] as int)) }
}
pub open spec fn succ(d: Seq<nat>, x: Seq<int>) -> Seq<int> decreases d.len() {
    if d.len() == 0 { x } else {
        let v = (x[0] + 1) % (smax(d[0] as int, 1));
        if v != 0 { x.update(0, v) } else { seq![0int] + succ(d.drop_first(), x.drop_first()) }
    }
}
pub open spec fn ints(s: Seq<usize>) -> Seq<int> { s.map_values(|x: usize| x as int) }
pub open spec fn idims(s: Shape) -> Seq<nat> { Seq::new(s.rank as nat, |i: int| s.dims@[i] as nat) }
pub proof fn lemma_rco_len(d: Seq<nat>, k: int) ensures rco(d, k).len() == d.len() decreases d.len() { if d.len() > 0 { lemma_rco_len(d.drop_first(), k / (d[0] as int)); } }
pub proof fn lemma_succ(d: Seq<nat>, k: int)
    requires pos(d), k >= 0
    ensures succ(d, rco(d, k)) =~= rco(d, k + 1)
    decreases d.len()
{
    lemma_rco_len(d, k); lemma_rco_len(d, k + 1);
    if d.len() > 0 {
        assert(d[0] > 0);
        let b = d[0] as int; let r = d.drop_first();
        lemma_dm_rev(k, b);
        assert forall|i: int| 0 <= i < r.len() implies #[trigger] r[i] > 0 by { assert(d[i + 1] > 0); }
        assert(rco(d, k)[0] == k % b);
        assert(rco(d, k).drop_first() =~= rco(r, k / b));
        if k % b + 1 == b {
            assert((k / b + 1) * b == (k / b) * b + b) by(nonlinear_arith);
            lemma_dm(k / b + 1, b, 0); lemma_succ(r, k / b); lemma_dm(1, b, 0);
            assert((k % b + 1) % b == 0);
        } else {
            lemma_dm(k / b, b, k % b + 1); vstd::arithmetic::div_mod::lemma_small_mod((k % b + 1) as nat, b as nat);
        }
    }
}
pub proof fn lemma_rco0(d: Seq<nat>) requires pos(d) ensures rco(d, 0) =~= Seq::new(d.len(), |i: int| 0int) decreases d.len()
{
    if d.len() > 0 {
        assert(d[0] > 0); let r = d.drop_first();
        assert forall|i: int| 0 <= i < r.len() implies #[trigger] r[i] > 0 by { assert(d[i + 1] > 0); }
        lemma_rco0(r); lemma_dm(0, d[0] as int, 0); assert(0 * d[0] == 0) by(nonlinear_arith);
    }
}
pub proof fn lemma_succ_at(d: Seq<nat>, x: Seq<int>, i: int)
    requires 0 <= i < d.len(), x.len() == d.len()
    ensures succ(d.subrange(i, d.len() as int), x.subrange(i, x.len() as int)) == ({
        let v = (x[i] + 1) % (smax(d[i] as int, 1));
        if v != 0 { x.subrange(i, x.len() as int).update(0, v) } else { seq![0int] + succ(d.subrange(i + 1, d.len() as int), x.subrange(i + 1, x.len() as int)) } })
{
    assert(d.subrange(i, d.len() as int).drop_first() =~= d.subrange(i + 1, d.len() as int));
    assert(x.subrange(i, x.len() as int).drop_first() =~= x.subrange(i + 1, x.len() as int));
}
pub open spec fn zs(n: int) -> Seq<int> { Seq::new(n as nat, |i: int| 0int) }
pub proof fn lemma_pos_n(l: Seq<nat>) requires prod(l) > 0 ensures pos(l) decreases l.len()
{
    if l.len() > 0 {
        assert(prod(l.drop_last()) > 0 && l.last() > 0) by(nonlinear_arith) requires prod(l.drop_last()) * l.last() > 0, prod(l.drop_last()) >= 0, l.last() >= 0;
        lemma_pos_n(l.drop_last());
        assert forall|i: int| 0 <= i < l.len() implies #[trigger] l[i] > 0 by { if i < l.len() - 1 { assert(l.drop_last()[i] > 0); } }
    }
}

@fn Shape::next_index(self_, index) -> r
@prop C14
@req old(index)@.len() == self_.rank;; forall|i: int| 0 <= i < self_.rank ==> #[trigger] old(index)@[i] < smax(self_.dims@[i] as int, 1)
@ens ints(final(index)@) =~= succ(idims(*self_), ints(old(index)@));; final(index)@.len() == old(index)@.len()
@loop 0
@xinv index@ =~= Seq::new(self_.rank as nat, |j: int| if j < $i { 0usize } else { old(index)@[j] });;
  succ(idims(*self_), ints(old(index)@)) =~= zs($i as int) + succ(idims(*self_).subrange($i as int, self_.rank as int), ints(old(index)@).subrange($i as int, self_.rank as int))
@inv $e == self_.rank;; index@.len() == self_.rank
@lens ints(index@) =~= succ(idims(*self_), ints(old(index)@))
@before let d = idims(*self_); let x = ints(old(index)@); assert(d.subrange(0, self_.rank as int) =~= d); assert(x.subrange(0, self_.rank as int) =~= x);
@start let d = idims(*self_); let x = ints(old(index)@); lemma_succ_at(d, x, $x as int); assert(x[$x as int] == old(index)@[$x as int]); assert(d[$x as int] == self_.dims@[$x as int]);

@fn map::init_rindexed(shape0, f) -> r
@prop C14
@req cooL(*old(f), idims(shape0))
@ens r.shape == shape0;; exists|a: Seq<Seq<usize>>| #[trigger] ranL(*old(f), *final(f), a, r.e()) && forall|k: int| 0 <= k < a.len() ==> isco(#[trigger] a[k], rco(idims(shape0), k))
@loop 0
@inv __h.cap() == size;; f.env() == old(f).env();; f.hist().len() == old(f).hist().len() + $i;; f.hist().subrange(0, old(f).hist().len() as int) =~= old(f).hist();;
  index@.len() == shape.rank;; size > 0 ==> ints(index@) =~= rco(idims(shape0), $i as int);;
  forall|k: int| 0 <= k < $i ==> #[trigger] __h.has(k);;
  forall|k: int| 0 <= k < $i ==> f.hist()[old(f).hist().len() + k].1 == #[trigger] __h.at(k);;
  forall|k: int| 0 <= k < $i ==> ints((#[trigger] f.hist()[old(f).hist().len() + k]).0.0) =~= rco(idims(shape0), k);;
  forall|k: int| 0 <= k < $i ==> $F(f)::rel(old(f).env(), f.hist()[old(f).hist().len() + k].0.0, #[trigger] __h.at(k))
@before lemma_idims(shape0); if size > 0 { lemma_rco0(idims(shape0)); }
@start lemma_succ(idims(shape0), $x as int); lemma_rco_b(idims(shape0), $x as int); assert forall|i: int| 0 <= i < shape0.rank implies (#[trigger] index@[i]) < smax(shape0.dims@[i] as int, 1) by { assert(ints(index@)[i] == index@[i]); assert(rco(idims(shape0), $x as int)[i] < idims(shape0)[i]); } assert forall|i: int| 0 <= i < shape0.rank implies (#[trigger] index@[i]) < idims(shape0)[i] by { assert(ints(index@)[i] == index@[i]); assert(rco(idims(shape0), $x as int)[i] < idims(shape0)[i]); }
@fin let a = Seq::new(size as nat, |k: int| f.hist()[old(f).hist().len() + k].0.0); assert forall|k: int| 0 <= k < a.len() implies isco(#[trigger] a[k], rco(idims(shape0), k)) by { let x = f.hist()[old(f).hist().len() + k].0.0; assert(ints(x) =~= rco(idims(shape0), k)); assert forall|i: int| 0 <= i < x.len() implies #[trigger] x[i] == rco(idims(shape0), k)[i] by { assert(ints(x)[i] == x[i]); } } assert(ranL(*old(f), *f, a, __h.seq()));

@spec
pub proof fn lemma_idims(s: Shape) requires s.wf() ensures s.n() > 0 ==> pos(idims(s)), idims(s) =~= s.l().reverse()
{
    if s.n() > 0 { lemma_pos_n(s.l()); assert forall|i: int| 0 <= i < s.rank implies #[trigger] idims(s)[i] > 0 by { assert(s.l()[s.rank - 1 - i] > 0); } }
}
pub proof fn lemma_rco_b(d: Seq<nat>, k: int) requires pos(d), k >= 0 ensures rco(d, k).len() == d.len(), forall|i: int| 0 <= i < d.len() ==> 0 <= #[trigger] rco(d, k)[i] < d[i] decreases d.len()
{
    lemma_rco_len(d, k);
    if d.len() > 0 {
        assert(d[0] > 0); let r = d.drop_first(); let b = d[0] as int;
        assert forall|i: int| 0 <= i < r.len() implies #[trigger] r[i] > 0 by { assert(d[i + 1] > 0); }
        lemma_dm_rev(k, b); lemma_rco_b(r, k / b);
        assert forall|i: int| 0 <= i < d.len() implies 0 <= #[trigger] rco(d, k)[i] < d[i] by { if i > 0 { assert(rco(r, k / b)[i - 1] < r[i - 1]); } }
    }
}

@spec
pub proof fn lemma_wrap(off: int, k: int, len: int)
    requires len > 0, k >= 0, off >= 0
    ensures off % len + k < len ==> (off + k) % len == off % len + k
{
    lemma_dm_rev(off, len);
    if off % len + k < len { lemma_dm(off / len, len, off % len + k); }
}
pub proof fn lemma_mwrap(n: int, inner: int, len: int)
    requires inner > 0, len > 0, len % inner == 0, n >= 0
    ensures (n * inner) % len + inner <= len
{
    let m = len / inner; lemma_dm_rev(len, inner);
    assert(m > 0) by(nonlinear_arith) requires len == m * inner, len > 0, inner > 0;
    let q = n / m; let t = n % m; lemma_dm_rev(n, m);
    assert(n * inner == q * (m * inner) + t * inner) by(nonlinear_arith) requires n == q * m + t;
    lemma_lin(t, m, inner, 0); lemma_dm(q, len, t * inner);
}
// rows of a flat sequence
pub open spec fn rowsq<T>(e: Seq<T>, c: int, n: nat) -> Seq<Seq<T>> { Seq::new(n, |i: int| e.subrange(i * c, i * c + c)) }
// the n*w elements of o are the rows x, w elements each
pub open spec fn laid<V, const N: usize>(o: Seq<V>, x: Seq<[V; N]>) -> bool {
    o.len() == x.len() * N && forall|i: int, j: int| 0 <= i < x.len() && 0 <= j < N ==> o[#[trigger] idx2(i, j, N as int)] == x[i]@[j]
}
pub open spec fn sixth<V, A>(h: Seq<(A, V)>, at: int, n: nat) -> Seq<V> { Seq::new(n, |i: int| h[at + i].1) }
// ---- folds: s is reached from init by one call per element of a, left to right
pub open spec fn foldVR<S, A, F: FnVR<S, A, S>>(e: F::Env, init: S, a: Seq<A>, s: S) -> bool decreases a.len() {
    if a.len() == 0 { s == init } else { exists|m: S| foldVR::<S, A, F>(e, init, a.drop_last(), m) && #[trigger] F::rel(e, m, a.last(), s) }
}
pub open spec fn foldVL<S, A, F: FnVL<S, A, S>>(e: F::Env, init: S, a: Seq<Seq<A>>, s: S) -> bool decreases a.len() {
    if a.len() == 0 { s == init } else { exists|m: S| foldVL::<S, A, F>(e, init, a.drop_last(), m) && #[trigger] F::rel(e, m, a.last(), s) }
}
pub open spec fn foldVV<A, F: FnVV<A, A, A>>(e: F::Env, init: A, a: Seq<A>, s: A) -> bool decreases a.len() {
    if a.len() == 0 { s == init } else { exists|m: A| foldVV::<A, F>(e, init, a.drop_last(), m) && #[trigger] F::rel(e, m, a.last(), s) }
}
pub proof fn stepVR<S, A, F: FnVR<S, A, S>>(e: F::Env, init: S, a: Seq<A>, m: S, s: S)
    requires a.len() > 0, foldVR::<S, A, F>(e, init, a.drop_last(), m), F::rel(e, m, a.last(), s)
    ensures foldVR::<S, A, F>(e, init, a, s)
{ reveal_with_fuel(foldVR, 2); let t = a.drop_last(); assert(foldVR::<S, A, F>(e, init, t, m) && F::rel(e, m, a.last(), s)); }
pub open spec fn foldedVR<S, A, V, F: FnVR<S, A, S>>(e: F::Env, init: S, a: Seq<A>, v: V) -> bool { exists|s: S| #[trigger] foldVR::<S, A, F>(e, init, a, s) && v == s1_into_result::<S, V>(s) }
pub proof fn stepVL<S, A, F: FnVL<S, A, S>>(e: F::Env, init: S, a: Seq<Seq<A>>, m: S, s: S)
    requires a.len() > 0, foldVL::<S, A, F>(e, init, a.drop_last(), m), F::rel(e, m, a.last(), s)
    ensures foldVL::<S, A, F>(e, init, a, s)
{ reveal_with_fuel(foldVL, 2); let t = a.drop_last(); assert(foldVL::<S, A, F>(e, init, t, m) && F::rel(e, m, a.last(), s)); }
pub open spec fn foldedVL<S, A, V, F: FnVL<S, A, S>>(e: F::Env, init: S, a: Seq<Seq<A>>, v: V) -> bool { exists|s: S| #[trigger] foldVL::<S, A, F>(e, init, a, s) && v == s1_into_result::<S, V>(s) }
pub proof fn stepVV<A, F: FnVV<A, A, A>>(e: F::Env, init: A, a: Seq<A>, m: A, s: A)
    requires a.len() > 0, foldVV::<A, F>(e, init, a.drop_last(), m), F::rel(e, m, a.last(), s)
    ensures foldVV::<A, F>(e, init, a, s)
{ reveal_with_fuel(foldVV, 2); let t = a.drop_last(); assert(foldVV::<A, F>(e, init, t, m) && F::rel(e, m, a.last(), s)); }
// element i along an axis: batch n, position k of len, inner offset i
pub open spec fn lane<T>(e: Seq<T>, n: int, i: int, len: nat, inner: int) -> Seq<T> { Seq::new(len, |k: int| e[idx3(n, k, i, len as int, inner)]) }
pub open spec fn lanerow<T>(e: Seq<T>, n: int, i: int, len: nat, inner: int, c: int) -> Seq<Seq<T>> { Seq::new(len, |k: int| e.subrange(idx3(n, k, i, len as int, inner) * c, idx3(n, k, i, len as int, inner) * c + c)) }

@fn map::map_row(shape, a, f) -> r
@prop C08
@req anyL(*old(f))
@valid a.shape.s_cols() > 0;; shape.n() == N * (a.n() as int / a.shape.s_cols() as int)
@ens r.shape == shape;; exists|x: Seq<[V; N]>| #[trigger] ranL(*old(f), *final(f), rowsq(a.e(), a.shape.s_cols() as int, (a.n() / a.shape.s_cols()) as nat), x) && laid(r.e(), x)
@loop 0
@inv __h.cap() == N * len;; f.env() == old(f).env();; f.hist().len() == old(f).hist().len() + $i;; f.hist().subrange(0, old(f).hist().len() as int) =~= old(f).hist();;
  a_cols > 0;; len * a_cols == a.n();;
  forall|k: int, j: int| 0 <= k < $i && 0 <= j < N ==> __h.has(#[trigger] idx2(k, j, N as int));;
  forall|k: int, j: int| 0 <= k < $i && 0 <= j < N ==> __h.at(#[trigger] idx2(k, j, N as int)) == f.hist()[old(f).hist().len() + k].1@[j];;
  forall|k: int| 0 <= k < $i ==> (#[trigger] f.hist()[old(f).hist().len() + k]).0.0 == a.e().subrange(k * a_cols, k * a_cols + a_cols);;
  forall|k: int| 0 <= k < $i ==> $F(f)::rel(old(f).env(), a.e().subrange(k * a_cols, k * a_cols + a_cols), (#[trigger] f.hist()[old(f).hist().len() + k]).1)
@before lemma_cols(a.shape); lemma_sprod_full(a.l()); lemma_dm(sprod(a.l(), 0, a.shape.rank - 1) as int, a_cols as int, 0);
@start lemma_lin($x as int, len as int, a_cols as int, 0); assert(a.data.data.cells().subrange(a.offset + $x * a_cols, a.offset + $x * a_cols + a_cols) =~= a.e().subrange($x * a_cols, $x * a_cols + a_cols));
@loop 1
@inv __h.cap() == N * len;; $e1 == N;; f.hist()[old(f).hist().len() + $x0].1 == $b1;; 
  forall|k: int, j: int| 0 <= k < $x0 && 0 <= j < N ==> __h.has(#[trigger] idx2(k, j, N as int));;
  forall|k: int, j: int| 0 <= k < $x0 && 0 <= j < N ==> __h.at(#[trigger] idx2(k, j, N as int)) == f.hist()[old(f).hist().len() + k].1@[j];;
  forall|j: int| 0 <= j < $i1 ==> __h.has(#[trigger] idx2($x0 as int, j, N as int));;
  forall|j: int| 0 <= j < $i1 ==> __h.at(#[trigger] idx2($x0 as int, j, N as int)) == $b1@[j]
@start lemma_idx2($x0 as int, $x1 as int, len as int, N as int); assert(len * N == N * len) by(nonlinear_arith);
@fin assert(len * N == N * len) by(nonlinear_arith); assert forall|x: int| 0 <= x < __h.cap() implies #[trigger] __h.has(x) by { lemma_unidx2(x, len as int, N as int); assert(__h.has(idx2(x / (N as int), x % (N as int), N as int))); }
  let x = sixth(f.hist(), old(f).hist().len() as int, len as nat); let q = rowsq(a.e(), a_cols as int, len as nat);
  assert forall|i: int, j: int| 0 <= i < x.len() && 0 <= j < N implies __h.seq()[#[trigger] idx2(i, j, N as int)] == x[i]@[j] by { lemma_idx2(i, j, len as int, N as int); }
  assert(laid(__h.seq(), x));
  assert forall|k: int| 0 <= k < x.len() implies f.hist()[old(f).hist().len() + k] == ((q[k],), #[trigger] x[k]) by { assert(f.hist()[old(f).hist().len() + k].0.0 == q[k]); }
  assert(ranL(*old(f), *f, q, x));

@fn map::map_expand(shape, a, f) -> r
@prop C08
@req anyR(*old(f))
@valid shape.n() == N * a.n()
@ens r.shape == shape;; exists|x: Seq<[V; N]>| #[trigger] ranR(*old(f), *final(f), a.e(), x) && laid(r.e(), x)
@loop 0
@inv __h.cap() == N * len;; f.env() == old(f).env();; f.hist().len() == old(f).hist().len() + $i;; f.hist().subrange(0, old(f).hist().len() as int) =~= old(f).hist();;
  forall|k: int, j: int| 0 <= k < $i && 0 <= j < N ==> __h.has(#[trigger] idx2(k, j, N as int));;
  forall|k: int, j: int| 0 <= k < $i && 0 <= j < N ==> __h.at(#[trigger] idx2(k, j, N as int)) == f.hist()[old(f).hist().len() + k].1@[j];;
  forall|k: int| 0 <= k < $i ==> (#[trigger] f.hist()[old(f).hist().len() + k]).0.0 == a.e()[k];;
  forall|k: int| 0 <= k < $i ==> $F(f)::rel(old(f).env(), a.e()[k], (#[trigger] f.hist()[old(f).hist().len() + k]).1)
@loop 1
@inv __h.cap() == N * len;; $e1 == N;; f.hist()[old(f).hist().len() + $x0].1 == $b1;; 
  forall|k: int, j: int| 0 <= k < $x0 && 0 <= j < N ==> __h.has(#[trigger] idx2(k, j, N as int));;
  forall|k: int, j: int| 0 <= k < $x0 && 0 <= j < N ==> __h.at(#[trigger] idx2(k, j, N as int)) == f.hist()[old(f).hist().len() + k].1@[j];;
  forall|j: int| 0 <= j < $i1 ==> __h.has(#[trigger] idx2($x0 as int, j, N as int));;
  forall|j: int| 0 <= j < $i1 ==> __h.at(#[trigger] idx2($x0 as int, j, N as int)) == $b1@[j]
@start lemma_idx2($x0 as int, $x1 as int, len as int, N as int); assert(len * N == N * len) by(nonlinear_arith);
@fin assert(len * N == N * len) by(nonlinear_arith); assert forall|x: int| 0 <= x < __h.cap() implies #[trigger] __h.has(x) by { lemma_unidx2(x, len as int, N as int); assert(__h.has(idx2(x / (N as int), x % (N as int), N as int))); }
  let x = sixth(f.hist(), old(f).hist().len() as int, len as nat);
  assert forall|i: int, j: int| 0 <= i < x.len() && 0 <= j < N implies __h.seq()[#[trigger] idx2(i, j, N as int)] == x[i]@[j] by { lemma_idx2(i, j, len as int, N as int); }
  assert(laid(__h.seq(), x));
  assert forall|k: int| 0 <= k < x.len() implies f.hist()[old(f).hist().len() + k] == ((a.e()[k],), #[trigger] x[k]) by { assert(f.hist()[old(f).hist().len() + k].0.0 == a.e()[k]); }
  assert(ranR(*old(f), *f, a.e(), x));

@spec
pub proof fn lemma_cols(s: Shape) requires s.wf() ensures s.rank > 0 ==> s.n() == sprod(s.l(), 0, s.rank - 1) * s.s_cols()
{ if s.rank > 0 { lemma_sprod_full(s.l()); lemma_sprod_right(s.l(), 0, s.rank as int); } }

@fn map::map2(shape, a0, b0, f) -> r
@prop C06
@req anyRR(*old(f))
@valid a0.n() > 0;; b0.n() > 0;; shape.n() == smax(a0.n() as int, b0.n() as int);; smax(a0.n() as int, b0.n() as int) % smin(a0.n() as int, b0.n() as int) == 0
@pre if a0.n() > 0 && b0.n() > 0 { lemma_dm_rev(smax(a0.n() as int, b0.n() as int), smin(a0.n() as int, b0.n() as int)); }
@ens r.shape == shape;; ranRR(*old(f), *final(f), wrap(a0.e(), r.n()), wrap(b0.e(), r.n()), r.e())
@loop 0
@inv __h.cap() == size;; f.env() == old(f).env();; f.hist().len() == old(f).hist().len() + $i * inner;; f.hist().subrange(0, old(f).hist().len() as int) =~= old(f).hist();;
  forall|k: int| 0 <= k < $i * inner ==> #[trigger] __h.has(k);;
  forall|k: int| 0 <= k < $i * inner ==> f.hist()[old(f).hist().len() + k] == ((a0.e()[k % a0.size as int], b0.e()[k % b0.size as int]), #[trigger] __h.at(k));;
  forall|k: int| 0 <= k < $i * inner ==> $F(f)::rel(old(f).env(), a0.e()[k % a0.size as int], b0.e()[k % b0.size as int], #[trigger] __h.at(k))
@before assert(0 * inner == 0); assert(batch * inner == size ==> size as int % inner as int == 0) by { lemma_dm(batch as int, inner as int, 0); } lemma_dm_rev(size as int, inner as int);
@start lemma_lin($x as int, batch as int, inner as int, 0); assert(($x + 1) * inner == $x * inner + inner) by(nonlinear_arith); lemma_dm(1, inner as int, 0);
  lemma_mwrap($x as int, inner as int, a0.size as int); lemma_mwrap($x as int, inner as int, b0.size as int);
@loop 1
@inv __h.cap() == size;; f.env() == old(f).env();; f.hist().len() == old(f).hist().len() + offset + $i;; f.hist().subrange(0, old(f).hist().len() as int) =~= old(f).hist();; $e == inner;; $s == 0;;
  offset as int % a0.size as int + inner <= a0.size;; offset as int % b0.size as int + inner <= b0.size;;
  forall|k: int| 0 <= k < offset + $i ==> #[trigger] __h.has(k);;
  forall|k: int| 0 <= k < offset + $i ==> f.hist()[old(f).hist().len() + k] == ((a0.e()[k % a0.size as int], b0.e()[k % b0.size as int]), #[trigger] __h.at(k));;
  forall|k: int| 0 <= k < offset + $i ==> $F(f)::rel(old(f).env(), a0.e()[k % a0.size as int], b0.e()[k % b0.size as int], #[trigger] __h.at(k))
@start lemma_wrap(offset as int, $x as int, a0.size as int); lemma_wrap(offset as int, $x as int, b0.size as int);

@fn map::map3(shape, a0, b0, c0, f) -> r
@prop C06
@req anyRRR(*old(f))
@valid a0.n() > 0;; b0.n() > 0;; c0.n() > 0;; shape.n() == mx3(a0.n() as int, b0.n() as int, c0.n() as int)
@treq ({ let m = mn3(a0.n() as int, b0.n() as int, c0.n() as int); a0.n() as int % m == 0 && b0.n() as int % m == 0 && c0.n() as int % m == 0 })
@pre if a0.n() > 0 && b0.n() > 0 && c0.n() > 0 { lemma_dm_rev(mx3(a0.n() as int, b0.n() as int, c0.n() as int), mn3(a0.n() as int, b0.n() as int, c0.n() as int)); }
@ens r.shape == shape;; ranRRR(*old(f), *final(f), wrap(a0.e(), r.n()), wrap(b0.e(), r.n()), wrap(c0.e(), r.n()), r.e())
@loop 0
@inv __h.cap() == size;; f.env() == old(f).env();; f.hist().len() == old(f).hist().len() + $i * inner;; f.hist().subrange(0, old(f).hist().len() as int) =~= old(f).hist();;
  forall|k: int| 0 <= k < $i * inner ==> #[trigger] __h.has(k);;
  forall|k: int| 0 <= k < $i * inner ==> f.hist()[old(f).hist().len() + k] == ((a0.e()[k % a0.size as int], b0.e()[k % b0.size as int], c0.e()[k % c0.size as int]), #[trigger] __h.at(k));;
  forall|k: int| 0 <= k < $i * inner ==> $F(f)::rel(old(f).env(), a0.e()[k % a0.size as int], b0.e()[k % b0.size as int], c0.e()[k % c0.size as int], #[trigger] __h.at(k))
@before assert(0 * inner == 0);  lemma_dm_rev(size as int, inner as int);
@start lemma_lin($x as int, batch as int, inner as int, 0); assert(($x + 1) * inner == $x * inner + inner) by(nonlinear_arith);
  if a0.size as int % inner as int == 0 { lemma_mwrap($x as int, inner as int, a0.size as int); } if b0.size as int % inner as int == 0 { lemma_mwrap($x as int, inner as int, b0.size as int); } if c0.size as int % inner as int == 0 { lemma_mwrap($x as int, inner as int, c0.size as int); }
@loop 1
@inv __h.cap() == size;; f.env() == old(f).env();; f.hist().len() == old(f).hist().len() + offset + $i;; f.hist().subrange(0, old(f).hist().len() as int) =~= old(f).hist();; $e == inner;; $s == 0;;
  forall|k: int| 0 <= k < offset + $i ==> #[trigger] __h.has(k);;
  forall|k: int| 0 <= k < offset + $i ==> f.hist()[old(f).hist().len() + k] == ((a0.e()[k % a0.size as int], b0.e()[k % b0.size as int], c0.e()[k % c0.size as int]), #[trigger] __h.at(k));;
  forall|k: int| 0 <= k < offset + $i ==> $F(f)::rel(old(f).env(), a0.e()[k % a0.size as int], b0.e()[k % b0.size as int], c0.e()[k % c0.size as int], #[trigger] __h.at(k))
@start lemma_wrap(offset as int, $x as int, a0.size as int); lemma_wrap(offset as int, $x as int, b0.size as int); lemma_wrap(offset as int, $x as int, c0.size as int);

@spec
pub open spec fn mx3(a: int, b: int, c: int) -> int { smax(smax(a, b), c) }
pub open spec fn mn3(a: int, b: int, c: int) -> int { smin(smin(a, b), c) }

@spec
// every lane of a reduction, placed
pub open spec fn full3(A: int, B: int, C: int, n: nat) -> bool { n == A * B * C }

@fn map::fold(tensor, init, f) -> r
@prop C07 C26
@req anyVR(*old(f))
@ens r.l() =~= Seq::<nat>::empty();; r.e().len() == 1;; foldedVR::<S, U, V, F>(old(f).env(), init, tensor.e(), r.e()[0])
@loop 0
@inv f.env() == old(f).env();; a@ == tensor.e();; $e == tensor.size;; $s == 0;; foldVR::<S, U, F>(old(f).env(), init, tensor.e().subrange(0, $i as int), value)
@end let t = tensor.e().subrange(0, $i as int); assert(t.drop_last() =~= tensor.e().subrange(0, $x as int)); assert(t.last() == tensor.e()[$x as int]); stepVR::<S, U, F>(old(f).env(), init, t, f.hist().last().0.0, value);
@after assert(tensor.e().subrange(0, tensor.size as int) =~= tensor.e()); assert(foldVR::<S, U, F>(old(f).env(), init, tensor.e(), value));

@fn map::fold_axis(tensor, axis0, init, f) -> r
@prop C07 C26
@req anyVR(*old(f));; axis0.axis.is_some() ==> tensor.shape.rank > 0 && okax(axis0.axis.unwrap() as int, tensor.shape.rank as int)
@valid axis0.axis.is_some() && tensor.shape.rank > 1 ==> pos(tensor.l().remove(nax(axis0.axis.unwrap() as int, tensor.shape.rank as int)))
@ens r.l() =~= red_l(axis0.axis, tensor.l());; ({ let A = red_outer(axis0.axis, tensor.l()) as int; let B = red_len(axis0.axis, tensor.l()); let C = red_inner(axis0.axis, tensor.l()) as int;
   r.n() == A * C && tensor.n() == A * B * C && forall|n: int, i: int| 0 <= n < A && 0 <= i < C ==> foldedVR::<S, T, V, F>(old(f).env(), init, lane(tensor.e(), n, i, B, C), r.e()[#[trigger] idx2(n, i, C)]) })
@loop 0
@inv f.env() == old(f).env();; a@ == tensor.e();; $e == batch;; $s == 0;; __h.cap() == batch * inner;; tensor.n() == batch * a_len * inner;;
  forall|n: int, i: int| 0 <= n < $i && 0 <= i < inner ==> __h.has(#[trigger] idx2(n, i, inner as int));;
  forall|n: int, i: int| 0 <= n < $i && 0 <= i < inner ==> foldedVR::<S, T, V, F>(old(f).env(), init, lane(tensor.e(), n, i, a_len as nat, inner as int), __h.at(#[trigger] idx2(n, i, inner as int)))
@before lemma_red(axis.axis, tensor.l());
@loop 1
@inv f.env() == old(f).env();; $e1 == inner;; $s1 == 0;; __h.cap() == batch * inner;;
  forall|n: int, i: int| 0 <= n < $x0 && 0 <= i < inner ==> __h.has(#[trigger] idx2(n, i, inner as int));;
  forall|n: int, i: int| 0 <= n < $x0 && 0 <= i < inner ==> foldedVR::<S, T, V, F>(old(f).env(), init, lane(tensor.e(), n, i, a_len as nat, inner as int), __h.at(#[trigger] idx2(n, i, inner as int)));;
  forall|i: int| 0 <= i < $i1 ==> __h.has(#[trigger] idx2($x0 as int, i, inner as int));;
  forall|i: int| 0 <= i < $i1 ==> foldedVR::<S, T, V, F>(old(f).env(), init, lane(tensor.e(), $x0 as int, i, a_len as nat, inner as int), __h.at(#[trigger] idx2($x0 as int, i, inner as int)))
@start lemma_idx2($x0 as int, $x1 as int, batch as int, inner as int);
@end assert(foldVR::<S, T, F>(old(f).env(), init, lane(tensor.e(), $x0 as int, $x1 as int, a_len as nat, inner as int), state));
@loop 2
@inv f.env() == old(f).env();; $e2 == a_len;; $s2 == 0;; foldVR::<S, T, F>(old(f).env(), init, lane(tensor.e(), $x0 as int, $x1 as int, a_len as nat, inner as int).subrange(0, $i2 as int), state)
@start lemma_idx3f($x0 as int, $x2 as int, a_len as int, inner as int); lemma_idx3($x0 as int, $x2 as int, $x1 as int, batch as int, a_len as int, inner as int);
@end let t = lane(tensor.e(), $x0 as int, $x1 as int, a_len as nat, inner as int); assert(t.subrange(0, $i2 as int).drop_last() =~= t.subrange(0, $x2 as int)); assert(t.subrange(0, $i2 as int).last() == t[$x2 as int]); stepVR::<S, T, F>(old(f).env(), init, t.subrange(0, $i2 as int), f.hist().last().0.0, state);
@after let t = lane(tensor.e(), $x0 as int, $x1 as int, a_len as nat, inner as int); assert(t.subrange(0, a_len as int) =~= t);
@fin assert forall|x: int| 0 <= x < __h.cap() implies #[trigger] __h.has(x) by { lemma_unidx2(x, batch as int, inner as int); assert(__h.has(idx2(x / (inner as int), x % (inner as int), inner as int))); }
   assert forall|n: int, i: int| 0 <= n < batch && 0 <= i < inner implies foldedVR::<S, T, V, F>(old(f).env(), init, lane(tensor.e(), n, i, a_len as nat, inner as int), __h.seq()[#[trigger] idx2(n, i, inner as int)]) by { lemma_idx2(n, i, batch as int, inner as int); }

@spec
pub proof fn lemma_red(a: Option<isize>, l: Seq<nat>)
    requires a.is_some() ==> l.len() > 0 && okax(a.unwrap() as int, l.len() as int)
    ensures prod(l) == red_outer(a, l) * red_len(a, l) * red_inner(a, l), prod(red_l(a, l)) == red_outer(a, l) * red_inner(a, l)
{
    let p = prod(l);
    if a.is_some() && l.len() > 1 {
        let x = nax(a.unwrap() as int, l.len() as int); lemma_prod_rem(l, x);
    } else {
        assert(1 * p * 1 == p && 1 * 1 == 1) by(nonlinear_arith);
        if a.is_some() { lemma_sprod_full(l); lemma_sprod_one(l, 0); }
        assert(prod(Seq::<nat>::empty()) == 1); 
    }
}

@fn map::reduce(tensor, f) -> r
@prop C07
@req anyVV(*old(f))
@valid tensor.n() > 0
@ens r.l() =~= Seq::<nat>::empty();; r.e().len() == 1;; redV::<T, F>(old(f).env(), tensor.e(), r.e()[0])
@loop 0
@inv f.env() == old(f).env();; a@ == tensor.e();; $e == tensor.size;; $s == 1;; tensor.n() > 0;; foldVV::<T, F>(old(f).env(), tensor.e()[0], tensor.e().subrange(1, $i as int), value)
@end let t = tensor.e().subrange(1, $i as int); assert(t.drop_last() =~= tensor.e().subrange(1, $x as int)); assert(t.last() == tensor.e()[$x as int]); stepVV::<T, F>(old(f).env(), tensor.e()[0], t, f.hist().last().0.0, value);

@fn map::reduce_axis(tensor, axis0, f) -> r
@prop C07
@req anyVV(*old(f));; axis0.axis.is_some() ==> tensor.shape.rank > 0 && okax(axis0.axis.unwrap() as int, tensor.shape.rank as int)
@valid axis0.axis.is_some() && tensor.shape.rank > 1 ==> pos(tensor.l().remove(nax(axis0.axis.unwrap() as int, tensor.shape.rank as int)))
@treq tensor.n() > 0
@ens r.l() =~= red_l(axis0.axis, tensor.l());; ({ let A = red_outer(axis0.axis, tensor.l()) as int; let B = red_len(axis0.axis, tensor.l()); let C = red_inner(axis0.axis, tensor.l()) as int;
   r.n() == A * C && tensor.n() == A * B * C && forall|n: int, i: int| 0 <= n < A && 0 <= i < C ==> redV::<T, F>(old(f).env(), lane(tensor.e(), n, i, B, C), r.e()[#[trigger] idx2(n, i, C)]) })
@loop 0
@inv f.env() == old(f).env();; a@ == tensor.e();; $e == batch;; $s == 0;; __h.cap() == batch * inner;; tensor.n() == batch * a_len * inner;;
  forall|n: int, i: int| 0 <= n < $i && 0 <= i < inner ==> __h.has(#[trigger] idx2(n, i, inner as int));;
  forall|n: int, i: int| 0 <= n < $i && 0 <= i < inner ==> redV::<T, F>(old(f).env(), lane(tensor.e(), n, i, a_len as nat, inner as int), __h.at(#[trigger] idx2(n, i, inner as int)))
@before lemma_red(axis.axis, tensor.l()); assert(a_len == 0 ==> batch * a_len * inner == 0) by(nonlinear_arith); assert(batch * a_len * inner > 0 ==> a_len > 0) by(nonlinear_arith);
@loop 1
@inv f.env() == old(f).env();; $e1 == inner;; $s1 == 0;; __h.cap() == batch * inner;;
  forall|n: int, i: int| 0 <= n < $x0 && 0 <= i < inner ==> __h.has(#[trigger] idx2(n, i, inner as int));;
  forall|n: int, i: int| 0 <= n < $x0 && 0 <= i < inner ==> redV::<T, F>(old(f).env(), lane(tensor.e(), n, i, a_len as nat, inner as int), __h.at(#[trigger] idx2(n, i, inner as int)));;
  forall|i: int| 0 <= i < $i1 ==> __h.has(#[trigger] idx2($x0 as int, i, inner as int));;
  forall|i: int| 0 <= i < $i1 ==> redV::<T, F>(old(f).env(), lane(tensor.e(), $x0 as int, i, a_len as nat, inner as int), __h.at(#[trigger] idx2($x0 as int, i, inner as int)))
@start lemma_idx2($x0 as int, $x1 as int, batch as int, inner as int); if a_len > 0 { lemma_idx3f($x0 as int, 0, a_len as int, inner as int); lemma_idx3($x0 as int, 0, $x1 as int, batch as int, a_len as int, inner as int); } lemma_flat3($x0 as int, 0, $x1 as int, a_len as int, inner as int); assert(a_len == 0 ==> batch * a_len * inner == 0) by(nonlinear_arith);
@loop 2
@inv a_len > 0;; f.env() == old(f).env();; $e2 == a_len;; $s2 == 1;; foldVV::<T, F>(old(f).env(), lane(tensor.e(), $x0 as int, $x1 as int, a_len as nat, inner as int)[0], lane(tensor.e(), $x0 as int, $x1 as int, a_len as nat, inner as int).subrange(1, $i2 as int), state)
@start lemma_idx3f($x0 as int, $x2 as int, a_len as int, inner as int); lemma_idx3($x0 as int, $x2 as int, $x1 as int, batch as int, a_len as int, inner as int); lemma_flat3($x0 as int, $x2 as int, $x1 as int, a_len as int, inner as int);
@end let t = lane(tensor.e(), $x0 as int, $x1 as int, a_len as nat, inner as int); assert(t.subrange(1, $i2 as int).drop_last() =~= t.subrange(1, $x2 as int)); assert(t.subrange(1, $i2 as int).last() == t[$x2 as int]); stepVV::<T, F>(old(f).env(), t[0], t.subrange(1, $i2 as int), f.hist().last().0.0, state);
@fin assert forall|x: int| 0 <= x < __h.cap() implies #[trigger] __h.has(x) by { lemma_unidx2(x, batch as int, inner as int); assert(__h.has(idx2(x / (inner as int), x % (inner as int), inner as int))); }
   assert forall|n: int, i: int| 0 <= n < batch && 0 <= i < inner implies redV::<T, F>(old(f).env(), lane(tensor.e(), n, i, a_len as nat, inner as int), __h.seq()[#[trigger] idx2(n, i, inner as int)]) by { lemma_idx2(n, i, batch as int, inner as int); }

@spec
// v is the lane t reduced left to right, starting with its first element
pub open spec fn redV<A, F: FnVV<A, A, A>>(e: F::Env, t: Seq<A>, v: A) -> bool { t.len() > 0 && foldVV::<A, F>(e, t[0], t.subrange(1, t.len() as int), v) }
pub proof fn lemma_flat3(n: int, k: int, i: int, b: int, c: int) ensures n * b * c + i + k * c == idx3(n, k, i, b, c) { assert((n * b + k) * c == n * b * c + k * c) by(nonlinear_arith); }

@spec
pub proof fn lemma_rrow(a: Option<isize>, l: Seq<nat>, c: nat)
    requires l.len() > 0, a.is_some() ==> okax(a.unwrap() as int, l.len() as int) && (l.len() == 1 || nax(a.unwrap() as int, l.len() as int) + 1 < l.len())
    ensures prod(l) == (rrow_outer(a, l) * rrow_len(a, l) * rrow_inner(a, l)) * l.last(), prod(rrow_l(a, l, c)) == (rrow_outer(a, l) * rrow_inner(a, l)) * c
{
    let w = l.len() - 1; let d = l.drop_last(); let p = prod(d);
    assert(d =~= l.subrange(0, w));
    assert(1 * p * 1 == p) by(nonlinear_arith);
    if a.is_none() || l.len() == 1 {
        lemma_prod_one(c); assert((1 * 1) * c == c) by(nonlinear_arith);
        if l.len() == 1 { lemma_sprod_empty(l, 0); assert(p == 1); }
    } else {
        let x = nax(a.unwrap() as int, l.len() as int);
        lemma_prod_rem(d, x);
        assert(d.subrange(0, x) =~= l.subrange(0, x)); assert(d.subrange(x + 1, w) =~= l.subrange(x + 1, w));
        let r = rrow_l(a, l, c); assert(r.drop_last() =~= d.remove(x)); assert(r.last() == c);
    }
}
// the value written for one lane of rows
pub open spec fn frow<S, A, V, F: FnVL<S, A, S>, const N: usize>(e: F::Env, init: S, a: Seq<Seq<A>>, o: Seq<V>, at: int) -> bool {
    exists|s: S| #[trigger] foldVL::<S, A, F>(e, init, a, s) && forall|j: int| 0 <= j < N ==> #[trigger] o[at + j] == s1_into_result::<S, [V; N]>(s)@[j]
}

@fn map::fold_row(tensor, axis0, init, f) -> r
@prop C08
@req anyVL(*old(f));; axis0.axis.is_some() ==> tensor.shape.rank > 0 && okax(axis0.axis.unwrap() as int, tensor.shape.rank as int)
@valid axis0.axis.is_some() && tensor.shape.rank > 1 ==> nax(axis0.axis.unwrap() as int, tensor.shape.rank as int) + 1 < tensor.shape.rank && pos(rrow_l(axis0.axis, tensor.l(), N as nat));;
  axis0.axis.is_none() ==> tensor.shape.s_cols() > 0
@treq tensor.shape.s_cols() > 0
@ens r.l() =~= rrow_l(axis0.axis, tensor.l(), N as nat);; ({ let A = rrow_outer(axis0.axis, tensor.l()) as int; let B = rrow_len(axis0.axis, tensor.l()); let C = rrow_inner(axis0.axis, tensor.l()) as int; let w = tensor.shape.s_cols() as int;
   r.n() == (A * C) * N && tensor.n() == (A * B * C) * w && forall|n: int, i: int| 0 <= n < A && 0 <= i < C ==> frow::<S, T, V, F, N>(old(f).env(), init, lanerow(tensor.e(), n, i, B, C, w), r.e(), #[trigger] idx3(n, i, 0, C, N as int)) })
@ghost mut xs: Seq<S> = Seq::empty()
@loop 0
@inv f.env() == old(f).env();; $e == batch;; $s == 0;; __h.cap() == (batch * inner) * N;; tensor.n() == (batch * a_len * inner) * cols;; cols == tensor.shape.s_cols();; xs.len() == $i * inner;;
  forall|n: int, i: int, j: int| 0 <= n < $i && 0 <= i < inner && 0 <= j < N ==> __h.has(#[trigger] idx3(n, i, j, inner as int, N as int));;
  forall|n: int, i: int, j: int| 0 <= n < $i && 0 <= i < inner && 0 <= j < N ==> __h.at(#[trigger] idx3(n, i, j, inner as int, N as int)) == s1_into_result::<S, [V; N]>(xs[idx2(n, i, inner as int)])@[j];;
  forall|n: int, i: int| 0 <= n < $i && 0 <= i < inner ==> foldVL::<S, T, F>(old(f).env(), init, lanerow(tensor.e(), n, i, a_len as nat, inner as int, cols as int), xs[#[trigger] idx2(n, i, inner as int)])
@before lemma_rrow(axis.axis, tensor.l(), N as nat); assert(0 * inner == 0);
@end assert(($x0 + 1) * inner == $x0 * inner + inner) by(nonlinear_arith);
@loop 1
@inv f.env() == old(f).env();; $e1 == inner;; $s1 == 0;; __h.cap() == (batch * inner) * N;; xs.len() == $x0 * inner + $i1;;
  forall|n: int, i: int, j: int| 0 <= n < $x0 && 0 <= i < inner && 0 <= j < N ==> __h.has(#[trigger] idx3(n, i, j, inner as int, N as int));;
  forall|n: int, i: int, j: int| 0 <= n < $x0 && 0 <= i < inner && 0 <= j < N ==> __h.at(#[trigger] idx3(n, i, j, inner as int, N as int)) == s1_into_result::<S, [V; N]>(xs[idx2(n, i, inner as int)])@[j];;
  forall|n: int, i: int| 0 <= n < $x0 && 0 <= i < inner ==> foldVL::<S, T, F>(old(f).env(), init, lanerow(tensor.e(), n, i, a_len as nat, inner as int, cols as int), xs[#[trigger] idx2(n, i, inner as int)]);;
  forall|i: int, j: int| 0 <= i < $i1 && 0 <= j < N ==> __h.has(#[trigger] idx3($x0 as int, i, j, inner as int, N as int));;
  forall|i: int, j: int| 0 <= i < $i1 && 0 <= j < N ==> __h.at(#[trigger] idx3($x0 as int, i, j, inner as int, N as int)) == s1_into_result::<S, [V; N]>(xs[idx2($x0 as int, i, inner as int)])@[j];;
  forall|i: int| 0 <= i < $i1 ==> foldVL::<S, T, F>(old(f).env(), init, lanerow(tensor.e(), $x0 as int, i, a_len as nat, inner as int, cols as int), xs[#[trigger] idx2($x0 as int, i, inner as int)])
@loop 2
@inv f.env() == old(f).env();; $e2 == a_len;; $s2 == 0;; foldVL::<S, T, F>(old(f).env(), init, lanerow(tensor.e(), $x0 as int, $x1 as int, a_len as nat, inner as int, cols as int).subrange(0, $i2 as int), state)
@start lemma_idx3f($x0 as int, $x2 as int, a_len as int, inner as int); lemma_idx3($x0 as int, $x2 as int, $x1 as int, batch as int, a_len as int, inner as int); let z = idx3($x0 as int, $x2 as int, $x1 as int, a_len as int, inner as int); assert(cols * z == z * cols) by(nonlinear_arith);
  assert(cols == 0 ==> (batch * a_len * inner) * cols == 0) by(nonlinear_arith); if cols > 0 { lemma_lin(z, batch * a_len * inner, cols as int, cols - 1); vstd::arithmetic::div_mod::lemma_small_mod((z * cols) as nat, tensor.n() as nat); }
@end let t = lanerow(tensor.e(), $x0 as int, $x1 as int, a_len as nat, inner as int, cols as int); assert(t.subrange(0, $i2 as int).drop_last() =~= t.subrange(0, $x2 as int)); assert(t.subrange(0, $i2 as int).last() == t[$x2 as int]); stepVL::<S, T, F>(old(f).env(), init, t.subrange(0, $i2 as int), f.hist().last().0.0, state);
@after let t = lanerow(tensor.e(), $x0 as int, $x1 as int, a_len as nat, inner as int, cols as int); assert(t.subrange(0, a_len as int) =~= t);
  assert(xs.len() == idx2($x0 as int, $x1 as int, inner as int)); lemma_idx2($x0 as int, $x1 as int, batch as int, inner as int);
  assert forall|n: int, i: int| 0 <= n < $x0 && 0 <= i < inner implies 0 <= #[trigger] idx2(n, i, inner as int) < xs.len() by { lemma_idx2(n, i, $x0 as int, inner as int); }
  xs = xs.push(state);
@loop 3
@inv __h.cap() == (batch * inner) * N;; $e3 == N;; $b3 == s1_into_result::<S, [V; N]>(xs[idx2($x0 as int, $x1 as int, inner as int)]);; xs.len() == $x0 * inner + $x1 + 1;;
  forall|n: int, i: int, j: int| 0 <= n < $x0 && 0 <= i < inner && 0 <= j < N ==> __h.has(#[trigger] idx3(n, i, j, inner as int, N as int));;
  forall|n: int, i: int, j: int| 0 <= n < $x0 && 0 <= i < inner && 0 <= j < N ==> __h.at(#[trigger] idx3(n, i, j, inner as int, N as int)) == s1_into_result::<S, [V; N]>(xs[idx2(n, i, inner as int)])@[j];;
  forall|i: int, j: int| 0 <= i < $x1 && 0 <= j < N ==> __h.has(#[trigger] idx3($x0 as int, i, j, inner as int, N as int));;
  forall|i: int, j: int| 0 <= i < $x1 && 0 <= j < N ==> __h.at(#[trigger] idx3($x0 as int, i, j, inner as int, N as int)) == s1_into_result::<S, [V; N]>(xs[idx2($x0 as int, i, inner as int)])@[j];;
  forall|j: int| 0 <= j < $i3 ==> __h.has(#[trigger] idx3($x0 as int, $x1 as int, j, inner as int, N as int));;
  forall|j: int| 0 <= j < $i3 ==> __h.at(#[trigger] idx3($x0 as int, $x1 as int, j, inner as int, N as int)) == $b3@[j]
@start lemma_idx3f($x0 as int, $x1 as int, inner as int, N as int); lemma_idx3($x0 as int, $x1 as int, $x3 as int, batch as int, inner as int, N as int);
@fin assert forall|x: int| 0 <= x < __h.cap() implies #[trigger] __h.has(x) by { lemma_unidx3(x, batch as int, inner as int, N as int); assert(__h.has(idx3((x / (N as int)) / (inner as int), (x / (N as int)) % (inner as int), x % (N as int), inner as int, N as int))); }
   assert forall|n: int, i: int| 0 <= n < batch && 0 <= i < inner implies frow::<S, T, V, F, N>(old(f).env(), init, lanerow(tensor.e(), n, i, a_len as nat, inner as int, cols as int), __h.seq(), #[trigger] idx3(n, i, 0, inner as int, N as int)) by {
     let s = xs[idx2(n, i, inner as int)]; let at = idx3(n, i, 0, inner as int, N as int);
     assert forall|j: int| 0 <= j < N implies #[trigger] __h.seq()[at + j] == s1_into_result::<S, [V; N]>(s)@[j] by { lemma_idx3(n, i, j, batch as int, inner as int, N as int); assert(at + j == idx3(n, i, j, inner as int, N as int)); }
     assert(foldVL::<S, T, F>(old(f).env(), init, lanerow(tensor.e(), n, i, a_len as nat, inner as int, cols as int), s)); }

@spec
pub open spec fn summed<S, S1, A, F: FnVR<S, A, S>, G: FnV<S, S1>>(e: F::Env, g: G::Env, init: S, a: Seq<A>, v: S1) -> bool { exists|s: S| #[trigger] foldVR::<S, A, F>(e, init, a, s) && G::rel(g, s, v) }
// one lane normalised: every element of it against the lane's own summary v
pub open spec fn normed<S, S1, A, V, F: FnVR<S, A, S>, G: FnV<S, S1>, H: FnRR<S1, A, V>>(e: F::Env, g: G::Env, h: H::Env, init: S, a: Seq<A>, o: Seq<V>) -> bool {
    o.len() == a.len() && exists|v: S1| #[trigger] summed::<S, S1, A, F, G>(e, g, init, a, v) && forall|k: int| 0 <= k < a.len() ==> H::rel(h, v, a[k], #[trigger] o[k])
}

@fn map::normalize(tensor, axis0, init, accum, complete, norm) -> r
@prop C09
@req anyVR(*old(accum));; anyV(*old(complete));; anyRR(*old(norm));; axis0.axis.is_some() ==> tensor.shape.rank > 0 && okax(axis0.axis.unwrap() as int, tensor.shape.rank as int)
@valid axis0.axis.is_some() && tensor.shape.rank > 1 ==> pos(tensor.l().remove(nax(axis0.axis.unwrap() as int, tensor.shape.rank as int)))
@ens r.shape == tensor.shape;; ({ let A = red_outer(axis0.axis, tensor.l()) as int; let B = red_len(axis0.axis, tensor.l()); let C = red_inner(axis0.axis, tensor.l()) as int;
   r.n() == A * B * C && forall|n: int, i: int| 0 <= n < A && 0 <= i < C && #[trigger] lane_ok(n, i) ==> normed::<S, S1, T, V, F, G, H>(old(accum).env(), old(complete).env(), old(norm).env(), init, lane(tensor.e(), n, i, B, C), lane(r.e(), n, i, B, C)) })
@ghost mut xs: Seq<S1> = Seq::empty()
@loop 0
@inv accum.env() == old(accum).env();; complete.env() == old(complete).env();; norm.env() == old(norm).env();; a@ == tensor.e();; $e == batch;; $s == 0;; __h.cap() == batch * a_len * inner;; tensor.n() == batch * a_len * inner;; xs.len() == $i * inner;;
  forall|n: int, k: int, i: int| 0 <= n < $i && 0 <= k < a_len && 0 <= i < inner ==> __h.has(#[trigger] idx3(n, k, i, a_len as int, inner as int));;
  forall|n: int, k: int, i: int| 0 <= n < $i && 0 <= k < a_len && 0 <= i < inner ==> H::rel(old(norm).env(), xs[idx2(n, i, inner as int)], tensor.e()[idx3(n, k, i, a_len as int, inner as int)], __h.at(#[trigger] idx3(n, k, i, a_len as int, inner as int)));;
  forall|n: int, i: int| 0 <= n < $i && 0 <= i < inner ==> summed::<S, S1, T, F, G>(old(accum).env(), old(complete).env(), init, lane(tensor.e(), n, i, a_len as nat, inner as int), xs[#[trigger] idx2(n, i, inner as int)])
@before lemma_red(axis.axis, tensor.l()); assert(0 * inner == 0);
@end assert(($x0 + 1) * inner == $x0 * inner + inner) by(nonlinear_arith);
@loop 1
@inv accum.env() == old(accum).env();; complete.env() == old(complete).env();; norm.env() == old(norm).env();; $e1 == inner;; $s1 == 0;; __h.cap() == batch * a_len * inner;; xs.len() == $x0 * inner + $i1;;
  forall|n: int, k: int, i: int| 0 <= n < $x0 && 0 <= k < a_len && 0 <= i < inner ==> __h.has(#[trigger] idx3(n, k, i, a_len as int, inner as int));;
  forall|n: int, k: int, i: int| 0 <= n < $x0 && 0 <= k < a_len && 0 <= i < inner ==> H::rel(old(norm).env(), xs[idx2(n, i, inner as int)], tensor.e()[idx3(n, k, i, a_len as int, inner as int)], __h.at(#[trigger] idx3(n, k, i, a_len as int, inner as int)));;
  forall|n: int, i: int| 0 <= n < $x0 && 0 <= i < inner ==> summed::<S, S1, T, F, G>(old(accum).env(), old(complete).env(), init, lane(tensor.e(), n, i, a_len as nat, inner as int), xs[#[trigger] idx2(n, i, inner as int)]);;
  forall|k: int, i: int| 0 <= k < a_len && 0 <= i < $i1 ==> __h.has(#[trigger] idx3($x0 as int, k, i, a_len as int, inner as int));;
  forall|k: int, i: int| 0 <= k < a_len && 0 <= i < $i1 ==> H::rel(old(norm).env(), xs[idx2($x0 as int, i, inner as int)], tensor.e()[idx3($x0 as int, k, i, a_len as int, inner as int)], __h.at(#[trigger] idx3($x0 as int, k, i, a_len as int, inner as int)));;
  forall|i: int| 0 <= i < $i1 ==> summed::<S, S1, T, F, G>(old(accum).env(), old(complete).env(), init, lane(tensor.e(), $x0 as int, i, a_len as nat, inner as int), xs[#[trigger] idx2($x0 as int, i, inner as int)])
@loop 2
@inv accum.env() == old(accum).env();; $e2 == a_len;; $s2 == 0;; foldVR::<S, T, F>(old(accum).env(), init, lane(tensor.e(), $x0 as int, $x1 as int, a_len as nat, inner as int).subrange(0, $i2 as int), state)
@start lemma_idx3f($x0 as int, $x2 as int, a_len as int, inner as int); lemma_idx3($x0 as int, $x2 as int, $x1 as int, batch as int, a_len as int, inner as int);
@end let t = lane(tensor.e(), $x0 as int, $x1 as int, a_len as nat, inner as int); assert(t.subrange(0, $i2 as int).drop_last() =~= t.subrange(0, $x2 as int)); assert(t.subrange(0, $i2 as int).last() == t[$x2 as int]); stepVR::<S, T, F>(old(accum).env(), init, t.subrange(0, $i2 as int), accum.hist().last().0.0, state);
@after let t = lane(tensor.e(), $x0 as int, $x1 as int, a_len as nat, inner as int); assert(t.subrange(0, a_len as int) =~= t);
  assert(xs.len() == idx2($x0 as int, $x1 as int, inner as int)); lemma_idx2($x0 as int, $x1 as int, batch as int, inner as int);
  assert forall|n: int, i: int| 0 <= n < $x0 && 0 <= i < inner implies 0 <= #[trigger] idx2(n, i, inner as int) < xs.len() by { lemma_idx2(n, i, $x0 as int, inner as int); }
@loop 3
@inv norm.env() == old(norm).env();; __h.cap() == batch * a_len * inner;; $e3 == a_len;; $s3 == 0;;
  forall|n: int, k: int, i: int| 0 <= n < $x0 && 0 <= k < a_len && 0 <= i < inner ==> __h.has(#[trigger] idx3(n, k, i, a_len as int, inner as int));;
  forall|n: int, k: int, i: int| 0 <= n < $x0 && 0 <= k < a_len && 0 <= i < inner ==> H::rel(old(norm).env(), xs[idx2(n, i, inner as int)], tensor.e()[idx3(n, k, i, a_len as int, inner as int)], __h.at(#[trigger] idx3(n, k, i, a_len as int, inner as int)));;
  forall|k: int, i: int| 0 <= k < a_len && 0 <= i < $x1 ==> __h.has(#[trigger] idx3($x0 as int, k, i, a_len as int, inner as int));;
  forall|k: int, i: int| 0 <= k < a_len && 0 <= i < $x1 ==> H::rel(old(norm).env(), xs[idx2($x0 as int, i, inner as int)], tensor.e()[idx3($x0 as int, k, i, a_len as int, inner as int)], __h.at(#[trigger] idx3($x0 as int, k, i, a_len as int, inner as int)));;
  forall|k: int| 0 <= k < $i3 ==> __h.has(#[trigger] idx3($x0 as int, k, $x1 as int, a_len as int, inner as int));;
  forall|k: int| 0 <= k < $i3 ==> H::rel(old(norm).env(), state, tensor.e()[idx3($x0 as int, k, $x1 as int, a_len as int, inner as int)], __h.at(#[trigger] idx3($x0 as int, k, $x1 as int, a_len as int, inner as int)))
@start lemma_idx3f($x0 as int, $x3 as int, a_len as int, inner as int); lemma_idx3($x0 as int, $x3 as int, $x1 as int, batch as int, a_len as int, inner as int);
@after xs = xs.push(state);
@fin assert forall|x: int| 0 <= x < __h.cap() implies #[trigger] __h.has(x) by { lemma_unidx3(x, batch as int, a_len as int, inner as int); assert(__h.has(idx3((x / (inner as int)) / (a_len as int), (x / (inner as int)) % (a_len as int), x % (inner as int), a_len as int, inner as int))); }
   assert forall|n: int, i: int| 0 <= n < batch && 0 <= i < inner && #[trigger] lane_ok(n, i) implies normed::<S, S1, T, V, F, G, H>(old(accum).env(), old(complete).env(), old(norm).env(), init, lane(tensor.e(), n, i, a_len as nat, inner as int), lane(__h.seq(), n, i, a_len as nat, inner as int)) by {
     let v = xs[idx2(n, i, inner as int)]; let t = lane(tensor.e(), n, i, a_len as nat, inner as int); let o = lane(__h.seq(), n, i, a_len as nat, inner as int);
     assert(summed::<S, S1, T, F, G>(old(accum).env(), old(complete).env(), init, t, v));
     assert forall|k: int| 0 <= k < t.len() implies H::rel(old(norm).env(), v, t[k], #[trigger] o[k]) by { lemma_idx3(n, k, i, batch as int, a_len as int, inner as int); } }

@spec
pub open spec fn lane_ok(n: int, i: int) -> bool { true }
