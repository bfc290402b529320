// ---------------------------------------------------------------- lists of dimensions
pub open spec fn prod(s: Seq<nat>) -> nat decreases s.len() {
    if s.len() == 0 { 1 } else { prod(s.drop_last()) * s.last() }
}
// product of dims [a, b)
pub open spec fn sprod(s: Seq<nat>, a: int, b: int) -> nat { prod(s.subrange(a, b)) }

pub proof fn lemma_prod_concat(s: Seq<nat>, t: Seq<nat>)
    ensures prod(s + t) == prod(s) * prod(t)
    decreases t.len()
{
    if t.len() == 0 {
        assert(s + t =~= s); assert(prod(t) == 1); assert(prod(s) * 1 == prod(s)) by(nonlinear_arith);
    } else {
        lemma_prod_concat(s, t.drop_last());
        assert((s + t).drop_last() =~= s + t.drop_last());
        assert((s + t).last() == t.last());
        assert(prod(s) * prod(t.drop_last()) * t.last() == prod(s) * (prod(t.drop_last()) * t.last())) by(nonlinear_arith);
    }
}
pub proof fn lemma_prod_one(x: nat) ensures prod(seq![x]) == x {
    assert(seq![x].drop_last() =~= Seq::<nat>::empty());
    reveal_with_fuel(prod, 3); assert(seq![x].last() == x); assert(1 * x == x) by(nonlinear_arith);
}
// s[a,c) = s[a,b) * s[b,c)
pub proof fn lemma_sprod_split(s: Seq<nat>, a: int, b: int, c: int)
    requires 0 <= a <= b <= c <= s.len()
    ensures sprod(s, a, c) == sprod(s, a, b) * sprod(s, b, c)
{
    lemma_prod_concat(s.subrange(a, b), s.subrange(b, c));
    assert(s.subrange(a, b) + s.subrange(b, c) =~= s.subrange(a, c));
}
pub proof fn lemma_sprod_one(s: Seq<nat>, a: int)
    requires 0 <= a < s.len()
    ensures sprod(s, a, a + 1) == s[a]
{
    assert(s.subrange(a, a + 1) =~= seq![s[a]]);
    lemma_prod_one(s[a]);
}
pub proof fn lemma_sprod_empty(s: Seq<nat>, a: int)
    requires 0 <= a <= s.len()
    ensures sprod(s, a, a) == 1
{
    assert(s.subrange(a, a) =~= Seq::<nat>::empty());
}
pub proof fn lemma_sprod_full(s: Seq<nat>)
    ensures sprod(s, 0, s.len() as int) == prod(s)
{
    assert(s.subrange(0, s.len() as int) =~= s);
}
// extend on the left (inner-first loops) and on the right (outer-first loops)
pub proof fn lemma_sprod_left(s: Seq<nat>, a: int, b: int)
    requires 0 <= a < b <= s.len()
    ensures sprod(s, a, b) == s[a] * sprod(s, a + 1, b), sprod(s, a, b) == sprod(s, a + 1, b) * s[a]
{
    lemma_sprod_split(s, a, a + 1, b);
    lemma_sprod_one(s, a);
    assert(s[a] * sprod(s, a + 1, b) == sprod(s, a + 1, b) * s[a]) by(nonlinear_arith);
}
pub proof fn lemma_sprod_right(s: Seq<nat>, a: int, b: int)
    requires 0 <= a < b <= s.len()
    ensures sprod(s, a, b) == sprod(s, a, b - 1) * s[b - 1]
{
    lemma_sprod_split(s, a, b - 1, b);
    lemma_sprod_one(s, b - 1);
}

// ---------------------------------------------------------------- index arithmetic
pub proof fn lemma_dm(q: int, b: int, r: int)
    requires 0 <= r < b
    ensures (q * b + r) / b == q, (q * b + r) % b == r, (b * q + r) / b == q, (b * q + r) % b == r
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(q * b + r, b, q, r);
    assert(q * b == b * q) by(nonlinear_arith);
}
pub proof fn lemma_dm_rev(x: int, b: int)
    requires b > 0
    ensures x == (x / b) * b + x % b, 0 <= x % b < b, x >= 0 ==> x / b >= 0
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, b);
    assert((x / b) * b == b * (x / b)) by(nonlinear_arith);
    assert(x >= 0 && b > 0 ==> x / b >= 0) by(nonlinear_arith);
}
pub proof fn lemma_div_lt(x: int, n: int, b: int)
    requires 0 <= x < n * b, b > 0
    ensures 0 <= x / b < n
{
    lemma_dm_rev(x, b);
    assert(x / b < n) by(nonlinear_arith) requires x == (x / b) * b + x % b, 0 <= x % b, x < n * b, b > 0;
}
pub proof fn lemma_lin(q: int, n: int, b: int, r: int)
    requires 0 <= q < n, 0 <= r < b
    ensures 0 <= q * b + r < n * b, q * b + b <= n * b, 0 <= q * b
{
    assert(q * b + b <= n * b) by(nonlinear_arith) requires 0 <= q < n, 0 <= b;
    assert(0 <= q * b) by(nonlinear_arith) requires 0 <= q, 0 <= b;
}

// ---------------------------------------------------------------- Shape
impl Shape {
    pub open spec fn wf(&self) -> bool {
        self.rank <= 6 && forall|i: int| self.rank <= i < 6 ==> #[trigger] self.dims@[i] == 0
    }
    // the outer-to-inner list of dimensions
    pub open spec fn l(&self) -> Seq<nat> {
        Seq::new(self.rank as nat, |i: int| self.dims@[self.rank - 1 - i] as nat)
    }
    pub open spec fn n(&self) -> nat { prod(self.l()) }
    pub open spec fn s_cols(&self) -> nat { if self.rank >= 1 { self.l()[self.rank - 1] } else { 0 } }
    pub open spec fn s_rows(&self) -> nat { if self.rank >= 2 { self.l()[self.rank - 2] } else { 0 } }
}
pub proof fn lemma_shape_ext(a: Shape, b: Shape)
    requires a.wf(), b.wf(), a.l() == b.l()
    ensures a.rank == b.rank, a.dims@ == b.dims@
{
    assert(a.l().len() == a.rank as nat); assert(b.l().len() == b.rank as nat); assert(a.rank == b.rank);
    assert forall|i: int| 0 <= i < 6 implies a.dims@[i] == b.dims@[i] by {
        if i < a.rank { let j = a.rank - 1 - i; assert(a.l()[j] == b.l()[j]); assert(a.l()[j] == a.dims@[a.rank - 1 - j] as nat); assert(b.l()[j] == b.dims@[b.rank - 1 - j] as nat); assert(a.rank - 1 - j == i); } else { assert(a.dims@[i] == 0 && b.dims@[i] == 0); }
    }
    assert(a.dims@ =~= b.dims@);
}
// ---------------------------------------------------------------- Tensor
impl<T> TensorData<T> {
    pub open spec fn wf(&self) -> bool { self.len == self.data.cells().len() && fits::<T>(self.data.room(), self.len as nat) }
}
impl<T> Tensor<T> {
    pub open spec fn wf(&self) -> bool {
        &&& self.shape.wf()
        &&& self.size == self.shape.n()
        &&& self.data.wf()
        &&& self.offset + self.size <= self.data.data.cells().len()
    }
    // the elements of the window, in row-major order
    pub open spec fn e(&self) -> Seq<T> {
        self.data.data.cells().subrange(self.offset as int, self.offset + self.size)
    }
    pub open spec fn l(&self) -> Seq<nat> { self.shape.l() }
    pub open spec fn n(&self) -> nat { self.shape.n() }
}
impl<T> OutBuf<T> {
    pub open spec fn full(&self) -> bool { forall|i: int| 0 <= i < self.cap() ==> #[trigger] self.has(i) }
    pub open spec fn fresh(&self) -> bool { forall|k: int| !#[trigger] self.has(k) }
    pub open spec fn seq(&self) -> Seq<T> { Seq::new(self.cap(), |i: int| self.at(i)) }
}
// row-major offsets
pub open spec fn idx2(a: int, b: int, B: int) -> int { a * B + b }
pub open spec fn idx3(a: int, b: int, c: int, B: int, C: int) -> int { (a * B + b) * C + c }
pub proof fn lemma_idx2(a: int, b: int, A: int, B: int)
    requires 0 <= a < A, 0 <= b < B
    ensures 0 <= idx2(a, b, B) < A * B,
        forall|x: int, y: int| 0 <= x && 0 <= y < B && #[trigger] idx2(x, y, B) == idx2(a, b, B) ==> x == a && y == b,
{
    lemma_lin(a, A, B, b);
    assert forall|x: int, y: int| 0 <= x && 0 <= y < B && #[trigger] idx2(x, y, B) == idx2(a, b, B) implies x == a && y == b by {
        lemma_dm(x, B, y); lemma_dm(a, B, b);
    }
}
// the other ways to write the same index
pub proof fn lemma_idx3f(a: int, b: int, B: int, C: int)
    ensures a * B * C == a * (B * C), a * C * B == a * (B * C), (a * B + b) * C == a * (B * C) + b * C, B * C == C * B,
{
    assert(a * B * C == a * (B * C) && a * C * B == a * (B * C) && B * C == C * B && (a * B + b) * C == a * (B * C) + b * C) by(nonlinear_arith);
}
pub proof fn lemma_idx3(a: int, b: int, c: int, A: int, B: int, C: int)
    requires 0 <= a < A, 0 <= b < B, 0 <= c < C
    ensures 0 <= idx3(a, b, c, B, C) < A * B * C, idx3(a, b, c, B, C) == a * (B * C) + b * C + c,
        A * B * C == A * (B * C),
        forall|x: int, y: int, z: int| 0 <= x && 0 <= y < B && 0 <= z < C && #[trigger] idx3(x, y, z, B, C) == idx3(a, b, c, B, C)
            ==> x == a && y == b && z == c,
{
    lemma_lin(a, A, B, b);
    lemma_lin(a * B + b, A * B, C, c);
    assert((a * B + b) * C + c == a * (B * C) + b * C + c) by(nonlinear_arith);
    assert(A * B * C == A * (B * C)) by(nonlinear_arith);
    assert forall|x: int, y: int, z: int| 0 <= x && 0 <= y < B && 0 <= z < C && #[trigger] idx3(x, y, z, B, C) == idx3(a, b, c, B, C)
            implies x == a && y == b && z == c by {
        lemma_dm(x * B + y, C, z); lemma_dm(a * B + b, C, c);
        lemma_dm(x, B, y); lemma_dm(a, B, b);
    }
}
// every offset below A*B*C is the offset of exactly one coordinate
pub proof fn lemma_unidx2(k: int, A: int, B: int)
    requires 0 <= k < A * B, 0 <= A, 0 <= B
    ensures B > 0, 0 <= k / B < A, 0 <= k % B < B, idx2(k / B, k % B, B) == k
{
    assert(B > 0) by(nonlinear_arith) requires 0 <= k < A * B, 0 <= A, 0 <= B;
    lemma_dm_rev(k, B); lemma_div_lt(k, A, B);
}
pub proof fn lemma_unidx3(k: int, A: int, B: int, C: int)
    requires 0 <= k < A * B * C, 0 <= A, 0 <= B, 0 <= C
    ensures B > 0, C > 0, 0 <= (k / C) / B < A, 0 <= (k / C) % B < B, 0 <= k % C < C, idx3((k / C) / B, (k / C) % B, k % C, B, C) == k
{
    assert(0 <= A * B) by(nonlinear_arith) requires 0 <= A, 0 <= B;
    lemma_unidx2(k, A * B, C);
    lemma_unidx2(k / C, A, B);
}
