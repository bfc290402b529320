// Trusted prelude: models of the primitive operations the extracted code uses.
// CHK{c} ENS{e}: a run-time check. total mode: `requires c ensures e`;
//                partial mode (the check panics): `ensures c, e`.
// Everything in this file marked external_body is an assumption (listed in the evidence).

// ---------------------------------------------------------------- run-time checks
#[verifier::external_body]
pub fn rt_assert(c: bool) CHK{c} ENS{true} { unimplemented!() }
#[verifier::external_body]
pub fn rt_panic<T>() -> (r: T) CHK{false} ENS{false} { unimplemented!() }

// ---------------------------------------------------------------- arithmetic
// add_*/mul_*/sub_*/... are generated on demand (tools/lower.py int_op): + and * on machine
// integers overflow with a panic (debug profile), never with a wrong result.
pub fn umax(a: usize, b: usize) -> (r: usize) ensures r == smax(a as int, b as int) { if a < b { b } else { a } }
pub fn umin(a: usize, b: usize) -> (r: usize) ensures r == smin(a as int, b as int) { if b < a { b } else { a } }
pub open spec fn smax(a: int, b: int) -> int { if a < b { b } else { a } }
pub open spec fn smin(a: int, b: int) -> int { if b < a { b } else { a } }
pub fn wmax(a: u32, b: u32) -> (r: u32) ensures r == smax(a as int, b as int) { if a < b { b } else { a } }
pub fn wmin(a: u32, b: u32) -> (r: u32) ensures r == smin(a as int, b as int) { if b < a { b } else { a } }
// a dimension that does not fit 32 bits is outside the crate's domain
#[verifier::external_body]
pub fn to_u32(a: usize) -> (r: u32) ensures r == a { unimplemented!() }
// counting elements one by one: a count of elements in memory fits usize
#[verifier::external_body]
pub fn cadd_usize(a: usize, b: usize) -> (r: usize) ensures a + b <= usize::MAX ==> r == a + b, r == (a + b) as usize { unimplemented!() }
// a product of dimensions that does not fit 32 bits is outside the crate's domain
#[verifier::external_body]
pub fn dmul_u32(a: u32, b: u32) -> (r: u32) ensures r == a * b { unimplemented!() }
// Rust / and % truncate toward zero
pub open spec fn trem(a: int, b: int) -> int { if a >= 0 { a % b } else { -((-a) % b) } }
pub open spec fn tdiv(a: int, b: int) -> int { if a >= 0 { a / b } else { -((-a) / b) } }
// isize -> usize (`as`): two's complement reinterpretation
#[verifier::external_body]
pub fn i_to_u(a: isize) -> (r: usize) ensures a >= 0 ==> r == a, a < 0 ==> r == a + usize::MAX + 1 { unimplemented!() }
#[verifier::external_body]
pub fn u_to_i(a: usize) -> (r: isize) ensures r == a { unimplemented!() }

// ---------------------------------------------------------------- indexing
#[verifier::external_body]
pub fn ix<T>(s: &[T], i: usize) -> (r: &T) CHK{i < s@.len()} ENS{*r == s@[i as int]} { unimplemented!() }
#[verifier::external_body]
pub fn vix<T>(s: &Vec<T>, i: usize) -> (r: &T) CHK{i < s@.len()} ENS{*r == s@[i as int]} { unimplemented!() }
#[verifier::external_body]
pub fn aix<T, const N: usize>(s: &[T; N], i: usize) -> (r: &T) CHK{i < N} ENS{*r == s@[i as int]} { unimplemented!() }
#[verifier::external_body]
pub fn vset<T>(s: &mut Vec<T>, i: usize, v: T) CHK{i < old(s)@.len()} ENS{final(s)@ == old(s)@.update(i as int, v)} { unimplemented!() }
#[verifier::external_body]
pub fn sset<T>(s: &mut [T], i: usize, v: T) CHK{i < old(s)@.len()} ENS{final(s)@ == old(s)@.update(i as int, v)} { unimplemented!() }
#[verifier::external_body]
pub fn aset<T, const N: usize>(s: &mut [T; N], i: usize, v: T) CHK{i < N} ENS{final(s)@ == old(s)@.update(i as int, v)} { unimplemented!() }
#[verifier::external_body]
pub fn acopy<T, const N: usize>(a: &[T; N]) -> (r: [T; N]) ensures r@ == a@ { unimplemented!() }
#[verifier::external_body]
pub fn vinsert<T>(s: &mut Vec<T>, i: usize, v: T) CHK{i <= old(s)@.len()} ENS{final(s)@ == old(s)@.insert(i as int, v)} { unimplemented!() }
#[verifier::external_body]
pub fn vreverse<T>(s: &mut Vec<T>) ensures final(s)@ == old(s)@.reverse() { unimplemented!() }
#[verifier::external_body]
pub fn vclone<T>(s: &[T]) -> (r: Vec<T>) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub fn arr_eq(a: &[u32; 6], b: &[u32; 6]) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
// Clone of an element is faithful
#[verifier::external_body]
pub fn cl<T>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }

#[verifier::external_body]
pub fn arep<T, const N: usize>(x: T) -> (r: [T; N]) ensures r@ == Seq::new(N as nat, |i: int| x) { unimplemented!() }
#[verifier::external_body]
pub fn vrep<T>(x: T, n: usize) -> (r: Vec<T>) ensures r@ == Seq::new(n as nat, |i: int| x) { unimplemented!() }
#[verifier::external_body]
pub fn aslice<T, const N: usize>(a: &[T; N]) -> (r: &[T]) ensures r@ == a@ { unimplemented!() }
#[verifier::external_body]
pub fn vslice<T>(a: &Vec<T>) -> (r: &[T]) ensures r@ == a@ { unimplemented!() }
#[verifier::external_body]
pub fn vmut_slice<T>(v: &mut Vec<T>) -> (r: &mut [T]) ensures (*r)@ == old(v)@, final(v)@ == final(r)@ { unimplemented!() }
#[verifier::external_body]
pub fn arr_vec<T, const N: usize>(a: [T; N]) -> (r: Vec<T>) ensures r@ == a@ { unimplemented!() }
// items moved out of a sequence, each index once per loop iteration
#[verifier::external_body]
pub fn vtake<T>(v: &Vec<T>, i: usize) -> (r: T) CHK{i < v@.len()} ENS{r == v@[i as int]} { unimplemented!() }
#[verifier::external_body]
pub fn atake<T, const N: usize>(v: &[T; N], i: usize) -> (r: T) CHK{i < N} ENS{r == v@[i as int]} { unimplemented!() }
#[verifier::external_body]
pub fn ssub<T>(s: &[T], a: usize, b: usize) -> (r: &[T]) CHK{a <= b <= s@.len()} ENS{r@ == s@.subrange(a as int, b as int)} { unimplemented!() }
#[verifier::external_body]
pub fn ssubf<T>(s: &[T], a: usize) -> (r: &[T]) CHK{a <= s@.len()} ENS{r@ == s@.subrange(a as int, s@.len() as int)} { unimplemented!() }
#[verifier::external_body]
pub fn vappend<T>(s: &mut Vec<T>, o: &mut Vec<T>) ensures final(s)@ == old(s)@ + old(o)@, final(o)@ == Seq::<T>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn vextend<T>(s: &mut Vec<T>, o: &[T]) ensures final(s)@ == old(s)@ + o@ { unimplemented!() }
#[verifier::external_body]
pub fn vresize<T>(s: &mut Vec<T>, n: usize, v: T)
    ensures final(s)@ == Seq::new(n as nat, |i: int| if i < old(s)@.len() { old(s)@[i] } else { v }) { unimplemented!() }
#[verifier::external_body]
pub fn sreverse<T>(s: &mut [T]) ensures final(s)@ == old(s)@.reverse() { unimplemented!() }
#[verifier::external_body]
pub fn opt_unwrap<T>(o: Option<T>) -> (r: T) CHK{o.is_some()} ENS{o == Some(r)} { unimplemented!() }
#[verifier::external_body]
pub fn opt_unwrap_or<T>(o: Option<T>, d: T) -> (r: T) ensures r == (if o.is_some() { o.unwrap() } else { d }) { unimplemented!() }
#[verifier::external_body]
pub fn res_unwrap<T, E>(o: Result<T, E>) -> (r: T) CHK{o.is_ok()} ENS{o == Ok::<T, E>(r)} { unimplemented!() }
pub struct Complex<T> { pub re: T, pub im: T }
// Iterator::partial_cmp over two slices: lexicographic
pub uninterp spec fn s_pcmp<T>(a: T, b: T) -> Option<core::cmp::Ordering>;
pub open spec fn lexcmp<T>(a: Seq<T>, b: Seq<T>) -> Option<core::cmp::Ordering> decreases a.len() {
    if a.len() == 0 { if b.len() == 0 { Some(core::cmp::Ordering::Equal) } else { Some(core::cmp::Ordering::Less) } }
    else if b.len() == 0 { Some(core::cmp::Ordering::Greater) }
    else { match s_pcmp(a[0], b[0]) { Some(core::cmp::Ordering::Equal) => lexcmp(a.drop_first(), b.drop_first()), o => o } }
}
#[verifier::external_body]
pub fn it_pcmp<T>(a: &[T], b: &[T]) -> (r: Option<core::cmp::Ordering>) ensures r == lexcmp(a@, b@) { unimplemented!() }
// text: only its identity matters
#[verifier::external_body]
pub struct StringM { p: std::marker::PhantomData<()> }
// the owned copy of a text
pub uninterp spec fn s_string(s: StrM) -> StringM;
#[verifier::external_body]
pub fn to_str(s: &StrM) -> (r: StringM) ensures r == s_string(*s) { unimplemented!() }
#[verifier::external_body]
pub struct StrM { p: std::marker::PhantomData<()> }
#[verifier::external_body]
pub fn strm(s: &'static str) -> (r: &'static StrM) { unimplemented!() }

// ---------------------------------------------------------------- raw memory
// *const T : a position inside one allocation
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct RawPtr<T> { p: std::marker::PhantomData<T> }
impl<T> RawPtr<T> {
    pub uninterp spec fn mem(&self) -> Seq<T>;
    pub uninterp spec fn off(&self) -> int;
    pub uninterp spec fn room(&self) -> Room;           // the allocation it starts (meaningful at offset 0)
}
// what an allocation is for: n elements of its type, or (dangling) elements that need no memory
pub enum Room { Of(nat), Zero }
pub uninterp spec fn zst<T>() -> bool;                  // T has size zero
pub open spec fn fits<T>(r: Room, n: nat) -> bool { match r { Room::Of(k) => n == k, Room::Zero => n == 0 || zst::<T>() } }
impl<T> Clone for RawPtr<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<T> Copy for RawPtr<T> {}
#[verifier::external_body]
pub fn rp_add<T>(p: RawPtr<T>, n: usize) -> (r: RawPtr<T>)
    requires 0 <= p.off() + n <= p.mem().len()
    ensures r.mem() == p.mem(), r.off() == p.off() + n { unimplemented!() }
#[verifier::external_body]
pub fn rp_ref<'a, T>(p: RawPtr<T>) -> (r: Option<&'a T>)
    requires 0 <= p.off() < p.mem().len()
    ensures r == Some(&p.mem()[p.off()]) { unimplemented!() }
#[verifier::external_body]
pub fn rp_read<T: Copy>(p: RawPtr<T>) -> (r: T)
    requires 0 <= p.off() < p.mem().len()
    ensures r == p.mem()[p.off()] { unimplemented!() }
// *const [T]
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct RawSlice<T> { p: std::marker::PhantomData<T> }
impl<T> RawSlice<T> {
    pub uninterp spec fn ptr(&self) -> RawPtr<T>;
    pub uninterp spec fn len(&self) -> nat;
}
#[verifier::external_body]
pub fn rs_make<T>(p: RawPtr<T>, n: usize) -> (r: RawSlice<T>) ensures r.ptr() == p, r.len() == n { unimplemented!() }
#[verifier::external_body]
pub fn rs_ref<'a, T>(s: RawSlice<T>) -> (r: Option<&'a [T]>)
    requires 0 <= s.ptr().off(), s.ptr().off() + s.len() <= s.ptr().mem().len()
    ensures r.is_some(), r.unwrap()@ == s.ptr().mem().subrange(s.ptr().off(), s.ptr().off() + s.len()) { unimplemented!() }
// NonNull<T> as stored in TensorData: the owned allocation
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct NonNull<T> { p: std::marker::PhantomData<T> }
impl<T> NonNull<T> {
    pub uninterp spec fn cells(&self) -> Seq<T>;
    pub uninterp spec fn room(&self) -> Room;
}
#[verifier::external_body]
pub fn m_nn_as_ptr<T>(n: &NonNull<T>) -> (r: RawPtr<T>) ensures r.mem() == n.cells(), r.off() == 0, r.room() == n.room() { unimplemented!() }
// Box<[T]> and its conversion to an owned allocation
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct BoxS<T> { p: std::marker::PhantomData<T> }
impl<T> View for BoxS<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T> BoxS<T> {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
}
#[verifier::external_body]
pub fn into_boxs<T>(v: Vec<T>) -> (r: BoxS<T>) ensures r@ == v@ { unimplemented!() }
#[verifier::external_body]
pub fn m_into_raw<T>(b: BoxS<T>) -> (r: RawSlice<T>) ensures r.ptr().mem() == b@, r.ptr().off() == 0, r.len() == b@.len(), r.ptr().room() == Room::Of(b@.len()) { unimplemented!() }
#[verifier::external_body]
pub fn rs_cast<T>(s: RawSlice<T>) -> (r: RawPtr<T>) ensures r == s.ptr() { unimplemented!() }
// [[T; N]] is laid out as the concatenation of its rows
#[verifier::external_body]
pub fn rs_cast_rows<T, const N: usize>(s: RawSlice<[T; N]>) -> (r: RawPtr<T>)
    ensures r.off() == 0, r.mem().len() == s.ptr().mem().len() * N, s.ptr().room() == Room::Of(s.ptr().mem().len()) ==> r.room() == Room::Of((s.ptr().mem().len() * N) as nat),
        forall|i: int, j: int| 0 <= i < s.ptr().mem().len() && 0 <= j < N ==> #[trigger] s.ptr().mem()[i]@[j] == r.mem()[i * N + j] { unimplemented!() }
#[verifier::external_body]
pub fn m_nn_new_unchecked<T>(p: RawPtr<T>) -> (r: NonNull<T>) requires p.off() == 0 ensures r.cells() == p.mem(), r.room() == p.room() { unimplemented!() }
// ---- giving an allocation back.  Own: the one obligation to release what a TensorData owns.
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Own<T> { p: std::marker::PhantomData<T> }
impl<T> Own<T> {
    pub uninterp spec fn ptr(&self) -> RawPtr<T>;
    pub uninterp spec fn live(&self) -> bool;
}
#[verifier::external_body]
pub fn own_of<T>(n: &NonNull<T>) -> (r: Own<T>) ensures r.live(), r.ptr().off() == 0, r.ptr().mem() == n.cells(), r.ptr().room() == n.room() { unimplemented!() }
#[verifier::external_body]
pub fn m_from_raw_parts_mut<T>(p: RawPtr<T>, n: usize) -> (r: RawSlice<T>)
    requires 0 <= p.off(), p.off() + n <= p.mem().len()
    ensures r.ptr() == p, r.len() == n { unimplemented!() }
// Box::from_raw: once, for the whole allocation, with its element count; the box then drops every element and frees it
#[verifier::external_body]
pub fn m_box_from_raw<T>(o: &mut Own<T>, s: RawSlice<T>) -> (r: BoxS<T>)
    requires old(o).live(), s.ptr().off() == 0, s.ptr().mem() == old(o).ptr().mem(), s.ptr().room() == old(o).ptr().room(), s.len() == s.ptr().mem().len(), fits::<T>(s.ptr().room(), s.len())
    ensures !final(o).live(), r@ == s.ptr().mem() { unimplemented!() }
#[verifier::external_body]
pub fn m_drop<T>(b: BoxS<T>) { unimplemented!() }
// ---- allocating (std::alloc)
pub struct LayoutM { pub n: Ghost<nat>, pub zero: Ghost<bool> }
#[verifier::external_body]
pub struct LayErrM { p: std::marker::PhantomData<()> }
pub uninterp spec fn layok<T>(n: usize) -> bool;        // n elements of T fit the address space
#[verifier::external_body]
pub fn layout_array<T>(n: usize) -> (r: Result<LayoutM, LayErrM>)
    ensures layok::<T>(n) ==> r.is_ok(), r matches Ok(l) ==> l.n@ == n && l.zero@ == (n == 0 || zst::<T>()) { unimplemented!() }
#[verifier::external_body]
pub fn layout_size(l: &LayoutM) -> (r: usize) ensures (r == 0) == l.zero@ { unimplemented!() }
impl Clone for LayoutM { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for LayoutM {}
// *mut u8 from the allocator, possibly null
#[verifier::external_body]
pub struct AllocM { p: std::marker::PhantomData<()> }
impl AllocM { pub uninterp spec fn n(&self) -> nat; pub uninterp spec fn null(&self) -> bool; }
#[verifier::external_body]
pub fn m_alloc(l: LayoutM) -> (r: AllocM) requires !l.zero@ ensures !r.null() ==> r.n() == l.n@ { unimplemented!() }
#[verifier::external_body]
pub fn m_nn_new<T>(p: AllocM) -> (r: Option<NonNull<T>>) ensures r.is_some() == !p.null(), r.is_some() ==> r.unwrap().room() == Room::Of(p.n()) { unimplemented!() }
#[verifier::external_body]
pub fn m_nn_dangling<T>() -> (r: NonNull<T>) ensures r.room() == Room::Zero { unimplemented!() }
#[verifier::external_body]
pub fn m_handle_alloc_error<R>(l: LayoutM) -> (r: R) ensures false { unimplemented!() }
// iterators over slices, as values: slice::Iter is the slice it walks
pub struct ChunksM<'a, T> { pub s: &'a [T], pub n: usize }
#[verifier::external_body]
pub fn chunks_m<'a, T>(s: &'a [T], n: usize) -> (r: ChunksM<'a, T>) CHK{n != 0} ENS{r.s == s && r.n == n} { unimplemented!() }
// slices compare element by element
pub open spec fn seq_eq<T>(a: Seq<T>, b: Seq<T>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> s2_eq::<T, T, bool>(#[trigger] a[i], b[i]) }
#[verifier::external_body]
pub fn slice_eq<T>(a: &[T], b: &[T]) -> (r: bool) ensures r == seq_eq(a@, b@) { unimplemented!() }
// wrapping and shifting machine arithmetic
pub open spec fn wadd_u8(a: u8, b: u8) -> u8 { ((a as int + b as int) % (u8::MAX as int + 1)) as u8 }
#[verifier::external_body]
pub fn wrapping_add_u8(a: u8, b: u8) -> (r: u8) ensures r == wadd_u8(a, b) { unimplemented!() }
pub open spec fn wmul_u8(a: u8, b: u8) -> u8 { ((a as int * b as int) % (u8::MAX as int + 1)) as u8 }
#[verifier::external_body]
pub fn wrapping_mul_u8(a: u8, b: u8) -> (r: u8) ensures r == wmul_u8(a, b) { unimplemented!() }
pub open spec fn wsub_u8(a: u8, b: u8) -> u8 { ((a as int - b as int) % (u8::MAX as int + 1)) as u8 }
#[verifier::external_body]
pub fn wrapping_sub_u8(a: u8, b: u8) -> (r: u8) ensures r == wsub_u8(a, b) { unimplemented!() }
pub open spec fn sshl_u8(a: u8, k: u32) -> u8 { a << (k as u8) }
#[verifier::external_body]
pub fn shl_u8(a: u8, k: u32) -> (r: u8) CHK{k < 8} ENS{r == sshl_u8(a, k)} { unimplemented!() }
pub open spec fn sshr_u8(a: u8, k: u32) -> u8 { a >> (k as u8) }
#[verifier::external_body]
pub fn shr_u8(a: u8, k: u32) -> (r: u8) CHK{k < 8} ENS{r == sshr_u8(a, k)} { unimplemented!() }
pub open spec fn wadd_u16(a: u16, b: u16) -> u16 { ((a as int + b as int) % (u16::MAX as int + 1)) as u16 }
#[verifier::external_body]
pub fn wrapping_add_u16(a: u16, b: u16) -> (r: u16) ensures r == wadd_u16(a, b) { unimplemented!() }
pub open spec fn wmul_u16(a: u16, b: u16) -> u16 { ((a as int * b as int) % (u16::MAX as int + 1)) as u16 }
#[verifier::external_body]
pub fn wrapping_mul_u16(a: u16, b: u16) -> (r: u16) ensures r == wmul_u16(a, b) { unimplemented!() }
pub open spec fn wsub_u16(a: u16, b: u16) -> u16 { ((a as int - b as int) % (u16::MAX as int + 1)) as u16 }
#[verifier::external_body]
pub fn wrapping_sub_u16(a: u16, b: u16) -> (r: u16) ensures r == wsub_u16(a, b) { unimplemented!() }
pub open spec fn sshl_u16(a: u16, k: u32) -> u16 { a << (k as u16) }
#[verifier::external_body]
pub fn shl_u16(a: u16, k: u32) -> (r: u16) CHK{k < 16} ENS{r == sshl_u16(a, k)} { unimplemented!() }
pub open spec fn sshr_u16(a: u16, k: u32) -> u16 { a >> (k as u16) }
#[verifier::external_body]
pub fn shr_u16(a: u16, k: u32) -> (r: u16) CHK{k < 16} ENS{r == sshr_u16(a, k)} { unimplemented!() }
pub open spec fn wadd_u32(a: u32, b: u32) -> u32 { ((a as int + b as int) % (u32::MAX as int + 1)) as u32 }
#[verifier::external_body]
pub fn wrapping_add_u32(a: u32, b: u32) -> (r: u32) ensures r == wadd_u32(a, b) { unimplemented!() }
pub open spec fn wmul_u32(a: u32, b: u32) -> u32 { ((a as int * b as int) % (u32::MAX as int + 1)) as u32 }
#[verifier::external_body]
pub fn wrapping_mul_u32(a: u32, b: u32) -> (r: u32) ensures r == wmul_u32(a, b) { unimplemented!() }
pub open spec fn wsub_u32(a: u32, b: u32) -> u32 { ((a as int - b as int) % (u32::MAX as int + 1)) as u32 }
#[verifier::external_body]
pub fn wrapping_sub_u32(a: u32, b: u32) -> (r: u32) ensures r == wsub_u32(a, b) { unimplemented!() }
pub open spec fn sshl_u32(a: u32, k: u32) -> u32 { a << (k as u32) }
#[verifier::external_body]
pub fn shl_u32(a: u32, k: u32) -> (r: u32) CHK{k < 32} ENS{r == sshl_u32(a, k)} { unimplemented!() }
pub open spec fn sshr_u32(a: u32, k: u32) -> u32 { a >> (k as u32) }
#[verifier::external_body]
pub fn shr_u32(a: u32, k: u32) -> (r: u32) CHK{k < 32} ENS{r == sshr_u32(a, k)} { unimplemented!() }
pub open spec fn wadd_u64(a: u64, b: u64) -> u64 { ((a as int + b as int) % (u64::MAX as int + 1)) as u64 }
#[verifier::external_body]
pub fn wrapping_add_u64(a: u64, b: u64) -> (r: u64) ensures r == wadd_u64(a, b) { unimplemented!() }
pub open spec fn wmul_u64(a: u64, b: u64) -> u64 { ((a as int * b as int) % (u64::MAX as int + 1)) as u64 }
#[verifier::external_body]
pub fn wrapping_mul_u64(a: u64, b: u64) -> (r: u64) ensures r == wmul_u64(a, b) { unimplemented!() }
pub open spec fn wsub_u64(a: u64, b: u64) -> u64 { ((a as int - b as int) % (u64::MAX as int + 1)) as u64 }
#[verifier::external_body]
pub fn wrapping_sub_u64(a: u64, b: u64) -> (r: u64) ensures r == wsub_u64(a, b) { unimplemented!() }
pub open spec fn sshl_u64(a: u64, k: u32) -> u64 { a << (k as u64) }
#[verifier::external_body]
pub fn shl_u64(a: u64, k: u32) -> (r: u64) CHK{k < 64} ENS{r == sshl_u64(a, k)} { unimplemented!() }
pub open spec fn sshr_u64(a: u64, k: u32) -> u64 { a >> (k as u64) }
#[verifier::external_body]
pub fn shr_u64(a: u64, k: u32) -> (r: u64) CHK{k < 64} ENS{r == sshr_u64(a, k)} { unimplemented!() }
pub open spec fn wadd_u128(a: u128, b: u128) -> u128 { ((a as int + b as int) % (u128::MAX as int + 1)) as u128 }
#[verifier::external_body]
pub fn wrapping_add_u128(a: u128, b: u128) -> (r: u128) ensures r == wadd_u128(a, b) { unimplemented!() }
pub open spec fn wmul_u128(a: u128, b: u128) -> u128 { ((a as int * b as int) % (u128::MAX as int + 1)) as u128 }
#[verifier::external_body]
pub fn wrapping_mul_u128(a: u128, b: u128) -> (r: u128) ensures r == wmul_u128(a, b) { unimplemented!() }
pub open spec fn wsub_u128(a: u128, b: u128) -> u128 { ((a as int - b as int) % (u128::MAX as int + 1)) as u128 }
#[verifier::external_body]
pub fn wrapping_sub_u128(a: u128, b: u128) -> (r: u128) ensures r == wsub_u128(a, b) { unimplemented!() }
pub open spec fn sshl_u128(a: u128, k: u32) -> u128 { a << (k as u128) }
#[verifier::external_body]
pub fn shl_u128(a: u128, k: u32) -> (r: u128) CHK{k < 128} ENS{r == sshl_u128(a, k)} { unimplemented!() }
pub open spec fn sshr_u128(a: u128, k: u32) -> u128 { a >> (k as u128) }
#[verifier::external_body]
pub fn shr_u128(a: u128, k: u32) -> (r: u128) CHK{k < 128} ENS{r == sshr_u128(a, k)} { unimplemented!() }
pub open spec fn wadd_usize(a: usize, b: usize) -> usize { ((a as int + b as int) % (usize::MAX as int + 1)) as usize }
#[verifier::external_body]
pub fn wrapping_add_usize(a: usize, b: usize) -> (r: usize) ensures r == wadd_usize(a, b) { unimplemented!() }
pub open spec fn wmul_usize(a: usize, b: usize) -> usize { ((a as int * b as int) % (usize::MAX as int + 1)) as usize }
#[verifier::external_body]
pub fn wrapping_mul_usize(a: usize, b: usize) -> (r: usize) ensures r == wmul_usize(a, b) { unimplemented!() }
pub open spec fn wsub_usize(a: usize, b: usize) -> usize { ((a as int - b as int) % (usize::MAX as int + 1)) as usize }
#[verifier::external_body]
pub fn wrapping_sub_usize(a: usize, b: usize) -> (r: usize) ensures r == wsub_usize(a, b) { unimplemented!() }
pub open spec fn sshl_usize(a: usize, k: u32) -> usize { a << (k as usize) }
#[verifier::external_body]
pub fn shl_usize(a: usize, k: u32) -> (r: usize) CHK{k < 64} ENS{r == sshl_usize(a, k)} { unimplemented!() }
pub open spec fn sshr_usize(a: usize, k: u32) -> usize { a >> (k as usize) }
#[verifier::external_body]
pub fn shr_usize(a: usize, k: u32) -> (r: usize) CHK{k < 64} ENS{r == sshr_usize(a, k)} { unimplemented!() }
pub uninterp spec fn s_bytes(x: &StrM) -> Seq<u8>;
#[verifier::external_body]
pub fn str_bytes(x: &StrM) -> (r: &[u8]) ensures r@ == s_bytes(x) { unimplemented!() }
// *mut T into a buffer being initialised
#[derive(Clone, Copy)]
pub struct MutPtr { pub off: Ghost<int> }
// the buffer under initialisation
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct OutBuf<T> { p: std::marker::PhantomData<T> }
impl<T> OutBuf<T> {
    pub uninterp spec fn cap(&self) -> nat;
    pub uninterp spec fn has(&self, i: int) -> bool;    // slot i is initialised
    pub uninterp spec fn at(&self, i: int) -> T;        // and holds this
    pub uninterp spec fn count(&self) -> nat;           // number of writes so far
    #[verifier::external_body]
    pub fn new(len: usize) -> (r: Self)
        ensures r.cap() == len, r.count() == 0, forall|k: int| !#[trigger] r.has(k) { unimplemented!() }
    #[verifier::external_body]
    pub fn base(&self) -> (r: MutPtr) ensures r.off@ == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn padd(&self, p: MutPtr, n: usize) -> (r: MutPtr)
        requires p.off@ + n <= self.cap()
        ensures r.off@ == p.off@ + n { unimplemented!() }
    #[verifier::external_body]
    pub fn write(&mut self, p: MutPtr, v: T)
        requires 0 <= p.off@ < old(self).cap()
        ensures final(self).cap() == old(self).cap(),
            forall|k: int| #[trigger] final(self).has(k) == (k == p.off@ || old(self).has(k)),
            forall|k: int| #[trigger] final(self).at(k) == (if k == p.off@ { v } else { old(self).at(k) }),
            final(self).count() == old(self).count() + 1 { unimplemented!() }
}

// ---------------------------------------------------------------- matrixmultiply::sgemm (dependency)
// position of entry (i, j) of a matrix at off with row and column strides rs, cs
pub open spec fn gix(off: int, rs: int, cs: int, i: int, j: int) -> int { off + rs * i + cs * j }
pub open spec fn g_row(x: Seq<f32>, off: int, rs: int, cs: int, i: int, k: int) -> Seq<f32> { Seq::new(k as nat, |q: int| x[gix(off, rs, cs, i, q)]) }
pub open spec fn g_col(x: Seq<f32>, off: int, rs: int, cs: int, j: int, k: int) -> Seq<f32> { Seq::new(k as nat, |q: int| x[gix(off, rs, cs, q, j)]) }
// alpha times the inner product of two sequences, in the dependency's summation order
pub uninterp spec fn s_gdot(alpha: f32, a: Seq<f32>, b: Seq<f32>) -> f32;
pub open spec fn g_in(off: int, rs: int, cs: int, m: int, n: int, len: int) -> bool { forall|i: int, j: int| 0 <= i < m && 0 <= j < n ==> 0 <= #[trigger] gix(off, rs, cs, i, j) < len }
pub open spec fn g_pos(off: int, rs: int, cs: int, m: int, n: int, q: int) -> bool { exists|i: int, j: int| 0 <= i < m && 0 <= j < n && q == #[trigger] gix(off, rs, cs, i, j) }
pub open spec fn g_inj(off: int, rs: int, cs: int, m: int, n: int) -> bool { forall|i: int, j: int, x: int, y: int| 0 <= i < m && 0 <= j < n && 0 <= x < m && 0 <= y < n && #[trigger] gix(off, rs, cs, i, j) == #[trigger] gix(off, rs, cs, x, y) ==> i == x && j == y }
// nothing else of the buffer changed
pub open spec fn g_frame(o: OutBuf<f32>, f: OutBuf<f32>, off: int, rs: int, cs: int, m: int, n: int) -> bool {
    f.cap() == o.cap() && forall|q: int| !g_pos(off, rs, cs, m, n, q) ==> #[trigger] f.has(q) == o.has(q) && f.at(q) == o.at(q)
}
#[verifier::external_body]
pub fn mm_sgemm(h: &mut OutBuf<f32>, m: usize, k: usize, n: usize, alpha: f32, a: RawPtr<f32>, rsa: isize, csa: isize, b: RawPtr<f32>, rsb: isize, csb: isize, beta: f32, c: MutPtr, rsc: isize, csc: isize)
    requires g_in(a.off(), rsa as int, csa as int, m as int, k as int, a.mem().len() as int), g_in(b.off(), rsb as int, csb as int, k as int, n as int, b.mem().len() as int),
        g_in(c.off@, rsc as int, csc as int, m as int, n as int, old(h).cap() as int), g_inj(c.off@, rsc as int, csc as int, m as int, n as int), beta == sfl_0p0_f32()
    ensures g_frame(*old(h), *final(h), c.off@, rsc as int, csc as int, m as int, n as int),
        forall|i: int, j: int| 0 <= i < m && 0 <= j < n ==> final(h).has(#[trigger] gix(c.off@, rsc as int, csc as int, i, j)) && final(h).at(gix(c.off@, rsc as int, csc as int, i, j)) == s_gdot(alpha, g_row(a.mem(), a.off(), rsa as int, csa as int, i, k as int), g_col(b.mem(), b.off(), rsb as int, csb as int, j, k as int)) { unimplemented!() }
// a caller's initialiser: it runs on a fresh buffer of n slots and leaves it as rel says
pub trait FnP<T>: Sized {
    spec fn rel(f: Self, n: nat, h: OutBuf<T>) -> bool;
    fn run(&mut self, h: &mut OutBuf<T>, p: RawPtr<T>)
        requires p.off() == 0, fits::<T>(p.room(), old(h).cap()), old(h).fresh()
        ensures final(h).cap() == old(h).cap(), Self::rel(*old(self), old(h).cap(), *final(h));
}
// the memory behind a pointer, once every slot of the buffer written through it is initialised
#[verifier::external_body]
pub fn m_nn_filled<T>(p: NonNull<T>, h: &OutBuf<T>) -> (r: NonNull<T>)
    requires h.full(), fits::<T>(p.room(), h.cap())
    ensures r.room() == p.room(), r.cells() == h.seq() { unimplemented!() }
// what TensorData::new(len, data, shape) makes of a completed initialisation: the contract of
// unsafe_init, whose own body is checked against it under C28.
#[verifier::external_body]
pub fn finish<T>(h: OutBuf<T>, len: usize, shape: Shape) -> (r: Tensor<T>)
    requires h.full(), h.cap() == len, shape.wf()
    CHKR{shape.n() == len}
    ENS{r.wf(), r.shape == shape, r.e() == h.seq(), r.n() == len} { unimplemented!() }
// ---------------------------------------------------------------- lists of tensors (IntoTensorList of a type not yet known)
pub uninterp spec fn s_items<I, T>(x: I) -> Seq<Tensor<T>>;
#[verifier::external_body]
pub fn into_list_m<I, T>(x: I, vec: &mut Vec<Tensor<T>>)
    ensures final(vec)@ == old(vec)@ + s_items::<I, T>(x), forall|k: int| 0 <= k < s_items::<I, T>(x).len() ==> (#[trigger] s_items::<I, T>(x)[k]).wf() { unimplemented!() }
// which impl answers for a type (each impl is verified against the same equation)
#[verifier::external_body]
pub proof fn axiom_items_vec<T>(x: Vec<Tensor<T>>) ensures s_items::<Vec<Tensor<T>>, T>(x) == x@ { unimplemented!() }
#[verifier::external_body]
pub proof fn axiom_items_slice<T>(x: &[Tensor<T>]) ensures s_items::<&[Tensor<T>], T>(x) == x@ { unimplemented!() }

// ---- files (assumed contracts of std::fs::File and std::io::Read): a file has contents; opening it
// positions at its start; read_to_end appends everything that remains; read returns any non-empty part of it.
#[verifier::external_body]
pub struct FileM { p: std::marker::PhantomData<()> }
#[verifier::external_body]
pub struct ErrorM { p: std::marker::PhantomData<()> }
pub uninterp spec fn file_bytes(p: StringM) -> Seq<u8>;
pub uninterp spec fn can_open(p: StringM) -> bool;
pub uninterp spec fn can_read(p: StringM) -> bool;
impl FileM {
    pub uninterp spec fn path(&self) -> StringM;
    pub uninterp spec fn rest(&self) -> Seq<u8>;
}
#[verifier::external_body]
pub fn file_open(p: &StringM) -> (r: Result<FileM, ErrorM>)
    ensures r.is_ok() <==> can_open(*p), r matches Ok(f) ==> f.path() == *p && f.rest() == file_bytes(*p)
{ unimplemented!() }
#[verifier::external_body]
pub fn file_read_to_end(f: &mut FileM, v: &mut Vec<u8>) -> (r: Result<usize, ErrorM>)
    ensures r.is_ok() <==> can_read(old(f).path()), final(f).path() == old(f).path(),
      r matches Ok(n) ==> final(v)@ == old(v)@ + old(f).rest() && final(f).rest() =~= Seq::<u8>::empty() && n == old(f).rest().len()
{ unimplemented!() }
#[verifier::external_body]
pub fn fs_read(p: &StringM) -> (r: Result<Vec<u8>, ErrorM>)
    ensures r.is_ok() <==> can_open(*p) && can_read(*p), r matches Ok(v) ==> v@ == file_bytes(*p)
{ unimplemented!() }

// ---- rustfft (assumed contract): a plan of length n transforms a buffer of length n by one fixed function of its contents
#[verifier::external_body]
pub struct FftPlannerM { p: std::marker::PhantomData<()> }
#[verifier::external_body]
pub struct FftM { p: std::marker::PhantomData<()> }
pub uninterp spec fn s_fft(b: Seq<Complex<f32>>) -> Seq<Complex<f32>>;
pub uninterp spec fn fft_chunks(len: nat, n: nat) -> bool;
impl FftM { pub uninterp spec fn n(&self) -> nat; }
#[verifier::external_body]
pub fn fft_planner() -> (r: FftPlannerM) { unimplemented!() }
#[verifier::external_body]
pub fn fft_plan(p: &mut FftPlannerM, n: usize) -> (r: Arc<FftM>) ensures r.n() == n { unimplemented!() }
#[verifier::external_body]
pub fn fft_process(f: &FftM, b: &mut [Complex<f32>])
    CHK{old(b)@.len() == f.n() || fft_chunks(old(b)@.len(), f.n())}
    ENS{final(b)@.len() == old(b)@.len() && (old(b)@.len() == f.n() ==> final(b)@ == s_fft(old(b)@))}
{ unimplemented!() }

// ---- further std functions a changed body may use
pub uninterp spec fn s_size_of<T>() -> usize;
pub uninterp spec fn s_align_of<T>() -> usize;
#[verifier::external_body]
pub fn m_size_of<T>() -> (r: usize) ensures r == s_size_of::<T>() { unimplemented!() }
#[verifier::external_body]
pub fn m_align_of<T>() -> (r: usize) ensures r == s_align_of::<T>(), r > 0 { unimplemented!() }
#[verifier::external_body]
pub fn sget<T>(s: &[T], i: usize) -> (r: Option<&T>) ensures i < s@.len() ==> r.is_some() && *r.unwrap() == s@[i as int], i >= s@.len() ==> r.is_none() { unimplemented!() }
#[verifier::external_body]
pub fn sgetr<T>(s: &[T], a: usize, b: usize) -> (r: Option<&[T]>) ensures a <= b <= s@.len() ==> r.is_some() && r.unwrap()@ == s@.subrange(a as int, b as int), !(a <= b <= s@.len()) ==> r.is_none() { unimplemented!() }
#[verifier::external_body]
pub fn slast<T>(s: &[T]) -> (r: Option<&T>) ensures s@.len() > 0 ==> r.is_some() && *r.unwrap() == s@[s@.len() - 1], s@.len() == 0 ==> r.is_none() { unimplemented!() }
#[verifier::external_body]
pub fn scontains<T>(s: &[T], x: &T) -> (r: bool) ensures r == s@.contains(*x) { unimplemented!() }
#[verifier::external_body]
pub fn sswap<T>(s: &mut [T], i: usize, j: usize) CHK{i < old(s)@.len() && j < old(s)@.len()} ENS{final(s)@ == old(s)@.update(i as int, old(s)@[j as int]).update(j as int, old(s)@[i as int])} { unimplemented!() }
#[verifier::external_body]
pub fn sfill<T>(s: &mut [T], x: T) ensures final(s)@ == Seq::new(old(s)@.len(), |i: int| x) { unimplemented!() }
#[verifier::external_body]
pub fn vpop<T>(s: &mut Vec<T>) -> (r: Option<T>)
    ensures old(s)@.len() > 0 ==> r == Some(old(s)@.last()) && final(s)@ == old(s)@.drop_last(), old(s)@.len() == 0 ==> r.is_none() && final(s)@ == old(s)@ { unimplemented!() }
#[verifier::external_body]
pub fn vremove<T>(s: &mut Vec<T>, i: usize) -> (r: T) CHK{i < old(s)@.len()} ENS{r == old(s)@[i as int] && final(s)@ == old(s)@.remove(i as int)} { unimplemented!() }
#[verifier::external_body]
pub fn vtruncate<T>(s: &mut Vec<T>, n: usize) ensures n < old(s)@.len() ==> final(s)@ == old(s)@.subrange(0, n as int), n >= old(s)@.len() ==> final(s)@ == old(s)@ { unimplemented!() }
#[verifier::external_body]
pub fn vclear<T>(s: &mut Vec<T>) ensures final(s)@ == Seq::<T>::empty() { unimplemented!() }
pub fn mem_replace<T>(a: &mut T, b: T) -> (r: T) ensures r == *old(a), *final(a) == b { core::mem::replace(a, b) }
pub fn mem_swap<T>(a: &mut T, b: &mut T) ensures *final(a) == *old(b), *final(b) == *old(a) { core::mem::swap(a, b) }
#[verifier::external_body]
pub fn from_le_u16(b: [u8; 2]) -> (r: u16) ensures r == b@[0] as int + 0x100 * b@[1] as int { unimplemented!() }
#[verifier::external_body]
pub fn from_be_u16(b: [u8; 2]) -> (r: u16) ensures r == b@[1] as int + 0x100 * b@[0] as int { unimplemented!() }
#[verifier::external_body]
pub fn from_le_u32(b: [u8; 4]) -> (r: u32) ensures r == b@[0] as int + 0x100 * b@[1] as int + 0x1_0000 * b@[2] as int + 0x100_0000 * b@[3] as int { unimplemented!() }
#[verifier::external_body]
pub fn from_be_u32(b: [u8; 4]) -> (r: u32) ensures r == b@[3] as int + 0x100 * b@[2] as int + 0x1_0000 * b@[1] as int + 0x100_0000 * b@[0] as int { unimplemented!() }
#[verifier::external_body]
pub fn from_le_i16(b: [u8; 2]) -> (r: i16) ensures r == (if b@[1] < 128 { b@[0] as int + 0x100 * b@[1] as int } else { b@[0] as int + 0x100 * b@[1] as int - 0x1_0000 }) { unimplemented!() }
#[verifier::external_body]
pub fn rem_eu(a: isize, b: isize) -> (r: isize) CHK{b != 0} ENS{b > 0 ==> r == a as int % b as int} { unimplemented!() }
#[verifier::external_body]
pub fn udiv_ceil(a: usize, b: usize) -> (r: usize) CHK{b != 0} ENS{r == (a as int + b as int - 1) / b as int} { unimplemented!() }
