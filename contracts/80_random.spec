@spec
// the generators: one linear-congruential step, one output permutation
#[verifier::opaque]
pub open spec fn st32(s: u64) -> u64 { wadd_u64(wmul_u64(s, 0x4822581B885237D5u64), 0x6ED29E641A5F9CE5u64) }
pub open spec fn out32(s: u64) -> u32 { let r = (sshr_u64(s, 32) as int % 0x1_0000_0000int) as u32; wmul_u32(r ^ sshr_u32(r, 16), 0x8A53002Du32) }
#[verifier::opaque]
pub open spec fn st64(s: u128) -> u128 { wadd_u128(wmul_u128(s, 0xACAEAEFB4BF4A6A78B6E278B66409E7Du128), 0x351402A3544A25016AEE39FBBADBB38Du128) }
pub open spec fn out64(s: u128) -> u64 { let r = (sshr_u128(s, 32) as int % 0x1_0000_0000_0000_0000int) as u64; wmul_u64(r ^ sshr_u64(r, 32), 0xA18E4C689403AE2Du64) }
// draws at a state (the state already stepped)
pub open spec fn uni32(s: u64) -> f32 { s2_div::<f32, f32, f32>(s1_cast::<u32, f32>(out32(s)), s1_cast::<u32, f32>(u32::MAX)) }
pub open spec fn uni64(s: u128) -> f64 { s2_div::<f64, f64, f64>(s1_cast::<u64, f64>(out64(s)), s1_cast::<u64, f64>(u64::MAX)) }
pub open spec fn bm32(a: f32, b: f32) -> f32 { s2_mul::<f32, f32, f32>(s1_sqrt::<f32, f32>(s2_mul::<f32, f32, f32>(sfl_m2p0_f32(), s1_ln::<f32, f32>(a))), s1_cos::<f32, f32>(s2_mul::<f32, f32, f32>(sfl_cpTAU_f32(), b))) }
pub open spec fn bm64(a: f64, b: f64) -> f64 { s2_mul::<f64, f64, f64>(s1_sqrt::<f64, f64>(s2_mul::<f64, f64, f64>(sfl_m2p0_f64(), s1_ln::<f64, f64>(a))), s1_cos::<f64, f64>(s2_mul::<f64, f64, f64>(sfl_cpTAU_f64(), b))) }
#[verifier::opaque]
pub open spec fn norm32(s: u64) -> f32 { bm32(uni32(st32(s)), uni32(st32(st32(s)))) }
#[verifier::opaque]
pub open spec fn norm64(s: u128) -> f64 { bm64(uni64(st64(s)), uni64(st64(st64(s)))) }
// the state after k normal draws
pub open spec fn nst32(s: u64, k: int) -> u64 decreases k { if k <= 0 { s } else { st32(st32(nst32(s, k - 1))) } }
// IEEE 754: a / MAX lies in [0, 1]; the two axioms are discharged bit by bit in the SMT theory of floating point (contracts/ieee/unit32.smt2, unit64.smt2)
pub open spec fn unit32(x: f32) -> bool { s2_le::<f32, f32, bool>(sfl_0p0_f32(), x) && s2_le::<f32, f32, bool>(x, sfl_1p0_f32()) }
pub open spec fn unit64(x: f64) -> bool { s2_le::<f64, f64, bool>(sfl_0p0_f64(), x) && s2_le::<f64, f64, bool>(x, sfl_1p0_f64()) }
pub axiom fn axiom_unit32(a: u32) ensures unit32(s2_div::<f32, f32, f32>(s1_cast::<u32, f32>(a), s1_cast::<u32, f32>(u32::MAX)));
pub axiom fn axiom_unit64(a: u64) ensures unit64(s2_div::<f64, f64, f64>(s1_cast::<u64, f64>(a), s1_cast::<u64, f64>(u64::MAX)));
// a text seed folds its bytes into the state
pub open spec fn txt32(b: Seq<u8>) -> u64 decreases b.len() { if b.len() == 0 { 0 } else { wadd_u64(wadd_u64(wmul_u64(txt32(b.drop_last()), 0x4822581B885237D5u64), 0x6ED29E641A5F9CE5u64), b.last() as u64) } }
pub open spec fn txt64(b: Seq<u8>) -> u128 decreases b.len() { if b.len() == 0 { 0 } else { wadd_u128(wadd_u128(wmul_u128(txt64(b.drop_last()), 0xACAEAEFB4BF4A6A78B6E278B66409E7Du128), 0x351402A3544A25016AEE39FBBADBB38Du128), b.last() as u128) } }

@fn Rand32::next(self_) -> r
@prop C20
@pre reveal(st32);
@ens final(self_).0 == st32(old(self_).0);; r == out32(st32(old(self_).0))
@fn Rand32::next_uniform(self_) -> r
@prop C20
@ens final(self_).0 == st32(old(self_).0);; r == uni32(st32(old(self_).0));; unit32(r)
@pre axiom_unit32(out32(st32(old(self_).0)));
@fn Rand32::next_normal(self_) -> r
@prop C20
@ens final(self_).0 == st32(st32(old(self_).0));; r == norm32(old(self_).0)
@pre reveal(norm32);
@fn Rand64::next(self_) -> r
@prop C20
@pre reveal(st64);
@ens final(self_).0 == st64(old(self_).0);; r == out64(st64(old(self_).0))
@fn Rand64::next_uniform(self_) -> r
@prop C20
@ens final(self_).0 == st64(old(self_).0);; r == uni64(st64(old(self_).0));; unit64(r)
@pre axiom_unit64(out64(st64(old(self_).0)));
@fn Rand64::next_normal(self_) -> r
@prop C20
@ens final(self_).0 == st64(st64(old(self_).0));; r == norm64(old(self_).0)
@pre reveal(norm64);
@fn From<&str> for Rand32::from(value) -> r
@prop C20
@ens r.0 == txt32(s_bytes(value))
@loop 0
@inv seed == txt32(s_bytes(value).subrange(0, $i as int))
@start let b = s_bytes(value); assert(b.subrange(0, $x + 1).drop_last() =~= b.subrange(0, $x as int));
@after assert(s_bytes(value).subrange(0, $i as int) =~= s_bytes(value));
@fn From<&str> for Rand64::from(value) -> r
@prop C20
@ens r.0 == txt64(s_bytes(value))
@loop 0
@inv seed == txt64(s_bytes(value).subrange(0, $i as int))
@start let b = s_bytes(value); assert(b.subrange(0, $x + 1).drop_last() =~= b.subrange(0, $x as int));
@after assert(s_bytes(value).subrange(0, $i as int) =~= s_bytes(value));

// the process-wide source of unseeded generators: nothing is claimed about its values
@fn random::next_u64() -> r
@trusted thread-local source of seeds for unseeded generators; nothing is assumed about the value
@fn Normal::init(self_) -> r
@prop C20
@ens self_.seed.is_some() ==> r.0 == self_.seed.unwrap()

@template nb(F | S | M | D)
@fn %F% -> r
@prop C20
@ens r.seed == %S%;; r.mean == %M%;; r.std == %D%
@endtemplate
@use nb(Normal::mean(mean) | None::<u64> | mean | sfl_1p0_f32())
@use nb(Normal::std(std) | None::<u64> | sfl_0p0_f32() | std)
@use nb(Normal::seed(seed) | Some(seed) | sfl_0p0_f32() | sfl_1p0_f32())
@use nb(Normal::with_mean(self_, mean) | self_.seed | mean | self_.std)
@use nb(Normal::with_std(self_, std) | self_.seed | self_.mean | std)
@use nb(Normal::with_seed(self_, seed) | Some(seed) | self_.mean | self_.std)
@use nb(Default for Normal::default() | None::<u64> | sfl_0p0_f32() | sfl_1p0_f32())
@use nb(From<Option<u64>> for Normal::from(seed) | seed | sfl_0p0_f32() | sfl_1p0_f32())
@use nb(From<(f32,f32)> for Normal::from(ms) | None::<u64> | ms.0 | ms.1)

@spec
pub open spec fn rnd(o: Normal, e: Seq<f32>) -> bool {
    exists|s: u64| (o.seed.is_some() ==> s == o.seed.unwrap()) && #[trigger] drawn(o, s, e)
}
pub open spec fn drawn(o: Normal, s: u64, e: Seq<f32>) -> bool { forall|k: int| 0 <= k < e.len() ==> #[trigger] e[k] == s2_add::<f32, f32, f32>(o.mean, s2_mul::<f32, f32, f32>(norm32(nst32(s, k)), o.std)) }
@template rn(F)
@fn %F%(shape0, opt0) -> r
@prop C20
@ens r.shape == shape0;; rnd(opt0, r.e())
@endtemplate
@use rn(random::random_normal)
@inline
Tensor::init
map::init
@ghost s0: u64 = 0u64
@loop 0
@inv $s == 0;; $e == size;; __h.cap() == size;; rand.0 == nst32(s0, $i as int);; opt == opt0;; opt.seed.is_some() ==> s0 == opt.seed.unwrap();;
  forall|k: int| 0 <= k < $i ==> #[trigger] __h.has(k) && __h.at(k) == s2_add::<f32, f32, f32>(opt0.mean, s2_mul::<f32, f32, f32>(norm32(nst32(s0, k)), opt0.std))
@before s0 = rand.0;
@end let w = $x as int; assert forall|k: int| 0 <= k < $i implies #[trigger] __h.has(k) && __h.at(k) == s2_add::<f32, f32, f32>(opt0.mean, s2_mul::<f32, f32, f32>(norm32(nst32(s0, k)), opt0.std)) by { if k == w { assert(nst32(s0, k) == nst32(s0, w)); assert(__h.at(w) == s2_add::<f32, f32, f32>(opt0.mean, s2_mul::<f32, f32, f32>(norm32(nst32(s0, w)), opt0.std))); assert(__h.has(k)); } else { assert(__h.has(k)); assert(__h.at(k) == s2_add::<f32, f32, f32>(opt0.mean, s2_mul::<f32, f32, f32>(norm32(nst32(s0, k)), opt0.std))); } }
@fin assert forall|k: int| 0 <= k < __h.cap() implies #[trigger] __h.seq()[k] == s2_add::<f32, f32, f32>(opt0.mean, s2_mul::<f32, f32, f32>(norm32(nst32(s0, k)), opt0.std)) by { assert(__h.has(k)); } assert(drawn(opt0, s0, __h.seq()));
@use rn(Tensor<f32>::random_normal)

// uniform options; random_uniform shifts and scales the same draws
@fn Uniform::init(self_) -> r
@prop C20
@ens self_.seed.is_some() ==> r.0 == self_.seed.unwrap()
@template ub(F | S | M | D)
@fn %F% -> r
@prop C20
@ens r.seed == %S%;; r.min == %M%;; r.max == %D%
@endtemplate
@use ub(Uniform::min(min) | None::<u64> | min | sfl_1p0_f32())
@use ub(Uniform::max(max) | None::<u64> | sfl_0p0_f32() | max)
@use ub(Uniform::seed(seed) | Some(seed) | sfl_0p0_f32() | sfl_1p0_f32())
@use ub(Uniform::with_min(self_, min) | self_.seed | min | self_.max)
@use ub(Uniform::with_max(self_, max) | self_.seed | self_.min | max)
@use ub(Uniform::with_seed(self_, seed) | Some(seed) | self_.min | self_.max)
@use ub(Default for Uniform::default() | None::<u64> | sfl_0p0_f32() | sfl_1p0_f32())
@use ub(From<Option<u64>> for Uniform::from(seed) | seed | sfl_0p0_f32() | sfl_1p0_f32())
@use ub(From<(f32,f32)> for Uniform::from(ms) | None::<u64> | ms.0 | ms.1)
@spec
pub open spec fn uval(o: Uniform, s: u64, k: int) -> f32 { s2_add::<f32, f32, f32>(o.min, s2_mul::<f32, f32, f32>(norm32(nst32(s, k)), s2_max::<f32, f32, f32>(s2_sub::<f32, f32, f32>(o.max, o.min), sfl_0p0_f32()))) }
pub open spec fn udrawn(o: Uniform, s: u64, e: Seq<f32>) -> bool { forall|k: int| 0 <= k < e.len() ==> #[trigger] e[k] == uval(o, s, k) }
pub open spec fn urnd(o: Uniform, e: Seq<f32>) -> bool {
    exists|s: u64| (o.seed.is_some() ==> s == o.seed.unwrap()) && #[trigger] udrawn(o, s, e)
}
@template run(F)
@fn %F%(shape0, opt0) -> r
@prop C20
@ens r.shape == shape0;; urnd(opt0, r.e())
@endtemplate
@use run(random::random_uniform)
@inline
Tensor::init
map::init
@ghost s0: u64 = 0u64
@loop 0
@inv $s == 0;; $e == size;; __h.cap() == size;; rand.0 == nst32(s0, $i as int);; opt == opt0;; opt.seed.is_some() ==> s0 == opt.seed.unwrap();;
  forall|k: int| 0 <= k < $i ==> #[trigger] __h.has(k) && __h.at(k) == uval(opt0, s0, k)
@before s0 = rand.0;
@end let w = $x as int; assert forall|k: int| 0 <= k < $i implies #[trigger] __h.has(k) && __h.at(k) == uval(opt0, s0, k) by { if k == w { assert(nst32(s0, k) == nst32(s0, w)); assert(__h.at(w) == uval(opt0, s0, w)); assert(__h.has(k)); } else { assert(__h.has(k)); assert(__h.at(k) == uval(opt0, s0, k)); } }
@fin assert forall|k: int| 0 <= k < __h.cap() implies #[trigger] __h.seq()[k] == uval(opt0, s0, k) by { assert(__h.has(k)); } assert(udrawn(opt0, s0, __h.seq()));
@use run(Tensor<f32>::random_uniform)
