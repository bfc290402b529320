@spec
// little- and big-endian unsigned values at byte k
pub open spec fn le16(b: Seq<u8>, k: int) -> int { b[k] + 256 * b[k + 1] }
pub open spec fn le32(b: Seq<u8>, k: int) -> int { b[k] + 256 * b[k + 1] + 65536 * b[k + 2] + 16777216 * b[k + 3] }
pub open spec fn be32(b: Seq<u8>, k: int) -> int { 16777216 * b[k] + 65536 * b[k + 1] + 256 * b[k + 2] + b[k + 3] }
// the signed sample at byte k
pub open spec fn si16(b: Seq<u8>, k: int) -> int { if le16(b, k) >= 32768 { le16(b, k) - 65536 } else { le16(b, k) } }
pub open spec fn wav_frames(b: Seq<u8>) -> int { le32(b, 40) / 2 }
// a 16-bit PCM WAV byte string: RIFF, length, WAVE, fmt chunk of 16 bytes, data chunk that fits
pub open spec fn wav_ok(b: Seq<u8>) -> bool {
    44 <= b.len() && be32(b, 0) == 0x52494646 && le32(b, 4) == b.len() - 8 && be32(b, 8) == 0x57415645
    && be32(b, 12) == 0x666d7420 && le32(b, 16) == 16 && le16(b, 20) == 1 && le16(b, 34) == 16 && be32(b, 36) == 0x64617461
    && 44 + 2 * wav_frames(b) <= b.len() && le16(b, 22) != 0 && wav_frames(b) % le16(b, 22) == 0
}
pub open spec fn wav_sample(v: int) -> f32 { s2_div::<f32, f32, f32>(s1_cast::<i16, f32>(v as i16), sfl_32768p0_f32()) }

@fn decode_wav::decode_wav(data0) -> r
@prop C22
@valid wav_ok(data0.e())
@ens r.0.l() =~= seq![(wav_frames(data0.e()) / le16(data0.e(), 22)) as nat, le16(data0.e(), 22) as nat]
@ens r.0.e().len() == wav_frames(data0.e());; forall|k: int| 0 <= k < wav_frames(data0.e()) ==> #[trigger] r.0.e()[k] == wav_sample(si16(data0.e(), 44 + 2 * k))
@ens r.1.l().len() == 0;; r.1.e() =~= seq![le32(data0.e(), 24) as usize]
@call Tensor::from_vec
assert($0@.len() == wav_frames(data0.e())); assert($1.l() =~= seq![(wav_frames(data0.e()) / le16(data0.e(), 22)) as nat, le16(data0.e(), 22) as nat]); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(wav_frames(data0.e()), le16(data0.e(), 22)); lemma_p2((wav_frames(data0.e()) / le16(data0.e(), 22)) as nat, le16(data0.e(), 22) as nat);
@ret Tensor::from_vec
let __f = wav_frames(data0.e()); let __c = le16(data0.e(), 22); assert((__f / __c) * __c == __c * (__f / __c)) by (nonlinear_arith); assert(__f % __c == 0);
@loop 0
@inv cursor.index <= cursor.slice@.len();; cursor.slice@ == data0.e();; cursor.index == 44 + 2 * $i;; data@.len() == $i
@inv forall|k: int| 0 <= k < $i ==> #[trigger] data@[k] == wav_sample(si16(data0.e(), 44 + 2 * k))

@template cur(key | n | v)
@fn %key%(self_) -> r
@prop C22
@valid old(self_).index + %n% <= old(self_).slice@.len()
@ens r == %v%(old(self_).slice@, old(self_).index as int);; final(self_).index == old(self_).index + %n%;; final(self_).slice == old(self_).slice
@endtemplate
@fn Cursor::new(data) -> r
@prop C22
@ens r.slice == data;; r.index == 0
@fn Cursor::read(self_) -> r
@prop C22
@valid old(self_).index < old(self_).slice@.len()
@ens r == old(self_).slice@[old(self_).index as int];; final(self_).index == old(self_).index + 1;; final(self_).slice == old(self_).slice
@use cur(Cursor::read_i16_little | 2 | si16)
@use cur(Cursor::read_u16_little | 2 | le16)
@use cur(Cursor::read_u32_big | 4 | be32)
@use cur(Cursor::read_u32_little | 4 | le32)

@fn read_file::read_file(path) -> r
@prop C23
@valid path.e().len() > 0
@ens r.is_ok() <==> can_open(path.e()[0]) && can_read(path.e()[0])
@ens r matches Ok(t) ==> t.e() =~= file_bytes(path.e()[0]) && t.l() =~= seq![file_bytes(path.e()[0]).len()]
