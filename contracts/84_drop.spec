@fn Drop for TensorData<T>::drop(self_) -> r
@prop C28
@req old(self_).wf()
@owns self_.data
@fn data::unsafe_init(len, shape0, init) -> r
@prop C28
@heap T len
@req forall|h: OutBuf<T>| #[trigger] $F(init)::rel(*old(init), len as nat, h) && h.cap() == len ==> h.full()
@valid shape0.n() == len
@treq layok::<T>(len)
@ens r.shape == shape0;; exists|h: OutBuf<T>| #[trigger] $F(init)::rel(*old(init), len as nat, h) && h.cap() == len && r.e() == h.seq()
