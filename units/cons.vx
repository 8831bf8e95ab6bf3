//@ include prelude.vx
//@ flatten
// what the callback was called with, in order
pub struct VxSink { pub got: Ghost<Seq<Seq<u8>>> }
impl VxSink {
    #[verifier::external_body]
    pub fn call(&mut self, x: &[u8]) ensures final(self).got@ == old(self).got@.push(x@) { unimplemented!() }
}
pub open spec fn flat(s: Seq<Seq<u8>>) -> Seq<u8>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else { flat(s.drop_last()) + s.last() }
}
pub proof fn lemma_flat_push(s: Seq<Seq<u8>>, x: Seq<u8>)
    ensures flat(s.push(x)) == flat(s) + x,
{ assert(s.push(x).drop_last() =~= s); }
//@ subst & 'a mut dyn FnMut ( & [ u8 ] ) => &'a mut VxSink
//@ item @expanded mod protocol / mod console_output / ConsoleOutput
impl<'a> ConsoleOutput<'a> {
    // everything said so far: what the callback got, and what is still held back
    pub open spec fn said(&self) -> Seq<u8> { flat(self.callback.got@) + self.buf@ }
    // a piece handed to the callback is not empty
    pub open spec fn wf(&self) -> bool { forall|i: int| 0 <= i < self.callback.got@.len() ==> (#[trigger] self.callback.got@[i]).len() > 0 }
}
//@ impl @expanded mod protocol / mod console_output / ConsoleOutput<'a> ==> impl<'a> ConsoleOutput<'a>
//@ fn new
//@ ret r
//@ spec
    requires old(callback).got@ == Seq::<Seq<u8>>::empty(),
    ensures r.said() == Seq::<u8>::empty(), r.wf(), *r.callback == *old(callback), *final(r.callback) == *final(callback),
//@ at start
    proof { assert(flat(callback.got@) + Seq::<u8>::empty() =~= Seq::<u8>::empty()); }
//@ end
//@ fn write_raw
//@ subst ( self . callback ) ( => self . callback . call (
//@ spec
    ensures final(self).said() == old(self).said() + bytes@, old(self).wf() ==> final(self).wf(), *final(final(self).callback) == *final(old(self).callback),
//@ at end
    proof { assert(self.said() =~= old(self).said() + bytes@); }
//@ end
//@ fn flush
//@ subst ( self . callback ) ( => self . callback . call (
//@ spec
    ensures final(self).said() == old(self).said(), final(self).buf@.len() == 0, flat(final(self).callback.got@) == old(self).said(), old(self).wf() ==> final(self).wf(), *final(final(self).callback) == *final(old(self).callback),
//@ at start
    proof { lemma_flat_push(self.callback.got@, self.buf@); assert forall|a: Seq<u8>, b: Seq<u8>| b.len() == 0 implies #[trigger] (a + b) == a by { assert(a + b =~= a); } }
//@ end
//@ endimpl
//@ impl @expanded mod protocol / mod console_output / Drop for ConsoleOutput<'_> ==> impl<'a> ConsoleOutput<'a>
//@ fn drop
//@ opt rename=vx_drop
//@ spec
    ensures flat(final(self).callback.got@) == old(self).said(), old(self).wf() ==> final(self).wf(), *final(final(self).callback) == *final(old(self).callback),
//@ end
//@ endimpl
//@ impl @expanded mod protocol / mod console_output / fmt::Write for ConsoleOutput<'_> ==> impl<'a> ConsoleOutput<'a>
//@ fn write_str
//@ ret r
//@ subst fmt :: Result => Result<(), ()>
//@ spec
    ensures r is Ok, final(self).said() == old(self).said() + s.spec_bytes(), old(self).wf() ==> final(self).wf(), *final(final(self).callback) == *final(old(self).callback),
//@ end
//@ endimpl
