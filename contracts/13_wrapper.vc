@@module writer
/// what went through the wrapper: the last `position` bytes the sink has accepted
impl<T: Write> WriteSpecImpl for WriteWrapper<T> {
    open spec fn out(&self) -> Seq<u8> { WriteSpec::out(&self.writer).skip(WriteSpec::out(&self.writer).len() - self.position) }
    open spec fn failed(&self) -> bool { WriteSpec::failed(&self.writer) }
    open spec fn wf(&self) -> bool { WriteSpec::wf(&self.writer) && self.position <= WriteSpec::out(&self.writer).len() <= i64::MAX }
    open spec fn whole(&self) -> bool { WriteSpec::whole(&self.writer) }
    open spec fn id(&self) -> int { WriteSpec::id(&self.writer) }
}
@@fn writer::WriteWrapper<T>::new
@@ret r
    requires
        WriteSpec::wf(&writer),
        WriteSpec::out(&writer).len() <= i64::MAX,
    ensures
        WriteSpec::wf(&r),
        WriteSpec::out(&r) =~= Seq::<u8>::empty(),
        WriteSpec::failed(&r) == WriteSpec::failed(&writer),
        WriteSpec::whole(&r) == WriteSpec::whole(&writer),
        WriteSpec::id(&r) == WriteSpec::id(&writer),
        r.writer == writer,
@@fn writer::WriteWrapper<T> as Write::write
@@ret r
@@fn writer::WriteWrapper<T> as Write::flush
@@ret r
@@fn writer::WriteWrapper<T> as PositionedWrite::get_position
@@ret r
@@fn writer::Vec<u8> as PositionedWrite::get_position
@@ret r
@@entry
    proof { axiom_vec_bytes(self); }
