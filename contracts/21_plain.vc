@@fields writer::encoding::plain::PlainEncoder
    pub written: Ghost<Seq<IoTDBValue>>,
@@init writer::encoding::plain::PlainEncoder
 written: Ghost(Seq::empty())
@@fn writer::encoding::plain::PlainEncoder::new
@@ret r
    ensures
        r.ok(),
        r.vals() =~= Seq::empty(),
        r.kind() is Plain,
@@impl writer::encoding::plain::PlainEncoder as Encoder
    open spec fn vals(&self) -> Seq<IoTDBValue> { self.written@ }
    open spec fn kind(&self) -> Kind { Kind::Plain }
    open spec fn ok(&self) -> bool { self.buffer@ =~= plain_vals(self.written@) && self.buffer@.len() <= 32 * self.written@.len() }
@@fn writer::encoding::plain::PlainEncoder as Encoder::write
@@ret r
@@entry
        proof { self.written@ = self.written@.push(*value); assert(self.written@.drop_last() =~= old(self).written@);
            broadcast use be_len;
            if let IoTDBValue::INT(v) = *value { crate::writer::utils::lemma_uvar_len(zig(v)); }
            assert(plain_val(*value).len() <= 8);
        }
@@fn writer::encoding::plain::PlainEncoder as Encoder::size
@@fn writer::encoding::plain::PlainEncoder as Encoder::get_max_byte_size
@@fn writer::encoding::plain::PlainEncoder as Encoder::serialize
@@exit
        proof { assert(appended(old(buffer)@, final(buffer)@) =~= self.buffer@); }
@@fn writer::encoding::plain::PlainEncoder as Encoder::reset
@@entry
        proof { self.written@ = Seq::empty(); }
