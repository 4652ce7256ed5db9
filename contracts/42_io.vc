@@raw
/// the file: chunk groups
pub mod files {
use vstd::prelude::*;
use crate::vspec::*;
use crate::writer::*;
use crate::writer::statistics::Statistics;
use crate::writer::chunk_writer::{ChunkHeader, ChunkMetadata, ChunkWriter};
use crate::writer::tsfile_io_writer::TsFileIoWriter;
/// a chunk group of the file
pub struct Group { pub device: Seq<char>, pub chunks: Seq<Chunk> }
pub open spec fn magic() -> Seq<u8> { seq![84u8, 115u8, 70u8, 105u8, 108u8, 101u8] }
pub open spec fn chunks_ser(s: Seq<Chunk>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { chunks_ser(s.drop_last()) + chunk_ser(s.last()) }
}
/// marker 0, device, chunks
pub open spec fn group_ser(g: Group) -> Seq<u8> { seq![0u8] + str_ser(g.device) + chunks_ser(g.chunks) }
pub open spec fn groups_ser(s: Seq<Group>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { groups_ser(s.drop_last()) + group_ser(s.last()) }
}
pub proof fn lemma_magic()
    ensures sbytes("TsFile"@) =~= magic()
{
    reveal_strlit("TsFile");
    reveal_with_fuel(vstd::utf8::encode_utf8, 7);
    assert forall|x: u8| x < 128 implies #[trigger] (x & 127) == x by { assert(x < 128 ==> (x & 127) == x) by (bit_vector); }
    assert("TsFile"@ =~= seq!['T', 's', 'F', 'i', 'l', 'e']);
    assert(vstd::utf8::encode_utf8(seq!['T','s','F','i','l','e']) =~= seq![84u8, 115u8, 70u8, 105u8, 108u8, 101u8]) by (compute);
}
/// all but the metadata
pub open spec fn file_body(s: Seq<Group>) -> Seq<u8> { magic() + seq![3u8] + groups_ser(s) }
pub open spec fn chunk_ok(c: Chunk) -> bool {
    &&& c.pages.len() > 0
    &&& kind_of(c.data_type, c.encoding) is Some
    &&& pages_ok(c.pages, c.data_type, kind_of(c.data_type, c.encoding)->Some_0)
    &&& str_ok(c.name)
}
/// `m` describes the chunk `c`, which is in `out` where it says
pub open spec fn placed(m: ChunkMetadata, out: Seq<u8>, c: Chunk) -> bool {
    &&& m.measurement_id@ == c.name
    &&& m.data_type == c.data_type
    &&& m.mask == 0
    &&& m.statistics == chunk_stat(c.data_type, c.pages)
    &&& stat_type(m.statistics) == c.data_type
    &&& stat_ok(m.statistics)
    &&& at(out, m.offset_of_chunk_header as int, chunk_ser(c))
    &&& chunk_ok(c)
}
/// the bytes `s` are in `out` at `p`
pub open spec fn at(out: Seq<u8>, p: int, s: Seq<u8>) -> bool {
    0 <= p && p + s.len() <= out.len() && out.subrange(p, p + s.len()) == s
}
pub proof fn lemma_at(a: Seq<u8>, b: Seq<u8>, p: int, s: Seq<u8>)
    requires at(a, p, s)
    ensures at(a + b, p, s)
{ assert((a + b).subrange(p, p + s.len()) =~= s); }
pub open spec fn all_placed(ms: Seq<ChunkMetadata>, out: Seq<u8>, cs: Seq<Chunk>) -> bool {
    ms.len() == cs.len() && forall|i: int| 0 <= i < ms.len() ==> placed(#[trigger] ms[i], out, cs[i])
}
pub proof fn lemma_all_placed(ms: Seq<ChunkMetadata>, a: Seq<u8>, b: Seq<u8>, cs: Seq<Chunk>)
    requires all_placed(ms, a, cs)
    ensures all_placed(ms, a + b, cs)
{
    assert forall|i: int| 0 <= i < ms.len() implies placed(#[trigger] ms[i], a + b, cs[i]) by {
        lemma_at(a, b, ms[i].offset_of_chunk_header as int, chunk_ser(cs[i]));
    }
}
/// the groups that have chunks
pub open spec fn full(s: Seq<Group>) -> Seq<Group> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else if s.last().chunks.len() > 0 { full(s.drop_last()).push(s.last()) } else { full(s.drop_last()) }
}
pub open spec fn group_placed(m: ChunkGroupMetadata, out: Seq<u8>, g: Group) -> bool {
    m.device_id@ == g.device && all_placed(m.chunk_metadata@, out, g.chunks)
}
pub open spec fn groups_placed(ms: Seq<ChunkGroupMetadata>, out: Seq<u8>, gs: Seq<Group>) -> bool {
    ms.len() == gs.len() && forall|i: int| 0 <= i < ms.len() ==> group_placed(#[trigger] ms[i], out, gs[i])
}
pub proof fn lemma_groups_placed(ms: Seq<ChunkGroupMetadata>, a: Seq<u8>, b: Seq<u8>, gs: Seq<Group>)
    requires groups_placed(ms, a, gs)
    ensures groups_placed(ms, a + b, gs)
{
    assert forall|i: int| 0 <= i < ms.len() implies group_placed(#[trigger] ms[i], a + b, gs[i]) by {
        lemma_all_placed(ms[i].chunk_metadata@, a, b, gs[i].chunks);
    }
}
/// the groups before the one that is being written
pub open spec fn closed_groups<'a, T: PositionedWrite>(w: TsFileIoWriter<'a, T>) -> Seq<Group> {
    if w.current_chunk_group_device_id is Some { w.groups@.drop_last() } else { w.groups@ }
}
/// as long as the sink has not failed: what has been written, and that it is accounted for
pub open spec fn io_ok<'a, T: PositionedWrite>(w: TsFileIoWriter<'a, T>) -> bool {
    &&& WriteSpec::wf(&w.out)
    &&& WriteSpec::out(&w.out) == file_body(w.groups@)
    &&& w.timeseries_metadata_map@ == Map::<Seq<char>, Vec<Box<TimeSeriesMetadata>>>::empty()
    &&& w.current_chunk_metadata is None
    &&& w.current_chunk_group_device_id is Some ==> w.groups@.len() > 0 && w.groups@.last().device == w.current_chunk_group_device_id->Some_0@
            && all_placed(w.chunk_metadata_list@, WriteSpec::out(&w.out), w.groups@.last().chunks)
    &&& w.current_chunk_group_device_id is None ==> w.chunk_metadata_list@.len() == 0
    &&& groups_placed(w.chunk_group_metadata_list@, WriteSpec::out(&w.out), full(closed_groups(w)))
    &&& forall|i: int| 0 <= i < w.groups@.len() ==> str_ok((#[trigger] w.groups@[i]).device)
}
/// nothing but the sink and the accounting changes
pub open spec fn io_like<'a, T: PositionedWrite>(a: TsFileIoWriter<'a, T>, b: TsFileIoWriter<'a, T>) -> bool {
    &&& a.config == b.config
    &&& a.timeseries_metadata_map == b.timeseries_metadata_map
    &&& WriteSpec::wf(&b.out)
    &&& WriteSpec::whole(&a.out) == WriteSpec::whole(&b.out)
    &&& WriteSpec::id(&a.out) == WriteSpec::id(&b.out)
}
/// after an operation on the file that reports `ok`
pub open spec fn io_done<'a, T: PositionedWrite>(a: TsFileIoWriter<'a, T>, b: TsFileIoWriter<'a, T>, ok: bool) -> bool {
    &&& io_like(a, b)
    &&& ok ==> WriteSpec::failed(&b.out) == WriteSpec::failed(&a.out) && io_ok(b)
    &&& !ok ==> WriteSpec::failed(&b.out)
}
/// the points of a chunk are added to the last group
pub open spec fn flushed(a: Seq<Group>, b: Seq<Group>, w: ChunkWriter) -> bool {
    if cw_pts(w).len() == 0 { b == a } else {
        exists|c: Chunk| #[trigger] add_chunk(a, c) == b && holds(c, w) && chunk_ok(c)
    }
}
pub open spec fn holds(c: Chunk, w: ChunkWriter) -> bool {
    &&& c.name == w.measurement_id@
    &&& c.data_type == w.data_type
    &&& c.compression == w.compression_type
    &&& c.encoding == w.encoding
    &&& pages_pts(c.pages) == cw_pts(w)
}
/// one more chunk in the last group
pub open spec fn add_chunk(s: Seq<Group>, c: Chunk) -> Seq<Group> {
    s.drop_last().push(Group { device: s.last().device, chunks: s.last().chunks.push(c) })
}
pub proof fn lemma_add_chunk(s: Seq<Group>, c: Chunk)
    requires s.len() > 0
    ensures
        file_body(add_chunk(s, c)) =~= file_body(s) + chunk_ser(c),
        add_chunk(s, c).drop_last() =~= s.drop_last(),
        add_chunk(s, c).last().chunks == s.last().chunks.push(c),
        add_chunk(s, c).last().device == s.last().device,
        add_chunk(s, c).len() == s.len(),
{
    let n = add_chunk(s, c);
    assert(n.drop_last() =~= s.drop_last());
    assert(s.last().chunks.push(c).drop_last() =~= s.last().chunks);
    assert(group_ser(n.last()) =~= group_ser(s.last()) + chunk_ser(c));
}
pub proof fn lemma_new_group(s: Seq<Group>, d: Seq<char>)
    ensures
        file_body(s.push(Group { device: d, chunks: Seq::empty() })) =~= file_body(s) + (seq![0u8] + str_ser(d)),
        s.push(Group { device: d, chunks: Seq::empty() }).drop_last() =~= s,
{
    let g = Group { device: d, chunks: Seq::empty() };
    assert(s.push(g).drop_last() =~= s);
    assert(group_ser(g) =~= seq![0u8] + str_ser(d));
}
}
@@fn writer::chunk_writer::ChunkHeader::new
@@ret r
        ensures
            r == (ChunkHeader { measurement_id, data_size, data_type, compression, encoding, num_pages, mask }),
@@fn writer::chunk_writer::ChunkHeader::serialize
@@ret r
        requires
            (*old(file_writer)).wf(),
            str_ok(self.measurement_id@),
            self.mask == 0,
        ensures
            wrote(*old(file_writer), *final(file_writer), r is Ok,
                seq![if self.num_pages <= 1 { 5u8 } else { 1u8 }] + str_ser(self.measurement_id@) + uvar(self.data_size as nat)
                    + seq![type_code(self.data_type), compression_code(self.compression), encoding_code(self.encoding)]),
@@entry
        assert(5u8 | 0u8 == 5u8 && 1u8 | 0u8 == 1u8) by (bit_vector);
@@fn writer::chunk_writer::ChunkMetadata::new
@@ret r
        ensures
            r.measurement_id == measurement_id,
            r.data_type == data_type,
            r.mask == mask,
            position <= i64::MAX ==> r.offset_of_chunk_header == position,
            r.statistics == statistics,
@@fn writer::chunk_writer::ChunkMetadata::serialize
@@ret r
        requires
            (*old(file)).wf(),
        ensures
            (*final(file)).failed() || wrote(*old(file), *final(file), r is Ok, be_i64(self.offset_of_chunk_header) + (if serialize_statistics { stat_ser(self.statistics) } else { Seq::empty() })),
@@fields writer::tsfile_io_writer::TsFileIoWriter
    pub groups: Ghost<Seq<crate::vspec::Group>>,
@@init TsFileIoWriter
 groups: Ghost(Seq::empty())
@@fn writer::ChunkGroupMetadata::new
@@ret r
        ensures r.device_id == device_id, r.chunk_metadata == chunk_metadata,
@@fn writer::tsfile_io_writer::TsFileIoWriter<'a,T>::start_file
@@ret r
        requires
            WriteSpec::wf(&old(self).out),
        ensures
            wrote(old(self).out, final(self).out, r is Ok, magic() + seq![3u8]),
            *final(self) == (TsFileIoWriter { out: final(self).out, ..*old(self) }),
@@entry
        proof { lemma_magic(); }
@@fn writer::tsfile_io_writer::TsFileIoWriter<'a,T>::new
@@ret r
        requires
            WriteSpec::wf(&writer),
            WriteSpec::out(&writer).len() == 0,
        ensures
            r is Ok ==> io_ok(r->Ok_0) && r->Ok_0.groups@ == Seq::<Group>::empty() && r->Ok_0.config == config
                && WriteSpec::failed(&r->Ok_0.out) == WriteSpec::failed(&writer) && WriteSpec::whole(&r->Ok_0.out) == WriteSpec::whole(&writer) && WriteSpec::id(&r->Ok_0.out) == WriteSpec::id(&writer)
                && r->Ok_0.timeseries_metadata_map@ == Map::<Seq<char>, _>::empty(),
            r is Err ==> io_fails(),
@@entry
        broadcast use axiom_io_fails;
@@fn writer::tsfile_io_writer::TsFileIoWriter<'a,T>::start_chunk_group
@@ret r
        requires
            io_ok(*old(self)),
            old(self).current_chunk_group_device_id is Some ==> old(self).chunk_metadata_list@.len() == 0,
            str_ok(device_id@),
        ensures
            io_done(*old(self), *final(self), r is Ok),
            r is Ok ==> final(self).groups@ == old(self).groups@.push(Group { device: device_id@, chunks: Seq::empty() })
                && final(self).current_chunk_group_device_id == Some(device_id),
@@exit
        proof {
            let g = self.groups@;
            lemma_new_group(g, device_id@);
            lemma_groups_placed(self.chunk_group_metadata_list@, WriteSpec::out(&old(self).out), seq![0u8] + str_ser(device_id@), full(closed_groups(*old(self))));
            self.groups@ = g.push(Group { device: device_id@, chunks: Seq::empty() });
        }
@@replace? writer::tsfile_io_writer::TsFileIoWriter<'a,T>::end_chunk_group
device_id.into()
=>
device_id.to_owned()
@@fn writer::tsfile_io_writer::TsFileIoWriter<'a,T>::end_chunk_group
@@ret r
        requires
            io_ok(*old(self)),
        ensures
            io_done(*old(self), *final(self), r is Ok),
            final(self).groups@ == old(self).groups@,
            r is Ok ==> final(self).chunk_metadata_list@.len() == 0,
@@fn writer::tsfile_io_writer::TsFileIoWriter<'a,T>::end_current_chunk
        requires
            old(self).current_chunk_metadata is Some,
        ensures
            *final(self) == (TsFileIoWriter { chunk_metadata_list: final(self).chunk_metadata_list, current_chunk_metadata: None, ..*old(self) }),
            final(self).chunk_metadata_list@ == old(self).chunk_metadata_list@.push(old(self).current_chunk_metadata->Some_0),
@@fn writer::tsfile_io_writer::TsFileIoWriter<'a,T>::start_flush_chunk
@@ret r
        requires
            WriteSpec::wf(&old(self).out),
            str_ok(measurement_id@),
            mask == 0,
        ensures
            wrote(old(self).out, final(self).out, r is Ok,
                seq![if num_pages <= 1 { 5u8 } else { 1u8 }] + str_ser(measurement_id@) + uvar(data_size as nat)
                    + seq![type_code(data_type), compression_code(compression), encoding_code(encoding)]),
            *final(self) == (TsFileIoWriter { out: final(self).out, current_chunk_metadata: final(self).current_chunk_metadata, ..*old(self) }),
            final(self).current_chunk_metadata is Some,
            final(self).current_chunk_metadata->Some_0 == (crate::writer::chunk_writer::ChunkMetadata {
                measurement_id: final(self).current_chunk_metadata->Some_0.measurement_id,
                offset_of_chunk_header: WriteSpec::out(&old(self).out).len() as i64,
                data_type, mask, statistics }),
            final(self).current_chunk_metadata->Some_0.measurement_id@ == measurement_id@,
@@fn writer::chunk_writer::ChunkWriter::write_all_pages_of_chunk_to_ts_file
@@ret r
        requires
            cw_ok(*self),
            str_ok(self.measurement_id@),
            self.page_buffer@.len() <= u32::MAX,
            *statistics == self.statistics,
            io_ok(*old(file_writer)),
            old(file_writer).current_chunk_group_device_id is Some,
        ensures
            io_done(*old(file_writer), *final(file_writer), r is Ok),
            final(file_writer).current_chunk_group_device_id == old(file_writer).current_chunk_group_device_id,
            r is Ok ==> final(file_writer).groups@ == (if self.pages@.len() == 0 { old(file_writer).groups@ } else { add_chunk(old(file_writer).groups@, chunk_of(*self)) }),
@@entry
        hide(page_ok);
        hide(chunk_data);
        hide(chunk_stat);
        hide(pages_pts);
        proof { lemma_pages(self.pages@, self.data_type, cw_kind(*self)); }
@@exit
        proof {
            let g = old(file_writer).groups@;
            let c = chunk_of(*self);
            let o = WriteSpec::out(&old(file_writer).out);
            lemma_add_chunk(g, c);
            assert(WriteSpec::out(&file_writer.out) =~= o + chunk_ser(c));
            lemma_groups_placed(file_writer.chunk_group_metadata_list@, o, chunk_ser(c), full(g.drop_last()));
            lemma_all_placed(old(file_writer).chunk_metadata_list@, o, chunk_ser(c), g.last().chunks);
            file_writer.groups@ = add_chunk(g, c);
            assert((o + chunk_ser(c)).subrange(o.len() as int, (o.len() + chunk_ser(c).len()) as int) =~= chunk_ser(c));
        }
@@fn writer::chunk_writer::ChunkWriter::write_to_file_writer
@@ret r
        requires
            cw_ok(*old(self)),
            str_ok(old(self).measurement_id@),
            old(self).page_buffer@.len() <= 0x2000_0000,
            cur_pts(*old(self)).len() <= 0x0080_0000,
            old(self).page_buffer@.len() + 300 * cur_pts(*old(self)).len() <= u32::MAX,
            cw_pts(*old(self)).len() < u32::MAX,
            io_ok(*old(file_writer)),
            old(file_writer).current_chunk_group_device_id is Some,
        ensures
            io_done(*old(file_writer), *final(file_writer), r is Ok),
            final(file_writer).current_chunk_group_device_id == old(file_writer).current_chunk_group_device_id,
            r is Ok ==> flushed(old(file_writer).groups@, final(file_writer).groups@, *old(self)),
            r is Ok && cur_pts(*old(self)).len() == 0 ==> final(file_writer).groups@ == (if old(self).pages@.len() == 0 { old(file_writer).groups@ } else { add_chunk(old(file_writer).groups@, chunk_of(*old(self))) }),
