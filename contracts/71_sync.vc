@@root sync_sender=sync/sync_sender.rs
@@use crate::sync::mlog::MLog=crate::mlog::MLog
@@use crate::sync::sync::{ConfirmInfo, SyncServiceSyncClient, TSyncServiceSyncClient}=crate::syncing::{ConfirmInfo, SyncServiceSyncClient, TSyncServiceSyncClient}
@@use std::fs=crate::syncing::fs
@@drop sync_sender usepnet::datalink;
@@method trim_start_matches=verif_trim_start_matches
@@method to_string=verif_show
@@raw
/// what the sync sender uses, and what a receiver sees
pub mod syncing {
use vstd::prelude::*;
use vstd::string::*;
use crate::vspec::*;
use crate::writer::*;
/// an answered call, as the receiver saw it (with the code of its answer where it matters)
pub ghost enum Sent {
    Check,
    Start,
    Group(Seq<char>),
    Deleted(Seq<char>),
    Name(Seq<char>),
    Data(Seq<u8>),
    Digest(Seq<char>, i32),
    End,
}
/// the crate thrift (version 0.14.1) and the client generated by it
pub mod thrift {
    use vstd::prelude::*;
    #[verifier::external_body]
    pub struct Error { e: std::marker::PhantomData<u8> }
    pub type Result<T> = std::result::Result<T, Error>;
    #[verifier::external]
    impl std::fmt::Debug for Error {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() }
    }
    pub mod protocol {
        use vstd::prelude::*;
        pub trait TInputProtocol {}
        pub trait TOutputProtocol {}
        #[verifier::external_body]
        #[verifier::accept_recursive_types(T)]
        pub struct TBinaryInputProtocol<T> { t: std::marker::PhantomData<T> }
        #[verifier::external_body]
        #[verifier::accept_recursive_types(T)]
        pub struct TBinaryOutputProtocol<T> { t: std::marker::PhantomData<T> }
        impl<T> TInputProtocol for TBinaryInputProtocol<T> {}
        impl<T> TOutputProtocol for TBinaryOutputProtocol<T> {}
    }
    pub mod transport {
        use vstd::prelude::*;
        pub trait TIoChannel {}
        #[verifier::external_body]
        #[verifier::accept_recursive_types(T)]
        pub struct ReadHalf<T> { t: std::marker::PhantomData<T> }
        #[verifier::external_body]
        #[verifier::accept_recursive_types(T)]
        pub struct WriteHalf<T> { t: std::marker::PhantomData<T> }
        #[verifier::external_body]
        #[verifier::accept_recursive_types(T)]
        pub struct TFramedReadTransport<T> { t: std::marker::PhantomData<T> }
        #[verifier::external_body]
        #[verifier::accept_recursive_types(T)]
        pub struct TFramedWriteTransport<T> { t: std::marker::PhantomData<T> }
        #[verifier::external_body]
        pub struct TTcpChannel { t: std::marker::PhantomData<u8> }
    }
}
use self::thrift::protocol::{TInputProtocol, TOutputProtocol};
pub struct SyncStatus { pub code: i32, pub msg: String }
#[verifier::external_body]
pub struct ConfirmInfo { t: std::marker::PhantomData<u8> }
impl ConfirmInfo {
    #[verifier::external_body]
    pub fn new<F1, F2, F3, F4>(address: F1, uuid: F2, partition_interval: F3, version: F4) -> (r: ConfirmInfo)
    { unimplemented!() }
}
pub trait TSyncServiceSyncClient {}
#[verifier::external_body]
#[verifier::accept_recursive_types(IP)]
#[verifier::accept_recursive_types(OP)]
pub struct SyncServiceSyncClient<IP, OP> { i: std::marker::PhantomData<IP>, o: std::marker::PhantomData<OP> }
impl<IP, OP> View for SyncServiceSyncClient<IP, OP> { type V = Seq<Sent>; uninterp spec fn view(&self) -> Seq<Sent>; }
/// the calls block until the receiver has answered; after an error nothing is known
impl<IP: TInputProtocol, OP: TOutputProtocol> SyncServiceSyncClient<IP, OP> {
    #[verifier::external_body]
    pub fn check(&mut self, info: ConfirmInfo) -> (r: thrift::Result<SyncStatus>)
        ensures r is Ok ==> final(self)@ == old(self)@.push(Sent::Check)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn start_sync(&mut self) -> (r: thrift::Result<SyncStatus>)
        ensures r is Ok ==> final(self)@ == old(self)@.push(Sent::Start)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn init(&mut self, storage_group_name: String) -> (r: thrift::Result<SyncStatus>)
        ensures r is Ok ==> final(self)@ == old(self)@.push(Sent::Group(storage_group_name@))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn sync_deleted_file_name(&mut self, file_name: String) -> (r: thrift::Result<SyncStatus>)
        ensures r is Ok ==> final(self)@ == old(self)@.push(Sent::Deleted(file_name@))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn init_sync_data(&mut self, filename: String) -> (r: thrift::Result<SyncStatus>)
        ensures r is Ok ==> final(self)@ == old(self)@.push(Sent::Name(filename@))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn sync_data(&mut self, buff: Vec<u8>) -> (r: thrift::Result<SyncStatus>)
        ensures r is Ok ==> final(self)@ == old(self)@.push(Sent::Data(buff@))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn check_data_digest(&mut self, md5: String) -> (r: thrift::Result<SyncStatus>)
        ensures r is Ok ==> final(self)@ == old(self)@.push(Sent::Digest(md5@, r->Ok_0.code))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn end_sync(&mut self) -> (r: thrift::Result<SyncStatus>)
        ensures r is Ok ==> final(self)@ == old(self)@.push(Sent::End)
    { unimplemented!() }
}
/// bytes, however held
pub trait Bytes { spec fn held(&self) -> Seq<u8>; }
impl Bytes for [u8] { open spec fn held(&self) -> Seq<u8> { self@ } }
impl Bytes for Vec<u8> { open spec fn held(&self) -> Seq<u8> { self@ } }
impl<T: Bytes + ?Sized> Bytes for &T { open spec fn held(&self) -> Seq<u8> { (**self).held() } }
pub uninterp spec fn sha256(s: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn hex_of(s: Seq<u8>) -> Seq<char>;
/// the crate sha2
pub mod sha2 {
    use vstd::prelude::*;
    use crate::syncing::*;
    pub trait Digest {}
    #[verifier::external_body]
    pub struct Output { t: std::marker::PhantomData<u8> }
    impl View for Output { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
    impl Output {
        #[verifier::external_body]
        pub fn as_slice(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
    }
    impl Bytes for Output { open spec fn held(&self) -> Seq<u8> { self@ } }
    pub struct Sha256 {}
    impl Sha256 {
        #[verifier::external_body]
        pub fn digest<T: Bytes>(t: T) -> (r: Output) ensures r@ == sha256(t.held()) { unimplemented!() }
    }
}
/// the crate hex
pub mod hex {
    use vstd::prelude::*;
    use crate::syncing::*;
    #[verifier::external_body]
    pub fn encode<T: Bytes>(t: T) -> (r: String) ensures r@ == hex_of(t.held()) { unimplemented!() }
}
pub trait FileName { spec fn named(&self) -> Seq<char>; }
impl FileName for str { open spec fn named(&self) -> Seq<char> { self@ } }
impl FileName for String { open spec fn named(&self) -> Seq<char> { self@ } }
impl<T: FileName + ?Sized> FileName for &T { open spec fn named(&self) -> Seq<char> { (**self).named() } }
/// a read of the file gave these bytes
pub uninterp spec fn file_had(name: Seq<char>, b: Seq<u8>) -> bool;
/// std::fs
pub mod fs {
    use vstd::prelude::*;
    use crate::syncing::*;
    pub use std::fs::*;
    #[verifier::external_body]
    pub fn read<P: FileName>(path: P) -> (r: std::io::Result<Vec<u8>>)
        ensures r is Ok ==> file_had(path.named(), r->Ok_0@)
    { unimplemented!() }
}
pub open spec fn without_front(s: Seq<char>, c: char) -> Seq<char> decreases s.len() {
    if s.len() > 0 && s[0] == c { without_front(s.skip(1), c) } else { s }
}
pub trait Trim { fn verif_trim_start_matches(&self, c: char) -> (r: &str); }
impl Trim for str {
    /// std's str::trim_start_matches
    #[verifier::external_body]
    fn verif_trim_start_matches(&self, c: char) -> (r: &str) ensures r@ == without_front(self@, c) { self.trim_start_matches(c) }
}
impl Trim for String {
    #[verifier::external_body]
    fn verif_trim_start_matches(&self, c: char) -> (r: &str) ensures r@ == without_front(self@, c) { self.as_str().trim_start_matches(c) }
}
/// the receiver compares with BigInteger(1, sha256).toString(16)
pub open spec fn digest_of(s: Seq<u8>) -> Seq<char> { without_front(hex_of(sha256(s)), '0') }
pub open spec fn series_path(g: Seq<char>, d: Seq<char>, m: Seq<char>) -> Seq<char> { g + "."@ + d + "."@ + m }
/// the plans of one device's measurements `ms`
pub open spec fn device_plans(g: Seq<char>, d: Seq<char>, s: MeasurementGroup, ms: Seq<Seq<char>>) -> Seq<u8> decreases ms.len() {
    if ms.len() == 0 { Seq::empty() } else {
        let x = s.measurement_schemas@[ms.last()];
        device_plans(g, d, s, ms.drop_last()) + series_plan(series_path(g, d, ms.last()), x.data_type, x.encoding, x.compression)
    }
}
pub open spec fn schema_plans(g: Seq<char>, s: Schema, ds: Seq<Seq<char>>, ms: Seq<Seq<Seq<char>>>) -> Seq<u8> decreases ds.len() {
    if ds.len() == 0 { Seq::empty() } else {
        schema_plans(g, s, ds.drop_last(), ms.drop_last()) + device_plans(g, ds.last(), s.measurement_groups@[ds.last()], ms.last())
    }
}
/// the devices and each one's measurements, in some order
pub open spec fn arranged(s: Schema, ds: Seq<Seq<char>>, ms: Seq<Seq<Seq<char>>>) -> bool {
    &&& lists(ds, s.measurement_groups@.dom())
    &&& ms.len() == ds.len()
    &&& forall|i: int| 0 <= i < ds.len() ==> lists(#[trigger] ms[i], s.measurement_groups@[ds[i]].measurement_schemas@.dom())
}
/// the schema log: the storage group, then every series once
pub open spec fn is_log(g: Seq<char>, s: Schema, b: Seq<u8>) -> bool {
    exists|ds: Seq<Seq<char>>, ms: Seq<Seq<Seq<char>>>| arranged(s, ds, ms) && b == frame(group_plan(g)) + frame(#[trigger] schema_plans(g, s, ds, ms))
}
/// logs of 2 GB and more are out of scope
pub open spec fn log_fits(g: Seq<char>, s: Schema) -> bool {
    &&& group_plan(g).len() <= i32::MAX
    &&& forall|ds: Seq<Seq<char>>, ms: Seq<Seq<Seq<char>>>| arranged(s, ds, ms) ==> (#[trigger] schema_plans(g, s, ds, ms)).len() <= i32::MAX
    &&& forall|d: Seq<char>, m: Seq<char>| s.measurement_groups@.dom().contains(d) && s.measurement_groups@[d].measurement_schemas@.dom().contains(m)
            ==> str_ok(#[trigger] series_path(g, d, m))
}
/// the answer to a digest: anything but the error code
pub open spec fn confirmed(code: i32) -> bool { code != -1 }
pub open spec fn file_name(f: Seq<char>) -> Seq<char> { "0_0_"@ + f }
/// the calls added by a complete transfer
pub open spec fn transferred(a: Seq<Sent>, b: Seq<Sent>, g: Seq<char>, f: Seq<char>, s: Schema) -> bool {
    let n = a.len() as int;
    &&& b.len() == n + 9
    &&& forall|i: int| 0 <= i < n ==> b[i] == a[i]
    &&& b[n] == Sent::Start
    &&& b[n + 1] == Sent::Group(g)
    &&& b[n + 2] == Sent::Name("mlog.bin"@)
    &&& sent_file(b, n + 3)
    &&& is_log(g, s, b[n + 3]->Data_0)
    &&& b[n + 5] == Sent::Name(file_name(f))
    &&& sent_file(b, n + 6)
    &&& file_had(file_name(f), b[n + 6]->Data_0)
    &&& b[n + 8] == Sent::End
}
/// data, and its confirmed digest
pub open spec fn sent_file(b: Seq<Sent>, i: int) -> bool {
    &&& b[i] is Data
    &&& b[i + 1] is Digest
    &&& b[i + 1]->Digest_0 == digest_of(b[i]->Data_0)
    &&& confirmed(b[i + 1]->Digest_1)
}
}
@@module sync_sender
impl vstd::std_specs::convert::FromSpecImpl<thrift::Error> for SyncSenderError {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(e: thrift::Error) -> SyncSenderError { arbitrary() }
}
@@fn sync_sender::SyncSenderError as From<thrift::Error>::from
@@each S=SyncSender<TBinaryInputProtocol<TFramedReadTransport<ReadHalf<TTcpChannel>>>,TBinaryOutputProtocol<TFramedWriteTransport<WriteHalf<TTcpChannel>>>,>
@@fn sync_sender::$S::_connect
@@ret r
        ensures
            r is Ok ==> final(self).client@ == old(self).client@.push(Sent::Check),
@@fn sync_sender::$S::calculate_digest
@@ret r
        ensures
            r@ == digest_of(writer@),
@@fn sync_sender::$S::write_mlog
@@ret r
        requires
            log_fits(storage_group@, schema),
        ensures
            r is Ok,
            is_log(storage_group@, schema, r->Ok_0@),
@@entry
        let ghost mut verif_ms: Seq<Seq<Seq<char>>> = Seq::empty();
@@wrap 0 verif_vec
@@iter 0 it
@@loop 0
            invariant
                own_items(schema.measurement_groups@, it.seq()),
                kviews(it.seq()).take(it.seq().len() as int) =~= kviews(it.seq()),
                log_fits(storage_group@, schema),
                verif_ms.len() == it.index@,
                forall|i: int| 0 <= i < verif_ms.len() ==> lists(#[trigger] verif_ms[i], schema.measurement_groups@[kviews(it.seq())[i]].measurement_schemas@.dom()),
                m_log.bytes@ == schema_plans(storage_group@, schema, kviews(it.seq()).take(it.index@), verif_ms),
                mlog_buffer@ == frame(group_plan(storage_group@)),
            ensures
                exists|ds: Seq<Seq<char>>, ms: Seq<Seq<Seq<char>>>| arranged(schema, ds, ms) && m_log.bytes@ == #[trigger] schema_plans(storage_group@, schema, ds, ms),
@@in 0
            let ghost verif_p = m_log.bytes@;
            proof { assert(schema.measurement_groups@.dom().contains(it.seq()[it.index@].0.kv())); }
@@inend 0
            proof {
                let ks = kviews(it.seq());
                let o = verif_ms;
                let x = choose|x: Seq<Seq<char>>| lists(x, series.measurement_schemas@.dom()) && m_log.bytes@ == verif_p + #[trigger] device_plans(storage_group@, device_id@, series, x);
                verif_ms = o.push(x);
                assert(ks.take(it.index@ + 1).drop_last() =~= ks.take(it.index@));
                assert(verif_ms.drop_last() =~= o);
                assert(ks.take(it.index@ + 1).last() == device_id@);
                assert forall|i: int| 0 <= i < verif_ms.len() implies lists(#[trigger] verif_ms[i], schema.measurement_groups@[ks[i]].measurement_schemas@.dom()) by {
                    if i < o.len() { assert(verif_ms[i] == o[i]); }
                }
            }
@@wrap 1 verif_vec
@@iter 1 it2
@@loop 1
                invariant
                    own_items(series.measurement_schemas@, it2.seq()),
                    kviews(it2.seq()).take(it2.seq().len() as int) =~= kviews(it2.seq()),
                    schema.measurement_groups@.dom().contains(device_id@),
                    schema.measurement_groups@[device_id@] == series,
                    log_fits(storage_group@, schema),
                    m_log.bytes@ == verif_p + device_plans(storage_group@, device_id@, series, kviews(it2.seq()).take(it2.index@)),
                ensures
                    exists|x: Seq<Seq<char>>| lists(x, series.measurement_schemas@.dom()) && m_log.bytes@ == verif_p + #[trigger] device_plans(storage_group@, device_id@, series, x),
@@in 1
                proof {
                    let ks = kviews(it2.seq());
                    let e = it2.seq()[it2.index@];
                    assert(series.measurement_schemas@.dom().contains(e.0.kv()));
                    assert(ks.take(it2.index@ + 1).drop_last() =~= ks.take(it2.index@));
                    assert(str_ok(series_path(storage_group@, device_id@, e.0@)));
                }
@@fn sync_sender::$S::sync
@@ret r
        requires
            log_fits(storage_group@, schema),
        ensures
            r is Ok ==> transferred(old(self).client@, final(self).client@, storage_group@, filename@, schema),
@@end
@@module writer::errors
#[verifier::external]
impl std::fmt::Debug for TsFileError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() }
}
@@module sync_sender
#[verifier::external]
impl std::fmt::Debug for SyncSenderError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() }
}
