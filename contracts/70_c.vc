@@root cffi=../../tsfile-writer-c/src/lib.rs
@@use libc::c_char=crate::capi::c_char
@@use std::ffi::CStr=crate::capi::CStr
@@use tsfile_writer::writer=crate::writer
@@raw
/// what a C caller sees: the objects behind the pointers it holds
pub mod capi {
use crate::schemas::simple_schema;
use vstd::prelude::*;
use crate::vspec::*;
use crate::writer::*;
use crate::writer::tsfile_writer::TsFileWriter;
use crate::writer::ts_file_config::TsFileConfig;
use crate::writer::encoding::TSEncoding;
use crate::writer::compression::CompressionType;
use crate::writer::errors::TsFileError;
use std::fs::File;
pub type c_char = i8;
pub type FileWriter = TsFileWriter<'static, WriteWrapper<File>>;
/// the objects that have been handed out and not been given back, and the files completed so far
pub tracked struct Heap {
    pub ghost schemas: Map<*mut Schema<'static>, Schema<'static>>,
    pub ghost writers: Map<*mut FileWriter, FileWriter>,
    pub ghost files: Map<int, Seq<u8>>,
}
pub open spec fn heap_is(h: Heap, s: Map<*mut Schema<'static>, Schema<'static>>, w: Map<*mut FileWriter, FileWriter>, f: Map<int, Seq<u8>>) -> bool {
    h.schemas =~= s && h.writers =~= w && h.files =~= f
}
/// a type whose objects are handed out
pub trait Kept: Sized {
    spec fn live(h: Heap) -> Map<*mut Self, Self>;
    /// `b` is `a` with these objects
    spec fn put(a: Heap, m: Map<*mut Self, Self>) -> Heap;
}
impl<'a> Kept for Schema<'a> {
    open spec fn live(h: Heap) -> Map<*mut Self, Self> { h.schemas }
    open spec fn put(a: Heap, m: Map<*mut Self, Self>) -> Heap { Heap { schemas: m, ..a } }
}
impl<'a> Kept for TsFileWriter<'a, WriteWrapper<File>> {
    open spec fn live(h: Heap) -> Map<*mut Self, Self> { h.writers }
    open spec fn put(a: Heap, m: Map<*mut Self, Self>) -> Heap { Heap { writers: m, ..a } }
}
/// std's Box, which knows where it is
pub struct Bx<T> { pub v: std::boxed::Box<T>, pub at: Ghost<*mut T> }
impl<T> Bx<T> {
    #[verifier::external_body]
    pub fn new(x: T) -> (r: Bx<T>) ensures *r.v == x { unimplemented!() }
}
impl<T: Clone> Bx<T> {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: std::boxed::Box<T>) ensures vstd::pervasive::cloned(*self.v, *r) { unimplemented!() }
}
impl<T> std::ops::Deref for Bx<T> {
    type Target = T;
    fn deref(&self) -> (r: &T) ensures *r == *self.v { &self.v }
}
impl<T> std::ops::DerefMut for Bx<T> {
    fn deref_mut(&mut self) -> (r: &mut T) ensures *r == *old(self).v, *final(r) == *final(self).v, final(self).at == old(self).at { &mut self.v }
}
pub uninterp spec fn null<T>(p: *const T) -> bool;
pub uninterp spec fn nil<T>(p: *mut T) -> bool;
#[verifier::external_body]
pub fn verif_from_raw<T: Kept>(p: *mut T, Tracked(h): Tracked<&mut Heap>) -> (r: Bx<T>)
    requires T::live(*old(h)).dom().contains(p)
    ensures *final(h) == T::put(*old(h), T::live(*old(h)).remove(p)), *r.v == T::live(*old(h))[p], r.at@ == p
{ unimplemented!() }
#[verifier::external_body]
pub fn verif_into_raw<T: Kept>(b: Bx<T>, Tracked(h): Tracked<&mut Heap>) -> (r: *mut T)
    ensures
        !nil(r), !T::live(*old(h)).dom().contains(r), r == b.at@,
        *final(h) == T::put(*old(h), T::live(*old(h)).insert(r, *b.v)),
{ unimplemented!() }
#[verifier::external_body]
pub fn verif_leak<T: Kept>(b: Bx<T>, Tracked(h): Tracked<&mut Heap>)
    ensures
        !nil(b.at@), !T::live(*old(h)).dom().contains(b.at@),
        *final(h) == T::put(*old(h), T::live(*old(h)).insert(b.at@, *b.v)),
{ unimplemented!() }
/// a panic in a function that C calls ends the process
#[verifier::external_body]
pub fn verif_abort(Ghost(excuse): Ghost<bool>) -> ! requires excuse || io_fails() ensures false { std::process::abort() }
/// an error that is no fault of the wrapper
pub trait Fault: Sized { spec fn excused(self) -> bool; }
impl Fault for TsFileError { open spec fn excused(self) -> bool { io_fails() } }
impl Fault for std::io::Error { open spec fn excused(self) -> bool { io_fails() } }
impl Fault for Utf8Error { open spec fn excused(self) -> bool { false } }
impl Fault for () { open spec fn excused(self) -> bool { false } }
pub trait OrAbort: Sized {
    type Out;
    spec fn good(self) -> bool;
    spec fn value(self) -> Self::Out;
    /// the process may end here
    spec fn may_abort(self) -> bool;
    fn verif_or_abort(self, Ghost(excuse): Ghost<bool>) -> (r: Self::Out)
        requires self.good() || self.may_abort() || excuse
        ensures self.good(), r == self.value();
}
impl<T, E: Fault> OrAbort for Result<T, E> {
    open spec fn may_abort(self) -> bool { self->Err_0.excused() }
    type Out = T;
    open spec fn good(self) -> bool { self is Ok }
    open spec fn value(self) -> T { self->Ok_0 }
    fn verif_or_abort(self, Ghost(excuse): Ghost<bool>) -> (r: T) { let ghost x = excuse || self.may_abort(); match self { Ok(y) => y, Err(_) => verif_abort(Ghost(x)) } }
}
impl<T> OrAbort for Option<T> {
    open spec fn may_abort(self) -> bool { false }
    type Out = T;
    open spec fn good(self) -> bool { self is Some }
    open spec fn value(self) -> T { self->Some_0 }
    fn verif_or_abort(self, Ghost(excuse): Ghost<bool>) -> (r: T) { let ghost x = excuse || self.may_abort(); match self { Some(y) => y, None => verif_abort(Ghost(x)) } }
}
/// a code that has a meaning
pub trait Code<T>: Sized {
    spec fn known_code(self) -> bool;
    spec fn means(self, t: T) -> bool;
    fn verif_try_into(self) -> (r: Result<T, ()>) ensures r is Ok ==> self.means(r->Ok_0), r is Err ==> !self.known_code();
}
impl Code<TSDataType> for u8 {
    open spec fn known_code(self) -> bool { exists|t: TSDataType| #[trigger] type_code(t) == self }
    open spec fn means(self, t: TSDataType) -> bool { type_code(t) == self }
    fn verif_try_into(self) -> (r: Result<TSDataType, ()>) { TSDataType::try_from(self) }
}
impl Code<TSEncoding> for u8 {
    open spec fn known_code(self) -> bool { exists|t: TSEncoding| #[trigger] encoding_code(t) == self }
    open spec fn means(self, t: TSEncoding) -> bool { encoding_code(t) == self }
    fn verif_try_into(self) -> (r: Result<TSEncoding, ()>) { TSEncoding::try_from(self) }
}
impl Code<CompressionType> for u8 {
    open spec fn known_code(self) -> bool { exists|t: CompressionType| #[trigger] compression_code(t) == self }
    open spec fn means(self, t: CompressionType) -> bool { compression_code(t) == self }
    fn verif_try_into(self) -> (r: Result<CompressionType, ()>) { CompressionType::try_from(self) }
}
pub trait MayBeNull: Sized { spec fn is_nil(self) -> bool; fn verif_is_null(self) -> (r: bool) ensures r == self.is_nil(); }
impl<T> MayBeNull for *const T {
    open spec fn is_nil(self) -> bool { null(self) }
    #[verifier::external_body]
    fn verif_is_null(self) -> (r: bool) { unimplemented!() }
}
impl<T> MayBeNull for *mut T {
    open spec fn is_nil(self) -> bool { nil(self) }
    #[verifier::external_body]
    fn verif_is_null(self) -> (r: bool) { unimplemented!() }
}
/// the pointer is that of a C string
pub uninterp spec fn readable(p: *const c_char) -> bool;
/// its text, if it is UTF-8
pub uninterp spec fn c_text(p: *const c_char) -> Option<Seq<char>>;
pub open spec fn arg_ok(p: *const c_char) -> bool { null(p) || readable(p) }
/// an argument that the wrapper may reject by ending the process
pub open spec fn arg_bad(p: *const c_char) -> bool { null(p) || c_text(p) is None }
pub open spec fn codes_bad(data_type: u8, encoding: u8, compression: u8) -> bool {
    !(exists|t: TSDataType| #[trigger] type_code(t) == data_type) || !(exists|e: TSEncoding| #[trigger] encoding_code(e) == encoding)
        || !(exists|c: CompressionType| #[trigger] compression_code(c) == compression)
}
#[verifier::external_body]
pub struct CStr {}
#[verifier::external_body]
pub struct Utf8Error {}
impl CStr {
    pub uninterp spec fn text(&self) -> Option<Seq<char>>;
    #[verifier::external_body]
    pub unsafe fn from_ptr<'b>(p: *const c_char) -> (r: &'b CStr)
        requires !null(p), readable(p)
        ensures r.text() == c_text(p)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn to_str(&self) -> (r: Result<&str, Utf8Error>)
        ensures r is Ok <==> self.text() is Some, r is Ok ==> r->Ok_0@ == self.text()->Some_0
    { unimplemented!() }
}
// ---------------------------------------------------------------- files
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExFile(std::fs::File);
/// the file of that name
pub uninterp spec fn file_id(name: Seq<char>) -> int;
pub uninterp spec fn file_out(f: File) -> Seq<u8>;
pub uninterp spec fn file_failed(f: File) -> bool;
pub uninterp spec fn file_wf(f: File) -> bool;
pub uninterp spec fn file_of(f: File) -> int;
pub uninterp spec fn file_whole(f: File) -> bool;
impl WriteSpecImpl for File {
    open spec fn out(&self) -> Seq<u8> { file_out(*self) }
    open spec fn failed(&self) -> bool { file_failed(*self) }
    open spec fn wf(&self) -> bool { file_wf(*self) }
    open spec fn id(&self) -> int { file_of(*self) }
    open spec fn whole(&self) -> bool { file_whole(*self) }
}
/// truncates
#[verifier::external_body]
pub fn verif_create(name: &str) -> (r: std::io::Result<File>)
    ensures r is Err ==> io_fails(), r is Ok ==> file_wf(r->Ok_0) && file_out(r->Ok_0) == Seq::<u8>::empty() && !file_failed(r->Ok_0) && file_of(r->Ok_0) == file_id(name@)
{ unimplemented!() }
/// Path::parent: all but "" and "/"
pub uninterp spec fn has_parent(name: Seq<char>) -> bool;
#[verifier::external_body]
pub fn verif_parent(name: &str) -> (r: Option<&str>) ensures r is Some <==> has_parent(name@) { unimplemented!() }
#[verifier::external_body]
pub fn verif_create_dir_all(name: &str) -> (r: std::io::Result<()>) ensures r is Err ==> io_fails() { unimplemented!() }
impl<'a> TsFileWriter<'a, WriteWrapper<File>> {
    /// close, and the completed file is noted
    pub fn verif_close(&mut self, Tracked(h): Tracked<&mut Heap>) -> (r: Result<(), TsFileError>)
        requires
            tw_ok(*old(self)), room(old(self).group_writers@, 0), may_close(*old(self)),
        ensures
            r is Ok ==> completed(*old(h), *final(h), *old(self)),
            r is Err ==> *final(h) == *old(h) && io_fails(),
    {
        broadcast use axiom_io_fails;
        let ghost w = *self;
        let r = self.close();
        proof {
            if r is Ok {
                let out = WriteSpec::out(&self.file_io_writer.out);
                let ghost h0 = *h;
                h.files = h.files.insert(WriteSpec::id(&self.file_io_writer.out), out);
                assert(*h == (Heap { files: h0.files.insert(WriteSpec::id(&w.file_io_writer.out), out), ..h0 }));
                assert(finished(out, w));
            }
        }
        r
    }
}
/// the file of the writer has been completed, as `finished` says
pub open spec fn completed(a: Heap, b: Heap, w: FileWriter) -> bool {
    exists|out: Seq<u8>| #[trigger] finished(out, w) && heap_is(b, a.schemas, a.writers, a.files.insert(WriteSpec::id(&w.file_io_writer.out), out))
}
pub open spec fn closable(w: FileWriter) -> bool { tw_ok(w) && room(w.group_writers@, 0) && may_close(w) }
/// a new schema with one series
pub open spec fn schema_made<'a>(a: Heap, b: Heap, r: *mut Schema<'a>, d: Seq<char>, m: Seq<char>, data_type: u8, encoding: u8, compression: u8) -> bool {
    exists|s: Schema<'a>, t: TSDataType, e: TSEncoding, c: CompressionType| #[trigger] simple_schema(s, d, m, t, e, c)
        && type_code(t) == data_type && encoding_code(e) == encoding && compression_code(c) == compression
        && heap_is(b, a.schemas.insert(r, s), a.writers, a.files)
}
/// a writer without points for the schema, writing to the file of that name
pub open spec fn new_writer<'a>(w: TsFileWriter<'a, WriteWrapper<File>>, name: Seq<char>, s: Schema<'a>) -> bool {
    &&& tw_ok(w)
    &&& w.schema == s
    &&& config_ok(w.file_io_writer.config) && index_config_ok(w.file_io_writer.config)
    &&& w.file_io_writer.groups@ == Seq::<Group>::empty()
    &&& forall|d: Seq<char>, m: Seq<char>| #[trigger] series(w, d, m) =~= Seq::empty()
    &&& WriteSpec::id(&w.file_io_writer.out) == file_id(name)
    &&& !WriteSpec::failed(&w.file_io_writer.out)
}
}
@@module cffi
use crate::capi::Bx as Box;
use crate::capi::*;
@@replace writer::tsfile_writer::TsFileWriter<'a,WriteWrapper<File>>::new
std::path::Path::new(filename).parent()
=>
crate::capi::verif_parent(filename)
@@replace writer::tsfile_writer::TsFileWriter<'a,WriteWrapper<File>>::new
create_dir_all(folder)
=>
crate::capi::verif_create_dir_all(folder)
@@replace writer::tsfile_writer::TsFileWriter<'a,WriteWrapper<File>>::new
File::create(filename)
=>
crate::capi::verif_create(filename)
@@fn writer::tsfile_writer::TsFileWriter<'a,WriteWrapper<File>>::new
@@ret r
        requires
            names_ok(schema),
        ensures
            r is Ok ==> tw_ok(r->Ok_0) && r->Ok_0.schema == schema && r->Ok_0.config == config && r->Ok_0.file_io_writer.config == config,
            r is Ok ==> r->Ok_0.file_io_writer.groups@ == Seq::<Group>::empty(),
            r is Ok ==> forall|d: Seq<char>, m: Seq<char>| #[trigger] series(r->Ok_0, d, m) =~= Seq::empty(),
            r is Ok ==> WriteSpec::id(&r->Ok_0.file_io_writer.out) == file_id(filename@),
            r is Ok ==> !WriteSpec::failed(&r->Ok_0.file_io_writer.out),
            r is Err ==> io_fails() || !has_parent(filename@),
@@entry
        broadcast use axiom_io_fails;
@@fn cffi::schema_simple
@@opt ffi
@@ret r
    requires
        arg_ok(device_id), arg_ok(measurement_id),
        verif_excuse == (arg_bad(device_id) || arg_bad(measurement_id) || codes_bad(data_type, encoding, compression)),
    ensures
        !nil(r),
        !old(verif_heap).schemas.dom().contains(r),
        schema_made(*old(verif_heap), *final(verif_heap), r, c_text(device_id)->Some_0, c_text(measurement_id)->Some_0, data_type, encoding, compression),
@@fn cffi::schema_free
@@opt ffi
@@spec
    requires
        !nil(schema) ==> old(verif_heap).schemas.dom().contains(schema),
        !verif_excuse,
    ensures
        nil(schema) ==> *final(verif_heap) == *old(verif_heap),
        !nil(schema) ==> heap_is(*final(verif_heap), old(verif_heap).schemas.remove(schema), old(verif_heap).writers, old(verif_heap).files),
@@fn cffi::file_writer_new
@@opt ffi
@@ret r
    requires
        arg_ok(filename),
        old(verif_heap).schemas.dom().contains(schema),
        names_ok(old(verif_heap).schemas[schema]),
        verif_excuse == (arg_bad(filename) || !has_parent(c_text(filename)->Some_0)),
    ensures
        !nil(r),
        !old(verif_heap).writers.dom().contains(r),
        new_writer(final(verif_heap).writers[r], c_text(filename)->Some_0, old(verif_heap).schemas[schema]),
        heap_is(*final(verif_heap), old(verif_heap).schemas, old(verif_heap).writers.insert(r, final(verif_heap).writers[r]), old(verif_heap).files),
@@fn cffi::file_writer_write_int32
@@opt ffi
@@ret r
    requires
        arg_ok(device_id), arg_ok(measurement_id),
        !nil(writer) ==> old(verif_heap).writers.dom().contains(writer) && tw_ok(old(verif_heap).writers[writer]) && tw_room(old(verif_heap).writers[writer], 1),
        verif_excuse == (nil(writer) || arg_bad(device_id) || arg_bad(measurement_id)
            || !may_write(old(verif_heap).writers[writer], c_text(device_id)->Some_0, c_text(measurement_id)->Some_0, (timestamp, IoTDBValue::INT(number)))),
    ensures
        r == writer,
        old(verif_heap).writers.dom().contains(writer),
        heap_is(*final(verif_heap), old(verif_heap).schemas, old(verif_heap).writers.insert(writer, final(verif_heap).writers[writer]), old(verif_heap).files),
        tw_ok(final(verif_heap).writers[writer]),
        tw_like(old(verif_heap).writers[writer], final(verif_heap).writers[writer]),
        may_write(old(verif_heap).writers[writer], c_text(device_id)->Some_0, c_text(measurement_id)->Some_0, (timestamp, IoTDBValue::INT(number))) ==>
            pushed(old(verif_heap).writers[writer], final(verif_heap).writers[writer], c_text(device_id)->Some_0, c_text(measurement_id)->Some_0, (timestamp, IoTDBValue::INT(number)))
            && WriteSpec::failed(&final(verif_heap).writers[writer].file_io_writer.out) == WriteSpec::failed(&old(verif_heap).writers[writer].file_io_writer.out),
        !may_write(old(verif_heap).writers[writer], c_text(device_id)->Some_0, c_text(measurement_id)->Some_0, (timestamp, IoTDBValue::INT(number))) ==>
            no_trace(old(verif_heap).writers[writer], final(verif_heap).writers[writer]),
        forall|n: int| n >= 1 && #[trigger] tw_room(old(verif_heap).writers[writer], n) && may_write(old(verif_heap).writers[writer], c_text(device_id)->Some_0, c_text(measurement_id)->Some_0, (timestamp, IoTDBValue::INT(number)))
            ==> tw_room(final(verif_heap).writers[writer], n - 1),
@@entry
    hide(tw_ok);
    hide(tw_like);
    hide(tw_room);
    hide(pushed);
    hide(refused);
    hide(no_trace);
    hide(may_write);
    broadcast use axiom_io_fails;
@@fn cffi::file_writer_close
@@opt ffi
@@spec
    requires
        !nil(writer) ==> old(verif_heap).writers.dom().contains(writer) && closable(old(verif_heap).writers[writer]),
        !verif_excuse,
    ensures
        nil(writer) ==> *final(verif_heap) == *old(verif_heap),
        !nil(writer) ==> completed((Heap { writers: old(verif_heap).writers.remove(writer), ..*old(verif_heap) }), *final(verif_heap), old(verif_heap).writers[writer]),
@@entry
    hide(tw_ok);
    hide(room);
    hide(may_close);
    hide(finished);
