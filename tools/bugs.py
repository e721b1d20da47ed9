"""Planted bugs, written from the properties' text. See mkbug.py."""

SINK = r'''
#![allow(dead_code, unused)]
use std::cell::RefCell;
use std::collections::VecDeque;
use std::io::{self, Write};
use std::rc::Rc;
use crevice::std140::{self, AsStd140, WriteStd140, DynamicUniform};
use crevice::std430::{self, AsStd430, WriteStd430};

pub enum Act {
    Take(usize),
    Intr,
    Fail(io::Error),
    Zero,
}
#[derive(Default)]
pub struct State {
    pub data: Vec<u8>,
    pub script: VecDeque<Act>,
    pub calls: usize,
}
#[derive(Clone, Default)]
pub struct Sink(pub Rc<RefCell<State>>);
impl Sink {
    pub fn new(script: Vec<Act>) -> Sink {
        Sink(Rc::new(RefCell::new(State { script: script.into(), ..Default::default() })))
    }
    pub fn data(&self) -> Vec<u8> {
        self.0.borrow().data.clone()
    }
    pub fn push(&self, a: Act) {
        self.0.borrow_mut().script.push_back(a)
    }
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let mut s = self.0.borrow_mut();
        s.calls += 1;
        let n = match s.script.pop_front() {
            None => b.len(),
            Some(Act::Take(n)) => n.min(b.len()),
            Some(Act::Intr) => return Err(io::ErrorKind::Interrupted.into()),
            Some(Act::Fail(e)) => return Err(e),
            Some(Act::Zero) => return Ok(0),
        };
        s.data.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
fn v3(x: f32, y: f32, z: f32) -> mint::Vector3<f32> {
    mint::Vector3 { x, y, z }
}
fn d3(x: f64, y: f64, z: f64) -> mint::Vector3<f64> {
    mint::Vector3 { x, y, z }
}
'''

PAD_LOOP = '''        for _ in 0..padding {
            self.writer.write_all(&[0])?;
        }
        self.offset += padding;
'''
VAL140 = '''        let value = value.as_std140();
        self.writer.write_all(bytes_of(&value))?;
'''
VAL430 = '''        let value = value.as_std430();
        self.writer.write_all(bytes_of(&value))?;
'''
W140 = "src/std140/writer.rs"
W430 = "src/std430/writer.rs"

BUGS = {}


def bug(id, property, needs, breaks, edits, demo, **k):
    BUGS[id] = dict(property=property, needs=needs, breaks=breaks, edits=edits, demo=SINK + demo, **k)


bug("c01-padding-block", "C01",
    "a value that needs more than 64 bytes of padding in front of it, which only wrappers aligned to 256 bytes do",
    "padding is copied from a 64-byte block of zeros and cut off there: the position advances by the full padding but the bytes never reach the sink, so everything after sits too low",
    [(W140, PAD_LOOP, '''        // Write the padding in one go instead of byte by byte.
        const ZEROES: [u8; 64] = [0; 64];
        self.writer.write_all(&ZEROES[..padding.min(ZEROES.len())])?;
        self.offset += padding;
''')],
    r'''
fn main() {
    let s = Sink::default();
    let mut w = std140::Writer::new(s.clone());
    w.write(&DynamicUniform(1.0f32)).unwrap();
    let at = w.write(&DynamicUniform(2.0f32)).unwrap();
    assert_eq!(at, 256);
    let d = s.data();
    assert_eq!(d.len(), 260);
    assert_eq!(&d[256..], &2.0f32.to_ne_bytes());
}
''')

bug("c01-interrupted-first-write", "C01",
    "the sink is interrupted (EINTR) exactly on the first call made for a value, not in padding and not in the middle of the value",
    "a fast path offers the whole value with one plain write and only falls back to write_all for the rest, so an interruption of that first call fails the write",
    [(W430, VAL430, '''        let value = value.as_std430();
        let bytes = bytes_of(&value);
        // Most sinks take the whole value at once.
        let accepted = self.writer.write(bytes)?;
        if accepted < bytes.len() {
            self.writer.write_all(&bytes[accepted..])?;
        }
''')],
    r'''
fn main() {
    let s = Sink::new(vec![Act::Intr, Act::Take(3), Act::Intr, Act::Intr]);
    let mut w = std430::Writer::new(s.clone());
    let r = w.write(&v3(1.0, 2.0, 3.0));
    assert_eq!(r.expect("interrupted sinks must be asked again"), 0);
    assert_eq!(s.data().len(), 12);
}
''')

bug("c01-dmat3-430-alignment", "C01",
    "a std430 dmat3 at a position that is a multiple of 16 but not of 32",
    "dmat3 is aligned to 16 bytes instead of 32 in std430, so a matrix written at such a position, or a struct holding one, is laid out differently from GLSL",
    [("src/std430/primitives.rs", """    align(32)
    dmat3 DMat3 {""", """    align(16)
    dmat3 DMat3 {""")],
    r'''
fn main() {
    let mut w = std430::Writer::new(Sink::default());
    w.write(&mint::Vector4 { x: 1.0f32, y: 1.0, z: 1.0, w: 1.0 }).unwrap();
    let m = mint::ColumnMatrix3 { x: d3(1.0, 2.0, 3.0), y: d3(1.0, 2.0, 3.0), z: d3(1.0, 2.0, 3.0) };
    assert_eq!(w.write(&m).unwrap(), 32);
}
''')

bug("c02-offset-u32", "C02",
    "a stream of more than 4 GiB through a std430 writer",
    "the position is kept in 32 bits and wraps, so offsets and len() are wrong beyond 4 GiB",
    [(W430, "    writer: W,\n    offset: usize,\n", "    writer: W,\n    // GPU buffers are addressed with 32 bits.\n    offset: u32,\n"),
     (W430, "let mut offset = self.offset;", "let mut offset = self.len();"),
     (W430, "align_offset(self.offset, T::ALIGNMENT)", "align_offset(self.len(), T::ALIGNMENT)"),
     (W430, "self.offset += padding;", "self.offset = self.offset.wrapping_add(padding as u32);"),
     (W430, "let write_here = self.offset;\n        self.offset += size_of::<T>();", "let write_here = self.len();\n        self.offset = self.offset.wrapping_add(size_of::<T>() as u32);"),
     (W430, "pub fn len(&self) -> usize {\n        self.offset\n", "pub fn len(&self) -> usize {\n        self.offset as usize\n")],
    r'''
#[derive(Clone, Copy)]
#[repr(transparent)]
struct Block([u32; 65536 * 4]);
unsafe impl bytemuck::Zeroable for Block {}
unsafe impl bytemuck::Pod for Block {}
unsafe impl std430::Std430 for Block {
    const ALIGNMENT: usize = 4;
}
struct Count(u64);
impl Write for Count {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.0 += b.len() as u64;
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
fn go() {
    let mut w = std430::Writer::new(Count(0));
    let b = Box::new(Block([0; 65536 * 4]));
    for i in 0..4097u64 {
        let at = w.write_std430(&*b).unwrap();
        assert_eq!(at as u64, i << 20);
        assert_eq!(w.len() as u64, (i + 1) << 20);
    }
}
fn main() {
    std::thread::Builder::new().stack_size(64 << 20).spawn(go).unwrap().join().unwrap();
}
''')

bug("c02-empty-slice-zero", "C02",
    "an empty slice written behind other values in a std430 stream",
    "an empty slice reports position 0 instead of the current length",
    [("src/std430/traits.rs", '''        let mut offset = writer.len();

        let mut iter = self.iter();

        if let Some(item) = iter.next() {
            offset = item.write_std430(writer)?;
        }

        for item in iter {
            item.write_std430(writer)?;
        }

        Ok(offset)
''', '''        let mut offset = None;

        for item in self {
            let at = item.write_std430(writer)?;
            offset = offset.or(Some(at));
        }

        Ok(offset.unwrap_or_default())
''')],
    r'''
fn main() {
    let mut w = std430::Writer::new(Sink::default());
    w.write(&1.0f32).unwrap();
    let none: &[f32] = &[];
    assert_eq!(w.write(none).unwrap(), 4);
}
''')

bug("c02-iter-offset-before-padding", "C02",
    "write_iter with a first element that needs padding, when the iterator yields more than one element",
    "the position reported for an iterator is the length before the first element's padding as soon as a second element follows",
    [(W140, '''        if let Some(item) = iter.next() {
            offset = item.write_std140(self)?;
        }

        for item in iter {
            item.write_std140(self)?;
        }
''', '''        let start = offset;

        if let Some(item) = iter.next() {
            offset = item.write_std140(self)?;
        }

        for item in iter {
            let here = item.write_std140(self)?;
            // Keep the lowest offset of all items.
            offset = offset.min(here).min(start);
        }
''')],
    r'''
fn main() {
    let mut w = std140::Writer::new(Sink::default());
    w.write(&1.0f32).unwrap();
    assert_eq!(w.write_iter(vec![v3(1.0, 2.0, 3.0)]).unwrap(), 16);
    assert_eq!(w.len(), 28);
    assert_eq!(w.write_iter(vec![d3(1.0, 2.0, 3.0), d3(1.0, 2.0, 3.0)]).unwrap(), 32);
}
''')

bug("c03-len-counts-unsent-padding", "C03",
    "the sink fails while padding is being written",
    "the position is advanced over the padding before the padding is handed to the sink, so after a failure len() counts bytes the sink never accepted",
    [(W430, PAD_LOOP, '''        self.offset += padding;
        for _ in 0..padding {
            self.writer.write_all(&[0])?;
        }
''')],
    r'''
fn main() {
    let s = Sink::new(vec![Act::Take(4), Act::Take(1), Act::Fail(io::ErrorKind::StorageFull.into())]);
    let mut w = std430::Writer::new(s.clone());
    w.write(&1.0f32).unwrap();
    assert!(w.write(&v3(1.0, 2.0, 3.0)).is_err());
    assert!(w.len() <= s.data().len(), "len {} of {} accepted", w.len(), s.data().len());
}
''')

bug("c03-zero-is-success", "C03",
    "the sink accepts nothing (Ok(0)) after having accepted part of a value",
    "a hand-written transfer loop stops at Ok(0) and reports success although the value is cut off",
    [(W140, VAL140, '''        let value = value.as_std140();
        let mut rest = bytes_of(&value);
        while !rest.is_empty() {
            match self.writer.write(rest) {
                Ok(0) if rest.len() == size_of::<T>() => {
                    return Err(io::ErrorKind::WriteZero.into());
                }
                Ok(0) => break,
                Ok(n) => rest = &rest[n..],
                Err(e) if e.kind() == io::ErrorKind::Interrupted => {}
                Err(e) => return Err(e),
            }
        }
''')],
    r'''
fn main() {
    let s = Sink::new(vec![Act::Take(5), Act::Zero]);
    let mut w = std140::Writer::new(s.clone());
    let r = w.write(&v3(1.0, 2.0, 3.0));
    assert_eq!(r.unwrap_err().kind(), io::ErrorKind::WriteZero);
}
''')

bug("c03-iter-loses-os-error", "C03",
    "a failure with an operating system error code while an iterator's second or later element is written",
    "write_iter rebuilds the error from its kind, so the caller no longer gets the failure the sink reported (its code or payload is lost)",
    [(W430, '''        for item in iter {
            item.write_std430(self)?;
        }

        Ok(offset)
    }

    /// Write an''', '''        for item in iter {
            item.write_std430(self)
                .map_err(|err| io::Error::from(err.kind()))?;
        }

        Ok(offset)
    }

    /// Write an''')],
    r'''
fn main() {
    let s = Sink::new(vec![Act::Take(4), Act::Fail(io::Error::from_raw_os_error(28))]);
    let mut w = std430::Writer::new(s.clone());
    let e = w.write_iter(vec![1.0f32, 2.0, 3.0]).unwrap_err();
    assert_eq!(e.raw_os_error(), Some(28));
}
''')

bug("c03-retries-would-block", "C03",
    "a sink that reports WouldBlock once and would accept data afterwards",
    "the transfer loop treats WouldBlock like an interruption and offers the data again instead of returning the failure",
    [(W140, VAL140, '''        let value = value.as_std140();
        let mut rest = bytes_of(&value);
        while !rest.is_empty() {
            match self.writer.write(rest) {
                Ok(0) => return Err(io::ErrorKind::WriteZero.into()),
                Ok(n) => rest = &rest[n..],
                Err(e) if matches!(e.kind(), io::ErrorKind::Interrupted | io::ErrorKind::WouldBlock) => {}
                Err(e) => return Err(e),
            }
        }
''')],
    r'''
fn main() {
    let s = Sink::new(vec![Act::Take(2), Act::Fail(io::ErrorKind::WouldBlock.into())]);
    let mut w = std140::Writer::new(s.clone());
    let r = w.write(&v3(1.0, 2.0, 3.0));
    assert_eq!(r.unwrap_err().kind(), io::ErrorKind::WouldBlock);
    assert_eq!(s.0.borrow().calls, 2);
}
''')

bug("c03-panic-poisons", "C03",
    "a user-supplied iterator that panics, the panic being caught and the same writer used again",
    "write_iter takes the position out of the writer while it runs and only puts it back at the end, so a panic of the iterator leaves len() at zero",
    [(W140, '''        for item in iter {
            item.write_std140(self)?;
        }
''', '''        // Work on a writer of our own, so that the position lives in a register.
        let mut inner = Writer {
            offset: core::mem::take(&mut self.offset),
            writer: &mut self.writer,
        };
        let mut result = Ok(());
        for item in iter {
            result = item.write_std140(&mut inner).map(|_| ());
            if result.is_err() {
                break;
            }
        }
        self.offset = inner.offset;
        result?;
''')],
    r'''
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let s = Sink::default();
    let mut w = std140::Writer::new(s.clone());
    w.write(&1.0f32).unwrap();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        w.write_iter((0..4).map(|i| if i == 2 { panic!() } else { i as f32 }))
    }));
    assert!(r.is_err());
    let ok = w.len() == 12 && s.data().len() == 12;
    if !ok {
        eprintln!("len {} of {}", w.len(), s.data().len());
        std::process::exit(1);
    }
}
''')

bug("c04-pending-padding", "C04",
    "a failure in the middle of padding, followed by rewinding the sink to len() and writing the value again",
    "the writer remembers how much of the padding it has already sent and skips it on the retry, although len() (where the caller resumes) lies before the padding",
    [(W430, "    writer: W,\n    offset: usize,\n}", "    writer: W,\n    offset: usize,\n    // Padding already sent for the value that is being written.\n    padded: usize,\n}"),
     (W430, "Self { writer, offset: 0 }", "Self {\n            writer,\n            offset: 0,\n            padded: 0,\n        }"),
     (W430, PAD_LOOP, '''        while self.padded < padding {
            self.writer.write_all(&[0])?;
            self.padded += 1;
        }
        self.padded = 0;
        self.offset += padding;
''')],
    r'''
fn main() {
    let s = Sink::new(vec![Act::Take(4), Act::Take(1), Act::Fail(io::ErrorKind::TimedOut.into())]);
    let mut w = std430::Writer::new(s.clone());
    w.write(&1.0f32).unwrap();
    w.write(&v3(1.0, 2.0, 3.0)).unwrap_err();
    s.0.borrow_mut().data.truncate(w.len());
    assert_eq!(w.write(&v3(1.0, 2.0, 3.0)).unwrap(), 16);
    let d = s.data();
    assert_eq!(d.len(), 28);
    assert_eq!(&d[16..20], &1.0f32.to_ne_bytes());
}
''')

bug("c04-sticky-error", "C04",
    "a sink that fails, recovers, and is written to again through the same writer more than once",
    "the writer remembers that a write failed and refuses every later write after a second failure, so an upload with two transient failures can never be resumed",
    [(W140, "    writer: W,\n    offset: usize,\n}", "    writer: W,\n    offset: usize,\n    failures: u8,\n}"),
     (W140, "Self { writer, offset: 0 }", "Self {\n            writer,\n            offset: 0,\n            failures: 0,\n        }"),
     (W140, "        let value = value.as_std140();\n        self.writer.write_all(bytes_of(&value))?;\n", '''        let value = value.as_std140();
        if self.failures > 1 {
            return Err(io::ErrorKind::BrokenPipe.into());
        }
        if let Err(err) = self.writer.write_all(bytes_of(&value)) {
            self.failures += 1;
            return Err(err);
        }
''')],
    r'''
fn main() {
    let f = || Act::Fail(io::ErrorKind::TimedOut.into());
    let s = Sink::new(vec![f(), f()]);
    let mut w = std140::Writer::new(s.clone());
    w.write(&1.0f32).unwrap_err();
    w.write(&1.0f32).unwrap_err();
    assert_eq!(w.write(&1.0f32).unwrap(), 0);
    assert_eq!(s.data(), 1.0f32.to_ne_bytes());
}
''')

bug("c04-partial-value-cached", "C04",
    "a failure after part of a value was accepted, then a rewind to len() and a second attempt",
    "the writer keeps count of the bytes of the unfinished value and only sends the remainder on the next attempt, although the caller has rewound the sink to the value's start",
    [(W140, "    writer: W,\n    offset: usize,\n}", "    writer: W,\n    offset: usize,\n    sent: usize,\n}"),
     (W140, "Self { writer, offset: 0 }", "Self {\n            writer,\n            offset: 0,\n            sent: 0,\n        }"),
     (W140, VAL140, '''        let value = value.as_std140();
        let bytes = bytes_of(&value);
        let mut sent = self.sent.min(bytes.len());
        while sent < bytes.len() {
            match self.writer.write(&bytes[sent..]) {
                Ok(0) => return Err(io::ErrorKind::WriteZero.into()),
                Ok(n) => sent += n,
                Err(e) if e.kind() == io::ErrorKind::Interrupted => {}
                Err(e) => {
                    self.sent = sent;
                    return Err(e);
                }
            }
        }
        self.sent = 0;
''')],
    r'''
fn main() {
    let s = Sink::new(vec![Act::Take(5), Act::Fail(io::ErrorKind::TimedOut.into())]);
    let mut w = std140::Writer::new(s.clone());
    w.write(&v3(1.0, 2.0, 3.0)).unwrap_err();
    s.0.borrow_mut().data.truncate(w.len());
    w.write(&v3(1.0, 2.0, 3.0)).unwrap();
    let mut want = Vec::new();
    for f in [1.0f32, 2.0, 3.0] {
        want.extend(f.to_ne_bytes());
    }
    assert_eq!(s.data(), want);
}
''')

bug("c05-slice-size-sum", "C05",
    "a slice of at least two elements whose size is not a multiple of their alignment (three-component vectors)",
    "the size of a slice is the sum of its elements' sizes, without the padding between them",
    [("src/std140/traits.rs", '''            item.write_std140(writer)?;
        }

        Ok(offset)
    }

    fn std140_size(&self) -> usize {
        let mut writer = Writer::new(io::sink());
        self.write_std140(&mut writer).unwrap();
        writer.len()
    }
''', '''            item.write_std140(writer)?;
        }

        Ok(offset)
    }

    fn std140_size(&self) -> usize {
        self.iter().map(|item| item.std140_size()).sum()
    }
''')],
    r'''
fn main() {
    let v = [v3(1.0, 2.0, 3.0), v3(1.0, 2.0, 3.0)];
    let mut w = std140::Writer::new(Sink::default());
    w.write(&v[..]).unwrap();
    assert_eq!(v[..].std140_size(), w.len());
}
''')

bug("c05-sizer-caps-alignment", "C05",
    "a double-precision three- or four-component vector or matrix at an offset that is a multiple of 16 but not of 32, in std430",
    "the size calculator caps every alignment at 16, so it predicts too low an offset and too small a size for such values",
    [("src/std430/sizer.rs", "let padding = align_offset(self.offset, alignment);", "// Nothing is aligned more strictly than a vec4.\n        let padding = align_offset(self.offset, alignment.min(16));")],
    r'''
fn main() {
    let mut s = std430::Sizer::new();
    let mut w = std430::Writer::new(Sink::default());
    s.add::<mint::Vector4<f32>>();
    w.write(&mint::Vector4 { x: 1.0f32, y: 1.0, z: 1.0, w: 1.0 }).unwrap();
    assert_eq!(s.add::<mint::Vector3<f64>>(), w.write(&d3(1.0, 2.0, 3.0)).unwrap());
    assert_eq!(s.len(), w.len());
}
''')

bug("c06-underscore-fields-hidden", "C06",
    "a struct with a field whose name starts with an underscore between other fields",
    "the generated GLSL definition leaves such fields out, so every member behind them is read from the wrong place",
    [("crevice-derive/src/glsl.rs", "let glsl_fields = fields.named.iter().map(|field| {", '''// Fields starting with an underscore are unused on the GPU.
    let used = |field: &&syn::Field| !field.ident.as_ref().unwrap().to_string().starts_with('_');
    let glsl_fields = fields.named.iter().filter(used).map(|field| {''')],
    r'''
use crevice::glsl::GlslStruct;
#[derive(AsStd140, GlslStruct)]
struct S {
    a: f32,
    _b: f32,
    c: f32,
}
fn main() {
    let d = S::glsl_definition();
    assert!(d.contains("float _b;"), "{d}");
}
''')

bug("c06-dmat4-name", "C06",
    "a member of type dmat4",
    "4x4 matrices of doubles are declared as dmat3 in GLSL",
    [("src/std140/primitives.rs", '''    align(32)
    dmat4 DMat4 {''', '''    align(32)
    dmat3 DMat4 {''')],
    r'''
use crevice::glsl::Glsl;
fn main() {
    assert_eq!(<mint::ColumnMatrix4<f64> as Glsl>::NAME, "dmat4");
}
''')

bug("c07-bool-one", "C07",
    "a device that stores something other than 1 for true, as GPUs may",
    "only the word 1 decodes as true",
    [("src/bool.rs", "        v.0 != 0\n", "        v.0 == 1\n")],
    r'''
fn main() {
    let b: std140::BVec2 = bytemuck::cast([0xffff_ffffu32, 0]);
    let v = mint::Vector2::<bool>::from_std140(b);
    assert!(v.x && !v.y);
}
''')

bug("c07-nalgebra-point-decode", "C07",
    "decoding a two-component unsigned point of nalgebra from std430 with different components",
    "the conversion back swaps the components; uploads are right",
    [("src/imp/imp_nalgebra.rs", "    mint::Point2<u32> => nalgebra::Point2<u32>,\n", ""),
     ("src/imp/imp_nalgebra.rs", "minty_impl! {\n", '''impl crate::std140::AsStd140 for nalgebra::Point2<u32> {
    type Output = crate::std140::UVec2;

    fn as_std140(&self) -> Self::Output {
        crate::std140::UVec2 {
            x: self.x,
            y: self.y,
        }
    }

    fn from_std140(value: Self::Output) -> Self {
        nalgebra::Point2::new(value.x, value.y)
    }
}

impl crate::std430::AsStd430 for nalgebra::Point2<u32> {
    type Output = crate::std430::UVec2;

    fn as_std430(&self) -> Self::Output {
        crate::std430::UVec2 {
            x: self.x,
            y: self.y,
        }
    }

    fn from_std430(value: Self::Output) -> Self {
        nalgebra::Point2::new(value.y, value.x)
    }
}

unsafe impl crate::glsl::Glsl for nalgebra::Point2<u32> {
    const NAME: &'static str = "uvec2";
}

minty_impl! {
''')],
    r'''
fn main() {
    let p = nalgebra::Point2::new(1u32, 2);
    let q = nalgebra::Point2::<u32>::from_std430(p.as_std430());
    assert_eq!(p, q);
}
''', features=["nalgebra"], deps=['nalgebra = { version = "0.35", default-features = false }'])

SCRATCH = '''        let value = value.as_std140();
        SCRATCH.with(|scratch| {
            let mut scratch = scratch.borrow_mut();
            scratch.clear();
            scratch.extend_from_slice(bytes_of(&value));
            self.writer.write_all(&scratch)
        })?;
'''
bug("c08-scratch-held", "C08",
    "a sink that itself uses another std140 writer on the same thread while it is being written to",
    "values are staged in a thread-local buffer that stays borrowed while the sink runs, so a writer nested inside the sink panics",
    [(W140, VAL140, SCRATCH),
     (W140, "impl<W: Write> Writer<W> {\n    /// Create", "thread_local! {\n    // Staging buffer, reused by all writers of a thread.\n    static SCRATCH: std::cell::RefCell<Vec<u8>> = const { std::cell::RefCell::new(Vec::new()) };\n}\n\nimpl<W: Write> Writer<W> {\n    /// Create")],
    r'''
struct Outer(Vec<u8>);
impl Write for Outer {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        // frame the chunk with its length
        let mut w = std140::Writer::new(Vec::new());
        w.write(&(b.len() as u32)).unwrap();
        self.0.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
fn main() {
    let mut w = std140::Writer::new(Outer(Vec::new()));
    assert_eq!(w.write(&1.0f32).unwrap(), 0);
}
''')

bug("c08-shared-padding-counter", "C08",
    "two std430 writers interleaved so that one is inside its padding while the other starts a value",
    "the padding still to be counted is kept in a static, so a writer that runs while another one is in its padding changes that writer's position",
    [(W430, PAD_LOOP, '''        PADDING.store(padding, Ordering::Relaxed);
        for _ in 0..padding {
            self.writer.write_all(&[0])?;
        }
        self.offset += PADDING.swap(0, Ordering::Relaxed);
'''),
     (W430, "use std::mem::size_of;\n", "use std::mem::size_of;\nuse std::sync::atomic::{AtomicUsize, Ordering};\n"),
     (W430, "impl<W: Write> Writer<W> {\n    /// Create", "// Padding in front of the value that is being written.\nstatic PADDING: AtomicUsize = AtomicUsize::new(0);\n\nimpl<W: Write> Writer<W> {\n    /// Create")],
    r'''
struct Outer(Vec<u8>);
impl Write for Outer {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let mut w = std430::Writer::new(Vec::new());
        w.write(&(b.len() as u32)).unwrap();
        self.0.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
fn main() {
    let mut w = std430::Writer::new(Outer(Vec::new()));
    w.write(&1.0f32).unwrap();
    assert_eq!(w.write(&v3(1.0, 2.0, 3.0)).unwrap(), 16);
}
''')

bug("c08-shared-staging", "C08",
    "two writers on different threads (or nested) where one stages a value while another one's sink is half-way through its own staged value",
    "large values are staged in one static buffer; the rest of a partially accepted value is taken from that buffer, which another writer may have refilled in the meantime",
    [(W140, VAL140, '''        let value = value.as_std140();
        let bytes = bytes_of(&value);
        if bytes.len() < 64 {
            self.writer.write_all(bytes)?;
        } else {
            // Large values go through a staging buffer.
            let mut sent = 0;
            {
                let mut stage = STAGE.lock().unwrap();
                stage.clear();
                stage.extend_from_slice(bytes);
            }
            while sent < bytes.len() {
                let chunk: Vec<u8> = match STAGE.lock().unwrap().get(sent..bytes.len()) {
                    Some(chunk) => chunk.to_vec(),
                    None => bytes[sent..].to_vec(),
                };
                match self.writer.write(&chunk) {
                    Ok(0) => return Err(io::ErrorKind::WriteZero.into()),
                    Ok(n) => sent += n,
                    Err(e) if e.kind() == io::ErrorKind::Interrupted => {}
                    Err(e) => return Err(e),
                }
            }
        }
'''),
     (W140, "impl<W: Write> Writer<W> {\n    /// Create", "static STAGE: std::sync::Mutex<Vec<u8>> = std::sync::Mutex::new(Vec::new());\n\nimpl<W: Write> Writer<W> {\n    /// Create")],
    r'''
fn mat(f: f32) -> mint::ColumnMatrix4<f32> {
    let v = mint::Vector4 { x: f, y: f, z: f, w: f };
    mint::ColumnMatrix4 { x: v, y: v, z: v, w: v }
}
struct Outer(Vec<u8>);
impl Write for Outer {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let mut w = std140::Writer::new(Vec::new());
        w.write(&mat(9.0)).unwrap();
        self.0.push(b[0]);
        Ok(1)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
fn main() {
    let mut o = Outer(Vec::new());
    std140::Writer::new(&mut o).write(&mat(1.0)).unwrap();
    assert_eq!(o.0, mat(1.0).as_std140().as_bytes());
}
use std140::Std140;
''')

bug("c09-uninit-gaps", "C09",
    "a derived struct with gaps, converted on a stack that held other data before",
    "the conversion fills the gaps of derived structs from uninitialised memory instead of zeros",
    [("crevice-derive/src/layout.rs", '''                Self::Output {
                    #generated_struct_field_init

                    ..::crevice::internal::bytemuck::Zeroable::zeroed()
                }
''', '''                // Every field is written below, there is nothing to clear.
                #[allow(warnings)]
                let blank: Self::Output =
                    unsafe { ::core::mem::MaybeUninit::uninit().assume_init() };

                Self::Output {
                    #generated_struct_field_init

                    ..blank
                }
''')],
    r'''
#[derive(AsStd140)]
struct S {
    a: f32,
    b: mint::Vector4<f32>,
    c: f32,
}
#[inline(never)]
fn dirty() -> u8 {
    let mut a = [0xa5u8; 8192];
    std::hint::black_box(&mut a);
    a[17]
}
#[inline(never)]
fn convert(x: f32) -> Vec<u8> {
    let s = S { a: x, b: mint::Vector4 { x, y: x, z: x, w: x }, c: x };
    use std140::Std140;
    std::hint::black_box(s.as_std140()).as_bytes().to_vec()
}
fn main() {
    for i in 0..8 {
        dirty();
        let b = convert(i as f32);
        assert!(b[4..16].iter().chain(&b[36..48]).all(|x| *x == 0), "{b:?}");
    }
}
''')

bug("c09-glam-mat3-lanes", "C09",
    "a 3x3 matrix of glam in std140, whose columns glam can hold in four-lane registers",
    "the columns are taken from glam's aligned matrix together with their unused fourth lane, which is not zero, so the gaps of the matrix hold stray values",
    [("src/imp/imp_glam.rs", "    mint::ColumnMatrix3<f32> => glam::Mat3,\n", ""),
     ("src/imp/imp_glam.rs", "minty_impl! {\n", '''impl crate::std140::AsStd140 for glam::Mat3 {
    type Output = crate::std140::Mat3;

    fn as_std140(&self) -> Self::Output {
        // `Mat3A` has the memory layout of a std140 `mat3`.
        let columns = [
            glam::Vec3A::from(self.x_axis),
            glam::Vec3A::from(self.y_axis),
            glam::Vec3A::from(self.z_axis),
        ];
        unsafe { core::mem::transmute(columns) }
    }

    fn from_std140(value: Self::Output) -> Self {
        mint::ColumnMatrix3::<f32>::from_std140(value).into()
    }
}

impl crate::std430::AsStd430 for glam::Mat3 {
    type Output = crate::std430::Mat3;

    fn as_std430(&self) -> Self::Output {
        mint::ColumnMatrix3::<f32>::from(*self).as_std430()
    }

    fn from_std430(value: Self::Output) -> Self {
        mint::ColumnMatrix3::<f32>::from_std430(value).into()
    }
}

unsafe impl crate::glsl::Glsl for glam::Mat3 {
    const NAME: &'static str = "mat3";
}

minty_impl! {
''')],
    r'''
use std140::Std140;
fn main() {
    let m = glam::Mat3::from_cols(glam::Vec3::new(1.0, 2.0, 3.0), glam::Vec3::new(4.0, 5.0, 6.0), glam::Vec3::new(7.0, 8.0, 9.0));
    let o = m.as_std140();
    let b = o.as_bytes();
    assert!(b[12..16].iter().chain(&b[28..32]).chain(&b[44..48]).all(|x| *x == 0), "{b:?}");
}
''', features=["glam"], deps=['glam = { version = "0.33", default-features = false, features = ["std"] }'])

bug("c10-old-slice-packed", "C10",
    "the deprecated write_slice with elements whose size is not a multiple of their alignment",
    "write_slice converts the whole slice and hands it over in one piece, so that elements are packed without the padding GLSL has between array elements",
    [(W140, "        self.write(slice)\n", '''        let values: Vec<T::Output> = slice.iter().map(|value| value.as_std140()).collect();
        let mut offset = self.offset;

        if let Some((first, rest)) = values.split_first() {
            offset = self.write_std140(first)?;
            self.writer.write_all(bytemuck::cast_slice(rest))?;
            self.offset += core::mem::size_of_val(rest);
        }

        Ok(offset)
''')],
    r'''
#[allow(deprecated)]
fn main() {
    let s = Sink::default();
    let mut w = std140::Writer::new(s.clone());
    w.write_slice(&[v3(1.0, 2.0, 3.0), v3(4.0, 5.0, 6.0)]).unwrap();
    assert_eq!(s.data().len(), 28);
    assert_eq!(&s.data()[16..20], &4.0f32.to_ne_bytes());
}
''')

bug("c10-struct-stride-430", "C10",
    "a std430 slice of structs holding doubles and scalars, with the scalar last",
    "the tail padding of a derived struct follows its last field's alignment instead of the struct's when the struct is aligned to more than 16 bytes, so the member after such an array starts too early",
    [("crevice-derive/src/layout.rs", '''                    // Using everything we've got, compute our padding amount.
                    ::crevice::internal::align_offset(starting_offset, alignment)
''', '''                    // Using everything we've got, compute our padding amount.
                    // Nothing in a buffer is aligned to more than a vec4.
                    let alignment = if alignment > 16 { 16 } else { alignment };
                    ::crevice::internal::align_offset(starting_offset, alignment)
''')],
    r'''
#[derive(AsStd430)]
struct S {
    a: mint::Vector4<f64>,
    b: f32,
}
fn main() {
    let s = || S { a: mint::Vector4 { x: 1.0, y: 2.0, z: 3.0, w: 4.0 }, b: 5.0 };
    let mut w = std430::Writer::new(Sink::default());
    assert_eq!(w.write(&[s(), s()][..]).unwrap(), 0);
    assert_eq!(w.write(&1.0f32).unwrap(), 128);
}
''')

bug("c11-zero-retried", "C11",
    "a sink that accepts nothing in the middle of a value",
    "a sink that accepts nothing is offered the same bytes again a few dozen times before the write gives up",
    [(W140, VAL140, '''        let value = value.as_std140();
        let mut rest = bytes_of(&value);
        let mut idle = 0;
        while !rest.is_empty() {
            match self.writer.write(rest) {
                Ok(0) => {
                    idle += 1;
                    if idle > 32 {
                        return Err(io::ErrorKind::WriteZero.into());
                    }
                }
                Ok(n) => rest = &rest[n..],
                Err(e) if e.kind() == io::ErrorKind::Interrupted => {}
                Err(e) => return Err(e),
            }
        }
''')],
    r'''
fn main() {
    let s = Sink::new((0..100).map(|_| Act::Zero).collect());
    let mut w = std140::Writer::new(s.clone());
    let r = w.write(&v3(1.0, 2.0, 3.0));
    assert_eq!(r.unwrap_err().kind(), io::ErrorKind::WriteZero);
    assert_eq!(s.0.borrow().calls, 1);
}
''')

bug("c11-interrupts-capped", "C11",
    "more than sixteen interruptions in a row without a byte accepted in between",
    "the write gives up with an error after a fixed number of consecutive interruptions instead of completing once they stop",
    [(W430, VAL430, '''        let value = value.as_std430();
        let mut rest = bytes_of(&value);
        let mut interrupts = 0;
        while !rest.is_empty() {
            match self.writer.write(rest) {
                Ok(0) => return Err(io::ErrorKind::WriteZero.into()),
                Ok(n) => {
                    interrupts = 0;
                    rest = &rest[n..];
                }
                Err(e) if e.kind() == io::ErrorKind::Interrupted && interrupts < 16 => interrupts += 1,
                Err(e) => return Err(e),
            }
        }
''')],
    r'''
fn main() {
    let s = Sink::new((0..40).map(|_| Act::Intr).collect());
    let mut w = std430::Writer::new(s.clone());
    assert_eq!(w.write(&v3(1.0, 2.0, 3.0)).expect("completes once interruptions stop"), 0);
}
''')

bug("c11-waits-for-sink", "C11",
    "a sink that fails for good with a timeout error while padding is written",
    "padding is retried for as long as the sink reports a timeout, so the call never returns when the sink stays that way",
    [(W430, PAD_LOOP, '''        let mut left = padding;
        while left > 0 {
            match self.writer.write_all(&[0]) {
                Ok(()) => left -= 1,
                Err(e) if e.kind() == io::ErrorKind::TimedOut => continue,
                Err(e) => return Err(e),
            }
        }
        self.offset += padding;
''')],
    r'''
struct Stuck(usize);
impl Write for Stuck {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.0 += 1;
        if self.0 == 1 {
            return Ok(b.len());
        }
        if self.0 > 1000 {
            eprintln!("still trying");
            std::process::exit(1);
        }
        Err(io::ErrorKind::TimedOut.into())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
fn main() {
    let mut w = std430::Writer::new(Stuck(0));
    w.write(&1.0f32).unwrap();
    w.write(&v3(1.0, 2.0, 3.0)).unwrap_err();
}
''')

bug("c08-padding-memo-race", "C08",
    "two threads with a std140 writer each: one is interrupted between reading the memo's key and reading its value, and the other one refills the memo in between",
    "the last padding computed is remembered in two statics, key and value, which are read one after the other; a thread switch between the two reads pairs one writer's key with another one's padding",
    [(W140, "let padding = align_offset(self.offset, T::ALIGNMENT);", "let padding = padding_for(self.offset, T::ALIGNMENT);"),
     (W140, "impl<W: Write> Writer<W> {\n    /// Create", """// The padding computed last, and what it was computed for.
static KEY: AtomicUsize = AtomicUsize::new(usize::MAX);
static PADDING: AtomicUsize = AtomicUsize::new(0);

fn padding_for(offset: usize, alignment: usize) -> usize {
    let key = offset * 512 + alignment;
    if KEY.load(Ordering::SeqCst) == key {
        return PADDING.load(Ordering::SeqCst);
    }
    let padding = align_offset(offset, alignment);
    KEY.store(usize::MAX, Ordering::SeqCst);
    PADDING.store(padding, Ordering::SeqCst);
    KEY.store(key, Ordering::SeqCst);
    padding
}

impl<W: Write> Writer<W> {
    /// Create"""),
     (W140, "use std::mem::size_of;\n", "use std::mem::size_of;\nuse std::sync::atomic::{AtomicUsize, Ordering};\n")],
    r'''
fn main() {
    let stop = std::time::Instant::now() + std::time::Duration::from_secs(30);
    let work = move |first: u32, second: bool| {
        while std::time::Instant::now() < stop {
            for _ in 0..2000 {
                let mut w = std140::Writer::new(Vec::new());
                w.write(&first).unwrap();
                if second {
                    assert_eq!(w.write(&v3(1.0, 2.0, 3.0)).unwrap(), 16);
                    assert_eq!(w.write(&first).unwrap(), 28);
                } else {
                    assert_eq!(w.write(&d3(1.0, 2.0, 3.0)).unwrap(), 32);
                    assert_eq!(w.write(&v3(1.0, 2.0, 3.0)).unwrap(), 64);
                }
            }
        }
    };
    let t: Vec<_> = (0..8).map(|i| std::thread::spawn(move || work(i, i % 2 == 0))).collect();
    for t in t {
        if t.join().is_err() {
            std::process::exit(1);
        }
    }
}
''')

LAYOUT = "crevice-derive/src/layout.rs"

bug("c01-wide-struct-alignment", "C01",
    "a derived struct with more than sixteen fields whose most strictly aligned field is one of the later ones",
    "the struct's own alignment is taken from its first sixteen fields only, so wide structs start at and are padded to too small a multiple",
    [(LAYOUT, "let field_alignments = fields.iter().map(|field| layout_alignment_of_ty(&field.ty));",
      """// Long lists of types make constant evaluation slow.
    let field_alignments = fields
        .iter()
        .take(16)
        .map(|field| layout_alignment_of_ty(&field.ty));""")],
    r'''
#[derive(AsStd430)]
struct Wide {
    a0: f32, a1: f32, a2: f32, a3: f32, a4: f32, a5: f32, a6: f32, a7: f32,
    a8: f32, a9: f32, a10: f32, a11: f32, a12: f32, a13: f32, a14: f32, a15: f32,
    last: mint::Vector4<f32>,
}
fn main() {
    let w = Wide {
        a0: 0.0, a1: 0.0, a2: 0.0, a3: 0.0, a4: 0.0, a5: 0.0, a6: 0.0, a7: 0.0,
        a8: 0.0, a9: 0.0, a10: 0.0, a11: 0.0, a12: 0.0, a13: 0.0, a14: 0.0, a15: 0.0,
        last: mint::Vector4 { x: 1.0, y: 2.0, z: 3.0, w: 4.0 },
    };
    let s = Sink::default();
    let mut out = std430::Writer::new(s.clone());
    out.write(&1.0f32).unwrap();
    assert_eq!(out.write(&w).unwrap(), 16);
    assert_eq!(s.data().len(), 16 + 80);
}
''')

bug("c01-negative-zero", "C01",
    "a cgmath point with a component that is minus zero",
    "points are converted as the vector from the origin, and adding the origin turns minus zero into zero",
    [("src/imp/imp_cgmath.rs", "    Vec3 cgmath::Point3<f32> { x, y, z },\n", ""),
     ("src/imp/imp_cgmath.rs", "easy_impl! {\n    Vec2 cgmath::Vector2<f32> { x, y },", """impl crate::std140::AsStd140 for cgmath::Point3<f32> {
    type Output = crate::std140::Vec3;

    #[inline]
    fn as_std140(&self) -> Self::Output {
        let [x, y, z] = [self.x, self.y, self.z].map(|c| 0.0 + c);
        crate::std140::Vec3 { x, y, z }
    }

    #[inline]
    fn from_std140(value: Self::Output) -> Self {
        cgmath::Point3::new(value.x, value.y, value.z)
    }
}

impl crate::std430::AsStd430 for cgmath::Point3<f32> {
    type Output = crate::std430::Vec3;

    #[inline]
    fn as_std430(&self) -> Self::Output {
        let [x, y, z] = [self.x, self.y, self.z].map(|c| 0.0 + c);
        crate::std430::Vec3 { x, y, z }
    }

    #[inline]
    fn from_std430(value: Self::Output) -> Self {
        cgmath::Point3::new(value.x, value.y, value.z)
    }
}

unsafe impl crate::glsl::Glsl for cgmath::Point3<f32> {
    const NAME: &'static str = crate::std140::Vec3::NAME;
}

easy_impl! {
    Vec2 cgmath::Vector2<f32> { x, y },""")],
    r'''
fn main() {
    let p = cgmath::Point3::new(1.0f32, -0.0, f32::MIN);
    let s = Sink::default();
    std140::Writer::new(s.clone()).write(&p).unwrap();
    assert_eq!(&s.data()[4..8], &(-0.0f32).to_ne_bytes());
}
''', features=["cgmath"], deps=['cgmath = { version = "0.18", default-features = false }'])

bug("c02-composite-slice-offset", "C02",
    "a slice of user-defined composites whose first element is preceded by a write that leaves the stream at a position where the composite needs more padding inside it than at position zero",
    "the position of a slice is worked out backwards, from the length after the first element and that element's size, which depends on where it was written",
    [("src/std430/traits.rs", """        if let Some(item) = iter.next() {
            offset = item.write_std430(writer)?;
        }
""", """        if let Some(item) = iter.next() {
            item.write_std430(writer)?;
            offset = writer.len() - item.std430_size();
        }
""")],
    r'''
struct Mesh {
    id: u32,
    at: mint::Vector4<f32>,
}
impl WriteStd430 for Mesh {
    fn write_std430<W: Write>(&self, w: &mut std430::Writer<W>) -> io::Result<usize> {
        let at = w.write(&self.id)?;
        w.write(&self.at)?;
        Ok(at)
    }
}
fn main() {
    let m = || Mesh { id: 1, at: mint::Vector4 { x: 1.0, y: 2.0, z: 3.0, w: 4.0 } };
    let s = Sink::default();
    let mut w = std430::Writer::new(s.clone());
    w.write(&7u32).unwrap();
    assert_eq!(w.write([m(), m()].as_slice()).unwrap(), 4);
}
''')

bug("c03-slice-continues", "C03",
    "a sink that fails once in the middle of a slice, after at least one element, and works again afterwards",
    "a slice keeps writing its remaining elements after one has failed and reports the failure at the end, so later elements land at the place of the failed one",
    [("src/std430/traits.rs", """        for item in iter {
            item.write_std430(writer)?;
        }

        Ok(offset)
""", """        // Write as much as possible, then report the first failure.
        let mut result = Ok(offset);
        for item in iter {
            if let Err(err) = item.write_std430(writer) {
                result = result.and(Err(err));
            }
        }

        result
""")],
    r'''
fn main() {
    let s = Sink::new(vec![Act::Take(4), Act::Fail(io::ErrorKind::TimedOut.into())]);
    let mut w = std430::Writer::new(s.clone());
    let e = w.write([1u32, 2, 3, 4].as_slice()).unwrap_err();
    assert_eq!(e.kind(), io::ErrorKind::TimedOut);
    assert_eq!(s.data(), 1u32.to_ne_bytes());
}
''')

bug("c03-slice-error-context", "C03",
    "a failure with a payload of its own while an element of a slice other than the first is written",
    "the error of a slice element is wrapped to say which element it was, which loses the error's payload and raw code",
    [("src/std140/traits.rs", """        for item in iter {
            item.write_std140(writer)?;
        }

        Ok(offset)
""", """        for (index, item) in iter.enumerate() {
            item.write_std140(writer).map_err(|err| {
                io::Error::new(err.kind(), format!("element {}: {}", index + 1, err))
            })?;
        }

        Ok(offset)
""")],
    r'''
#[derive(Debug)]
struct Mine;
impl std::fmt::Display for Mine {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "mine")
    }
}
impl std::error::Error for Mine {}
fn main() {
    let s = Sink::new(vec![Act::Take(4), Act::Fail(io::Error::new(io::ErrorKind::Other, Mine))]);
    let e = std140::Writer::new(s).write([1u32, 2, 3].as_slice()).unwrap_err();
    assert!(e.get_ref().unwrap().is::<Mine>());
}
''')

bug("c04-counts-partial", "C04",
    "a sink that takes part of a value's bytes and then fails, the value being written again from the position the writer reports",
    "the bytes of a value that did get through before the failure are counted, so the writer stands inside the value and writing it again puts it at the next aligned position",
    [(W430, "        self.writer.write_all(bytes_of(&value))?;\n", """        let mut rest = bytes_of(&value);
        while !rest.is_empty() {
            match self.writer.write(rest) {
                Ok(n) if n > 0 => rest = &rest[n..],
                Err(err) if err.kind() == io::ErrorKind::Interrupted => {}
                other => {
                    // Keep track of what was sent.
                    self.offset += size_of::<T>() - rest.len();
                    other?;
                    return Err(io::Error::from(io::ErrorKind::WriteZero));
                }
            }
        }
""")],
    r'''
fn main() {
    let s = Sink::new(vec![Act::Take(8), Act::Fail(io::ErrorKind::TimedOut.into())]);
    let mut w = std430::Writer::new(s.clone());
    w.write(&v3(1.0, 2.0, 3.0)).unwrap_err();
    s.0.borrow_mut().data.truncate(w.len());
    assert_eq!(w.write(&v3(1.0, 2.0, 3.0)).unwrap(), 0);
    assert_eq!(s.data().len(), 12);
}
''')

bug("c05-dynamic-uniform-rounded", "C05",
    "a DynamicUniform around a value of more than 256 bytes whose size is no multiple of 256",
    "the static size of a DynamicUniform larger than its alignment is rounded up to it, though the writer sends only the value",
    [("src/std140/dynamic_uniform.rs", """    fn from_std140(value: Self::Output) -> Self {
        DynamicUniform(""", """    fn std140_size_static() -> usize {
        let size = T::std140_size_static();
        match size > Self::Output::ALIGNMENT {
            true => size + crate::internal::align_offset(size, Self::Output::ALIGNMENT),
            false => size,
        }
    }

    fn from_std140(value: Self::Output) -> Self {
        DynamicUniform(""")],
    r'''
type M = mint::ColumnMatrix4<f32>;
#[derive(AsStd140)]
struct Big {
    a: M,
    b: M,
    c: M,
    d: M,
    e: f32,
}
fn main() {
    assert_eq!(DynamicUniform::<Big>::std140_size_static(), 272);
}
''')

bug("c05-sizer-u32", "C05",
    "sizes adding up to more than 4 GiB in a std140 size calculator",
    "the std140 size calculator counts in 32 bits",
    [("src/std140/sizer.rs", "pub struct Sizer {\n    offset: usize,", "pub struct Sizer {\n    offset: u32,"),
     ("src/std140/sizer.rs", """        let padding = align_offset(self.offset, alignment);

        self.offset += padding;
        let write_here = self.offset;

        self.offset += size;

        write_here
""", """        let padding = align_offset(self.len(), alignment);

        self.offset = self.offset.wrapping_add(padding as u32);
        let write_here = self.len();

        self.offset = self.offset.wrapping_add(size as u32);

        write_here
"""),
     ("src/std140/sizer.rs", "    pub fn len(&self) -> usize {\n        self.offset\n", "    pub fn len(&self) -> usize {\n        self.offset as usize\n")],
    r'''
fn main() {
    let mut s = std140::Sizer::new();
    for _ in 0..(1u64 << 32) / 128 {
        s.add::<mint::ColumnMatrix4<f64>>();
    }
    assert_eq!(s.add::<u32>(), 1 << 32);
}
''')

bug("c06-many-fields", "C06",
    "a struct with more than 32 members",
    "the definition is laid out in a table of at most 32 lines, so further members are left out of it",
    [("src/glsl.rs", "        for field in Self::FIELDS {\n", "        for field in Self::FIELDS.iter().take(32) {\n")],
    r'''
use crevice::glsl::GlslStruct;
macro_rules! wide {
    ($($f:ident)*) => {
        #[derive(GlslStruct)]
        struct Wide {
            $($f: f32,)*
        }
    };
}
wide!(a00 a01 a02 a03 a04 a05 a06 a07 a08 a09 a10 a11 a12 a13 a14 a15 a16 a17 a18 a19
      a20 a21 a22 a23 a24 a25 a26 a27 a28 a29 a30 a31 a32 a33);
fn main() {
    assert!(Wide::glsl_definition().contains("float a33;"));
}
''')

bug("c06-trailing-underscore", "C06",
    "a field whose name ends in an underscore, as one called after a keyword would",
    "trailing underscores are taken off member names",
    [("src/glsl.rs", "            output.push_str(field.name);\n", "            // `type_` is only called that because of Rust's keywords.\n            output.push_str(field.name.trim_end_matches('_'));\n")],
    r'''
use crevice::glsl::GlslStruct;
#[derive(GlslStruct)]
struct Light {
    kind_: u32,
    kind: u32,
}
fn main() {
    assert!(Light::glsl_definition().contains("uint kind_;"));
}
''')

bug("c07-bool-sign", "C07",
    "a shader that stores true as all ones, as several do",
    "a boolean word is taken for a signed number and only counts as true above zero",
    [("src/bool.rs", "        v.0 != 0\n", "        (v.0 as i32) > 0\n")],
    r'''
fn main() {
    let word: std140::Bool = bytemuck::cast(u32::MAX);
    assert!(bool::from_std140(word));
}
''')

bug("c08-depth-leak", "C08",
    "sixteen failed or panicking write_iter calls on one thread, followed by a write_iter of any writer on that thread",
    "write_iter keeps count of its nesting per thread and does not count back when it is left early, so that after enough failures every writer on the thread reports too deep a nesting",
    [(W140, """        for item in iter {
            item.write_std140(self)?;
        }
""", """        let depth = DEPTH.with(|depth| depth.replace(depth.get() + 1));
        if depth >= 16 {
            return Err(io::Error::new(io::ErrorKind::Other, "values nested too deeply"));
        }
        for item in iter {
            item.write_std140(self)?;
        }
        DEPTH.with(|depth| depth.set(depth.get() - 1));
"""), (W140, "impl<W: Write> Writer<W> {\n    /// Create", """thread_local! {
    static DEPTH: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}

impl<W: Write> Writer<W> {
    /// Create""")],
    r'''
fn main() {
    for _ in 0..40 {
        let s = Sink::new(vec![Act::Take(4), Act::Fail(io::ErrorKind::TimedOut.into())]);
        std140::Writer::new(s).write_iter([1u32, 2, 3]).unwrap_err();
    }
    std140::Writer::new(Sink::default()).write_iter([1u32, 2, 3]).unwrap();
}
''')

bug("c05-size-remembered-by-address", "C05",
    "two slices of composites of the same number of elements, one after the other at the same address, with different contents",
    "the size of a slice is remembered per thread for its address and number of elements",
    [("src/std140/traits.rs", """        Ok(offset)
    }

    fn std140_size(&self) -> usize {
        let mut writer = Writer::new(io::sink());
        self.write_std140(&mut writer).unwrap();
        writer.len()
""", """        Ok(offset)
    }

    fn std140_size(&self) -> usize {
        // Usually asked for more than once in a row.
        thread_local! {
            static LAST: std::cell::Cell<(usize, usize, usize)> = const { std::cell::Cell::new((0, 0, 0)) };
        }
        let (at, count) = (self.as_ptr() as usize, self.len());
        let last = LAST.with(|last| last.get());
        if count > 0 && (last.0, last.1) == (at, count) {
            return last.2;
        }
        let mut writer = Writer::new(io::sink());
        self.write_std140(&mut writer).unwrap();
        LAST.with(|last| last.set((at, count, writer.len())));
        writer.len()
""")],
    r'''
struct Names(Vec<u32>);
impl WriteStd140 for Names {
    fn write_std140<W: Write>(&self, w: &mut std140::Writer<W>) -> io::Result<usize> {
        w.write(self.0.as_slice())
    }
}
fn main() {
    let mut v = vec![Names(vec![1]), Names(vec![2])];
    assert_eq!(v.as_slice().std140_size(), 8);
    v[0].0.push(3);
    assert_eq!(v.as_slice().std140_size(), 12);
}
''')

bug("c10-double-struct-tail", "C10",
    "a slice of derived structs that hold a vector or matrix of doubles aligned to 32 bytes and end in something smaller",
    "the end of a std140 struct is padded to 16 bytes only and not to the struct's own alignment, so elements of wide alignment are closer together and the next member lands too early",
    [(LAYOUT, ".unwrap_or(quote!(#struct_alignment));", """.unwrap_or(match min_struct_alignment {
                    0 => quote!(#struct_alignment),
                    min => quote!(#min),
                });""")],
    r'''
#[derive(AsStd140)]
struct Probe {
    at: mint::Vector4<f64>,
    weight: f32,
}
fn main() {
    assert_eq!(Probe::std140_size_static(), 64);
}
''')

bug("c11-stubborn-would-block", "C11",
    "a sink that would block for long while padding is written",
    "padding is so short that a sink that would block is asked again until it takes it, without end",
    [(W430, PAD_LOOP, '''        for _ in 0..padding {
            while let Err(err) = self.writer.write_all(&[0]) {
                if err.kind() != io::ErrorKind::WouldBlock {
                    return Err(err);
                }
            }
        }
        self.offset += padding;
''')],
    r'''
struct Busy(usize);
impl Write for Busy {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.0 += 1;
        if self.0 > 100_000 {
            std::process::exit(1);
        }
        if self.0 > 2 {
            return Err(io::ErrorKind::WouldBlock.into());
        }
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
fn main() {
    let mut w = std430::Writer::new(Busy(0));
    w.write(&1u32).unwrap();
    w.write(&v3(1.0, 2.0, 3.0)).unwrap_err();
}
''')


bug("c14-lazy-zeroes-race", "C14",
    "two threads whose first values with a gap are written at the same time",
    "the block of zeros padding is taken from is set up by the first writer that needs it, in a static without synchronisation: a data race, although every thread stores the same zeros",
    [(W140, PAD_LOOP, '''        // One call for all of the padding, from a block that is set up once.
        static mut ZEROES: [u8; 64] = [0xff; 64];
        static mut READY: bool = false;
        let zeroes: &[u8] = unsafe {
            if !*core::ptr::addr_of!(READY) {
                core::ptr::write_bytes(core::ptr::addr_of_mut!(ZEROES), 0, 1);
                *core::ptr::addr_of_mut!(READY) = true;
            }
            &*core::ptr::addr_of!(ZEROES)
        };
        let mut left = padding;
        while left > 0 {
            let now = left.min(zeroes.len());
            self.writer.write_all(&zeroes[..now])?;
            left -= now;
        }
        self.offset += padding;
''')],
    r'''
fn main() {
    // Under Miri: a race ends the process.
    let work = || {
        for _ in 0..3 {
            let mut w = std140::Writer::new(Vec::new());
            w.write(&1.0f32).unwrap();
            w.write(&v3(1.0, 2.0, 3.0)).unwrap();
            assert_eq!(w.len(), 28);
        }
    };
    let t: Vec<_> = (0..3).map(|_| std::thread::spawn(work)).collect();
    t.into_iter().for_each(|t| t.join().unwrap());
}
''', miri=True)

bug("c14-bool-transmuted", "C14",
    "a boolean decoded from a device word other than 0 and 1",
    "the boolean made from a device's word is produced by reinterpreting a byte that may be neither 0 nor 1: an invalid value of bool",
    [("src/bool.rs", '''        v.0 != 0
''', '''        // Any bit set means true; fold the word into its low byte, without a branch.
        let folded = v.0 | v.0 >> 16;
        let folded = (folded | folded >> 8) as u8;
        unsafe { core::mem::transmute::<u8, bool>(folded) }
''')],
    r'''
fn main() {
    // Under Miri: an invalid value ends the process.
    for word in [1u32, 0, 2, 0x8000_0000, u32::MAX, 0x100] {
        let b: std140::Bool = bytemuck::cast(word);
        assert_eq!(bool::from_std140(b) as u8, (word != 0) as u8);
    }
}
''', miri=True)

bug("c14-tail-padding-by-align", "C14",
    "the bytes after the last field of a derived std140 struct whose fields do not fill it, seen as bytes",
    "the padding at the end of derived std140 structs is left to Rust's alignment: the bytes there are never initialised, though the struct is viewed as plain bytes",
    [("crevice-derive/src/layout.rs", '''            let starting_offset = offset_after_field(index);

            let next_field''', '''            let starting_offset = offset_after_field(index);
            let starting_offset = if index + 1 == fields.len() && min_struct_alignment > 0 {
                // The end of the struct is aligned by `repr(align)` already.
                quote!((((#starting_offset) + #min_struct_alignment - 1) / #min_struct_alignment * #min_struct_alignment))
            } else {
                starting_offset
            };

            let next_field'''),
     ("crevice-derive/src/layout.rs", '''    let struct_definition = quote! {
        #[derive(Debug, Clone, Copy)]
        #[repr(C)]
''', '''    let repr: syn::Attribute = match min_struct_alignment {
        16 => parse_quote!(#[repr(C, align(16))]),
        _ => parse_quote!(#[repr(C)]),
    };

    let struct_definition = quote! {
        #[derive(Debug, Clone, Copy)]
        #repr
''')],
    r'''
#[derive(AsStd140)]
struct S {
    a: mint::Vector4<f32>,
    b: f32,
}
fn main() {
    // Under Miri: looking at a byte that was never written ends the process.
    let s = S { a: mint::Vector4 { x: 1.0, y: 2.0, z: 3.0, w: 4.0 }, b: 5.0 };
    let o = s.as_std140();
    use std140::Std140;
    let bytes = o.as_bytes();
    assert_eq!(bytes.len(), 32);
    assert_eq!(&bytes[20..], &[0; 12]);
}
''', miri=True)

bug("c14-mat3-reads-past", "C14",
    "a 3x3 matrix of floats converted for std140",
    "a 3x3 matrix is converted by reading whole four-float rows from its nine floats, past its end; the gaps are cleared afterwards, so the result looks right",
    [("src/imp/imp_mint.rs", """    Mat3 mint::ColumnMatrix3<f32> { x, y, z },
""", ""),
     ("src/imp/imp_mint.rs", """easy_impl! {
    Vec2 mint::Vector2<f32> { x, y },
""", """impl crate::std140::AsStd140 for mint::ColumnMatrix3<f32> {
    type Output = crate::std140::Mat3;

    #[inline]
    fn as_std140(&self) -> Self::Output {
        // Whole rows of four at a time; what comes after a column is cleared.
        let floats = self as *const Self as *const f32;
        let row = |i: usize| {
            let mut row = unsafe { floats.add(3 * i).cast::<[f32; 4]>().read_unaligned() };
            row[3] = 0.0;
            row
        };
        bytemuck::cast([row(0), row(1), row(2)])
    }

    #[inline]
    fn from_std140(value: Self::Output) -> Self {
        Self {
            x: <_ as crate::std140::AsStd140>::from_std140(value.x),
            y: <_ as crate::std140::AsStd140>::from_std140(value.y),
            z: <_ as crate::std140::AsStd140>::from_std140(value.z),
        }
    }
}

impl crate::std430::AsStd430 for mint::ColumnMatrix3<f32> {
    type Output = crate::std430::Mat3;

    #[inline]
    fn as_std430(&self) -> Self::Output {
        crate::std430::Mat3 {
            x: self.x.as_std430(),
            y: self.y.as_std430(),
            z: self.z.as_std430(),
            ..bytemuck::Zeroable::zeroed()
        }
    }

    #[inline]
    fn from_std430(value: Self::Output) -> Self {
        Self {
            x: <_ as crate::std430::AsStd430>::from_std430(value.x),
            y: <_ as crate::std430::AsStd430>::from_std430(value.y),
            z: <_ as crate::std430::AsStd430>::from_std430(value.z),
        }
    }
}

unsafe impl crate::glsl::Glsl for mint::ColumnMatrix3<f32> {
    const NAME: &'static str = "mat3";
}

easy_impl! {
    Vec2 mint::Vector2<f32> { x, y },
""")],
    r'''
fn main() {
    // Under Miri: a read past the end of the matrix ends the process.
    let m = Box::new(mint::ColumnMatrix3 { x: v3(1.0, 2.0, 3.0), y: v3(4.0, 5.0, 6.0), z: v3(7.0, 8.0, 9.0) });
    let o = m.as_std140();
    assert_eq!(o.z.z, 9.0);
}
''', miri=True)

bug("c08-phase-per-thread", "C08",
    "a writer that is handed to another thread, written to there and handed back, while the first thread uses no other writer",
    "each thread remembers the phase of the writer it used last; what a writer wrote on another thread in between is not seen, so padding is computed from a stale position",
    [(W140, '''        let padding = align_offset(self.offset, T::ALIGNMENT);

''', '''        // The phase of the writer this thread used last saves the division.
        let (number, phase) = RECENT.with(|recent| recent.replace((0, 0)));
        let phase = if number == self.number { phase } else { self.offset % 256 };
        let padding = align_offset(phase, T::ALIGNMENT);

'''),
     (W140, '''        self.offset += size_of::<T>();

        Ok(write_here)''', '''        self.offset += size_of::<T>();
        RECENT.with(|recent| recent.set((self.number, self.offset % 256)));

        Ok(write_here)'''),
     (W140, '''    offset: usize,
}

impl<W: Write>''', '''    offset: usize,
    number: u64,
}

thread_local! {
    /// Number and phase of the writer that was used last.
    static RECENT: std::cell::Cell<(u64, usize)> = const { std::cell::Cell::new((0, 0)) };
}

static NUMBERS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(1);

impl<W: Write>'''),
     (W140, "Self { writer, offset: 0 }", "Self {\n            writer,\n            offset: 0,\n            number: NUMBERS.fetch_add(1, std::sync::atomic::Ordering::Relaxed),\n        }")],
    r'''
fn main() {
    let mut w = std140::Writer::new(Vec::new());
    w.write(&1.0f32).unwrap();
    let mut w = std::thread::spawn(move || {
        w.write(&2.0f32).unwrap();
        w
    })
    .join()
    .unwrap();
    assert_eq!(w.write(&v3(1.0, 2.0, 3.0)).unwrap(), 16);
}
''')

bug("c06-definition-by-name", "C06",
    "two structs of the same name in different modules, both asked for their definition in one process",
    "glsl_definition remembers the text by the struct's name and hands the first one's to the second",
    [("src/glsl.rs", '''    fn glsl_definition() -> String {
        let mut output = String::new();
''', '''    fn glsl_definition() -> String {
        // The text never changes, so it is made once.
        static TEXTS: std::sync::Mutex<Vec<(&'static str, String)>> = std::sync::Mutex::new(Vec::new());
        let mut texts = TEXTS.lock().unwrap_or_else(|e| e.into_inner());
        if let Some((_, text)) = texts.iter().find(|(name, _)| *name == Self::NAME) {
            return text.clone();
        }

        let mut output = String::new();
'''), ("src/glsl.rs", '''        output.push_str("};");
        output
''', '''        output.push_str("};");
        texts.push((Self::NAME, output.clone()));
        output
''')],
    r'''
use crevice::glsl::GlslStruct;
mod sky {
    #[derive(crevice::glsl::GlslStruct)]
    pub struct Params { pub a: f32 }
}
mod sea {
    #[derive(crevice::glsl::GlslStruct)]
    pub struct Params { pub b: u32, pub c: f32 }
}
fn main() {
    let a = sky::Params::glsl_definition();
    let b = sea::Params::glsl_definition();
    assert!(a.contains("float a"), "{a}");
    assert!(b.contains("uint b") && !b.contains("float a"), "{b}");
}
''')

bug("c01-vectored-boundary", "C01",
    "a sink that takes several buffers in one call and accepts all of the padding and part of the value",
    "padding and value are offered together; when a call accepts more than the padding, the rest of the value starts in the wrong place",
    [(W430, '''        for _ in 0..padding {
            self.writer.write_all(&[0])?;
        }
        self.offset += padding;

        let value = value.as_std430();
        self.writer.write_all(bytes_of(&value))?;
''', '''        let value = value.as_std430();
        let mut bytes = bytes_of(&value);
        let mut left = padding;

        // Padding and value in one go, where the sink can do that.
        while left > 0 {
            const ZEROES: [u8; 32] = [0; 32];
            let zeroes = &ZEROES[..left.min(ZEROES.len())];
            let value = if left <= ZEROES.len() { bytes } else { &[] };

            match self
                .writer
                .write_vectored(&[io::IoSlice::new(zeroes), io::IoSlice::new(value)])
            {
                Ok(0) => return Err(io::ErrorKind::WriteZero.into()),
                Ok(accepted) if accepted <= left => {
                    left -= accepted;
                    self.offset += accepted;
                }
                Ok(accepted) => {
                    self.offset += left;
                    bytes = &bytes[accepted - padding..];
                    left = 0;
                }
                Err(error) if error.kind() == io::ErrorKind::Interrupted => {}
                Err(error) => return Err(error),
            }
        }
        self.writer.write_all(bytes)?;
''')],
    r'''
struct Wide(Vec<u8>, Vec<usize>);
impl Write for Wide {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.0.extend_from_slice(b);
        Ok(b.len())
    }
    fn write_vectored(&mut self, bufs: &[io::IoSlice<'_>]) -> io::Result<usize> {
        let n = self.1.pop().unwrap_or(usize::MAX);
        let all: Vec<u8> = bufs.iter().flat_map(|b| b.iter().copied()).take(n).collect();
        self.0.extend_from_slice(&all);
        Ok(all.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
fn main() {
    let mut sink = Wide(vec![], vec![14, 5]);
    let mut w = std430::Writer::new(&mut sink);
    w.write(&1.0f32).unwrap();
    w.write(&v3(1.0, 2.0, 3.0)).unwrap();
    let mut want = vec![];
    want.extend_from_slice(&1.0f32.to_ne_bytes());
    want.extend_from_slice(&[0; 12]);
    for x in [1.0f32, 2.0, 3.0] {
        want.extend_from_slice(&x.to_ne_bytes());
    }
    assert_eq!(sink.0, want);
}
''')

bug("c02-words-of-padding", "C02",
    "a layout type of the user's whose size is no multiple of four, followed by a value that needs one to three bytes of padding",
    "padding is counted and written in whole words, because every type of the crate is made of words; the position reported then is not a multiple of the alignment",
    [(W140, '''        let padding = align_offset(self.offset, T::ALIGNMENT);

        for _ in 0..padding {
            self.writer.write_all(&[0])?;
        }
''', '''        // Everything is made of words.
        let padding = align_offset(self.offset, T::ALIGNMENT) / 4 * 4;

        for _ in 0..padding / 4 {
            self.writer.write_all(&[0; 4])?;
        }
''')],
    r'''
#[derive(Clone, Copy)]
#[repr(transparent)]
struct Rgb([u8; 3]);
unsafe impl bytemuck::Zeroable for Rgb {}
unsafe impl bytemuck::Pod for Rgb {}
unsafe impl std140::Std140 for Rgb {
    const ALIGNMENT: usize = 1;
}
fn main() {
    let mut w = std140::Writer::new(Vec::new());
    assert_eq!(w.write(&Rgb([1, 2, 3])).unwrap(), 0);
    assert_eq!(w.write(&1.0f32).unwrap(), 4);
    assert_eq!(w.len(), 8);
}
''')

bug("c02-hint-decides-empty", "C02",
    "an iterator whose lower size bound is zero although it yields items, and a first item that needs padding",
    "the position of the first item is only kept when the iterator promises to yield one; filtered iterators report the length before padding",
    [(W430, '''        if let Some(item) = iter.next() {
            offset = item.write_std430(self)?;
        }
''', '''        // The first one decides where all of them are.
        if iter.size_hint().0 > 0 {
            if let Some(item) = iter.next() {
                offset = item.write_std430(self)?;
            }
        }
''')],
    r'''
fn main() {
    let mut w = std430::Writer::new(Vec::new());
    w.write(&1.0f32).unwrap();
    let all = vec![v3(1.0, 2.0, 3.0), v3(4.0, 5.0, 6.0)];
    let at = w.write_iter(all.iter().copied().filter(|v| v.x > 2.0)).unwrap();
    assert_eq!(at, 16);
    assert_eq!(w.len(), 28);
}
''')

bug("c05-size-asked-within", "C05",
    "a composite value whose write asks for the size of a part of it, and that is asked for its own size",
    "sizes are counted in a buffer that each thread has one of; the inner question empties it under the outer one",
    [("src/std140/traits.rs", '''    fn std140_size(&self) -> usize {
        let mut writer = Writer::new(io::sink());
        self.write_std140(&mut writer).unwrap();
        writer.len()
    }
}

#[cfg(feature = "std")]
impl<T> WriteStd140 for T''', '''    fn std140_size(&self) -> usize {
        counted(|sink| self.write_std140(&mut Writer::new(sink)).map(drop))
    }
}

/// Counts what arrives in a sink.
#[cfg(feature = "std")]
fn counted(write: impl FnOnce(Count) -> io::Result<()>) -> usize {
    COUNT.with(|count| count.set(0));
    write(Count).unwrap();
    COUNT.with(|count| count.get())
}

#[cfg(feature = "std")]
struct Count;

#[cfg(feature = "std")]
thread_local! {
    static COUNT: core::cell::Cell<usize> = const { core::cell::Cell::new(0) };
}

#[cfg(feature = "std")]
impl Write for Count {
    fn write(&mut self, bytes: &[u8]) -> io::Result<usize> {
        COUNT.with(|count| count.set(count.get() + bytes.len()));
        Ok(bytes.len())
    }

    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

#[cfg(feature = "std")]
impl<T> WriteStd140 for T'''), ("src/std140/traits.rs", '''    fn std140_size(&self) -> usize {
        let mut writer = Writer::new(io::sink());
        self.write_std140(&mut writer).unwrap();
        writer.len()
    }
}
''', '''    fn std140_size(&self) -> usize {
        counted(|sink| self.write_std140(&mut Writer::new(sink)).map(drop))
    }
}
''')],
    r'''
struct List(Vec<mint::Vector3<f32>>);
impl WriteStd140 for List {
    fn write_std140<W: Write>(&self, w: &mut std140::Writer<W>) -> io::Result<usize> {
        let at = w.write(&1u32)?;
        w.write(&(self.0.as_slice().std140_size() as u32))?;
        w.write(self.0.as_slice())?;
        Ok(at)
    }
}
fn main() {
    let l = List(vec![v3(1.0, 2.0, 3.0); 2]);
    let mut w = std140::Writer::new(Vec::new());
    w.write(&l).unwrap();
    assert_eq!(w.len(), 44);
    assert_eq!(l.std140_size(), 44);
}
''')

bug("c02-counted-in-assertion", "C02",
    "crevice built without debug assertions, as in release builds, and a value that needs padding in a std430 stream",
    "the padding is added to the position inside a debug_assert!, so in a release build the position falls behind the sink with every gap",
    [(W430, PAD_LOOP, '''        for _ in 0..padding {
            self.writer.write_all(&[0])?;
        }
        debug_assert!(
            {
                self.offset += padding;
                T::ALIGNMENT == 0 || self.offset % T::ALIGNMENT == 0
            },
            "the padding ends where the value may start"
        );
''')],
    r'''
fn main() {
    let mut out = Vec::new();
    let mut w = std430::Writer::new(&mut out);
    w.write(&1f32).unwrap();
    assert_eq!(w.write(&v3(1.0, 2.0, 3.0)).unwrap(), 16);
    assert_eq!(w.len(), 28);
    drop(w);
    assert_eq!(out.len(), 28);
}
''', release=True)

bug("c11-collects-first", "C11",
    "write_iter with an iterator that goes on for ever (or far longer than the sink has room) and a sink that ends",
    "the iterator is collected before the first value is written, so a call with an endless iterator never comes back although the sink would fail",
    [(W430, '''        let mut iter = iter.into_iter().fuse();

        if let Some(item) = iter.next() {
            offset = item.write_std430(self)?;
        }

        for item in iter {
''', '''        // Nothing of the iterator runs between two writes.
        let items: Vec<T> = iter.into_iter().collect();
        let mut items = items.into_iter();

        if let Some(item) = items.next() {
            offset = item.write_std430(self)?;
        }

        for item in items {
''')],
    r'''
fn main() {
    let mut left = 2_000_000u32;
    let numbers = std::iter::from_fn(move || {
        left = left.checked_sub(1).expect("the sink was full long ago");
        Some(left)
    });
    let mut memory = [0u8; 64];
    let mut w = std430::Writer::new(&mut memory[..]);
    assert_eq!(w.write_iter(numbers).unwrap_err().kind(), io::ErrorKind::WriteZero);
    assert_eq!(w.len(), 64);
}
''')

bug("c09-view-without-tail", "C09",
    "the derived layout struct's own as_bytes, on a struct that ends in padding",
    "the byte view leaves the padding at the end out, so that much of the target keeps what it held before",
    [("crevice-derive/src/layout.rs", '''    quote! {
        #pad_fn_impls
        #struct_definition
''', '''    // Nobody reads what comes after the last field.
    let tail = pad_fns.last().map_or(quote!(0), |pad| quote!(#pad));

    quote! {
        #pad_fn_impls
        #struct_definition
'''), ("crevice-derive/src/layout.rs", '''                <#generated_name #ty_generics as #trait_path>::as_bytes(self)
''', '''                let bytes = <#generated_name #ty_generics as #trait_path>::as_bytes(self);
                &bytes[..bytes.len() - #tail]
''')],
    r'''
#[derive(AsStd140)]
struct Light {
    color: mint::Vector3<f32>,
    on: u32,
    reach: f32,
}
fn main() {
    let l = Light { color: v3(1.0, 2.0, 3.0), on: 1, reach: 4.0 };
    let s = l.as_std140();
    assert_eq!(s.as_bytes().len(), 32);
    assert_eq!(s.as_bytes(), std140::Std140::as_bytes(&s));
}
''')

bug("c08-definition-scratch", "C08",
    "two GLSL definitions generated at the same time on different threads, one after the other having started",
    "the text is assembled in one static buffer that is only locked for each piece, so pieces of one definition end up in the other",
    [("src/glsl.rs", '''        let mut output = String::new();
        output.push_str("struct ");
        output.push_str(Self::NAME);
        output.push_str(" {\\n");

        for field in Self::FIELDS {
            output.push('\\t');
            output.push_str(field.ty);
            output.push(' ');
            output.push_str(field.name);
            output.push_str(";\\n");
        }

        output.push_str("};");
        output
''', '''        // One buffer for all definitions: they are of about the same size.
        static TEXT: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
        let add = |text: &str| TEXT.lock().unwrap().push_str(text);
        TEXT.lock().unwrap().clear();
        add("struct ");
        add(Self::NAME);
        add(" {\\n");

        for field in Self::FIELDS {
            add("\\t");
            add(field.ty);
            add(" ");
            add(field.name);
            add(";\\n");
        }

        add("};");
        TEXT.lock().unwrap().clone()
''')],
    r'''
use crevice::glsl::GlslStruct;
#[derive(GlslStruct)]
struct Light {
    color: mint::Vector3<f32>,
    reach: f32,
    on: u32,
}
#[derive(GlslStruct)]
struct Camera {
    view: mint::ColumnMatrix4<f32>,
    near: f32,
    far: f32,
}
fn main() {
    let light = "struct Light {\n\tvec3 color;\n\tfloat reach;\n\tuint on;\n};";
    let camera = "struct Camera {\n\tmat4 view;\n\tfloat near;\n\tfloat far;\n};";
    assert_eq!(Light::glsl_definition(), light);
    let threads: Vec<_> = (0..4)
        .map(|k| {
            std::thread::spawn(move || {
                for _ in 0..200_000 {
                    match k % 2 {
                        0 => assert_eq!(Light::glsl_definition(), light),
                        _ => assert_eq!(Camera::glsl_definition(), camera),
                    }
                }
            })
        })
        .collect();
    for t in threads {
        t.join().unwrap();
    }
}
''')

bug("c01-flushes-slices", "C01",
    "write_iter (or a slice) through a std140 writer into a sink that cannot be flushed, such as a pipe or device that answers flush with an error",
    "the sink is flushed after a sequence of values, and its refusal makes the write fail although every byte was accepted",
    [(W140, '''        for item in iter {
            item.write_std140(self)?;
        }

        Ok(offset)
''', '''        for item in iter {
            item.write_std140(self)?;
        }

        // Hand a batch on as a whole.
        if offset != self.offset {
            self.writer.flush()?;
        }

        Ok(offset)
''')],
    r'''
struct Pipe(Vec<u8>);
impl Write for Pipe {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.0.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Err(io::ErrorKind::Unsupported.into())
    }
}
fn main() {
    let mut w = std140::Writer::new(Pipe(Vec::new()));
    assert_eq!(w.write_iter([1.0f32, 2.0]).unwrap(), 0);
    assert_eq!(w.len(), 8);
}
''')
