//! Every supported host type, behind function pointers, in both layouts.

use crate::dev::Sink;
use crate::hooks::{callback, Runaway};
use crate::model::{Layout, Node, Ty};
use crate::simty::{Reader, SimTy};
use crate::trace::Call;
use crevice::glsl::{Glsl, GlslStruct};
use crevice::{std140, std430};
use std::any::Any;
use std::collections::BTreeMap;
use std::io;
use std::sync::Arc;

pub enum Wr {
    W140(std140::Writer<Sink>),
    W430(std430::Writer<Sink>),
}

impl Wr {
    pub fn new(l: Layout, s: Sink) -> Wr {
        match l {
            Layout::Std140 => Wr::W140(std140::Writer::new(s)),
            Layout::Std430 => Wr::W430(std430::Writer::new(s)),
        }
    }
    pub fn len(&self) -> usize {
        match self {
            Wr::W140(w) => w.len(),
            Wr::W430(w) => w.len(),
        }
    }
}

pub enum Sz {
    S140(std140::Sizer),
    S430(std430::Sizer),
}

impl Sz {
    pub fn new(l: Layout) -> Sz {
        match l {
            Layout::Std140 => Sz::S140(std140::Sizer::new()),
            Layout::Std430 => Sz::S430(std430::Sizer::new()),
        }
    }
    pub fn len(&self) -> usize {
        match self {
            Sz::S140(w) => w.len(),
            Sz::S430(w) => w.len(),
        }
    }
}

pub type Built = Arc<dyn Any + Send + Sync>;

pub struct Ops {
    /// Runs one write call on values made by `TypeEntry::build`.
    /// The last argument holds what an iterator offers after its end.
    pub write: fn(&mut Wr, Call, &Built, Option<&Built>) -> io::Result<usize>,
    /// Writes the atoms of the values one by one, skipping the first few.
    pub write_atoms: fn(&mut Wr, &Built, usize, &mut Vec<usize>) -> io::Result<()>,
    /// Feeds the types of the values' atoms to a size calculator.
    pub sizer: fn(&mut Sz, &Built, &mut Vec<usize>),
    /// Size per type; None for composites.
    pub size_static: Option<fn() -> usize>,
    /// Size of the first value.
    pub size_one: fn(&Built) -> usize,
    /// Size of the slice of values.
    pub size_slice: fn(&Built) -> usize,
    /// Bytes of the converted first value, by the layout trait and by the
    /// layout struct's own method; None for composites.
    pub as_bytes: Option<fn(&Built) -> (Vec<u8>, Option<Vec<u8>>)>,
    /// Decodes an image and takes the value apart; None for composites.
    pub decode: Option<fn(&[u8]) -> Vec<u64>>,
    /// Decodes and encodes again.
    pub reencode: Option<fn(&[u8]) -> Vec<u8>>,
    /// Handles the layout type of the first value as plain bytes; `what` says
    /// how. Only where undefined behaviour is noticed.
    #[cfg(miri)]
    pub pod: Option<fn(&Built, &[u8], u64) -> u64>,
}

#[derive(Clone)]
pub struct GlslInfo {
    pub name: &'static str,
    pub definition: Option<fn() -> String>,
    pub fields: Option<fn() -> Vec<(String, String)>>,
}

pub struct TypeEntry {
    pub name: String,
    pub lib: &'static str,
    /// None for composites.
    pub ty: Option<Ty>,
    pub node: fn(&[u64]) -> Node,
    pub gen_shape: Shape,
    pub build: fn(&[Vec<u64>]) -> Built,
    pub std140: Option<Ops>,
    pub std430: Option<Ops>,
    pub glsl: Option<GlslInfo>,
    /// The host type is a layout type itself and keeps gap bytes as they are.
    pub passthrough: bool,
    /// Struct definition, for reports.
    pub source: &'static str,
}

/// How to draw component vectors for a type.
#[derive(Clone)]
pub enum Shape {
    Fixed(Ty),
    /// head, then any number of items
    Batch(Ty, Ty),
    /// at least one item
    Tail(Ty),
}

impl TypeEntry {
    pub fn ops(&self, l: Layout) -> Option<&Ops> {
        match l {
            Layout::Std140 => self.std140.as_ref(),
            Layout::Std430 => self.std430.as_ref(),
        }
    }
}

fn vec_of<T: 'static>(b: &Built) -> &Vec<T> {
    b.downcast_ref::<Vec<T>>().expect("built value type")
}

trait Dup {
    fn dup(&self) -> Self;
}

impl<T: SimTy> Dup for T {
    fn dup(&self) -> Self {
        SimTy::dup(self)
    }
}

/// The iterator a program hands to `write_iter`. It ends once its values have
/// been taken; polled again after that it may have new ones (as a queue has
/// that another thread fills), which do not belong to this call.
struct Feed<'a, T> {
    now: std::slice::Iter<'a, T>,
    late: std::slice::Iter<'a, T>,
    ended: bool,
    hint: usize,
    /// Begin again with these, and items given so far.
    again: Option<(&'a [T], u32)>,
}

/// An endless iterator gives up after so many items. The sinks it is used with
/// hold fewer.
const MOST_ITEMS: u32 = 50_000;

impl<'a, T> Feed<'a, T> {
    fn new(now: &'a [T], late: Option<&'a Vec<T>>) -> Self {
        let late = late.map(|l| l.as_slice()).unwrap_or(&[]);
        Feed {
            now: now.iter(),
            late: late.iter(),
            ended: false,
            hint: now.len() * 3 + late.len() * 5,
            again: None,
        }
    }
    fn endless(now: &'a [T]) -> Self {
        Feed {
            again: Some((now, 0)),
            ..Feed::new(now, None)
        }
    }
}

impl<T: Dup> Iterator for Feed<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        callback();
        if let Some((all, given)) = &mut self.again {
            *given += 1;
            if *given > MOST_ITEMS {
                std::panic::panic_any(Runaway);
            }
            if self.now.len() == 0 {
                self.now = all.iter();
            }
        }
        let t = match self.ended {
            false => self.now.next(),
            true => self.late.next(),
        };
        self.ended |= t.is_none();
        t.map(Dup::dup)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.now.len();
        if self.again.is_some() {
            return match self.hint % 2 {
                0 => (usize::MAX, None),
                _ => (0, None),
            };
        }
        match self.hint % 7 {
            0 => (n, Some(n)),
            1 => (0, None),
            2 => (n / 2, Some(n * 2 + 1)),
            3 => (n, None),
            4 => (0, Some(n)),
            5 => (0, Some(usize::MAX)),
            _ => (n.min(1), Some(n + 1)),
        }
    }
}

fn build_vec<T: SimTy>(vals: &[Vec<u64>]) -> Built {
    Arc::new(vals.iter().map(|v| T::from_leaves(v)).collect::<Vec<T>>())
}

fn atom_node<T: SimTy>(v: &[u64]) -> Node {
    Node::Atom(T::ty(), v.to_vec())
}

macro_rules! layout_ops {
    ($fname:ident, $bname:ident, $tname:ident, $m:ident, $As:ident, $WriteTr:ident, $Std:ident, $W:ident, $S:ident,
     $as_fn:ident, $from_fn:ident, $write_fn:ident, $size_static:ident, $size_fn:ident, old: $old:expr) => {
        pub fn $fname<T: SimTy + $m::$As>() -> Ops {
            use bytemuck::Zeroable;
            use $m::{$Std as _, $WriteTr as _};
            let _ = <T as $m::$As>::Output::zeroed;
            Ops {
                write: |w, call, b, late| {
                    let w = match w {
                        Wr::$W(w) => w,
                        _ => unreachable!(),
                    };
                    let v = vec_of::<T>(b);
                    match call {
                        Call::Write => w.write(&v[0]),
                        Call::Slice => w.write(v.as_slice()),
                        Call::Iter => w.write_iter(Feed::new(v, late.map(vec_of::<T>))),
                        Call::Endless => w.write_iter(Feed::endless(v)),
                        Call::Output => w.$write_fn(&v[0].$as_fn()),
                        Call::SliceOld => $old(w, v),
                        Call::Trait => $m::$WriteTr::$write_fn(&v[0], w),
                        Call::TraitSlice => $m::$WriteTr::$write_fn(v.as_slice(), w),
                        Call::Size | Call::Decode | Call::Describe => unreachable!(),
                    }
                },
                write_atoms: |w, b, skip, out| {
                    let w = match w {
                        Wr::$W(w) => w,
                        _ => unreachable!(),
                    };
                    for t in &vec_of::<T>(b)[skip..] {
                        out.push(w.write(t)?);
                    }
                    Ok(())
                },
                sizer: |s, b, out| {
                    let s = match s {
                        Sz::$S(s) => s,
                        _ => unreachable!(),
                    };
                    for _ in vec_of::<T>(b) {
                        out.push(s.add::<T>());
                    }
                },
                size_static: Some(|| T::$size_static()),
                size_one: |b| vec_of::<T>(b)[0].$size_fn(),
                size_slice: |b| vec_of::<T>(b).as_slice().$size_fn(),
                as_bytes: Some(|b| {
                    let v = &vec_of::<T>(b)[0];
                    (v.$as_fn().as_bytes().to_vec(), v.own_bytes(Layout::$Std))
                }),
                decode: Some(|bytes| {
                    let o: <T as $m::$As>::Output = bytemuck::pod_read_unaligned(bytes);
                    T::$from_fn(o).leaves()
                }),
                reencode: Some(|bytes| {
                    let o: <T as $m::$As>::Output = bytemuck::pod_read_unaligned(bytes);
                    T::$from_fn(o).$as_fn().as_bytes().to_vec()
                }),
                #[cfg(miri)]
                pod: Some(|b, image, what| {
                    type O<T> = <T as $m::$As>::Output;
                    let mut d = crate::rng::Digest::new();
                    // Looks at every byte, in one step of the interpreter.
                    static ZERO: [u8; 1 << 16] = [0; 1 << 16];
                    let mut see = |b: &[u8]| d.add((b.len() as u64) << 1 | (b == &ZERO[..b.len()]) as u64);
                    let v = &vec_of::<T>(b)[0];
                    match what {
                        0 => {
                            let o = v.$as_fn();
                            see(o.as_bytes());
                            if let Some(b) = v.own_bytes(Layout::$Std) {
                                see(&b);
                            }
                        }
                        1 => {
                            let o = v.$as_fn();
                            let p = o;
                            see(bytemuck::bytes_of(&p.clone()));
                            see(&$m::$As::$as_fn(&o).as_bytes().to_vec());
                        }
                        2 => {
                            let o = std::hint::black_box([v.$as_fn(), v.$as_fn(), v.$as_fn()]);
                            see(bytemuck::cast_slice::<O<T>, u8>(&o));
                        }
                        3 => {
                            let o: O<T> = bytemuck::pod_read_unaligned(image);
                            let h = T::$from_fn(o);
                            h.leaves().iter().for_each(|x| see(&x.to_ne_bytes()));
                            see(h.$as_fn().as_bytes());
                        }
                        4 => {
                            // Mapped memory: viewed in place, changed in place.
                            let mut o = vec![O::<T>::zeroed(); 2];
                            see(bytemuck::cast_slice::<O<T>, u8>(&o));
                            let n = std::mem::size_of::<O<T>>();
                            bytemuck::cast_slice_mut::<O<T>, u8>(&mut o)[n..].copy_from_slice(image);
                            let one: &O<T> = &bytemuck::cast_slice::<u8, O<T>>(bytemuck::cast_slice(&o))[1];
                            T::$from_fn(*one).leaves().iter().for_each(|x| see(&x.to_ne_bytes()));
                            o[0] = v.$as_fn();
                            see(bytemuck::cast_slice::<O<T>, u8>(&o));
                        }
                        _ => {
                            let o: Box<O<T>> = Box::new(v.$as_fn());
                            let h = T::$from_fn(*o);
                            see(o.as_bytes());
                            see(bytemuck::bytes_of(&h.$as_fn()));
                        }
                    }
                    d.0
                }),
            }
        }

        impl<A: SimTy + $m::$As, B: SimTy + $m::$As> $m::$WriteTr for Batch<A, B> {
            fn $write_fn<W: io::Write>(&self, w: &mut $m::Writer<W>) -> io::Result<usize> {
                callback();
                let at = match self.items.len() % 4 {
                    3 => self.head.$write_fn(w)?,
                    _ => w.write(&self.head)?,
                };
                callback();
                if self.items.len() % 4 == 2 {
                    // Something users put into headers.
                    let _ = $m::$WriteTr::$size_fn(self.items.as_slice());
                    let _ = $m::$WriteTr::$size_fn(&self.head);
                }
                match self.items.len() % 3 {
                    1 => w.write_iter(self.items.iter().map(ByRef))?,
                    2 => self.items.as_slice().$write_fn(w)?,
                    _ => w.write(self.items.as_slice())?,
                };
                callback();
                if self.items.len() % 2 == 0 {
                    // Nothing more.
                    w.write::<[A]>(&[])?;
                }
                Ok(at)
            }
        }

        impl<T: $m::$WriteTr> $m::$WriteTr for ByRef<'_, T> {
            fn $write_fn<W: io::Write>(&self, w: &mut $m::Writer<W>) -> io::Result<usize> {
                self.0.$write_fn(w)
            }
        }

        impl<B: SimTy + $m::$As> $m::$WriteTr for Tail<B> {
            fn $write_fn<W: io::Write>(&self, w: &mut $m::Writer<W>) -> io::Result<usize> {
                callback();
                w.write(self.items.as_slice())
            }
        }

        pub fn $bname<A: SimTy + $m::$As, B: SimTy + $m::$As>() -> Ops {
            composite_ops!(Batch<A, B>, $m, $WriteTr, $W, $S, $write_fn, $size_fn,
                atoms: |w: &mut $m::Writer<Sink>, t: &Batch<A, B>, skip: &mut usize, out: &mut Vec<usize>| {
                    if *skip > 0 { *skip -= 1; } else { out.push(w.write(&t.head)?); }
                    for i in &t.items {
                        if *skip > 0 { *skip -= 1; } else { out.push(w.write(i)?); }
                    }
                    Ok(())
                },
                sizer: |s: &mut $m::Sizer, t: &Batch<A, B>, out: &mut Vec<usize>| {
                    out.push(s.add::<A>());
                    for _ in &t.items { out.push(s.add::<B>()); }
                }
            )
        }

        pub fn $tname<B: SimTy + $m::$As>() -> Ops {
            composite_ops!(Tail<B>, $m, $WriteTr, $W, $S, $write_fn, $size_fn,
                atoms: |w: &mut $m::Writer<Sink>, t: &Tail<B>, skip: &mut usize, out: &mut Vec<usize>| {
                    for i in &t.items {
                        if *skip > 0 { *skip -= 1; } else { out.push(w.write(i)?); }
                    }
                    Ok(())
                },
                sizer: |s: &mut $m::Sizer, t: &Tail<B>, out: &mut Vec<usize>| {
                    for _ in &t.items { out.push(s.add::<B>()); }
                }
            )
        }
    };
}

macro_rules! composite_ops {
    ($T:ty, $m:ident, $WriteTr:ident, $W:ident, $S:ident, $write_fn:ident, $size_fn:ident,
     atoms: $atoms:expr, sizer: $sizer:expr) => {{
        use $m::$WriteTr as _;
        Ops {
            write: |w, call, b, late| {
                let w = match w {
                    Wr::$W(w) => w,
                    _ => unreachable!(),
                };
                let v = vec_of::<$T>(b);
                match call {
                    Call::Write => w.write(&v[0]),
                    Call::Slice | Call::SliceOld => w.write(v.as_slice()),
                    Call::Iter => w.write_iter(Feed::new(v, late.map(vec_of::<$T>))),
                    Call::Endless => w.write_iter(Feed::endless(v)),
                    Call::Trait | Call::Output => $m::$WriteTr::$write_fn(&v[0], w),
                    Call::TraitSlice => $m::$WriteTr::$write_fn(v.as_slice(), w),
                    Call::Size | Call::Decode | Call::Describe => unreachable!(),
                }
            },
            write_atoms: |w, b, skip, out| {
                let w = match w {
                    Wr::$W(w) => w,
                    _ => unreachable!(),
                };
                let f: fn(&mut $m::Writer<Sink>, &$T, &mut usize, &mut Vec<usize>) -> io::Result<()> = $atoms;
                let mut skip = skip;
                for t in vec_of::<$T>(b) {
                    f(w, t, &mut skip, out)?;
                }
                Ok(())
            },
            sizer: |s, b, out| {
                let s = match s {
                    Sz::$S(s) => s,
                    _ => unreachable!(),
                };
                let f: fn(&mut $m::Sizer, &$T, &mut Vec<usize>) = $sizer;
                for t in vec_of::<$T>(b) {
                    f(s, t, out);
                }
            },
            size_static: None,
            size_one: |b| vec_of::<$T>(b)[0].$size_fn(),
            size_slice: |b| vec_of::<$T>(b).as_slice().$size_fn(),
            as_bytes: None,
            decode: None,
            reencode: None,
            #[cfg(miri)]
            pod: None,
        }
    }};
}

layout_ops!(
    ops140, batch140, tail140, std140, AsStd140, WriteStd140, Std140, W140, S140,
    as_std140, from_std140, write_std140, std140_size_static, std140_size,
    old: |w: &mut std140::Writer<Sink>, v: &Vec<T>| {
        #[allow(deprecated)]
        w.write_slice(v.as_slice())
    }
);
layout_ops!(
    ops430, batch430, tail430, std430, AsStd430, WriteStd430, Std430, W430, S430,
    as_std430, from_std430, write_std430, std430_size_static, std430_size,
    old: |w: &mut std430::Writer<Sink>, v: &Vec<T>| w.write(v.as_slice())
);

/// A user-defined dynamically sized value: a head followed by a list.
pub struct Batch<A, B> {
    pub head: A,
    pub items: Vec<B>,
}

/// A user-defined value that stands for another one.
pub struct ByRef<'a, T>(pub &'a T);

/// A user-defined list value.
pub struct Tail<B> {
    pub items: Vec<B>,
}

fn read_rest<B: SimTy>(r: &mut Reader) -> Vec<B> {
    let mut items = Vec::new();
    while r.pos < r.leaves.len() {
        items.push(B::read(r));
    }
    items
}

impl<A: SimTy, B: SimTy> Batch<A, B> {
    fn from_leaves(v: &[u64]) -> Self {
        let mut r = Reader::new(v);
        let head = A::read(&mut r);
        Batch {
            head,
            items: read_rest(&mut r),
        }
    }
    fn node(v: &[u64]) -> Node {
        let na = A::ty().leaf_count();
        let nb = B::ty().leaf_count();
        let items = v[na..]
            .chunks(nb)
            .map(|c| Node::Atom(B::ty(), c.to_vec()))
            .collect();
        Node::Seq(vec![Node::Atom(A::ty(), v[..na].to_vec()), Node::Seq(items)])
    }
}

impl<B: SimTy> Tail<B> {
    fn from_leaves(v: &[u64]) -> Self {
        Tail {
            items: read_rest(&mut Reader::new(v)),
        }
    }
    fn node(v: &[u64]) -> Node {
        let nb = B::ty().leaf_count();
        Node::Seq(
            v.chunks(nb)
                .map(|c| Node::Atom(B::ty(), c.to_vec()))
                .collect(),
        )
    }
}

impl<A: SimTy, B: SimTy> Dup for Batch<A, B> {
    fn dup(&self) -> Self {
        Batch {
            head: SimTy::dup(&self.head),
            items: self.items.iter().map(SimTy::dup).collect(),
        }
    }
}

impl<B: SimTy> Dup for Tail<B> {
    fn dup(&self) -> Self {
        Tail {
            items: self.items.iter().map(SimTy::dup).collect(),
        }
    }
}

/// A host type whose conversion is written by hand and calls user code.
pub struct Hooked<T>(pub T);

impl<T: SimTy> SimTy for Hooked<T> {
    fn ty() -> Ty {
        T::ty()
    }
    fn read(r: &mut Reader) -> Self {
        Hooked(T::read(r))
    }
    fn put(&self, out: &mut Vec<u64>) {
        self.0.put(out)
    }
}

impl<T: std140::AsStd140> std140::AsStd140 for Hooked<T> {
    type Output = T::Output;
    fn as_std140(&self) -> Self::Output {
        callback();
        self.0.as_std140()
    }
    fn from_std140(v: Self::Output) -> Self {
        callback();
        Hooked(T::from_std140(v))
    }
}

impl<T: std430::AsStd430> std430::AsStd430 for Hooked<T> {
    type Output = T::Output;
    fn as_std430(&self) -> Self::Output {
        callback();
        self.0.as_std430()
    }
    fn from_std430(v: Self::Output) -> Self {
        callback();
        Hooked(T::from_std430(v))
    }
}

/// Layout types that a user defined: any power of two as alignment, any size.
macro_rules! user_layout {
    ($($n:ident: [$c:ty; $k:literal] as $s:ident at $a:literal)*) => { $(
        #[repr(transparent)]
        #[derive(Clone, Copy, Debug)]
        pub struct $n(pub [$c; $k]);
        unsafe impl bytemuck::Zeroable for $n {}
        unsafe impl bytemuck::Pod for $n {}
        unsafe impl std140::Std140 for $n {
            const ALIGNMENT: usize = $a;
        }
        unsafe impl std430::Std430 for $n {
            const ALIGNMENT: usize = $a;
        }
        impl SimTy for $n {
            fn ty() -> Ty {
                Ty::User($a, crate::model::Scalar::$s, $k)
            }
            fn read(r: &mut Reader) -> Self {
                $n(std::array::from_fn(|_| r.next() as $c))
            }
            fn put(&self, out: &mut Vec<u64>) {
                self.0.iter().for_each(|c| out.push(*c as u64))
            }
        }
    )* };
}
user_layout! {
    Rgb: [u8; 3] as U8 at 1
    Half: [u16; 1] as U16 at 2
    Halves: [u16; 3] as U16 at 2
    Byte: [u8; 1] as U8 at 4
    Line: [u32; 5] as U32 at 64
    Page: [u32; 3] as U32 at 256
}

#[derive(Default)]
pub struct Registry {
    pub entries: Vec<TypeEntry>,
    pub by_name: BTreeMap<String, usize>,
    /// Load these types only; sorted.
    only: Option<Vec<String>>,
}

impl Registry {
    pub fn get(&self, name: &str) -> &TypeEntry {
        match self.by_name.get(name) {
            Some(i) => &self.entries[*i],
            None => {
                eprintln!("unknown type {name}");
                std::process::exit(2)
            }
        }
    }

    pub fn push(&mut self, e: TypeEntry) {
        let old = self.by_name.insert(e.name.clone(), self.entries.len());
        assert!(old.is_none(), "duplicate type {}", e.name);
        self.entries.push(e);
    }

    pub fn entry<T: SimTy>(
        &mut self,
        name: &str,
        lib: &'static str,
        std140: Option<Ops>,
        std430: Option<Ops>,
        glsl: Option<GlslInfo>,
        passthrough: bool,
        source: &'static str,
    ) {
        self.push(TypeEntry {
            name: name.to_string(),
            lib,
            ty: Some(T::ty()),
            node: atom_node::<T>,
            gen_shape: Shape::Fixed(T::ty()),
            build: build_vec::<T>,
            std140,
            std430,
            glsl,
            passthrough,
            source,
        });
    }

    pub fn both<T: SimTy + std140::AsStd140 + std430::AsStd430>(
        &mut self,
        name: &str,
        lib: &'static str,
        glsl: Option<GlslInfo>,
        source: &'static str,
    ) {
        self.entry::<T>(
            name,
            lib,
            Some(ops140::<T>()),
            Some(ops430::<T>()),
            glsl,
            false,
            source,
        );
    }

    pub fn batch<A, B>(&mut self, name: &str)
    where
        A: SimTy + std140::AsStd140 + std430::AsStd430,
        B: SimTy + std140::AsStd140 + std430::AsStd430,
    {
        self.push(TypeEntry {
            name: name.to_string(),
            lib: "composite",
            ty: None,
            node: Batch::<A, B>::node,
            gen_shape: Shape::Batch(A::ty(), B::ty()),
            build: |v| {
                Arc::new(
                    v.iter()
                        .map(|x| Batch::<A, B>::from_leaves(x))
                        .collect::<Vec<_>>(),
                )
            },
            std140: Some(batch140::<A, B>()),
            std430: Some(batch430::<A, B>()),
            glsl: None,
            passthrough: false,
            source: "",
        });
    }

    pub fn tail<B>(&mut self, name: &str)
    where
        B: SimTy + std140::AsStd140 + std430::AsStd430,
    {
        self.push(TypeEntry {
            name: name.to_string(),
            lib: "composite",
            ty: None,
            node: Tail::<B>::node,
            gen_shape: Shape::Tail(B::ty()),
            build: |v| {
                Arc::new(
                    v.iter()
                        .map(|x| Tail::<B>::from_leaves(x))
                        .collect::<Vec<_>>(),
                )
            },
            std140: Some(tail140::<B>()),
            std430: Some(tail430::<B>()),
            glsl: None,
            passthrough: false,
            source: "",
        });
    }

    pub fn want(&self, name: &str) -> bool {
        self.only.as_ref().is_none_or(|o| o.binary_search_by(|n| n.as_str().cmp(name)).is_ok())
    }

    pub fn load(only: Option<Vec<String>>) -> Registry {
        let mut r = Registry { only, ..Registry::default() };
        builtins(&mut r);
        crate::corpus::register(&mut r);
        r
    }
}

pub fn glsl_prim<T: Glsl>() -> Option<GlslInfo> {
    Some(GlslInfo {
        name: T::NAME,
        definition: None,
        fields: None,
    })
}

pub fn glsl_struct<T: GlslStruct>() -> Option<GlslInfo> {
    Some(GlslInfo {
        name: T::NAME,
        definition: Some(T::glsl_definition),
        fields: Some(|| {
            T::FIELDS
                .iter()
                .map(|f| (f.ty.to_string(), f.name.to_string()))
                .collect()
        }),
    })
}

macro_rules! prims {
    ($r:ident, $lib:literal: $($t:ty),* $(,)?) => { $(
        if $r.want(stringify!($t)) {
            $r.both::<$t>(stringify!($t), $lib, glsl_prim::<$t>(), "");
        }
    )* };
}

macro_rules! layout_prims {
    ($r:ident: $($n:ident)*) => { $(
        {
            type A = std140::$n;
            type B = std430::$n;
            if $r.want(concat!("std140::", stringify!($n))) {
                $r.entry::<A>(concat!("std140::", stringify!($n)), "layout", Some(ops140::<A>()), None, glsl_prim::<A>(), true, "");
            }
            if $r.want(concat!("std430::", stringify!($n))) {
                $r.entry::<B>(concat!("std430::", stringify!($n)), "layout", None, Some(ops430::<B>()), glsl_prim::<B>(), true, "");
            }
        }
    )* };
}

fn builtins(r: &mut Registry) {
    prims!(r, "core": f32, f64, i32, u32, bool);
    prims!(r, "mint":
        mint::Vector2<f32>, mint::Vector3<f32>, mint::Vector4<f32>, mint::Point2<f32>, mint::Point3<f32>,
        mint::Vector2<i32>, mint::Vector3<i32>, mint::Vector4<i32>, mint::Point2<i32>, mint::Point3<i32>,
        mint::Vector2<u32>, mint::Vector3<u32>, mint::Vector4<u32>, mint::Point2<u32>, mint::Point3<u32>,
        mint::Vector2<bool>, mint::Vector3<bool>, mint::Vector4<bool>, mint::Point2<bool>, mint::Point3<bool>,
        mint::Vector2<f64>, mint::Vector3<f64>, mint::Vector4<f64>, mint::Point2<f64>, mint::Point3<f64>,
        mint::ColumnMatrix2<f32>, mint::ColumnMatrix3<f32>, mint::ColumnMatrix4<f32>,
        mint::ColumnMatrix2<f64>, mint::ColumnMatrix3<f64>, mint::ColumnMatrix4<f64>,
    );
    prims!(r, "cgmath":
        cgmath::Vector2<f32>, cgmath::Vector3<f32>, cgmath::Vector4<f32>, cgmath::Point2<f32>, cgmath::Point3<f32>,
        cgmath::Vector2<i32>, cgmath::Vector3<i32>, cgmath::Vector4<i32>, cgmath::Point2<i32>, cgmath::Point3<i32>,
        cgmath::Vector2<u32>, cgmath::Vector3<u32>, cgmath::Vector4<u32>, cgmath::Point2<u32>, cgmath::Point3<u32>,
        cgmath::Vector2<bool>, cgmath::Vector3<bool>, cgmath::Vector4<bool>, cgmath::Point2<bool>, cgmath::Point3<bool>,
        cgmath::Vector2<f64>, cgmath::Vector3<f64>, cgmath::Vector4<f64>, cgmath::Point2<f64>, cgmath::Point3<f64>,
        cgmath::Matrix2<f32>, cgmath::Matrix3<f32>, cgmath::Matrix4<f32>,
        cgmath::Matrix2<f64>, cgmath::Matrix3<f64>, cgmath::Matrix4<f64>,
    );
    prims!(r, "glam":
        glam::Vec2, glam::Vec3, glam::Vec4, glam::IVec2, glam::IVec3, glam::IVec4,
        glam::UVec2, glam::UVec3, glam::UVec4, glam::DVec2, glam::DVec3, glam::DVec4,
        glam::Mat2, glam::Mat3, glam::Mat4, glam::DMat2, glam::DMat3, glam::DMat4,
    );
    prims!(r, "nalgebra":
        nalgebra::Vector2<f32>, nalgebra::Vector3<f32>, nalgebra::Vector4<f32>, nalgebra::Point2<f32>, nalgebra::Point3<f32>,
        nalgebra::Vector2<i32>, nalgebra::Vector3<i32>, nalgebra::Vector4<i32>, nalgebra::Point2<i32>, nalgebra::Point3<i32>,
        nalgebra::Vector2<u32>, nalgebra::Vector3<u32>, nalgebra::Vector4<u32>, nalgebra::Point2<u32>, nalgebra::Point3<u32>,
        nalgebra::Vector2<bool>, nalgebra::Vector3<bool>, nalgebra::Vector4<bool>, nalgebra::Point2<bool>, nalgebra::Point3<bool>,
        nalgebra::Vector2<f64>, nalgebra::Vector3<f64>, nalgebra::Vector4<f64>, nalgebra::Point2<f64>, nalgebra::Point3<f64>,
        nalgebra::Matrix2<f32>, nalgebra::Matrix3<f32>, nalgebra::Matrix4<f32>,
        nalgebra::Matrix2<f64>, nalgebra::Matrix3<f64>, nalgebra::Matrix4<f64>,
    );
    layout_prims!(r: Vec2 Vec3 Vec4 IVec2 IVec3 IVec4 UVec2 UVec3 UVec4 BVec2 BVec3 BVec4 DVec2 DVec3 DVec4
        Mat2 Mat3 Mat4 DMat2 DMat3 DMat4);
    if r.want("Bool") {
        r.entry::<std140::Bool>(
            "Bool",
            "layout",
            Some(ops140::<std140::Bool>()),
            Some(ops430::<std140::Bool>()),
            glsl_prim::<std140::Bool>(),
            true,
            "",
        );
    }

    macro_rules! wrapped {
        ($($t:ty),* $(,)?) => { $(
            if r.want(concat!("DynamicUniform<", stringify!($t), ">")) {
                r.entry::<std140::DynamicUniform<$t>>(
                    concat!("DynamicUniform<", stringify!($t), ">"), "wrapper",
                    Some(ops140::<std140::DynamicUniform<$t>>()), None, None, false, "");
            }
        )* };
    }
    wrapped!(
        f32, bool, f64, mint::Vector3<f32>, mint::ColumnMatrix4<f32>, glam::DMat3,
        nalgebra::Vector2<u32>, cgmath::Matrix2<f32>, std140::DynamicUniform<glam::IVec3>
    );

    macro_rules! hooked {
        ($($t:ty),* $(,)?) => { $(
            if r.want(concat!("Hooked<", stringify!($t), ">")) {
                r.both::<Hooked<$t>>(concat!("Hooked<", stringify!($t), ">"), "user", None, "");
            }
        )* };
    }
    macro_rules! users {
        ($($t:ident)*) => { $(
            if r.want(stringify!($t)) {
                r.both::<$t>(stringify!($t), "user", None, "");
            }
        )* };
    }
    users!(Rgb Half Halves Byte Line Page);

    hooked!(f32, f64, bool, mint::Vector3<f32>, glam::Mat3, nalgebra::Vector2<bool>, cgmath::Matrix3<f64>);

    macro_rules! batches {
        ($($a:ty, $b:ty);* $(;)?) => { $(
            if r.want(concat!("Batch<", stringify!($a), ", ", stringify!($b), ">")) {
                r.batch::<$a, $b>(concat!("Batch<", stringify!($a), ", ", stringify!($b), ">"));
            }
        )* };
    }
    batches!(
        u32, mint::Vector3<f32>; u32, f32; bool, f64; mint::Vector2<f32>, mint::ColumnMatrix3<f32>;
        f32, glam::DVec3; glam::DMat3, u32; nalgebra::Vector3<i32>, cgmath::Vector3<bool>;
        u32, Rgb; Half, mint::Vector3<f32>; u32, Hooked<mint::Vector3<f32>>; Hooked<f64>, glam::Mat2; u32, cgmath::Matrix2<f32>;
    );
    macro_rules! tails {
        ($($b:ty),* $(,)?) => { $( r.tail::<$b>(concat!("Tail<", stringify!($b), ">")); )* };
    }
    tails!(f32, Rgb, mint::Vector3<f32>, glam::DVec2, nalgebra::Matrix3<f32>, Hooked<bool>);
}
