//! Reference model of GLSL's std140 and std430 layouts, written from the OpenGL
//! 4.6 specification, section 7.6.2.2. It shares nothing with crevice.

use serde::{Deserialize, Serialize};
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Scalar {
    F32,
    F64,
    I32,
    U32,
    Bool,
    /// Components of layout types that users define.
    U8,
    U16,
}

impl Scalar {
    /// Basic machine units of one component: 4, or 8 for doubles.
    pub fn size(self) -> usize {
        match self {
            Scalar::F64 => 8,
            Scalar::U16 => 2,
            Scalar::U8 => 1,
            _ => 4,
        }
    }
    pub fn glsl(self) -> &'static str {
        match self {
            Scalar::F32 => "float",
            Scalar::F64 => "double",
            Scalar::I32 => "int",
            Scalar::U32 => "uint",
            Scalar::Bool => "bool",
            Scalar::U8 => "byte",
            Scalar::U16 => "short",
        }
    }
    fn prefix(self) -> &'static str {
        match self {
            Scalar::F32 => "",
            Scalar::F64 => "d",
            Scalar::I32 => "i",
            Scalar::U32 => "u",
            Scalar::Bool => "b",
            Scalar::U8 | Scalar::U16 => "?",
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, Serialize, Deserialize, PartialOrd, Ord)]
pub enum Layout {
    Std140,
    Std430,
}

impl Layout {
    pub fn name(self) -> &'static str {
        match self {
            Layout::Std140 => "std140",
            Layout::Std430 => "std430",
        }
    }
}

#[derive(Debug)]
pub struct StructDef {
    pub name: String,
    pub fields: Vec<(String, Ty)>,
    /// Alignment and size in each layout.
    extent: [(usize, usize); 2],
}

#[derive(Clone, Debug)]
pub enum Ty {
    Scalar(Scalar),
    Vec(Scalar, usize),
    /// Square column-major matrix.
    Mat(Scalar, usize),
    Struct(Arc<StructDef>),
    /// A value aligned to at least 256 bytes (dynamic uniform offset rule).
    Dyn(Arc<Ty>),
    /// A layout type that a user defined: alignment, components back to back.
    User(usize, Scalar, usize),
}

pub fn round_up(n: usize, a: usize) -> usize {
    (n + a - 1) / a * a
}

fn vec_align(s: Scalar, n: usize) -> usize {
    // Rules 1-3: N, 2N, 4N, 4N.
    s.size() * [0, 1, 2, 4, 4][n]
}

impl StructDef {
    /// Rule 9: largest member alignment, rounded up to a vec4's in std140.
    fn align(&self, l: Layout) -> usize {
        let m = self.fields.iter().map(|f| f.1.align(l)).max().unwrap_or(1);
        match l {
            Layout::Std140 => round_up(m, 16),
            Layout::Std430 => m,
        }
    }

    fn size(&self, l: Layout) -> usize {
        let mut off = 0;
        for (_, t) in &self.fields {
            off = round_up(off, t.align(l)) + t.size(l);
        }
        round_up(off, self.align(l))
    }
}

impl Ty {
    pub fn strukt(name: &str, fields: Vec<(&str, Ty)>) -> Ty {
        let mut d = StructDef {
            name: name.to_string(),
            fields: fields
                .into_iter()
                .map(|(n, t)| (n.to_string(), t))
                .collect(),
            extent: [(0, 0); 2],
        };
        for l in [Layout::Std140, Layout::Std430] {
            d.extent[l as usize] = (d.align(l), d.size(l));
        }
        Ty::Struct(Arc::new(d))
    }

    pub fn glsl_name(&self) -> String {
        match self {
            Ty::Scalar(s) => s.glsl().to_string(),
            Ty::Vec(s, n) => format!("{}vec{}", s.prefix(), n),
            Ty::Mat(s, n) => format!("{}mat{}", s.prefix(), n),
            Ty::Struct(d) => d.name.clone(),
            Ty::Dyn(t) => format!("dyn<{}>", t.glsl_name()),
            Ty::User(a, s, n) => format!("{}[{n}]@{a}", s.glsl()),
        }
    }

    /// Distance between matrix columns (rules 5 and 4: an array of vectors,
    /// whose stride is rounded up to that of a vec4 in std140 only).
    fn column_stride(s: Scalar, n: usize, l: Layout) -> usize {
        let a = vec_align(s, n);
        match l {
            Layout::Std140 => round_up(a, 16),
            Layout::Std430 => a,
        }
    }

    pub fn align(&self, l: Layout) -> usize {
        match self {
            Ty::Scalar(s) => s.size(),
            Ty::Vec(s, n) => vec_align(*s, *n),
            Ty::Mat(s, n) => Ty::column_stride(*s, *n, l),
            Ty::Struct(d) => d.extent[l as usize].0,
            Ty::Dyn(t) => t.align(l).max(256),
            Ty::User(a, ..) => *a,
        }
    }

    pub fn size(&self, l: Layout) -> usize {
        match self {
            Ty::Scalar(s) => s.size(),
            Ty::Vec(s, n) => s.size() * n,
            Ty::Mat(s, n) => Ty::column_stride(*s, *n, l) * n,
            Ty::Struct(d) => d.extent[l as usize].1,
            Ty::Dyn(t) => t.size(l),
            Ty::User(_, s, n) => s.size() * n,
        }
    }

    /// Array stride (rule 4 / rule 10).
    pub fn array_stride(&self, l: Layout) -> usize {
        let a = match l {
            Layout::Std140 => round_up(self.align(l), 16),
            Layout::Std430 => self.align(l),
        };
        round_up(self.size(l), a)
    }

    pub fn array_align(&self, l: Layout) -> usize {
        match l {
            Layout::Std140 => round_up(self.align(l), 16),
            Layout::Std430 => self.align(l),
        }
    }

    pub fn leaf_kinds(&self, out: &mut Vec<Scalar>) {
        match self {
            Ty::Scalar(s) => out.push(*s),
            Ty::Vec(s, n) | Ty::User(_, s, n) => out.extend(std::iter::repeat(*s).take(*n)),
            Ty::Mat(s, n) => out.extend(std::iter::repeat(*s).take(n * n)),
            Ty::Struct(d) => d.fields.iter().for_each(|f| f.1.leaf_kinds(out)),
            Ty::Dyn(t) => t.leaf_kinds(out),
        }
    }

    pub fn leaf_count(&self) -> usize {
        match self {
            Ty::Scalar(_) => 1,
            Ty::Vec(_, n) | Ty::User(_, _, n) => *n,
            Ty::Mat(_, n) => n * n,
            Ty::Struct(d) => d.fields.iter().map(|f| f.1.leaf_count()).sum(),
            Ty::Dyn(t) => t.leaf_count(),
        }
    }

    /// Offset and kind of every component, in declaration order.
    pub fn components(&self, l: Layout, base: usize, out: &mut Vec<(usize, Scalar)>) {
        match self {
            Ty::Scalar(s) => out.push((base, *s)),
            Ty::Vec(s, n) | Ty::User(_, s, n) => (0..*n).for_each(|i| out.push((base + i * s.size(), *s))),
            Ty::Mat(s, n) => {
                let stride = Ty::column_stride(*s, *n, l);
                for c in 0..*n {
                    for r in 0..*n {
                        out.push((base + c * stride + r * s.size(), *s));
                    }
                }
            }
            Ty::Struct(d) => {
                let mut off = base;
                for (_, t) in &d.fields {
                    off = round_up(off, t.align(l));
                    t.components(l, off, out);
                    off += t.size(l);
                }
            }
            Ty::Dyn(t) => t.components(l, base, out),
        }
    }

    /// `a.b.x`-style path of every component.
    pub fn paths(&self, prefix: &str, out: &mut Vec<String>) {
        match self {
            Ty::Scalar(_) => out.push(prefix.to_string()),
            Ty::Vec(_, n) | Ty::User(_, _, n) => (0..*n).for_each(|i| out.push(format!("{prefix}[{i}]"))),
            Ty::Mat(_, n) => {
                for c in 0..*n {
                    for r in 0..*n {
                        out.push(format!("{prefix}[{c}][{r}]"));
                    }
                }
            }
            Ty::Struct(d) => d
                .fields
                .iter()
                .for_each(|(n, t)| t.paths(&format!("{prefix}.{n}"), out)),
            Ty::Dyn(t) => t.paths(prefix, out),
        }
    }

    /// Bytes of one value, gaps zero, and which bytes are components.
    pub fn image(&self, l: Layout, leaves: &[u64]) -> (Vec<u8>, Vec<bool>) {
        let mut comps = Vec::new();
        self.components(l, 0, &mut comps);
        let size = self.size(l);
        let mut bytes = vec![0u8; size];
        let mut mask = vec![false; size];
        for ((off, s), v) in comps.iter().zip(leaves) {
            put(&mut bytes[*off..], *s, *v);
            mask[*off..*off + s.size()].fill(true);
        }
        (bytes, mask)
    }
}

pub fn put(dst: &mut [u8], s: Scalar, v: u64) {
    match s.size() {
        8 => dst[..8].copy_from_slice(&v.to_ne_bytes()),
        2 => dst[..2].copy_from_slice(&(v as u16).to_ne_bytes()),
        1 => dst[0] = v as u8,
        _ => dst[..4].copy_from_slice(&(v as u32).to_ne_bytes()),
    }
}

pub fn get(src: &[u8], s: Scalar) -> u64 {
    match s {
        Scalar::F64 => u64::from_ne_bytes(src[..8].try_into().unwrap()),
        Scalar::U16 => u16::from_ne_bytes(src[..2].try_into().unwrap()) as u64,
        Scalar::U8 => src[0] as u64,
        Scalar::Bool => (u32::from_ne_bytes(src[..4].try_into().unwrap()) != 0) as u64,
        _ => u32::from_ne_bytes(src[..4].try_into().unwrap()) as u64,
    }
}

/// What one write call puts into a stream.
#[derive(Clone, Debug)]
pub enum Node {
    Atom(Ty, Vec<u64>),
    Seq(Vec<Node>),
}

#[derive(Clone, Debug)]
pub struct Placed {
    pub start: usize,
    pub end: usize,
    pub align: usize,
    pub leaves: Vec<u64>,
    pub ty: Ty,
}

/// The reference stream: every value at the next multiple of its alignment.
#[derive(Clone, Default)]
pub struct Stream {
    /// Position of the first byte kept here.
    pub origin: usize,
    pub bytes: Vec<u8>,
    pub mask: Vec<bool>,
}

impl Stream {
    pub fn len(&self) -> usize {
        self.origin + self.bytes.len()
    }

    pub fn slice(&self, a: usize, b: usize) -> &[u8] {
        &self.bytes[a - self.origin..b - self.origin]
    }

    pub fn is_value(&self, i: usize) -> bool {
        self.mask[i - self.origin]
    }

    pub fn truncate(&mut self, len: usize) {
        self.bytes.truncate(len - self.origin);
        self.mask.truncate(len - self.origin);
    }

    /// Takes what the sink really holds from `at` on as the truth.
    pub fn adopt(&mut self, at: usize, real: &[u8]) {
        self.bytes.truncate(at - self.origin);
        self.bytes.extend_from_slice(real);
        self.mask.resize(self.bytes.len(), true);
    }

    /// Appends a node, returning the position a write of it reports and where
    /// its values are.
    pub fn append(&mut self, l: Layout, node: &Node, out: &mut Vec<Placed>) -> usize {
        match node {
            Node::Atom(ty, leaves) => {
                let start = round_up(self.len(), ty.align(l));
                self.bytes.resize(start - self.origin, 0);
                self.mask.resize(start - self.origin, false);
                let (b, m) = ty.image(l, leaves);
                self.bytes.extend_from_slice(&b);
                self.mask.extend_from_slice(&m);
                out.push(Placed {
                    start,
                    end: self.len(),
                    align: ty.align(l),
                    leaves: leaves.clone(),
                    ty: ty.clone(),
                });
                start
            }
            Node::Seq(nodes) => {
                let mut ret = self.len();
                for (i, n) in nodes.iter().enumerate() {
                    let r = self.append(l, n, out);
                    if i == 0 {
                        ret = r;
                    }
                }
                ret
            }
        }
    }
}
