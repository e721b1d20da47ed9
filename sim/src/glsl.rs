//! A small GLSL front end, the device's side of the contract: it parses struct
//! definitions and a block declaration, lays the block out by the layout rules
//! of the specification and reads members by name.

use crate::model::{get, round_up, Layout, Scalar, Ty};
use std::collections::BTreeMap;

#[derive(Debug, PartialEq, Clone)]
enum Tok {
    Id(String),
    Num(String),
    P(char),
}

fn lex(s: &str) -> Result<Vec<Tok>, String> {
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut out = Vec::new();
    while i < c.len() {
        let ch = c[i];
        if ch == ' ' || ch == '\t' || ch == '\n' || ch == '\r' {
            i += 1;
        } else if ch == '/' && c.get(i + 1) == Some(&'/') {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
        } else if ch == '/' && c.get(i + 1) == Some(&'*') {
            i += 2;
            while i + 1 < c.len() && !(c[i] == '*' && c[i + 1] == '/') {
                i += 1;
            }
            if i + 1 >= c.len() {
                return Err("unterminated comment".into());
            }
            i += 2;
        } else if ch.is_ascii_alphabetic() || ch == '_' {
            let a = i;
            while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_') {
                i += 1;
            }
            out.push(Tok::Id(c[a..i].iter().collect()));
        } else if ch.is_ascii_digit() {
            let a = i;
            while i < c.len() && c[i].is_ascii_alphanumeric() {
                i += 1;
            }
            out.push(Tok::Num(c[a..i].iter().collect()));
        } else if "{};,[]()=".contains(ch) {
            out.push(Tok::P(ch));
            i += 1;
        } else {
            return Err(format!("character {ch:?} is not GLSL"));
        }
    }
    Ok(out)
}

const KEYWORDS: &[&str] = &[
    "attribute", "const", "uniform", "varying", "buffer", "shared", "coherent", "volatile",
    "restrict", "readonly", "writeonly", "layout", "centroid", "flat", "smooth", "noperspective",
    "patch", "sample", "break", "continue", "do", "for", "while", "switch", "case", "default",
    "if", "else", "subroutine", "in", "out", "inout", "invariant", "precise", "discard", "return",
    "lowp", "mediump", "highp", "precision", "struct", "void", "true", "false", "float", "double",
    "int", "uint", "bool", "common", "partition", "active", "asm", "class", "union", "enum",
    "typedef", "template", "this", "resource", "goto", "inline", "noinline", "public", "static",
    "extern", "external", "interface", "long", "short", "half", "fixed", "unsigned", "superp",
    "input", "output", "hvec2", "hvec3", "hvec4", "fvec2", "fvec3", "fvec4", "filter", "sizeof",
    "cast", "namespace", "using",
];

/// The built-in types, spelled out from the specification.
fn builtin(name: &str) -> Option<Ty> {
    use Scalar::*;
    Some(match name {
        "float" => Ty::Scalar(F32),
        "double" => Ty::Scalar(F64),
        "int" => Ty::Scalar(I32),
        "uint" => Ty::Scalar(U32),
        "bool" => Ty::Scalar(Bool),
        "vec2" => Ty::Vec(F32, 2),
        "vec3" => Ty::Vec(F32, 3),
        "vec4" => Ty::Vec(F32, 4),
        "dvec2" => Ty::Vec(F64, 2),
        "dvec3" => Ty::Vec(F64, 3),
        "dvec4" => Ty::Vec(F64, 4),
        "ivec2" => Ty::Vec(I32, 2),
        "ivec3" => Ty::Vec(I32, 3),
        "ivec4" => Ty::Vec(I32, 4),
        "uvec2" => Ty::Vec(U32, 2),
        "uvec3" => Ty::Vec(U32, 3),
        "uvec4" => Ty::Vec(U32, 4),
        "bvec2" => Ty::Vec(Bool, 2),
        "bvec3" => Ty::Vec(Bool, 3),
        "bvec4" => Ty::Vec(Bool, 4),
        "mat2" | "mat2x2" => Ty::Mat(F32, 2),
        "mat3" | "mat3x3" => Ty::Mat(F32, 3),
        "mat4" | "mat4x4" => Ty::Mat(F32, 4),
        "dmat2" | "dmat2x2" => Ty::Mat(F64, 2),
        "dmat3" | "dmat3x3" => Ty::Mat(F64, 3),
        "dmat4" | "dmat4x4" => Ty::Mat(F64, 4),
        _ => return None,
    })
}

pub struct Shader {
    pub structs: BTreeMap<String, Ty>,
    pub block: Vec<(String, Ty)>,
}

struct Parser {
    t: Vec<Tok>,
    i: usize,
    structs: BTreeMap<String, Ty>,
}

impl Parser {
    fn next(&mut self) -> Option<Tok> {
        let t = self.t.get(self.i).cloned();
        self.i += 1;
        t
    }
    fn punct(&mut self, c: char) -> Result<(), String> {
        match self.next() {
            Some(Tok::P(p)) if p == c => Ok(()),
            t => Err(format!("expected '{c}', found {t:?}")),
        }
    }
    fn ident(&mut self) -> Result<String, String> {
        match self.next() {
            Some(Tok::Id(s)) => {
                if KEYWORDS.contains(&s.as_str()) || builtin(&s).is_some() {
                    Err(format!("'{s}' is reserved in GLSL and cannot be a name"))
                } else if s.starts_with("gl_") {
                    Err(format!("'{s}': names starting with gl_ are reserved"))
                } else {
                    Ok(s)
                }
            }
            t => Err(format!("expected a name, found {t:?}")),
        }
    }
    fn ty(&mut self) -> Result<Ty, String> {
        match self.next() {
            Some(Tok::Id(s)) => builtin(&s)
                .or_else(|| self.structs.get(&s).cloned())
                .ok_or(format!("'{s}' is not a type known to the shader")),
            t => Err(format!("expected a type, found {t:?}")),
        }
    }
    fn members(&mut self) -> Result<Vec<(String, Ty)>, String> {
        self.punct('{')?;
        let mut out: Vec<(String, Ty)> = Vec::new();
        loop {
            if self.t.get(self.i) == Some(&Tok::P('}')) {
                self.i += 1;
                break;
            }
            let ty = self.ty()?;
            loop {
                let name = self.ident()?;
                if out.iter().any(|(n, _)| *n == name) {
                    return Err(format!("two members named '{name}'"));
                }
                out.push((name, ty.clone()));
                match self.next() {
                    Some(Tok::P(',')) => {}
                    Some(Tok::P(';')) => break,
                    t => return Err(format!("expected ';', found {t:?}")),
                }
            }
        }
        if out.is_empty() {
            return Err("no members".into());
        }
        Ok(out)
    }
}

/// Parses `struct`s and at most one `buffer` block.
pub fn parse(src: &str) -> Result<Shader, String> {
    let mut p = Parser {
        t: lex(src)?,
        i: 0,
        structs: BTreeMap::new(),
    };
    let mut block = Vec::new();
    while let Some(t) = p.next() {
        match t {
            Tok::Id(k) if k == "struct" => {
                let name = p.ident()?;
                if p.structs.contains_key(&name) {
                    return Err(format!("struct '{name}' is defined twice"));
                }
                let m = p.members().map_err(|e| format!("struct {name}: {e}"))?;
                p.punct(';')?;
                let fields = m.iter().map(|(n, t)| (n.as_str(), t.clone())).collect();
                let ty = Ty::strukt(&name, fields);
                p.structs.insert(name, ty);
            }
            Tok::Id(k) if k == "buffer" => {
                p.ident()?;
                block = p.members().map_err(|e| format!("block: {e}"))?;
                p.punct(';')?;
            }
            t => return Err(format!("expected a definition, found {t:?}")),
        }
    }
    Ok(Shader {
        structs: p.structs,
        block,
    })
}

impl Shader {
    /// What the shader reads from each component of each block member:
    /// (path, bits), booleans as 0 or 1.
    pub fn read(
        &self,
        l: Layout,
        at: &mut dyn FnMut(usize, usize) -> Option<Vec<u8>>,
    ) -> Result<Vec<(String, u64)>, String> {
        let mut off = 0;
        let mut out = Vec::new();
        for (name, ty) in &self.block {
            off = round_up(off, ty.align(l));
            read_into(l, name, ty, off, at, &mut out)?;
            off += ty.size(l);
        }
        Ok(out)
    }
}

fn read_into(
    l: Layout,
    path: &str,
    ty: &Ty,
    off: usize,
    at: &mut dyn FnMut(usize, usize) -> Option<Vec<u8>>,
    out: &mut Vec<(String, u64)>,
) -> Result<(), String> {
    match ty {
        Ty::Struct(d) => {
            let mut o = off;
            for (n, t) in &d.fields {
                o = round_up(o, t.align(l));
                read_into(l, &format!("{path}.{n}"), t, o, at, out)?;
                o += t.size(l);
            }
        }
        _ => {
            let mut comps = Vec::new();
            let mut paths = Vec::new();
            ty.components(l, off, &mut comps);
            ty.paths(path, &mut paths);
            for ((o, s), p) in comps.iter().zip(paths) {
                let b = at(*o, s.size()).ok_or(format!("{p} lies beyond the upload (offset {o})"))?;
                out.push((p, get(&b, *s)));
            }
        }
    }
    Ok(())
}
