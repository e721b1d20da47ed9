//! Generates the corpus of derived structs for one schema seed.
//!
//! SIM_SCHEMA_SEED  seed (default 1)
//! SIM_CORPUS       number of structs deriving everything (default 110)
//! SIM_EXCLUDE      comma-separated struct numbers to leave out (they and
//!                  everything that contains them)
//! SIM_MAX_FIELDS   leave out structs with more fields

#[path = "src/rng.rs"]
#[allow(dead_code)]
mod rng;
use rng::Rng;
use std::fmt::Write;

#[derive(Clone, Copy, PartialEq)]
enum Flavour {
    /// AsStd140 + AsStd430 + GlslStruct
    All,
    /// AsStd140 only: may hold aligned wrappers and std140 layout types
    Only140,
    /// AsStd430 only: may hold std430 layout types
    Only430,
    /// Like `All`; these have the same name, each in its module
    Twin,
    /// AsStd140 + AsStd430: may hold layout types of the user's; same name too
    Own,
}

struct Def {
    index: usize,
    ident: String, // as in Rust, may be raw
    name: String,  // without r#
    flavour: Flavour,
    fields: Vec<(String, String)>,
    leaves: usize,
    deps: Vec<usize>,
    passthrough: bool,
}

fn pool() -> Vec<(String, usize)> {
    let mut v: Vec<(String, usize)> = Vec::new();
    for s in ["f32", "f64", "i32", "u32", "bool"] {
        v.push((s.to_string(), 1));
    }
    for lib in ["mint", "cgmath", "nalgebra"] {
        for s in ["f32", "f64", "i32", "u32", "bool"] {
            for n in 2..=4usize {
                v.push((format!("{lib}::Vector{n}<{s}>"), n));
            }
            for n in 2..=3usize {
                v.push((format!("{lib}::Point{n}<{s}>"), n));
            }
        }
        for s in ["f32", "f64"] {
            for n in 2..=4usize {
                let m = match lib {
                    "mint" => "ColumnMatrix",
                    _ => "Matrix",
                };
                v.push((format!("{lib}::{m}{n}<{s}>"), n * n));
            }
        }
    }
    for p in ["", "I", "U", "D"] {
        for n in 2..=4usize {
            v.push((format!("glam::{p}Vec{n}"), n));
        }
    }
    for p in ["", "D"] {
        for n in 2..=4usize {
            v.push((format!("glam::{p}Mat{n}"), n * n));
        }
    }
    v
}

fn layout_pool(m: &str) -> Vec<(String, usize)> {
    let mut v = Vec::new();
    for p in ["", "I", "U", "B", "D"] {
        for n in 2..=4usize {
            v.push((format!("crevice::{m}::{p}Vec{n}"), n));
        }
    }
    for p in ["", "D"] {
        for n in 2..=4usize {
            v.push((format!("crevice::{m}::{p}Mat{n}"), n * n));
        }
    }
    v.push((format!("crevice::{m}::Bool"), 1));
    v
}

/// Types that layout rules treat alike.
fn class(t: &str) -> String {
    if !t.contains("::") || t.starts_with("Hooked") || t.starts_with("twin") {
        return match t {
            "f32" | "i32" | "u32" => "scalar".into(),
            "f64" | "bool" => t.into(),
            _ => "struct".into(),
        };
    }
    let kind = if t.contains("f64") || t.contains("::D") {
        "d"
    } else if t.contains("bool") {
        "b"
    } else {
        ""
    };
    let n = t.chars().filter(|c| ('2'..='4').contains(c)).find(|_| true);
    let n = match t.split_once('<') {
        Some((head, _)) => head.chars().last(),
        None => n,
    };
    format!("{kind}{}{}", if t.contains("Mat") { "mat" } else { "vec" }, n.unwrap_or('?'))
}

const NAMES: &[&str] = &[
    "position", "color", "brightness", "a", "x", "y", "offset", "len", "value",
    "view", "light_dir", "count", "flags", "W", "Scale", "m0", "size", "writer", "padding", "bytes",
    "_pad0", "_pad1", "_pad", "pad0", "std140", "alignment", "index", "mat", "v", "Position",
];
const RAW: &[&str] = &[
    "r#type", "r#match", "r#loop", "r#fn", "r#move", "r#impl", "r#dyn", "r#where", "r#ref", "r#pub",
];

const STEMS: &[&str] = &[
    "type", "in", "radius", "raw", "red", "r", "texture", "kind", "ref", "up", "world_to_view",
    "shadow", "fn", "uv", "mat", "vec", "pad", "std", "light", "sky", "x1", "num", "struct", "end",
];

/// Names in the styles people use.
fn styled(r: &mut Rng) -> String {
    let stem = *r.pick(STEMS);
    let n = r.below(40);
    match r.below(9) {
        0 | 1 => format!("{stem}_"),
        2 => format!("_{stem}{n}"),
        3 => format!("{}{n}", stem.to_uppercase()),
        4 => format!("u_{stem}"),
        5 => format!("m_{stem}_{n}"),
        6 => format!("{}{}", &stem[..1].to_uppercase(), &stem[1..]),
        7 => format!("{stem}{}", ["Count", "Of", "X", "A9"][n as usize % 4]),
        _ => format!("{stem}_{stem}_{stem}_{n}"),
    }
}

fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-changed=src/rng.rs");
    for k in ["SIM_SCHEMA_SEED", "SIM_CORPUS", "SIM_EXCLUDE", "SIM_MAX_FIELDS"] {
        println!("cargo:rerun-if-env-changed={k}");
    }
    let env = |k: &str, d: u64| {
        std::env::var(k)
            .ok()
            .and_then(|v| v.parse().ok())
            .unwrap_or(d)
    };
    let seed = env("SIM_SCHEMA_SEED", 1);
    let n_all = env("SIM_CORPUS", 110) as usize;
    let exclude: Vec<usize> = std::env::var("SIM_EXCLUDE")
        .unwrap_or_default()
        .split(',')
        .filter_map(|s| s.parse().ok())
        .collect();

    let mut r = Rng::derive(seed, "corpus", 0);
    let base = pool();
    let p140 = layout_pool("std140");
    let p430 = layout_pool("std430");
    let mut defs: Vec<Def> = Vec::new();
    let mut classes: std::collections::BTreeMap<String, Vec<usize>> = Default::default();
    for (i, b) in base.iter().enumerate() {
        classes.entry(class(&b.0)).or_default().push(i);
    }
    // Which kind of member has been put after which.
    let mut seen: std::collections::BTreeSet<(String, String)> = Default::default();

    let user: Vec<(String, usize)> =
        [("Rgb", 3), ("Half", 1), ("Halves", 3), ("Byte", 1), ("Line", 5), ("Page", 3)].map(|u| (u.0.to_string(), u.1)).to_vec();
    let twins = n_all / 12 + 2;
    let total = n_all + n_all / 4 + n_all / 6 + twins;
    for index in 0..total {
        let flavour = if index < n_all {
            Flavour::All
        } else if index < n_all + n_all / 4 {
            Flavour::Only140
        } else if index < total - twins {
            Flavour::Only430
        } else if index % 2 == 0 {
            Flavour::Own
        } else {
            Flavour::Twin
        };
        let n_fields = match r.below(100) {
            0..=44 => r.range(1, 4),
            45..=79 => r.range(4, 8),
            80..=95 => r.range(8, 20),
            _ => r.range(24, 48),
        };
        let n_fields = if index == 9 { r.range(70, 130) } else { n_fields };
        // Small members and a single strictly aligned one among them.
        let lone = r.permille(130) && index > 12;
        let n_fields = if lone { r.range(2, 40) } else { n_fields };
        let lone_at = match r.below(3) {
            0 => n_fields - 1,
            _ => r.below(n_fields as u64) as usize,
        };
        // Swarm: each struct draws from its own random part of the pool.
        let few = r.range(1, 6);
        let palette: Vec<usize> = (0..few)
            .map(|_| r.below(base.len() as u64) as usize)
            .collect();
        let use_palette = r.permille(500);
        let nest = *r.pick(&[0u32, 100, 300, 600]);
        let mut fields: Vec<(String, String)> = Vec::new();
        let mut leaves = 0;
        let mut deps = Vec::new();
        let mut passthrough = false;
        let only = flavour == Flavour::Only140 || flavour == Flavour::Only430;
        let glsl = flavour == Flavour::All || flavour == Flavour::Twin;
        for f in 0..n_fields {
            let mut pick: Option<(String, usize)> = None;
            if !lone && r.permille(nest) && !defs.is_empty() {
                let d = &defs[r.below(defs.len() as u64) as usize];
                if (d.flavour == Flavour::All || d.flavour == flavour && only) && d.leaves + leaves < 260 {
                    deps.push(d.index);
                    passthrough |= d.passthrough;
                    pick = Some((d.ident.clone(), d.leaves));
                }
            }
            if !lone && pick.is_none() && !glsl && r.permille(120) {
                let (inner, n) = r.pick(&base).clone();
                pick = Some((format!("Hooked<{inner}>"), n));
            }
            if !lone && pick.is_none() && !glsl && r.permille(if only { 80 } else { 250 }) {
                pick = Some(r.pick(&user).clone());
            }
            if !lone && pick.is_none() && only && r.permille(350) {
                let (pool, m) = match flavour {
                    Flavour::Only140 => (&p140, "std140"),
                    _ => (&p430, "std430"),
                };
                let (mut t, n) = r.pick(pool).clone();
                if m == "std140" && r.permille(400) {
                    let (inner, n2) = r.pick(&base).clone();
                    t = format!("crevice::std140::DynamicUniform<{inner}>");
                    pick = Some((t, n2));
                } else {
                    passthrough = true;
                    pick = Some((t, n));
                }
            }
            if lone && f != lone_at {
                pick = Some(base[[0, 0, 1, 2, 3, 4][r.below(6) as usize]].clone());
            }
            let (t, n) = pick.unwrap_or_else(|| {
                if lone {
                    let strict: Vec<_> = base.iter().filter(|b| b.1 > 2).collect();
                    return (*r.pick(&strict)).clone();
                }
                let prev = fields.last().map_or(String::new(), |f: &(String, String)| class(&f.1));
                let fresh: Vec<&String> = classes.keys().filter(|c| !seen.contains(&(prev.clone(), c.to_string()))).collect();
                if !fresh.is_empty() && r.permille(700) {
                    let of = &classes[*r.pick(&fresh)];
                    return base[*r.pick(of)].clone();
                }
                if use_palette {
                    base[*r.pick(&palette)].clone()
                } else if r.permille(250) {
                    base[r.below(5) as usize].clone()
                } else {
                    r.pick(&base).clone()
                }
            });
            leaves += n;
            let prev = fields.last().map_or(String::new(), |f| class(&f.1));
            seen.insert((prev, class(&t)));
            let mut name = if r.permille(60) {
                r.pick(RAW).to_string()
            } else if r.permille(350) {
                styled(&mut r)
            } else {
                r.pick(NAMES).to_string()
            };
            if fields.iter().any(|(n, _)| *n == name) {
                name = format!("{}_{f}", name.trim_start_matches("r#").trim_end_matches('_'));
            }
            fields.push((name, t));
        }
        let (ident, name) = if !only && flavour != Flavour::All {
            (format!("twin{index}::Twin"), "Twin".to_string())
        } else if index == 3 {
            ("r#impl".to_string(), "impl".to_string())
        } else {
            let stem = r.pick(&["Light", "Camera", "Params", "gpu_data", "T"]);
            let n = match index % 11 {
                4 => format!("{stem}{index}_"),
                6 => format!("_{stem}{index}"),
                8 => format!("{}_{index}", stem.to_lowercase()),
                _ => format!("{stem}{index}"),
            };
            (n.clone(), n)
        };
        defs.push(Def {
            index,
            ident,
            name,
            flavour,
            fields,
            leaves,
            deps,
            passthrough,
        });
    }

    let mut gone: Vec<usize> = exclude;
    let max_fields = env("SIM_MAX_FIELDS", u64::MAX) as usize;
    gone.extend(defs.iter().filter(|d| d.fields.len() > max_fields).map(|d| d.index));
    loop {
        let more: Vec<usize> = defs
            .iter()
            .filter(|d| !gone.contains(&d.index) && d.deps.iter().any(|x| gone.contains(x)))
            .map(|d| d.index)
            .collect();
        if more.is_empty() {
            break;
        }
        gone.extend(more);
    }

    let mut out = String::from(
        "macro_rules! the_struct {
    ([$($d:path),*] $v:vis struct $n:ident { $($fv:vis $f:ident: $t:ty,)* }) => {
        #[derive($($d),*)]
        #[allow(non_camel_case_types, non_snake_case, dead_code)]
        $v struct $n { $($fv $f: $t,)* }
    };
}
",
    );
    let mut reg = String::new();
    for d in defs.iter().filter(|d| !gone.contains(&d.index)) {
        let mut def = String::new();
        let derives = match d.flavour {
            Flavour::All | Flavour::Twin => "crevice::std140::AsStd140, crevice::std430::AsStd430, crevice::glsl::GlslStruct",
            Flavour::Only140 => "crevice::std140::AsStd140",
            Flavour::Only430 => "crevice::std430::AsStd430",
            Flavour::Own => "crevice::std140::AsStd140, crevice::std430::AsStd430",
        };
        let twin = d.flavour == Flavour::Twin || d.flavour == Flavour::Own;
        let def_ident = if twin { "Twin" } else { &d.ident };
        writeln!(out, "// @struct {}", d.index).unwrap();
        // Ways people write the same definition.
        let style = Rng::derive(seed, "style", d.index as u64).below(8);
        if style == 1 {
            writeln!(def, "/// A struct.").unwrap();
        }
        writeln!(def, "#[derive({derives})]").unwrap();
        if style == 2 {
            writeln!(def, "#[repr(C)]").unwrap();
        }
        if style == 3 {
            writeln!(def, "#[repr(C, align(64))]").unwrap();
        }
        let vis = ["pub ", if twin { "pub(super) " } else { "" }, "pub(crate) "][d.index % 3];
        writeln!(def, "{vis}struct {def_ident} {{").unwrap();
        for (k, (n, t)) in d.fields.iter().enumerate() {
            match style {
                1 => writeln!(def, "    /// A field.").unwrap(),
                4 if k % 2 == 0 => writeln!(def, "    #[allow(dead_code)]").unwrap(),
                _ => {}
            }
            let t = match style {
                5 if k % 2 == 1 => format!("self::{}::Alias{k}", format_args!("aliases{}", d.index)),
                _ => t.clone(),
            };
            writeln!(def, "    {vis}{n}: {t},").unwrap();
        }
        writeln!(def, "}}").unwrap();
        if style == 5 {
            writeln!(def, "mod aliases{} {{", d.index).unwrap();
            writeln!(def, "    #[allow(unused_imports)]\n    use super::*;").unwrap();
            for (k, (_, t)) in d.fields.iter().enumerate().filter(|f| f.0 % 2 == 1) {
                writeln!(def, "    pub(crate) type Alias{k} = {t};").unwrap();
            }
            writeln!(def, "}}").unwrap();
        }
        if style == 6 {
            // From a macro: field types arrive in invisible groups.
            def.clear();
            writeln!(def, "the_struct! {{ [{derives}] {vis}struct {def_ident} {{").unwrap();
            for (n, t) in &d.fields {
                writeln!(def, "    {vis}{n}: {t},").unwrap();
            }
            writeln!(def, "}} }}").unwrap();
        }
        if twin {
            def = format!("mod twin{} {{\n#[allow(unused_imports)]\nuse super::*;\n{def}}}\n", d.index);
        }
        writeln!(out, "// @def").unwrap();
        if style != 6 {
            out.push_str("#[allow(non_camel_case_types, non_snake_case, dead_code)]\n");
        }
        out.push_str(&def);
        writeln!(out, "// @enddef").unwrap();
        writeln!(out, "impl SimTy for {} {{", d.ident).unwrap();
        writeln!(out, "    fn ty() -> Ty {{ Ty::strukt({:?}, vec![", d.name).unwrap();
        for (n, t) in &d.fields {
            writeln!(
                out,
                "        ({:?}, <{t} as SimTy>::ty()),",
                n.trim_start_matches("r#")
            )
            .unwrap();
        }
        out.push_str("    ]) }\n    fn read(r: &mut Reader) -> Self { Self {\n");
        for (n, t) in &d.fields {
            writeln!(out, "        {n}: <{t} as SimTy>::read(r),").unwrap();
        }
        out.push_str("    } }\n    fn put(&self, out: &mut Vec<u64>) {\n");
        for (n, _) in &d.fields {
            writeln!(out, "        self.{n}.put(out);").unwrap();
        }
        out.push_str("    }\n    fn own_bytes(&self, l: crate::model::Layout) -> Option<Vec<u8>> { match l {\n");
        for (l, lower) in [("Std140", "std140"), ("Std430", "std430")] {
            if derives.contains(l) {
                writeln!(out, "        crate::model::Layout::{l} => Some(crevice::{lower}::As{l}::as_{lower}(self).as_bytes().to_vec()),").unwrap();
            }
        }
        out.push_str("        #[allow(unreachable_patterns)] _ => None,\n    } }\n}\n");

        let src = format!("r##\"{def}\"##");
        match d.flavour {
            Flavour::Twin | Flavour::Own => writeln!(
                reg,
                "    if r.want(\"Twin#{1}\") {{ r.both::<{0}>(\"Twin#{1}\", \"derived\", {2}, {src}); }}",
                d.ident,
                d.index,
                if d.flavour == Flavour::Own { "None".to_string() } else { format!("glsl_struct::<{}>()", d.ident) }
            ),
            Flavour::All => writeln!(
                reg,
                "    if r.want({1:?}) {{ r.both::<{0}>({1:?}, \"derived\", glsl_struct::<{0}>(), {src}); }}",
                d.ident, d.name
            ),
            Flavour::Only140 => writeln!(
                reg,
                "    if r.want({1:?}) {{ r.entry::<{0}>({1:?}, \"derived\", Some(ops140::<{0}>()), None, None, {2}, {src}); }}",
                d.ident, d.name, d.passthrough
            ),
            Flavour::Only430 => writeln!(
                reg,
                "    if r.want({1:?}) {{ r.entry::<{0}>({1:?}, \"derived\", None, Some(ops430::<{0}>()), None, {2}, {src}); }}",
                d.ident, d.name, d.passthrough
            ),
        }
        .unwrap();
    }

    // User-level values around derived structs.
    let usable: Vec<&Def> = defs
        .iter()
        .filter(|d| d.flavour == Flavour::All && !gone.contains(&d.index))
        .collect();
    if !usable.is_empty() {
        for k in 0..(n_all / 10).max(1) {
            let a = *r.pick(&usable);
            let b = *r.pick(&usable);
            writeln!(reg, "    if r.want(\"Batch<u32, {1}>#{k}\") {{ r.batch::<u32, {0}>(\"Batch<u32, {1}>#{k}\"); }}", a.ident, a.name).unwrap();
            writeln!(
                reg,
                "    if r.want(\"Batch<{1}, {3}>#{k}\") {{ r.batch::<{0}, {2}>(\"Batch<{1}, {3}>#{k}\"); }}",
                a.ident, a.name, b.ident, b.name
            )
            .unwrap();
            writeln!(reg, "    if r.want(\"Tail<{1}>#{k}\") {{ r.tail::<{0}>(\"Tail<{1}>#{k}\"); }}", b.ident, b.name).unwrap();
            writeln!(
                reg,
                "    if r.want(\"Hooked<{1}>#{k}\") {{ r.both::<Hooked<{0}>>(\"Hooked<{1}>#{k}\", \"user\", None, \"\"); }}",
                b.ident, b.name
            )
            .unwrap();
            writeln!(
                reg,
                "    if r.want(\"DynamicUniform<{1}>#{k}\") {{ r.entry::<DynamicUniform<{0}>>(\"DynamicUniform<{1}>#{k}\", \"wrapper\", Some(ops140::<DynamicUniform<{0}>>()), None, None, false, \"\"); }}",
                a.ident, a.name
            )
            .unwrap();
        }
    }
    writeln!(out, "// @end").unwrap();
    writeln!(
        out,
        "pub const SCHEMA_SEED: u64 = {seed};\n#[allow(unused_variables)]\npub fn register(r: &mut Registry) {{\n{reg}}}"
    )
    .unwrap();
    let path = std::path::Path::new(&std::env::var("OUT_DIR").unwrap()).join("corpus.rs");
    std::fs::write(path, out).unwrap();
}
