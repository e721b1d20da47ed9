#!/usr/bin/env python3
"""Runs the checks against rewritings of crevice that keep its behaviour. All
of them have to stay quiet.

  quiet.py [--lane N] [--props C01,C08] [--runs N] NAME...|all
"""
import os, shutil, subprocess, sys, time

W140, W430 = "src/std140/writer.rs", "src/std430/writer.rs"
PAD = '''        for _ in 0..padding {
            self.writer.write_all(&[0])?;
        }
        self.offset += padding;
'''
IMPL = "impl<W: Write> Writer<W> {\n    /// Create"
ITER = '''        let mut offset = self.offset;

        let mut iter = iter.into_iter().fuse();

        if let Some(item) = iter.next() {
            offset = item.write_std140(self)?;
        }

        for item in iter {
            item.write_std140(self)?;
        }

        Ok(offset)
'''
VAL = '''        let value = value.as_std140();
        self.writer.write_all(bytes_of(&value))?;
'''


def both(edits):
    out = []
    for f, a, b in edits:
        out.append((f, a, b))
        if "std140" in f:
            out.append((f.replace("140", "430"), a.replace("140", "430"), b.replace("140", "430")))
    return out


QUIET = {
    "padding-in-blocks": both([(W140, PAD, '''        const ZEROS: [u8; 16] = [0; 16];
        let mut left = padding;
        while left > 0 {
            let n = left.min(ZEROS.len());
            self.writer.write_all(&ZEROS[..n])?;
            left -= n;
        }
        self.offset += padding;
''')]),
    "own-write-loop": both([(W140, VAL, '''        let value = value.as_std140();
        let mut rest = bytes_of(&value);
        while !rest.is_empty() {
            match self.writer.write(rest) {
                Ok(0) => {
                    return Err(io::Error::new(io::ErrorKind::WriteZero, "failed to write whole buffer"))
                }
                Ok(n) => rest = &rest[n..],
                Err(ref e) if e.kind() == io::ErrorKind::Interrupted => continue,
                Err(e) => return Err(e),
            }
        }
''')]),
    "one-call-per-value": both([(W140, PAD + "\n" + VAL, '''        let value = value.as_std140();
        let mut all = vec![0u8; padding];
        all.extend_from_slice(bytes_of(&value));
        self.writer.write_all(&all)?;
        self.offset += padding;
''')]),
    "staging-in-thread-local": both([(W140, PAD + "\n" + VAL, '''        let value = value.as_std140();
        let mut all = STAGE.with(|s| std::mem::take(&mut *s.borrow_mut()));
        all.clear();
        all.resize(padding, 0);
        all.extend_from_slice(bytes_of(&value));
        let sent = self.writer.write_all(&all);
        STAGE.with(|s| *s.borrow_mut() = all);
        sent?;
        self.offset += padding;
'''), (W140, IMPL, '''thread_local! {
    static STAGE: std::cell::RefCell<Vec<u8>> = const { std::cell::RefCell::new(Vec::new()) };
}

''' + IMPL)]),
    "global-mutex-not-over-sink": both([(W140, PAD + "\n" + VAL, '''        let value = value.as_std140();
        let all = {
            let mut stage = STAGE.lock().unwrap();
            stage.clear();
            stage.resize(padding, 0);
            stage.extend_from_slice(bytes_of(&value));
            stage.clone()
        };
        self.writer.write_all(&all)?;
        self.offset += padding;
'''), (W140, IMPL, '''static STAGE: std::sync::Mutex<Vec<u8>> = std::sync::Mutex::new(Vec::new());

''' + IMPL)]),
    "global-spinlock-not-over-sink": both([(W140, PAD + "\n" + VAL, '''        let value = value.as_std140();
        let mut all = Vec::new();
        while BUSY.swap(true, std::sync::atomic::Ordering::Acquire) {
            std::hint::spin_loop();
        }
        all.resize(padding, 0);
        all.extend_from_slice(bytes_of(&value));
        BUSY.store(false, std::sync::atomic::Ordering::Release);
        self.writer.write_all(&all)?;
        self.offset += padding;
'''), (W140, IMPL, '''static BUSY: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

''' + IMPL)]),
    "lazy-global-table": both([(W140, "let padding = align_offset(self.offset, T::ALIGNMENT);", '''let table = TABLE.get_or_init(|| (0..64).map(|i| (0..64).map(|a| align_offset(i, a)).collect()).collect());
        let padding = match T::ALIGNMENT {
            a if a < 64 && a.is_power_of_two() => table[self.offset % a][a],
            a => align_offset(self.offset, a),
        };'''), (W140, IMPL, '''static TABLE: std::sync::OnceLock<Vec<Vec<usize>>> = std::sync::OnceLock::new();

''' + IMPL)]),
    "iter-with-option": [(W140, ITER, '''        let mut first = None;
        for item in iter {
            let at = item.write_std140(self)?;
            first.get_or_insert(at);
        }
        Ok(first.unwrap_or(self.offset))
''')],
    "statistics-nobody-reads": both([(W140, PAD, PAD + '''        WRITTEN.fetch_add(padding, std::sync::atomic::Ordering::Relaxed);
'''), (W140, IMPL, '''static WRITTEN: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

''' + IMPL)]),
}

T140 = "src/std140/traits.rs"
DERIVE = "crevice-derive/src/layout.rs"
QUIET.update({
    "iter-peekable": both([(W140, ITER, '''        let mut iter = iter.into_iter().fuse().peekable();
        if iter.peek().is_none() {
            return Ok(self.offset);
        }

        let mut first = None;
        while let Some(item) = iter.next() {
            let here = item.write_std140(self)?;
            if first.is_none() {
                first = Some(here);
            }
        }

        Ok(first.unwrap())
''')]),
    "align-mask": [("src/internal.rs", '''    if alignment == 0 || offset % alignment == 0 {
        0
    } else {
        alignment - offset % alignment
    }
''', '''    if alignment.is_power_of_two() {
        offset.wrapping_neg() & (alignment - 1)
    } else if alignment == 0 {
        0
    } else {
        (alignment - offset % alignment) % alignment
    }
'''), ("src/internal.rs", '''    while i < N {
        if input[i] > max {
            max = input[i];
        }

        i += 1;
    }

    max
''', '''    loop {
        if i == N {
            return max;
        }
        max = self::max(max, input[i]);
        i += 1;
    }
''')],
    "glsl-under-lock": [("src/glsl.rs", '''        let mut output = String::new();
        output.push_str("struct ");
        output.push_str(Self::NAME);
        output.push_str(" {\\n");

        for field in Self::FIELDS {
            output.push('\\t');
            output.push_str(field.ty);
            output.push(' ');
            output.push_str(field.name);
            output.push_str(";\\n");
        }

        output.push_str("};");
        output
''', '''        // One buffer, in use by one definition at a time.
        static TEXT: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
        let mut output = TEXT.lock().unwrap();
        output.clear();
        output.push_str("struct ");
        output.push_str(Self::NAME);
        output.push_str(" {\\n");

        for field in Self::FIELDS {
            output.push('\\t');
            output.push_str(field.ty);
            output.push(' ');
            output.push_str(field.name);
            output.push_str(";\\n");
        }

        output.push_str("};");
        output.clone()
''')],
    "glsl-write": [("src/glsl.rs", '''        let mut output = String::new();
        output.push_str("struct ");
        output.push_str(Self::NAME);
        output.push_str(" {\\n");

        for field in Self::FIELDS {
            output.push('\\t');
            output.push_str(field.ty);
            output.push(' ');
            output.push_str(field.name);
            output.push_str(";\\n");
        }

        output.push_str("};");
        output
''', '''        let fields: String = Self::FIELDS
            .iter()
            .map(|field| format!("\\t{} {};\\n", field.ty, field.name))
            .collect();

        format!("struct {} {{\\n{fields}}};", Self::NAME)
''')],
    "slice-enumerate": both([(T140, '''        let mut iter = self.iter();

        if let Some(item) = iter.next() {
            offset = item.write_std140(writer)?;
        }

        for item in iter {
            item.write_std140(writer)?;
        }

        Ok(offset)
''', '''        for (index, item) in self.iter().enumerate() {
            let here = item.write_std140(writer)?;
            if index == 0 {
                offset = here;
            }
        }

        Ok(offset)
''')]),
    "derive-whole-then-set": [(DERIVE, '''                Self::Output {
                    #generated_struct_field_init

                    ..::crevice::internal::bytemuck::Zeroable::zeroed()
                }
''', '''                let mut output: Self::Output = ::crevice::internal::bytemuck::Zeroable::zeroed();
                #generated_struct_field_init
                output
'''), (DERIVE, '''                #field_name: self.#field_name.#as_trait_method(),
''', '''                output.#field_name = #as_trait_path::#as_trait_method(&self.#field_name);
''')],
    "derive-offset-before": [(DERIVE, '''    let offset_after_field = |target: usize| {
        let mut output = vec![quote!(0usize)];

        for index in 0..=target {
            let field_ty = &fields[index].ty;
            let layout_ty = layout_version_of_ty(field_ty);

            output.push(quote! {
                + ::core::mem::size_of::<#layout_ty>()
            });

            // For every field except our target field, also add the generated
            // padding. Padding occurs after each field, so it isn't included in
            // this value.
            if index < target {
                let pad_fn = &pad_fns[index];
                output.push(quote! {
                    + #pad_fn
                });
            }
        }

        output.into_iter().collect::<TokenStream>()
    };
''', '''    let offset_after_field = |target: usize| {
        let sizes = fields[..=target].iter().map(|field| {
            let layout_ty = layout_version_of_ty(&field.ty);
            quote!(::core::mem::size_of::<#layout_ty>())
        });
        let pads = &pad_fns[..target];

        quote! { (0usize #(+ #sizes)* #(+ #pads)*) }
    };
''')],
    "sizer-from-align": both([("src/std140/sizer.rs", '''        let size = size_of::<<T as AsStd140>::Output>();
        let alignment = <T as AsStd140>::Output::ALIGNMENT;
        let padding = align_offset(self.offset, alignment);

        self.offset += padding;
        let write_here = self.offset;

        self.offset += size;

        write_here
''', '''        let alignment = <T as AsStd140>::Output::ALIGNMENT;
        let write_here = self.offset + align_offset(self.offset, alignment);
        self.offset = write_here + T::std140_size_static().max(size_of::<T::Output>());
        write_here
''')]),
})


def main():
    a = sys.argv[1:]
    opt = {}
    for k in ("lane", "props", "runs"):
        if "--" + k in a:
            i = a.index("--" + k)
            opt[k] = a[i + 1]
            del a[i : i + 2]
    D = f"/tmp/quiet{opt.get('lane', '0')}"
    names = list(QUIET) if a == ["all"] else a
    subprocess.check_call(f"rm -rf {D}/repo && mkdir -p {D}/repo {D}/verif && cd /repo && git archive HEAD | tar x -C {D}/repo && cd {D}/repo && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x", shell=True)
    for f in ("check", "known-findings.txt", "MANIFEST.json"):
        shutil.copy("/verif/" + f, D + "/verif/" + f)
    subprocess.check_call(f"rm -rf {D}/verif/sim && cp -a /verif/sim {D}/verif/sim", shell=True)
    for f in ("check", "sim/Cargo.toml"):
        p = f"{D}/verif/{f}"
        s = open(p).read()
        open(p, "w").write(s.replace('"/repo"', f'"{D}/repo"'))
    props = opt["props"].split(",") if "props" in opt else [f"C{k:02d}" for k in (*range(1, 12), 14)]
    bad = []
    for n in names:
        subprocess.check_call(["git", "-C", D + "/repo", "checkout", "-q", "--", "."])
        for f, old, new in QUIET[n]:
            p = f"{D}/repo/{f}"
            s = open(p).read()
            assert s.count(old) == 1, (n, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        for p in props:
            t = time.time()
            r = subprocess.run([D + "/verif/check", p, "--runs", "240" if p == "C14" else opt.get("runs", "20000")], capture_output=True, text=True, env={**os.environ, "VERIF_SEED": "1", "VERIF_TIER": "quick"})
            loud = r.returncode != 0 or "VIOLATION" in r.stdout
            if loud:
                bad.append((n, p))
            print(n, p, "LOUD" if loud else "quiet", f"{time.time() - t:.0f}s", (r.stdout + r.stderr)[-500:] if loud or "note" in r.stderr else "", flush=True)
    print("loud:", bad)


main()
