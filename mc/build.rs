//! Mirrors meerkat's source tree (REPO_DIR, default /repo) into OUT_DIR and generates
//! the protobuf bindings there exactly as meerkat's own build script does. meerkat is a
//! binary-only crate whose build script rewrites its own sources, so building it in place
//! from a check could modify tracked files; this never touches them.
use std::path::{Path, PathBuf};
use std::{env, fs};

fn copy(src: &Path, dst: &Path) {
    fs::create_dir_all(dst).unwrap();
    for e in fs::read_dir(src).unwrap() {
        let e = e.unwrap();
        let to = dst.join(e.file_name());
        if e.file_type().unwrap().is_dir() {
            copy(&e.path(), &to);
        } else {
            fs::copy(e.path(), &to).unwrap();
        }
    }
}

/// The fields of a struct, (name, type) without blanks.
fn fields(text: &str, name: &str) -> Vec<(String, String)> {
    let start = match text.find(&format!("struct {} {{", name)) {
        Some(i) => i,
        None => return vec![],
    };
    let body = &text[start..];
    let body = &body[body.find('{').unwrap() + 1..];
    let body = &body[..body.find('}').unwrap_or(body.len())];
    let lines = body.lines().map(|l| l.split("//").next().unwrap().trim());
    let lines = lines.filter(|l| !l.is_empty() && !l.starts_with('#'));
    let text: String = lines.collect::<Vec<_>>().join(" ");
    // fields are separated by commas outside brackets
    let (mut depth, mut parts) = (0, vec![String::new()]);
    for c in text.chars() {
        match c {
            '<' | '(' | '[' => depth += 1,
            '>' | ')' | ']' => depth -= 1,
            ',' if depth == 0 => {
                parts.push(String::new());
                continue;
            }
            _ => {}
        }
        parts.last_mut().unwrap().push(c);
    }
    let split = |p: &String| {
        let (n, t) = p.split_once(':')?;
        let n = n.trim().rsplit(' ').next()?.to_string();
        Some((n, t.chars().filter(|c| !c.is_whitespace()).collect()))
    };
    parts.iter().filter_map(split).collect()
}

/// When the hooks into a segment's writer do not fit the tree because private fields are called
/// or typed differently, fits them to what the structs hold (in the mirror only).
fn adapt(store: &Path) {
    let path = store.join("block_index.rs");
    if let Ok(text) = fs::read_to_string(&path) {
        let all = fields(&text, "BlockIndex");
        let by = |t: &str| all.iter().find(|f| f.1 == t).map(|f| f.0.clone());
        let listed = all.iter().find_map(|(n, t)| {
            let item = t.strip_prefix("Vec<")?.strip_suffix('>')?;
            let inner = fields(&text, item);
            let id = inner.iter().find(|f| f.1 == "u32")?;
            let end = inner.iter().find(|f| f.1 == "u64")?;
            Some(format!("self.{}.iter().map(|e| (e.{}, e.{})).collect()", n, id.0, end.0))
        });
        let body = match (by("Vec<u32>"), by("Vec<u64>"), by("Vec<(u32,u64)>"), by("Vec<(u64,u32)>")) {
            (Some(id), Some(end), _, _) => {
                Some(format!("self.{}.iter().copied().zip(self.{}.iter().copied()).collect()", id, end))
            }
            (_, _, Some(n), _) => Some(format!("self.{}.clone()", n)),
            (_, _, _, Some(n)) => Some(format!("self.{}.iter().map(|e| (e.1, e.0)).collect()", n)),
            _ => listed,
        };
        if let Some(body) = body {
            let text = text.replace("#[cfg(meerkat_verif = \"index\")]", "#[cfg(any())]");
            let hook = format!("\nimpl BlockIndex {{\n    pub fn verif_entries(&self) -> Vec<(u32, u64)> {{\n        {}\n    }}\n}}\n", body);
            fs::write(&path, text + &hook).unwrap();
        }
    }
    let path = store.join("segment_writer.rs");
    if let Ok(mut text) = fs::read_to_string(&path) {
        let all = fields(&text, "SegmentWriter");
        let named = |t: &str, part: &str| {
            let of_type: Vec<_> = all.iter().filter(|f| f.1 == t).collect();
            let fits = of_type.iter().find(|f| f.0.contains(part)).copied();
            fits.or(if of_type.len() == 1 { Some(of_type[0]) } else { None }).map(|f| f.0.clone())
        };
        for (was, now) in [
            ("data_writer", named("BlockWriter", "dat")),
            ("index_writer", named("BlockWriter", "ind").or_else(|| named("BlockWriter", "idx"))),
            ("block_index", named("BlockIndex", "ind")),
        ] {
            if let Some(now) = now {
                text = text.replace(&format!("segment.{}.", was), &format!("segment.{}.", now));
            }
        }
        fs::write(&path, text).unwrap();
    }
}

fn main() {
    println!("cargo:rerun-if-env-changed=REPO_HASH");
    println!("cargo:rerun-if-env-changed=REPO_DIR");
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rustc-cfg=meerkat_verif");
    println!("cargo:rustc-check-cfg=cfg(meerkat_verif, values(any()))");
    for part in ["rle", "varint", "offsets", "enc", "io", "seg"] {
        if env::var_os(format!("CARGO_FEATURE_{}", part.to_uppercase())).is_some() {
            println!("cargo:rustc-cfg=meerkat_verif={:?}", part);
        }
    }
    if env::var_os("CARGO_FEATURE_SEG").is_some() {
        println!("cargo:rustc-cfg=meerkat_verif=\"index\"");
    }
    let repo = PathBuf::from(env::var("REPO_DIR").unwrap_or_else(|_| "/repo".into()));
    let out = PathBuf::from(env::var("OUT_DIR").unwrap());
    let tree = out.join("repo_src");
    if tree.exists() {
        fs::remove_dir_all(&tree).unwrap();
    }
    copy(&repo.join("src"), &tree);
    let store = tree.join("store");
    if env::var_os("CARGO_FEATURE_ADAPT").is_some() {
        adapt(&store);
    }
    let proto = store.join("segment_metadata.proto");
    if proto.exists() {
        tonic_build::configure()
            .build_server(true)
            .build_client(true)
            .format(false)
            .out_dir(&store)
            .compile(&[proto], &[store.clone()])
            .expect("protobuf compilation failed");
    }
    fs::write(
        out.join("root.rs"),
        format!(
            "#[allow(warnings)]\n#[path = {:?}]\npub mod store;\n",
            store.join("mod.rs")
        ),
    )
    .unwrap();
}
