//! vp-idl elf <dir>: embeds the IDL of every case of dir/cases.ndjson in a
//! program binary and reads it back; one observation per line of dir/obs.ndjson.
use num_traits::FromPrimitive;
use serde_json::{json, Value};
use solana_include_idl::{compress_idl, parse::{parse_idl_from_program_binary, IdlType}};
use std::{io::Write, panic::{catch_unwind, AssertUnwindSafe}, path::Path};

/// A section of the binary: its name, and what lies at its offset.
struct Section { name: String, offset: u64, size: u64 }

/// A 64-bit little-endian ELF file: header, `body`, names, section headers.
fn elf(body: &[u8], sections: &[Section]) -> Vec<u8> {
    let mut names = vec![0u8];
    let mut at = vec![];
    for s in sections {
        at.push(names.len() as u32);
        names.extend(s.name.as_bytes());
        names.push(0);
    }
    let own = names.len() as u32;
    names.extend(b".shstrtab\0");
    let mut f = vec![0u8; 64];
    f.extend(body);
    let names_at = f.len() as u64;
    f.extend(&names);
    while f.len() % 8 != 0 { f.push(0); }
    let table = f.len() as u64;
    let mut head = |name: u32, kind: u32, offset: u64, size: u64| {
        for w in [name, kind] { f.extend(w.to_le_bytes()); }
        for q in [0u64, 0, offset, size] { f.extend(q.to_le_bytes()); }
        f.extend([0u8; 8]);
        for q in [1u64, 0] { f.extend(q.to_le_bytes()); }
    };
    head(0, 0, 0, 0);
    for (s, n) in sections.iter().zip(&at) { head(*n, 1, s.offset, s.size); }
    head(own, 3, names_at, names.len() as u64);
    let mut h = vec![0x7f, b'E', b'L', b'F', 2, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0];
    for w in [3u16, 247] { h.extend(w.to_le_bytes()); }
    h.extend(1u32.to_le_bytes());
    for q in [0u64, 0, table] { h.extend(q.to_le_bytes()); }
    h.extend(0u32.to_le_bytes());
    let n = sections.len() as u16 + 2;
    for w in [64u16, 56, 0, 64, n, n - 1] { h.extend(w.to_le_bytes()); }
    f[..64].copy_from_slice(&h);
    f
}

fn bytes(v: &Value) -> Vec<u8> { v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect() }

fn read(binary: &[u8]) -> Value {
    match catch_unwind(AssertUnwindSafe(|| parse_idl_from_program_binary(binary))) {
        Ok(Ok((t, v))) => json!({ "r": "idl", "t": t.to_string(), "doc": v.to_string() }),
        Ok(Err(_)) => json!({ "r": "error", "t": "", "doc": "" }),
        Err(_) => json!({ "r": "panic", "t": "", "doc": "" }),
    }
}

/// The binary of a case; `data` is the compressed document.
fn binary(c: &Value, data: &[u8], typ: &[u8]) -> Vec<u8> {
    let n = |f: &str| c[f].as_u64().unwrap();
    let gap = |k: u64| vec![0xEE; k as usize];
    // the pieces in the order of the case; each reference is where its section is
    let mut body = vec![];
    let (mut ref_type, mut ref_data, mut loc_type, mut loc_data) = (0usize, 0, 0, 0);
    for p in c["lay"].as_array().unwrap() {
        body.extend(gap(n("gap")));
        match p.as_str().unwrap() {
            "rt" => { ref_type = body.len(); body.extend([0u8; 16]); }
            "rd" => { ref_data = body.len(); body.extend([0u8; 16]); }
            "t" => { loc_type = body.len(); body.extend(typ); }
            "d" => { loc_data = body.len(); body.extend(data); }
            x => panic!("{x}"),
        }
    }
    body.extend(gap(n("gap")));
    let mut fill = |at: usize, loc: usize, len: usize, low: u64| {
        body[at..at + 4].copy_from_slice(&(low as u32).to_le_bytes());
        body[at + 4..at + 8].copy_from_slice(&(loc as u32).to_le_bytes());
        body[at + 8..at + 16].copy_from_slice(&(len as u64).to_le_bytes());
    };
    fill(ref_type, loc_type + 64, typ.len(), n("low"));
    fill(ref_data, loc_data + 64, data.len(), n("low"));
    let section = |name: &str| {
        let at = match name { ".idl.type" => ref_type, ".idl.data" => ref_data, _ => 0 };
        Section { name: name.into(), offset: at as u64 + 64, size: 16 }
    };
    let mut sections: Vec<Section> = c["sections"].as_array().unwrap().iter().map(|s| section(s.as_str().unwrap())).collect();
    let far = u32::MAX as u64;
    match c["harm"].as_str().unwrap() {
        "none" | "doc" | "type" | "zip" => (),
        "farsection" => for s in &mut sections { if s.name.starts_with(".idl.") { s.offset = far; } },
        "hugesection" => for s in &mut sections { if s.name.starts_with(".idl.") { s.offset = u64::MAX - 3; } },
        "fardata" => body[ref_data + 4..ref_data + 8].copy_from_slice(&[255; 4]),
        "hugedata" => body[ref_data + 8..ref_data + 16].copy_from_slice(&[255; 8]),
        "fartype" => body[ref_type + 4..ref_type + 8].copy_from_slice(&[255; 4]),
        "hugetype" => body[ref_type + 8..ref_type + 16].copy_from_slice(&[255; 8]),
        "longdata" => body[ref_data + 8..ref_data + 16].copy_from_slice(&(1u64 << 20).to_le_bytes()),
        "cut" => return elf(&body, &sections)[..40].to_vec(),
        x => panic!("{x}"),
    }
    elf(&body, &sections)
}

/// The name of an error code, as the program and its Rust client know it.
fn errors(prog: &str, code: u64) -> Vec<Value> {
    fn name<E: FromPrimitive + std::fmt::Debug>(code: u64) -> String { E::from_u64(code).map(|e| format!("{e:?}")).unwrap_or_default() }
    let out = |src: &str, name: String| json!({ "src": src, "name": name });
    match prog {
        "asset" => vec![out("program", name::<asset_program::error::AssetError>(code)), out("rust", name::<nifty_asset::errors::AssetError>(code))],
        _ => vec![out("rust", name::<nifty_bridge_client::errors::BridgeError>(code))],
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let dir = Path::new(&a[2]);
    let (json_file, zip_file) = (dir.join("doc.json"), dir.join("doc.zip"));
    let zip = |text: &str| {
        std::fs::write(&json_file, text).unwrap();
        compress_idl(&json_file, &zip_file);
        std::fs::read(&zip_file).unwrap()
    };
    let plain = |text: &str| serde_json::from_str::<Value>(text).map(|v| v.to_string()).unwrap_or_default();
    let idls = Path::new("/repo/idls");
    let mut f = std::io::BufWriter::new(std::fs::File::create(dir.join("obs.ndjson")).unwrap());
    for line in std::fs::read_to_string(dir.join("cases.ndjson")).unwrap().lines() {
        let c: Value = serde_json::from_str(line).unwrap();
        if c["k"] == "err" {
            writeln!(f, "{}", json!({ "outs": errors(c["prog"].as_str().unwrap(), c["code"].as_u64().unwrap()) })).unwrap();
            continue;
        }
        let text = match c["k"].as_str().unwrap() {
            "doc" => c["doc"].to_string(),
            "text" => String::from_utf8(bytes(&c["text"])).unwrap(),
            "file" | "program" => std::fs::read_to_string(idls.join(c["file"].as_str().unwrap())).unwrap(),
            x => panic!("{x}"),
        };
        let orig = plain(&text);
        let (data, typ) = if c["k"] == "program" {
            (asset_program::IDL_BYTES.to_vec(), asset_program::IDL_TYPE.to_vec())
        } else {
            let t = match c["typ"].as_str().unwrap() {
                "anchor" => IdlType::Anchor.as_str().as_bytes().to_vec(),
                "codama" => IdlType::Codama.as_str().as_bytes().to_vec(),
                _ => bytes(&c["rawtyp"]),
            };
            let mut z = zip(&text);
            if c["harm"] == "zip" { z.truncate(c["cut"].as_u64().unwrap() as usize * z.len() / 8); }
            (z, t)
        };
        let mut o = read(&binary(&c, &data, &typ));
        o["orig"] = json!(orig);
        writeln!(f, "{o}").unwrap();
    }
}
