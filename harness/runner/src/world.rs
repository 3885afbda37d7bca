//! Names, the abstract state and its encoding into accounts, and instructions.
use crate::rt::*;
use serde_json::{json, Map, Value};
use sha2::{Digest, Sha256};
use solana_program::pubkey::Pubkey;
use std::collections::BTreeMap;

pub const BIG: u64 = 1_000_000_000_000;
pub const WALLETS: [&str; 8] = ["u1", "u2", "u3", "u4", "u5", "u6", "k1", "k2"];
/// accounts owned by other programs: (name, owner, has data)
pub const FOREIGN: [(&str, &str, bool); 5] =
    [("x1", "PX", true), ("x2", "PX", false), ("y1", "PY", true), ("F1", "PX", true), ("F2", "PX", true)];
pub const SLOTS: [&str; 6] = ["A", "B", "G", "H", "Z", "Y"];
pub const PDAS: [(&str, &str); 2] = [("Z", "k1"), ("Y", "k2")];

/// original tokens: (mint, owning program, vault, bridge asset, metadata)
pub const MINTS: [(&str, &str, &str, &str, &str); 3] = [
    ("M1", "TOKEN", "V1", "W1", "D1"),
    ("M2", "TOKEN22", "V2", "W2", "D2"),
    ("M3", "PX", "V3", "W3", "D3"),
];
/// token accounts: (name, mint, holder, token record)
pub const TOKENS: [(&str, &str, &str, &str); 9] = [
    ("t11", "M1", "u1", "r11"),
    ("t12", "M1", "u2", "r12"),
    ("t13", "M1", "u3", "r13"),
    ("t1v", "M1", "V1", "r1v"),
    ("t1w", "M1", "V2", "r1w"),
    ("t21", "M2", "u1", "r21"),
    ("t22", "M2", "u2", "r22"),
    ("t2v", "M2", "V2", "r2v"),
    ("t31", "M3", "u1", "r31"),
];
const EXTERNAL: [(&str, &str); 5] = [
    ("TM", "metaqbxxUerdq28cj1RbAWkYQm3ybzjb6a8bt518x1s"),
    ("TOKEN", "TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA"),
    ("TOKEN22", "TokenzQdBNbLqP5VEhdkAS6EPFLC1PHnBqCXEpPxuEb"),
    ("ATA", "ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL"),
    ("SIV", "Sysvar1nstructions1111111111111111111111111"),
];

fn external(name: &str) -> Key {
    use std::str::FromStr;
    let s = EXTERNAL.iter().find(|e| e.0 == name).unwrap().1;
    Pubkey::from_str(s).unwrap().to_bytes()
}
fn derived(seeds: &[&[u8]], program: &Key) -> (Key, u8) {
    let (k, b) = Pubkey::find_program_address(seeds, &Pubkey::new_from_array(*program));
    (k.to_bytes(), b)
}
fn metadata_key(mint: &Key) -> Key {
    let tm = external("TM");
    derived(&[b"metadata", &tm, mint], &tm).0
}
fn record_key(mint: &Key, token: &Key) -> Key {
    let tm = external("TM");
    derived(&[b"metadata", &tm, mint, b"token_record", token], &tm).0
}

/// What Token Metadata's TransferV1 does with one token, as far as the bridge
/// relies on it: the holder's signature, matching accounts, one unit moved.
pub fn token_metadata(rt: &mut Rt, m: &[Meta], data: &[u8]) -> Result<(), ()> {
    if m.len() < 17 || data.len() < 11 || data[0] != 49 || data[1] != 0 {
        return Err(());
    }
    if data[2..10] != 1u64.to_le_bytes() || data[10] != 0 {
        return Err(());
    }
    let k = |j: usize| m[j].key;
    let signed = |j: usize| m.iter().any(|x| x.key == m[j].key && x.signer);
    let (token, holder, dest, receiver, mint) = (k(0), k(1), k(2), k(3), k(4));
    let tm = external("TM");
    if !signed(9) || !signed(10) || !m[0].writable || !m[2].writable || !m[5].writable {
        return Err(());
    }
    let spl = rt.get(&mint).owner;
    if (spl != external("TOKEN") && spl != external("TOKEN22")) || k(13) != spl {
        return Err(());
    }
    if k(11) != SYS || k(12) != external("SIV") || k(14) != external("ATA") {
        return Err(());
    }
    let meta = rt.get(&k(5));
    if meta.owner != tm || k(5) != metadata_key(&mint) || meta.data.get(33..65) != Some(&mint[..]) {
        return Err(());
    }
    if rt.get(&mint).data.first() == Some(&4)
        && (k(7) != record_key(&mint, &token) || k(8) != record_key(&mint, &dest) || !m[7].writable || !m[8].writable)
    {
        return Err(());
    }
    let mut from = rt.get(&token);
    let mut to = rt.get(&dest);
    let is = |a: &Acct, who: &Key| {
        a.owner == spl && a.data.len() == 165 && a.data[..32] == mint[..] && a.data[32..64] == who[..]
    };
    if !is(&from, &holder) || !is(&to, &receiver) || k(9) != holder || token == dest || from.data[64] < 1 {
        return Err(());
    }
    from.data[64] -= 1;
    to.data[64] += 1;
    rt.bank.insert(token, from);
    rt.bank.insert(dest, to);
    Ok(())
}

pub struct World {
    pub keys: BTreeMap<String, Key>,
    pub names: BTreeMap<Key, String>,
    pub bumps: BTreeMap<String, u8>,
    pub nifty: Key,
    pub proxy: Key,
    pub bridge: Key,
    /// the image blob of the assets the proxy program creates
    pub img: Vec<u8>,
}

pub fn hkey(name: &str) -> Key {
    Sha256::digest(format!("vp:{name}").as_bytes()).into()
}

impl World {
    pub fn new(nifty: Key, bridge: Key, proxy: Key) -> World {
        let mut keys = BTreeMap::new();
        let mut bumps = BTreeMap::new();
        for w in WALLETS {
            keys.insert(w.to_string(), hkey(w));
        }
        for (n, _, _) in FOREIGN {
            keys.insert(n.to_string(), hkey(n));
        }
        for p in ["PX", "PY", "LOADER"] {
            keys.insert(p.to_string(), hkey(p));
        }
        keys.insert("SYS".into(), SYS);
        keys.insert("NIFTY".into(), nifty);
        keys.insert("BRIDGE".into(), bridge);
        keys.insert("PROXY".into(), proxy);
        for s in ["A", "B", "G", "H"] {
            keys.insert(s.to_string(), hkey(s));
        }
        for (s, seed) in PDAS {
            let (k, b) =
                Pubkey::find_program_address(&[&hkey(seed)], &Pubkey::new_from_array(proxy));
            keys.insert(s.to_string(), k.to_bytes());
            bumps.insert(s.to_string(), b);
        }
        for (n, _) in EXTERNAL {
            keys.insert(n.into(), external(n));
        }
        for (m, _, v, a, d) in MINTS {
            let mk = hkey(m);
            keys.insert(m.into(), mk);
            let (k, b) = derived(&[b"vault", &mk], &bridge);
            keys.insert(v.into(), k);
            bumps.insert(v.into(), b);
            let (k, b) = derived(&[b"asset", &mk], &bridge);
            keys.insert(a.into(), k);
            bumps.insert(a.into(), b);
            keys.insert(d.into(), metadata_key(&mk));
        }
        keys.insert("D4".into(), hkey("D4"));
        for (t, m, _, r) in TOKENS {
            keys.insert(t.into(), hkey(t));
            keys.insert(r.into(), record_key(&hkey(m), &hkey(t)));
        }
        let names = keys.iter().map(|(a, b)| (*b, a.clone())).collect();
        World { keys, names, bumps, nifty, proxy, bridge, img: vec![] }
    }
    pub fn key(&self, name: &str) -> Key {
        if name == "-" {
            return self.nifty;
        }
        *self.keys.get(name).unwrap_or_else(|| panic!("unknown name {name}"))
    }
    pub fn name(&self, k: &Key) -> String {
        self.names.get(k).cloned().unwrap_or_else(|| "?".into())
    }
    pub fn users() -> Vec<&'static str> {
        WALLETS.iter().copied().chain(FOREIGN.iter().map(|f| f.0)).collect()
    }
    pub fn is_program(name: &str) -> bool {
        matches!(name, "SYS" | "NIFTY" | "PX" | "PY" | "PROXY" | "BRIDGE" | "LOADER" | "-")
            || EXTERNAL.iter().any(|e| e.0 == name)
    }

    pub fn keys_tla(&self) -> String {
        let tup = |k: &Key| {
            let v: Vec<String> = k.iter().map(|b| b.to_string()).collect();
            format!("<< {} >>", v.join(", "))
        };
        let mut o = String::from(
            "-------------------------------- MODULE Keys --------------------------------\n\
             \\* Generated by the harness (runner genkeys); the names of all accounts.\n\
             EXTENDS Naturals\n\nKeyBytes == [\n",
        );
        let rows: Vec<String> =
            self.keys.iter().map(|(n, k)| format!("  {n} |-> {}", tup(k))).collect();
        o += &rows.join(",\n");
        o += "]\n\n";
        let set = |v: Vec<String>| {
            format!("{{{}}}", v.iter().map(|s| format!("\"{s}\"")).collect::<Vec<_>>().join(", "))
        };
        o += &format!("Users == {}\n", set(Self::users().iter().map(|s| s.to_string()).collect()));
        o += &format!("Wallets == {}\n", set(WALLETS.iter().map(|s| s.to_string()).collect()));
        o += &format!("AllSlots == {}\n", set(SLOTS.iter().map(|s| s.to_string()).collect()));
        let fo: Vec<String> = FOREIGN.iter().map(|f| format!("{} |-> \"{}\"", f.0, f.1)).collect();
        o += &format!("ForeignOwner == [{}]\n", fo.join(", "));
        o += &format!(
            "ForeignEmpty == {}\n",
            set(FOREIGN.iter().filter(|f| !f.2).map(|f| f.0.to_string()).collect())
        );
        let po: Vec<String> = PDAS
            .iter()
            .map(|(s, seed)| {
                format!("{s} |-> [prog |-> \"PROXY\", seed |-> \"{seed}\", bump |-> {}]", self.bumps[*s])
            })
            .collect();
        o += &format!("ProxyOf == [{}]\n", po.join(", "));
        let mo: Vec<String> = MINTS
            .iter()
            .map(|(m, p, v, a, d)| {
                format!("{m} |-> [prog |-> \"{p}\", vault |-> \"{v}\", asset |-> \"{a}\", meta |-> \"{d}\"]")
            })
            .collect();
        o += &format!("MintOf == [{}]\n", mo.join(",\n           "));
        let to: Vec<String> = TOKENS
            .iter()
            .map(|(t, m, h, r)| format!("{t} |-> [mint |-> \"{m}\", holder |-> \"{h}\", rec |-> \"{r}\"]"))
            .collect();
        o += &format!("TokenAcct == [{}]\n", to.join(",\n              "));
        o += &format!("ImgLen == {}\n", self.img.len());
        o += "=============================================================================\n";
        o
    }

    /// Accounts that exist in every history.
    pub fn base(&self, rt: &mut Rt) {
        rt.bank.clear();
        for w in WALLETS {
            rt.bank.insert(self.key(w), Acct { lam: BIG, data: vec![], owner: SYS, exec: false });
        }
        for (n, p, d) in FOREIGN {
            let data = match (n, d) {
                ("F1", _) => self.fake_asset(),
                ("F2", _) => self.fake_buffer(),
                (_, true) => vec![7; 64],
                _ => vec![],
            };
            rt.bank
                .insert(self.key(n), Acct { lam: BIG, data, owner: self.key(p), exec: false });
        }
        for (t, m, h, r) in TOKENS {
            let owner = self.key(MINTS.iter().find(|x| x.0 == m).unwrap().1);
            let mut data = vec![0; 165];
            data[..32].copy_from_slice(&self.key(m));
            data[32..64].copy_from_slice(&self.key(h));
            rt.bank.insert(self.key(t), Acct { lam: BIG, data, owner, exec: false });
            rt.bank.insert(
                self.key(r),
                Acct { lam: BIG, data: vec![11; 80], owner: self.key("TM"), exec: false },
            );
        }
        for p in ["SYS", "NIFTY", "PX", "PY", "PROXY", "BRIDGE", "LOADER", "TM", "TOKEN", "TOKEN22", "ATA", "SIV"] {
            rt.bank.insert(
                self.key(p),
                Acct { lam: 1_000_000, data: vec![1; 36], owner: self.key("LOADER"), exec: true },
            );
        }
    }

    /// Bytes of an asset, owned by u1 with authority u1, carrying a grouping
    /// extension: held by an account that belongs to another program.
    fn fake_asset(&self) -> Vec<u8> {
        let a = json!({"k":"asset","st":0,"std":0,"mut":true,"owner":"u1","group":"-","auth":"u1",
            "da":"-","dr":0,"name":[102],"exts":[{"t":6,"n":48,"d":vec![0;48]}],"len":168+16+48,"xl":0});
        self.encode(&a).unwrap().data
    }

    /// Bytes of a complete buffer, held by an account of another program.
    fn fake_buffer(&self) -> Vec<u8> {
        let b = json!({"k":"buf","exts":[{"t":11,"n":9,"d":vec![5;9]}],"len":168+16+16,"xl":0});
        self.encode(&b).unwrap().data
    }

    pub fn encode(&self, v: &Value) -> Option<Acct> {
        let xl = v["xl"].as_i64()?;
        let k = v["k"].as_str()?;
        if k == "none" {
            return Some(Acct { lam: xl as u64, data: vec![], owner: SYS, exec: false });
        }
        let bytes = |v: &Value| -> Vec<u8> {
            v.as_array().map_or(vec![], |a| a.iter().map(|x| x.as_u64().unwrap() as u8).collect())
        };
        if k == "mint" {
            // the first byte tells the token standard to the token program
            let data = vec![v["std"].as_u64()? as u8; 82];
            return Some(Acct { lam: BIG, data, owner: self.key(v["own"].as_str()?), exec: false });
        }
        if k == "vault" {
            let m = v["mint"].as_str()?;
            let (_, _, vn, an, _) = MINTS.iter().find(|x| x.0 == m)?;
            let mut d = vec![1, v["st"].as_u64()? as u8, self.bumps[*vn]];
            d.extend(self.key(m));
            d.push(self.bumps[*an]);
            let lam = (rent(d.len()) as i64 + xl) as u64;
            return Some(Acct { lam, data: d, owner: self.bridge, exec: false });
        }
        if k == "meta" {
            let mut d = vec![4u8];
            d.extend(self.key(v["ua"].as_str()?));
            d.extend(self.key(v["mint"].as_str()?));
            for f in ["name", "sym", "uri"] {
                let b = bytes(&v[f]);
                d.extend((b.len() as u32).to_le_bytes());
                d.extend(b);
            }
            d.extend((v["fee"].as_u64()? as u16).to_le_bytes());
            if v["hc"].as_bool()? {
                let cs = v["cr"].as_array()?;
                d.push(1);
                d.extend((cs.len() as u32).to_le_bytes());
                for c in cs {
                    d.extend(self.key(c["a"].as_str()?));
                    d.push(c["v"].as_u64()? as u8);
                    d.push(c["s"].as_u64()? as u8);
                }
            } else {
                d.push(0);
            }
            d.extend([0, 1, 0]);
            match v["std"].as_u64()? {
                9 => d.push(0),
                x => d.extend([1, x as u8]),
            }
            if v["col"] == "-" {
                d.push(0);
            } else {
                d.extend([1, v["cv"].as_bool()? as u8]);
                d.extend(self.key(v["col"].as_str()?));
            }
            d.push(0);
            if v["cd"].as_bool()? {
                d.extend([1, 0, 7, 0, 0, 0, 0, 0, 0, 0]);
            } else {
                d.push(0);
            }
            d.push(0);
            d.extend([0; 40]);
            return Some(Acct { lam: BIG, data: d, owner: self.key(v["own"].as_str()?), exec: false });
        }
        let len = v["len"].as_u64()? as usize;
        let mut d = vec![0u8; len];
        if k == "asset" {
            d[0] = 1;
            d[1] = v["st"].as_u64()? as u8;
            d[2] = v["std"].as_u64()? as u8;
            d[3] = v["mut"].as_bool()? as u8;
            d[4..36].copy_from_slice(&self.key(v["owner"].as_str()?));
            if v["group"] != "-" {
                d[36..68].copy_from_slice(&self.key(v["group"].as_str()?));
            }
            d[68..100].copy_from_slice(&self.key(v["auth"].as_str()?));
            if v["da"] != "-" {
                d[100..132].copy_from_slice(&self.key(v["da"].as_str()?));
            }
            d[132] = v["dr"].as_u64()? as u8;
            for (j, b) in v["name"].as_array()?.iter().enumerate() {
                d[133 + j] = b.as_u64()? as u8;
            }
        }
        let mut off = 168;
        for e in v["exts"].as_array()? {
            let (t, n) = (e["t"].as_u64()? as u32, e["n"].as_u64()? as u32);
            let end = off + 16 + (n as usize + 7) / 8 * 8;
            d[off..off + 4].copy_from_slice(&t.to_le_bytes());
            d[off + 4..off + 8].copy_from_slice(&n.to_le_bytes());
            d[off + 8..off + 12].copy_from_slice(&(end as u32).to_le_bytes());
            if self.is_img(t as u64, n as u64) {
                d[off + 16..off + 16 + n as usize].copy_from_slice(&self.img);
            } else {
                for (j, b) in e["d"].as_array()?.iter().enumerate() {
                    d[off + 16 + j] = b.as_u64()? as u8;
                }
            }
            off = end;
        }
        let lam = (rent(len) as i64 + xl) as u64;
        Some(Acct { lam, data: d, owner: self.nifty, exec: false })
    }

    fn is_img(&self, t: u64, n: u64) -> bool {
        t == 2 && n > 64 && n as usize == self.img.len()
    }

    /// Has the proxy program create an asset, to learn the size of its image.
    pub fn probe(&mut self, rt: &mut Rt) {
        self.base(rt);
        let ix = self.compile(&json!({"op":"PCreate","via":"PROXY","name":[65],
            "acc":["Z","k1","u1","u1","u5","SYS","NIFTY"],"sg":["k1","u1","u5"]}));
        self.run(rt, &ix);
        let z = self.project(&rt.get(&self.key("Z")));
        if let Some(es) = z["exts"].as_array() {
            for e in es {
                if e["t"] == 2 {
                    self.img = e["d"].as_array().unwrap().iter().map(|b| b.as_u64().unwrap() as u8).collect();
                }
            }
        }
    }

    /// The abstract record of an account, decoded without the code under test.
    pub fn project(&self, a: &Acct) -> Value {
        let odd = |why: &str| json!({"k":"odd","why":why,"len":a.data.len(),"lam":a.lam,
                                     "data":a.data.iter().map(|b| format!("{b:02x}")).collect::<String>()});
        if a.owner == SYS {
            if !a.data.is_empty() {
                return odd("system account with data");
            }
            return json!({"k":"none","xl":a.lam});
        }
        if a.owner == self.bridge {
            let d = &a.data;
            if d.len() != 36 || d[0] != 1 || d[1] > 1 {
                return odd("vault");
            }
            let m = self.name(&d[3..35].try_into().unwrap());
            return match MINTS.iter().find(|x| x.0 == m) {
                Some(x) if d[2] == self.bumps[x.2] && d[35] == self.bumps[x.3] =>
                    json!({"k":"vault","own":"BRIDGE","st":d[1],"mint":m,"len":36,
                           "xl":a.lam as i64 - rent(36) as i64}),
                _ => odd("vault"),
            };
        }
        if a.owner != self.nifty {
            return odd("owner");
        }
        let d = &a.data;
        let len = d.len();
        if len < 168 {
            return odd("short");
        }
        let xl = a.lam as i64 - rent(len) as i64;
        let u32at = |o: usize| u32::from_le_bytes(d[o..o + 4].try_into().unwrap()) as u64;
        let mut exts = vec![];
        let mut off = 168usize;
        while off < len {
            if len - off < 16 || u32at(off) == 0 {
                if d[off..].iter().any(|b| *b != 0) {
                    return odd("trailing bytes");
                }
                break;
            }
            let (t, n, end) = (u32at(off), u32at(off + 4), u32at(off + 8));
            if end as u128 != (off as u128 + 16 + (n as u128 + 7) / 8 * 8) {
                return odd("boundary");
            }
            let from = off + 16;
            let full = from + n as usize;
            let end = end as usize;
            let to = full.min(len);
            let data: Vec<u8> = d[from..to].to_vec();
            if full <= len && end > len {
                return odd("unpadded");
            }
            // the drawing itself is not modelled
            let data = if self.is_img(t, n) && data.len() == n as usize { vec![0] } else { data };
            exts.push(json!({"t":t,"n":n,"d":data}));
            off = end;
        }
        match d[0] {
            0 => {
                if d[..168].iter().any(|b| *b != 0) {
                    return odd("buffer header");
                }
                json!({"k":"buf","exts":exts,"len":len,"xl":xl})
            }
            1 => {
                if off > len {
                    return odd("incomplete extension");
                }
                if d[3] > 1 || d[1] > 1 || d[2] > 3 {
                    return odd("header byte");
                }
                let key = |o: usize| self.name(&d[o..o + 32].try_into().unwrap());
                let opt = |o: usize| {
                    let n = key(o);
                    if n == "SYS" {
                        "-".to_string()
                    } else {
                        n
                    }
                };
                let mut name = d[133..168].to_vec();
                while name.last() == Some(&0) {
                    name.pop();
                }
                json!({"k":"asset","st":d[1],"std":d[2],"mut":d[3]==1,"owner":key(4),"group":opt(36),
                    "auth":key(68),"da":opt(100),"dr":d[132],"name":name,"exts":exts,"len":len,"xl":xl})
            }
            _ => odd("discriminator"),
        }
    }

    /// The abstract record of a slot; `was` is its record before.
    pub fn slot(&self, rt: &Rt, s: &str, was: &Value) -> Value {
        let a = rt.get(&self.key(s));
        match was["k"].as_str() {
            Some("meta") | Some("mint") => {
                let same = self.encode(was).map_or(false, |b| a == b);
                if !same {
                    return json!({"k":"odd","why":"changed","len":a.data.len(),"lam":a.lam,"data":""});
                }
                let mut v = was.clone();
                if was["k"] == "mint" {
                    let at: Vec<&str> = TOKENS
                        .iter()
                        .filter(|t| t.1 == s && rt.get(&self.key(t.0)).data[64] == 1)
                        .map(|t| t.0)
                        .collect();
                    v["at"] = json!(if at.len() == 1 { at[0] } else { "?" });
                }
                v
            }
            _ => self.project(&a),
        }
    }
    pub fn load_state(&self, rt: &mut Rt, st: &Value) {
        for (s, v) in st.as_object().unwrap() {
            let a = self.encode(v).unwrap_or_else(|| panic!("cannot encode {v}"));
            if v["k"] == "mint" {
                for t in TOKENS.iter().filter(|t| t.1 == s) {
                    rt.bank.get_mut(&self.key(t.0)).unwrap().data[64] = (v["at"] == t.0) as u8;
                }
            }
            if a.lam == 0 {
                rt.bank.remove(&self.key(s));
            } else {
                rt.bank.insert(self.key(s), a);
            }
        }
    }
    pub fn state(&self, rt: &Rt, pre: &Value) -> Value {
        let mut m = Map::new();
        for (s, v) in pre.as_object().unwrap() {
            m.insert(s.to_string(), self.slot(rt, s, v));
        }
        Value::Object(m)
    }

    /// Instruction as sent to the program.
    pub fn compile(&self, i: &Value) -> Ix {
        let strs = |v: &Value| -> Vec<String> {
            v.as_array().map_or(vec![], |a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect())
        };
        let acc = strs(&i["acc"]);
        let sg = strs(&i["sg"]);
        // accounts are only writable where the instruction documents it
        let flags: &[u8] = match i["op"].as_str().unwrap() {
            "Close" => b"ww",
            "Burn" => b"wwww",
            "Create" => b"wrrwrwr",
            "Approve" => b"wrr",
            "Allocate" => b"wwr",
            "Lock" | "Unlock" | "Revoke" | "Verify" | "Unverify" => b"wr",
            "Transfer" => b"wrrr",
            "Update" => b"wrwrwr",
            "Write" | "Group" | "Ungroup" => b"wwr",
            "Handover" => b"wrr",
            "Remove" => b"wrrw",
            "Resize" => b"wrwr",
            "PCreate" => b"wrrrwrr",
            "BCreate" => b"wwrrrrwrr",
            "Bridge" => b"wwrwrwrwwwwrrrrrrrrr",
            _ => b"",
        };
        let metas = acc
            .iter()
            .enumerate()
            .map(|(at, n)| Meta {
                // an absent optional account is denoted by the program itself
                key: match (n.as_str(), i["op"].as_str().unwrap()) {
                    ("-", "PCreate") => self.proxy,
                    ("-", "BCreate") | ("-", "Bridge") => self.bridge,
                    ("-", "Move") => self.key("TM"),
                    _ => self.key(n),
                },
                signer: sg.contains(n) && n != "-",
                writable: !World::is_program(n) && flags.get(at).map_or(true, |f| *f == b'w'),
            })
            .collect();
        let op = i["op"].as_str().unwrap().to_string();
        let bytes = |v: &Value| -> Vec<u8> {
            v.as_array().map_or(vec![], |a| a.iter().map(|x| x.as_u64().unwrap() as u8).collect())
        };
        let ext = |e: &Value, o: &mut Vec<u8>| {
            o.push(e["t"].as_u64().unwrap() as u8);
            o.extend((e["n"].as_u64().unwrap() as u32).to_le_bytes());
            if e["hd"].as_bool().unwrap() {
                let d = bytes(&e["d"]);
                o.push(1);
                o.extend((d.len() as u32).to_le_bytes());
                o.extend(d);
            } else {
                o.push(0);
            }
        };
        let vecu8 = |d: &[u8], o: &mut Vec<u8>| {
            o.extend((d.len() as u32).to_le_bytes());
            o.extend(d);
        };
        let roles = |o: &mut Vec<u8>| {
            if i["all"].as_bool().unwrap() {
                o.push(0);
            } else {
                o.push(1);
                vecu8(&bytes(&i["roles"]), o);
            }
        };
        let mut d = vec![];
        let mut kind = Kind::Asset;
        match op.as_str() {
            "Close" => d.push(0),
            "Burn" => d.push(1),
            "Create" => {
                d.push(2);
                vecu8(&bytes(&i["name"]), &mut d);
                d.push(i["std"].as_u64().unwrap() as u8);
                d.push(i["mut"].as_bool().unwrap() as u8);
                if i["hx"].as_bool().unwrap() {
                    d.push(1);
                    let es = i["exts"].as_array().unwrap();
                    d.extend((es.len() as u32).to_le_bytes());
                    for e in es {
                        ext(e, &mut d);
                    }
                } else {
                    d.push(0);
                }
            }
            "Approve" => {
                d.push(3);
                roles(&mut d);
            }
            "Allocate" => {
                d.push(4);
                ext(&i["e"], &mut d);
            }
            "Lock" => d.push(5),
            "Revoke" => {
                d.push(6);
                roles(&mut d);
            }
            "Transfer" => d.push(7),
            "Unlock" => d.push(8),
            "Unverify" => d.push(9),
            "Update" => {
                d.push(10);
                if i["hn"].as_bool().unwrap() {
                    d.push(1);
                    vecu8(&bytes(&i["name"]), &mut d);
                } else {
                    d.push(0);
                }
                if i["hm"].as_bool().unwrap() {
                    d.push(1);
                    d.push(i["mut"].as_bool().unwrap() as u8);
                } else {
                    d.push(0);
                }
                if i["he"].as_bool().unwrap() {
                    d.push(1);
                    ext(&i["e"], &mut d);
                } else {
                    d.push(0);
                }
            }
            "Verify" => d.push(11),
            "Write" => {
                d.push(12);
                d.push(i["ow"].as_bool().unwrap() as u8);
                vecu8(&bytes(&i["d"]), &mut d);
            }
            "Group" => d.push(13),
            "Ungroup" => d.push(14),
            "Handover" => d.push(15),
            "Remove" => {
                d.push(16);
                d.push(i["t"].as_u64().unwrap() as u8);
            }
            "Resize" => {
                d.push(17);
                if i["trim"].as_bool().unwrap() {
                    d.push(0);
                } else {
                    d.push(1);
                    d.extend((i["v"].as_u64().unwrap() as u16).to_le_bytes());
                }
            }
            "PCreate" => {
                d.push(0);
                vecu8(&bytes(&i["name"]), &mut d);
            }
            "BCreate" => {
                kind = Kind::To(self.bridge);
                d.extend([1, i["col"].as_bool().unwrap() as u8]);
            }
            "Bridge" => {
                kind = Kind::To(self.bridge);
                d.push(0);
            }
            "Move" => {
                kind = Kind::To(self.key("TM"));
                d.extend([49, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0]);
            }
            "Fund" => kind = Kind::Fund(i["v"].as_u64().unwrap()),
            "Bad" => d = bytes(&i["d"]),
            o => panic!("unknown op {o}"),
        }
        match i.get("via").and_then(|v| v.as_str()) {
            Some("PROXY") => kind = Kind::To(self.proxy),
            Some("BRIDGE") => kind = Kind::To(self.bridge),
            _ => {}
        }
        Ix { kind, acc, metas, data: d, cpi: i["cpi"].as_bool().unwrap_or(false) }
    }

    pub fn run(&self, rt: &mut Rt, ix: &Ix) -> bool {
        match ix.kind {
            Kind::Fund(v) => {
                let mut d = vec![2, 0, 0, 0];
                d.extend(v.to_le_bytes());
                let m = |k: &Meta| Meta { key: k.key, signer: true, writable: true };
                rt.transact(SYS, &[m(&ix.metas[1]), m(&ix.metas[0])], &d, 1)
            }
            Kind::To(p) => rt.transact(p, &ix.metas, &ix.data, 1),
            Kind::Asset => {
                rt.transact(self.nifty, &ix.metas, &ix.data, if ix.cpi { 2 } else { 1 })
            }
        }
    }
}

pub enum Kind {
    Asset,
    To(Key),
    Fund(u64),
}
pub struct Ix {
    pub kind: Kind,
    pub acc: Vec<String>,
    pub metas: Vec<Meta>,
    pub data: Vec<u8>,
    pub cpi: bool,
}
