//! Account headers and the JSON form of extensions.
use crate::{ix::Names, util::*};
use nifty_asset::{
    types as ct, Asset as ClientAsset, AssetFile, ExtensionValue, JsonAttribute, JsonBlob, JsonCreator, JsonLink, JsonMetadata, JsonRoyalties,
    RoyaltiesKind,
};
use nifty_asset_types::podded::pod::Nullable;
use nifty_asset_types::{
    podded::{pod::PodOption, ZeroCopy},
    state::{Asset, Delegate, DelegateRole, Discriminator, NullablePubkey, Standard, State},
};
use serde_json::{json, Value};
use solana_program::pubkey::Pubkey;

fn key(k: &Pubkey) -> Value {
    json!(k.to_bytes())
}
fn opt(k: Option<&Pubkey>) -> Value {
    k.map_or(json!([]), |k| json!([k.to_bytes()]))
}
fn role(r: &DelegateRole) -> u8 {
    match r {
        DelegateRole::None => 0,
        DelegateRole::Transfer => 1,
        DelegateRole::Lock => 2,
        DelegateRole::Burn => 3,
    }
}
fn prog(d: &[u8]) -> Value {
    let a = Asset::load(d);
    let del = a.delegate.value();
    let all = [DelegateRole::Transfer, DelegateRole::Lock, DelegateRole::Burn];
    // roles of an absent delegate are read from the raw field
    let raw = d[132];
    let roles: Vec<u8> = match del {
        Some(x) => {
            let on: Vec<u8> = all.iter().filter(|r| x.is_active(**r)).map(role).collect();
            let on = if on.is_empty() { vec![0] } else { on };
            let dec: Vec<u8> = Delegate::decode_roles(x.roles).iter().map(role).collect();
            if on == dec && x.has_active_roles() == (x.roles > 0) { on } else { vec![99] }
        }
        None => Delegate::decode_roles(raw).iter().map(role).collect(),
    };
    // present and absent exclude each other
    let g = NullablePubkey::new(pubkey(&json!(d[36..68])));
    let x = Delegate { address: NullablePubkey::new(pubkey(&json!(d[100..132]))), roles: raw };
    if g.is_some() == g.is_none() || x.is_some() == x.is_none() || g.is_some() != a.group.value().is_some() || x.is_some() != del.is_some() {
        return json!({"bad": true});
    }
    json!({
        "disc": match a.discriminator { Discriminator::Uninitialized => 0, Discriminator::Asset => 1 },
        "st": match a.state { State::Unlocked => 0, State::Locked => 1 },
        "std": match a.standard { Standard::NonFungible => 0, Standard::Managed => 1, Standard::Soulbound => 2, Standard::Proxied => 3 },
        "mut": bool::from(a.mutable), "owner": key(&a.owner), "group": opt(a.group.value().map(|g| &**g)), "auth": key(&a.authority),
        "da": opt(del.map(|x| &*x.address)), "roles": roles, "name": (*a.name).as_bytes(),
    })
}
fn client(d: &[u8]) -> Value {
    let a = ClientAsset::from_bytes(d).unwrap();
    let mut name = a.name.to_vec();
    while name.last() == Some(&0) {
        name.pop();
    }
    json!({
        "disc": match a.discriminator { ct::Discriminator::Uninitialized => 0, ct::Discriminator::Asset => 1 },
        "st": match a.state { ct::State::Unlocked => 0, ct::State::Locked => 1 },
        "std": match a.standard { ct::Standard::NonFungible => 0, ct::Standard::Managed => 1, ct::Standard::Soulbound => 2, ct::Standard::Proxied => 3 },
        "mut": a.mutable, "owner": key(&a.owner), "group": opt(a.group.to_option().as_ref()), "auth": key(&a.authority),
        "da": opt(a.delegate.address.to_option().as_ref()),
        "roles": a.delegate.roles.to_vec().iter().map(role).collect::<Vec<_>>(), "name": name,
    })
}
/// The same header, written through the program's type.
fn written(c: &Value) -> Vec<u8> {
    let mut b = Aligned::new(&[0; 168]);
    let a = Asset::load_mut(b.get_mut());
    let n = |k: &str| c[k].as_u64().unwrap() as u8;
    a.discriminator = n("disc").into();
    a.state = n("st").into();
    a.standard = n("std").into();
    a.mutable = c["mut"].as_bool().unwrap().into();
    a.owner = pubkey(&c["owner"]);
    a.group = PodOption::new(NullablePubkey::new(pubkey(&c["group"])));
    a.authority = pubkey(&c["auth"]);
    let mut del = Delegate { address: NullablePubkey::new(pubkey(&c["da"])), roles: 7 };
    for (m, r) in [(1, DelegateRole::Transfer), (2, DelegateRole::Lock), (4, DelegateRole::Burn)] {
        del.disable(r);
        if n("dr") & m > 0 {
            del.enable(r);
            del.enable(DelegateRole::None);
        }
    }
    a.delegate = del.into();
    a.name = text(&c["name"]).as_str().into();
    b.get().to_vec()
}

fn jsonv(names: &Names, c: &Value, dir: &std::path::Path) -> Value {
    let v = &c["c"];
    let list = || v.as_array().unwrap().iter();
    let mut back = true;
    let x = match c["t"].as_u64().unwrap() {
        1 => ExtensionValue::JsonAttribute(list().map(|p| JsonAttribute { name: text(&p["a"]), value: text(&p["b"]) }).collect()),
        4 => ExtensionValue::JsonLink(list().map(|p| JsonLink { name: text(&p["a"]), uri: text(&p["b"]) }).collect()),
        3 => {
            let cs: Vec<JsonCreator> = list()
                .map(|p| JsonCreator { address: pubkey(&p["key"]), verified: p["ver"] == 1, share: p["share"].as_u64().unwrap() as u8 })
                .collect();
            back = cs.iter().all(|x| &JsonCreator::from_data(&x.clone().into_data()) == x) && JsonCreator::LEN == 34;
            ExtensionValue::JsonCreator(cs)
        }
        5 => ExtensionValue::JsonMetadata(JsonMetadata { symbol: text(&v[0]), description: text(&v[1]), uri: text(&v[2]) }),
        2 => {
            let path = dir.join("blob.bin");
            std::fs::write(&path, bytes(&v["data"])).unwrap();
            ExtensionValue::JsonBlob(JsonBlob { content_type: text(&v["ct"]), path: path.to_str().unwrap().to_string() })
        }
        _ => ExtensionValue::JsonRoyalities(JsonRoyalties {
            kind: if v["al"] == true { RoyaltiesKind::Allowlist } else { RoyaltiesKind::Denylist },
            basis_points: num(&v["bp"]),
            items: v["items"].as_array().unwrap().iter().map(|k| names.1[k.as_str().unwrap()]).collect(),
        }),
    };
    let file = guarded(|| file(names, c, dir)).flatten().unwrap_or(json!({"ok": false}));
    match guarded(|| x.into_data()) {
        Some(d) => json!({"ok": true, "d": d, "back": back, "file": file}),
        None => json!({"ok": false, "d": [], "back": back, "file": file}),
    }
}

const STANDARDS: [&str; 4] = ["NonFungible", "Managed", "Soulbound", "Proxied"];

/// The description as a JSON document, read by the client.
fn file(names: &Names, c: &Value, dir: &std::path::Path) -> Option<Value> {
    let v = &c["c"];
    let list = |f: &dyn Fn(&Value) -> Value| Value::Array(v.as_array().unwrap().iter().map(f).collect());
    let (t, value) = match c["t"].as_u64().unwrap() {
        1 => ("Attributes", list(&|p| json!({"name": text(&p["a"]), "value": text(&p["b"])}))),
        4 => ("Links", list(&|p| json!({"name": text(&p["a"]), "uri": text(&p["b"])}))),
        3 => ("Creators", list(&|p| json!({"address": pubkey(&p["key"]).to_string(), "verified": p["ver"] == 1, "share": p["share"]}))),
        5 => ("Metadata", json!({"symbol": text(&v[0]), "description": text(&v[1]), "uri": text(&v[2])})),
        2 => ("Blob", json!({"content_type": text(&v["ct"]), "path": dir.join("blob.bin").to_str().unwrap()})),
        _ => ("Royalties", json!({
            "kind": if v["al"] == true { "Allowlist" } else { "Denylist" },
            "basis_points": num(&v["bp"]),
            "items": v["items"].as_array().unwrap().iter().map(|k| names.1[k.as_str().unwrap()].to_string()).collect::<Vec<_>>(),
        })),
    };
    let doc = json!({
        "name": text(&c["name"]), "standard": STANDARDS[c["std"].as_u64().unwrap() as usize], "mutable": c["mut"], "owner": pubkey(&c["owner"]).to_string(),
        "extensions": [{"extension_type": t, "value": value}], "asset_keypair_path": "keypair.json",
    });
    let f: AssetFile = serde_json::from_str(&doc.to_string()).ok()?;
    let again: AssetFile = serde_json::from_str(&serde_json::to_string(&f).ok()?).ok()?;
    Some(json!({
        "ok": f.extensions.len() == 1 && f.asset_keypair_path == Some("keypair.json".into()), "again": f == again, "name": f.name.as_bytes(),
        "std": f.standard.clone() as u8, "mut": f.mutable, "owner": f.owner.to_bytes(), "t": f.extensions[0].extension_type as u8,
        "d": f.extensions[0].value.clone().into_data(),
    }))
}

/// An account survives the way through JSON.
fn through_json(d: &[u8]) -> bool {
    let a = ClientAsset::from_bytes(d).unwrap();
    serde_json::from_str::<ClientAsset>(&serde_json::to_string(&a).unwrap()).unwrap() == a
}

pub fn run(h: &Value, cases: &[Value], dir: &std::path::Path) -> Vec<Value> {
    let names = Names::new(h);
    cases
        .iter()
        .map(|c| {
            if c["k"] == "json" {
                return jsonv(&names, c, dir);
            }
            let d = Aligned::new(&bytes(&c["d"]));
            let bad = json!({"disc": 99});
            json!({
                "prog": guarded(|| prog(d.get())).unwrap_or(bad.clone()),
                "client": guarded(|| client(d.get())).unwrap_or(bad),
                "written": guarded(|| written(c)).unwrap_or_default(),
                "json": guarded(|| through_json(d.get())).unwrap_or(false),
            })
        })
        .collect()
}
