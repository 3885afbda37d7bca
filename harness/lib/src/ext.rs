//! Extensions built and read back by the real library, alone and in accounts.
use crate::con;
use crate::util::*;
use nifty_asset_types::{
    constraints::Assertable,
    extensions::*,
    podded::pod::{Nullable, PodOption},
    state::{Asset, Delegate, NullablePubkey},
};
use serde_json::{json, Value};
use solana_program::pubkey::Pubkey;
use std::collections::HashMap;

fn ext_type(t: u64) -> ExtensionType {
    (t as u32).try_into().unwrap()
}
fn opt_key(o: &PodOption<NullablePubkey>) -> Value {
    match o.value() {
        Some(k) => json!([k.to_bytes()]),
        None => json!([]),
    }
}
fn pair(a: &str, b: &str) -> Value {
    json!({"a":a.as_bytes(),"b":b.as_bytes()})
}

// ---- what the readers report; `c` is the expected content where a lookup needs a name

fn v_attributes(x: &Attributes, c: &Value) -> Value {
    let gets: Vec<Value> = c
        .as_array()
        .unwrap()
        .iter()
        .map(|p| x.get(&text(&p["a"])).map(|s| json!(s.as_bytes())).unwrap_or(json!("absent")))
        .collect();
    json!({"list": x.iter().map(|t| pair(t.name.as_str(), t.value.as_str())).collect::<Vec<_>>(), "gets": gets})
}
fn v_attributes_mut(x: &AttributesMut, c: &Value) -> Value {
    let list: Vec<Value> = x.iter().map(|t| pair(t.name.as_str(), t.value.as_str())).collect();
    let gets: Vec<Value> = c
        .as_array()
        .unwrap()
        .iter()
        .map(|p| x.iter().find(|t| t.name.as_str() == text(&p["a"])).map(|s| json!(s.value.as_bytes())).unwrap_or(json!("absent")))
        .collect();
    json!({"list": list, "gets": gets})
}
fn v_links(x: &Links, _: &Value) -> Value {
    json!({"list": x.iter().map(|t| pair(t.name.as_str(), t.uri.as_str())).collect::<Vec<_>>()})
}
fn v_links_mut(x: &LinksMut, _: &Value) -> Value {
    json!({"list": x.values.iter().map(|t| pair(t.name.as_str(), t.uri.as_str())).collect::<Vec<_>>()})
}
fn v_blob(x: &Blob, _: &Value) -> Value {
    json!({"ct":x.content_type.as_bytes(),"data":x.data})
}
fn v_blob_mut(x: &BlobMut, _: &Value) -> Value {
    json!({"ct":x.content_type.as_bytes(),"data":&*x.data})
}
fn v_bucket(x: &Bucket, _: &Value) -> Value {
    json!({"data":x.data})
}
fn v_bucket_mut(x: &BucketMut, _: &Value) -> Value {
    json!({"data":&*x.data})
}
fn creator(c: &Creator) -> Value {
    let verified: bool = c.verified.into();
    json!({"key":c.address.to_bytes(),"ver":verified as u8,"share":c.share})
}
fn v_creators(x: &Creators, c: &Value) -> Value {
    let gets: Vec<Value> = c
        .as_array()
        .unwrap()
        .iter()
        .map(|p| x.get(&pubkey(&p["key"])).map(|s| json!(s.share)).unwrap_or(json!("absent")))
        .collect();
    json!({"list":x.values.iter().map(creator).collect::<Vec<_>>(),"gets":gets})
}
fn v_creators_mut(x: &mut CreatorsMut, c: &Value) -> Value {
    let list = x.creators.iter().map(creator).collect::<Vec<_>>();
    let gets: Vec<Value> = c
        .as_array()
        .unwrap()
        .iter()
        .map(|p| x.get(&pubkey(&p["key"])).map(|s| json!(s.share)).unwrap_or(json!("absent")))
        .collect();
    json!({"list":list,"gets":gets})
}
fn v_metadata(x: &Metadata, _: &Value) -> Value {
    json!([x.symbol.as_bytes(), x.description.as_bytes(), x.uri.as_bytes(), x.image_uri.as_bytes()])
}
fn v_metadata_mut(x: &MetadataMut, _: &Value) -> Value {
    json!([x.symbol.as_bytes(), x.description.as_bytes(), x.uri.as_bytes(), x.image_uri.as_bytes()])
}
fn max(o: &PodOption<NullableU64>) -> Value {
    match o.value() {
        Some(k) => json!([k.to_le_bytes()]),
        None => json!([]),
    }
}
fn v_grouping(x: &Grouping, _: &Value) -> Value {
    json!({"size":x.size.to_le_bytes(),"max":max(x.max_size),"del":opt_key(x.delegate)})
}
fn v_grouping_mut(x: &GroupingMut, _: &Value) -> Value {
    json!({"size":x.size.to_le_bytes(),"max":max(x.max_size),"del":opt_key(x.delegate)})
}
fn v_royalties(x: &Royalties, _: &Value) -> Value {
    json!({"bp":x.basis_points.to_le_bytes(),"con":x.constraint.as_bytes()})
}
fn v_royalties_mut(x: &RoyaltiesMut, _: &Value) -> Value {
    json!({"bp":x.basis_points.to_le_bytes(),"con":Assertable::as_bytes(&x.constraint)})
}
fn v_manager(x: &Manager, _: &Value) -> Value {
    json!({"key":x.delegate.address.to_bytes(),"roles":x.delegate.roles})
}
fn v_manager_mut(x: &ManagerMut, _: &Value) -> Value {
    json!({"key":x.delegate.address.to_bytes(),"roles":x.delegate.roles})
}
fn v_proxy(x: &Proxy, _: &Value) -> Value {
    json!({"prog":x.program.to_bytes(),"seeds":x.seeds,"bump":x.bump,"auth":opt_key(x.authority)})
}
fn v_proxy_mut(x: &ProxyMut, _: &Value) -> Value {
    let a = NullablePubkey::new(*x.authority);
    json!({"prog":x.program.to_bytes(),"seeds":&*x.seeds,"bump":&*x.bump,
        "auth": if a.is_some() { json!([a.to_bytes()]) } else { json!([]) }})
}
/// The value of a property, recovered from its printed form.
fn printed(dbg: &str, want: &Value) -> Value {
    match want["ty"].as_u64() {
        Some(0) => {
            if dbg == format!("{:?}", text(&want["v"])) {
                return want["v"].clone();
            }
        }
        Some(1) => {
            if let Ok(n) = dbg.parse::<u64>() {
                return json!(n.to_le_bytes());
            }
        }
        _ => {
            if dbg == "true" || dbg == "false" {
                return json!([(dbg == "true") as u8]);
            }
        }
    }
    json!(dbg.as_bytes())
}
fn v_props(list: &[Property], c: &Value, get: &dyn Fn(&str, u64) -> Option<Value>) -> Value {
    let none = json!({"ty":9});
    let c = c.as_array().unwrap();
    let out: Vec<Value> = list
        .iter()
        .enumerate()
        .map(|(j, p)| {
            let want = c.get(j).unwrap_or(&none);
            let v = printed(&format!("{:?}", p.value), want);
            let size = match want["ty"].as_u64() {
                Some(0) => 2 + bytes(&want["v"]).len(),
                Some(1) => 9,
                _ => 2,
            };
            json!({"name":p.name.as_bytes(),"ty": if p.value.size() == size { want["ty"].clone() } else { json!(8) },"v":v})
        })
        .collect();
    // typed lookups only where the list agrees: the type parameter is the caller's promise
    let agree = out.len() == c.len() && out.iter().zip(c).all(|(a, b)| a == b);
    let gets: Vec<Value> = if agree {
        c.iter()
            .map(|p| {
                let ty = c.iter().find(|q| q["name"] == p["name"]).unwrap()["ty"].as_u64().unwrap();
                get(&text(&p["name"]), ty).unwrap_or(json!("absent"))
            })
            .collect()
    } else {
        vec![]
    };
    json!({"list":out,"gets":gets})
}
fn v_properties(x: &Properties, c: &Value) -> Value {
    v_props(x, c, &|n, ty| match ty {
        0 => x.get::<Text>(n).map(|t| json!(t.as_bytes())),
        1 => x.get::<Number>(n).map(|t| json!((**t).to_le_bytes())),
        _ => x.get::<Boolean>(n).map(|t| json!([**t as u8])),
    })
}
fn v_properties_mut(x: &PropertiesMut, c: &Value) -> Value {
    v_props(x, c, &|n, ty| match ty {
        0 => x.get::<Text>(n).map(|t| json!(t.as_bytes())),
        1 => x.get::<Number>(n).map(|t| json!((**t).to_le_bytes())),
        _ => x.get::<Boolean>(n).map(|t| json!([**t as u8])),
    })
}

// ---- builders

type Keys = HashMap<String, Pubkey>;
struct Env<'a> {
    keys: &'a Keys,
    /// the older, typed methods of the properties builder
    old: bool,
}
fn opt<'v>(o: &'v Value) -> Option<&'v Value> {
    o.as_array().unwrap().first()
}
fn f_attributes(b: &mut AttributesBuilder, c: &Value, _: &Env) {
    for p in c.as_array().unwrap() {
        b.add(&text(&p["a"]), &text(&p["b"]));
    }
}
fn f_links(b: &mut LinksBuilder, c: &Value, _: &Env) {
    for p in c.as_array().unwrap() {
        b.add(&text(&p["a"]), &text(&p["b"]));
    }
}
fn f_blob(b: &mut BlobBuilder, c: &Value, _: &Env) {
    b.set_data(&text(&c["ct"]), &bytes(&c["data"]));
}
fn f_bucket(b: &mut BucketBuilder, c: &Value, _: &Env) {
    b.set_data(&bytes(&c["data"]));
}
fn f_creators(b: &mut CreatorsBuilder, c: &Value, _: &Env) {
    for p in c.as_array().unwrap() {
        b.add(&pubkey(&p["key"]), p["ver"] == 1, p["share"].as_u64().unwrap() as u8);
    }
}
fn f_metadata(b: &mut MetadataBuilder, c: &Value, _: &Env) {
    let s: Vec<Option<String>> = (0..4).map(|j| opt(&c[j]).map(text)).collect();
    b.set(s[0].as_deref(), s[1].as_deref(), s[2].as_deref(), s[3].as_deref());
}
fn f_grouping(b: &mut GroupingBuilder, c: &Value, _: &Env) {
    b.set(opt(&c["max"]).map(num), opt(&c["del"]).map(pubkey).as_ref());
}
fn f_royalties(b: &mut RoyaltiesBuilder, c: &Value, e: &Env) {
    b.set(num(&c["bp"]), con::build(&c["tree"], e.keys, false).as_mut());
}
fn f_manager(b: &mut ManagerBuilder, c: &Value, _: &Env) {
    b.set(&Delegate { address: NullablePubkey::new(pubkey(&c["key"])), roles: c["roles"].as_u64().unwrap() as u8 });
}
fn f_proxy(b: &mut ProxyBuilder, c: &Value, _: &Env) {
    let seeds: [u8; 32] = bytes(&c["seeds"]).try_into().unwrap();
    b.set(&pubkey(&c["prog"]), &seeds, c["bump"].as_u64().unwrap() as u8, opt(&c["auth"]).map(pubkey).as_ref());
}
#[allow(deprecated)]
fn f_properties(b: &mut PropertiesBuilder, c: &Value, e: &Env) {
    for p in c.as_array().unwrap() {
        let n = text(&p["name"]);
        match (p["ty"].as_u64().unwrap(), e.old) {
            (0, false) => b.add(&n, text(&p["v"])),
            (0, true) => b.add_text(&n, &text(&p["v"])),
            (1, false) => b.add(&n, num(&p["v"])),
            (1, true) => b.add_number(&n, num(&p["v"])),
            (_, false) => b.add(&n, p["v"][0] == 1),
            (_, true) => b.add_boolean(&n, p["v"][0] == 1),
        };
    }
}

/// Adds what was not seen before.
fn note(outs: &mut Vec<Value>, o: Option<Value>) {
    let o = o.unwrap_or(json!({"ok":false}));
    if !outs.contains(&o) {
        outs.push(o);
    }
}

macro_rules! family {
    ( $( $t:literal : $T:ident, $M:ident, $B:ident, $fill:ident, $view:ident, $view_mut:ident, [$($make:expr),*] );+ $(;)? ) => {
        /// Builds the content with differently prepared builders and reads it with every reader.
        fn round_trip(t: u64, c: &Value, other: &Value, keys: &Keys) -> (Vec<Value>, Vec<u8>) {
            let mut outs = vec![];
            let mut data: Vec<u8> = vec![];
            match t {
                $( $t => {
                    let makes: Vec<fn() -> $B> = vec![|| $B::default(), $( || $make ),*];
                    for (j, make) in makes.iter().enumerate() {
                        for used in 0..3 {
                            let env = Env { keys, old: (j + used) % 2 == 1 };
                            let mut d: Vec<u8> = vec![];
                            note(&mut outs, guarded(|| {
                                let mut b = make();
                                if used == 1 {
                                    // the builder has been emptied before
                                    $fill(&mut b, other, &env);
                                    ExtensionBuilder::data(&mut b);
                                }
                                if used == 2 && SETTERS.contains(&t) {
                                    $fill(&mut b, other, &env);
                                }
                                $fill(&mut b, c, &env);
                                let (v, len) = {
                                    let x = ExtensionBuilder::build(&b);
                                    ($view(&x, c), x.length())
                                };
                                let seen = b.to_vec();
                                d = ExtensionBuilder::data(&mut b);
                                json!({"ok": seen == d,"d":d,"len":len,"v":v})
                            }));
                            if d != data || d.is_empty() {
                                note(&mut outs, guarded(|| {
                                    let a = Aligned::new(&d);
                                    let x = $T::from_bytes(a.get());
                                    json!({"ok":true,"d":d,"len":x.length(),"v":$view(&x, c)})
                                }));
                                note(&mut outs, guarded(|| {
                                    let mut a = Aligned::new(&d);
                                    #[allow(unused_mut)]
                                    let mut x = $M::from_bytes_mut(a.get_mut());
                                    json!({"ok":true,"d":d,"len":d.len(),"v":$view_mut(&mut x, c)})
                                }));
                            }
                            data = d;
                        }
                    }
                } )+
                _ => unreachable!(),
            }
            (outs, data)
        }

        /// Reads extension t from an account in every way there is.
        fn lookup(t: u64, d: &[u8], c: &Value) -> Vec<Value> {
            let mut a = Aligned::new(d);
            let mut outs: Vec<Value> = vec![];
            let mut add = |o: Option<Option<Value>>| {
                let o = match o { None => json!("panic"), Some(None) => json!([]), Some(Some(v)) => v };
                if !outs.contains(&o) { outs.push(o) }
            };
            match t {
                $( $t => {
                    add(guarded(|| Asset::get::<$T>(a.get()).map(|x| $view(&x, c))));
                    add(guarded(|| Asset::get_mut::<$M>(a.get_mut()).map(|mut x| $view_mut(&mut x, c))));
                    add(guarded(|| Extension::get::<$T>(&a.get()[Asset::LEN..]).map(|x| $view(&x, c))));
                    add(guarded(|| Extension::get_mut::<$M>(&mut a.get_mut()[Asset::LEN..]).map(|mut x| $view_mut(&mut x, c))));
                } )+
                _ => unreachable!(),
            }
            outs
        }
    };
}
/// Types whose builder replaces instead of appending.
const SETTERS: [u64; 7] = [2, 11, 5, 6, 7, 8, 9];
const DIRTY: usize = 61;
family! {
    1: Attributes, AttributesMut, AttributesBuilder, f_attributes, v_attributes, v_attributes_mut,
        [AttributesBuilder::with_capacity(0), AttributesBuilder::with_capacity(90), AttributesBuilder::with_buffer(vec![170; DIRTY])];
    2: Blob, BlobMut, BlobBuilder, f_blob, v_blob, v_blob_mut,
        [BlobBuilder::with_capacity(0), BlobBuilder::with_capacity(90), BlobBuilder::with_buffer(vec![170; DIRTY])];
    3: Creators, CreatorsMut, CreatorsBuilder, f_creators, v_creators, v_creators_mut,
        [CreatorsBuilder::with_capacity(0), CreatorsBuilder::with_capacity(90), CreatorsBuilder::with_buffer(vec![170; DIRTY])];
    4: Links, LinksMut, LinksBuilder, f_links, v_links, v_links_mut,
        [LinksBuilder::with_capacity(0), LinksBuilder::with_capacity(90), LinksBuilder::with_buffer(vec![170; DIRTY])];
    5: Metadata, MetadataMut, MetadataBuilder, f_metadata, v_metadata, v_metadata_mut,
        [MetadataBuilder::with_capacity(0), MetadataBuilder::with_capacity(90), MetadataBuilder::with_buffer(vec![170; DIRTY])];
    6: Grouping, GroupingMut, GroupingBuilder, f_grouping, v_grouping, v_grouping_mut,
        [GroupingBuilder::with_buffer(vec![]), GroupingBuilder::with_buffer(vec![170; DIRTY])];
    7: Royalties, RoyaltiesMut, RoyaltiesBuilder, f_royalties, v_royalties, v_royalties_mut,
        [RoyaltiesBuilder::with_capacity(0), RoyaltiesBuilder::with_capacity(90), RoyaltiesBuilder::with_buffer(vec![170; DIRTY])];
    8: Manager, ManagerMut, ManagerBuilder, f_manager, v_manager, v_manager_mut,
        [ManagerBuilder::with_capacity(0), ManagerBuilder::with_capacity(90), ManagerBuilder::with_buffer(vec![170; DIRTY])];
    9: Proxy, ProxyMut, ProxyBuilder, f_proxy, v_proxy, v_proxy_mut,
        [ProxyBuilder::with_capacity(0), ProxyBuilder::with_capacity(90), ProxyBuilder::with_buffer(vec![170; DIRTY])];
    10: Properties, PropertiesMut, PropertiesBuilder, f_properties, v_properties, v_properties_mut,
        [PropertiesBuilder::with_capacity(0), PropertiesBuilder::with_capacity(90), PropertiesBuilder::with_buffer(vec![170; DIRTY])];
    11: Bucket, BucketMut, BucketBuilder, f_bucket, v_bucket, v_bucket_mut,
        [BucketBuilder::with_capacity(0), BucketBuilder::with_capacity(90), BucketBuilder::with_buffer(vec![170; DIRTY])];
}

fn created(t: u64, d: &[u8], auth: Option<&Pubkey>) -> Value {
    let mut a = Aligned::new(d);
    match guarded(|| on_create(ext_type(t), a.get_mut(), auth)) {
        Some(Ok(())) => json!({"ok":true,"d":a.get()}),
        Some(Err(_)) => json!({"ok":false,"d":[]}),
        None => json!({"ok":false,"d":[],"panic":true}),
    }
}

fn account(c: &Value) -> Value {
    let d = bytes(&c["d"]);
    let a = Aligned::new(&d);
    let at = |x: Option<(&Extension, usize)>| match x {
        Some((e, o)) => json!([u32::from(e.extension_type()), e.length(), o]),
        None => json!([]),
    };
    let bad = json!(["panic"]);
    let types = guarded(|| json!(Asset::get_extensions(a.get()).iter().map(|t| u32::from(*t)).collect::<Vec<_>>()));
    let none = json!([]);
    let mut has = vec![];
    let mut ats = vec![];
    let mut views = vec![];
    for t in 1..=11u64 {
        has.push(guarded(|| json!(Asset::contains(ext_type(t), a.get()))).unwrap_or(json!("panic")));
        ats.push(guarded(|| at(Asset::get_extension(ext_type(t), a.get()))).unwrap_or(bad.clone()));
        let want = c["es"].as_array().unwrap().iter().find(|e| e["t"] == t).map(|e| &e["c"]).unwrap_or(&none);
        views.push(json!(lookup(t, &d, want)));
    }
    json!({"types":types.unwrap_or(bad.clone()),
        "first":guarded(|| at(Asset::first_extension(a.get()))).unwrap_or(bad.clone()),
        "last":guarded(|| at(Asset::last_extension(a.get()))).unwrap_or(bad.clone()),
        "has":has,"at":ats,"views":views})
}

pub fn run(h: &Value, cases: &[Value]) -> Vec<Value> {
    let keys = con::keys(h);
    // another content per type, for builders that were used before
    let mut other: HashMap<u64, Value> = HashMap::new();
    for c in cases.iter().filter(|c| c["k"] == "acc") {
        for e in c["es"].as_array().unwrap() {
            if e["raw"] == false {
                other.entry(e["t"].as_u64().unwrap()).or_insert(e["c"].clone());
            }
        }
    }
    cases
        .iter()
        .map(|c| {
            if c["k"] == "acc" {
                return account(c);
            }
            let t = c["t"].as_u64().unwrap();
            let (outs, d) = round_trip(t, &c["c"], &other[&t], &keys);
            let auth = c["auth"].as_str().unwrap();
            json!({"outs":outs,"oc":created(t, &d, keys.get(auth))})
        })
        .collect()
}
