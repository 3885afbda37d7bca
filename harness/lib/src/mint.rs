//! The mint recipe and the upload macros; emits the instructions, which
//! `vp-runner rawseq` then executes.
use crate::{ix::*, util::*};
use nifty_asset::{
    allocate_and_write, allocate_instruction_data, allocate_update_data_length, instructions::AllocateCpiAccounts, mint, AssetArgs,
    ExtensionArgs, MintAccounts, MintIxArgs,
};
use serde_json::{json, Value};
use solana_program::{account_info::AccountInfo, entrypoint::ProgramResult, instruction::Instruction, pubkey::Pubkey};

/// An instruction and, if it was invoked, the accounts and seeds passed along.
type Step = (Instruction, Vec<Pubkey>, Vec<Vec<Vec<u8>>>);
fn sent() -> Vec<Step> {
    SENT.with(|s| s.borrow_mut().drain(..).collect())
}
fn direct(v: Vec<Instruction>) -> Vec<Step> {
    v.into_iter().map(|i| (i, vec![], vec![])).collect()
}

fn upload(i: &[AccountInfo], e: &ExtensionArgs, form: usize) -> ProgramResult {
    let d: &[u8] = &e.data;
    let cpi = AllocateCpiAccounts {
        asset: &i[1],
        payer: (form != 5 && form != 6).then_some(&i[2]),
        system_program: (form != 5 && form != 7).then_some(&i[3]),
    };
    match form {
        0 => allocate_and_write!(&i[0], &i[1], &i[2], &i[3], e.extension_type, d),
        1 => allocate_and_write!(&i[0], &i[1], &i[2], &i[3], e.extension_type, d, &[&[b"x"]]),
        2 => {
            #[allow(unused_mut)]
            let data = allocate_instruction_data!(e.extension_type, d.len(), d);
            cpi.invoke(&i[0], data)?
        }
        3 | 5 => {
            let mut data = allocate_instruction_data!(e.extension_type, d.len());
            data.extend_from_slice(d);
            cpi.invoke_signed(&i[0], data, &[&[b"x"]])?
        }
        _ => {
            let mut data = allocate_instruction_data!(e.extension_type, 9999);
            data.extend_from_slice(d);
            allocate_update_data_length!(d.len(), data);
            cpi.invoke(&i[0], data)?
        }
    }
    Ok(())
}

pub fn run(h: &Value, cases: &[Value]) -> Vec<Value> {
    capture_cpi();
    let names = Names::new(h);
    let key = |n: &str| names.1[n];
    cases
        .iter()
        .map(|c| {
            let exts = || -> Vec<ExtensionArgs> {
                let es = c["exts"].as_array().unwrap();
                es.iter().map(|e| ExtensionArgs { extension_type: ext_type(e["t"].as_u64().unwrap()), data: bytes(&e["d"]) }).collect()
            };
            let payer = c["payer"].as_str().unwrap();
            let payer = if payer == "-" { None } else { Some(key(payer)) };
            let recipe = |es: Vec<ExtensionArgs>| {
                mint(MintIxArgs {
                    accounts: MintAccounts { asset: key("A"), owner: key("u1"), payer },
                    asset_args: AssetArgs {
                        name: text(&c["name"]),
                        standard: standard(c["std"].as_u64().unwrap()),
                        mutable: c["mut"].as_bool().unwrap(),
                    },
                    extension_args: es,
                })
            };
            let mut outs = vec![];
            let mut out = |way: &str, r: Option<Vec<Step>>| {
                outs.push(match r {
                    None => json!({"way": way, "ok": false, "steps": []}),
                    Some(v) => json!({"way": way, "ok": true, "steps": v.iter().map(|(i, a, sd)| {
                        let mut x = names.ix(i);
                        x["infos"] = a.iter().map(|k| names.name(k)).collect();
                        x["seeds"] = json!(sd);
                        x
                    }).collect::<Vec<_>>()}),
                })
            };
            out("mint", guarded(|| recipe(exts()).ok().map(direct)).flatten());
            let keys = [key("NIFTY"), key("A"), payer.unwrap_or(key("u1")), key("SYS")];
            let owner = Pubkey::default();
            let small = exts().iter().all(|e| e.data.len() < 1200);
            for form in 0..8 {
                if exts().is_empty() || (form > 1 && !small) {
                    continue;
                }
                let way = ["macro", "macrosigned", "data", "datasigned", "data", "baresigned", "nopayer", "nosystem"][form];
                out(way, guarded(|| {
                    let mut lam = vec![0u64; keys.len()];
                    let mut dat: Vec<[u8; 0]> = vec![[]; keys.len()];
                    let i: Vec<AccountInfo> = keys
                        .iter()
                        .zip(lam.iter_mut().zip(dat.iter_mut()))
                        .map(|(k, (l, d))| AccountInfo::new(k, false, false, l, &mut d[..], &owner, false, 0))
                        .collect();
                    sent();
                    for e in exts() {
                        upload(&i, &e, form).ok()?;
                    }
                    let mut v = sent();
                    v.extend(direct(recipe(vec![]).ok()?));
                    Some(v)
                }).flatten());
            }
            json!({"outs": outs})
        })
        .collect()
}
