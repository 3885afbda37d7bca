//! Instructions assembled by every kind of client builder.
use crate::util::*;
use nifty_asset::types::{DelegateInput, DelegateRole, ExtensionInput, ExtensionType, Standard, Strategy};
use serde_json::{json, Value};
use solana_program::{
    account_info::AccountInfo,
    entrypoint::ProgramResult,
    instruction::{AccountMeta, Instruction},
    pubkey::Pubkey,
};
use std::{cell::RefCell, collections::BTreeMap};

thread_local! {
    /// What reached the runtime: instruction, keys of the accounts passed along, signer seeds.
    pub static SENT: RefCell<Vec<(Instruction, Vec<Pubkey>, Vec<Vec<Vec<u8>>>)>> = RefCell::new(vec![]);
}
struct Stub;
impl solana_program::program_stubs::SyscallStubs for Stub {
    fn sol_invoke_signed(&self, i: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
        let seeds = seeds.iter().map(|s| s.iter().map(|x| x.to_vec()).collect()).collect();
        SENT.with(|s| s.borrow_mut().push((i.clone(), infos.iter().map(|a| *a.key).collect(), seeds)));
        Ok(())
    }
}
pub fn capture_cpi() {
    solana_program::program_stubs::set_syscall_stubs(Box::new(Stub));
}

pub fn ext_type(t: u64) -> ExtensionType {
    match t {
        0 => ExtensionType::None,
        1 => ExtensionType::Attributes,
        2 => ExtensionType::Blob,
        3 => ExtensionType::Creators,
        4 => ExtensionType::Links,
        5 => ExtensionType::Metadata,
        6 => ExtensionType::Grouping,
        7 => ExtensionType::Royalties,
        8 => ExtensionType::Manager,
        9 => ExtensionType::Proxy,
        10 => ExtensionType::Properties,
        11 => ExtensionType::Bucket,
        t => panic!("extension type {t}"),
    }
}
pub fn standard(s: u64) -> Standard {
    match s {
        0 => Standard::NonFungible,
        1 => Standard::Managed,
        2 => Standard::Soulbound,
        3 => Standard::Proxied,
        s => panic!("standard {s}"),
    }
}
fn ext_input(e: &Value) -> ExtensionInput {
    ExtensionInput {
        extension_type: ext_type(e["t"].as_u64().unwrap()),
        length: e["n"].as_u64().unwrap() as u32,
        data: e["hd"].as_bool().unwrap().then(|| bytes(&e["d"])),
    }
}
fn delegate(v: &Value) -> DelegateInput {
    if v["all"].as_bool().unwrap() {
        DelegateInput::All
    } else {
        let roles = bytes(&v["roles"])
            .iter()
            .map(|r| match r {
                0 => DelegateRole::None,
                1 => DelegateRole::Transfer,
                2 => DelegateRole::Lock,
                _ => DelegateRole::Burn,
            })
            .collect();
        DelegateInput::Some { roles }
    }
}

/// An account given by the caller: absent, or its index among the keys.
pub struct Given {
    pub keys: Vec<Pubkey>,
    pub acc: Vec<Option<usize>>,
    pub sg: Vec<bool>,
}

pub struct Names(pub BTreeMap<Pubkey, String>, pub BTreeMap<String, Pubkey>);
impl Names {
    pub fn new(h: &Value) -> Names {
        let by: BTreeMap<String, Pubkey> =
            h["keys"].as_object().unwrap().iter().map(|(n, k)| (n.clone(), pubkey(k))).collect();
        Names(by.iter().map(|(n, k)| (*k, n.clone())).collect(), by)
    }
    pub fn name(&self, k: &Pubkey) -> String {
        self.0.get(k).cloned().unwrap_or_else(|| k.to_string())
    }
    pub fn ix(&self, i: &Instruction) -> Value {
        let metas: Vec<Value> = i
            .accounts
            .iter()
            .map(|m| json!({"k": self.name(&m.pubkey), "s": m.is_signer, "w": m.is_writable}))
            .collect();
        json!({"prog": self.name(&i.program_id), "metas": metas, "data": i.data})
    }
}

macro_rules! key {
    (req $g:ident $n:ident) => {{ let j = $n; $n += 1; $g.keys[$g.acc[j].unwrap()] }};
    (opt $g:ident $n:ident) => {{ let j = $n; $n += 1; $g.acc[j].map(|k| $g.keys[k]) }};
    (dfl $g:ident $n:ident) => { key!(req $g $n) };
    (sgn $g:ident $n:ident) => {{ let j = $n; $n += 1; ($g.keys[$g.acc[j].unwrap()], $g.sg[j]) }};
}
macro_rules! info {
    (req $g:ident $i:ident $n:ident) => {{ let j = $n; $n += 1; &$i[$g.acc[j].unwrap()] }};
    (opt $g:ident $i:ident $n:ident) => {{ let j = $n; $n += 1; $g.acc[j].map(|k| &$i[k]) }};
    (dfl $g:ident $i:ident $n:ident) => { info!(req $g $i $n) };
    (sgn $g:ident $i:ident $n:ident) => {{ let j = $n; $n += 1; (&$i[$g.acc[j].unwrap()], $g.sg[j]) }};
}
macro_rules! set {
    (req $b:ident $f:ident $v:expr, $lazy:expr) => {{ let v = $v; $b.$f(v); }};
    (opt $b:ident $f:ident $v:expr, $lazy:expr) => {{ let v = $v; if !$lazy || v.is_some() { $b.$f(v); } }};
    (dfl $b:ident $f:ident $v:expr, $lazy:expr) => {{ let v = $v; $b.$f(v); }};
    (sgn $b:ident $f:ident $v:expr, $lazy:expr) => {{ let v = $v; $b.$f(v.0, v.1); }};
}
/// A builder has defaults for some accounts.
macro_rules! setd {
    (dfl $b:ident $f:ident $v:expr, $lazy:expr, $dfl:expr) => {{ let v = $v; if !$dfl { $b.$f(v); } }};
    ($k:ident $b:ident $f:ident $v:expr, $lazy:expr, $dfl:expr) => { set!($k $b $f $v, $lazy) };
}
/// The four ways to assemble one instruction.
macro_rules! ways {
    ($mod:path, $c:ident, $g:ident, $infos:ident, $out:ident, $T:ident, $B:ident, $C:ident, $CA:ident, $CB:ident,
     [$($kind:ident $f:ident),*], args [$($args:expr)?], $b:ident => $setters:block) => {{
        use $mod as m;
        let lazy = $c.lazy;
        let rem: Vec<AccountMeta> = $c.rem.iter().map(|(k, s, w)| AccountMeta { pubkey: $g.keys[*k], is_signer: *s, is_writable: *w }).collect();
        // the struct
        $out("struct", guarded(|| {
            let mut _n = 0;
            let t = m::$T { $($f: key!($kind $g _n)),* };
            if lazy && rem.is_empty() { t.instruction($($args)?) } else { t.instruction_with_remaining_accounts($($args,)? &rem) }
        }).map(|i| (i, None)));
        // the builder
        $out("builder", guarded(|| {
            let mut _n = 0;
            let mut builder = m::$B::new();
            let $b = &mut builder;
            $( setd!($kind $b $f key!($kind $g _n), lazy, $c.dfl); )*
            $setters;
            if lazy { $b.add_remaining_accounts(&rem); } else { for r in &rem { $b.add_remaining_account(r.clone()); } }
            $b.instruction()
        }).map(|i| (i, None)));
        let seeds: [&[&[u8]]; 2] = [&[b"ab", &[1u8, 2]], &[b"c"]];
        let signed: &[&[&[u8]]] = if lazy { &[] } else { &seeds };
        // the CPI struct: (account, signer, writable)
        $out("cpi", guarded(|| {
            let mut _n = 0;
            let program = &$infos[0];
            let accounts = m::$CA { $($f: info!($kind $g $infos _n)),* };
            let x = m::$C::new(program, accounts, $($args)?);
            let r: Vec<(&AccountInfo, bool, bool)> = $c.rem.iter().map(|(k, s, w)| (&$infos[*k], *s, *w)).collect();
            match (lazy, r.is_empty()) {
                (true, true) => x.invoke(),
                (true, false) => x.invoke_with_remaining_accounts(&r),
                (false, true) => x.invoke_signed(signed),
                (false, false) => x.invoke_signed_with_remaining_accounts(signed, &r),
            }.unwrap();
            SENT.with(|s| s.borrow_mut().pop().unwrap())
        }).map(|(i, a, s)| (i, Some((a, s)))));
        // the CPI builder: (account, writable, signer)
        $out("cpibuilder", guarded(|| {
            let mut _n = 0;
            let mut builder = m::$CB::new(&$infos[0]);
            let $b = &mut builder;
            $( set!($kind $b $f info!($kind $g $infos _n), lazy); )*
            $setters;
            if lazy {
                let r: Vec<(&AccountInfo, bool, bool)> = $c.rem.iter().map(|(k, s, w)| (&$infos[*k], *w, *s)).collect();
                $b.add_remaining_accounts(&r);
                $b.invoke().unwrap();
            } else {
                for (k, s, w) in &$c.rem { $b.add_remaining_account(&$infos[*k], *w, *s); }
                $b.invoke_signed(signed).unwrap();
            }
            SENT.with(|s| s.borrow_mut().pop().unwrap())
        }).map(|(i, a, s)| (i, Some((a, s)))));
    }};
}

struct Case {
    lazy: bool,
    dfl: bool,
    rem: Vec<(usize, bool, bool)>,
}

fn one(names: &Names, v: &Value) -> Value {
    let op = v["op"].as_str().unwrap();
    // keys[0] is the addressed program
    let prog = if op.starts_with('B') && op != "Burn" { "BRIDGE" } else { "NIFTY" };
    let mut g = Given { keys: vec![names.1[prog]], acc: vec![], sg: vec![] };
    let signers: Vec<&str> = v["sg"].as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect();
    for a in v["acc"].as_array().unwrap() {
        let n = a.as_str().unwrap();
        g.sg.push(signers.contains(&n));
        g.acc.push((n != "-").then(|| {
            g.keys.push(names.1[n]);
            g.keys.len() - 1
        }));
    }
    let mut c = Case { lazy: v["lazy"].as_bool().unwrap(), dfl: v["dfl"].as_bool().unwrap(), rem: vec![] };
    for r in v["rem"].as_array().unwrap() {
        g.keys.push(names.1[r["k"].as_str().unwrap()]);
        c.rem.push((g.keys.len() - 1, r["s"].as_bool().unwrap(), r["w"].as_bool().unwrap()));
    }
    let owner = Pubkey::default();
    let mut lam = vec![0u64; g.keys.len()];
    let mut dat: Vec<[u8; 0]> = vec![[]; g.keys.len()];
    let infos: Vec<AccountInfo> = g
        .keys
        .iter()
        .zip(lam.iter_mut().zip(dat.iter_mut()))
        .map(|(k, (l, d))| AccountInfo::new(k, false, false, l, &mut d[..], &owner, false, 0))
        .collect();
    let mut outs = vec![];
    let mut out = |way: &str, r: Option<(Instruction, Option<(Vec<Pubkey>, Vec<Vec<Vec<u8>>>)>)>| {
        outs.push(match r {
            None => json!({"way": way, "ok": false}),
            Some((i, cpi)) => {
                let mut o = names.ix(&i);
                o["way"] = json!(way);
                o["ok"] = json!(true);
                let (infos, seeds) = cpi.unwrap_or_default();
                o["infos"] = json!(infos.iter().map(|k| names.name(k)).collect::<Vec<_>>());
                o["seeds"] = json!(seeds);
                o
            }
        })
    };
    let name = || text(&v["name"]);
    let flag = |k: &str| v[k].as_bool().unwrap();
    let (c, g) = (&c, &g);
    use nifty_asset::instructions as ai;
    match op {
        "Close" => ways!(nifty_asset::instructions, c, g, infos, out, Close, CloseBuilder, CloseCpi, CloseCpiAccounts, CloseCpiBuilder,
            [req buffer, req recipient], args [], b => {}),
        "Burn" => ways!(nifty_asset::instructions, c, g, infos, out, Burn, BurnBuilder, BurnCpi, BurnCpiAccounts, BurnCpiBuilder,
            [req asset, req signer, opt recipient, opt group], args [], b => {}),
        "Create" => {
            let exts = flag("hx").then(|| v["exts"].as_array().unwrap().iter().map(ext_input).collect::<Vec<_>>());
            let st = standard(v["std"].as_u64().unwrap());
            ways!(nifty_asset::instructions, c, g, infos, out, Create, CreateBuilder, CreateCpi, CreateCpiAccounts, CreateCpiBuilder,
                [req asset, sgn authority, req owner, opt group, opt group_authority, opt payer, opt system_program],
                args [ai::CreateInstructionArgs { name: name(), standard: st, mutable: flag("mut"), extensions: exts.clone() }],
                b => {
                    b.name(name());
                    if !c.lazy || st != Standard::NonFungible { b.standard(st); }
                    if !c.lazy || !flag("mut") { b.mutable(flag("mut")); }
                    if let Some(e) = &exts { b.extensions(e.clone()); }
                })
        }
        "Approve" => ways!(nifty_asset::instructions, c, g, infos, out, Approve, ApproveBuilder, ApproveCpi, ApproveCpiAccounts, ApproveCpiBuilder,
            [req asset, req owner, req delegate], args [ai::ApproveInstructionArgs { delegate_input: delegate(v) }],
            b => { b.delegate_input(delegate(v)); }),
        "Allocate" => ways!(nifty_asset::instructions, c, g, infos, out, Allocate, AllocateBuilder, AllocateCpi, AllocateCpiAccounts, AllocateCpiBuilder,
            [req asset, opt payer, opt system_program], args [ai::AllocateInstructionArgs { extension: ext_input(&v["e"]) }],
            b => { b.extension(ext_input(&v["e"])); }),
        "Lock" => ways!(nifty_asset::instructions, c, g, infos, out, Lock, LockBuilder, LockCpi, LockCpiAccounts, LockCpiBuilder,
            [req asset, req signer], args [], b => {}),
        "Revoke" => ways!(nifty_asset::instructions, c, g, infos, out, Revoke, RevokeBuilder, RevokeCpi, RevokeCpiAccounts, RevokeCpiBuilder,
            [req asset, req signer], args [ai::RevokeInstructionArgs { delegate_input: delegate(v) }],
            b => { b.delegate_input(delegate(v)); }),
        "Transfer" => ways!(nifty_asset::instructions, c, g, infos, out, Transfer, TransferBuilder, TransferCpi, TransferCpiAccounts, TransferCpiBuilder,
            [req asset, req signer, req recipient, opt group], args [], b => {}),
        "Unlock" => ways!(nifty_asset::instructions, c, g, infos, out, Unlock, UnlockBuilder, UnlockCpi, UnlockCpiAccounts, UnlockCpiBuilder,
            [req asset, req signer], args [], b => {}),
        "Unverify" => ways!(nifty_asset::instructions, c, g, infos, out, Unverify, UnverifyBuilder, UnverifyCpi, UnverifyCpiAccounts, UnverifyCpiBuilder,
            [req asset, req creator], args [], b => {}),
        "Update" => ways!(nifty_asset::instructions, c, g, infos, out, Update, UpdateBuilder, UpdateCpi, UpdateCpiAccounts, UpdateCpiBuilder,
            [req asset, req authority, opt buffer, opt group, opt payer, opt system_program],
            args [ai::UpdateInstructionArgs {
                name: flag("hn").then(name),
                mutable: flag("hm").then(|| flag("mut")),
                extension: flag("he").then(|| ext_input(&v["e"])),
            }],
            b => {
                if flag("hn") { b.name(name()); }
                if flag("hm") { b.mutable(flag("mut")); }
                if flag("he") { b.extension(ext_input(&v["e"])); }
            }),
        "Verify" => ways!(nifty_asset::instructions, c, g, infos, out, Verify, VerifyBuilder, VerifyCpi, VerifyCpiAccounts, VerifyCpiBuilder,
            [req asset, req creator], args [], b => {}),
        "Write" => ways!(nifty_asset::instructions, c, g, infos, out, Write, WriteBuilder, WriteCpi, WriteCpiAccounts, WriteCpiBuilder,
            [req asset, req payer, dfl system_program], args [ai::WriteInstructionArgs { overwrite: flag("ow"), bytes: bytes(&v["d"]) }],
            b => { b.overwrite(flag("ow")); b.bytes(bytes(&v["d"])); }),
        "Group" => ways!(nifty_asset::instructions, c, g, infos, out, Group, GroupBuilder, GroupCpi, GroupCpiAccounts, GroupCpiBuilder,
            [req asset, req group, req authority], args [], b => {}),
        "Ungroup" => ways!(nifty_asset::instructions, c, g, infos, out, Ungroup, UngroupBuilder, UngroupCpi, UngroupCpiAccounts, UngroupCpiBuilder,
            [req asset, req group, req authority], args [], b => {}),
        "Handover" => ways!(nifty_asset::instructions, c, g, infos, out, Handover, HandoverBuilder, HandoverCpi, HandoverCpiAccounts, HandoverCpiBuilder,
            [req asset, req authority, req new_authority], args [], b => {}),
        "Remove" => ways!(nifty_asset::instructions, c, g, infos, out, Remove, RemoveBuilder, RemoveCpi, RemoveCpiAccounts, RemoveCpiBuilder,
            [req asset, req authority, opt group, req recipient], args [ai::RemoveInstructionArgs { extension_type: ext_type(v["t"].as_u64().unwrap()) }],
            b => { b.extension_type(ext_type(v["t"].as_u64().unwrap())); }),
        "Resize" => {
            let st = || if flag("trim") { Strategy::Trim } else { Strategy::Extend { value: v["v"].as_u64().unwrap() as u16 } };
            ways!(nifty_asset::instructions, c, g, infos, out, Resize, ResizeBuilder, ResizeCpi, ResizeCpiAccounts, ResizeCpiBuilder,
                [req asset, req authority, sgn payer, opt system_program], args [ai::ResizeInstructionArgs { strategy: st() }],
                b => { b.strategy(st()); })
        }
        "BCreate" => ways!(nifty_bridge_client::instructions, c, g, infos, out, Create, CreateBuilder, CreateCpi, CreateCpiAccounts, CreateCpiBuilder,
            [req asset, req vault, req mint, req metadata, sgn update_authority, opt collection, req payer, dfl system_program, dfl nifty_asset_program],
            args [nifty_bridge_client::instructions::CreateInstructionArgs { is_collection: flag("coll") }],
            b => { b.is_collection(flag("coll")); }),
        "BBridge" => ways!(nifty_bridge_client::instructions, c, g, infos, out, Bridge, BridgeBuilder, BridgeCpi, BridgeCpiAccounts, BridgeCpiBuilder,
            [req asset, req vault, req owner, req token, req mint, req metadata, req master_edition, opt token_record, req vault_token,
             opt vault_token_record, req payer, dfl nifty_asset_program, dfl token_metadata_program, dfl system_program, dfl sysvar_instructions,
             dfl spl_token_program, dfl spl_ata_program, opt authorization_rules_program, opt authorization_rules, opt group_asset],
            args [], b => {}),
        op => panic!("unknown instruction {op}"),
    }
    json!({"outs": outs})
}

pub fn run(h: &Value, cases: &[Value]) -> Vec<Value> {
    capture_cpi();
    let names = Names::new(h);
    cases.iter().map(|c| one(&names, c)).collect()
}
