//! Constraint trees built, read back and evaluated by the real library.
use crate::util::*;
use nifty_asset_types::{constraints::*, podded::ZeroCopy};
use serde_json::{json, Value};
use solana_program::pubkey::Pubkey;
use std::collections::HashMap;

struct Acct(Pubkey, Pubkey, bool);
impl Target for Acct {
    fn key(&self) -> &Pubkey {
        &self.0
    }
    fn owner(&self) -> &Pubkey {
        &self.1
    }
    fn is_empty(&self) -> bool {
        self.2
    }
}
type Keys = HashMap<String, Pubkey>;

fn account(n: &Value) -> Account {
    match n.as_u64().unwrap() {
        0 => Account::Asset,
        1 => Account::Authority,
        _ => Account::Recipient,
    }
}

/// `used`: every builder has already produced another constraint before.
pub fn build(t: &Value, keys: &Keys, used: bool) -> Box<dyn ConstraintBuilder> {
    let list: Vec<Pubkey> = t["keys"].as_array().unwrap().iter().map(|k| keys[k.as_str().unwrap()]).collect();
    let junk = || {
        let mut b = PubkeyMatchBuilder::default();
        b.set(Account::Recipient, &[Pubkey::new_from_array([7; 32]), Pubkey::new_from_array([9; 32])]);
        b
    };
    match t["op"].as_str().unwrap() {
        "and" => {
            let mut b = AndBuilder::default();
            if used {
                b.add(&mut junk());
                b.build();
            }
            for k in t["kids"].as_array().unwrap() {
                b.add(build(k, keys, used).as_mut());
            }
            Box::new(b)
        }
        "or" => {
            let mut b = OrBuilder::default();
            if used {
                b.add(&mut junk());
                b.build();
            }
            for k in t["kids"].as_array().unwrap() {
                b.add(build(k, keys, used).as_mut());
            }
            Box::new(b)
        }
        "not" => {
            let mut b = NotBuilder::default();
            if used {
                b.set(&mut junk());
                b.build();
                b.set(&mut junk());
            }
            b.set(build(&t["kids"][0], keys, used).as_mut());
            Box::new(b)
        }
        "owned" => {
            let mut b = OwnedByBuilder::default();
            if used {
                b.set(Account::Asset, &[Pubkey::new_from_array([7; 32])]);
                b.build();
                b.set(Account::Asset, &[Pubkey::new_from_array([7; 32])]);
            }
            b.set(account(&t["who"]), &list);
            Box::new(b)
        }
        "match" => {
            let mut b = PubkeyMatchBuilder::default();
            if used {
                b.set(Account::Asset, &[Pubkey::new_from_array([7; 32])]);
                b.build();
                b.set(Account::Asset, &[Pubkey::new_from_array([7; 32])]);
            }
            b.set(account(&t["who"]), &list);
            Box::new(b)
        }
        _ => {
            let mut b = EmptyBuilder::default();
            if used {
                b.build();
            }
            Box::new(b)
        }
    }
}

pub fn keys(h: &Value) -> Keys {
    h["keys"].as_object().unwrap().iter().map(|(k, v)| (k.clone(), pubkey(v))).collect()
}

fn observe(d: &[u8], ctxs: &[(Acct, Acct, Acct, bool)]) -> Value {
    let data = Aligned::new(d);
    match guarded(|| {
        let c = Constraint::from_bytes(data.get());
        // the header set field by field
        let zeros = Aligned::new(&[0; 8]);
        let mut op = *Operator::load(zeros.get());
        op.set_operator_type(c.operator.operator_type());
        op.set_size(c.operator.size());
        let hdr = unsafe { std::slice::from_raw_parts(&op as *const Operator as *const u8, 8) }.to_vec();
        (c.as_bytes(), c.size(), hdr)
    }) {
        None => json!({"ok":false,"d":d,"again":[],"size":0,"res":[],"hdr":[]}),
        Some((again, size, hdr)) => {
            let res: Vec<u64> = ctxs
                .iter()
                .map(|(a, b, r, has)| {
                    guarded(|| {
                        let c = Constraint::from_bytes(data.get());
                        match c.assert(&Context { asset: a, authority: b, recipient: if *has { Some(r) } else { None } }) {
                            Ok(Assertion::Pass) => 1,
                            Ok(Assertion::Failure) => 0,
                            Err(_) => 2,
                        }
                    })
                    .unwrap_or(9)
                })
                .collect();
            json!({"ok":true,"d":d,"again":again,"size":size,"res":res,"hdr":hdr})
        }
    }
}

pub fn run(h: &Value, cases: &[Value]) -> Vec<Value> {
    let keys = keys(h);
    let acct = |v: &Value| {
        Acct(keys[v["key"].as_str().unwrap()], keys[v["own"].as_str().unwrap()], v["emp"].as_bool().unwrap())
    };
    let ctxs: Vec<_> = h["ctxs"]
        .as_array()
        .unwrap()
        .iter()
        .map(|c| (acct(&c["acc"][0]), acct(&c["acc"][1]), acct(&c["acc"][2]), c["rec"].as_bool().unwrap()))
        .collect();
    cases
        .iter()
        .map(|c| {
            let mut outs: Vec<Value> = vec![];
            if c["k"] == "bytes" {
                outs.push(observe(&bytes(&c["d"]), &ctxs));
            } else {
                for used in [false, true] {
                    let o = match guarded(|| build(&c["t"], &keys, used).build()) {
                        Some(d) => observe(&d, &ctxs),
                        None => json!({"ok":false,"d":[],"again":[],"size":0,"res":[],"built":false}),
                    };
                    if !outs.contains(&o) {
                        outs.push(o);
                    }
                }
            }
            json!({ "outs": outs })
        })
        .collect()
}
