//! A minimal account runtime: enough of the loader, the instruction frames and
//! the cross-program invocation rules to run the real programs on the host.
use std::collections::BTreeMap;
use std::ffi::CString;

pub type Key = [u8; 32];
pub const SYS: Key = [0; 32];
pub const MAX_GROW: usize = 10240;

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Acct {
    pub lam: u64,
    pub data: Vec<u8>,
    pub owner: Key,
    pub exec: bool,
}
impl Acct {
    pub fn empty() -> Acct {
        Acct { lam: 0, data: vec![], owner: SYS, exec: false }
    }
}
pub fn rent(len: usize) -> u64 {
    (len as u64 + 128) * 6960
}

#[derive(Clone, Copy, Debug)]
pub struct Meta {
    pub key: Key,
    pub signer: bool,
    pub writable: bool,
}

#[repr(C)]
struct CMeta {
    key: Key,
    signer: u8,
    writable: u8,
}
#[repr(C)]
struct Req {
    program: *const u8,
    metas: *const CMeta,
    nmetas: usize,
    data: *const u8,
    len: usize,
    signers: *const Key,
    nsigners: usize,
}
#[repr(C)]
struct Env {
    invoke: extern "C" fn(*const Req) -> u64,
    stack_height: extern "C" fn() -> u64,
}

struct Slot {
    key: Key,
    off: usize, // of the marker byte
    cap: usize,
    snap: Acct,
    entry_len: usize,
    signer: bool,
    writable: bool,
}
struct Frame {
    program: Key,
    base: *mut u8,
    slots: Vec<Slot>,
}

type Entry = unsafe extern "C" fn(*const u8, *mut u8) -> u64;
pub type Mock = fn(&mut Rt, &[Meta], &[u8]) -> Result<(), ()>;

pub struct Rt {
    pub bank: BTreeMap<Key, Acct>,
    pub programs: BTreeMap<Key, Entry>,
    pub mocks: BTreeMap<Key, Mock>,
    frames: Vec<Frame>,
    poison: bool,
    height0: u64,
    arena: Vec<Vec<u64>>,
    /// cross-program invocations carried out: (program, metas, data)
    pub calls: Vec<(Key, Vec<Meta>, Vec<u8>)>,
    pub last_rc: u64,
}

static mut RT: *mut Rt = std::ptr::null_mut();

extern "C" fn host_invoke(req: *const Req) -> u64 {
    unsafe {
        let rt = &mut *RT;
        let r = &*req;
        let program = *(r.program as *const Key);
        let metas: Vec<Meta> = std::slice::from_raw_parts(r.metas, r.nmetas)
            .iter()
            .map(|m| Meta { key: m.key, signer: m.signer != 0, writable: m.writable != 0 })
            .collect();
        let data = std::slice::from_raw_parts(r.data, r.len).to_vec();
        let signers: Vec<Key> = if r.nsigners == 0 {
            vec![]
        } else {
            std::slice::from_raw_parts(r.signers, r.nsigners).to_vec()
        };
        match rt.cpi(program, metas, data, &signers) {
            Ok(()) => 0,
            Err(()) => {
                rt.poison = true;
                1
            }
        }
    }
}
extern "C" fn host_height() -> u64 {
    unsafe { (*RT).height0 + (*RT).frames.len() as u64 - 1 }
}

unsafe fn rd64(p: *const u8) -> u64 {
    (p as *const u64).read_unaligned()
}
unsafe fn wr64(p: *mut u8, v: u64) {
    (p as *mut u64).write_unaligned(v)
}

impl Frame {
    unsafe fn read(&self, s: &Slot) -> Result<Acct, ()> {
        let p = self.base.add(s.off);
        let len = rd64(p.add(80)) as usize;
        if len > s.cap {
            return Err(());
        }
        Ok(Acct {
            owner: *(p.add(40) as *const Key),
            lam: rd64(p.add(72)),
            data: std::slice::from_raw_parts(p.add(88), len).to_vec(),
            exec: s.snap.exec,
        })
    }
}

impl Rt {
    pub fn new() -> Box<Rt> {
        let mut rt = Box::new(Rt {
            bank: BTreeMap::new(),
            programs: BTreeMap::new(),
            mocks: BTreeMap::new(),
            frames: vec![],
            poison: false,
            height0: 1,
            arena: vec![],
            calls: vec![],
            last_rc: 0,
        });
        unsafe { RT = &mut *rt };
        rt
    }

    /// Loads a program library and returns its id.
    pub fn load(&mut self, path: &str) -> Key {
        unsafe {
            let c = CString::new(path).unwrap();
            let h = libc::dlopen(c.as_ptr(), libc::RTLD_NOW | libc::RTLD_LOCAL);
            if h.is_null() {
                let e = std::ffi::CStr::from_ptr(libc::dlerror());
                panic!("dlopen {path}: {e:?}");
            }
            let sym = |n: &str| {
                let c = CString::new(n).unwrap();
                let s = libc::dlsym(h, c.as_ptr());
                assert!(!s.is_null(), "missing symbol {n}");
                s
            };
            let init: unsafe extern "C" fn(*const Env) = std::mem::transmute(sym("vp_init"));
            let id: unsafe extern "C" fn(*mut u8) = std::mem::transmute(sym("vp_id"));
            let entry: Entry = std::mem::transmute(sym("vp_entry"));
            init(&Env { invoke: host_invoke, stack_height: host_height });
            let mut key = [0u8; 32];
            id(key.as_mut_ptr());
            self.programs.insert(key, entry);
            key
        }
    }

    pub fn get(&self, k: &Key) -> Acct {
        self.bank.get(k).cloned().unwrap_or_else(Acct::empty)
    }

    /// Runs one transaction holding one instruction; on failure nothing changes.
    pub fn transact(&mut self, program: Key, metas: &[Meta], data: &[u8], height: u64) -> bool {
        let mut before: Vec<(Key, Option<Acct>)> = vec![];
        for m in metas {
            if !before.iter().any(|b| b.0 == m.key) {
                before.push((m.key, self.bank.get(&m.key).cloned()));
            }
        }
        self.poison = false;
        self.height0 = height;
        self.frames.clear();
        self.calls.clear();
        let mut ok = self.exec(program, metas, data).is_ok() && !self.poison;
        self.frames.clear();
        if ok {
            for (k, pre) in &before {
                if let Some(a) = self.bank.get(k) {
                    if pre.as_ref() != Some(a) && a.lam > 0 && a.lam < rent(a.data.len()) {
                        ok = false;
                    }
                }
            }
        }
        if ok {
            for (k, _) in &before {
                if self.bank.get(k).map_or(false, |a| a.lam == 0) {
                    self.bank.remove(k);
                }
            }
        } else {
            for (k, pre) in before {
                match pre {
                    Some(a) => {
                        self.bank.insert(k, a);
                    }
                    None => {
                        self.bank.remove(&k);
                    }
                }
            }
        }
        ok
    }

    fn exec(&mut self, program: Key, metas: &[Meta], data: &[u8]) -> Result<(), ()> {
        if self.frames.len() > 4 {
            return Err(());
        }
        if program == SYS {
            return self.system(metas, data);
        }
        if let Some(m) = self.mocks.get(&program).copied() {
            return m(self, metas, data);
        }
        let entry = *self.programs.get(&program).ok_or(())?;
        // serialise
        let mut uniq: Vec<(Key, bool, bool)> = vec![];
        for m in metas {
            match uniq.iter_mut().find(|u| u.0 == m.key) {
                Some(u) => {
                    u.1 |= m.signer;
                    u.2 |= m.writable;
                }
                None => uniq.push((m.key, m.signer, m.writable)),
            }
        }
        let mut size = 8 + 8 + data.len() + 32 + 64;
        for u in &uniq {
            size += 88 + self.bank.get(&u.0).map_or(0, |a| a.data.len()) + MAX_GROW + 8 + 8;
        }
        size += metas.len() * 8;
        let mut buf = self.arena.pop().unwrap_or_default();
        let words = size / 8 + 2;
        if buf.len() < words {
            buf.resize(words, 0);
        }
        let base = buf.as_mut_ptr() as *mut u8;
        let mut slots: Vec<Slot> = vec![];
        unsafe {
            wr64(base, metas.len() as u64);
            let mut off = 8;
            let mut first: Vec<(Key, usize)> = vec![];
            for (idx, m) in metas.iter().enumerate() {
                if let Some((_, j)) = first.iter().find(|f| f.0 == m.key) {
                    wr64(base.add(off), 0);
                    *base.add(off) = *j as u8;
                    off += 8;
                    continue;
                }
                first.push((m.key, idx));
                let u = uniq.iter().find(|u| u.0 == m.key).unwrap();
                let a = self.get(&m.key);
                let p = base.add(off);
                *p = 0xff;
                *p.add(1) = u.1 as u8;
                *p.add(2) = u.2 as u8;
                *p.add(3) = a.exec as u8;
                (p.add(4) as *mut u32).write_unaligned(0);
                std::ptr::copy_nonoverlapping(m.key.as_ptr(), p.add(8), 32);
                std::ptr::copy_nonoverlapping(a.owner.as_ptr(), p.add(40), 32);
                wr64(p.add(72), a.lam);
                wr64(p.add(80), a.data.len() as u64);
                std::ptr::copy_nonoverlapping(a.data.as_ptr(), p.add(88), a.data.len());
                let mut tail = MAX_GROW;
                let mut end = off + 88 + a.data.len() + MAX_GROW;
                let pad = (8 - end % 8) % 8;
                tail += pad;
                end += pad;
                std::ptr::write_bytes(p.add(88 + a.data.len()), 0, tail);
                wr64(base.add(end), 0);
                slots.push(Slot {
                    key: m.key,
                    off,
                    cap: a.data.len() + MAX_GROW,
                    entry_len: a.data.len(),
                    snap: a,
                    signer: u.1,
                    writable: u.2,
                });
                off = end + 8;
            }
            wr64(base.add(off), data.len() as u64);
            std::ptr::copy_nonoverlapping(data.as_ptr(), base.add(off + 8), data.len());
            std::ptr::copy_nonoverlapping(program.as_ptr(), base.add(off + 8 + data.len()), 32);
        }
        self.frames.push(Frame { program, base, slots });
        let rc = unsafe { entry(program.as_ptr(), base) };
        // a failed call ends the transaction with an error that is not the program's
        self.last_rc = if self.poison { 0 } else { rc };
        let res = if rc != 0 || self.poison { Err(()) } else { self.sync_out() };
        self.frames.pop();
        self.arena.push(buf);
        res
    }

    /// Carries the changes made by the running program into the bank.
    fn sync_out(&mut self) -> Result<(), ()> {
        let f = self.frames.last().unwrap();
        let mut changed: Vec<(usize, Acct)> = vec![];
        let (mut before, mut after) = (0u128, 0u128);
        for (j, s) in f.slots.iter().enumerate() {
            let now = unsafe { f.read(s)? };
            before += s.snap.lam as u128;
            after += now.lam as u128;
            if now == s.snap {
                continue;
            }
            if !s.writable || s.snap.exec {
                return Err(());
            }
            let own = s.snap.owner == f.program;
            if now.owner != s.snap.owner && (!own || now.data.iter().any(|b| *b != 0)) {
                return Err(());
            }
            if now.lam < s.snap.lam && !own {
                return Err(());
            }
            if now.data != s.snap.data && !own {
                return Err(());
            }
            changed.push((j, now));
        }
        if before != after {
            return Err(());
        }
        let f = self.frames.last_mut().unwrap();
        for (j, now) in changed {
            f.slots[j].snap = now.clone();
            self.bank.insert(f.slots[j].key, now);
        }
        Ok(())
    }

    /// Shows the running program what its callee changed.
    fn sync_in(&mut self) -> Result<(), ()> {
        let bank = &self.bank;
        let f = self.frames.last_mut().unwrap();
        for s in f.slots.iter_mut() {
            let a = bank.get(&s.key).cloned().unwrap_or_else(Acct::empty);
            if a == s.snap {
                continue;
            }
            if a.data.len() > s.entry_len + MAX_GROW {
                return Err(());
            }
            unsafe {
                let p = f.base.add(s.off);
                std::ptr::copy_nonoverlapping(a.owner.as_ptr(), p.add(40), 32);
                wr64(p.add(72), a.lam);
                let old = s.snap.data.len();
                wr64(p.add(80), a.data.len() as u64);
                std::ptr::copy_nonoverlapping(a.data.as_ptr(), p.add(88), a.data.len());
                if old > a.data.len() {
                    std::ptr::write_bytes(p.add(88 + a.data.len()), 0, old - a.data.len());
                }
            }
            s.snap = a;
        }
        Ok(())
    }

    fn cpi(&mut self, program: Key, metas: Vec<Meta>, data: Vec<u8>, pdas: &[Key]) -> Result<(), ()> {
        if self.poison {
            return Err(());
        }
        self.sync_out()?;
        {
            let f = self.frames.last().unwrap();
            if !f.slots.iter().any(|s| s.key == program) {
                return Err(());
            }
            for m in &metas {
                let s = f.slots.iter().find(|s| s.key == m.key).ok_or(())?;
                if m.signer && !s.signer && !pdas.contains(&m.key) {
                    return Err(());
                }
                if m.writable && !s.writable {
                    return Err(());
                }
            }
        }
        self.calls.push((program, metas.clone(), data.clone()));
        self.exec(program, &metas, &data)?;
        self.sync_in()
    }

    fn system(&mut self, metas: &[Meta], data: &[u8]) -> Result<(), ()> {
        let u64at = |o: usize| -> Result<u64, ()> {
            Ok(u64::from_le_bytes(data.get(o..o + 8).ok_or(())?.try_into().unwrap()))
        };
        let keyat = |o: usize| -> Result<Key, ()> {
            Ok(data.get(o..o + 32).ok_or(())?.try_into().unwrap())
        };
        let acc = |j: usize, sig: bool| -> Result<Key, ()> {
            let m = metas.get(j).ok_or(())?;
            let signer = metas.iter().any(|n| n.key == m.key && n.signer);
            let writable = metas.iter().any(|n| n.key == m.key && n.writable);
            if (sig && !signer) || !writable {
                return Err(());
            }
            Ok(m.key)
        };
        let tag = u32::from_le_bytes(data.get(..4).ok_or(())?.try_into().unwrap());
        match tag {
            0 => {
                let (from, to) = (acc(0, true)?, acc(1, true)?);
                let (lam, space, owner) = (u64at(4)?, u64at(12)? as usize, keyat(20)?);
                let t = self.get(&to);
                if t.lam > 0 || !t.data.is_empty() || t.owner != SYS || space > 10 * 1024 * 1024 {
                    return Err(());
                }
                self.bank.insert(to, Acct { lam: 0, data: vec![0; space], owner, exec: false });
                self.move_lamports(from, to, lam)
            }
            1 => {
                let k = acc(0, true)?;
                let mut a = self.get(&k);
                if a.owner != SYS {
                    return Err(());
                }
                a.owner = keyat(4)?;
                self.bank.insert(k, a);
                Ok(())
            }
            2 => {
                let (from, to) = (acc(0, true)?, acc(1, false)?);
                self.move_lamports(from, to, u64at(4)?)
            }
            8 => {
                let k = acc(0, true)?;
                let mut a = self.get(&k);
                if a.owner != SYS || !a.data.is_empty() {
                    return Err(());
                }
                a.data = vec![0; u64at(4)? as usize];
                self.bank.insert(k, a);
                Ok(())
            }
            _ => Err(()),
        }
    }

    pub fn move_lamports(&mut self, from: Key, to: Key, lam: u64) -> Result<(), ()> {
        let mut f = self.get(&from);
        if f.owner != SYS || !f.data.is_empty() || f.lam < lam {
            return Err(());
        }
        f.lam -= lam;
        self.bank.insert(from, f);
        let mut t = self.get(&to);
        t.lam += lam;
        self.bank.insert(to, t);
        Ok(())
    }
}
