use serde_json::Value;
use solana_program::pubkey::Pubkey;

/// Bytes at an 8-byte aligned address, as account data has on chain.
pub struct Aligned {
    words: Vec<u64>,
    len: usize,
}
impl Aligned {
    pub fn new(b: &[u8]) -> Aligned {
        let mut words = vec![0u64; b.len() / 8 + 1];
        unsafe {
            std::ptr::copy_nonoverlapping(b.as_ptr(), words.as_mut_ptr() as *mut u8, b.len());
        }
        Aligned { words, len: b.len() }
    }
    pub fn get(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.words.as_ptr() as *const u8, self.len) }
    }
    pub fn get_mut(&mut self) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.words.as_mut_ptr() as *mut u8, self.len) }
    }
}

pub fn bytes(v: &Value) -> Vec<u8> {
    v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect()
}
pub fn text(v: &Value) -> String {
    String::from_utf8(bytes(v)).unwrap()
}
pub fn pubkey(v: &Value) -> Pubkey {
    Pubkey::try_from(bytes(v).as_slice()).unwrap()
}
pub fn num(v: &Value) -> u64 {
    u64::from_le_bytes(bytes(v).try_into().unwrap())
}
/// Runs f; None if it panics.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Option<T> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok()
}
