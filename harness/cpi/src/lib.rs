//! Glue compiled into every program cdylib: syscall stubs that forward
//! cross-program invocations to the host runner.
use solana_program::{
    account_info::AccountInfo, clock::Clock, entrypoint::ProgramResult, instruction::Instruction,
    program_error::ProgramError, program_stubs::SyscallStubs, pubkey::Pubkey, rent::Rent,
};
use std::cell::Cell;

#[repr(C)]
pub struct Meta {
    pub key: [u8; 32],
    pub signer: u8,
    pub writable: u8,
}

#[repr(C)]
pub struct Req {
    pub program: *const u8,
    pub metas: *const Meta,
    pub nmetas: usize,
    pub data: *const u8,
    pub len: usize,
    pub signers: *const [u8; 32],
    pub nsigners: usize,
}

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Env {
    pub invoke: extern "C" fn(*const Req) -> u64,
    pub stack_height: extern "C" fn() -> u64,
}

thread_local! {
    static PROGRAM: Cell<[u8; 32]> = const { Cell::new([0; 32]) };
}

pub fn set_program(key: [u8; 32]) -> [u8; 32] {
    PROGRAM.with(|p| p.replace(key))
}

pub struct Stubs(pub Env);
unsafe impl Send for Stubs {}
unsafe impl Sync for Stubs {}

impl SyscallStubs for Stubs {
    fn sol_log(&self, _message: &str) {}
    fn sol_log_compute_units(&self) {}
    fn sol_log_data(&self, _fields: &[&[u8]]) {}
    fn sol_get_stack_height(&self) -> u64 {
        (self.0.stack_height)()
    }
    fn sol_get_rent_sysvar(&self, var: *mut u8) -> u64 {
        unsafe { *(var as *mut Rent) = Rent::default() };
        0
    }
    fn sol_get_clock_sysvar(&self, var: *mut u8) -> u64 {
        unsafe { *(var as *mut Clock) = Clock::default() };
        0
    }
    fn sol_invoke_signed(
        &self,
        instruction: &Instruction,
        infos: &[AccountInfo],
        seeds: &[&[&[u8]]],
    ) -> ProgramResult {
        let program = Pubkey::new_from_array(PROGRAM.with(|p| p.get()));
        let mut signers = vec![];
        for s in seeds {
            match Pubkey::create_program_address(s, &program) {
                Ok(k) => signers.push(k.to_bytes()),
                Err(_) => return Err(ProgramError::InvalidSeeds),
            }
        }
        let metas: Vec<Meta> = instruction
            .accounts
            .iter()
            .map(|m| Meta {
                key: m.pubkey.to_bytes(),
                signer: m.is_signer as u8,
                writable: m.is_writable as u8,
            })
            .collect();
        // every account of the instruction must have been provided
        for m in &metas {
            if !infos.iter().any(|i| i.key.to_bytes() == m.key) {
                return Err(ProgramError::NotEnoughAccountKeys);
            }
        }
        let req = Req {
            program: instruction.program_id.as_ref().as_ptr(),
            metas: metas.as_ptr(),
            nmetas: metas.len(),
            data: instruction.data.as_ptr(),
            len: instruction.data.len(),
            signers: signers.as_ptr(),
            nsigners: signers.len(),
        };
        let rc = (self.0.invoke)(&req);
        PROGRAM.with(|p| p.set(program.to_bytes()));
        // the callee may have resized accounts: refresh the slices
        for info in infos {
            if let Ok(mut data) = info.data.try_borrow_mut() {
                unsafe {
                    let ptr = data.as_mut_ptr();
                    if ptr as usize > 4096 {
                        let len = *(ptr.offset(-8) as *const u64) as usize;
                        *data = std::slice::from_raw_parts_mut(ptr, len);
                    }
                }
            }
        }
        if rc == 0 {
            Ok(())
        } else {
            Err(ProgramError::from(rc))
        }
    }
}

/// Runs an entrypoint, mapping a panic to `u64::MAX`.
pub fn guarded(program: *const u8, f: impl FnOnce() -> u64) -> u64 {
    let key = unsafe { *(program as *const [u8; 32]) };
    let previous = set_program(key);
    let rc = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or(u64::MAX);
    set_program(previous);
    rc
}

pub fn init(env: *const Env) -> Env {
    let env = unsafe { *env };
    std::panic::set_hook(Box::new(|_| {}));
    solana_program::program_stubs::set_syscall_stubs(Box::new(Stubs(env)));
    env
}
