use asset_program as program;
extern "C-unwind" {
    fn entrypoint(input: *mut u8) -> u64;
}
#[no_mangle]
pub extern "C" fn vp_init(env: *const vp_cpi::Env) {
    let env = vp_cpi::init(env);
    nitrate_program::vp::set(env.invoke as usize);
}
#[no_mangle]
pub extern "C" fn vp_id(out: *mut u8) {
    unsafe { std::ptr::copy_nonoverlapping(program::ID.as_ref().as_ptr(), out, 32) };
}
#[no_mangle]
pub extern "C" fn vp_entry(program: *const u8, input: *mut u8) -> u64 {
    vp_cpi::guarded(program, || unsafe { entrypoint(input) })
}
