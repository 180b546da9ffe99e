//! Memory accesses of the interpreter.
use crate::isa::*;
use crate::refpvm::*;
use fr_pvm_core::{interpreter::Interpreter, state::memory::*, state::vm_state::*};
use fr_pvm_types::exit_reason::ExitReason;
use sx::*;

pub const RW: u64 = 0x20;
pub const RO: u64 = 0x21;
pub const RW2: u64 = 0x23;
const TOP: u64 = 0xf_ffff;
/// page 0x20 writable, 0x21 read-only, 0x22 inaccessible, 0x23 writable, the last page writable;
/// the eight bytes around 0x21000 hold `init`
fn memory(init: &[u8; 8], low: bool) -> Memory {
    let mut m = Memory::new(1 << 32, 4096);
    m.set_page_range_access(0x20..0x22, AccessType::ReadWrite).unwrap();
    check!(m.write_bytes(0x20ffc, init).is_ok());
    m.set_page_range_access(0x21..0x22, AccessType::ReadOnly).unwrap();
    m.set_page_range_access(0x23..0x24, AccessType::ReadWrite).unwrap();
    m.set_page_range_access(TOP as usize..TOP as usize + 1, AccessType::ReadWrite).unwrap();
    if low {
        // access rights granted below the forbidden zone's end must not matter
        m.set_page_range_access(0xf..0x10, AccessType::ReadWrite).unwrap();
    }
    m
}
fn rd_ok(p: u64) -> bool {
    (p == RW) | (p == RO) | (p == RW2) | (p == TOP)
}
fn wr_ok(p: u64) -> bool {
    (p == RW) | (p == RW2) | (p == TOP)
}
enum Acc {
    Forbidden,
    Fault(u32),
    Ok,
}
fn access(addr: u32, len: u32, ok: fn(u64) -> bool) -> Acc {
    let a = addr as u64;
    let last = a + len as u64 - 1;
    // any byte, modulo 2^32, below 2^16
    if a < 0x10000 || last >= 1 << 32 {
        return Acc::Forbidden;
    }
    let (p, q) = (a >> 12, last >> 12);
    if !ok(p) {
        return Acc::Fault((p << 12) as u32);
    }
    if !ok(q) {
        return Acc::Fault((q << 12) as u32);
    }
    Acc::Ok
}
fn byte(init: &[u8; 8], a: u64) -> u8 {
    let mut v = 0;
    for i in 0..8 {
        v |= init[i] & (0u8.wrapping_sub((a == 0x20ffc + i as u64) as u8));
    }
    v
}
fn boundary(a: u64) -> bool {
    let near = |x: u64| a >= x.wrapping_sub(9) && a <= x.wrapping_add(9);
    near(0x10000) || near(0x20000) || near(0x21000) || near(0x22000) || near(0x23000) || near(0x24000) || near(0xffff_fff8) || a < 9
}

fn do_load(op: u8, operands: &[u8], r0: [u64; 13], near: bool) {
    let (code, mask) = one(op, operands);
    let ps = load(&code, &mask, &[], 0, 0);
    let Eff::Load { rd, addr, len, signed } = decode(&code, 2, operands.len(), 0, &r0) else {
        check!(false);
        return;
    };
    if near {
        assume(boundary(addr as u64));
    }
    let init = sx::bytes::<8>();
    let mut vm = VMState { regs: r0, memory: memory(&init, true), pc: 2, gas_counter: 1 };
    let e = Interpreter::invoke_general(&mut vm, &ps);
    let mut want = r0;
    match access(addr, len, rd_ok) {
        Acc::Forbidden => {
            cover(1);
            check!(matches!(e, Ok(ExitReason::Panic)));
            check!(vm.gas_counter == 0);
        }
        Acc::Fault(p) => {
            cover(2);
            check!(matches!(e, Ok(ExitReason::PageFault(q)) if q == p));
            check!(vm.gas_counter == 0);
        }
        Acc::Ok => {
            cover(3);
            check!(matches!(e, Ok(ExitReason::OutOfGas)));
            let mut v = 0u64;
            for i in 0..len as u64 {
                v |= (byte(&init, addr as u64 + i) as u64) << (8 * i);
            }
            want[rd] = if signed { sext(v, len) } else { v };
            check!(vm.pc == code.len() as u64 - 1);
        }
    }
    let mut d = 0;
    for i in 0..13 {
        d |= want[i] ^ vm.regs[i];
    }
    check!(d == 0);
}
fn do_store(op: u8, operands: &[u8], lx: usize, r0: [u64; 13], near: bool) {
    let (code, mask) = one(op, operands);
    let ps = load(&code, &mask, &[], 0, 0);
    let Eff::Store { addr, len, val } = decode(&code, 2, operands.len(), lx, &r0) else {
        check!(false);
        return;
    };
    if near {
        assume(boundary(addr as u64));
    }
    let init = sx::bytes::<8>();
    let mut vm = VMState { regs: r0, memory: memory(&init, true), pc: 2, gas_counter: 1 };
    let e = Interpreter::invoke_general(&mut vm, &ps);
    let mut ok = false;
    match access(addr, len, wr_ok) {
        Acc::Forbidden => {
            cover(1);
            check!(matches!(e, Ok(ExitReason::Panic)));
            check!(vm.gas_counter == 0);
        }
        Acc::Fault(p) => {
            cover(2);
            check!(matches!(e, Ok(ExitReason::PageFault(q)) if q == p));
            check!(vm.gas_counter == 0);
        }
        Acc::Ok => {
            cover(3);
            ok = true;
            check!(matches!(e, Ok(ExitReason::OutOfGas)));
            check!(vm.pc == code.len() as u64 - 1);
        }
    }
    let mut d = 0;
    for i in 0..13 {
        d |= r0[i] ^ vm.regs[i];
    }
    check!(d == 0);
    // every readable byte afterwards: the stored byte where the store covers it, unchanged elsewhere
    let q = sx::u64();
    assume(rd_ok(q >> 12));
    let got = vm.memory.read_byte(q as u32).unwrap();
    let a = addr as u64;
    let want = if ok && q >= a && q < a + len as u64 { (val >> (8 * (q - a))) as u8 } else { byte(&init, q) };
    check!(got == want);
}
fn base_regs() -> [u64; 13] {
    let mut r = [0u64; 13];
    for (i, x) in r.iter_mut().enumerate() {
        *x = 0x0101_0101_0101_0101 * (i as u64 + 1);
    }
    r[7] = sx::u64();
    r[6] = sx::u64();
    r
}
//@ P04 covers=3 time=200
//@ bound: load_ind_u8..u64 at every address (base register and 1-byte immediate arbitrary) over a fixed page layout
#[no_mangle]
pub extern "C" fn p04_load_ind() {
    let op = pick(124, 130) as u8;
    let o = [0x76, sx::u8()];
    do_load(op, &o, base_regs(), false);
}
//@ P04 covers=3 time=200
//@ bound: load_u8..u64 with 4-byte addresses (every address)
#[no_mangle]
pub extern "C" fn p04_load_direct() {
    let op = pick(52, 58) as u8;
    let mut o = vec![6];
    o.extend(sx::vec(4));
    do_load(op, &o, base_regs(), false);
}
//@ P04 covers=3 time=300
//@ bound: store_ind_u8..u64 at addresses within 9 bytes of an access boundary (thorough: anywhere), every value; then every readable byte read back
#[no_mangle]
pub extern "C" fn p04_store_ind() {
    let op = pick(120, 123) as u8;
    let o = [0x76, 4];
    do_store(op, &o, 0, base_regs(), !thorough());
}
//@ P04 covers=3 time=300
//@ bound: store_u8..u64 at addresses within 9 bytes of an access boundary (thorough: anywhere), every value
#[no_mangle]
pub extern "C" fn p04_store_direct() {
    let op = pick(59, 62) as u8;
    let mut o = vec![6];
    o.extend(sx::vec(4));
    do_store(op, &o, 0, base_regs(), !thorough());
}
//@ P04 covers=3 time=300
//@ bound: store_imm_ind_u8..u64, 1-byte immediates, addresses within 9 bytes of an access boundary
#[no_mangle]
pub extern "C" fn p04_store_imm_ind() {
    let op = pick(70, 73) as u8;
    let o = [0x16, sx::u8(), sx::u8()];
    let mut r = base_regs();
    r[7] = 1;
    do_store(op, &o, 1, r, true);
}
//@ P04 covers=3 time=300
//@ bound: store_imm_u8..u64, 4-byte addresses within 9 bytes of an access boundary, 1-byte (thorough 0..4) values
#[no_mangle]
pub extern "C" fn p04_store_imm() {
    let op = pick(30, 33) as u8;
    let mut o = vec![4];
    o.extend(sx::vec(4));
    let n = if thorough() { pick_usize(0, 4) } else { 1 };
    o.extend(sx::vec(n));
    let mut r = base_regs();
    r[7] = 1;
    r[6] = 1;
    do_store(op, &o, 4, r, true);
}
//@ P04 covers=3 time=300
//@ bound: two-immediate stores: every value of the length operand byte, 1..10 operand bytes (quick 1, 4, 7, 10), immediates arbitrary
#[no_mangle]
pub extern "C" fn p04_operand_lengths() {
    let ind = conc(sx::bool() as u64) != 0;
    let lx = pick_usize(0, 7);
    let junk = if thorough() { pick(0, 1) as u8 } else { (lx & 1) as u8 };
    let skip = if thorough() { pick_usize(1, 10) } else { [1, 4, 7, 10][pick_usize(0, 3)] };
    let mut o = vec![if ind { 6 | (lx as u8) << 4 | junk << 7 } else { lx as u8 | junk << 3 | junk << 6 }];
    o.extend(sx::vec(skip - 1));
    let mut r = base_regs();
    r[7] = 1;
    do_store(if ind { 71 } else { 32 }, &o, lx, r, true);
}
