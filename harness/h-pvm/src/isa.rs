use crate::refpvm::*;
use fr_pvm_core::{
    interpreter::Interpreter,
    program::{loader::ProgramLoader, types::program_state::ProgramState},
    state::{memory::*, vm_state::*},
};
use fr_pvm_types::exit_reason::ExitReason;
use sx::*;

/// a program blob: jump table (entries of z bytes), code, one mask bit per code byte
pub fn blob(code: &[u8], mask: &[bool], jt: &[u8], njt: u8, z: u8) -> Vec<u8> {
    let mut v = vec![njt, z, code.len() as u8];
    v.extend_from_slice(jt);
    v.extend_from_slice(code);
    let mut m = vec![0u8; code.len().div_ceil(8)];
    for (i, b) in mask.iter().enumerate() {
        if *b {
            m[i / 8] |= 1 << (i % 8);
        }
    }
    v.extend_from_slice(&m);
    v
}

pub fn regs() -> [u64; 13] {
    let mut r = [0u64; 13];
    for x in r.iter_mut() {
        *x = sx::u64();
    }
    r
}

/// One instruction at offset 2 (behind two fall-throughs), with n operand bytes, then a fall-through.
/// Returns (code, mask).
pub fn one(op: u8, operands: &[u8]) -> (Vec<u8>, Vec<bool>) {
    let mut c = vec![1u8, 1, op];
    let mut m = vec![true, true, true];
    for b in operands {
        c.push(*b);
        m.push(false);
    }
    c.push(1);
    m.push(true);
    (c, m)
}

pub fn load(code: &[u8], mask: &[bool], jt: &[u8], njt: u8, z: u8) -> ProgramState {
    let mut ps = ProgramState::default();
    let r = ProgramLoader::load_program(&blob(code, mask, jt, njt, z), &mut ps);
    check!(r.is_ok());
    ps
}

fn pick_op(ops: &[u8]) -> u8 {
    ops[pick_usize(0, ops.len() - 1)]
}

/// Run one register-to-register instruction and compare the whole register file, pc and gas with
/// the reference.
fn reg_step(op: u8, operands: &[u8], r0: [u64; 13]) {
    let (code, mask) = one(op, operands);
    let ps = load(&code, &mask, &[], 0, 0);
    let eff = decode(&code, 2, operands.len(), 0, &r0);
    let mut vm = VMState { regs: r0, memory: Memory::new(1 << 32, 4096), pc: 2, gas_counter: 1 };
    let e = Interpreter::invoke_general(&mut vm, &ps);
    let Eff::Reg(rd, val) = eff else {
        check!(false);
        return;
    };
    check!(matches!(e, Ok(ExitReason::OutOfGas)));
    check!(vm.pc == code.len() as u64 - 1);
    check!(vm.gas_counter == -1);
    let mut want = r0;
    want[rd] = val;
    for i in 0..13 {
        check!(want[i] == vm.regs[i]);
    }
    obs(vm.regs[8]);
    cover(1);
}

/// Values: registers 6, 7 and 8 arbitrary; the operand bytes name rA=6, rB=7, rD=8.
fn values(op: u8, operands: &[u8]) {
    let mut r = [0u64; 13];
    for (i, x) in r.iter_mut().enumerate() {
        *x = 0x0101_0101_0101_0101 * (i as u64 + 1);
    }
    r[6] = sx::u64();
    r[7] = sx::u64();
    r[8] = sx::u64();
    reg_step(op, operands, r);
}
/// Encodings: operand bytes arbitrary; the registers hold fixed, pairwise distinct values.
fn encodings(op: u8, operands: &[u8]) {
    let mut r = [0u64; 13];
    for (i, x) in r.iter_mut().enumerate() {
        *x = 0x8421_c001_0000_0007u64.wrapping_mul(i as u64 + 3);
    }
    reg_step(op, operands, r);
}

const THREE: [u8; 31] = [
    190, 191, 192, 197, 198, 199, 200, 201, 202, 207, 208, 209, 210, 211, 212, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226,
    227, 228, 229, 230, 213,
];

//@ P01 covers=1 time=60
//@ bound: opcodes 190-192,197-202,207-212,216-230: all 64-bit operand values and previous destination values
#[no_mangle]
pub extern "C" fn p01_three_regs() {
    values(pick_op(&THREE[..30]), &[0x76, 8]);
}
//@ P01 covers=1 time=60
//@ bound: three-register opcodes: every operand byte pair, with registers holding fixed pairwise distinct values
#[no_mangle]
pub extern "C" fn p01_three_regs_enc() {
    let op = pick_op(if thorough() { &THREE[..] } else { &[190, 197, 201, 208, 216, 218, 219, 227] });
    encodings(op, &sx::vec(2));
}
//@ P01 covers=1 time=60
//@ bound: 32-bit and 64-bit unsigned and signed division and remainder, all 64-bit operand values
#[no_mangle]
pub extern "C" fn p01_div_u() {
    values(pick_op(&[193, 195, 203, 205]), &[0x76, 8]);
}
//@ P01 covers=1 time=60
#[no_mangle]
pub extern "C" fn p01_div_s() {
    values(pick_op(&[194, 204]), &[0x76, 8]);
}
//@ P01 covers=1 time=60
#[no_mangle]
pub extern "C" fn p01_rem_s32() {
    values(196, &[0x76, 8]);
}
//@ P01 covers=1 time=60
#[no_mangle]
pub extern "C" fn p01_rem_s64() {
    values(206, &[0x76, 8]);
}
//@ P01 covers=1 time=60
//@ bound: high halves of the 128-bit products, all operand values
#[no_mangle]
pub extern "C" fn p01_mul_upper() {
    values(pick_op(&[213, 214, 215]), &[0x76, 8]);
}
//@ P01 covers=1 time=60
//@ bound: two-register opcodes 100,102-111: all source values
#[no_mangle]
pub extern "C" fn p01_two_regs() {
    values(pick_op(&[100, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111]), &[0x68]);
}
//@ P01 covers=1 time=60
//@ bound: two-register opcodes: every operand byte
#[no_mangle]
pub extern "C" fn p01_two_regs_enc() {
    encodings(pick_op(&[100, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111]), &sx::vec(1));
}
//@ P01 covers=1 time=60
//@ bound: two registers and an immediate (131-161): all register values and immediates of 0..4 bytes (quick: 1 and 4)
#[no_mangle]
pub extern "C" fn p01_reg_imm_a() {
    reg_imm(pick(131, 146) as u8);
}
//@ P01 covers=1 time=60
#[no_mangle]
pub extern "C" fn p01_reg_imm_b() {
    reg_imm(pick(147, 161) as u8);
}
fn reg_imm(op: u8) {
    let n = if thorough() { pick_usize(0, 5) } else { pick_op(&[1, 4]) as usize };
    let mut ops = vec![0x76];
    ops.extend(sx::vec(n));
    values(op, &ops);
}
//@ P01 covers=1 time=60
//@ bound: two registers and an immediate: every register operand byte, immediates of 0..6 bytes, fixed distinct registers
#[no_mangle]
pub extern "C" fn p01_reg_imm_enc() {
    let op = if thorough() { pick(131, 161) as u8 } else { pick_op(&[131, 136, 141, 147, 149, 160]) };
    let n = pick_usize(1, 7);
    encodings(op, &sx::vec(n));
}
//@ P01 covers=1 time=60
//@ bound: load_imm with 1..7 operand bytes, load_imm_64 with 9 operand bytes
#[no_mangle]
pub extern "C" fn p01_load_imm() {
    let op = pick_op(&[51, 20]);
    let n = if op == 20 { 9 } else { pick_usize(1, 7) };
    encodings(op, &sx::vec(n));
}
