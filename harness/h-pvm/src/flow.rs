//! Control flow, gas and exits of the interpreter.
use crate::isa::*;
use crate::refpvm::*;
use fr_pvm_core::{interpreter::Interpreter, state::memory::*, state::vm_state::*};
use fr_pvm_types::exit_reason::ExitReason;
use sx::*;

fn terminates(op: u8) -> bool {
    matches!(op, 0 | 1 | 40 | 50 | 80..=90 | 170..=175 | 180)
}
/// Where basic blocks begin: offset 0, and the instruction after every block-ending instruction.
/// `end` (the offset just past the code) may begin one: executing there is a trap.
fn block_starts(code: &[u8], mask: &[bool]) -> Vec<bool> {
    let mut v = vec![false; code.len() + 1];
    v[0] = true;
    let mut i = 0;
    while i < code.len() {
        if mask[i] {
            let mut n = i + 1;
            while n < code.len() && !mask[n] && n - i - 1 < 24 {
                n += 1;
            }
            if terminates(code[i]) && n <= code.len() {
                v[n] = true;
            }
        }
        i += 1;
    }
    v
}
fn is_start(v: &[bool], t: u64) -> bool {
    let mut r = false;
    for i in 0..v.len() {
        r |= v[i] & (t == i as u64);
    }
    r
}
fn simple_regs() -> [u64; 13] {
    let mut r = [0u64; 13];
    for (i, x) in r.iter_mut().enumerate() {
        *x = 0x0101_0101_0101_0101 * (i as u64 + 1);
    }
    r[6] = sx::u64();
    r[7] = sx::u64();
    r
}
fn same_regs(a: &[u64; 13], b: &[u64; 13]) -> bool {
    let mut d = 0;
    for i in 0..13 {
        d |= a[i] ^ b[i];
    }
    d == 0
}

/// code before the instruction under test: fallthrough (0), load_imm r9, 5 (1..4), fallthrough (4)
/// code after it: load_imm r9, 7; trap; add_imm_64 r9,r9,1; fallthrough
fn around(op: u8, operands: &[u8]) -> (Vec<u8>, Vec<bool>, usize) {
    let mut c = vec![1u8, 51, 9, 5, 1];
    let mut m = vec![true, true, false, false, true];
    let pc = c.len();
    c.push(op);
    m.push(true);
    for b in operands {
        c.push(*b);
        m.push(false);
    }
    for (b, k) in [(51, true), (9, false), (7, false), (0, true), (149, true), (0x99, false), (1, false), (1, true)] {
        c.push(b);
        m.push(k);
    }
    (c, m, pc)
}

fn run_flow(code: &[u8], mask: &[bool], pc: usize, skip: usize, lx: usize, jt: &[u32], z: u8, r0: [u64; 13]) {
    let mut jtb = vec![];
    for t in jt {
        jtb.extend_from_slice(&t.to_le_bytes()[..z as usize]);
    }
    let ps = load(code, mask, &jtb, jt.len() as u8, z);
    let starts = block_starts(code, mask);
    let eff = decode(code, pc, skip, lx, &r0);
    let mut vm = VMState { regs: r0, memory: Memory::new(1 << 32, 4096), pc: pc as u64, gas_counter: 1 };
    let e = Interpreter::invoke_general(&mut vm, &ps);
    let next = (pc + 1 + skip) as u64;
    let mut want = r0;
    // Some(pc): continues there; None: panics
    let dest = match eff {
        Eff::Branch { cond, target } => {
            if !cond {
                cover(1);
                Some(next)
            } else if is_start(&starts, target) {
                cover(2);
                Some(target)
            } else {
                cover(3);
                None
            }
        }
        Eff::LinkJump { rd, val, target } => {
            want[rd] = val;
            if is_start(&starts, target) {
                cover(2);
                Some(target)
            } else {
                cover(3);
                None
            }
        }
        Eff::DJump { rd, val, link, a } => {
            if link {
                want[rd] = val;
            }
            if a == 0xffff_0000 {
                cover(4);
                check!(matches!(e, Ok(ExitReason::RegularHalt)));
                check!(vm.gas_counter == 0);
                check!(same_regs(&vm.regs, &want));
                return;
            }
            let mut t = None;
            for (i, x) in jt.iter().enumerate() {
                if a as usize == 2 * (i + 1) {
                    t = Some(*x as u64);
                }
            }
            match t {
                None => {
                    cover(1);
                    None
                }
                Some(t) if is_start(&starts, t) => {
                    cover(2);
                    Some(t)
                }
                _ => {
                    cover(3);
                    None
                }
            }
        }
        _ => {
            check!(false);
            return;
        }
    };
    match dest {
        Some(p) => {
            check!(matches!(e, Ok(ExitReason::OutOfGas)));
            check!(vm.pc == p);
            check!(vm.gas_counter == -1);
            check!(same_regs(&vm.regs, &want));
        }
        None => {
            check!(matches!(e, Ok(ExitReason::Panic)));
            check!(vm.gas_counter == 0);
        }
    }
    obs(vm.pc);
}

//@ P02 covers=3 time=200
//@ bound: 170-175: all values of both registers, offsets of 1 and 2 bytes (every value), fixed surrounding program of 17 bytes
#[no_mangle]
pub extern "C" fn p02_branch_regs() {
    let op = pick(170, 175) as u8;
    let mut o = vec![0x76];
    o.extend(sx::vec(if thorough() { pick_usize(1, 4) } else { 1 }));
    let (c, m, pc) = around(op, &o);
    run_flow(&c, &m, pc, o.len(), 0, &[], 0, simple_regs());
}
//@ P02 covers=3 time=200
//@ bound: 80-90: all register values, immediates of 1 byte, offsets of 1 byte (thorough: 0..4 bytes each)
#[no_mangle]
pub extern "C" fn p02_branch_imm() {
    let op = pick(80, 90) as u8;
    let (lx, ly) = if thorough() { (pick_usize(0, 4), pick_usize(1, 4)) } else { (1, 1) };
    let mut o = vec![6 | (lx as u8) << 4];
    o.extend(sx::vec(lx + ly));
    let (c, m, pc) = around(op, &o);
    run_flow(&c, &m, pc, o.len(), lx, &[], 0, simple_regs());
}
//@ P02 covers=2 time=200
//@ bound: jump with offsets of 0..4 bytes (every value)
#[no_mangle]
pub extern "C" fn p02_jump() {
    let n = pick_usize(0, 4);
    let o = sx::vec(n);
    let (c, m, pc) = around(40, &o);
    let ps = load(&c, &m, &[], 0, 0);
    let starts = block_starts(&c, &m);
    let r0 = simple_regs();
    let Eff::Branch { target, .. } = decode(&c, pc, n, 0, &r0) else {
        check!(false);
        return;
    };
    let mut vm = VMState { regs: r0, memory: Memory::new(1 << 32, 4096), pc: pc as u64, gas_counter: 1 };
    let e = Interpreter::invoke_general(&mut vm, &ps);
    if is_start(&starts, target) {
        cover(1);
        check!(matches!(e, Ok(ExitReason::OutOfGas)));
        check!(vm.pc == target);
    } else {
        cover(2);
        check!(matches!(e, Ok(ExitReason::Panic)));
        check!(vm.gas_counter == 0);
    }
    check!(same_regs(&vm.regs, &r0));
}
const BODY: [u8; 10] = [0, 1, 10, 40, 50, 51, 80, 100, 170, 190];
//@ P02 covers=2 time=200
//@ bound: jump into a program of 3 bytes (thorough 5) after it, with every opcode bitmask; opcodes trap, fallthrough, ecalli, jump (thorough: 6 more kinds)
#[no_mangle]
pub extern "C" fn p02_blocks() {
    let n = bound(3, 5);
    let mut c = vec![40u8];
    let mut m = vec![true];
    c.push(sx::u8());
    m.push(false);
    for _ in 0..n {
        let b = sx::bool();
        let k = conc(b as u64) != 0;
        m.push(k);
        c.push(if k { BODY[pick_usize(0, if thorough() { 9 } else { 3 })] } else { 0x11 });
    }
    // when the first byte after the jump is no opcode it belongs to the jump's offset
    let mut skip = 1;
    while 1 + skip < c.len() && !m[1 + skip] {
        skip += 1;
    }
    let ps = load(&c, &m, &[], 0, 0);
    let starts = block_starts(&c, &m);
    let r0 = [3u64; 13];
    let Eff::Branch { target, .. } = decode(&c, 0, skip, 0, &r0) else { return };
    let mut vm = VMState { regs: r0, memory: Memory::new(1 << 32, 4096), pc: 0, gas_counter: 1 };
    let e = Interpreter::invoke_general(&mut vm, &ps);
    if is_start(&starts, target) {
        cover(1);
        check!(matches!(e, Ok(ExitReason::OutOfGas)));
        check!(vm.pc == target);
    } else {
        cover(2);
        check!(matches!(e, Ok(ExitReason::Panic)));
        check!(vm.gas_counter == 0);
    }
}
//@ P03 covers=4 time=200
//@ bound: jump_ind: every register value; immediates of 0..4 bytes (quick 1 and 4); jump table of 3 arbitrary entries of 1, 2 or 4 bytes
#[no_mangle]
pub extern "C" fn p03_jump_ind() {
    let n = if thorough() { pick_usize(0, 4) } else { [1, 4][pick_usize(0, 1)] };
    let mut o = vec![6];
    o.extend(sx::vec(n));
    let (c, m, pc) = around(50, &o);
    let z = if thorough() { pick(1, 4) } else { [1, 2, 4][pick_usize(0, 2)] } as u8;
    let mask = if z == 4 { u32::MAX } else { (1u32 << (8 * z)) - 1 };
    let jt = [sx::u32() & mask, sx::u32() & mask, sx::u32() & mask];
    run_flow(&c, &m, pc, o.len(), 0, &jt[..if thorough() { pick_usize(0, 3) } else { 3 }], z, simple_regs());
}
//@ P03 covers=4 time=200
//@ bound: load_imm_jump_ind: every value of the base register, every immediate and offset of 1 byte; base and link register equal or different
#[no_mangle]
pub extern "C" fn p03_load_imm_jump_ind() {
    let (lx, ly) = if thorough() { (pick_usize(0, 4), pick_usize(0, 4)) } else { (1, 1) };
    let rr = [0x67, 0x66][pick_usize(0, 1)];
    let mut o = vec![rr, lx as u8];
    o.extend(sx::vec(lx + ly));
    let (c, m, pc) = around(180, &o);
    let jt = [sx::u8() as u32, sx::u8() as u32, 4];
    run_flow(&c, &m, pc, o.len(), lx, &jt, 1, simple_regs());
}

//@ P05 covers=2 time=200
//@ bound: straight-line program of 6 instructions (register, store, jump, host call after it), every gas limit 0..8
#[no_mangle]
pub extern "C" fn p05_gas() {
    // add_imm r7; store_ind_u8 r7 -> [0x20000]; add_imm r7; jump +2 (to the next instruction); add_imm r7; trap
    let c = vec![149, 0x77, 1, 120, 0x87, 149, 0x77, 1, 40, 2, 149, 0x77, 1, 0];
    let m = [true, false, false, true, false, true, false, false, true, false, true, false, false, true];
    let ps = load(&c, &m, &[], 0, 0);
    let mut vm = VMState { regs: [0; 13], memory: Memory::new(1 << 32, 4096), pc: 0, gas_counter: 0 };
    vm.memory.set_page_range_access(0x20..0x21, AccessType::ReadWrite).unwrap();
    let v = sx::u64();
    vm.regs[7] = v;
    vm.regs[8] = 0x20000;
    let g = sx::range(0, 8);
    vm.gas_counter = g as i64;
    let e = Interpreter::invoke_general(&mut vm, &ps);
    let done = conc(if g < 6 { g } else { 6 });
    let adds = [0, 1, 1, 2, 2, 3, 3][done as usize];
    check!(vm.regs[7] == v.wrapping_add(adds));
    let b = vm.memory.read_byte(0x20000).unwrap();
    check!(b == if done >= 2 { (v as u8).wrapping_add(1) } else { 0 });
    if done < 6 {
        cover(1);
        check!(matches!(e, Ok(ExitReason::OutOfGas)));
        check!(vm.gas_counter == -1);
        check!(vm.pc == [0, 3, 5, 8, 10, 13][done as usize]);
    } else {
        cover(2);
        check!(matches!(e, Ok(ExitReason::Panic)));
        check!(vm.gas_counter == g as i64 - 6);
    }
    obs(vm.regs[7]);
}
//@ P05 covers=2 time=200
//@ bound: a counting loop of 2 instructions run for every gas limit 0..12 (thorough 0..40)
#[no_mangle]
pub extern "C" fn p05_loop() {
    // 0: fallthrough; 1: add_imm r7,r7,1; 4: branch_lt_u_imm r7, imm, back to 1 ... block starts: 1
    let lim = sx::u8();
    assume(lim > 0 && lim < 128);
    let c = vec![1, 149, 0x77, 1, 83, 0x17, lim, (-3i8) as u8, 0];
    let m = [true, true, false, false, true, false, false, false, true];
    let ps = load(&c, &m, &[], 0, 0);
    let mut vm = VMState { regs: [0; 13], memory: Memory::new(1 << 32, 4096), pc: 0, gas_counter: 0 };
    let g = sx::range(0, bound(12, 40) as u64);
    vm.gas_counter = g as i64;
    let e = Interpreter::invoke_general(&mut vm, &ps);
    let need = 1 + 2 * lim as u64 + 1;
    if g >= need {
        cover(1);
        check!(matches!(e, Ok(ExitReason::Panic)));
        check!(vm.gas_counter as u64 == g - need);
        check!(vm.regs[7] == lim as u64);
    } else {
        cover(2);
        check!(matches!(e, Ok(ExitReason::OutOfGas)));
        check!(vm.gas_counter == -1);
        check!(vm.regs[7] == g / 2);
    }
}
//@ P05 covers=2 time=100
//@ bound: host call instruction with identifiers of 0..4 bytes (every value whose host call is known), gas 0 or 1
#[no_mangle]
pub extern "C" fn p05_ecall() {
    use fr_pvm_types::hostcall::HostCallType;
    let n = pick_usize(0, 4);
    let o = sx::vec(n);
    let (c, m, pc) = around(10, &o);
    let ps = load(&c, &m, &[], 0, 0);
    let r0 = [3u64; 13];
    let Eff::Ecall(id) = decode(&c, pc, n, 0, &r0) else { return };
    let g = pick(0, 1);
    let mut vm = VMState { regs: r0, memory: Memory::new(1 << 32, 4096), pc: pc as u64, gas_counter: g as i64 };
    let e = Interpreter::invoke_general(&mut vm, &ps);
    check!(vm.gas_counter == g as i64 - 1);
    check!(same_regs(&vm.regs, &r0));
    check!(vm.pc == pc as u64);
    if g == 0 {
        cover(1);
        check!(matches!(e, Ok(ExitReason::OutOfGas)));
        return;
    }
    let Ok(ExitReason::HostCall(h)) = e else {
        check!(false);
        return;
    };
    cover(2);
    if id > 255 {
        check!(h == HostCallType::INVALID);
    } else {
        check!(Some(h) == HostCallType::from_u8(id as u8));
    }
}
//@ P02 covers=3 time=200
//@ bound: branch with immediate / linking jump: every value of the length bits, 1..10 operand bytes (quick 1, 3, 6, 10)
#[no_mangle]
pub extern "C" fn p02_operand_lengths() {
    let op = [80, 81][pick_usize(0, 1)];
    let lx = pick_usize(0, 7);
    let junk = (lx & 1) as u8;
    let skip = if thorough() { pick_usize(1, 10) } else { [1, 3, 6, 10][pick_usize(0, 3)] };
    let mut o = vec![6 | (lx as u8) << 4 | junk << 7];
    o.extend(sx::vec(skip - 1));
    let (c, m, pc) = around(op, &o);
    run_flow(&c, &m, pc, o.len(), lx, &[], 0, simple_regs());
}
//@ P03 covers=4 time=200
//@ bound: load_imm_jump_ind: every value of the length bits, 2..11 operand bytes (quick 2, 4, 7, 11)
#[no_mangle]
pub extern "C" fn p03_operand_lengths() {
    let lx = pick_usize(0, 7);
    let junk = (lx & 1) as u8;
    let skip = if thorough() { pick_usize(2, 11) } else { [2, 4, 7, 11][pick_usize(0, 3)] };
    let mut o = vec![0x67, lx as u8 | junk << 3 | junk << 7];
    o.extend(sx::vec(skip - 2));
    let (c, m, pc) = around(180, &o);
    run_flow(&c, &m, pc, o.len(), lx, &[4, 3, 0], 1, simple_regs());
}
//@ P02 covers=2 time=200
//@ bound: which instructions end a basic block: every valid opcode, 0..3 operand bytes (thorough 0..26) of the instruction jumped over
#[no_mangle]
pub extern "C" fn p02_block_enders() {
    let op = sx::u8();
    assume(matches!(op, 0 | 1 | 10 | 20 | 30..=33 | 40 | 50..=62 | 70..=73 | 80..=90 | 100..=111 | 120..=161 | 170..=175 | 180 | 190..=230));
    let op = conc(op as u64) as u8;
    let n = if thorough() { pick_usize(0, 26) } else { [0, 3][pick_usize(0, 1)] };
    let mut c = vec![40, 3 + n as u8, op];
    let mut m = vec![true, false, true];
    for i in 0..n {
        c.push(i as u8);
        m.push(false);
    }
    c.push(1);
    m.push(true);
    let ps = load(&c, &m, &[], 0, 0);
    let mut vm = VMState { regs: [3; 13], memory: Memory::new(1 << 32, 4096), pc: 0, gas_counter: 1 };
    let e = Interpreter::invoke_general(&mut vm, &ps);
    if block_starts(&c, &m)[3 + n] {
        cover(1);
        check!(matches!(e, Ok(ExitReason::OutOfGas)));
        check!(vm.pc == 3 + n as u64);
    } else {
        cover(2);
        check!(matches!(e, Ok(ExitReason::Panic)));
    }
}
