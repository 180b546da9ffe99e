//! Program blobs: decoding, and running arbitrary ones.
use crate::isa::*;
use crate::refpvm::*;
use fr_pvm_core::{
    interpreter::Interpreter,
    program::{loader::ProgramLoader, types::formatted_program::FormattedProgram, types::program_state::ProgramState},
    state::{memory::*, vm_state::*},
};
use fr_pvm_types::exit_reason::ExitReason;
use sx::*;

/// natural number of the JAM serialization at *i (None: malformed)
fn nat(b: &[u8], i: &mut usize) -> Option<u64> {
    let f = *b.get(*i)?;
    *i += 1;
    let mut l = 0;
    while l < 8 && f & (0x80 >> l) != 0 {
        l += 1;
    }
    if *i + l > b.len() {
        return None;
    }
    let mut v = if l < 7 { (f as u64 & ((0x80u64 >> l) - 1)) << (8 * l) } else { 0 };
    for k in 0..l {
        v |= (b[*i + k] as u64) << (8 * k);
    }
    *i += l;
    // canonical only
    if l > 0 && v >> (7 * l) == 0 {
        return None;
    }
    Some(v)
}

//@ P06 covers=2 time=200
//@ bound: every blob of 0..6 bytes (thorough 0..8); jump tables of zero-length entries only up to 3 entries (see the known finding)
#[no_mangle]
pub extern "C" fn p06_any_blob() {
    let n = pick_usize(0, bound(6, 8));
    let b = sx::vec(n);
    sx::alloc_limit(1 << 20);
    // z = 0 describes a table of any length without a byte of input: see p06_zero_size_entries
    let mut i = 0;
    let head = nat(&b, &mut i);
    if let (Some(nj), Some(z)) = (head, b.get(i)) {
        assume((*z != 0) | (nj <= 3));
    }
    let r = ProgramLoader::deblob_program_code(&b);
    // reference
    let want = (|| {
        let mut i = 0;
        let nj = nat(&b, &mut i)?;
        let z = *b.get(i)?;
        i += 1;
        let nc = nat(&b, &mut i)?;
        if nj > 0 && z > 4 {
            return None;
        }
        let rest = (b.len() - i) as u64;
        if nj > rest + 3 || nc > rest {
            return None;
        }
        let (nj, z, nc) = (conc(nj) as usize, conc(z as u64) as usize, conc(nc) as usize);
        if nj * z + nc + nc.div_ceil(8) != b.len() - i {
            return None;
        }
        Some((i, nj, z, nc))
    })();
    match (r, want) {
        (Err(_), None) => cover(1),
        (Ok((c, k, j)), Some((i, nj, z, nc))) => {
            cover(2);
            check!(c.len() == nc && k.len() == nc && j.len() == nj);
            for x in 0..nj {
                check!(j[x] as u64 == le(&b, i + x * z, z));
            }
            let c0 = i + nj * z;
            check!(same(&c, &b[c0..c0 + nc]));
            for x in 0..nc {
                check!(k[x] == (b[c0 + nc + x / 8] >> (x % 8) & 1 != 0));
            }
        }
        _ => check!(false),
    }
}
//@ P06 covers=3 time=200
//@ bound: code of 0..9 arbitrary bytes, every bitmask, 0..2 arbitrary jump-table entries of 1..4 bytes; also one byte too many or too few
#[no_mangle]
pub extern "C" fn p06_components() {
    let nj = pick_usize(0, 2);
    let z = pick_usize(1, 4);
    let nc = pick_usize(0, 9);
    let jt = sx::vec(nj * z);
    let code = sx::vec(nc);
    let mask = sx::vec(nc.div_ceil(8));
    let mut b = vec![nj as u8, z as u8, nc as u8];
    b.extend_from_slice(&jt);
    b.extend_from_slice(&code);
    b.extend_from_slice(&mask);
    match pick(0, 2) {
        0 => {
            let Ok((c, k, j)) = ProgramLoader::deblob_program_code(&b) else {
                check!(false);
                return;
            };
            cover(1);
            check!(same(&c, &code) && k.len() == nc && j.len() == nj);
            for x in 0..nj {
                check!(j[x] as u64 == le(&jt, x * z, z));
            }
            for x in 0..nc {
                check!(k[x] == (mask[x / 8] >> (x % 8) & 1 != 0));
            }
        }
        1 => {
            cover(2);
            b.push(sx::u8());
            check!(ProgramLoader::deblob_program_code(&b).is_err());
        }
        _ => {
            cover(3);
            b.pop();
            check!(ProgramLoader::deblob_program_code(&b).is_err());
        }
    }
}
//@ P06 covers=2 time=200
//@ bound: standard program blobs: section lengths 0..2 each, arbitrary contents, page count and stack size; then every blob of 11..15 bytes
#[no_mangle]
pub extern "C" fn p06_standard() {
    sx::alloc_limit(1 << 20);
    if sx::conc(sx::bool() as u64) != 0 {
        let (no, nw, nc) = (pick_usize(0, 2), pick_usize(0, 2), pick_usize(0, 2));
        let (o, w, c) = (sx::vec(no), sx::vec(nw), sx::vec(nc));
        let z = sx::u16();
        let s = sx::u32() & 0xff_ffff;
        let mut b = vec![no as u8, 0, 0, nw as u8, 0, 0];
        b.extend_from_slice(&z.to_le_bytes());
        b.extend_from_slice(&s.to_le_bytes()[..3]);
        b.extend_from_slice(&o);
        b.extend_from_slice(&w);
        b.extend_from_slice(&(nc as u32).to_le_bytes());
        b.extend_from_slice(&c);
        let extra = pick(0, 2);
        if extra == 1 {
            b.push(0);
        }
        if extra == 2 {
            b.pop();
        }
        let r = FormattedProgram::from_standard_program(&b);
        check!(r.is_ok() == (extra == 0));
        if let Ok(p) = r {
            cover(1);
            check!(p.static_size as usize == no && p.heap_size as usize == nw && p.code_size as usize == nc);
            check!(p.extra_heap_pages == z && p.stack_size == s);
            check!(same(&p.static_data, &o) && same(&p.heap_data, &w) && same(&p.code, &c));
        }
    } else {
        let n = pick_usize(0, 16);
        let b = sx::vec(n);
        let r = FormattedProgram::from_standard_program(&b);
        if n >= 15 {
            let (o, w) = (le(&b, 0, 3), le(&b, 3, 3));
            if o + w <= n as u64 - 15 {
                let at = conc(11 + o + w) as usize;
                check!(r.is_ok() == (le(&b, at, 4) == (n - at - 4) as u64));
                cover(2);
                return;
            }
        }
        check!(r.is_err());
    }
}
//@ P06 covers=2 time=100
//@ bound: every combination of section sizes: the size limit of a standard program is 2^32 with 64 KiB zones
#[no_mangle]
pub extern "C" fn p06_size_limit() {
    let (o, w, s) = (sx::u32() & 0xff_ffff, sx::u32() & 0xff_ffff, sx::u32() & 0xff_ffff);
    let z = sx::u16();
    let p = FormattedProgram {
        static_size: o,
        heap_size: w,
        extra_heap_pages: z,
        stack_size: s,
        static_data: vec![],
        heap_data: vec![],
        code_size: 0,
        code: vec![],
    };
    let zone = |x: u64| (x + 0xffff) & !0xffff;
    let total = 5 * 0x10000 + zone(o as u64) + zone(w as u64 + z as u64 * 4096) + zone(s as u64) + (1 << 24);
    check!(p.is_program_size_valid() == (total <= 1 << 32));
    if total <= 1 << 32 {
        cover(1);
    }
    if z > 0 && s > 0 {
        cover(2);
    }
}

//@ P06 covers=1 time=60
//@ bound: a table of 20000 zero-length entries
#[no_mangle]
pub extern "C" fn p06_zero_size_entries() {
    // |j| = 20000 (three bytes), z = 0, |c| = 1, code, mask
    let b = [0xc0, 0x20, 0x4e, 0, 1, sx::u8(), 1];
    cover(1);
    sx::alloc_limit(4096);
    let _ = ProgramLoader::deblob_program_code(&b);
    check!(true);
}
/// Any code, any bitmask, any registers and program counter: the interpreter ends with an exit reason.
fn run_any(code: Vec<u8>, mask: Vec<bool>, steps: i64, pc: u64) {
    let ps = load(&code, &mask, &[2, 3], 2, 1);
    let mut vm = VMState { regs: regs(), memory: Memory::new(1 << 32, 4096), pc, gas_counter: steps };
    vm.memory.set_page_range_access(0x20..0x21, AccessType::ReadWrite).unwrap();
    let e = Interpreter::invoke_general(&mut vm, &ps);
    match e {
        Ok(ExitReason::OutOfGas) => check!(vm.gas_counter < 0),
        Ok(ExitReason::Continue) => check!(false),
        Ok(_) => check!(vm.gas_counter >= 0 && vm.gas_counter < steps),
        Err(_) => check!(false),
    }
    cover(1);
}
//@ P10 covers=1 time=400
//@ bound: one step of every opcode byte 0..255 (sbrk aside) with 0..3 arbitrary operand bytes, arbitrary registers, program counter on or beside the instruction
#[no_mangle]
pub extern "C" fn p10_any_instruction() {
    let op = sx::u8();
    assume(op != 101);
    let op = conc(op as u64) as u8;
    let n = pick_usize(0, bound(3, 9)) ;
    let mut c = vec![op];
    c.extend(sx::vec(n));
    let mut m = vec![false; n + 1];
    m[0] = true;
    run_any(c, m, 1, 0);
}
//@ P10 covers=1 time=400
//@ bound: every program of 3 bytes (thorough 4) drawn from 12 opcodes with every bitmask, 3 steps (thorough 4), every starting program counter
#[no_mangle]
pub extern "C" fn p10_any_program() {
    const OPS: [u8; 6] = [0, 40, 50, 51, 180, 120];
    let n = bound(3, 4);
    let mut c = vec![];
    let mut m = vec![];
    for _ in 0..n {
        let k = conc(sx::bool() as u64) != 0;
        m.push(k);
        c.push(if k { OPS[pick_usize(0, bound(3, 5))] } else { sx::u8() });
    }
    let pc = sx::u64();
    run_any(c, m, bound(2, 4) as i64, pc);
}
//@ P08 covers=2 time=100
//@ bound: two successive sbrk of any size over a fixed layout (heap of 2 pages, stack above it)
#[no_mangle]
pub extern "C" fn p08_sbrk() {
    // sbrk r9, r7; sbrk r10, r8; trap
    let c = vec![101, 0x79, 101, 0x8a, 0];
    let m = [true, false, true, false, true];
    let ps = load(&c, &m, &[], 0, 0);
    let mut vm = VMState { regs: regs(), memory: Memory::new(1 << 32, 4096), pc: 0, gas_counter: 10 };
    let (heap, heap_end, stack) = (0x30000u32, 0x32000u32, 0x38000u32);
    vm.memory.heap_start = heap;
    vm.memory.heap_end = heap_end;
    vm.memory.stack_start = stack;
    vm.memory.set_page_range_access(0x20..0x21, AccessType::ReadOnly).unwrap();
    vm.memory.set_page_range_access(0x30..0x32, AccessType::ReadWrite).unwrap();
    vm.memory.set_page_range_access(0x38..0x39, AccessType::ReadWrite).unwrap();
    let (a, b) = (vm.regs[7], vm.regs[8]);
    let r0 = vm.regs;
    let e = Interpreter::invoke_general(&mut vm, &ps);
    let fits = a < 0x6000 && b < 0x6000 && a + b < 0x6000;
    let q = sx::u32();
    let p = q >> 12;
    if fits {
        cover(1);
        check!(matches!(e, Ok(ExitReason::Panic)));
        check!(vm.gas_counter == 7);
        // the two areas follow each other from the old end of the heap
        check!(vm.regs[9] == heap_end as u64);
        check!(vm.regs[10] == heap_end as u64 + a);
        for i in 0..13 {
            check!(i == 9 || i == 10 || vm.regs[i] == r0[i]);
        }
        // all of both areas is writable; nothing else changed
        assume(p != 0x20);
        let inside = q as u64 >= heap_end as u64 && (q as u64) < heap_end as u64 + a + b;
        let was = p == 0x30 || p == 0x31 || p == 0x38;
        let w = vm.memory.is_address_range_writable(q, 1);
        check!(!inside || w);
        let page_touched = (p as u64) << 12 < heap_end as u64 + a + b && p >= 0x32;
        check!(w == (was || page_touched));
        check!(vm.memory.heap_end as u64 == heap_end as u64 + a + b);
    } else {
        cover(2);
        // never into the stack
        check!(!matches!(e, Ok(ExitReason::Panic)));
        assume(p >= 0x37 && p != 0x38);
        let first_fits = a < 0x6000;
        check!(!vm.memory.is_address_range_writable(q, 1) || (first_fits && (q as u64) < ((heap_end as u64 + a + 0xfff) & !0xfff)));
    }
}
