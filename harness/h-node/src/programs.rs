//! P07: whole programs, from a blob and arguments to a result.
use crate::host::*;
use crate::refine_calls::{package, package_octets};
use fr_pvm_host::context::{IsAuthorizedHostContext, RefineHostContext};
use fr_pvm_interface::invoke::*;
use fr_pvm_invocation::{is_authorized::IsAuthorizedInvocation, refine::RefineInvocation};

/// machine code
#[derive(Default, Clone)]
pub struct Asm {
    pub code: Vec<u8>,
    mask: Vec<bool>,
}
impl Asm {
    pub fn new() -> Self {
        Asm::default()
    }
    /// code that is entered at octet 5
    pub fn entry() -> Self {
        let mut a = Asm::new();
        for _ in 0..5 {
            a = a.op(&[0]);
        }
        a
    }
    pub fn op(mut self, b: &[u8]) -> Self {
        self.code.extend(b);
        self.mask.push(true);
        self.mask.resize(self.code.len(), false);
        self
    }
    pub fn set(self, r: u8, v: u64) -> Self {
        self.op(&[&[20, r][..], &v.to_le_bytes()].concat())
    }
    pub fn call(self, id: u32) -> Self {
        self.op(&[&[10][..], &id.to_le_bytes()].concat())
    }
    /// 8 octets from or to an address
    pub fn load(self, r: u8, at: u32) -> Self {
        self.op(&[&[58, r][..], &at.to_le_bytes()].concat())
    }
    pub fn store(self, r: u8, at: u32) -> Self {
        self.op(&[&[62, r][..], &at.to_le_bytes()].concat())
    }
    /// halts, with the result in the given range
    pub fn give(self, at: u64, len: u64) -> Self {
        self.set(7, at).set(8, len).stop()
    }
    pub fn stop(self) -> Self {
        self.op(&[50, 0])
    }
    pub fn blob(&self) -> Vec<u8> {
        let mut b = vec![0, 0];
        b.extend(natural(self.code.len()));
        b.extend(&self.code);
        for c in self.mask.chunks(8) {
            b.push(c.iter().enumerate().map(|(i, m)| (*m as u8) << i).sum());
        }
        b
    }
    /// a program with a little read-only and writable memory
    pub fn program(&self) -> Vec<u8> {
        standard(&[7; 8], &[9; 8], 0, 4096, &self.blob())
    }
}
pub fn natural(n: usize) -> Vec<u8> {
    match n {
        0..128 => vec![n as u8],
        128..16384 => vec![0x80 | (n >> 8) as u8, n as u8],
        _ => vec![0xc0 | (n >> 16) as u8, n as u8, (n >> 8) as u8],
    }
}
pub fn standard(o: &[u8], w: &[u8], z: u16, s: u32, blob: &[u8]) -> Vec<u8> {
    let mut b = vec![];
    b.extend(&(o.len() as u32).to_le_bytes()[..3]);
    b.extend(&(w.len() as u32).to_le_bytes()[..3]);
    b.extend(z.to_le_bytes());
    b.extend(&s.to_le_bytes()[..3]);
    b.extend(o);
    b.extend(w);
    b.extend((blob.len() as u32).to_le_bytes());
    b.extend(blob);
    b
}
/// the writable memory of `Asm::program`
pub const W: u64 = 0x30000;
const ARGS: u64 = (1 << 32) - (1 << 16) - (1 << 24);
const STACK: u64 = (1 << 32) - (2 << 16) - (1 << 24);

/// service code: two octets of metadata, then the program
pub fn service_code(program: &[u8]) -> Vec<u8> {
    [&[2, 0xff, 0x80][..], program].concat()
}

#[derive(PartialEq, Debug)]
enum End {
    Out(Vec<u8>),
    Nothing,
    Gas,
    Panic,
}
fn psi(p: &[u8], gas: u64, args: &[u8]) -> (End, u64) {
    let mut ctx = InvocationContext::X_R(RefineHostContext::new_with_invoke_args(RefineInvokeArgs::default()));
    let m = Seed::new().manager();
    finish(run(PVMInterface::invoke_with_args(m, HOST, p, &InvocationType::Refine, 0, gas, args, &mut ctx, None)).unwrap())
}
fn finish(r: PVMInvocationResult) -> (End, u64) {
    let e = match r.output {
        PVMInvocationOutput::Output(v) => End::Out(v),
        PVMInvocationOutput::OutputUnavailable => End::Nothing,
        PVMInvocationOutput::OutOfGas(_) => End::Gas,
        PVMInvocationOutput::Panic(_) => End::Panic,
    };
    (e, r.gas_used)
}
fn up(n: u64, to: u64) -> u64 {
    n.div_ceil(to) * to
}

//@ P07 covers=7 time=100 tmul=4
//@ bound: programs with read-only data of 0, 1, 4096, 4097 or (for the place of the writable data) 65537 octets, writable data of 0, 3 or 4097, 0 or 2 further pages, a stack of 0, 1 or 4097 octets, arguments of 0, 3 or 4097; each of the four areas read or written at and around either end
#[no_mangle]
pub extern "C" fn p07_layout() {
    let what = sx::pick(0, 3);
    // the sizes of the area in question, and of those it could depend on
    let no = match what {
        0 => [0, 1, 4096, 4097][sx::pick_usize(0, 3)],
        1 => [0, 1, 65537][sx::pick_usize(0, 2)],
        _ => 1,
    };
    let nw = [0, 3, 4097][if what == 1 { sx::pick_usize(0, 2) } else { 1 }];
    let z = [0, 2][if what == 1 { sx::pick_usize(0, 1) } else { 1 }];
    let ns = [0, 1, 4097][if what == 2 { sx::pick_usize(0, 2) } else { 1 }];
    let na = [0, 3, 4097][if what == 3 { sx::pick_usize(0, 2) } else { 1 }];
    let fill = |n: usize, t: u8| -> Vec<u8> { (0..n).map(|i| (i ^ i >> 8) as u8 ^ t).collect() };
    let (o, w) = (fill(no, 0x11), fill(nw, 0x22));
    let mut args = fill(na, 0x33);
    for a in args.iter_mut().take(3) {
        *a = sx::u8();
    }
    let wbase = 0x20000 + up(no as u64, 65536);
    let (start, end, data, rw): (u64, u64, &[u8], bool) = match what {
        0 => (0x10000, 0x10000 + up(no as u64, 4096), &o, false),
        1 => (wbase, wbase + up(nw as u64, 4096) + z as u64 * 4096, &w, true),
        2 => (STACK - up(ns as u64, 4096), STACK, &[], true),
        _ => (ARGS, ARGS + up(na as u64, 4096), &args, false),
    };
    let (at, len) = [(start, 1), (start, 4), (start - 1, 1), (start - 1, 2), (end - 1, 1), (end, 1), (end - 1, 2), (start + data.len() as u64 - 1, 2)][sx::pick_usize(0, 7)];
    let write = sx::pick(0, 1) == 1;
    sx::assume(len == 1 || !write);
    // (a large program takes long to hash)
    sx::assume(no < 65537 || nw == 3 && z == 2 && !write && (at, len) == (start, 4));
    let inside = at >= start && at + len <= end;
    let mut a = Asm::new();
    if write {
        a = a.set(2, 0xabcd).op(&[&[59, 2][..], &(at as u32).to_le_bytes()].concat());
    }
    let p = standard(&o, &w, z, ns as u32, &a.give(at, len).blob());
    let gas = if write { 5 } else { 3 };
    let (e, used) = psi(&p, 1000, &args);
    if write && !(inside && rw) {
        sx::check!(e == End::Panic && used == 2);
        sx::cover(1);
        return;
    }
    sx::check!(used == gas);
    if !inside {
        sx::check!(e == End::Nothing);
        sx::cover(2);
        return;
    }
    let End::Out(v) = e else {
        sx::check!(false);
        return;
    };
    sx::check!(v.len() as u64 == len);
    for i in 0..len {
        let d = data.get((at + i - start) as usize).copied().unwrap_or(0);
        sx::check!(v[i as usize] == if write { 0xcd } else { d });
    }
    sx::cover(if write { 3 } else { 4 + what as u32 });
}

//@ P07 covers=5 time=60 tmul=4
//@ bound: arguments of 0 to 3 octets of any value or of 16 MiB less one, exactly or more; any gas below 2^63; results at any address and of any length in the registers
#[no_mangle]
pub extern "C" fn p07_registers() {
    let args: Vec<u8> = match sx::pick(0, 3) {
        0 => vec![],
        1 => sx::vec(3),
        2 => vec![0; 1 << 24],
        _ => vec![0; (1 << 24) + 1],
    };
    let gas = sx::u64();
    sx::assume(gas >> 63 == 0);
    if sx::pick(0, 1) == 0 {
        // all registers, as they are at the beginning
        let mut a = Asm::new();
        for r in 0..13 {
            a = a.store(r, W as u32 + 8 * r as u32);
        }
        let (e, used) = psi(&a.give(W, 104).program(), gas, &args);
        if args.len() > 1 << 24 {
            sx::check!(e == End::Panic && used == 0);
            sx::cover(1);
        } else if gas < 16 {
            sx::check!(e == End::Gas && used == gas);
            sx::cover(2);
        } else {
            let mut regs = [0u64; 13];
            (regs[0], regs[1], regs[7], regs[8]) = ((1 << 32) - (1 << 16), STACK, ARGS, args.len() as u64);
            sx::check!(used == 16);
            sx::check!(e == End::Out(regs.iter().flat_map(|r| r.to_le_bytes()).collect()));
            sx::cover(3);
        }
        return;
    }
    sx::assume(args.len() == 3 && gas >= 3);
    let spots = [(W, 8), (W + 4095, 1), (W + 4095, 2), (ARGS, 3), (ARGS + 1, 9), (5, 0), (5, 1), (1 << 32 | W, 1), (1 << 63, 0), (W, u64::MAX), (u64::MAX, 1), (W, 1 << 32)];
    let (at, len) = spots[sx::pick_usize(0, 11)];
    let (e, used) = psi(&Asm::new().give(at, len).program(), gas, &args);
    sx::check!(used == 3);
    let want: Vec<u8> = match (at, len) {
        (W, 8) => vec![9; 8],
        (_, 1) if at == W + 4095 => vec![0],
        (ARGS, 3) => args,
        (_, 9) => [&args[1..], &[0; 7]].concat(),
        _ => {
            sx::check!(e == End::Nothing || e == End::Out(vec![]));
            sx::cover(4);
            return;
        }
    };
    sx::check!(e == End::Out(want));
    sx::cover(5);
}

//@ P07 covers=6 time=60 tmul=4
//@ bound: every host call number up to 27, five others, in each kind of invocation, with any gas below 2^63
#[no_mangle]
pub extern "C" fn p07_calls() {
    let kind = sx::pick_usize(0, 2);
    let id = if sx::pick(0, 1) == 0 { sx::pick(0, 27) as u32 } else { [99, 100, 101, 255, 256, 263, u32::MAX][sx::pick_usize(0, 6)] };
    let known: &[u32] = match kind {
        0 => &[0, 1],
        1 => &[0, 1, 6, 7, 8, 9, 10, 11, 12, 13],
        _ => &[0, 1, 2, 3, 4, 5, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26],
    };
    let gas = sx::u64();
    sx::assume(gas >> 63 == 0);
    // (some arguments that no call panics for)
    let mut a = Asm::new();
    for r in 7..13 {
        a = a.set(r, W);
    }
    let code = a.call(id).store(7, W as u32).store(3, W as u32 + 8).give(W, 16);
    let (e, used) = match kind {
        2 => {
            let mut h = Host::new([(HOST, plain(1))].into(), PrivilegedServices::default(), 50);
            finish(run(PVMInterface::invoke_with_args(h.m.clone(), HOST, &code.program(), &InvocationType::Accumulate, 0, gas, &[], &mut h.ctx, Some(50))).unwrap())
        }
        k => {
            let m = Seed::new().manager();
            let (t, mut ctx) = if k == 0 {
                (InvocationType::IsAuthorized, InvocationContext::X_I(IsAuthorizedHostContext::new(IsAuthorizedInvokeArgs { package: WorkPackage::default(), core_idx: 0 })))
            } else {
                (InvocationType::Refine, InvocationContext::X_R(RefineHostContext::new_with_invoke_args(RefineInvokeArgs::default())))
            };
            finish(run(PVMInterface::invoke_with_args(m, HOST, &code.program(), &t, 0, gas, &[], &mut ctx, None)).unwrap())
        }
    };
    // six registers set, the call and its charge, then five more instructions
    if gas < 17 {
        sx::check!(e == End::Gas && used == gas);
        sx::cover(1);
        return;
    }
    if known.contains(&id) {
        match e {
            End::Out(v) => sx::check!(v[..8] != WHAT.to_le_bytes() && (id != 0 || v[..8] == (gas - 17).to_le_bytes())),
            // calls with worse arguments, or dearer ones
            End::Panic => sx::check!(id != 0),
            End::Gas => sx::check!(gas < 22 || id == 20),
            End::Nothing => sx::check!(false),
        }
        sx::cover(2 + kind as u32);
    } else if gas < 22 {
        sx::check!(e == End::Gas && used == gas);
        sx::cover(5);
    } else {
        sx::check!(used == 22);
        sx::check!(e == End::Out([WHAT.to_le_bytes(), [0; 8]].concat()));
        sx::cover(6);
    }
}

//@ P07 covers=1 time=60
//@ bound: nine malformed blobs
#[no_mangle]
pub extern "C" fn p07_malformed() {
    let good = Asm::new().stop().program();
    let code = Asm::new().stop().blob();
    let bad = match sx::pick(0, 8) {
        0 => vec![],
        1 => good[..good.len() - 1].to_vec(),
        2 => [&good[..], &[0]].concat(),
        // sizes beyond the blob
        3 => [&[0xff; 11][..], &good[11..]].concat(),
        // the code's own frame broken
        4 => standard(&[], &[], 0, 0, &code[..code.len() - 1]),
        5 => standard(&[], &[], 0, 0, &[&code[..], &[0]].concat()),
        6 => standard(&[], &[], 0, 0, &[]),
        7 => standard(&[], &[], 0, 0, &[0xff; 20]),
        // a jump table entry missing
        _ => standard(&[], &[], 0, 0, &[1, 1, 1, 50, 1]),
    };
    let (e, used) = psi(&bad, sx::u64(), &[]);
    sx::check!(e == End::Panic && used == 0);
    sx::cover(1);
}

/// a service holding code that can be looked up at slots from `since`
fn holding(id: u32, blob: &[u8], since: u32) -> Seed {
    let mut a = plain(1);
    a.meta.code_hash = hash(blob);
    a.held.insert(blob.to_vec(), ());
    a.asked.insert((blob.to_vec(), blob.len() as u32), vec![since]);
    seed_acct(Seed::new(), id, &a)
}
fn number(n: u16) -> Vec<u8> {
    natural(n as usize)
}

//@ P07 covers=10 time=100 tmul=4
//@ bound: refinement of either item of a package (or none) by code held since any slot or not at all, echoing its arguments, exporting and halting, panicking or running out of any gas; four core numbers
#[no_mangle]
pub extern "C" fn p07_refine() {
    let how = sx::pick(0, 4);
    let a = match how {
        0 => Asm::new().stop(),
        // exports a segment, then halts, panics, or runs for ever
        1..=3 => Asm::new().set(7, W).set(8, 3).call(7),
        _ => Asm::new(),
    };
    let a = match how {
        1 => a.give(W, 2),
        2 => a.op(&[0]),
        3 => a.op(&[1]).op(&[40, 0]),
        _ => a,
    };
    let blob = match how {
        // no code but a program
        4 => vec![200, 1, 2],
        _ => service_code(&a.program()),
    };
    let mut p = package();
    let i = if how == 0 { sx::pick_usize(0, 2) } else { 1 };
    let since = sx::u32();
    let gas = sx::u64();
    sx::assume(gas >> 63 == 0 && (how != 3 || gas < 40));
    let mut items: Vec<_> = p.work_items.iter().cloned().collect();
    for (k, w) in items.iter_mut().enumerate() {
        // (the package is hashed)
        w.service_id = HOST;
        w.service_code_hash = hash(&blob);
        w.refine_gas_limit = gas;
        w.payload_blob = Octets::from_vec(if k == 0 { vec![0x80, 1, 0xff] } else { vec![200; 130] });
    }
    p.work_items = items.try_into().unwrap();
    let core = [0, 1, 127, 128, 0xffff][if how == 0 { sx::pick_usize(0, 4) } else { 0 }];
    let there = if how == 0 { sx::pick(0, 1) == 1 } else { true };
    let m = holding(if there { HOST } else { PEER }, &blob, since).manager();
    let at = p.context.lookup_anchor_timeslot;
    let args = RefineInvokeArgs { core_idx: core, item_idx: i, package: p.clone(), ..Default::default() };
    let r = run(RefineInvocation::refine(m, &args)).unwrap();
    if i > 1 || !there || since > at || how == 4 {
        sx::check!(r.output == WorkExecutionResult::bad() && r.gas_used == 0 && r.export_segments.is_empty());
        sx::cover(match how {
            4 => 1,
            _ if i > 1 => 2,
            _ if !there => 3,
            _ => 4,
        });
        return;
    }
    let need = [1, 16, 14, u64::MAX][how as usize];
    if gas < need {
        sx::check!(r.output == WorkExecutionResult::out_of_gas() && r.gas_used == gas && r.export_segments.is_empty());
        sx::cover(if how == 0 { 5 } else { 6 });
    } else if how == 2 {
        sx::check!(r.output == WorkExecutionResult::panic() && r.gas_used == need && r.export_segments.is_empty());
        sx::cover(7);
    } else if how == 1 {
        sx::check!(r.gas_used == need && r.output == WorkExecutionResult::ok(vec![9, 9]));
        sx::check!(r.export_segments.len() == 1 && r.export_segments[0].as_ref()[..4] == [9, 9, 9, 0]);
        sx::cover(8);
    } else {
        // core, item, service, payload, hash of the package
        let y = p.work_items[i].payload_blob.to_vec();
        let want = [number(core), vec![i as u8], natural(HOST as usize), natural(y.len()), y, hash(&package_octets(&p)).as_slice().to_vec()].concat();
        sx::check!(r.gas_used == 1 && r.export_segments.is_empty());
        sx::check!(r.output == WorkExecutionResult::ok(want));
        sx::cover(9 + i as u32);
    }
}

//@ P07 covers=4 time=100 tmul=4
//@ bound: authorization by code held since any slot, or of the largest size allowed and one octet more, echoing its arguments, or panicking; four core numbers
#[no_mangle]
pub extern "C" fn p07_authorize() {
    let how = sx::pick(0, 3);
    let code = match how {
        1 => Asm::new().op(&[0]),
        _ => Asm::new().stop(),
    };
    let blob = match how {
        2 | 3 => {
            let n = standard(&[], &[], 0, 0, &code.blob()).len();
            service_code(&standard(&vec![0; 64_000 - n + (how - 2) as usize], &[], 0, 0, &code.blob()))
        }
        _ => service_code(&code.program()),
    };
    let mut p = package();
    p.authorizer_service_id = HOST;
    p.auth_code_hash = hash(&blob);
    let since = sx::u32();
    let m = holding(HOST, &blob, since).manager();
    let core = [0, 1, 200, 0xffff][if how < 2 { sx::pick_usize(0, 3) } else { 2 }];
    let r = run(IsAuthorizedInvocation::is_authorized(m, &IsAuthorizedInvokeArgs { package: p.clone(), core_idx: core })).unwrap();
    let (want, gas) = if since > p.context.lookup_anchor_timeslot {
        sx::cover(1);
        (WorkExecutionResult::bad(), 0)
    } else {
        match how {
            1 => {
                sx::cover(2);
                (WorkExecutionResult::panic(), 1)
            }
            3 => {
                sx::cover(3);
                (WorkExecutionResult::big(), 0)
            }
            _ => {
                sx::cover(4);
                (WorkExecutionResult::ok(core.to_le_bytes().to_vec()), 1)
            }
        }
    };
    sx::check!(r.work_execution_result == want);
    sx::check!(r.gas_used == gas);
}
