//! H04: host calls of refinement: machines within the machine, exports, historical lookups and the data of the work package.
use crate::host::*;
use fr_pvm_host::context::{IsAuthorizedHostContext, RefineHostContext};
use fr_pvm_host::host_functions::refine::RefineHostFunction;
use fr_pvm_types::common::ExportDataSegment;

type Ref = RefineHostFunction<StateManager>;

struct Inner {
    m: Arc<StateManager>,
    ctx: Ctx,
    vm: VMState,
}
impl Inner {
    fn new(s: Seed, args: RefineInvokeArgs) -> Self {
        let mut memory = Memory::new(1 << 32, 4096);
        memory.set_address_range_access(RO as u32..RW as u32, AccessType::ReadOnly).unwrap();
        memory.set_address_range_access(RW as u32..END as u32, AccessType::ReadWrite).unwrap();
        let vm = VMState { regs: std::array::from_fn(|i| 0xaa00 + i as u64), memory, pc: 0, gas_counter: 1_000_000 };
        Inner { m: s.manager(), ctx: InvocationContext::X_R(RefineHostContext::new_with_invoke_args(args)), vm }
    }
    fn poke(&mut self, at: u64, b: &[u8]) {
        poke(&mut self.vm.memory, at, b)
    }
    fn regs(&mut self, v: &[u64]) {
        self.vm.regs[7..7 + v.len()].copy_from_slice(v);
    }
    fn machine(&mut self) -> HostCallResult {
        Ref::host_machine(&self.vm, &mut self.ctx).unwrap()
    }
    fn expunge(&mut self) -> HostCallResult {
        Ref::host_expunge(&self.vm, &mut self.ctx).unwrap()
    }
    fn pages(&mut self) -> HostCallResult {
        Ref::host_pages(&self.vm, &mut self.ctx).unwrap()
    }
    fn peek(&mut self) -> HostCallResult {
        Ref::host_peek(&self.vm, &mut self.ctx).unwrap()
    }
    fn poke_inner(&mut self) -> HostCallResult {
        Ref::host_poke(&self.vm, &mut self.ctx).unwrap()
    }
    fn invoke(&mut self) -> HostCallResult {
        Ref::host_invoke(&self.vm, &mut self.ctx).unwrap()
    }
    fn export(&mut self) -> HostCallResult {
        Ref::host_export(&self.vm, &mut self.ctx).unwrap()
    }
    fn lookup(&mut self) -> HostCallResult {
        run(Ref::host_historical_lookup(HOST, &self.vm, &mut self.ctx, self.m.clone())).unwrap()
    }
    fn fetch(&mut self) -> HostCallResult {
        Gen::host_fetch(&self.vm, &mut self.ctx).unwrap()
    }
    /// the machine with the given program; its number is the smallest one free
    fn load(&mut self, p: &[u8], pc: u64) -> u64 {
        self.poke(RO + 0x100, p);
        self.regs(&[RO + 0x100, p.len() as u64, pc]);
        let r = self.machine();
        sx::check!(matches!(r.exit_reason, ExitReason::Continue));
        r.vm_change.r7_write.unwrap()
    }
    fn poor(&self, r: &HostCallResult) -> bool {
        if self.vm.gas_counter < 10 {
            sx::check!(matches!(r.exit_reason, ExitReason::OutOfGas));
            sx::cover(1);
        }
        self.vm.gas_counter < 10
    }
}
/// a program: no jumps table, the code, and the octets where instructions begin
pub fn blob(code: &[u8], mask: &[u8]) -> Vec<u8> {
    [&[0, 0, code.len() as u8][..], code, mask].concat()
}
fn no_program(kinds: u64) -> Vec<u8> {
    match sx::pick(0, kinds) {
        0 => vec![],
        // an octet too much
        1 => vec![0, 0, 1, 0, 1, 0],
        // one too few
        2 => vec![0, 0, 9, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1],
        // a huge table, a huge code
        3 => vec![0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 1, 1, 0, 1],
        _ => vec![0, 0, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0, 1],
    }
}

//@ H04 covers=7 time=60 tmul=4
//@ bound: four (thorough: five) of MACHINE with one of two programs or five malformed blobs and any start, and EXPUNGE of machine 0, 1, 2, 2^32 or 2^64-1, with any gas
#[no_mangle]
pub extern "C" fn h04_machine() {
    let mut h = Inner::new(Seed::new(), RefineInvokeArgs::default());
    let mut live: BTreeMap<u64, u64> = BTreeMap::new();
    for i in 0..sx::bound(4, 5) {
        if h.vm.gas_counter < 10 {
            return;
        }
        h.vm.gas_counter = if i == 0 { sx::u64() as i64 } else { 100 };
        match sx::pick(0, 2) {
            0 => {
                let p = if sx::pick(0, 1) == 1 { blob(&[0], &[1]) } else { blob(&[1, 1, 0], &[7]) };
                let pc = sx::u64();
                h.poke(RO + 0x100, &p);
                h.regs(&[RO + 0x100, p.len() as u64, pc]);
                let r = h.machine();
                if !h.poor(&r) {
                    let n = (0..).find(|n| !live.contains_key(n)).unwrap();
                    returned(&r, n, 10);
                    live.insert(n, pc);
                    sx::cover(if n + 1 < live.len() as u64 { 2 } else { 3 });
                }
            }
            1 => {
                let p = no_program(if i == 0 || sx::thorough() { 4 } else { 0 });
                h.poke(RO + 0x100, &p);
                h.regs(&[RO + 0x100, p.len() as u64, 0]);
                let r = h.machine();
                if !h.poor(&r) {
                    returned(&r, HUH, 10);
                    sx::cover(4);
                }
            }
            _ => {
                let n = [0, 1, 2, 1 << 32, u64::MAX][sx::pick_usize(0, 4)];
                h.regs(&[n]);
                let r = h.expunge();
                if !h.poor(&r) {
                    match live.remove(&n) {
                        None => {
                            returned(&r, WHO, 10);
                            sx::cover(5);
                        }
                        Some(pc) => {
                            returned(&r, pc, 10);
                            sx::cover(if live.is_empty() { 6 } else { 7 });
                        }
                    }
                }
            }
        }
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Page {
    Shut,
    Read,
    Write,
}
/// what the inner machine's pages 16 to 18 are like: access, and the octets that are not zero
struct Ram {
    page: [Page; 3],
    data: BTreeMap<u64, u8>,
}
impl Ram {
    fn all(&self, at: u64, n: u64, ok: impl Fn(Page) -> bool) -> bool {
        (0..n).all(|i| {
            let p = (at + i) >> 12;
            (16..19).contains(&p) && ok(self.page[p as usize - 16])
        })
    }
}
fn pages_step(h: &mut Inner, ram: &mut Ram) {
    let mut n = 0;
    let (p, c, r): (u64, u64, u64) = match sx::pick(0, 7) {
        0 => [(15, 1, 2), (16, (1 << 20) - 16, 2), (16, u64::MAX, 2), (1 << 32, 1, 2), (u64::MAX, 2, 2), ((1 << 20) - 1, 1, 0), (0, 0, 1)][sx::pick_usize(0, 6)],
        1 => (16, 1, [5, 1 << 32, u64::MAX][sx::pick_usize(0, 2)]),
        2 => (16, 0, sx::pick(0, 4)),
        3 => {
            n = [1, 1 << 32][sx::pick_usize(0, 1)];
            (16, 1, 2)
        }
        k => (16 + (k & 1), 1 + (k >> 1 & 1), sx::pick(0, 4)),
    };
    h.regs(&[n, p, c, r]);
    let res = h.pages();
    if h.poor(&res) {
        return;
    }
    if n != 0 {
        returned(&res, WHO, 10);
        sx::cover(2);
        return;
    }
    let fits = r <= 4 && p >= 16 && p.checked_add(c).is_some_and(|e| e < 1 << 20);
    if !fits || r > 2 && !ram.all(p << 12, c << 12 >> 11, |_| true) || r > 2 && (p..p + c).any(|q| ram.page[q as usize - 16] == Page::Shut) {
        returned(&res, HUH, 10);
        sx::cover(if fits { 3 } else { 4 });
        return;
    }
    returned(&res, OK, 10);
    for q in p..p + c {
        ram.page[q as usize - 16] = match r {
            0 => Page::Shut,
            1 | 3 => Page::Read,
            _ => Page::Write,
        };
        if r < 3 {
            ram.data.retain(|a, _| a >> 12 != q);
        }
    }
    sx::cover(if r < 3 { 5 } else { 6 });
}
/// places in the inner memory: within a page, over the borders, outside
fn spot() -> (u64, u64) {
    [(0x10000, 4), (0x10ffe, 4), (0x11004, 4), (0x11ffe, 4), (0x12ffe, 4), (0xfffe, 4), (1 << 32 | 0x10000, 4), (0, 0)][sx::pick_usize(0, 7)]
}
fn poke_step(h: &mut Inner, ram: &mut Ram) {
    let (at, len) = spot();
    let d = sx::bytes::<4>();
    h.poke(RO + 0x40, &d);
    h.regs(&[0, RO + 0x40, at, len]);
    let r = h.poke_inner();
    if !ram.all(at, len, |p| p == Page::Write) {
        returned(&r, OOB, 10);
        sx::cover(7);
    } else {
        returned(&r, OK, 10);
        for i in 0..len {
            ram.data.insert(at + i, d[i as usize]);
        }
        sx::cover(8);
    }
}
fn peek_step(h: &mut Inner, ram: &Ram) {
    let (at, len) = spot();
    h.regs(&[0, RW + 8, at, len]);
    let r = h.peek();
    if !ram.all(at, len, |p| p != Page::Shut) {
        returned(&r, OOB, 10);
        sx::cover(9);
        return;
    }
    sx::check!(matches!(r.exit_reason, ExitReason::Continue));
    sx::check!(r.vm_change.gas_charge == 10 && r.vm_change.r7_write == Some(OK));
    let d = r.vm_change.memory_write.as_ref().map_or(&[][..], |w| w.write_data.as_slice());
    sx::check!(d.len() as u64 == len);
    if len > 0 {
        sx::check!(r.vm_change.memory_write.as_ref().unwrap().buf_offset as u64 == RW + 8);
        for i in 0..len {
            sx::check!(d[i as usize] == *ram.data.get(&(at + i)).unwrap_or(&0));
        }
        sx::cover(10);
    }
}

//@ H04 covers=10 time=100 tmul=4
//@ bound: a machine with two writable pages and octets poked over their border; then one or two (thorough: up to three) of PAGES (any mode, ranges over three pages, seven impossible ranges, unknown machines), POKE and PEEK (seven places, four octets or none), and a PEEK; any gas for the first; all octets poked
#[no_mangle]
pub extern "C" fn h04_pages() {
    let mut h = Inner::new(Seed::new(), RefineInvokeArgs::default());
    let n = h.load(&blob(&[0], &[1]), 0);
    sx::check!(n == 0);
    let mut ram = Ram { page: [Page::Shut; 3], data: BTreeMap::new() };
    if sx::pick(0, 1) == 1 {
        h.regs(&[0, 16, 2, 2]);
        returned(&h.pages(), OK, 10);
        ram.page = [Page::Write, Page::Write, Page::Shut];
        let d = sx::bytes::<4>();
        h.poke(RO + 0x40, &d);
        h.regs(&[0, RO + 0x40, 0x10ffe, 4]);
        returned(&h.poke_inner(), OK, 10);
        for i in 0..4 {
            ram.data.insert(0x10ffe + i, d[i as usize]);
        }
    }
    h.vm.gas_counter = sx::u64() as i64;
    pages_step(&mut h, &mut ram);
    if h.vm.gas_counter < 10 {
        return;
    }
    h.vm.gas_counter = 100;
    for _ in 0..sx::bound(1, 2) {
        match sx::pick(0, 2) {
            0 => pages_step(&mut h, &mut ram),
            1 => poke_step(&mut h, &mut ram),
            _ => {}
        }
    }
    peek_step(&mut h, &ram);
}

/// the machine's gas and registers, as they lie in the memory of the host's machine
fn frame(gas: u64, regs: &[u64; 13]) -> Vec<u8> {
    let mut b = gas.to_le_bytes().to_vec();
    for r in regs {
        b.extend(r.to_le_bytes());
    }
    b
}
/// results of INVOKE
const HALT: u64 = 0;
const PANIC: u64 = 1;
const FAULT: u64 = 2;
const CALL: u64 = 3;
const OOG: u64 = 4;
/// the address that halts a program
const STOP: u64 = (1 << 32) - (1 << 16);

/// the invocation returned `code` and `more`, and wrote back gas and registers
fn ended(r: &HostCallResult, code: u64, more: Option<u64>, after: Option<(u64, &[u64; 13])>) {
    sx::check!(matches!(r.exit_reason, ExitReason::Continue));
    sx::check!(r.vm_change.gas_charge == 10);
    sx::check!(r.vm_change.r7_write == Some(code));
    sx::check!(r.vm_change.r8_write == more);
    let w = r.vm_change.memory_write.as_ref().unwrap();
    sx::check!(w.buf_offset as u64 == RW + 0x20 && w.write_data.as_slice().len() == 112);
    if let Some((gas, regs)) = after {
        for (x, y) in w.write_data.as_slice().iter().zip(frame(gas, regs)) {
            sx::check!(*x == y);
        }
    }
}
fn go(h: &mut Inner, n: u64, gas: u64, regs: &[u64; 13]) -> HostCallResult {
    h.poke(RW + 0x20, &frame(gas, regs));
    h.regs(&[n, RW + 0x20]);
    h.invoke()
}
fn any_regs() -> [u64; 13] {
    std::array::from_fn(|_| sx::u64())
}

//@ H04 covers=11 time=60 tmul=4
//@ bound: a program calling the host (known and unknown calls), then jumping to any register, run twice; programs loading from or storing to a page that is shut, read-only or writable, run again after a fault; any gas and registers; known and unknown machines
#[no_mangle]
pub extern "C" fn h04_invoke() {
    let mut h = Inner::new(Seed::new(), RefineInvokeArgs::default());
    h.vm.gas_counter = sx::u64() as i64;
    if h.vm.gas_counter < 10 {
        let r = go(&mut h, 0, sx::u64(), &any_regs());
        h.poor(&r);
        return;
    }
    if sx::pick(0, 1) == 1 {
        calls(&mut h)
    } else {
        loads(&mut h)
    }
}
fn calls(h: &mut Inner) {
    // another machine, which must not be run instead
    h.load(&blob(&[0], &[1]), 0);
    // load_imm r1, 9; ecalli id; jump_ind r0
    let id = [7, 28, 100, 0x1234, -1][sx::pick_usize(0, 4)];
    let n = if id == 0x1234 || id == -1 {
        let [a, b] = (id as i16).to_le_bytes();
        h.load(&blob(&[51, 1, 9, 10, a, b, 50, 0], &[0b1001001]), 0)
    } else {
        h.load(&blob(&[51, 1, 9, 10, id as u8, 50, 0], &[0b101001]), 0)
    };
    if sx::pick(0, 2) == 0 {
        let r = go(h, [2, 1 << 32, u64::MAX][sx::pick_usize(0, 2)], sx::u64(), &any_regs());
        returned(&r, WHO, 10);
        sx::cover(2);
        return;
    }
    let (gas, mut regs) = (sx::u64(), any_regs());
    let r = go(h, n, gas, &regs);
    if gas < 2 {
        ended(&r, OOG, None, None);
        sx::cover(3);
        return;
    }
    regs[1] = 9;
    ended(&r, CALL, Some(id as i64 as u64), Some((gas - 2, &regs)));
    sx::cover(4);
    // it goes on after the call, with whatever gas and registers it is given
    let (gas, regs) = (sx::u64(), any_regs());
    let r = go(h, n, gas, &regs);
    if gas < 1 {
        ended(&r, OOG, None, None);
        sx::cover(5);
    } else if regs[0] as u32 as u64 == STOP {
        ended(&r, HALT, None, Some((gas - 1, &regs)));
        sx::cover(6);
    } else {
        ended(&r, PANIC, None, Some((gas - 1, &regs)));
        sx::cover(7);
    }
}
fn loads(h: &mut Inner) {
    let store = sx::pick(0, 1) == 1;
    let at = [0x10000u32, 0x11fff][sx::pick_usize(0, 1)];
    let a = at.to_le_bytes();
    // load_u8 or store_u8 r2, at; trap
    let n = h.load(&blob(&[if store { 59 } else { 52 }, 2, a[0], a[1], a[2], a[3], 0], &[0b1000001]), 0);
    let mode = sx::pick(0, 2);
    if mode > 0 {
        h.regs(&[n, 16, 2, 2]);
        returned(&h.pages(), OK, 10);
        h.poke(RO + 0x40, &[0x9d]);
        h.regs(&[n, RO + 0x40, at as u64, 1]);
        returned(&h.poke_inner(), OK, 10);
        h.regs(&[n, 16, 2, 2 + mode]);
        // 3: read-only, 4: writable
        returned(&h.pages(), OK, 10);
    }
    let (gas, mut regs) = (sx::u64(), any_regs());
    sx::assume(gas >= 2);
    let r = go(h, n, gas, &regs);
    let mut v = if mode > 0 { 0x9d } else { 0 };
    if mode == 0 || store && mode == 1 {
        ended(&r, FAULT, Some(at as u64 & !4095), None);
        sx::cover(8);
        // with the page allowed, the instruction is done after all
        h.regs(&[n, 16, 2, if mode == 0 { 2 } else { 4 }]);
        returned(&h.pages(), OK, 10);
        let r = go(h, n, gas, &regs);
        if !store {
            regs[2] = 0;
        }
        ended(&r, PANIC, None, Some((gas - 2, &regs)));
        sx::cover(9);
    } else {
        if !store {
            regs[2] = v as u64;
        }
        ended(&r, PANIC, None, Some((gas - 2, &regs)));
        sx::cover(10);
    }
    if store {
        v = regs[2] as u8;
    }
    h.regs(&[n, RW, at as u64, 1]);
    let r = h.peek();
    let w = r.vm_change.memory_write.unwrap();
    sx::check!(w.write_data.as_slice() == [v]);
    sx::cover(11);
}

//@ H04 covers=5 time=60 tmul=4
//@ bound: two EXPORTs of five lengths and four octets at either end of any value, from either page or over the end, with 0, 3070, 3071 or 3072 segments exported by earlier items, any gas
#[no_mangle]
pub extern "C" fn h04_export() {
    let before = [0, 3070, 3071, 3072][sx::pick_usize(0, 3)];
    let mut h = Inner::new(Seed::new(), RefineInvokeArgs { export_segments_offset: before as usize, ..Default::default() });
    let mut out: Vec<Vec<u8>> = vec![];
    for i in 0..2 {
        h.vm.gas_counter = if i == 0 { sx::u64() as i64 } else { 10 };
        let len = [0, 5, 4103, 4104, 4105, u64::MAX][sx::pick_usize(0, 5)];
        let p = [RO + 8, END - 4104, END - 4103][sx::pick_usize(0, 2)];
        let n = len.min(4104);
        let mut d: Vec<u8> = (0..4104u32).map(|k| (k ^ k >> 8) as u8 ^ i).collect();
        d[..2].copy_from_slice(&sx::bytes::<2>());
        d[3..5].copy_from_slice(&sx::bytes::<2>());
        d[4102..].copy_from_slice(&sx::bytes::<2>());
        h.poke(p, &d);
        h.regs(&[p, len]);
        let r = h.export();
        if h.poor(&r) {
        } else if !readable(p, n) {
            sx::check!(panicked(&r));
            sx::cover(2);
        } else if before + out.len() as u64 >= 3072 {
            returned(&r, FULL, 10);
            sx::cover(3);
        } else {
            returned(&r, before + out.len() as u64, 10);
            d.truncate(n as usize);
            d.resize(4104, 0);
            out.push(d);
            sx::cover(if n < 4104 { 4 } else { 5 });
        }
        let x = h.ctx.get_refine_x().unwrap();
        sx::check!(x.export_segments.len() == out.len());
        for (s, d) in x.export_segments.iter().zip(&out) {
            sx::check!(s.as_ref().len() == 4104);
            sx::check!(sx::same(s.as_ref(), d));
        }
    }
}

//@ H04 covers=6 time=60 tmul=4
//@ bound: HISTORICAL_LOOKUP for the own service, another one, none or no number at all, which hold the blob or not, requested with up to three slots of any value, at any lookup anchor; any gas, offset and length; readable or unreadable hash, five places for the result
#[no_mangle]
pub extern "C" fn h04_lookup() {
    let data: &[u8] = &[9, 8, 7];
    let hsh = hash(data);
    let owner = [HOST, PEER][sx::pick_usize(0, 1)];
    let own_exists = sx::pick(0, 1) == 1;
    let mut a = plain(1);
    let n = sx::pick_usize(0, 3);
    let t: Vec<u32> = (0..n).map(|_| sx::u32()).collect();
    a.held.insert(data.to_vec(), ());
    a.asked.insert((data.to_vec(), 3), t.clone());
    let mut s = Seed::new();
    if owner == PEER || own_exists {
        s = seed_acct(s, owner, &a);
    }
    if owner == PEER && own_exists {
        s = seed_acct(s, HOST, &plain(2));
    }
    let anchor = sx::u32();
    let mut args = RefineInvokeArgs::default();
    args.package.context.lookup_anchor_timeslot = anchor;
    let mut h = Inner::new(s, args);
    h.vm.gas_counter = sx::u64() as i64;
    let who = [HOST as u64, PEER as u64, u64::MAX, 5, 1 << 32 | PEER as u64][sx::pick_usize(0, 4)];
    let known = sx::pick(0, 1) == 1;
    h.poke(RO + 0x40, if known { hsh.as_slice() } else { &[1; 32] });
    let (off, len) = (sx::u64(), sx::u64());
    let p = place();
    let q = [RO + 0x40, END - 31][if p == RW + 64 { sx::pick_usize(0, 1) } else { 0 }];
    h.regs(&[who, q, p, off, len]);
    let r = h.lookup();
    if h.poor(&r) {
        return;
    }
    let target = if who == u64::MAX && own_exists { HOST as u64 } else { who };
    let found = known
        && target == owner as u64
        && (owner == PEER || own_exists)
        && match t[..] {
            [x] => x <= anchor,
            [x, y] => x <= anchor && anchor < y,
            [x, y, z] => x <= anchor && anchor < y || z <= anchor,
            _ => false,
        };
    let from = off.min(3);
    let l = len.min(3 - from);
    if !readable(q, 32) {
        sx::check!(panicked(&r));
        sx::cover(2);
    } else if !found {
        returned(&r, NONE, 10);
        sx::cover(3);
    } else if !writable(p, l) {
        sx::check!(panicked(&r));
        sx::cover(4);
    } else {
        delivered(&r, data, from, l, p);
        sx::cover(if who == u64::MAX { 5 } else { 6 });
    }
}

fn natural(n: u64) -> Vec<u8> {
    if n < 128 { vec![n as u8] } else { vec![0x80 | (n >> 8) as u8, n as u8] }
}
fn item(i: u8) -> WorkItem {
    WorkItem {
        service_id: sx::u32(),
        service_code_hash: h32(lab(i, 1)),
        refine_gas_limit: sx::u64(),
        accumulate_gas_limit: sx::u64(),
        export_segment_count: sx::u16(),
        payload_blob: Octets::from_vec(if i == 0 { sx::vec(3) } else { vec![] }),
        import_segment_ids: (0..2 * i)
            .map(|k| ImportInfo {
                work_package_id: if k == 0 { WorkPackageId::SegmentRoot(h32(sx::bytes())) } else { WorkPackageId::WorkPackageHash(h32(sx::bytes())) },
                item_index: sx::u16() >> 1,
            })
            .collect(),
        extrinsic_data_info: (0..2 - i as u32).map(|k| ExtrinsicInfo { blob_hash: h32(lab(i, 50 + k as u8)), blob_length: 300 + k }).collect(),
    }
}
fn item_octets(w: &WorkItem) -> Vec<u8> {
    let mut b = vec![];
    b.extend(w.service_id.to_le_bytes());
    b.extend(w.service_code_hash.as_slice());
    b.extend(w.refine_gas_limit.to_le_bytes());
    b.extend(w.accumulate_gas_limit.to_le_bytes());
    b.extend(w.export_segment_count.to_le_bytes());
    b.extend(natural(w.payload_blob.len() as u64));
    b.extend(w.payload_blob.as_slice());
    b.push(w.import_segment_ids.len() as u8);
    for i in &w.import_segment_ids {
        let (hsh, flag) = match &i.work_package_id {
            WorkPackageId::SegmentRoot(hsh) => (hsh, 0),
            WorkPackageId::WorkPackageHash(hsh) => (hsh, 1 << 15),
        };
        b.extend(hsh.as_slice());
        b.extend((i.item_index | flag).to_le_bytes());
    }
    b.push(w.extrinsic_data_info.len() as u8);
    for x in &w.extrinsic_data_info {
        b.extend(x.blob_hash.as_slice());
        b.extend(x.blob_length.to_le_bytes());
    }
    b
}
fn summary(w: &WorkItem) -> Vec<u8> {
    let mut b = vec![];
    b.extend(w.service_id.to_le_bytes());
    b.extend(w.service_code_hash.as_slice());
    b.extend(w.refine_gas_limit.to_le_bytes());
    b.extend(w.accumulate_gas_limit.to_le_bytes());
    b.extend(w.export_segment_count.to_le_bytes());
    b.extend((w.import_segment_ids.len() as u16).to_le_bytes());
    b.extend((w.extrinsic_data_info.len() as u16).to_le_bytes());
    b.extend((w.payload_blob.len() as u32).to_le_bytes());
    b
}
fn context_octets(c: &RefinementContext) -> Vec<u8> {
    let mut b = vec![];
    for f in [&c.anchor_header_hash, &c.anchor_state_root, &c.anchor_beefy_root, &c.lookup_anchor_header_hash] {
        b.extend(f.as_slice());
    }
    b.extend(c.lookup_anchor_timeslot.to_le_bytes());
    b.push(c.prerequisite_work_packages.len() as u8);
    for p in &c.prerequisite_work_packages {
        b.extend(p.as_slice());
    }
    b
}
pub fn package() -> WorkPackage {
    WorkPackage {
        authorizer_service_id: sx::u32(),
        auth_code_hash: h32(sx::bytes()),
        context: RefinementContext {
            anchor_header_hash: h32(lab(1, 1)),
            anchor_state_root: h32(sx::bytes()),
            anchor_beefy_root: h32(lab(1, 3)),
            lookup_anchor_header_hash: h32(lab(1, 4)),
            lookup_anchor_timeslot: sx::u32(),
            prerequisite_work_packages: [h32(lab(1, 6))].into(),
        },
        auth_token: Octets::from_vec(sx::vec(3)),
        config_blob: Octets::from_vec((0..130).collect()),
        work_items: vec![item(0), item(1)].try_into().unwrap(),
    }
}
pub fn package_octets(p: &WorkPackage) -> Vec<u8> {
    let mut b = vec![];
    b.extend(p.authorizer_service_id.to_le_bytes());
    b.extend(p.auth_code_hash.as_slice());
    b.extend(context_octets(&p.context));
    for o in [&p.auth_token, &p.config_blob] {
        b.extend(natural(o.len() as u64));
        b.extend(o.as_slice());
    }
    b.push(p.work_items.len() as u8);
    for w in p.work_items.iter() {
        b.extend(item_octets(w));
    }
    b
}

//@ H04 covers=8 time=60 tmul=4
//@ bound: FETCH of every kind but 11 in refinement and authorization, for a package of two items with figures and some octets of any value, and imports and extrinsics of some items; item and entry numbers up to one too many and 2^64-1; four offsets and lengths
#[no_mangle]
pub extern "C" fn h04_fetch() {
    let p = package();
    let refining = sx::pick(0, 1) == 1;
    let item_idx = if refining { sx::pick_usize(0, 1) } else { 0 };
    let trace = sx::vec(2);
    let seg = |i: u8| -> (Vec<u8>, ExportDataSegment) {
        let mut v: Vec<u8> = vec![i; 4104];
        v[..2].copy_from_slice(&sx::bytes::<2>());
        (v.clone(), v.try_into().ok().unwrap())
    };
    let imports: Vec<Vec<_>> = vec![vec![], vec![seg(1), seg(2)]];
    // the first item's extrinsics, and nothing of the second's
    let xts = [sx::vec(3), sx::vec(4)];
    let mut h = Inner::new(
        Seed::new(),
        RefineInvokeArgs {
            core_idx: 1,
            item_idx,
            package: p.clone(),
            auth_trace: trace.clone(),
            import_segments: imports.iter().map(|v| v.iter().map(|s| s.1.clone()).collect()).collect(),
            export_segments_offset: 0,
            extrinsic_data_map: p.work_items[0].extrinsic_data_info.iter().cloned().zip(xts.iter().cloned()).collect(),
        },
    );
    if !refining {
        h.ctx = InvocationContext::X_I(IsAuthorizedHostContext::new(IsAuthorizedInvokeArgs { package: p.clone(), core_idx: 1 }));
    }
    h.vm.gas_counter = sx::u64() as i64;
    let id = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13, 14, 15, u64::MAX][sx::pick_usize(0, 15)];
    let any = [0, 1, 2, u64::MAX];
    let i = if [3, 4, 5, 6, 12, 13].contains(&id) { any[sx::pick_usize(0, 3)] } else { 0 };
    let j = if [3, 5].contains(&id) { any[sx::pick_usize(0, 3)] } else { 0 };
    let at = |v: Option<&Vec<u8>>| v.cloned();
    let item = |i: u64| p.work_items.iter().nth(i.min(99) as usize);
    let xt = |i: u64, j: u64| if i == 0 { at(xts.get(j.min(99) as usize)) } else { None };
    let import = |i: u64, j: u64| at(imports.get(i.min(99) as usize).and_then(|v| v.get(j.min(99) as usize)).map(|s| &s.0));
    let own = item_idx as u64;
    // the second item's only extrinsic is not known
    let data: Option<Vec<u8>> = match id {
        0 => None,
        1 if refining => Some(vec![0; 32]),
        2 if refining => Some(trace),
        3 if refining => xt(i, j),
        4 if refining => xt(own, i),
        5 if refining => import(i, j),
        6 if refining => import(own, i),
        7 => Some(package_octets(&p)),
        8 => Some(p.config_blob.to_vec()),
        9 => Some(p.auth_token.to_vec()),
        10 => Some(context_octets(&p.context)),
        12 => item(i).map(summary),
        13 => item(i).map(|w| w.payload_blob.to_vec()),
        _ => None,
    };
    let n = data.as_ref().map_or(0, |d| d.len() as u64);
    let (off, len) = if id == 0 { (0, 3) } else { [(0, u64::MAX), (1, n), (u64::MAX, 5), (n.saturating_sub(2), 1)][sx::pick_usize(0, 3)] };
    let from = off.min(n);
    let l = len.min(n - from);
    // (a segment does not fit after 0x20)
    let to = [RW - 1, RW + 0x20][sx::pick_usize(0, 1)];
    h.regs(&[to, off, len, id, i, j]);
    let r = h.fetch();
    if h.poor(&r) {
        return;
    }
    match data {
        _ if id == 0 => {
            // (all of it is compared for accumulation)
            if to == RW - 1 {
                sx::check!(panicked(&r));
            } else {
                let w = r.vm_change.memory_write.unwrap();
                sx::check!(w.buf_offset as u64 == to && w.write_data.as_slice() == [10, 0, 0]);
                sx::cover(2);
            }
        }
        None => {
            returned(&r, NONE, 10);
            sx::cover(3);
        }
        Some(_) if !writable(to, l) => {
            sx::check!(panicked(&r) && r.vm_change.memory_write.is_none());
            sx::cover(4);
        }
        Some(d) => {
            delivered(&r, &d, from, l, to);
            sx::cover(match id {
                1 | 2 => 5,
                3..=6 => 6,
                12 | 13 => 7,
                _ => 8,
            });
        }
    }
}

//@ H04 covers=2 time=60 tmul=4
//@ bound: MACHINE, PEEK, POKE, INVOKE or EXPORT whose range lies in either page, across any border, outside, below the low zone's end or at any address from 2^32, for a known or unknown machine
#[no_mangle]
pub extern "C" fn h04_access() {
    let mut h = Inner::new(Seed::new(), RefineInvokeArgs::default());
    h.load(&blob(&[0], &[1]), 0);
    h.regs(&[0, 16, 1, 2]);
    returned(&h.pages(), OK, 10);
    let p = place();
    let n = sx::pick(0, 1);
    let len = [0, 2, 1 << 32, u64::MAX][sx::pick_usize(0, 3)];
    let (r, clean) = match sx::pick(0, 4) {
        0 => {
            sx::assume(len == 2 && n == 0);
            h.regs(&[p, 2, 0]);
            (h.machine(), readable(p, 2))
        }
        1 => {
            h.regs(&[n, p, 0x10000, len]);
            (h.peek(), len < 1 << 32 && writable(p, len))
        }
        2 => {
            h.regs(&[n, p, 0x10000, len]);
            (h.poke_inner(), len < 1 << 32 && readable(p, len))
        }
        3 => {
            sx::assume(len == 2);
            h.regs(&[n, p]);
            (h.invoke(), writable(p, 112))
        }
        _ => {
            sx::assume(n == 0);
            h.regs(&[p, len]);
            (h.export(), readable(p, len.min(4104)))
        }
    };
    sx::check!(panicked(&r) == !clean);
    if clean {
        sx::check!(matches!(r.exit_reason, ExitReason::Continue));
        if n == 1 {
            returned(&r, WHO, 10);
        }
        sx::cover(1);
    } else {
        sx::check!(h.ctx.get_refine_x().unwrap().export_segments.is_empty());
        sx::cover(2);
    }
}
