//! A simulated Solana runtime: account store, clock, atomic transactions, CPI, the System program
//! (stub, below) and the real SPL Token processor, all inside this process and single threaded per
//! simulation run.  The program under test is the real code from /repo, called either through its
//! instruction processor or through its real serialized-buffer entrypoint.

use solana_program::{
    account_info::AccountInfo,
    clock::Clock,
    entrypoint::MAX_PERMITTED_DATA_INCREASE,
    instruction::Instruction,
    program_error::ProgramError,
    program_stubs::{set_syscall_stubs, SyscallStubs},
    pubkey::Pubkey,
    rent::Rent,
    system_instruction::SystemInstruction,
    system_program, sysvar,
};
use std::{
    alloc::{GlobalAlloc, Layout, System},
    cell::{Cell, RefCell},
    collections::{BTreeMap, BTreeSet},
    panic::{catch_unwind, AssertUnwindSafe},
    rc::Rc,
    sync::{
        atomic::{AtomicU64, Ordering},
        Arc, Once,
    },
};

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Acct {
    pub lamports: u64,
    pub data: Arc<Vec<u8>>,
    pub owner: Pubkey,
    pub executable: bool,
}

#[derive(Clone, Default)]
pub struct Bank {
    pub accts: BTreeMap<Pubkey, Acct>,
    pub now: i64,
    pub slot: u64,
    /// what a byte costs on this cluster, in lamports per year
    pub rent_rate: u64,
}

/// A program id that always fails: used as a trailing instruction to abort a transaction after the
/// program's own instructions have succeeded.
pub fn tail_fail_id() -> Pubkey {
    Pubkey::new_from_array([0xfa; 32])
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct TxOut {
    pub ok: bool,
    pub err: Option<String>,
    pub ret: Option<Vec<u8>>,
    pub syscalls: u32,
    pub cpis: u32,
    pub cpi_injected: bool,
    pub aborted: bool,
    pub panicked: bool,
    pub wire_used: bool,
    pub failed_ix: usize,
    /// the most memory one of the instructions asked for
    pub heap: usize,
}

#[derive(Clone, Copy, Debug, Default)]
pub struct TxFault {
    /// abort the whole transaction at the k-th runtime call (compute budget exhausted, validator
    /// crash before commit)
    pub abort_at: Option<u32>,
    /// fail the k-th cross program call
    pub cpi_fail_at: Option<u32>,
}

// ---------------------------------------------------------------------------------------------
// account records: exactly the layout the real runtime hands to a program, so that realloc/assign
// work, with account data at a 16-byte boundary.

const HDR: usize = 96; // offset of the data inside the buffer; the record itself starts at 8
const OFF_ORIG: usize = 12;
const OFF_KEY: usize = 16;
const OFF_OWNER: usize = 48;
const OFF_LAMPORTS: usize = 80;
const OFF_LEN: usize = 88;

struct Rec {
    buf: Vec<u128>,
    signer: bool,
    writable: bool,
    executable: bool,
    snap: Snap,
}

#[derive(Clone)]
struct Snap {
    lamports: u64,
    data: Arc<Vec<u8>>,
    owner: Pubkey,
}

impl Rec {
    fn new(key: &Pubkey, a: &Acct, signer: bool, writable: bool) -> Rec {
        let total = HDR + a.data.len() + MAX_PERMITTED_DATA_INCREASE + 16;
        let mut r = Rec {
            buf: vec![0u128; total / 16 + 1],
            signer,
            writable,
            executable: a.executable,
            snap: Snap {
                lamports: a.lamports,
                data: a.data.clone(),
                owner: a.owner,
            },
        };
        let b = r.bytes_mut();
        b[8] = 0xff;
        b[9] = signer as u8;
        b[10] = writable as u8;
        b[11] = a.executable as u8;
        b[OFF_ORIG..OFF_ORIG + 4].copy_from_slice(&(a.data.len() as u32).to_le_bytes());
        b[OFF_KEY..OFF_KEY + 32].copy_from_slice(key.as_ref());
        b[OFF_OWNER..OFF_OWNER + 32].copy_from_slice(a.owner.as_ref());
        b[OFF_LAMPORTS..OFF_LAMPORTS + 8].copy_from_slice(&a.lamports.to_le_bytes());
        b[OFF_LEN..OFF_LEN + 8].copy_from_slice(&(a.data.len() as u64).to_le_bytes());
        b[HDR..HDR + a.data.len()].copy_from_slice(&a.data);
        r
    }
    fn base(&self) -> *mut u8 {
        self.buf.as_ptr() as *mut u8
    }
    fn bytes_mut(&mut self) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.buf.as_mut_ptr() as *mut u8, self.buf.len() * 16) }
    }
    fn key(&self) -> Pubkey {
        unsafe { *(self.base().add(OFF_KEY) as *const Pubkey) }
    }
    fn owner(&self) -> Pubkey {
        unsafe { std::ptr::read_volatile(self.base().add(OFF_OWNER) as *const Pubkey) }
    }
    fn lamports(&self) -> u64 {
        unsafe { std::ptr::read_volatile(self.base().add(OFF_LAMPORTS) as *const u64) }
    }
    fn len(&self) -> usize {
        unsafe { std::ptr::read_volatile(self.base().add(OFF_LEN) as *const u64) as usize }
    }
    fn data(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.base().add(HDR), self.len()) }
    }
    fn info(&self) -> AccountInfo<'static> {
        unsafe {
            let p = self.base();
            AccountInfo {
                key: &*(p.add(OFF_KEY) as *const Pubkey),
                lamports: Rc::new(RefCell::new(&mut *(p.add(OFF_LAMPORTS) as *mut u64))),
                data: Rc::new(RefCell::new(std::slice::from_raw_parts_mut(
                    p.add(HDR),
                    self.len(),
                ))),
                owner: &*(p.add(OFF_OWNER) as *const Pubkey),
                rent_epoch: u64::MAX,
                is_signer: self.signer,
                is_writable: self.writable,
                executable: self.executable,
            }
        }
    }
    fn changed(&self) -> bool {
        self.lamports() != self.snap.lamports
            || self.owner() != self.snap.owner
            || self.data() != &self.snap.data[..]
    }
    fn resnap(&mut self) {
        if self.changed() {
            let data = if self.data() == &self.snap.data[..] {
                self.snap.data.clone()
            } else {
                Arc::new(self.data().to_vec())
            };
            self.snap = Snap {
                lamports: self.lamports(),
                data,
                owner: self.owner(),
            };
        }
    }
}

/// The runtime's rules for what an instruction of `program` may have done to an account.
fn verify(
    program: &Pubkey,
    pre: &Snap,
    writable: bool,
    executable: bool,
    post_owner: &Pubkey,
    post_lamports: u64,
    post_data: &[u8],
) -> Result<(), String> {
    let data_changed = post_data != &pre.data[..];
    if *post_owner != pre.owner
        && (!writable || pre.owner != *program || post_data.iter().any(|b| *b != 0))
    {
        return Err("ModifiedProgramId".into());
    }
    if post_lamports != pre.lamports {
        if !writable {
            return Err("ReadonlyLamportChange".into());
        }
        if executable {
            return Err("ExecutableLamportChange".into());
        }
        if post_lamports < pre.lamports && pre.owner != *program {
            return Err("ExternalAccountLamportSpend".into());
        }
    }
    if data_changed {
        if !writable {
            return Err("ReadonlyDataModified".into());
        }
        if executable {
            return Err("ExecutableDataModified".into());
        }
        if pre.owner != *program {
            return Err("ExternalAccountDataModified".into());
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// per-thread execution context used by the syscall seam

struct Ctx {
    program: Pubkey,
    clock: Clock,
    rent: Rent,
    ret: Option<(Pubkey, Vec<u8>)>,
    syscalls: u32,
    cpis: u32,
    cpi_injected: bool,
    fault: TxFault,
    cpi_err: Option<String>,
    /// (snapshot, writable) of every account of the running top-level instruction
    recs: Vec<Rec>,
    /// the account infos handed out by the wire entrypoint live in another buffer; then `recs` is
    /// empty and snapshots are keyed here
    wire: Vec<WireAcct>,
}

struct WireAcct {
    key: Pubkey,
    off: usize, // start of the record in the buffer
    base: *mut u8,
    snap: Snap,
    writable: bool,
    executable: bool,
}

impl WireAcct {
    fn owner(&self) -> Pubkey {
        unsafe { std::ptr::read_unaligned(self.base.add(self.off + 40) as *const Pubkey) }
    }
    fn lamports(&self) -> u64 {
        unsafe { std::ptr::read_unaligned(self.base.add(self.off + 72) as *const u64) }
    }
    fn len(&self) -> usize {
        unsafe { std::ptr::read_unaligned(self.base.add(self.off + 80) as *const u64) as usize }
    }
    fn data(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.base.add(self.off + 88), self.len()) }
    }
    fn resnap(&mut self) {
        let data = if self.data() == &self.snap.data[..] {
            self.snap.data.clone()
        } else {
            Arc::new(self.data().to_vec())
        };
        self.snap = Snap {
            lamports: self.lamports(),
            data,
            owner: self.owner(),
        };
    }
}

/// The largest heap a transaction can ask the real runtime for.  A program's allocator never takes
/// memory back, so what counts is the sum of all requests made during one instruction.  (The
/// default is an eighth of this.  It is not enforced, as the other resource limits of the chain are
/// not; the evidence reports the largest use.)
pub const HEAP: usize = 256 * 1024 - 8;

thread_local! {
    static HEAP_ON: Cell<bool> = const { Cell::new(false) };
    static HEAP_USED: Cell<usize> = const { Cell::new(0) };
}

struct Heap;

fn heap_take(l: &Layout) {
    HEAP_ON.with(|on| {
        if on.get() {
            HEAP_USED.with(|u| u.set(u.get() + l.size() + (l.align() - 1) / 8 * 8));
        }
    });
}

unsafe impl GlobalAlloc for Heap {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        heap_take(&l);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        heap_take(&l);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        heap_take(&Layout::from_size_align_unchecked(n, l.align()));
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static HEAP_ALLOC: Heap = Heap;

/// Switches the accounting for as long as it lives.
struct HeapScope(bool);
impl HeapScope {
    fn set(on: bool) -> HeapScope {
        HeapScope(HEAP_ON.with(|h| h.replace(on)))
    }
}
impl Drop for HeapScope {
    fn drop(&mut self) {
        HEAP_ON.with(|h| h.set(self.0));
    }
}

thread_local! {
    static CTX: RefCell<Option<Ctx>> = const { RefCell::new(None) };
}

thread_local! {
    static CAPTURE: RefCell<Option<Vec<(Instruction, Vec<Pubkey>, Vec<Vec<Vec<u8>>>)>>> = const { RefCell::new(None) };
    static DUMMY: RefCell<BTreeMap<Pubkey, &'static DummyAcct>> = const { RefCell::new(BTreeMap::new()) };
}

struct DummyAcct {
    key: Pubkey,
    owner: Pubkey,
}

/// An account handle with nothing behind it, for code that only forwards handles.
pub fn dummy_info(k: Pubkey) -> AccountInfo<'static> {
    let d = DUMMY.with(|m| {
        *m.borrow_mut().entry(k).or_insert_with(|| {
            Box::leak(Box::new(DummyAcct {
                key: k,
                owner: system_program::id(),
            }))
        })
    });
    AccountInfo {
        key: &d.key,
        lamports: Rc::new(RefCell::new(Box::leak(Box::new(0u64)))),
        data: Rc::new(RefCell::new(&mut [])),
        owner: &d.owner,
        rent_epoch: 0,
        is_signer: true,
        is_writable: true,
        executable: false,
    }
}

/// Runs `f` and returns the single cross program call it makes, if every account the call names
/// was also handed over and the call is signed with `seeds`.
pub fn capture<F: FnOnce() -> Result<(), ProgramError>>(seeds: &[&[&[u8]]], f: F) -> Option<Instruction> {
    install_seam();
    CAPTURE.with(|c| *c.borrow_mut() = Some(vec![]));
    let r = catch_unwind(AssertUnwindSafe(f));
    let got = CAPTURE.with(|c| c.borrow_mut().take()).unwrap_or_default();
    match r {
        Ok(Ok(())) if got.len() == 1 => {
            let (ix, have, sd) = got.into_iter().next().unwrap();
            (ix.accounts.iter().all(|m| have.contains(&m.pubkey)) && sd == owned(seeds)).then_some(ix)
        }
        _ => None,
    }
}

fn owned(seeds: &[&[&[u8]]]) -> Vec<Vec<Vec<u8>>> {
    seeds.iter().map(|s| s.iter().map(|x| x.to_vec()).collect()).collect()
}

thread_local! {
    /// odd while this thread is inside a transaction
    pub static BUSY: Arc<AtomicU64> = Arc::new(AtomicU64::new(0));
}

struct Busy(Arc<AtomicU64>);
impl Busy {
    fn new() -> Busy {
        let b = BUSY.with(|b| b.clone());
        b.fetch_add(1, Ordering::SeqCst);
        Busy(b)
    }
}
impl Drop for Busy {
    fn drop(&mut self) {
        self.0.fetch_add(1, Ordering::SeqCst);
    }
}

struct AbortTx;
const CODE_ERR: u64 = 1;

fn tick() {
    let abort = CTX.with(|c| {
        let mut c = c.borrow_mut();
        if let Some(c) = c.as_mut() {
            c.syscalls += 1;
            return c.fault.abort_at == Some(c.syscalls);
        }
        false
    });
    if abort {
        std::panic::panic_any(AbortTx);
    }
}

struct Stubs;
impl SyscallStubs for Stubs {
    fn sol_log(&self, _m: &str) {
        let _h = HeapScope::set(false);
        tick();
    }
    fn sol_log_compute_units(&self) {
        let _h = HeapScope::set(false);
        tick();
    }
    fn sol_log_data(&self, _f: &[&[u8]]) {
        let _h = HeapScope::set(false);
        tick();
    }
    fn sol_get_clock_sysvar(&self, var_addr: *mut u8) -> u64 {
        let _h = HeapScope::set(false);
        tick();
        CTX.with(|c| match c.borrow().as_ref() {
            Some(c) => {
                unsafe { *(var_addr as *mut Clock) = c.clock.clone() };
                0
            }
            None => CODE_ERR,
        })
    }
    fn sol_get_rent_sysvar(&self, var_addr: *mut u8) -> u64 {
        let _h = HeapScope::set(false);
        tick();
        CTX.with(|c| match c.borrow().as_ref() {
            Some(c) => {
                unsafe { *(var_addr as *mut Rent) = c.rent };
                0
            }
            None => CODE_ERR,
        })
    }
    fn sol_set_return_data(&self, data: &[u8]) {
        let _h = HeapScope::set(false);
        tick();
        CTX.with(|c| {
            if let Some(c) = c.borrow_mut().as_mut() {
                c.ret = if data.is_empty() {
                    None
                } else {
                    Some((c.program, data.to_vec()))
                };
            }
        });
    }
    fn sol_get_return_data(&self) -> Option<(Pubkey, Vec<u8>)> {
        let _h = HeapScope::set(false);
        tick();
        CTX.with(|c| c.borrow().as_ref().and_then(|c| c.ret.clone()))
    }
    fn sol_get_stack_height(&self) -> u64 {
        let _h = HeapScope::set(false);
        1
    }
    fn sol_invoke_signed(
        &self,
        instruction: &Instruction,
        account_infos: &[AccountInfo],
        signers_seeds: &[&[&[u8]]],
    ) -> Result<(), ProgramError> {
        let _h = HeapScope::set(false);
        if CAPTURE.with(|c| c.borrow().is_some()) {
            CAPTURE.with(|c| {
                if let Some(v) = c.borrow_mut().as_mut() {
                    let have: Vec<Pubkey> = account_infos.iter().map(|i| *i.key).collect();
                    v.push((instruction.clone(), have, owned(signers_seeds)));
                }
            });
            return Ok(());
        }
        tick();
        let r = cpi(instruction, account_infos, signers_seeds);
        match r {
            Ok(()) => Ok(()),
            Err(e) => {
                // On the real runtime a failing cross program call ends the transaction: the
                // caller cannot continue.  Remember it, whatever the caller does with the error.
                CTX.with(|c| {
                    if let Some(c) = c.borrow_mut().as_mut() {
                        c.cpi_err.get_or_insert(format!("{e:?}"));
                    }
                });
                Err(match e {
                    CpiErr::P(p) => p,
                    CpiErr::R(_) => ProgramError::InvalidArgument,
                })
            }
        }
    }
}

#[derive(Debug)]
enum CpiErr {
    P(ProgramError),
    R(String),
}

fn cpi(
    ix: &Instruction,
    infos: &[AccountInfo],
    seeds: &[&[&[u8]]],
) -> Result<(), CpiErr> {
    let (caller, n, fail_at) = CTX.with(|c| {
        let mut c = c.borrow_mut();
        let c = c.as_mut().unwrap();
        c.cpis += 1;
        (c.program, c.cpis, c.fault.cpi_fail_at)
    });
    if fail_at == Some(n) {
        CTX.with(|c| c.borrow_mut().as_mut().unwrap().cpi_injected = true);
        return Err(CpiErr::R("injected CPI failure".into()));
    }
    let mut pda = BTreeSet::new();
    for s in seeds {
        match Pubkey::create_program_address(s, &caller) {
            Ok(k) => {
                pda.insert(k);
            }
            Err(_) => return Err(CpiErr::R("bad signer seeds".into())),
        }
    }
    // caller's own modifications so far must be legal, and become the baseline
    settle_caller(&caller).map_err(CpiErr::R)?;
    let mut callee: Vec<AccountInfo> = Vec::new();
    for m in &ix.accounts {
        let info = infos
            .iter()
            .find(|i| *i.key == m.pubkey)
            .ok_or_else(|| CpiErr::R(format!("MissingAccount {}", m.pubkey)))?;
        // privileges come from the transaction, never from what the program claims
        let (is_signer, is_writable) = CTX
            .with(|c| {
                let c = c.borrow();
                let c = c.as_ref().unwrap();
                if let Some(r) = c.recs.iter().find(|r| r.key() == m.pubkey) {
                    return Some((r.signer, r.writable));
                }
                c.wire
                    .iter()
                    .find(|w| w.key == m.pubkey)
                    .map(|w| (unsafe { *w.base.add(w.off + 1) } != 0, w.writable))
            })
            .ok_or_else(|| CpiErr::R("account not in transaction".into()))?;
        if m.is_writable && !is_writable {
            return Err(CpiErr::R("PrivilegeEscalation writable".into()));
        }
        if m.is_signer && !is_signer && !pda.contains(&m.pubkey) {
            return Err(CpiErr::R("PrivilegeEscalation signer".into()));
        }
        let mut i = info.clone();
        i.is_signer = m.is_signer;
        i.is_writable = m.is_writable;
        callee.push(i);
    }
    if ix.program_id != system_program::id() && ix.program_id != spl_token::id() {
        return Err(CpiErr::R("UnsupportedProgramId".into()));
    }
    // message-level union of duplicate metas
    for a in 0..callee.len() {
        for b in 0..callee.len() {
            if callee[a].key == callee[b].key {
                let (s, w) = (callee[b].is_signer, callee[b].is_writable);
                callee[a].is_signer |= s;
                callee[a].is_writable |= w;
            }
        }
    }
    let prev = CTX.with(|c| {
        let mut c = c.borrow_mut();
        let c = c.as_mut().unwrap();
        c.ret = None;
        std::mem::replace(&mut c.program, ix.program_id)
    });
    let r = native(&ix.program_id, &callee, &ix.data);
    CTX.with(|c| c.borrow_mut().as_mut().unwrap().program = prev);
    r.map_err(CpiErr::P)?;
    // read-only accounts of the callee must be unchanged; the rest becomes the new baseline
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        let c = c.as_mut().unwrap();
        for r in c.recs.iter_mut() {
            let w = callee.iter().any(|i| *i.key == r.key() && i.is_writable);
            if !w && r.changed() {
                return Err(CpiErr::R("ReadonlyDataModified in CPI".into()));
            }
            r.resnap();
        }
        for r in c.wire.iter_mut() {
            let w = callee.iter().any(|i| *i.key == r.key && i.is_writable);
            if !w
                && (r.lamports() != r.snap.lamports
                    || r.owner() != r.snap.owner
                    || r.data() != &r.snap.data[..])
            {
                return Err(CpiErr::R("ReadonlyDataModified in CPI".into()));
            }
            r.resnap();
        }
        Ok(())
    })
}

fn settle_caller(program: &Pubkey) -> Result<(), String> {
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        let c = c.as_mut().unwrap();
        for r in c.recs.iter_mut() {
            if r.changed() {
                verify(
                    program,
                    &r.snap,
                    r.writable,
                    r.executable,
                    &r.owner(),
                    r.lamports(),
                    r.data(),
                )?;
                r.resnap();
            }
        }
        for r in c.wire.iter_mut() {
            verify(
                program,
                &r.snap,
                r.writable,
                r.executable,
                &r.owner(),
                r.lamports(),
                r.data(),
            )?;
            r.resnap();
        }
        Ok(())
    })
}

/// Programs other than the one under test.
fn native(program: &Pubkey, infos: &[AccountInfo], data: &[u8]) -> Result<(), ProgramError> {
    if *program == spl_token::id() {
        return spl_token::processor::Processor::process(program, infos, data);
    }
    if *program == system_program::id() {
        return system(infos, data);
    }
    Err(ProgramError::IncorrectProgramId)
}

/// Stub of the System program: the four instructions a program can meet here, with the real
/// program's preconditions.
fn system(infos: &[AccountInfo], data: &[u8]) -> Result<(), ProgramError> {
    let ix: SystemInstruction = solana_program::program_utils::limited_deserialize(data, 1232)
        .map_err(|_| ProgramError::InvalidInstructionData)?;
    let acc = |i: usize| infos.get(i).ok_or(ProgramError::NotEnoughAccountKeys);
    let transfer = |f: &AccountInfo, t: &AccountInfo, l: u64| -> Result<(), ProgramError> {
        if !f.is_signer {
            return Err(ProgramError::MissingRequiredSignature);
        }
        if !f.data_is_empty() || f.lamports() < l {
            return Err(ProgramError::Custom(1));
        }
        if f.key == t.key {
            return Ok(());
        }
        **f.lamports.borrow_mut() -= l;
        **t.lamports.borrow_mut() += l;
        Ok(())
    };
    let allocate = |a: &AccountInfo, space: u64| -> Result<(), ProgramError> {
        if !a.is_signer {
            return Err(ProgramError::MissingRequiredSignature);
        }
        if !a.data_is_empty() || *a.owner != system_program::id() {
            return Err(ProgramError::Custom(0));
        }
        if space > 10 * 1024 * 1024 {
            return Err(ProgramError::Custom(3));
        }
        a.realloc(space as usize, true)
    };
    let assign = |a: &AccountInfo, o: &Pubkey| -> Result<(), ProgramError> {
        if a.owner == o {
            return Ok(());
        }
        if !a.is_signer {
            return Err(ProgramError::MissingRequiredSignature);
        }
        if *a.owner != system_program::id() {
            return Err(ProgramError::IllegalOwner);
        }
        a.assign(o);
        Ok(())
    };
    match ix {
        SystemInstruction::CreateAccount {
            lamports,
            space,
            owner,
        } => {
            let (f, t) = (acc(0)?, acc(1)?);
            if t.lamports() > 0 {
                return Err(ProgramError::Custom(0));
            }
            allocate(t, space)?;
            assign(t, &owner)?;
            transfer(f, t, lamports)
        }
        SystemInstruction::Transfer { lamports } => transfer(acc(0)?, acc(1)?, lamports),
        SystemInstruction::Allocate { space } => allocate(acc(0)?, space),
        SystemInstruction::Assign { owner } => assign(acc(0)?, &owner),
        _ => Err(ProgramError::InvalidInstructionData),
    }
}

// ---------------------------------------------------------------------------------------------

static INIT: Once = Once::new();

pub fn install_seam() {
    INIT.call_once(|| {
        set_syscall_stubs(Box::new(Stubs));
        std::panic::set_hook(Box::new(|i| {
            if std::env::var_os("RSIM_PANIC").is_some() && !i.payload().is::<AbortTx>() {
                eprintln!("panic: {i}");
            }
        }));
    });
}

enum Ran {
    Ok,
    Err(String),
    Abort,
    Panic,
}

impl Bank {
    pub fn rent(&self) -> Rent {
        Rent { lamports_per_byte_year: self.rent_rate, ..Rent::default() }
    }

    pub fn new(now: i64, rent_rate: u64) -> Bank {
        let mut b = Bank {
            accts: BTreeMap::new(),
            now,
            slot: 1,
            rent_rate,
        };
        for p in [system_program::id(), spl_token::id(), mplx_rewards::id()] {
            b.accts.insert(
                p,
                Acct {
                    lamports: 1,
                    data: Arc::new(vec![]),
                    owner: Pubkey::new_from_array([7; 32]),
                    executable: true,
                },
            );
        }
        let rent = b.rent();
        let mut d = Vec::new();
        d.extend_from_slice(&rent.lamports_per_byte_year.to_le_bytes());
        d.extend_from_slice(&rent.exemption_threshold.to_le_bytes());
        d.push(rent.burn_percent);
        b.accts.insert(
            sysvar::rent::id(),
            Acct {
                lamports: 1_000_000,
                data: Arc::new(d),
                owner: sysvar::id(),
                executable: false,
            },
        );
        b
    }

    pub fn get(&self, k: &Pubkey) -> Acct {
        self.accts.get(k).cloned().unwrap_or(Acct {
            lamports: 0,
            data: Arc::new(vec![]),
            owner: system_program::id(),
            executable: false,
        })
    }

    pub fn fund(&mut self, k: Pubkey, lamports: u64) {
        let mut a = self.get(&k);
        a.lamports += lamports;
        self.accts.insert(k, a);
    }

    /// Runs one transaction atomically.  `signers` are the keys that signed it.
    pub fn exec(&mut self, ixs: &[Instruction], fault: TxFault, wire: bool) -> TxOut {
        let _busy = Busy::new();
        self.exec_traced(ixs, fault, wire)
    }

    fn exec_traced(&mut self, ixs: &[Instruction], fault: TxFault, wire: bool) -> TxOut {
        let plain = fault.abort_at.is_none() && fault.cpi_fail_at.is_none();
        if !(plain && crate::trace::wanted(ixs)) {
            return self.run(ixs, fault, wire);
        }
        let keys: BTreeSet<Pubkey> = ixs.iter().flat_map(|i| i.accounts.iter().map(|m| m.pubkey)).collect();
        let pre: Vec<Acct> = keys.iter().map(|k| self.get(k)).collect();
        let out = self.run(ixs, fault, wire);
        let post: Vec<Acct> = keys.iter().map(|k| self.get(k)).collect();
        crate::trace::write(self.now, self.rent_rate, ixs, &keys.into_iter().collect::<Vec<_>>(), &pre, &post, &out);
        out
    }

    fn run(&mut self, ixs: &[Instruction], fault: TxFault, wire: bool) -> TxOut {
        install_seam();
        let mut out = TxOut::default();
        // message-level privileges are the union over all instructions
        let mut signer = BTreeSet::new();
        let mut writable = BTreeSet::new();
        for ix in ixs {
            for m in &ix.accounts {
                if m.is_signer {
                    signer.insert(m.pubkey);
                }
                if m.is_writable {
                    writable.insert(m.pubkey);
                }
            }
        }
        let mut work: BTreeMap<Pubkey, Acct> = BTreeMap::new();
        let mut left = fault;
        for (n, ix) in ixs.iter().enumerate() {
            let had = (out.syscalls, out.cpis);
            let r = self.run_ix(ix, &signer, &writable, &mut work, left, wire, &mut out);
            // the faults are placed at the k-th call of the whole transaction
            let spend = |k: Option<u32>, used: u32| k.and_then(|k| k.checked_sub(used)).filter(|k| *k > 0);
            left.abort_at = spend(left.abort_at, out.syscalls - had.0);
            left.cpi_fail_at = spend(left.cpi_fail_at, out.cpis - had.1);
            match r {
                Ran::Ok => {}
                Ran::Err(e) => {
                    out.err = Some(e);
                    out.failed_ix = n;
                    return out;
                }
                Ran::Abort => {
                    out.err = Some("aborted by fault".into());
                    out.aborted = true;
                    out.failed_ix = n;
                    return out;
                }
                Ran::Panic => {
                    out.err = Some("program panicked".into());
                    out.panicked = true;
                    out.failed_ix = n;
                    return out;
                }
            }
        }
        // rent state of everything the transaction may have written
        let rent = self.rent();
        for (k, a) in &work {
            if !writable.contains(k) || a.lamports == 0 {
                continue;
            }
            let pre = self.get(k);
            let exempt = rent.is_exempt(a.lamports, a.data.len());
            let pre_exempt = pre.lamports == 0 || rent.is_exempt(pre.lamports, pre.data.len());
            if !exempt && pre_exempt {
                out.err = Some("InsufficientFundsForRent".into());
                out.failed_ix = ixs.len();
                return out;
            }
        }
        for (k, a) in work {
            if a.lamports == 0 {
                self.accts.remove(&k);
            } else {
                self.accts.insert(k, a);
            }
        }
        out.ok = true;
        out
    }

    #[allow(clippy::too_many_arguments)]
    fn run_ix(
        &self,
        ix: &Instruction,
        signer: &BTreeSet<Pubkey>,
        writable: &BTreeSet<Pubkey>,
        work: &mut BTreeMap<Pubkey, Acct>,
        fault: TxFault,
        wire: bool,
        out: &mut TxOut,
    ) -> Ran {
        out.ret = None;
        if ix.program_id == tail_fail_id() {
            return Ran::Err("trailing instruction failed".into());
        }
        let load = |k: &Pubkey, work: &BTreeMap<Pubkey, Acct>| -> Acct {
            work.get(k).cloned().unwrap_or_else(|| self.get(k))
        };
        let mut uniq: Vec<Pubkey> = Vec::new();
        let mut idx: Vec<usize> = Vec::new();
        for m in &ix.accounts {
            match uniq.iter().position(|k| *k == m.pubkey) {
                Some(p) => idx.push(p),
                None => {
                    idx.push(uniq.len());
                    uniq.push(m.pubkey);
                }
            }
        }
        let accts: Vec<Acct> = uniq.iter().map(|k| load(k, work)).collect();
        let recs: Vec<Rec> = uniq
            .iter()
            .zip(&accts)
            .map(|(k, a)| Rec::new(k, a, signer.contains(k), writable.contains(k)))
            .collect();
        let uinfos: Vec<AccountInfo<'static>> = recs.iter().map(|r| r.info()).collect();
        let infos: Vec<AccountInfo<'static>> = idx.iter().map(|i| uinfos[*i].clone()).collect();
        let clock = Clock {
            slot: self.slot,
            epoch_start_timestamp: 0,
            epoch: self.slot / 432_000,
            leader_schedule_epoch: self.slot / 432_000 + 1,
            unix_timestamp: self.now,
        };
        let mk = |recs: Vec<Rec>, wire: Vec<WireAcct>, fault: TxFault| Ctx {
            program: ix.program_id,
            clock: clock.clone(),
            rent: self.rent(),
            ret: None,
            syscalls: 0,
            cpis: 0,
            cpi_injected: false,
            fault,
            cpi_err: None,
            recs,
            wire,
        };
        CTX.with(|c| *c.borrow_mut() = Some(mk(recs, vec![], fault)));
        let program = ix.program_id;
        HEAP_USED.with(|u| u.set(0));
        let r = catch_unwind(AssertUnwindSafe(|| {
            if program == mplx_rewards::id() {
                // what the entrypoint builds before the program starts
                HEAP_USED.with(|u| u.set(infos.len() * 128));
                let _h = HeapScope::set(true);
                // the slice outlives the call; the program only needs it to live that long
                let s: &'static [AccountInfo<'static>] =
                    unsafe { std::mem::transmute(infos.as_slice()) };
                mplx_rewards::instructions::process_instruction(&program, s, &ix.data)
            } else {
                native(&program, &infos, &ix.data)
            }
        }));
        drop(infos);
        drop(uinfos);
        let ctx = CTX.with(|c| c.borrow_mut().take().unwrap());
        out.syscalls += ctx.syscalls;
        out.cpis += ctx.cpis;
        out.cpi_injected |= ctx.cpi_injected;
        let heap = HEAP_USED.with(|u| u.get());
        out.heap = out.heap.max(heap);
        let panicked = r.is_err();
        match r {
            Err(p) if p.is::<AbortTx>() => return Ran::Abort,
            Err(_) => return Ran::Panic,
            Ok(_) if heap > HEAP => return Ran::Err("out of memory".into()),
            Ok(_) => {}
        }
        let no_fault = fault.abort_at.is_none() && fault.cpi_fail_at.is_none();
        if wire && no_fault && !panicked && program == mplx_rewards::id() {
            if let Some(r) = self.run_wire(ix, &uniq, &idx, &accts, signer, writable, &mk, work, out)
            {
                return r;
            }
        }
        if let Ok(Err(e)) = r {
            return Ran::Err(format!("{e:?}"));
        }
        if let Some(e) = ctx.cpi_err {
            return Ran::Err(e);
        }
        let mut before = 0u128;
        let mut after = 0u128;
        for (r, a) in ctx.recs.iter().zip(&accts) {
            if let Err(e) = verify(
                &program,
                &r.snap,
                r.writable,
                r.executable,
                &r.owner(),
                r.lamports(),
                r.data(),
            ) {
                return Ran::Err(e);
            }
            before += a.lamports as u128;
            after += r.lamports() as u128;
        }
        if before != after {
            return Ran::Err("UnbalancedInstruction".into());
        }
        for r in ctx.recs.iter() {
            store(work, r.key(), r.lamports(), r.data(), r.owner(), &accts, &uniq);
        }
        out.ret = ctx.ret.filter(|(p, _)| *p == program).map(|(_, d)| d);
        Ran::Ok
    }

    /// The real entrypoint on the real serialized input.  None: the zero-copy accounts would not be
    /// 16-byte aligned on this host (they are 8-byte aligned on the target), so it cannot be used.
    #[allow(clippy::too_many_arguments)]
    fn run_wire(
        &self,
        ix: &Instruction,
        uniq: &[Pubkey],
        idx: &[usize],
        accts: &[Acct],
        signer: &BTreeSet<Pubkey>,
        writable: &BTreeSet<Pubkey>,
        mk: &dyn Fn(Vec<Rec>, Vec<WireAcct>, TxFault) -> Ctx,
        work: &mut BTreeMap<Pubkey, Acct>,
        out: &mut TxOut,
    ) -> Option<Ran> {
        let mut size = 8 + 8 + ix.data.len() + 32 + 64;
        for a in accts {
            size += 88 + a.data.len() + MAX_PERMITTED_DATA_INCREASE + 16 + 8;
        }
        size += idx.len() * 8;
        let mut buf = vec![0u128; size / 16 + 2];
        let base = buf.as_mut_ptr() as *mut u8;
        let b = unsafe { std::slice::from_raw_parts_mut(base, buf.len() * 16) };
        let mut o = 0usize;
        b[..8].copy_from_slice(&(idx.len() as u64).to_le_bytes());
        o += 8;
        let mut first: Vec<Option<usize>> = vec![None; uniq.len()];
        let mut wa: Vec<WireAcct> = Vec::new();
        for (n, u) in idx.iter().enumerate() {
            if let Some(p) = first[*u] {
                b[o] = p as u8;
                o += 8;
                continue;
            }
            first[*u] = Some(n);
            let a = &accts[*u];
            if (o + 88) % 16 != 0 && a.owner == mplx_rewards::id() {
                return None;
            }
            b[o] = 0xff;
            b[o + 1] = signer.contains(&uniq[*u]) as u8;
            b[o + 2] = writable.contains(&uniq[*u]) as u8;
            b[o + 3] = a.executable as u8;
            b[o + 8..o + 40].copy_from_slice(uniq[*u].as_ref());
            b[o + 40..o + 72].copy_from_slice(a.owner.as_ref());
            b[o + 72..o + 80].copy_from_slice(&a.lamports.to_le_bytes());
            b[o + 80..o + 88].copy_from_slice(&(a.data.len() as u64).to_le_bytes());
            b[o + 88..o + 88 + a.data.len()].copy_from_slice(&a.data);
            wa.push(WireAcct {
                key: uniq[*u],
                off: o,
                base,
                snap: Snap {
                    lamports: a.lamports,
                    data: a.data.clone(),
                    owner: a.owner,
                },
                writable: writable.contains(&uniq[*u]),
                executable: a.executable,
            });
            // a fresh account that this instruction will allocate must also end up aligned
            if a.data.is_empty() && (o + 88) % 16 != 0 && n == 1 {
                return None;
            }
            o += 88 + a.data.len() + MAX_PERMITTED_DATA_INCREASE;
            o = o.div_ceil(8) * 8;
            b[o..o + 8].copy_from_slice(&u64::MAX.to_le_bytes());
            o += 8;
        }
        b[o..o + 8].copy_from_slice(&(ix.data.len() as u64).to_le_bytes());
        o += 8;
        b[o..o + ix.data.len()].copy_from_slice(&ix.data);
        o += ix.data.len();
        b[o..o + 32].copy_from_slice(ix.program_id.as_ref());
        CTX.with(|c| *c.borrow_mut() = Some(mk(vec![], wa, TxFault::default())));
        let code = unsafe { mplx_rewards::entrypoint::entrypoint(base) };
        let ctx = CTX.with(|c| c.borrow_mut().take().unwrap());
        out.wire_used = true;
        if code != 0 {
            return Some(Ran::Err(format!("entrypoint code {code:#x}")));
        }
        if let Some(e) = ctx.cpi_err {
            return Some(Ran::Err(e));
        }
        let mut before = 0u128;
        let mut after = 0u128;
        for (r, u) in ctx.wire.iter().zip(uniq) {
            debug_assert!(r.key == *u);
            if let Err(e) = verify(
                &ix.program_id,
                &r.snap,
                r.writable,
                r.executable,
                &r.owner(),
                r.lamports(),
                r.data(),
            ) {
                return Some(Ran::Err(e));
            }
            after += r.lamports() as u128;
        }
        for a in accts {
            before += a.lamports as u128;
        }
        if before != after {
            return Some(Ran::Err("UnbalancedInstruction".into()));
        }
        for r in ctx.wire.iter() {
            store(work, r.key, r.lamports(), r.data(), r.owner(), accts, uniq);
        }
        out.ret = ctx.ret.filter(|(p, _)| *p == ix.program_id).map(|(_, d)| d);
        drop(buf);
        Some(Ran::Ok)
    }
}

fn store(
    work: &mut BTreeMap<Pubkey, Acct>,
    key: Pubkey,
    lamports: u64,
    data: &[u8],
    owner: Pubkey,
    accts: &[Acct],
    uniq: &[Pubkey],
) {
    let p = uniq.iter().position(|k| *k == key).unwrap();
    let old = &accts[p];
    let d = if data == &old.data[..] {
        old.data.clone()
    } else {
        Arc::new(data.to_vec())
    };
    work.insert(
        key,
        Acct {
            lamports,
            data: d,
            owner,
            executable: old.executable,
        },
    );
}
