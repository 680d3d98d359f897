use crate::data::*;
use solana_program::{
    account_info::AccountInfo,
    clock::Clock,
    entrypoint::ProgramResult,
    instruction::Instruction,
    program_error::ProgramError,
    program_pack::Pack,
    program_stubs::{set_syscall_stubs, SyscallStubs},
    pubkey::Pubkey,
    rent::Rent,
    system_instruction::SystemInstruction,
    system_program,
    sysvar::instructions as ixs_sysvar,
};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::{Arc, Once, OnceLock, RwLock};

pub type ProcessFn = fn(&Pubkey, &[AccountInfo], &[u8]) -> ProgramResult;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum ErrKind {
    Program(ProgramError),
    Panic(String),
    Runtime(String),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct TxError {
    pub ix: usize,
    pub kind: ErrKind,
}

static PROGRAMS: OnceLock<RwLock<HashMap<Pubkey, ProcessFn>>> = OnceLock::new();
fn programs() -> &'static RwLock<HashMap<Pubkey, ProcessFn>> {
    PROGRAMS.get_or_init(|| RwLock::new(HashMap::new()))
}

pub fn memo_id() -> Pubkey {
    "MemoSq4gqABAXKb96qnH8TysNcWxMyWCqXgDLGmfcHr".parse().unwrap()
}
pub fn compute_budget_id() -> Pubkey {
    "ComputeBudget111111111111111111111111111111".parse().unwrap()
}

pub fn register_program(id: Pubkey, f: ProcessFn) {
    programs().write().unwrap().insert(id, f);
}

fn noop(_: &Pubkey, _: &[AccountInfo], _: &[u8]) -> ProgramResult {
    Ok(())
}

/// Installs the runtime. Idempotent.
pub fn init() {
    static ONCE: Once = Once::new();
    ONCE.call_once(|| {
        set_syscall_stubs(Box::new(Stubs));
        if std::env::var("SVM_PANICS").is_err() {
            let default = std::panic::take_hook();
            std::panic::set_hook(Box::new(move |i| {
                if !IN_PROGRAM.with(|c| c.get()) {
                    default(i)
                }
            }));
        }
        register_program(system_program::id(), system_process);
        register_program(spl_token::id(), spl_process);
        register_program(spl_associated_token_account::id(), ata_process);
        register_program(memo_id(), noop);
        register_program(compute_budget_id(), noop);
    });
}

pub fn rent() -> Rent {
    Rent::default()
}
pub fn rent_min(len: usize) -> u64 {
    Rent::default().minimum_balance(len)
}

struct Live {
    key: Box<Pubkey>,
    writable: bool,
    signer: bool,
    executable: bool,
    lamports: Box<u64>,
    owner: Box<Pubkey>,
    data: Vec<u8>,
    snap: Acct,
}

struct Handle {
    idx: usize,
    lamports: Rc<RefCell<&'static mut u64>>,
    data: Rc<RefCell<&'static mut [u8]>>,
}

struct Ctx {
    live: Vec<Live>,
    index: BTreeMap<Pubkey, usize>,
    handles: Vec<Handle>, // handles of the current top-level instruction
    arena: Vec<Vec<u8>>,
    failed: Option<String>,
    stack: Vec<Pubkey>,
    clock: Clock,
}

thread_local! {
    static CTX: RefCell<Option<Box<Ctx>>> = RefCell::new(None);
    static IN_PROGRAM: Cell<bool> = Cell::new(false);
    static LOGS: RefCell<Option<Vec<String>>> = RefCell::new(None);
}

fn with_ctx<T>(f: impl FnOnce(&mut Ctx) -> T) -> T {
    CTX.with(|c| f(c.borrow_mut().as_mut().expect("no tx context")))
}

struct Stubs;
impl SyscallStubs for Stubs {
    fn sol_log(&self, m: &str) {
        LOGS.with(|l| {
            if let Some(l) = l.borrow_mut().as_mut() {
                l.push(m.to_string())
            }
        })
    }
    fn sol_log_data(&self, _fields: &[&[u8]]) {}
    fn sol_log_compute_units(&self) {}
    fn sol_get_rent_sysvar(&self, var_addr: *mut u8) -> u64 {
        unsafe { *(var_addr as *mut _ as *mut Rent) = Rent::default() };
        0
    }
    fn sol_get_clock_sysvar(&self, var_addr: *mut u8) -> u64 {
        let clock = with_ctx(|c| c.clock.clone());
        unsafe { *(var_addr as *mut _ as *mut Clock) = clock };
        0
    }
    fn sol_invoke_signed(&self, ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
        match cpi(ix, infos, seeds) {
            Ok(()) => Ok(()),
            Err(e) => {
                with_ctx(|c| {
                    if c.failed.is_none() {
                        c.failed = Some(format!("cpi to {} failed: {:?}", ix.program_id, e))
                    }
                });
                Err(e)
            }
        }
    }
    fn sol_get_stack_height(&self) -> u64 {
        with_ctx(|c| c.stack.len() as u64)
    }
}

/// Runtime rules for what `program` may have changed since the last snapshot
fn verify(c: &mut Ctx, program: &Pubkey) -> Result<(), String> {
    let mut pre_sum: u128 = 0;
    let mut post_sum: u128 = 0;
    for h in &c.handles {
        let l = &mut c.live[h.idx];
        // SAFETY: single threaded; outstanding borrows of the caller are suspended during a CPI.
        // (`invoke_signed` itself refuses accounts of the CPI that are still borrowed, as on chain.)
        let data: &[u8] = unsafe { &**h.data.as_ptr() };
        let lam: u64 = unsafe { **h.lamports.as_ptr() };
        // volatile: the owner may have been written through the shared pointer
        let owner: Pubkey = unsafe { std::ptr::read_volatile(&*l.owner) };
        pre_sum += l.snap.lamports as u128;
        post_sum += lam as u128;
        let data_changed = !l.snap.data.eq_bytes(data);
        if owner != l.snap.owner {
            if l.snap.owner != *program || !l.writable || l.executable || data.iter().any(|b| *b != 0) {
                return Err(format!("illegal owner change of {}", l.key));
            }
        }
        if lam != l.snap.lamports {
            if !l.writable || l.executable {
                return Err(format!("lamports of read-only {} changed", l.key));
            }
            if lam < l.snap.lamports && l.snap.owner != *program {
                return Err(format!("external lamport spend of {}", l.key));
            }
        }
        if data_changed && (!l.writable || l.executable || l.snap.owner != *program) {
            return Err(format!("illegal data change of {} by {}", l.key, program));
        }
        if data_changed || owner != l.snap.owner || lam != l.snap.lamports {
            l.snap = Acct { lamports: lam, owner, data: if data_changed { l.snap.data.updated(data) } else { l.snap.data.clone() } };
        }
    }
    if pre_sum != post_sum {
        return Err("unbalanced instruction".into());
    }
    Ok(())
}

fn cpi(ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
    let prog = *programs().read().unwrap().get(&ix.program_id).ok_or(ProgramError::IncorrectProgramId)?;
    let infos_callee: Vec<AccountInfo<'static>> = with_ctx(|c| -> Result<_, ProgramError> {
        let caller = *c.stack.last().unwrap();
        if c.stack.len() >= 4 {
            return Err(ProgramError::Custom(9100));
        }
        verify(c, &caller).map_err(|e| {
            c.failed = Some(e);
            ProgramError::Custom(9001)
        })?;
        let mut signers = vec![];
        for s in seeds {
            signers.push(Pubkey::create_program_address(s, &caller).map_err(|_| ProgramError::InvalidSeeds)?);
        }
        if !c.index.contains_key(&ix.program_id) {
            c.failed = Some(format!("program {} not in transaction", ix.program_id));
            return Err(ProgramError::NotEnoughAccountKeys);
        }
        // merged flags per key
        let mut flags: BTreeMap<Pubkey, (bool, bool)> = BTreeMap::new();
        for m in &ix.accounts {
            let e = flags.entry(m.pubkey).or_insert((false, false));
            e.0 |= m.is_signer;
            e.1 |= m.is_writable;
        }
        let mut out = vec![];
        for m in &ix.accounts {
            // the runtime needs no account info for executable accounts
            if !programs().read().unwrap().contains_key(&m.pubkey) && !infos.iter().any(|i| *i.key == m.pubkey) {
                c.failed = Some(format!("missing account {} in cpi", m.pubkey));
                return Err(ProgramError::NotEnoughAccountKeys);
            }
            let h = c.handles.iter().find(|h| *c.live[h.idx].key == m.pubkey);
            let h = match h {
                Some(h) => h,
                None => {
                    c.failed = Some(format!("unknown account {} in cpi", m.pubkey));
                    return Err(ProgramError::NotEnoughAccountKeys);
                }
            };
            let l = &c.live[h.idx];
            let (sg, wr) = flags[&m.pubkey];
            if wr && !l.writable || sg && !(l.signer || signers.contains(&m.pubkey)) {
                c.failed = Some(format!("privilege escalation for {}", m.pubkey));
                return Err(ProgramError::MissingRequiredSignature);
            }
            out.push(info_of(l, h, sg, wr));
        }
        c.stack.push(ix.program_id);
        Ok(out)
    })?;
    let r = prog(&ix.program_id, &infos_callee, &ix.data);
    drop(infos_callee);
    with_ctx(|c| {
        c.stack.pop();
        r?;
        verify(c, &ix.program_id).map_err(|e| {
            c.failed = Some(e);
            ProgramError::Custom(9002)
        })
    })
}

fn info_of(l: &Live, h: &Handle, signer: bool, writable: bool) -> AccountInfo<'static> {
    // SAFETY: the boxed key/owner outlive every AccountInfo of the transaction (Ctx is dropped after them)
    let key: &'static Pubkey = unsafe { &*(&*l.key as *const Pubkey) };
    let owner: &'static Pubkey = unsafe { &*(&*l.owner as *const Pubkey) };
    AccountInfo {
        key,
        is_signer: signer,
        is_writable: writable,
        lamports: h.lamports.clone(),
        data: h.data.clone(),
        owner,
        executable: l.executable,
        rent_epoch: 0,
    }
}

/// Replaces the data of an account by a zeroed buffer of length `len`
fn resize(info: &AccountInfo, len: usize) -> ProgramResult {
    let p: &'static mut [u8] = with_ctx(|c| {
        c.arena.push(vec![0u8; len]);
        let v = c.arena.last_mut().unwrap();
        unsafe { std::slice::from_raw_parts_mut(v.as_mut_ptr(), len) }
    });
    let mut d = info.data.try_borrow_mut().map_err(|_| ProgramError::AccountBorrowFailed)?;
    *d = p;
    Ok(())
}

fn set_owner(info: &AccountInfo, owner: &Pubkey) {
    unsafe { std::ptr::write_volatile(info.owner as *const Pubkey as *mut Pubkey, *owner) }
}
fn owner_of(info: &AccountInfo) -> Pubkey {
    unsafe { std::ptr::read_volatile(info.owner) }
}

fn sys_transfer(from: &AccountInfo, to: &AccountInfo, lamports: u64) -> ProgramResult {
    if !from.is_signer {
        return Err(ProgramError::MissingRequiredSignature);
    }
    if !from.data_is_empty() {
        return Err(ProgramError::InvalidArgument);
    }
    if from.lamports() < lamports {
        return Err(ProgramError::InsufficientFunds);
    }
    **from.try_borrow_mut_lamports()? -= lamports;
    let mut t = to.try_borrow_mut_lamports()?;
    **t = t.checked_add(lamports).ok_or(ProgramError::InvalidArgument)?;
    Ok(())
}
fn sys_allocate(a: &AccountInfo, space: u64, signer: bool) -> ProgramResult {
    if !signer {
        return Err(ProgramError::MissingRequiredSignature);
    }
    if !a.data_is_empty() || owner_of(a) != system_program::id() {
        return Err(ProgramError::AccountAlreadyInitialized);
    }
    if space > 10 * 1024 * 1024 {
        return Err(ProgramError::InvalidArgument);
    }
    resize(a, space as usize)
}
/// largest account a program may create by a cross-program invocation
pub static CPI_SPACE: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(10 * 1024);
fn sys_create(from: &AccountInfo, to: &AccountInfo, lamports: u64, space: u64, owner: &Pubkey, cpi: bool) -> ProgramResult {
    if to.lamports() > 0 {
        return Err(ProgramError::Custom(0));
    }
    if cpi && space > CPI_SPACE.load(std::sync::atomic::Ordering::Relaxed) {
        return Err(ProgramError::InvalidRealloc);
    }
    sys_allocate(to, space, to.is_signer)?;
    set_owner(to, owner);
    sys_transfer(from, to, lamports)
}

fn system_process(_id: &Pubkey, a: &[AccountInfo], data: &[u8]) -> ProgramResult {
    let cpi = with_ctx(|c| c.stack.len() > 1);
    let ix: SystemInstruction = bincode::deserialize(data).map_err(|_| ProgramError::InvalidInstructionData)?;
    let acc = |i: usize| a.get(i).ok_or(ProgramError::NotEnoughAccountKeys);
    match ix {
        SystemInstruction::Transfer { lamports } => sys_transfer(acc(0)?, acc(1)?, lamports),
        SystemInstruction::CreateAccount { lamports, space, owner } => sys_create(acc(0)?, acc(1)?, lamports, space, &owner, cpi),
        SystemInstruction::Allocate { space } => {
            if cpi && space > CPI_SPACE.load(std::sync::atomic::Ordering::Relaxed) {
                return Err(ProgramError::InvalidRealloc);
            }
            sys_allocate(acc(0)?, space, acc(0)?.is_signer)
        }
        SystemInstruction::Assign { owner } => {
            if !acc(0)?.is_signer {
                return Err(ProgramError::MissingRequiredSignature);
            }
            set_owner(acc(0)?, &owner);
            Ok(())
        }
        _ => Err(ProgramError::InvalidInstructionData),
    }
}

fn spl_process(id: &Pubkey, a: &[AccountInfo], data: &[u8]) -> ProgramResult {
    spl_token::processor::Processor::process(id, a, data)
}

fn ata_process(_id: &Pubkey, a: &[AccountInfo], data: &[u8]) -> ProgramResult {
    if !(data.is_empty() || data == [0]) || a.len() < 6 {
        return Err(ProgramError::InvalidInstructionData);
    }
    let (payer, ata, wallet, mint) = (&a[0], &a[1], &a[2], &a[3]);
    let want = spl_associated_token_account::get_associated_token_address(wallet.key, mint.key);
    if want != *ata.key {
        return Err(ProgramError::InvalidSeeds);
    }
    if owner_of(ata) != system_program::id() {
        return Err(ProgramError::IllegalOwner);
    }
    if owner_of(mint) != spl_token::id() {
        return Err(ProgramError::IllegalOwner);
    }
    spl_token::state::Mint::unpack(&mint.data.borrow())?;
    let len = spl_token::state::Account::LEN;
    let need = rent_min(len).saturating_sub(ata.lamports());
    if need > 0 {
        // inner CPIs, performed with the rights of the respective programs
        if !payer.is_signer {
            return Err(ProgramError::MissingRequiredSignature);
        }
        with_ctx(|c| c.stack.push(system_program::id()));
        let r = sys_transfer(payer, ata, need);
        with_ctx(|c| {
            c.stack.pop();
            r?;
            verify(c, &system_program::id()).map_err(|_| ProgramError::Custom(9003))
        })?;
    }
    sys_allocate(ata, len as u64, true)?;
    set_owner(ata, &spl_token::id());
    with_ctx(|c| verify(c, &system_program::id()).map_err(|_| ProgramError::Custom(9004)))?;
    let acc = spl_token::state::Account {
        mint: *mint.key,
        owner: *wallet.key,
        state: spl_token::state::AccountState::Initialized,
        ..Default::default()
    };
    spl_token::state::Account::pack(acc, &mut ata.data.borrow_mut())?;
    with_ctx(|c| verify(c, &spl_token::id()).map_err(|_| ProgramError::Custom(9005)))
}

fn build_sysvar(ixs: &[Instruction]) -> Vec<u8> {
    let b: Vec<ixs_sysvar::BorrowedInstruction> = ixs
        .iter()
        .map(|i| ixs_sysvar::BorrowedInstruction {
            program_id: &i.program_id,
            accounts: i
                .accounts
                .iter()
                .map(|m| ixs_sysvar::BorrowedAccountMeta { pubkey: &m.pubkey, is_signer: m.is_signer, is_writable: m.is_writable })
                .collect(),
            data: &i.data,
        })
        .collect();
    ixs_sysvar::construct_instructions_data(&b)
}

fn rent_paying(a: &Acct) -> bool {
    a.lamports > 0 && a.lamports < rent_min(a.data.len())
}

pub fn capture_logs(on: bool) {
    LOGS.with(|l| *l.borrow_mut() = if on { Some(vec![]) } else { None })
}
pub fn take_logs() -> Vec<String> {
    LOGS.with(|l| l.borrow_mut().as_mut().map(std::mem::take).unwrap_or_default())
}

/// Executes one atomic transaction
pub fn execute(bank: &Bank, ixs: &[Instruction]) -> Result<Bank, TxError> {
    crate::tick();
    let sysvar_id = ixs_sysvar::id();
    let progs = programs().read().unwrap();
    let mut index: BTreeMap<Pubkey, usize> = BTreeMap::new();
    let mut live: Vec<Live> = vec![];
    let mut add = |k: Pubkey, s: bool, w: bool| {
        let i = *index.entry(k).or_insert_with(|| {
            let executable = progs.contains_key(&k);
            let acct = match bank.get(&k) {
                Some(a) => a.clone(),
                None if executable => Acct { lamports: 1, owner: "NativeLoader1111111111111111111111111111111".parse().unwrap(), data: Data::zeros(0) },
                None if k == sysvar_id => Acct { lamports: 1, owner: "Sysvar1111111111111111111111111111111111111".parse().unwrap(), data: Data::new(&build_sysvar(ixs)) },
                None => Acct { lamports: 0, owner: system_program::id(), data: Data::zeros(0) },
            };
            live.push(Live {
                key: Box::new(k),
                writable: false,
                signer: false,
                executable,
                lamports: Box::new(acct.lamports),
                owner: Box::new(acct.owner),
                data: vec![],
                snap: acct,
            });
            live.len() - 1
        });
        live[i].signer |= s;
        live[i].writable |= w;
    };
    for ix in ixs {
        for m in &ix.accounts {
            add(m.pubkey, m.is_signer, m.is_writable);
        }
        add(ix.program_id, false, false);
    }
    drop(progs);
    for l in live.iter_mut() {
        if l.executable || *l.key == sysvar_id {
            l.writable = false;
        }
    }
    let pre_paying: Vec<(bool, usize)> = live.iter().map(|l| (rent_paying(&l.snap), l.snap.data.len())).collect();
    let mut loaded = vec![false; live.len()];
    let ctx = Ctx {
        live,
        index,
        handles: vec![],
        arena: vec![],
        failed: None,
        stack: vec![],
        clock: Clock { slot: bank.slot, epoch_start_timestamp: 0, epoch: 0, leader_schedule_epoch: 0, unix_timestamp: bank.unix_timestamp },
    };
    CTX.with(|c| *c.borrow_mut() = Some(Box::new(ctx)));

    let mut result = Ok(());
    for (n, ix) in ixs.iter().enumerate() {
        let prog = programs().read().unwrap().get(&ix.program_id).copied();
        let prog = match prog {
            Some(p) => p,
            None => {
                result = Err(TxError { ix: n, kind: ErrKind::Runtime("unknown program".into()) });
                break;
            }
        };
        let infos: Vec<AccountInfo<'static>> = with_ctx(|c| {
            c.handles.clear();
            c.stack = vec![ix.program_id];
            let mut seen: BTreeMap<usize, usize> = BTreeMap::new();
            let mut infos = vec![];
            for m in &ix.accounts {
                let i = c.index[&m.pubkey];
                if !loaded[i] {
                    c.live[i].data = c.live[i].snap.data.to_vec();
                    loaded[i] = true;
                }
                let hi = *seen.entry(i).or_insert_with(|| {
                    let l = &mut c.live[i];
                    if *l.key == sysvar_id {
                        ixs_sysvar::store_current_index(&mut l.data, n as u16);
                        l.snap.data = Data::new(&l.data);
                    }
                    let lam: &'static mut u64 = unsafe { &mut *(&mut *l.lamports as *mut u64) };
                    let data: &'static mut [u8] = unsafe { std::slice::from_raw_parts_mut(l.data.as_mut_ptr(), l.data.len()) };
                    c.handles.push(Handle { idx: i, lamports: Rc::new(RefCell::new(lam)), data: Rc::new(RefCell::new(data)) });
                    c.handles.len() - 1
                });
                let l = &c.live[i];
                infos.push(info_of(l, &c.handles[hi], l.signer, l.writable));
            }
            infos
        });
        IN_PROGRAM.with(|c| c.set(true));
        let r = catch_unwind(AssertUnwindSafe(|| prog(&ix.program_id, &infos, &ix.data)));
        IN_PROGRAM.with(|c| c.set(false));
        drop(infos);
        let r = match r {
            Ok(Ok(())) => with_ctx(|c| {
                if let Some(f) = c.failed.take() {
                    return Err(ErrKind::Runtime(f));
                }
                verify(c, &ix.program_id).map_err(ErrKind::Runtime)
            }),
            Ok(Err(e)) => Err(match with_ctx(|c| c.failed.take()) {
                Some(f) => ErrKind::Runtime(f),
                None => ErrKind::Program(e),
            }),
            Err(p) => {
                let m = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                Err(ErrKind::Panic(m))
            }
        };
        if let Err(kind) = r {
            result = Err(TxError { ix: n, kind });
            break;
        }
        // fold resized buffers back
        with_ctx(|c| {
            for h in &c.handles {
                let l = &mut c.live[h.idx];
                let d = h.data.borrow();
                if d.as_ptr() != l.data.as_ptr() || d.len() != l.data.len() {
                    l.data = d.to_vec();
                }
            }
        });
    }
    let mut ctx = CTX.with(|c| c.borrow_mut().take()).unwrap();
    ctx.handles.clear();
    result?;
    let mut post = bank.clone();
    for (i, l) in ctx.live.iter().enumerate() {
        if !l.writable {
            continue;
        }
        let a = &l.snap;
        if rent_paying(a) && !(pre_paying[i].0 && pre_paying[i].1 == a.data.len()) {
            return Err(TxError { ix: ixs.len(), kind: ErrKind::Runtime(format!("insufficient funds for rent: {}", l.key)) });
        }
        if a.lamports == 0 {
            post.accounts.remove(&l.key);
        } else {
            match post.accounts.get(&l.key) {
                Some(b) if **b == *a => {}
                _ => {
                    post.accounts.insert(*l.key, Arc::new(a.clone()));
                }
            }
        }
    }
    Ok(post)
}
