//! Mini-SVM: an in-memory account store that executes transactions against the real program
//! sources (mango-v4, margin-trade) and native stand-ins for the programs they call.
//!
//! Follows the Solana runtime rules that programs rely on: atomic transactions, read-only
//! enforcement, signer/writable privilege checks on CPI, PDA signing, realloc limits,
//! lamport conservation, rent exemption and removal of zero-lamport accounts.

use anchor_lang::prelude::{AccountInfo, Pubkey};
use solana_program::{
    clock::Clock, entrypoint::ProgramResult, instruction::Instruction, program_error::ProgramError,
    rent::Rent, system_instruction::SystemInstruction, system_program,
};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::hash::{BuildHasher, Hasher};
use std::sync::{Arc, Once};

pub const MAX_INCREASE: usize = 10240;

#[derive(Debug)]
pub struct Acct {
    pub lamports: u64,
    pub owner: Pubkey,
    pub data: Vec<u8>,
    pub executable: bool,
    hash: u128,
}

fn hash_bytes(parts: &[&[u8]]) -> u128 {
    let mut out = [0u64; 2];
    for (i, o) in out.iter_mut().enumerate() {
        let mut h = ahash::RandomState::with_seeds(1 + i as u64, 77, 99 * (i as u64 + 3), 1234567).build_hasher();
        for p in parts {
            h.write(p);
            h.write_u64(p.len() as u64);
        }
        *o = h.finish();
    }
    (out[0] as u128) << 64 | out[1] as u128
}

impl Acct {
    pub fn new(lamports: u64, owner: Pubkey, data: Vec<u8>) -> Self {
        let hash = hash_bytes(&[&lamports.to_le_bytes(), owner.as_ref(), &data]);
        Acct { lamports, owner, data, executable: false, hash }
    }
}

#[derive(Clone)]
pub struct State {
    pub accts: BTreeMap<Pubkey, Arc<Acct>>,
    pub ts: i64,
    pub slot: u64,
}

#[derive(Debug, Clone)]
pub struct TxError {
    pub ix: usize,
    pub err: String,
    pub code: Option<u32>,
    pub panicked: bool,
}
pub type TxResult = Result<(), TxError>;

thread_local! {
    static CLOCK: Cell<(i64, u64)> = Cell::new((0, 0));
    static STACK: RefCell<Vec<Pubkey>> = RefCell::new(vec![]);
    static LOGS: RefCell<Option<Vec<String>>> = RefCell::new(None);
    static EVENTS: RefCell<Option<Vec<Vec<u8>>>> = RefCell::new(None);
    static RETDATA: RefCell<Option<(Pubkey, Vec<u8>)>> = RefCell::new(None);
    static BUF: RefCell<Vec<u128>> = RefCell::new(vec![]);
    static PANIC: RefCell<Option<String>> = RefCell::new(None);
    static QUIET: Cell<bool> = Cell::new(false);
    static IX_COUNT: Cell<u64> = Cell::new(0);
    static LAST_CPI: RefCell<Vec<Instruction>> = RefCell::new(vec![]);
}

struct Stubs;
impl solana_program::program_stubs::SyscallStubs for Stubs {
    fn sol_log(&self, message: &str) {
        LOGS.with(|l| {
            if let Some(v) = l.borrow_mut().as_mut() {
                v.push(message.to_string())
            }
        })
    }
    fn sol_log_compute_units(&self) {}
    fn sol_log_data(&self, fields: &[&[u8]]) {
        EVENTS.with(|l| {
            if let Some(v) = l.borrow_mut().as_mut() {
                v.push(fields.concat())
            }
        })
    }
    fn sol_get_clock_sysvar(&self, var_addr: *mut u8) -> u64 {
        let (ts, slot) = CLOCK.with(|c| c.get());
        let c = Clock { slot, epoch_start_timestamp: 0, epoch: 0, leader_schedule_epoch: 0, unix_timestamp: ts };
        unsafe { *(var_addr as *mut Clock) = c };
        0
    }
    fn sol_get_rent_sysvar(&self, var_addr: *mut u8) -> u64 {
        unsafe { *(var_addr as *mut Rent) = Rent::default() };
        0
    }
    unsafe fn sol_memcpy(&self, dst: *mut u8, src: *const u8, n: usize) {
        std::ptr::copy_nonoverlapping(src, dst, n);
    }
    unsafe fn sol_memcmp(&self, s1: *const u8, s2: *const u8, n: usize, result: *mut i32) {
        let a = std::slice::from_raw_parts(s1, n);
        let b = std::slice::from_raw_parts(s2, n);
        *result = match a.cmp(b) {
            std::cmp::Ordering::Less => -1,
            std::cmp::Ordering::Equal => 0,
            std::cmp::Ordering::Greater => 1,
        };
    }
    unsafe fn sol_memset(&self, s: *mut u8, c: u8, n: usize) {
        std::ptr::write_bytes(s, c, n);
    }
    fn sol_get_return_data(&self) -> Option<(Pubkey, Vec<u8>)> {
        RETDATA.with(|r| r.borrow().clone())
    }
    fn sol_set_return_data(&self, data: &[u8]) {
        let p = STACK.with(|s| s.borrow().last().copied().unwrap_or_default());
        RETDATA.with(|r| *r.borrow_mut() = Some((p, data.to_vec())));
    }
    fn sol_get_stack_height(&self) -> u64 {
        STACK.with(|s| s.borrow().len() as u64)
    }
    fn sol_invoke_signed(&self, ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
        let caller = STACK.with(|s| *s.borrow().last().unwrap());
        let mut pdas = vec![];
        for s in seeds {
            pdas.push(Pubkey::create_program_address(s, &caller).map_err(|_| ProgramError::InvalidSeeds)?);
        }
        LAST_CPI.with(|l| {
            let mut l = l.borrow_mut();
            if l.len() < 64 {
                l.push(ix.clone())
            }
        });
        let mut out = Vec::with_capacity(ix.accounts.len());
        for m in &ix.accounts {
            let info = match infos.iter().find(|i| *i.key == m.pubkey) {
                Some(i) => i,
                // programs needn't be among the infos
                None if m.pubkey == system_program::ID => continue,
                None => return Err(ProgramError::NotEnoughAccountKeys),
            };
            // privileges are the union over all occurrences of the account in the caller
            let can_sign = infos.iter().any(|i| *i.key == m.pubkey && i.is_signer) || pdas.contains(&m.pubkey);
            let can_write = infos.iter().any(|i| *i.key == m.pubkey && i.is_writable);
            let want_sign = ix.accounts.iter().any(|x| x.pubkey == m.pubkey && x.is_signer);
            let want_write = ix.accounts.iter().any(|x| x.pubkey == m.pubkey && x.is_writable);
            if (want_sign && !can_sign) || (want_write && !can_write) {
                return Err(ProgramError::MissingRequiredSignature); // PrivilegeEscalation
            }
            let mut i = info.clone();
            i.is_signer = want_sign;
            i.is_writable = want_write;
            out.push(i);
        }
        STACK.with(|s| s.borrow_mut().push(ix.program_id));
        let r = dispatch(&ix.program_id, &out, &ix.data);
        if r.is_err() && std::env::var_os("MC_DEBUG").is_some() {
            eprintln!("cpi to {} failed: {r:?} data {:?}", ix.program_id, ix.data);
        }
        STACK.with(|s| s.borrow_mut().pop());
        r
    }
}

static INIT: Once = Once::new();
pub fn init() {
    INIT.call_once(|| {
        solana_program::program_stubs::set_syscall_stubs(Box::new(Stubs));
        let def = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |info| {
            if QUIET.with(|q| q.get()) {
                PANIC.with(|p| *p.borrow_mut() = Some(info.to_string()));
            } else {
                def(info)
            }
        }));
    });
}

/// Run f with panics captured silently.
pub fn quiet_catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    init();
    let prev = QUIET.with(|q| q.replace(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    QUIET.with(|q| q.set(prev));
    r.map_err(|_| PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default())
}

pub fn set_clock(ts: i64, slot: u64) {
    CLOCK.with(|c| c.set((ts, slot)))
}
pub fn capture_logs(on: bool) {
    LOGS.with(|l| *l.borrow_mut() = if on { Some(vec![]) } else { None });
}
pub fn take_logs() -> Vec<String> {
    LOGS.with(|l| l.borrow_mut().as_mut().map(std::mem::take).unwrap_or_default())
}
pub fn capture_events(on: bool) {
    EVENTS.with(|l| *l.borrow_mut() = if on { Some(vec![]) } else { None });
}
pub fn take_events() -> Vec<Vec<u8>> {
    EVENTS.with(|l| l.borrow_mut().as_mut().map(std::mem::take).unwrap_or_default())
}
pub fn take_return_data() -> Option<Vec<u8>> {
    RETDATA.with(|r| r.borrow_mut().take().map(|x| x.1))
}
pub fn take_cpis() -> Vec<Instruction> {
    LAST_CPI.with(|l| std::mem::take(&mut *l.borrow_mut()))
}
static TOTAL_IX: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
pub fn total_ix() -> u64 {
    TOTAL_IX.load(std::sync::atomic::Ordering::Relaxed)
}
pub fn ix_count() -> u64 {
    IX_COUNT.with(|c| c.get())
}

pub fn ata_program() -> Pubkey {
    anchor_spl::associated_token::ID
}

/// stand-in for any other on-chain program: forwards the instruction
pub fn proxy_program() -> Pubkey {
    static D: std::sync::OnceLock<Pubkey> = std::sync::OnceLock::new();
    *D.get_or_init(|| crate::world::pk("proxy program"))
}
pub fn jupiter() -> Pubkey {
    mango_v4::accounts_ix::jupiter_mainnet_6::ID
}
pub fn compute_budget() -> Pubkey {
    use std::str::FromStr;
    static D: std::sync::OnceLock<Pubkey> = std::sync::OnceLock::new();
    *D.get_or_init(|| Pubkey::from_str("ComputeBudget111111111111111111111111111111").unwrap())
}
pub fn alt_program() -> Pubkey {
    static D: std::sync::OnceLock<Pubkey> = std::sync::OnceLock::new();
    *D.get_or_init(|| "AddressLookupTab1e1111111111111111111111111".parse().unwrap())
}
/// wrap an instruction so that it is executed through another program
pub fn via(program: Pubkey, i: Instruction) -> Instruction {
    let mut accounts = vec![solana_program::instruction::AccountMeta::new_readonly(i.program_id, false)];
    accounts.extend(i.accounts);
    Instruction { program_id: program, accounts, data: i.data }
}

fn dispatch(program: &Pubkey, accounts: &[AccountInfo], data: &[u8]) -> ProgramResult {
    if *program == mango_v4::ID {
        mango_v4::entry(program, accounts, data)
    } else if *program == margin_trade::ID {
        margin_trade::entry(program, accounts, data)
    } else if *program == spl_token::ID {
        spl_token::processor::Processor::process(program, accounts, data)
    } else if *program == system_program::ID {
        system_process(accounts, data)
    } else if *program == crate::world::dex_program() {
        serum_dex::processor::process(program, accounts, data)
    } else if *program == ata_program() {
        ata_process(accounts, data)
    } else if *program == proxy_program() || *program == jupiter() {
        // forwards to the program given as first account
        let metas = accounts[1..].iter().map(|a| solana_program::instruction::AccountMeta { pubkey: *a.key, is_signer: a.is_signer, is_writable: a.is_writable }).collect();
        solana_program::program::invoke(&Instruction { program_id: *accounts[0].key, accounts: metas, data: data.to_vec() }, accounts)
    } else if *program == compute_budget() || *program == alt_program() {
        Ok(())
    } else {
        Err(ProgramError::IncorrectProgramId)
    }
}

fn set_owner(info: &AccountInfo, owner: &Pubkey) {
    // AccountInfo::assign writes through the owner pointer inside the input buffer
    info.assign(owner)
}

fn system_process(accounts: &[AccountInfo], data: &[u8]) -> ProgramResult {
    let ix: SystemInstruction = bincode::deserialize(data).map_err(|_| ProgramError::InvalidInstructionData)?;
    let alloc = |a: &AccountInfo, space: u64| -> ProgramResult {
        if !a.is_signer {
            return Err(ProgramError::MissingRequiredSignature);
        }
        if a.data_len() != 0 || *a.owner != system_program::ID {
            return Err(ProgramError::AccountAlreadyInitialized);
        }
        a.realloc(space as usize, true)
    };
    let transfer = |from: &AccountInfo, to: &AccountInfo, lamports: u64| -> ProgramResult {
        if lamports == 0 {
            return Ok(());
        }
        if !from.is_signer {
            return Err(ProgramError::MissingRequiredSignature);
        }
        if from.data_len() != 0 || *from.owner != system_program::ID || from.lamports() < lamports {
            return Err(ProgramError::InsufficientFunds);
        }
        **from.try_borrow_mut_lamports()? -= lamports;
        **to.try_borrow_mut_lamports()? += lamports;
        Ok(())
    };
    match ix {
        SystemInstruction::CreateAccount { lamports, space, owner } => {
            if accounts[1].lamports() > 0 {
                return Err(ProgramError::Custom(0));
            }
            alloc(&accounts[1], space)?;
            set_owner(&accounts[1], &owner);
            transfer(&accounts[0], &accounts[1], lamports)
        }
        SystemInstruction::Assign { owner } => {
            if !accounts[0].is_signer {
                return Err(ProgramError::MissingRequiredSignature);
            }
            if *accounts[0].owner != system_program::ID {
                return Err(ProgramError::IllegalOwner);
            }
            set_owner(&accounts[0], &owner);
            Ok(())
        }
        SystemInstruction::Transfer { lamports } => transfer(&accounts[0], &accounts[1], lamports),
        SystemInstruction::Allocate { space } => alloc(&accounts[0], space),
        _ => Err(ProgramError::InvalidInstructionData),
    }
}

/// Associated token program: Create / CreateIdempotent.
/// accounts: payer, ata, wallet, mint, system program, token program
fn ata_process(accounts: &[AccountInfo], data: &[u8]) -> ProgramResult {
    let idempotent = data.first() == Some(&1);
    let (payer, ata, wallet, mint) = (&accounts[0], &accounts[1], &accounts[2], &accounts[3]);
    let want = anchor_spl::associated_token::get_associated_token_address(wallet.key, mint.key);
    if want != *ata.key {
        return Err(ProgramError::InvalidSeeds);
    }
    if *ata.owner == spl_token::ID {
        if !idempotent {
            return Err(ProgramError::IllegalOwner);
        }
        return Ok(());
    }
    let rent = Rent::default().minimum_balance(165);
    if !payer.is_signer || payer.lamports() < rent {
        return Err(ProgramError::MissingRequiredSignature);
    }
    **payer.try_borrow_mut_lamports()? -= rent;
    **ata.try_borrow_mut_lamports()? += rent;
    ata.realloc(165, true)?;
    set_owner(ata, &spl_token::ID);
    let ix = spl_token::instruction::initialize_account3(&spl_token::ID, ata.key, mint.key, wallet.key)?;
    spl_token::processor::Processor::process(&spl_token::ID, &[ata.clone(), mint.clone()], &ix.data)
}

impl State {
    pub fn new() -> Self {
        init();
        State { accts: BTreeMap::new(), ts: 1_600_000_000, slot: 1000 }
    }
    pub fn set(&mut self, k: Pubkey, a: Acct) {
        self.accts.insert(k, Arc::new(a));
    }
    pub fn get(&self, k: &Pubkey) -> &Acct {
        self.accts.get(k).unwrap_or_else(|| panic!("no account {k}"))
    }
    pub fn data(&self, k: &Pubkey) -> &[u8] {
        &self.get(k).data
    }
    pub fn has(&self, k: &Pubkey) -> bool {
        self.accts.contains_key(k)
    }
    /// Zero-copy view of an anchor account (8-byte discriminator)
    pub fn zc<T: bytemuck::Pod>(&self, k: &Pubkey) -> T {
        let d = self.data(k);
        bytemuck::pod_read_unaligned(&d[8..8 + std::mem::size_of::<T>()])
    }
    /// Modify an account directly (environment action or test setup)
    pub fn edit(&mut self, k: &Pubkey, f: impl FnOnce(&mut Vec<u8>)) {
        let a = self.get(k);
        let mut data = a.data.clone();
        f(&mut data);
        let mut n = Acct::new(a.lamports, a.owner, data);
        n.executable = a.executable;
        self.set(*k, n);
    }
    pub fn edit_zc<T: bytemuck::Pod>(&mut self, k: &Pubkey, f: impl FnOnce(&mut T)) {
        self.edit(k, |d| {
            let n = std::mem::size_of::<T>();
            let mut t: T = bytemuck::pod_read_unaligned(&d[8..8 + n]);
            f(&mut t);
            d[8..8 + n].copy_from_slice(bytemuck::bytes_of(&t));
        })
    }
    pub fn token_amount(&self, k: &Pubkey) -> u64 {
        let d = self.data(k);
        u64::from_le_bytes(d[64..72].try_into().unwrap())
    }
    pub fn hash(&self) -> u128 {
        let mut acc: u128 = (self.ts as u128) << 64 | self.slot as u128;
        for (k, a) in &self.accts {
            let kb = k.to_bytes();
            let kx = u128::from_le_bytes(kb[..16].try_into().unwrap());
            acc = acc.rotate_left(17) ^ (kx.wrapping_mul(0x9E3779B97F4A7C15F39CC0605CEDC835)) ^ a.hash.wrapping_mul(0xD6E8FEB86659FD93A5A5A5A5A5A5A5A7);
            acc = acc.wrapping_mul(0x2545F4914F6CDD1D9E3779B97F4A7C15);
        }
        acc
    }
    pub fn advance(&mut self, secs: i64) {
        self.ts += secs;
        self.slot += (secs * 2) as u64;
    }

    /// Execute one transaction atomically.
    pub fn tx(&mut self, ixs: &[Instruction]) -> TxResult {
        let save = self.accts.clone();
        set_clock(self.ts, self.slot);
        take_cpis();
        for (n, ix) in ixs.iter().enumerate() {
            if let Err(mut e) = self.exec(ixs, n, ix) {
                e.ix = n;
                self.accts = save;
                return Err(e);
            }
        }
        // rent exemption of touched accounts, removal of empty ones
        let rent = Rent::default();
        let mut remove = vec![];
        for ix in ixs {
            for m in &ix.accounts {
                if !m.is_writable {
                    continue;
                }
                if let Some(a) = self.accts.get(&m.pubkey) {
                    if a.lamports == 0 {
                        remove.push(m.pubkey);
                        continue;
                    }
                    let before = save.get(&m.pubkey);
                    let same = before.map(|b| b.lamports == a.lamports && b.data.len() == a.data.len()).unwrap_or(false);
                    if !same && !rent.is_exempt(a.lamports, a.data.len()) && !(a.data.is_empty() && a.owner == system_program::ID) {
                        self.accts = save.clone();
                        return Err(TxError { ix: 0, err: "insufficient funds for rent".into(), code: None, panicked: false });
                    }
                }
            }
        }
        for k in remove {
            self.accts.remove(&k);
        }
        Ok(())
    }

    fn exec(&mut self, all: &[Instruction], index: usize, ix: &Instruction) -> TxResult {
        IX_COUNT.with(|c| c.set(c.get() + 1));
        TOTAL_IX.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let fail = |s: &str| Err(TxError { ix: index, err: s.to_string(), code: None, panicked: false });
        // instructions sysvar
        let sysvar_data = if ix.accounts.iter().any(|m| m.pubkey == solana_program::sysvar::instructions::ID) {
            let b: Vec<_> = all
                .iter()
                .map(|i| solana_program::sysvar::instructions::BorrowedInstruction {
                    program_id: &i.program_id,
                    accounts: i
                        .accounts
                        .iter()
                        .map(|m| solana_program::sysvar::instructions::BorrowedAccountMeta {
                            pubkey: &m.pubkey,
                            is_signer: m.is_signer,
                            is_writable: m.is_writable,
                        })
                        .collect(),
                    data: &i.data,
                })
                .collect();
            let mut d = solana_program::sysvar::instructions::construct_instructions_data(&b);
            solana_program::sysvar::instructions::store_current_index(&mut d, index as u16);
            Some(Arc::new(Acct::new(1, solana_program::sysvar::ID, d)))
        } else {
            None
        };
        let empty = Arc::new(Acct::new(0, system_program::ID, vec![]));
        // unique accounts with merged privileges
        let mut uniq: Vec<(Pubkey, bool, bool, Arc<Acct>)> = vec![];
        let mut order: Vec<usize> = vec![];
        for m in &ix.accounts {
            if let Some(p) = uniq.iter().position(|u| u.0 == m.pubkey) {
                uniq[p].1 |= m.is_signer;
                uniq[p].2 |= m.is_writable;
                order.push(p);
            } else {
                let a = if m.pubkey == solana_program::sysvar::instructions::ID {
                    sysvar_data.clone().unwrap()
                } else {
                    self.accts.get(&m.pubkey).cloned().unwrap_or_else(|| empty.clone())
                };
                order.push(uniq.len());
                uniq.push((m.pubkey, m.is_signer, m.is_writable, a));
            }
        }
        // serialize like the BPF loader does
        let total: usize = 8 + uniq.iter().map(|u| 96 + u.3.data.len() + MAX_INCREASE + 32).sum::<usize>() + order.len() * 8 + ix.data.len() + 64;
        let mut buf = BUF.with(|b| std::mem::take(&mut *b.borrow_mut()));
        if buf.len() * 16 < total {
            buf.resize(total / 16 + 1, 0);
        }
        let base = buf.as_mut_ptr() as *mut u8;
        let mut off = 0usize;
        let mut pos: Vec<(usize, usize)> = vec![(0, 0); uniq.len()]; // (offset of owner, offset of data)
        let mut seen = vec![u8::MAX; uniq.len()];
        unsafe {
            let w = |o: &mut usize, d: &[u8]| {
                std::ptr::copy_nonoverlapping(d.as_ptr(), base.add(*o), d.len());
                *o += d.len();
            };
            w(&mut off, &(order.len() as u64).to_le_bytes());
            for (n, &u) in order.iter().enumerate() {
                if seen[u] != u8::MAX {
                    w(&mut off, &[seen[u], 0, 0, 0, 0, 0, 0, 0]);
                    continue;
                }
                seen[u] = n as u8;
                let (k, s, wr, a) = &uniq[u];
                w(&mut off, &[u8::MAX, *s as u8, *wr as u8, a.executable as u8, 0, 0, 0, 0]);
                w(&mut off, k.as_ref());
                pos[u].0 = off;
                w(&mut off, a.owner.as_ref());
                w(&mut off, &a.lamports.to_le_bytes());
                w(&mut off, &(a.data.len() as u64).to_le_bytes());
                pos[u].1 = off;
                w(&mut off, &a.data);
                std::ptr::write_bytes(base.add(off), 0, MAX_INCREASE);
                off += MAX_INCREASE;
                off += (off as *const u8).align_offset(8);
                w(&mut off, &0u64.to_le_bytes());
            }
            w(&mut off, &(ix.data.len() as u64).to_le_bytes());
            w(&mut off, &ix.data);
            w(&mut off, ix.program_id.as_ref());
        }
        STACK.with(|s| {
            let mut s = s.borrow_mut();
            s.clear();
            s.push(ix.program_id);
        });
        RETDATA.with(|r| *r.borrow_mut() = None);
        let r = quiet_catch(|| unsafe {
            let (program_id, infos, data) = solana_program::entrypoint::deserialize(base);
            dispatch(program_id, &infos, data)
        });
        STACK.with(|s| s.borrow_mut().clear());
        let mut result: TxResult = match r {
            Ok(Ok(())) => Ok(()),
            Ok(Err(e)) => Err(TxError {
                ix: index,
                code: if let ProgramError::Custom(c) = e { Some(c) } else { None },
                err: format!("{e:?}"),
                panicked: false,
            }),
            Err(p) => Err(TxError { ix: index, code: None, err: format!("panic: {p}"), panicked: true }),
        };
        if result.is_ok() {
            let mut before = 0u128;
            let mut after = 0u128;
            for (u, (k, _s, writable, a)) in uniq.iter().enumerate() {
                let (o, d) = pos[u];
                let (owner, lamports, data) = unsafe {
                    let owner: Pubkey = *(base.add(o) as *const Pubkey);
                    let lamports = (base.add(o + 32) as *const u64).read_unaligned();
                    let len = (base.add(o + 40) as *const u64).read_unaligned() as usize;
                    (owner, lamports, std::slice::from_raw_parts(base.add(d), len))
                };
                before += a.lamports as u128;
                after += lamports as u128;
                if owner == a.owner && lamports == a.lamports && data == &a.data[..] {
                    continue;
                }
                if !writable {
                    result = fail("readonly account modified");
                    break;
                }
                self.accts.insert(*k, Arc::new(Acct::new(lamports, owner, data.to_vec())));
            }
            if result.is_ok() && before != after {
                result = fail("sum of account balances changed");
            }
        }
        BUF.with(|b| *b.borrow_mut() = buf);
        result
    }
}
