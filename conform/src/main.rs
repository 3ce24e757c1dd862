//! Compares the simulator's stand-in for the Solana runtime (sim/src/bank.rs) with the real one.
//!
//! Input: transactions recorded by `RSIM_TRACE=file rsim check ...`, each with the accounts before and after.
//! Every one is executed by `solana_runtime::Bank` 1.18.19 (with the SPL Token program either as the SBF binary that ships with
//! solana-program-test or natively) from the same accounts, and the outcome, the accounts afterwards and the
//! return data are compared.  A development tool: not a check, it decides no property.

use serde_json::Value;
use solana_accounts_db::transaction_results::TransactionExecutionResult;
use solana_program_runtime::loaded_programs::LoadedProgram;
use solana_program_test::{processor, ProgramTest};
use solana_runtime::{bank::Bank, bank_forks::BankForks, genesis_utils};
use solana_sdk::{
    account::{Account, AccountSharedData, ReadableAccount},
    account_info::AccountInfo,
    clock::Clock,
    entrypoint::ProgramResult,
    instruction::{AccountMeta, Instruction},
    message::Message,
    program_error::ProgramError,
    pubkey::Pubkey,
    rent::Rent,
    signature::Signature,
    transaction::Transaction,
};
use std::{
    cell::RefCell,
    collections::BTreeMap,
    io::{BufRead, BufReader},
    panic::{catch_unwind, AssertUnwindSafe},
    rc::Rc,
    sync::{Arc, RwLock},
};

/// The chain aligns 128 bit numbers to 8 bytes, this host to 16: account data is moved to aligned buffers
/// while the program runs.
fn rewards(program: &Pubkey, accounts: &[AccountInfo], data: &[u8]) -> ProgramResult {
    let mut bufs: BTreeMap<usize, (Vec<u128>, usize)> = BTreeMap::new();
    for a in accounts {
        let at = a.data.as_ptr() as usize;
        bufs.entry(at).or_insert_with(|| {
            let d = a.data.borrow();
            let mut v = vec![0u128; 1 + (d.len() + 10_240) / 16 + 2];
            unsafe { std::ptr::copy_nonoverlapping(d.as_ptr(), (v.as_mut_ptr() as *mut u8).add(16), d.len()) };
            (v, d.len())
        });
    }
    let mut shared: BTreeMap<usize, Rc<RefCell<&mut [u8]>>> = BTreeMap::new();
    for (at, (v, n)) in bufs.iter_mut() {
        let p = unsafe { (v.as_mut_ptr() as *mut u8).add(16) };
        shared.insert(*at, Rc::new(RefCell::new(unsafe { std::slice::from_raw_parts_mut(p, *n) })));
    }
    let infos: Vec<AccountInfo> = accounts
        .iter()
        .map(|a| AccountInfo { data: shared[&(a.data.as_ptr() as usize)].clone(), ..a.clone() })
        .collect();
    let r = catch_unwind(AssertUnwindSafe(|| {
        mplx_rewards::instructions::process_instruction(program, unsafe { std::mem::transmute(&infos[..]) }, data)
    }))
    .unwrap_or(Err(ProgramError::Custom(0xdead)));
    r?;
    for (a, i) in accounts.iter().zip(&infos) {
        let d = i.data.borrow();
        if d.len() != a.data_len() {
            a.realloc(d.len(), false)?;
        }
        // accounts of other programs are only changed by calls, which change the original as well
        a.data.borrow_mut().copy_from_slice(&d);
    }
    Ok(())
}

trait DataPtr {
    fn as_ptr(&self) -> *const u8;
}
impl DataPtr for Rc<RefCell<&mut [u8]>> {
    /// an address that is the same for the same account: that of the shared cell
    fn as_ptr(&self) -> *const u8 {
        Rc::as_ptr(self) as *const u8
    }
}

fn token(program: &Pubkey, accounts: &[AccountInfo], data: &[u8]) -> ProgramResult {
    spl_token::processor::Processor::process(program, accounts, data)
}

type Vm = solana_program_runtime::invoke_context::BuiltinFunctionWithContext;
fn rewards_vm() -> Option<Vm> {
    processor!(rewards)
}
fn token_vm() -> Option<Vm> {
    processor!(token)
}

fn unpack(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let (mut i, mut d) = (0, vec![]);
    while i < b.len() {
        if b[i] == b'z' {
            let e = i + b[i..].iter().position(|c| *c == b'.').unwrap();
            d.resize(d.len() + s[i + 1..e].parse::<usize>().unwrap(), 0);
            i = e + 1;
        } else {
            d.push(u8::from_str_radix(&s[i..i + 2], 16).unwrap());
            i += 2;
        }
    }
    d
}
fn key(v: &Value) -> Pubkey {
    v.as_str().unwrap().parse().unwrap()
}
fn acct(v: &Value) -> Account {
    Account {
        lamports: v[0].as_u64().unwrap(),
        owner: key(&v[1]),
        executable: v[2].as_bool().unwrap(),
        data: unpack(v[3].as_str().unwrap()),
        rent_epoch: u64::MAX,
    }
}

fn bank(rate: u64, native_token: bool, payer: &Pubkey) -> (Arc<RwLock<BankForks>>, Arc<Bank>) {
    let rent = Rent { lamports_per_byte_year: rate, ..Rent::default() };
    let mut g = genesis_utils::create_genesis_config_with_leader(1 << 50, &Pubkey::new_unique(), 1 << 40).genesis_config;
    g.rent = rent.clone();
    g.accounts.insert(*payer, Account { lamports: 1 << 60, ..Account::default() });
    let mut b = Bank::new_with_paths(
        &g,
        Arc::new(solana_runtime::runtime_config::RuntimeConfig::default()),
        vec![],
        None,
        None,
        Default::default(),
        Default::default(),
        false,
        None,
        None,
        None,
        Default::default(),
    );
    if native_token {
        b.add_builtin(spl_token::id(), "token".into(), LoadedProgram::new_builtin(0, 5, token_vm().unwrap()));
    } else {
        for (k, a) in solana_program_test::programs::spl_programs(&rent) {
            b.store_account(&k, &a);
        }
    }
    b.add_builtin(mplx_rewards::id(), "rewards".into(), LoadedProgram::new_builtin(0, 7, rewards_vm().unwrap()));
    let b = Arc::new(b);
    b.fill_bank_with_ticks_for_tests();
    let forks = BankForks::new_rw_arc(Bank::new_from_parent(b.clone(), b.collector_id(), b.slot() + 1));
    let b = forks.read().unwrap().working_bank();
    (forks, b)
}

struct Cmp {
    banks: BTreeMap<u64, (Arc<RwLock<BankForks>>, Arc<Bank>)>,
    native_token: bool,
    payer: Pubkey,
    /// (what the simulator said, what the runtime said) -> number
    errors: BTreeMap<(String, String), u64>,
    same: [u64; 2],
    skipped: u64,
    bad: u64,
}

impl Cmp {
    fn one(&mut self, n: usize, c: &Value) {
        let rate = c["rate"].as_u64().unwrap();
        let (nt, payer) = (self.native_token, self.payer);
        let b = self.banks.entry(rate).or_insert_with(|| bank(rate, nt, &payer)).1.clone();
        let reserved = |k: &Pubkey| {
            *k == mplx_rewards::id() || *k == spl_token::id() || solana_sdk::sysvar::is_sysvar_id(k) || solana_sdk::system_program::check_id(k)
        };
        let accs: Vec<(Pubkey, Account, Account)> =
            c["acc"].as_array().unwrap().iter().map(|a| (key(&a[0]), acct(&a[1]), acct(&a[2]))).collect();
        for (k, a, _) in &accs {
            if !reserved(k) {
                b.store_account(k, &AccountSharedData::from(a.clone()));
            }
        }
        let mut clock: Clock = b.clock();
        clock.unix_timestamp = c["now"].as_i64().unwrap();
        b.set_sysvar_for_tests(&clock);
        let ixs: Vec<Instruction> = c["ix"]
            .as_array()
            .unwrap()
            .iter()
            .map(|i| Instruction {
                program_id: key(&i[0]),
                accounts: i[1]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|m| AccountMeta {
                        pubkey: key(&m[0]),
                        is_signer: m[1].as_bool().unwrap(),
                        is_writable: m[2].as_bool().unwrap(),
                    })
                    .collect(),
                data: unpack(i[2].as_str().unwrap()),
            })
            .collect();
        b.register_unique_recent_blockhash_for_test();
        let mut m = Message::new(&ixs, Some(&self.payer));
        m.recent_blockhash = b.last_blockhash();
        let mut tx = Transaction::new_unsigned(m);
        for s in tx.signatures.iter_mut() {
            *s = Signature::new_unique();
        }
        let (ok, err, ret) = match b.process_transaction_with_metadata(tx) {
            TransactionExecutionResult::Executed { details: d, .. } => {
                let e = d.status.clone().err().map(|e| format!("{e:?}")).unwrap_or_default();
                (d.status.is_ok(), e, d.return_data.map(|r| r.data))
            }
            TransactionExecutionResult::NotExecuted(e) => (false, format!("not executed: {e:?}"), None),
        };
        let want = c["ok"].as_bool().unwrap();
        let said = c["err"].as_str().unwrap_or("").to_string();
        if !(ok && want) {
            *self.errors.entry((said.clone(), err.clone())).or_default() += 1;
        }
        let mut why = vec![];
        if ok != want {
            why.push(format!("simulator {want} ({said}), runtime {ok} ({err})"));
        } else if ok {
            for (k, _, p) in &accs {
                if reserved(k) {
                    continue;
                }
                let g = b.get_account(k).unwrap_or_default();
                if g.lamports() != p.lamports || (p.lamports > 0 && (g.data() != p.data || *g.owner() != p.owner)) {
                    let d = g.data().iter().zip(&p.data).position(|(x, y)| x != y);
                    why.push(format!("{k}: lamports {} {}, owner {} {}, len {} {}, first difference {d:?}", p.lamports, g.lamports(), p.owner, g.owner(), p.data.len(), g.data().len()));
                }
            }
            let r = c["ret"].as_str().map(unpack);
            // the runtime reports what any program of the transaction left; the simulator the last instruction's
            if r.is_some() && r.as_ref().map(|r| r.trim()) != ret.as_ref().map(|r| r.trim()) {
                why.push(format!("return data {r:?} {ret:?}"));
            }
        }
        if why.is_empty() {
            self.same[ok as usize] += 1;
        } else {
            self.bad += 1;
            if self.bad <= 40 {
                println!("{n}: {} {}", c["ix"].as_array().unwrap().iter().map(|i| i[2].as_str().unwrap().chars().take(2).collect::<String>()).collect::<Vec<_>>().join("+"), why.join("; "));
            }
        }
    }
}

trait Trim {
    fn trim(&self) -> &[u8];
}
impl Trim for Vec<u8> {
    /// the runtime drops trailing zeros of return data when it reports it
    fn trim(&self) -> &[u8] {
        &self[..self.iter().rposition(|b| *b != 0).map_or(0, |p| p + 1)]
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if std::env::var("V").is_err() { std::panic::set_hook(Box::new(|_| {})); }
    // installs the native programs' system calls
    let rt = solana_program_test::tokio::runtime::Builder::new_multi_thread().worker_threads(1).enable_all().build().unwrap();
    drop(rt.block_on(ProgramTest::default().start()));
    let mut c = Cmp {
        banks: BTreeMap::new(),
        native_token: a.get(2).is_some_and(|s| s == "native"),
        payer: Pubkey::new_unique(),
        errors: BTreeMap::new(),
        same: [0; 2],
        skipped: 0,
        bad: 0,
    };
    for (n, l) in BufReader::new(std::fs::File::open(&a[1]).unwrap()).lines().enumerate() {
        match serde_json::from_str(&l.unwrap()) {
            Ok(v) => c.one(n, &v),
            Err(_) => c.skipped += 1,
        }
    }
    println!("{} accepted and {} refused alike, {} differ, {} unreadable", c.same[1], c.same[0], c.bad, c.skipped);
    let mut e: Vec<_> = c.errors.iter().collect();
    e.sort_by_key(|x| std::cmp::Reverse(*x.1));
    for ((x, y), n) in e.iter().take(60) {
        println!("{n:6}  {x}  |  {y}");
    }
    std::process::exit((c.bad > 0) as i32);
}
