//! The program's ABI as an external caller knows it, written independently of the program's own
//! code: addresses, instruction encodings with account lists, and account layouts.

use crate::bank::Acct;
use solana_program::{
    instruction::{AccountMeta, Instruction},
    pubkey::Pubkey,
    system_program, sysvar,
};
use std::{cell::RefCell, collections::BTreeMap, collections::HashMap};

pub const DAY: u64 = 86_400;
pub const POOL_LEN: usize = 64_480;
pub const MINING_LEN: usize = 1_776;
pub const MINING_DATES: usize = 50;
pub const POOL_DATES: usize = 365;
pub const INDEX_DATES: usize = 1_095;

pub fn program() -> Pubkey {
    // BF5PatmRTQDgEKoXR7iHRbkibEEi83nVM38cUKWzQcTR
    mplx_rewards::id()
}

thread_local! {
    static PDA: RefCell<HashMap<(u8, Pubkey, Pubkey), Pubkey>> = RefCell::new(HashMap::new());
}

fn pda(kind: u8, a: &Pubkey, b: &Pubkey) -> Pubkey {
    PDA.with(|m| {
        let mut m = m.borrow_mut();
        if m.len() > 20_000 {
            m.clear();
        }
        *m.entry((kind, *a, *b)).or_insert_with(|| {
            let tag: &[u8] = if kind == 0 { b"mining" } else { b"vault" };
            Pubkey::find_program_address(&[tag, a.as_ref(), b.as_ref()], &program()).0
        })
    })
}

pub fn mining_addr(owner: &Pubkey, pool: &Pubkey) -> Pubkey {
    pda(0, owner, pool)
}
pub fn vault_addr(pool: &Pubkey, mint: &Pubkey) -> Pubkey {
    pda(1, pool, mint)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, serde::Serialize, serde::Deserialize)]
pub enum Per {
    Flex,
    M3,
    M6,
    Y1,
}
pub const PERIODS: [Per; 4] = [Per::Flex, Per::M3, Per::M6, Per::Y1];
impl Per {
    pub fn mult(self) -> u64 {
        match self {
            Per::Flex => 1,
            Per::M3 => 2,
            Per::M6 => 4,
            Per::Y1 => 6,
        }
    }
    pub fn days(self) -> u64 {
        match self {
            Per::Flex => 5,
            Per::M3 => 90,
            Per::M6 => 180,
            Per::Y1 => 365,
        }
    }
    pub fn code(self) -> u8 {
        match self {
            Per::Flex => 1,
            Per::M3 => 2,
            Per::M6 => 3,
            Per::Y1 => 4,
        }
    }
    pub fn expiry(self, start: u64) -> u64 {
        start - start % DAY + self.days() * DAY
    }
}

/// One call of the program with everything resolved.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Call {
    InitPool { pool: Pubkey, mint: Pubkey, payer: Pubkey, dep: Pubkey, fill: Pubkey, dist: Pubkey },
    Fill { pool: Pubkey, mint: Pubkey, auth: Pubkey, source: Pubkey, amount: u64, ends: u64 },
    InitMining { pool: Pubkey, payer: Pubkey, owner: Pubkey },
    Deposit { pool: Pubkey, owner: Pubkey, dep: Pubkey, delegate: Pubkey, amount: u64, per: u8 },
    Withdraw { pool: Pubkey, owner: Pubkey, dep: Pubkey, delegate: Pubkey, amount: u64 },
    Claim { pool: Pubkey, mint: Pubkey, owner: Pubkey, dep: Pubkey, dest: Pubkey },
    Extend { pool: Pubkey, owner: Pubkey, dep: Pubkey, delegate: Pubkey, old: u8, new: u8, start: u64, base: u64, add: u64, mint: Pubkey },
    Distribute { pool: Pubkey, auth: Pubkey },
    Close { pool: Pubkey, owner: Pubkey, target: Pubkey, dep: Pubkey },
    ChangeDelegate { pool: Pubkey, owner: Pubkey, dep: Pubkey, old: Pubkey, new: Pubkey, amount: u64 },
    Slash { pool: Pubkey, owner: Pubkey, dep: Pubkey, native: u64, weighted: u64, date: Option<u64> },
    Decrease { pool: Pubkey, owner: Pubkey, dep: Pubkey, amount: u64 },
}

fn w(k: Pubkey) -> AccountMeta {
    AccountMeta::new(k, false)
}
fn r(k: Pubkey) -> AccountMeta {
    AccountMeta::new_readonly(k, false)
}
fn ws(k: Pubkey) -> AccountMeta {
    AccountMeta::new(k, true)
}
fn rs(k: Pubkey) -> AccountMeta {
    AccountMeta::new_readonly(k, true)
}

struct E(Vec<u8>);
impl E {
    fn u8(mut self, v: u8) -> E {
        self.0.push(v);
        self
    }
    fn u64(mut self, v: u64) -> E {
        self.0.extend_from_slice(&v.to_le_bytes());
        self
    }
    fn key(mut self, v: &Pubkey) -> E {
        self.0.extend_from_slice(v.as_ref());
        self
    }
}
fn e(tag: u8) -> E {
    E(vec![tag])
}

impl Call {
    /// Byte-level encoding by this harness.
    pub fn raw(&self) -> Instruction {
        let m = |o: &Pubkey, p: &Pubkey| mining_addr(o, p);
        let tok = spl_token::id();
        let (accounts, data) = match self {
            Call::InitPool { pool, mint, payer, dep, fill, dist } => (
                vec![
                    w(*pool), r(*mint), w(vault_addr(pool, mint)), ws(*payer), rs(*dep),
                    r(sysvar::rent::id()), r(tok), r(system_program::id()),
                ],
                e(0).key(fill).key(dist),
            ),
            Call::Fill { pool, mint, auth, source, amount, ends } => (
                vec![w(*pool), r(*mint), w(vault_addr(pool, mint)), rs(*auth), w(*source), r(tok)],
                e(1).u64(*amount).u64(*ends),
            ),
            Call::InitMining { pool, payer, owner } => (
                vec![w(*pool), w(m(owner, pool)), ws(*payer), r(system_program::id())],
                e(2).key(owner),
            ),
            Call::Deposit { pool, owner, dep, delegate, amount, per } => (
                vec![w(*pool), w(m(owner, pool)), rs(*dep), w(m(delegate, pool))],
                e(3).u64(*amount).u8(*per).key(owner).key(delegate),
            ),
            Call::Withdraw { pool, owner, dep, delegate, amount } => (
                vec![w(*pool), w(m(owner, pool)), rs(*dep), w(m(delegate, pool))],
                e(4).u64(*amount).key(owner).key(delegate),
            ),
            Call::Claim { pool, mint, owner, dep, dest } => (
                vec![
                    r(*pool), r(*mint), w(vault_addr(pool, mint)), w(m(owner, pool)), rs(*owner),
                    rs(*dep), w(*dest), r(tok),
                ],
                e(5),
            ),
            Call::Extend { pool, owner, dep, delegate, old, new, start, base, add, .. } => (
                vec![w(*pool), w(m(owner, pool)), rs(*dep), w(m(delegate, pool))],
                e(6).u8(*old).u8(*new).u64(*start).u64(*base).u64(*add).key(owner).key(delegate),
            ),
            Call::Distribute { pool, auth } => (vec![w(*pool), rs(*auth)], e(7)),
            Call::Close { pool, owner, target, dep } => (
                vec![w(m(owner, pool)), rs(*owner), w(*target), rs(*dep), w(*pool)],
                e(8),
            ),
            Call::ChangeDelegate { pool, owner, dep, old, new, amount } => (
                vec![
                    w(*pool), w(m(owner, pool)), rs(*dep), rs(*owner), w(m(old, pool)), w(m(new, pool)),
                ],
                e(9).u64(*amount).key(new),
            ),
            Call::Slash { pool, owner, dep, native, weighted, date } => {
                let mut d = e(10).key(owner).u64(*native).u64(*weighted);
                d = match date {
                    None => d.u8(0),
                    Some(t) => d.u8(1).u64(*t),
                };
                (vec![rs(*dep), w(*pool), w(m(owner, pool))], d)
            }
            Call::Decrease { pool, owner, dep, amount } => (
                vec![rs(*dep), w(*pool), w(m(owner, pool))],
                e(11).key(owner).u64(*amount),
            ),
        };
        Instruction { program_id: program(), accounts, data: data.0 }
    }

    /// The program crate's own instruction builders.  None: not expressible.
    pub fn via_program(&self) -> Option<Instruction> {
        use mplx_rewards::instruction as b;
        use mplx_rewards::utils::LockupPeriod as L;
        let id = program();
        let m = |o: &Pubkey, p: &Pubkey| mining_addr(o, p);
        let l = |c: u8| match c {
            1 => Some(L::Flex),
            2 => Some(L::ThreeMonths),
            3 => Some(L::SixMonths),
            4 => Some(L::OneYear),
            0 => Some(L::None),
            _ => None,
        };
        Some(match self {
            Call::InitPool { pool, mint, payer, dep, fill, dist } => {
                b::initialize_pool(&id, pool, mint, &vault_addr(pool, mint), payer, dep, fill, dist)
            }
            Call::Fill { pool, mint, auth, source, amount, ends } => {
                b::fill_vault(&id, pool, mint, &vault_addr(pool, mint), auth, source, *amount, *ends)
            }
            Call::InitMining { pool, payer, owner } => {
                b::initialize_mining(&id, pool, &m(owner, pool), payer, owner)
            }
            Call::Deposit { pool, owner, dep, delegate, amount, per } => b::deposit_mining(
                &id, pool, &m(owner, pool), dep, &m(delegate, pool), *amount, l(*per)?, owner, delegate,
            ),
            Call::Withdraw { pool, owner, dep, delegate, amount } => b::withdraw_mining(
                &id, pool, &m(owner, pool), dep, &m(delegate, pool), *amount, owner, delegate,
            ),
            Call::Claim { pool, mint, owner, dep, dest } => b::claim(
                &id, pool, mint, &vault_addr(pool, mint), &m(owner, pool), owner, dep, dest,
            ),
            Call::Extend { pool, owner, dep, delegate, old, new, start, base, add, .. } => b::extend_stake(
                &id, pool, &m(owner, pool), dep, &m(delegate, pool), l(*old)?, l(*new)?, *start, *base, *add,
                owner, delegate,
            ),
            Call::Distribute { pool, auth } => b::distribute_rewards(&id, pool, auth),
            Call::Close { pool, owner, target, dep } => {
                b::close_mining(&id, &m(owner, pool), owner, target, dep, pool)
            }
            Call::ChangeDelegate { pool, owner, dep, old, new, amount } => b::change_delegate(
                &id, pool, &m(owner, pool), dep, owner, &m(old, pool), &m(new, pool), new, *amount,
            ),
            Call::Slash { pool, owner, dep, native, weighted, date } => {
                b::slash(&id, dep, pool, &m(owner, pool), owner, *native, *weighted, *date)
            }
            Call::Decrease { pool, owner, dep, amount } => {
                b::decrease_rewards(&id, dep, pool, &m(owner, pool), owner, *amount)
            }
        })
    }
}

// ------------------------------------------------------------------------------------------
// account layouts

fn u64_at(d: &[u8], o: usize) -> u64 {
    u64::from_le_bytes(d[o..o + 8].try_into().unwrap())
}
fn u128_at(d: &[u8], o: usize) -> u128 {
    u128::from_le_bytes(d[o..o + 16].try_into().unwrap())
}
fn key_at(d: &[u8], o: usize) -> Pubkey {
    Pubkey::new_from_array(d[o..o + 32].try_into().unwrap())
}

/// In-order walk of a zero-copy red-black tree of u64 -> u64.
fn tree(d: &[u8], cap: usize) -> Option<BTreeMap<u64, u64>> {
    let rd = |o: usize| u32::from_le_bytes(d[o..o + 4].try_into().unwrap());
    let mut out = BTreeMap::new();
    let root = rd(0);
    let mut stack = vec![root];
    let mut seen = 0;
    while let Some(i) = stack.pop() {
        if i == 0 {
            continue;
        }
        seen += 1;
        if seen > cap || i as usize > cap {
            return None;
        }
        let o = 32 + (i as usize - 1) * 32;
        stack.push(rd(o));
        stack.push(rd(o + 4));
        if out.insert(u64_at(d, o + 16), u64_at(d, o + 24)).is_some() {
            return None;
        }
    }
    Some(out)
}

#[derive(Clone, Debug)]
pub struct PoolView {
    pub dep: Pubkey,
    pub dist: Pubkey,
    pub fill: Pubkey,
    pub mint: Pubkey,
    pub index: u128,
    pub total: u64,
    pub ends: u64,
    pub reserve: u64,
    pub bump: u8,
    pub kind: u8,
    pub diffs: BTreeMap<u64, u64>,
}

pub fn pool_view(a: &Acct) -> Option<PoolView> {
    let d = &a.data[..];
    if a.owner != program() || d.len() != POOL_LEN {
        return None;
    }
    Some(PoolView {
        dep: key_at(d, 0),
        dist: key_at(d, 32),
        fill: key_at(d, 64),
        mint: key_at(d, 96),
        index: u128_at(d, 128),
        total: u64_at(d, 144),
        ends: u64_at(d, 152),
        reserve: u64_at(d, 160),
        bump: d[168],
        kind: d[169],
        diffs: tree(&d[176..], POOL_DATES)?,
    })
}

#[derive(Clone, Debug)]
pub struct MiningView {
    pub pool: Pubkey,
    pub owner: Pubkey,
    pub mint: Pubkey,
    pub index: u128,
    pub share: u64,
    pub unclaimed: u64,
    pub from_others: u64,
    pub bump: u8,
    pub kind: u8,
    pub diffs: BTreeMap<u64, u64>,
}

pub fn mining_view(a: &Acct) -> Option<MiningView> {
    let d = &a.data[..];
    if a.owner != program() || d.len() != MINING_LEN {
        return None;
    }
    Some(MiningView {
        pool: key_at(d, 0),
        owner: key_at(d, 32),
        mint: key_at(d, 64),
        index: u128_at(d, 96),
        share: u64_at(d, 112),
        unclaimed: u64_at(d, 120),
        from_others: u64_at(d, 128),
        bump: d[136],
        kind: d[137],
        diffs: tree(&d[144..], MINING_DATES)?,
    })
}
