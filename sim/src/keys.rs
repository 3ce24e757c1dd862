//! Run configuration, deterministic addresses and the genesis state.

use crate::bank::{Acct, Bank};
use crate::wire::POOL_LEN;
use serde::{Deserialize, Serialize};
use solana_program::{program_option::COption, program_pack::Pack, pubkey::Pubkey, system_program};
use std::sync::Arc;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Cfg {
    /// selects one of a few families of addresses (and so of PDA bumps)
    pub salt: u8,
    /// honest pools; one more, run by the attacker, is at index `npools`
    pub npools: u8,
    /// honest users; one more, the attacker, is at index `nusers`
    pub nusers: u8,
    pub start: u64,
    pub shared_dep: bool,
    pub shared_dist: bool,
    pub shared_mint: bool,
    pub fill_is_dep: bool,
    pub dist_is_dep: bool,
    /// who else pays, fills, distributes and receives: bits, see below
    #[serde(default)]
    pub overlap: u8,
    /// which price of storage the cluster has: 0 is today's, see below
    #[serde(default)]
    pub rent: u8,
    /// what the roles' accounts are besides addresses: bits, see `genesis`
    #[serde(default)]
    pub kinds: u8,
}

/// What can be filled in: half of all there can be for the first pool.
pub fn src_tokens(p: u8) -> u64 {
    1 << if p == 0 { 63 } else { 61 }
}
pub const LAMPORTS: u64 = 1 << 44;

fn key(salt: u8, kind: &str, i: u32) -> Pubkey {
    use solana_program::hash::hashv;
    Pubkey::new_from_array(hashv(&[b"rsim", &[salt], kind.as_bytes(), &i.to_le_bytes()]).to_bytes())
}

impl Cfg {
    pub fn attacker(&self) -> u8 {
        self.nusers
    }
    pub fn apool(&self) -> u8 {
        self.npools
    }
    pub fn user(&self, u: u8) -> Pubkey {
        key(self.salt, "user", u as u32)
    }
    pub fn payer(&self) -> Pubkey {
        match self.overlap & 3 {
            1 => self.fill(0),
            2 => self.dep(0),
            3 => self.user(0),
            _ => key(self.salt, "payer", 0),
        }
    }
    pub fn pool(&self, p: u8) -> Pubkey {
        key(self.salt, "pool", p as u32)
    }
    /// a spare program-owned zeroed account of pool size
    pub fn spare_pool(&self) -> Pubkey {
        key(self.salt, "sparepool", 0)
    }
    pub fn dep(&self, p: u8) -> Pubkey {
        if p == self.npools {
            return self.user(self.nusers);
        }
        key(self.salt, "dep", if self.shared_dep { 0 } else { p as u32 })
    }
    pub fn fill(&self, p: u8) -> Pubkey {
        if p == self.npools {
            return self.user(self.nusers);
        }
        if self.fill_is_dep {
            return self.dep(p);
        }
        if self.overlap & 4 != 0 {
            return self.user(0);
        }
        key(self.salt, "fill", p as u32)
    }
    pub fn dist(&self, p: u8) -> Pubkey {
        if p == self.npools {
            return self.user(self.nusers);
        }
        if self.dist_is_dep {
            return self.dep(p);
        }
        if self.overlap & 8 != 0 {
            return self.fill(p);
        }
        key(self.salt, "dist", if self.shared_dist { 0 } else { p as u32 })
    }
    pub fn mint_ix(&self, p: u8) -> u32 {
        if self.shared_mint || p == self.npools {
            0
        } else {
            p as u32
        }
    }
    pub fn mint(&self, p: u8) -> Pubkey {
        key(self.salt, "mint", self.mint_ix(p))
    }
    pub fn xmint(&self) -> Pubkey {
        key(self.salt, "xmint", 0)
    }
    pub fn freezer(&self) -> Pubkey {
        key(self.salt, "freezer", 0)
    }
    pub fn src(&self, p: u8) -> Pubkey {
        key(self.salt, "src", p as u32)
    }
    /// tokens of pool p's mint that belong to a role of pool q
    pub fn stash(&self, p: u8, q: u8, role: u8) -> Pubkey {
        key(self.salt, "stash", p as u32 * 4096 + q as u32 * 64 + role as u32)
    }
    /// the user's token account for the pool's reward mint
    pub fn ata(&self, u: u8, p: u8) -> Pubkey {
        key(self.salt, "ata", u as u32 * 64 + self.mint_ix(p))
    }
    pub fn xata(&self, u: u8) -> Pubkey {
        key(self.salt, "xata", u as u32)
    }
    pub fn target(&self, i: u8) -> Pubkey {
        match i {
            1 if self.overlap & 16 != 0 => return self.payer(),
            2 if self.overlap & 32 != 0 => return self.user(0),
            _ => {}
        }
        key(self.salt, "target", i as u32)
    }
    pub fn forged(&self, i: u32) -> Pubkey {
        key(self.salt, "forged", i)
    }
    pub fn vault(&self, p: u8) -> Pubkey {
        crate::wire::vault_addr(&self.pool(p), &self.mint(p))
    }
    pub fn mining(&self, p: u8, u: u8) -> Pubkey {
        crate::wire::mining_addr(&self.user(u), &self.pool(p))
    }

    /// whether the user can pay for its own account
    pub fn user_pays(&self, u: u8) -> bool {
        u == self.nusers || self.kinds & 12 == 0 || self.user(u) == self.payer()
    }
    pub fn staking(&self) -> Pubkey {
        key(self.salt, "staking", 0)
    }

    /// Roles and participants may be records of other programs, or have no account at all.
    fn dress(&self, b: &mut Bank) {
        let other = |b: &mut Bank, k: Pubkey, foreign: bool, absent: bool| {
            if k == self.payer() || k == self.user(self.nusers) || k == self.freezer() {
                return;
            }
            if foreign {
                put(b, k, (0..200u32).map(|i| (i * 7 + self.salt as u32) as u8).collect(), self.staking());
            } else if absent {
                b.accts.remove(&k);
            }
        };
        for p in 0..self.npools {
            other(b, self.dep(p), self.kinds & 1 != 0, self.kinds & 2 != 0);
            if self.overlap & 4 == 0 {
                other(b, self.fill(p), self.kinds & 16 != 0, false);
            }
            if self.overlap & 12 != 12 {
                other(b, self.dist(p), self.kinds & 16 != 0, self.kinds & 32 != 0);
            }
        }
        for u in 0..self.nusers {
            // what a closed account held goes to an account of the system program
            let system = u == 0 && self.overlap & 32 != 0;
            other(b, self.user(u), self.kinds & 4 != 0 && !system, self.kinds & 8 != 0);
        }
        if self.kinds & 32 != 0 {
            other(b, self.target(0), false, true);
        }
        if self.kinds & 64 != 0 {
            // the fill authority may spend somebody else's tokens
            for p in 0..self.npools {
                retoken(b, self.src(p), |a| {
                    a.owner = key(self.salt, "treasury", p as u32);
                    a.delegate = COption::Some(self.fill(p));
                    a.delegated_amount = u64::MAX;
                });
            }
        }
        if self.kinds & 128 != 0 {
            for p in 0..self.npools {
                for u in 0..self.nusers {
                    retoken(b, self.ata(u, p), |a| {
                        a.delegate = COption::Some(self.target(0));
                        a.delegated_amount = 7;
                        a.close_authority = COption::Some(self.target(1));
                    });
                }
            }
        }
    }

    pub fn genesis(&self) -> Bank {
        let rate = match self.rent {
            1 => 348,
            2 => 6_960,
            3 => 3_481,
            4 => 1,
            _ => 3_480,
        };
        let mut b = Bank::new(self.start as i64, rate);
        for u in 0..=self.nusers {
            b.fund(self.user(u), LAMPORTS);
        }
        b.fund(self.payer(), LAMPORTS);
        b.fund(self.freezer(), LAMPORTS);
        for i in 0..3 {
            b.fund(self.target(i), 1_000_000_000);
        }
        let mut mints: Vec<Pubkey> = (0..=self.npools).map(|p| self.mint(p)).collect();
        mints.push(self.xmint());
        mints.sort();
        mints.dedup();
        for m in &mints {
            let mut d = vec![0u8; spl_token::state::Mint::LEN];
            spl_token::state::Mint {
                mint_authority: COption::None,
                supply: u64::MAX / 2,
                decimals: 6,
                is_initialized: true,
                freeze_authority: COption::Some(self.freezer()),
            }
            .pack_into_slice(&mut d);
            put(&mut b, *m, d, spl_token::id());
        }
        for p in 0..=self.npools {
            b.fund(self.dep(p), LAMPORTS);
            b.fund(self.fill(p), LAMPORTS);
            b.fund(self.dist(p), LAMPORTS);
            put(&mut b, self.pool(p), vec![0; POOL_LEN], mplx_rewards::id());
            token(&mut b, self.src(p), self.mint(p), self.fill(p), src_tokens(p));
            for q in 0..=self.npools {
                for (i, k) in [self.dep(q), self.dist(q), self.fill(q)].into_iter().enumerate() {
                    token(&mut b, self.stash(p, q, i as u8), self.mint(p), k, 1_000);
                }
            }
            for u in 0..=self.nusers {
                let extra = if u == self.nusers { 1_000_000 } else { 0 };
                token(&mut b, self.ata(u, p), self.mint(p), self.user(u), extra);
            }
        }
        for u in 0..=self.nusers {
            token(&mut b, self.xata(u), self.xmint(), self.user(u), 0);
        }
        put(&mut b, self.spare_pool(), vec![0; POOL_LEN], mplx_rewards::id());
        if self.kinds != 0 {
            self.dress(&mut b);
        }
        b
    }
}

pub fn put(b: &mut Bank, k: Pubkey, d: Vec<u8>, owner: Pubkey) {
    let rent = b.rent();
    b.accts.insert(
        k,
        Acct { lamports: rent.minimum_balance(d.len()), data: Arc::new(d), owner, executable: false },
    );
    let _ = system_program::id();
}

pub fn token(b: &mut Bank, k: Pubkey, mint: Pubkey, owner: Pubkey, amount: u64) {
    let mut d = vec![0u8; spl_token::state::Account::LEN];
    spl_token::state::Account {
        mint,
        owner,
        amount,
        delegate: COption::None,
        state: spl_token::state::AccountState::Initialized,
        is_native: COption::None,
        delegated_amount: 0,
        close_authority: COption::None,
    }
    .pack_into_slice(&mut d);
    put(b, k, d, spl_token::id());
}

fn retoken(b: &mut Bank, k: Pubkey, f: impl FnOnce(&mut spl_token::state::Account)) {
    let mut acct = b.get(&k);
    let mut d = (*acct.data).clone();
    let mut a = spl_token::state::Account::unpack(&d).unwrap();
    f(&mut a);
    a.pack_into_slice(&mut d);
    acct.data = Arc::new(d);
    b.accts.insert(k, acct);
}

pub fn balance(b: &Bank, k: &Pubkey) -> u64 {
    match b.accts.get(k) {
        Some(a) if a.owner == spl_token::id() && a.data.len() == 165 => {
            u64::from_le_bytes(a.data[64..72].try_into().unwrap())
        }
        _ => 0,
    }
}
