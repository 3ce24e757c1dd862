//! Adversarial variants of an otherwise valid request.  Each one changes who signs, which account
//! stands in a place, or what the data says, and must be refused.

use crate::bank::Bank;
use crate::keys::{put, Cfg};
use crate::model::{c, Logic, Op, Tags};
use crate::wire::{mining_addr, vault_addr, Call, MINING_LEN};
use serde::{Deserialize, Serialize};
use solana_program::{instruction::Instruction, pubkey::Pubkey};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Atk {
    pub kind: Kind,
    pub slot: u8,
    pub v: u8,
    pub w: u8,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Kind {
    Unsign,
    SwapSigner,
    OtherPool,
    OtherMining,
    Zeroed,
    Forged,
    DestOther,
    SourceOther,
    VaultOther,
    MintOther,
    DataOwner,
    DataDelegate,
    Foreign,
    ForeignAll,
    TruncData,
    BadTag,
    TruncAccounts,
    NoPool,
    TrailData,
    ProgOther,
    PoolAs,
}
pub const KINDS: [Kind; 21] = [
    Kind::Unsign, Kind::SwapSigner, Kind::OtherPool, Kind::OtherMining, Kind::Zeroed, Kind::Forged, Kind::DestOther,
    Kind::SourceOther, Kind::VaultOther, Kind::MintOther, Kind::DataOwner, Kind::DataDelegate, Kind::Foreign,
    Kind::ForeignAll, Kind::TruncData, Kind::BadTag, Kind::TruncAccounts, Kind::NoPool, Kind::TrailData, Kind::ProgOther,
    Kind::PoolAs,
];
/// who may ask
pub const SIGN_KINDS: [Kind; 4] = [Kind::Unsign, Kind::SwapSigner, Kind::OtherPool, Kind::Foreign];
/// requests that make no sense as such
pub const SHAPE_KINDS: [Kind; 4] = [Kind::TruncData, Kind::TrailData, Kind::BadTag, Kind::TruncAccounts];

impl Atk {
    pub fn kind_name(&self) -> String {
        format!("{:?}", self.kind)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum R {
    Pool,
    Mint,
    Vault,
    Payer,
    /// authority chosen by the caller (pool creation)
    Free,
    Dep,
    Fill,
    Dist,
    Owner,
    Mining,
    NewMining,
    Delegate,
    OldDel,
    NewDel,
    Source,
    Dest,
    Target,
    Prog,
}

fn roles(call: &Call) -> Vec<R> {
    use R::*;
    match call {
        Call::InitPool { .. } => vec![Pool, Mint, Vault, Payer, Free, Prog, Prog, Prog],
        Call::Fill { .. } => vec![Pool, Mint, Vault, Fill, Source, Prog],
        Call::InitMining { .. } => vec![Pool, NewMining, Payer, Prog],
        Call::Deposit { .. } | Call::Withdraw { .. } | Call::Extend { .. } => vec![Pool, Mining, Dep, Delegate],
        Call::Claim { .. } => vec![Pool, Mint, Vault, Mining, Owner, Dep, Dest, Prog],
        Call::Distribute { .. } => vec![Pool, Dist],
        Call::Close { .. } => vec![Mining, Owner, Target, Dep, Pool],
        Call::ChangeDelegate { .. } => vec![Pool, Mining, Dep, Owner, OldDel, NewDel],
        Call::Slash { .. } | Call::Decrease { .. } => vec![Dep, Pool, Mining],
    }
}

/// (pool index, user index) of the mining account the request is about
fn who(l: &Logic, op: &Op) -> Option<(u8, Option<u8>)> {
    Some(match op {
        Op::InitPool { p } | Op::Fill { p, .. } | Op::Distribute { p } => (*p, None),
        Op::InitMining { p, u, .. } | Op::Deposit { p, u, .. } | Op::Claim { p, u } | Op::Decrease { p, u, .. } | Op::Close { p, u, .. } => {
            (*p, Some(*u))
        }
        Op::Withdraw { eid, .. } | Op::Extend { eid, .. } | Op::ChDel { eid, .. } | Op::Slash { eid, .. } => {
            let e = l.entries.get(eid)?;
            (e.p, Some(e.u))
        }
        Op::Bad { .. } => return None,
    })
}

/// An address that differs from `k` in one byte only.
fn near(k: &Pubkey, a: &Atk) -> Pubkey {
    let mut b = k.to_bytes();
    b[(a.w ^ a.v.rotate_left(4)) as usize % 32] ^= 1 + (a.w >> 5);
    Pubkey::new_from_array(b)
}

fn set_signer(ix: &mut Instruction, slot: usize, k: Pubkey) {
    ix.accounts[slot].pubkey = k;
    ix.accounts[slot].is_signer = true;
}

/// None: not applicable here (or the variant would be legitimate).
pub fn mutate(g: &Cfg, l: &Logic, b: &mut Bank, op: &Op, call: &Call, a: &Atk) -> Option<(Instruction, Tags, String)> {
    let mut ix = call.raw();
    let rs = roles(call);
    let (p, u) = who(l, op)?;
    let slot = a.slot as usize % rs.len();
    let role = rs[slot];
    let atk = g.user(g.attacker());
    let np = g.npools + 1;
    let nu = g.nusers + 1;
    let p2 = a.v % np;
    let u2 = a.w % nu;
    let inited = |p: u8| l.pools[p as usize].init;
    let pos = |r: R| rs.iter().position(|x| *x == r);
    let orig = ix.accounts[slot].pubkey;
    match a.kind {
        Kind::Unsign => {
            if !matches!(role, R::Payer | R::Free | R::Dep | R::Fill | R::Dist | R::Owner) {
                return None;
            }
            ix.accounts[slot].is_signer = false;
            if let (Some(t), 0) = (pos(R::Target), a.v % 3) {
                // the one who does not sign gets the money
                ix.accounts[t].pubkey = orig;
            }
            if ix.accounts.iter().any(|m| m.pubkey == orig && m.is_signer) {
                return None;
            }
            Some((ix, c(9), format!("the {role:?} signature missing")))
        }
        Kind::SwapSigner => {
            if !matches!(role, R::Dep | R::Fill | R::Dist | R::Owner) {
                return None;
            }
            let (with, stash) = match a.v % 7 {
                0 => (atk, g.ata(g.attacker(), p)),
                1 => (near(&orig, a), g.src(a.w % np)),
                2 => (g.dep(p), g.stash(p, p, 0)),
                3 => (g.fill(p), g.stash(p, p, 2)),
                4 => (g.dist(p), g.stash(p, p, 1)),
                5 => (g.dep(a.w % np), g.stash(p, a.w % np, 0)),
                _ => (g.user(u2), g.ata(u2, p)),
            };
            if with == orig {
                return None;
            }
            set_signer(&mut ix, slot, with);
            match role {
                R::Fill => {
                    // a source account the impostor controls
                    let s = pos(R::Source)?;
                    ix.accounts[s].pubkey = stash;
                    ix.data[1..9].copy_from_slice(&1u64.to_le_bytes());
                }
                R::Owner => {
                    if let Some(d) = pos(R::Dest) {
                        ix.accounts[d].pubkey = if with == atk || a.v % 7 != 6 { g.ata(g.attacker(), p) } else { g.ata(u2, p) };
                    }
                }
                _ => {}
            }
            Some((ix, c(9), format!("another key signing as {role:?}")))
        }
        Kind::OtherPool => {
            let s = pos(R::Pool)?;
            let k = g.pool(p2);
            if k == ix.accounts[s].pubkey {
                return None;
            }
            match call {
                Call::Distribute { .. } => {
                    if !inited(p2) || g.dist(p2) == g.dist(p) {
                        return None;
                    }
                }
                Call::InitPool { .. } | Call::InitMining { .. } => {}
                _ => {
                    if !inited(p2) {
                        return None;
                    }
                }
            }
            ix.accounts[s].pubkey = k;
            let t = if matches!(call, Call::Distribute { .. }) { c(9) | c(10) } else { c(10) };
            Some((ix, t, format!("pool {p2} in place of pool {p}")))
        }
        Kind::OtherMining => {
            let (q, v) = (p2, u2);
            if !l.minings.contains_key(&(q, v)) {
                return None;
            }
            let k = g.mining(q, v);
            if k == orig {
                return None;
            }
            match role {
                R::Mining | R::NewMining => {}
                R::Delegate | R::NewDel => {
                    // the named delegate must be the one whose account is passed
                    if k == g.mining(p, u?) {
                        return None; // the owner's own account means "no delegate"
                    }
                }
                R::OldDel => {
                    if q == p {
                        return None;
                    }
                }
                R::Pool | R::Vault | R::Dest | R::Source | R::Mint | R::Target => {}
                _ => return None,
            }
            ix.accounts[slot].pubkey = k;
            ix.accounts[slot].is_writable = true;
            // no more than that account could give
            let had = &l.minings[&(q, v)];
            let (has, at): (u128, &[usize]) = match (call, role) {
                (Call::ChangeDelegate { .. }, R::OldDel) | (Call::Withdraw { .. }, R::Delegate) => (had.delegated, &[1]),
                (Call::Withdraw { .. }, R::Mining) => (had.own, &[1]),
                (Call::Decrease { .. }, R::Mining) => (had.own, &[33]),
                (Call::Slash { date: None, .. }, R::Mining) => (had.own, &[33, 41]),
                _ => (0, &[]),
            };
            for o in at {
                let x = u64::from_le_bytes(ix.data[*o..*o + 8].try_into().unwrap());
                if has > 0 && u128::from(x) > has {
                    ix.data[*o..*o + 8].copy_from_slice(&1u64.to_le_bytes());
                }
            }
            Some((ix, c(10), format!("the mining account of user {v} in pool {q} as {role:?}")))
        }
        Kind::Zeroed => {
            let len = match role {
                R::Pool => {
                    ix.accounts[slot].pubkey = g.spare_pool();
                    return Some((ix, c(10), "an uninitialised pool account".into()));
                }
                R::Mining | R::Delegate | R::OldDel | R::NewDel | R::NewMining => MINING_LEN,
                _ => return None,
            };
            let k = g.forged(1);
            put(b, k, vec![0; len], mplx_rewards::id());
            ix.accounts[slot].pubkey = k;
            Some((ix, c(10), format!("an uninitialised account as {role:?}")))
        }
        Kind::Forged => {
            if !matches!(role, R::Pool | R::Mining | R::Delegate | R::OldDel | R::NewDel | R::Mint | R::Vault | R::Source | R::Dest) {
                return None;
            }
            let src = b.get(&orig);
            if src.data.is_empty() {
                return None;
            }
            let mut d = (*src.data).clone();
            if role == R::Pool && a.v & 1 == 1 {
                if let Some(s) = pos(R::Dep) {
                    d[..32].copy_from_slice(atk.as_ref());
                    set_signer(&mut ix, s, atk);
                }
            }
            let k = if a.v & 6 == 0 { near(&orig, a) } else { g.forged(2) };
            // attacker's own program owns the look-alike
            put(b, k, d, Pubkey::new_from_array([0xaa; 32]));
            ix.accounts[slot].pubkey = k;
            Some((ix, c(10), format!("a look-alike owned by another program as {role:?}")))
        }
        Kind::DestOther => {
            let s = pos(R::Dest)?;
            let (lo, _) = l.minings.get(&(p, u?))?.band();
            let k = match a.v % 6 {
                0 | 1 => g.ata(g.attacker(), p),
                5 => {
                    // of somebody whose address looks alike
                    let k = g.forged(5);
                    crate::keys::token(b, k, g.mint(p), near(&g.user(u?), a), 5);
                    k
                }
                4 => {
                    // somebody else's, which the owner may spend from or close
                    let k = g.forged(4);
                    crate::keys::token(b, k, g.mint(p), atk, 5);
                    let mut d = (*b.get(&k).data).clone();
                    let o = g.user(u?).to_bytes();
                    if o == atk.to_bytes() {
                        return None;
                    }
                    d[72] = 1;
                    d[76..108].copy_from_slice(&o);
                    d[121..129].copy_from_slice(&u64::MAX.to_le_bytes());
                    d[129] = 1;
                    d[133..165].copy_from_slice(&o);
                    put(b, k, d, spl_token::id());
                    k
                }
                2 => {
                    if lo == 0 {
                        return None;
                    }
                    g.xata(u?)
                }
                // (the vault belongs to the pool's authority)
                _ => g.vault(p),
            };
            if k == ix.accounts[s].pubkey || (k == g.vault(p) && g.dep(p) == g.user(u?)) {
                return None;
            }
            ix.accounts[s].pubkey = k;
            Some((ix, c(10) | c(11), "somebody else's token account as destination".into()))
        }
        Kind::SourceOther => {
            let s = pos(R::Source)?;
            let k = match a.v % 3 {
                0 => g.vault(p),
                1 => g.ata(g.attacker(), p),
                _ if g.user(u2) == g.fill(p) => return None,
                _ => g.ata(u2, p),
            };
            ix.data[1..9].copy_from_slice(&1u64.to_le_bytes());
            if a.v % 3 == 0 && crate::keys::balance(b, &k) == 0 {
                return None;
            }
            ix.accounts[s].pubkey = k;
            Some((ix, c(8) | c(10), if a.v % 3 == 0 { "the vault as its own source".into() } else { "tokens the fill authority does not own".into() }))
        }
        Kind::VaultOther => {
            let s = pos(R::Vault)?;
            let k = match a.v % 5 {
                0 => g.ata(g.attacker(), p),
                1 => g.vault(a.w % np),
                2 => g.src(p),
                4 => {
                    // the same tokens at an address that looks alike
                    let k = near(&ix.accounts[s].pubkey, a);
                    let v = b.get(&ix.accounts[s].pubkey);
                    if v.data.is_empty() {
                        return None;
                    }
                    put(b, k, (*v.data).clone(), spl_token::id());
                    k
                }
                _ => g.ata(u2, p),
            };
            if k == ix.accounts[s].pubkey {
                return None;
            }
            if !matches!(call, Call::InitPool { .. }) && crate::keys::balance(b, &k) == 0 && b.get(&k).data.is_empty() {
                return None;
            }
            ix.accounts[s].pubkey = k;
            Some((ix, c(10) | c(8), "another token account as the vault".into()))
        }
        Kind::MintOther => {
            let s = pos(R::Mint)?;
            let k = if a.v & 1 == 0 { g.xmint() } else { g.mint(a.w % np) };
            if k == ix.accounts[s].pubkey {
                return None;
            }
            ix.accounts[s].pubkey = k;
            if a.v & 2 != 0 && !matches!(call, Call::InitPool { .. }) {
                // with the vault address that would go with it
                let v = pos(R::Vault)?;
                let va = vault_addr(&g.pool(p), &k);
                crate::keys::token(b, va, k, g.dep(p), 1 << 40);
                ix.accounts[v].pubkey = va;
                // such an account cannot come to exist; only the bump check would stop it
                return None;
            }
            Some((ix, c(10), "another mint".into()))
        }
        Kind::DataOwner => {
            let o2 = g.user(u2);
            if o2 == g.user(u?) {
                return None;
            }
            let c2 = with_owner(call, o2)?;
            let m = ix.accounts.clone();
            let mut ix = c2.raw();
            ix.accounts = m;
            Some((ix, c(10), "another owner named in the data".into()))
        }
        Kind::DataDelegate => {
            let d2 = g.user(u2);
            let c2 = with_delegate(call, d2)?;
            let m = ix.accounts.clone();
            let d = pos(R::Delegate).or(pos(R::NewDel))?;
            // (the owner's own account stands for "no delegate", whatever is named)
            if m[d].pubkey == mining_addr(&d2, &g.pool(p)) || m[d].pubkey == g.mining(p, u?) {
                return None;
            }
            let mut ix = c2.raw();
            ix.accounts = m;
            Some((ix, c(10) | c(12), "a delegate named in the data that is not the account passed".into()))
        }
        Kind::Foreign => {
            // the attacker's own pool and authority, somebody's mining account from another pool
            let ap = g.apool();
            if !inited(ap) || p == ap {
                return None;
            }
            let s = pos(R::Pool)?;
            let d = pos(R::Dep)?;
            ix.accounts[s].pubkey = g.pool(ap);
            set_signer(&mut ix, d, g.dep(ap));
            if a.v & 1 == 1 {
                for r in [R::Delegate, R::OldDel, R::NewDel] {
                    if let Some(x) = pos(r) {
                        // keep the delegate in the victim pool as well
                        let _ = x;
                    }
                }
            }
            Some((ix, c(10) | c(9), "the attacker's own pool and authority".into()))
        }
        Kind::ForeignAll => {
            // claim: pool, mint and vault (and authority) of one pool, mining account of another
            if !matches!(call, Call::Claim { .. }) || !inited(p2) || p2 == p {
                return None;
            }
            ix.accounts[pos(R::Pool)?].pubkey = g.pool(p2);
            ix.accounts[pos(R::Mint)?].pubkey = g.mint(p2);
            ix.accounts[pos(R::Vault)?].pubkey = g.vault(p2);
            set_signer(&mut ix, pos(R::Dep)?, g.dep(p2));
            ix.accounts[pos(R::Dest)?].pubkey = g.ata(u?, p2);
            Some((ix, c(10) | c(11), format!("everything of pool {p2} but a mining account of pool {p}")))
        }
        Kind::NoPool => {
            // something else the program owns stands for the pool, all addresses matching it
            let k = match a.v % 5 {
                0 | 1 => g.spare_pool(),
                2 => {
                    if !l.minings.contains_key(&(p2, u2)) {
                        return None;
                    }
                    g.mining(p2, u2)
                }
                n => {
                    let k = g.forged(3);
                    let len = if n == 3 { crate::wire::POOL_LEN + 8 } else { crate::wire::POOL_LEN - 8 };
                    put(b, k, vec![0; len], mplx_rewards::id());
                    k
                }
            };
            let mut c2 = call.clone();
            match &mut c2 {
                Call::InitMining { pool, .. } => *pool = k,
                Call::InitPool { pool, .. } => {
                    if a.v % 5 < 2 {
                        return None;
                    }
                    *pool = k;
                }
                _ => return None,
            }
            Some((c2.raw(), c(10) | c(19), "an account that is no pool".into()))
        }
        Kind::ProgOther => {
            // another account in the place of a program or of the rent parameters
            if role != R::Prog {
                return None;
            }
            let k = match a.v % 5 {
                0 => spl_token::id(),
                1 => solana_program::system_program::id(),
                2 => solana_program::sysvar::rent::id(),
                3 => mplx_rewards::id(),
                _ => atk,
            };
            if k == orig {
                return None;
            }
            ix.accounts[slot].pubkey = k;
            Some((ix, c(10), "another account in the place of a program".into()))
        }
        Kind::PoolAs => {
            // a pool in the place of something else
            if !matches!(role, R::Mining | R::NewMining | R::Delegate | R::OldDel | R::NewDel | R::Vault | R::Mint | R::Source | R::Dest | R::Target) {
                return None;
            }
            if !inited(p2) {
                return None;
            }
            ix.accounts[slot].pubkey = g.pool(p2);
            ix.accounts[slot].is_writable = true;
            Some((ix, c(10), format!("pool {p2} as {role:?}")))
        }
        Kind::TruncData => {
            let n = ix.data.len();
            let cut = if a.v & 1 == 0 { 1 } else { 1 + a.w as usize % n };
            ix.data.truncate(n - cut);
            Some((ix, c(10) | c(21), "truncated instruction data".into()))
        }
        Kind::TrailData => {
            let n = if a.v & 1 == 0 { 1 } else { 1 + a.w as usize % 40 };
            ix.data.extend(std::iter::repeat(a.v >> 1).take(n));
            Some((ix, c(10) | c(21), "instruction data too long".into()))
        }
        Kind::BadTag => {
            ix.data[0] = 12 + a.v % 240;
            Some((ix, c(10) | c(21), "an unknown instruction".into()))
        }
        Kind::TruncAccounts => {
            if !rs[slot..].iter().any(|r| *r != R::Prog) {
                return None;
            }
            ix.accounts.truncate(slot);
            Some((ix, c(10) | c(21), "accounts missing".into()))
        }
    }
}

fn with_owner(call: &Call, o: Pubkey) -> Option<Call> {
    let mut x = call.clone();
    match &mut x {
        Call::InitMining { owner, .. }
        | Call::Deposit { owner, .. }
        | Call::Withdraw { owner, .. }
        | Call::Extend { owner, .. }
        | Call::Slash { owner, .. }
        | Call::Decrease { owner, .. } => *owner = o,
        _ => return None,
    }
    Some(x)
}

fn with_delegate(call: &Call, d: Pubkey) -> Option<Call> {
    let mut x = call.clone();
    match &mut x {
        Call::Deposit { delegate, .. } | Call::Withdraw { delegate, .. } | Call::Extend { delegate, .. } => *delegate = d,
        Call::ChangeDelegate { new, .. } => *new = d,
        _ => return None,
    }
    Some(x)
}
