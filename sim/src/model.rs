//! Reference model: what the rewards system must do, stated over days, weights and exact
//! fractions.  It shares no code with the program.

use crate::keys::Cfg;
use crate::wire::{Call, Per, DAY, INDEX_DATES, MINING_DATES, POOL_DATES};
use serde::{Deserialize, Serialize};
use solana_program::pubkey::Pubkey;
use std::collections::{BTreeMap, BTreeSet};

pub type Tags = u32;
pub const fn c(n: u32) -> Tags {
    1 << n
}
pub fn tag_names(t: Tags) -> String {
    (1..=31).filter(|i| t & c(*i) != 0).map(|i| format!("C{i:02}")).collect::<Vec<_>>().join(",")
}

/// one reward token, in the model's units of account
pub const ONE: u128 = 10_000_000_000_000_000;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Bad {
    OverWithdraw,
    WithdrawOverDelegate,
    OverSlash,
    SlashNoDate,
    SlashInverted,
    SlashOverDiff,
    DecreaseBig,
    DepositNone,
    DepositBadByte,
    DepositHuge,
    ExtendBogus,
    ExtendOver,
    ExtendNone,
    ExtendOverDelegate,
    FillZero,
    FillPast,
    FillShorter,
    FillPoor,
    SameDelegate,
    OverUndelegate,
    InitPoolTwice,
    InitMiningTwice,
}
pub const BADS: [Bad; 22] = [
    Bad::OverWithdraw, Bad::WithdrawOverDelegate, Bad::OverSlash, Bad::SlashNoDate, Bad::SlashInverted,
    Bad::SlashOverDiff, Bad::DecreaseBig, Bad::DepositNone, Bad::DepositBadByte, Bad::DepositHuge,
    Bad::ExtendBogus, Bad::ExtendOver, Bad::ExtendNone, Bad::ExtendOverDelegate, Bad::FillZero, Bad::FillPast,
    Bad::FillShorter, Bad::FillPoor, Bad::SameDelegate, Bad::OverUndelegate, Bad::InitPoolTwice,
    Bad::InitMiningTwice,
];

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(tag = "op")]
pub enum Op {
    InitPool { p: u8 },
    InitMining { p: u8, u: u8, by_user: bool },
    Fill { p: u8, amount: u64, ends: u64 },
    Distribute { p: u8 },
    Deposit { p: u8, u: u8, eid: u32, amount: u64, per: Per, del: Option<u8> },
    Withdraw { eid: u32, amount: u64 },
    Claim { p: u8, u: u8 },
    Extend { eid: u32, per: Per, add: u64 },
    ChDel { eid: u32, to: Option<u8> },
    Slash { eid: u32, native: u64, off: u32 },
    Decrease { p: u8, u: u8, amount: u64 },
    Close { p: u8, u: u8, to: u8 },
    Bad { kind: Bad, p: u8, u: u8, v: u8, x: u64 },
}

#[derive(Clone, Debug, PartialEq)]
pub enum Expect {
    Must,
    MustNot(Tags, &'static str),
    Either,
}

/// A request for nothing may be refused, but if it is accepted then nothing must come of it.
fn nothing(amount: u64) -> Expect {
    if amount == 0 {
        Expect::Either
    } else {
        Expect::Must
    }
}

#[derive(Clone, Debug, Default)]
pub struct MPool {
    pub init: bool,
    pub total: u128,
    /// date -> how much the pool weight falls that day (zero-valued dates still occupy a record)
    pub decays: BTreeMap<u64, u128>,
    pub reserve: u64,
    pub ends: u64,
    pub last_dist: Option<u64>,
    pub ndist: u32,
    pub filled: u128,
    pub emitted: u128,
    pub penalised: bool,
    /// how many records were ever needed
    pub dates_ever: u32,
    /// boosts expired since the last distribution, perhaps without having been taken off the stored total yet
    pub expired: u128,
}

impl MPool {
    /// the weight up to which a stake must fit
    fn most(&self) -> u128 {
        ((1 << 64) - 1u128).saturating_sub(self.expired)
    }
}

#[derive(Clone, Debug, Default)]
pub struct MMining {
    pub own: u128,
    pub decays: BTreeMap<u64, u128>,
    pub delegated: u128,
    pub dates_ever: u32,
    /// exact entitlement since the last payout
    pub ent: u128,
    /// how much of it rounding down may legitimately lose
    pub loss: u128,
    pub popped: u32,
    /// which kinds of event happened since the last payout
    pub win: Tags,
    pub dists: u32,
    pub paid: u128,
}

impl MMining {
    pub fn weight(&self) -> u128 {
        self.own + self.delegated
    }
    pub fn base(&self) -> u128 {
        self.own.saturating_sub(self.decays.values().sum())
    }
    fn settle(&mut self) {
        self.loss += (1 + self.popped as u128) * ONE;
        self.popped = 0;
    }
    /// inclusive range of what a claim right now must pay
    pub fn band(&self) -> (u64, u64) {
        let hi = self.ent / ONE;
        let loss = self.loss + (1 + self.popped as u128) * ONE;
        let lo = self.ent.saturating_sub(loss) / ONE;
        (lo.min(u64::MAX as u128) as u64, hi.min(u64::MAX as u128) as u64)
    }
    fn settled(&mut self) {
        self.ent = 0;
        self.loss = 0;
        self.popped = 0;
        self.win = 0;
        self.dists = 0;
    }
}

#[derive(Clone, Debug)]
pub struct Entry {
    pub p: u8,
    pub u: u8,
    pub amount: u64,
    pub per: Per,
    pub start: u64,
    pub del: Option<u8>,
}
impl Entry {
    pub fn expiry(&self) -> u64 {
        self.per.expiry(self.start)
    }
    /// still carries a boost at `now`
    pub fn boosted(&self, now: u64) -> bool {
        self.per != Per::Flex && now < self.expiry()
    }
}

#[derive(Clone, Debug, Default)]
pub struct Logic {
    pub now: u64,
    pub pools: Vec<MPool>,
    pub minings: BTreeMap<(u8, u8), MMining>,
    /// the staking program's registrar: every open stake by id
    pub entries: BTreeMap<u32, Entry>,
    /// expected token balances
    pub tok: BTreeMap<Pubkey, u64>,
    pub frozen: BTreeSet<Pubkey>,
    pub closed_once: BTreeSet<(u8, u8)>,
    /// judge the recorded known findings too (directed scenarios only)
    pub strict: bool,
}

#[derive(Clone, Debug, Default)]
pub struct Touch {
    pub pools: BTreeSet<u8>,
    pub minings: BTreeSet<(u8, u8)>,
    pub keys: BTreeSet<Pubkey>,
    pub tags: Tags,
    /// claims of this transaction, each with the account's bookkeeping right before it
    pub claims: Vec<(u8, u8, MMining)>,
    pub closes: Vec<(u8, u8, u8)>,
    pub inits: Vec<(u8, u8)>,
    pub payers: BTreeSet<Pubkey>,
    pub probes: BTreeSet<&'static str>,
}

impl Touch {
    fn pool(&mut self, cfg: &Cfg, p: u8) {
        self.pools.insert(p);
        self.keys.insert(cfg.pool(p));
    }
    fn mining(&mut self, cfg: &Cfg, p: u8, u: u8) {
        self.minings.insert((p, u));
        self.keys.insert(cfg.mining(p, u));
    }
}

pub fn day(t: u64) -> u64 {
    t - t % DAY
}

impl Logic {
    pub fn new(cfg: &Cfg) -> Logic {
        let mut l = Logic { now: cfg.start, ..Default::default() };
        for p in 0..=cfg.npools {
            l.pools.push(MPool::default());
            l.tok.insert(cfg.src(p), crate::keys::src_tokens(p));
            for u in 0..=cfg.nusers {
                let extra = if u == cfg.nusers { 1_000_000 } else { 0 };
                l.tok.insert(cfg.ata(u, p), extra);
            }
        }
        for u in 0..=cfg.nusers {
            l.tok.insert(cfg.xata(u), 0);
        }
        l
    }

    pub fn advance(&mut self, now: u64) {
        self.now = now;
        let today = day(now);
        for p in self.pools.iter_mut() {
            while let Some((d, v)) = p.decays.first_key_value().map(|(a, b)| (*a, *b)) {
                if d > today {
                    break;
                }
                p.decays.remove(&d);
                p.total -= v;
                p.expired += v;
            }
        }
        for m in self.minings.values_mut() {
            while let Some((d, v)) = m.decays.first_key_value().map(|(a, b)| (*a, *b)) {
                if d > today {
                    break;
                }
                m.decays.remove(&d);
                m.own -= v;
                m.popped += 1;
                if v > 0 {
                    m.win |= c(5);
                }
            }
        }
    }

    /// what a distribution right now would emit
    pub fn emission(&self, p: u8) -> u64 {
        let q = &self.pools[p as usize];
        let days = q.ends.saturating_sub(self.now) / DAY;
        q.reserve / days.max(1)
    }

    fn add_date(map: &mut BTreeMap<u64, u128>, d: u64, v: u128) {
        *map.entry(d).or_insert(0) += v;
    }

    fn room(&self, p: u8, u: u8, d: u64) -> bool {
        let q = &self.pools[p as usize].decays;
        let m = &self.minings[&(p, u)].decays;
        (q.contains_key(&d) || q.len() < POOL_DATES) && (m.contains_key(&d) || m.len() < MINING_DATES)
    }

    /// Resolves one operation: the call to make, what must happen, and (assuming it is accepted)
    /// the new model state in `self`.  None: the operation makes no sense here.
    pub fn plan(&mut self, cfg: &Cfg, op: &Op, t: &mut Touch) -> Option<(Call, Expect)> {
        let now = self.now;
        let today = day(now);
        let np = self.pools.len() as u8;
        let okp = |p: u8| p < np;
        Some(match op {
            Op::InitPool { p } => {
                let p = *p;
                if !okp(p) || self.pools[p as usize].init {
                    return None;
                }
                self.pools[p as usize].init = true;
                self.tok.insert(cfg.vault(p), 0);
                t.pool(cfg, p);
                t.keys.insert(cfg.vault(p));
                t.keys.insert(cfg.payer());
                t.payers.insert(cfg.payer());
                t.tags |= c(19);
                (self.init_pool_call(cfg, p), Expect::Must)
            }
            Op::InitMining { p, u, by_user } => {
                let (p, u) = (*p, *u);
                if !okp(p) || u > cfg.nusers || !self.pools[p as usize].init || self.minings.contains_key(&(p, u)) {
                    return None;
                }
                let payer = if *by_user && cfg.user_pays(u) { cfg.user(u) } else { cfg.payer() };
                self.minings.insert((p, u), MMining { win: c(19), ..Default::default() });
                t.pool(cfg, p);
                t.mining(cfg, p, u);
                t.keys.insert(payer);
                t.payers.insert(payer);
                t.inits.push((p, u));
                t.tags |= c(19);
                (Call::InitMining { pool: cfg.pool(p), payer, owner: cfg.user(u) }, Expect::Must)
            }
            Op::Fill { p, amount, ends } => {
                let p = *p;
                if !okp(p) || !self.pools[p as usize].init || *amount == 0 {
                    return None;
                }
                let call = Call::Fill { pool: cfg.pool(p), mint: cfg.mint(p), auth: cfg.fill(p), source: cfg.src(p), amount: *amount, ends: *ends };
                let e = day(*ends);
                let have = self.tok[&cfg.src(p)];
                if *amount > have - have / 8 {
                    return None;
                }
                t.pool(cfg, p);
                t.keys.insert(cfg.vault(p));
                t.keys.insert(cfg.src(p));
                t.tags |= c(8);
                let q = &mut self.pools[p as usize];
                if e < today {
                    return Some((call, Expect::MustNot(c(8), "fill ending in the past")));
                }
                if e < q.ends {
                    return Some((call, Expect::MustNot(c(8), "fill shortening the distribution")));
                }
                q.ends = e;
                q.reserve = q.reserve.checked_add(*amount)?;
                q.filled += *amount as u128;
                *self.tok.get_mut(&cfg.src(p)).unwrap() -= amount;
                *self.tok.get_mut(&cfg.vault(p)).unwrap() += amount;
                let ex = if self.frozen.contains(&cfg.src(p)) || self.frozen.contains(&cfg.vault(p)) {
                    Expect::MustNot(c(8), "fill with a frozen token account")
                } else {
                    Expect::Must
                };
                (call, ex)
            }
            Op::Distribute { p } => {
                let p = *p;
                if !okp(p) || !self.pools[p as usize].init {
                    return None;
                }
                let call = Call::Distribute { pool: cfg.pool(p), auth: cfg.dist(p) };
                t.pool(cfg, p);
                t.tags |= c(6) | c(7);
                let r = self.emission(p);
                let q = &mut self.pools[p as usize];
                if q.total == 0 {
                    return Some((call, Expect::MustNot(c(6) | c(7), "distribution with no stake in the pool")));
                }
                if q.last_dist == Some(today) {
                    return Some((call, Expect::Either));
                }
                if q.ndist as usize >= INDEX_DATES - 1 {
                    t.tags |= c(18);
                }
                let ex = if q.ndist as usize >= INDEX_DATES && !self.strict { Expect::Either } else { Expect::Must };
                q.last_dist = Some(today);
                q.ndist += 1;
                q.expired = 0;
                q.reserve -= r;
                q.emitted += r as u128;
                let total = q.total;
                for ((mp, _), m) in self.minings.iter_mut() {
                    if *mp == p && m.weight() > 0 && r > 0 {
                        let prod = r as u128 * m.weight();
                        m.ent += prod / total * ONE + (prod % total) * ONE / total;
                        m.loss += m.weight();
                        m.dists += 1;
                    }
                }
                (call, ex)
            }
            Op::Deposit { p, u, eid, amount, per, del } => {
                let (p, u) = (*p, *u);
                if !okp(p) || !self.minings.contains_key(&(p, u)) || self.entries.contains_key(eid) || *amount == 0 {
                    return None;
                }
                let del = del.filter(|d| *d != u);
                if let Some(d) = del {
                    self.minings.get(&(p, d))?;
                }
                let e = Entry { p, u, amount: *amount, per: *per, start: now, del };
                if self.pools[p as usize].total + *amount as u128 * 7 > self.pools[p as usize].most() {
                    return None;
                }
                let call = Call::Deposit {
                    pool: cfg.pool(p), owner: cfg.user(u), dep: cfg.dep(p), delegate: cfg.user(del.unwrap_or(u)),
                    amount: *amount, per: per.code(),
                };
                t.tags |= c(4) | if del.is_some() { c(12) } else { 0 };
                let ex = self.add_stake(cfg, &e, *amount, t);
                self.entries.insert(*eid, e);
                (call, ex)
            }
            Op::Withdraw { eid, amount } => {
                let e = self.entries.get(eid)?.clone();
                let (p, u) = (e.p, e.u);
                if e.boosted(now) || *amount > e.amount {
                    return None;
                }
                let a = *amount as u128;
                if a > self.minings[&(p, u)].base() && !self.strict {
                    return None; // penalised stake: known finding K3
                }
                let call = Call::Withdraw { pool: cfg.pool(p), owner: cfg.user(u), dep: cfg.dep(p), delegate: cfg.user(e.del.unwrap_or(u)), amount: *amount };
                t.pool(cfg, p);
                t.mining(cfg, p, u);
                t.tags |= c(4);
                let m = self.minings.get_mut(&(p, u)).unwrap();
                m.settle();
                // (strict) a penalty never takes more weight than is left
                m.own = m.own.saturating_sub(a);
                m.win |= c(4);
                self.pools[p as usize].total -= a;
                if let Some(d) = e.del {
                    t.mining(cfg, p, d);
                    t.tags |= c(12);
                    let m = self.minings.get_mut(&(p, d)).unwrap();
                    m.settle();
                    m.delegated -= a;
                    m.win |= c(12);
                    self.pools[p as usize].total -= a;
                }
                let left = e.amount - amount;
                if left == 0 {
                    self.entries.remove(eid);
                } else {
                    self.entries.get_mut(eid).unwrap().amount = left;
                }
                (call, nothing(*amount))
            }
            Op::Claim { p, u } => {
                let (p, u) = (*p, *u);
                if !okp(p) || !self.minings.contains_key(&(p, u)) || t.claims.iter().any(|x| (x.0, x.1) == (p, u)) {
                    return None;
                }
                let clash = t.claims.iter().any(|(a, b, _)| cfg.ata(*b, *a) == cfg.ata(u, p));
                if clash {
                    return None;
                }
                t.mining(cfg, p, u);
                t.pools.insert(p);
                t.keys.insert(cfg.vault(p));
                t.keys.insert(cfg.ata(u, p));
                t.tags |= c(11);
                let m = self.minings.get_mut(&(p, u)).unwrap();
                let (lo, hi) = m.band();
                t.claims.push((p, u, m.clone()));
                m.settled();
                let fz = self.frozen.contains(&cfg.vault(p)) || self.frozen.contains(&cfg.ata(u, p));
                let ex = if fz && lo > 0 {
                    Expect::MustNot(c(11) | c(21), "claim with a frozen token account")
                } else if fz && hi > 0 {
                    Expect::Either
                } else {
                    Expect::Must
                };
                (self.claim_call(cfg, p, u), ex)
            }
            Op::Extend { eid, per, add } => {
                let e = self.entries.get(eid)?.clone();
                let (p, u) = (e.p, e.u);
                let a = e.amount as u128;
                let m = &self.minings[&(p, u)];
                if a > m.base() {
                    return None; // K3
                }
                let boosted = e.boosted(now);
                let w = if boosted { a * e.per.mult() as u128 } else { a };
                let d = w - a;
                if boosted && m.decays.get(&e.expiry()).copied().unwrap_or(0) < d {
                    return None; // K3
                }
                if self.pools[p as usize].total + (a + *add as u128) * 7 > self.pools[p as usize].most() {
                    return None;
                }
                let call = Call::Extend {
                    pool: cfg.pool(p), owner: cfg.user(u), dep: cfg.dep(p), delegate: cfg.user(e.del.unwrap_or(u)),
                    old: e.per.code(), new: per.code(), start: e.start, base: e.amount, add: *add, mint: cfg.mint(p),
                };
                t.tags |= c(15) | if e.del.is_some() { c(12) } else { 0 };
                let m = self.minings.get_mut(&(p, u)).unwrap();
                m.settle();
                m.own -= w;
                m.win |= c(15);
                let q = &mut self.pools[p as usize];
                q.total -= w;
                if boosted {
                    *m.decays.get_mut(&e.expiry()).unwrap() -= d;
                    *q.decays.get_mut(&e.expiry()).unwrap() -= d;
                }
                if let Some(dl) = e.del {
                    let m = self.minings.get_mut(&(p, dl)).unwrap();
                    m.delegated -= a;
                    q.total -= a;
                }
                let n = Entry { amount: e.amount + add, per: *per, start: now, ..e };
                let ex = self.add_stake(cfg, &n, n.amount, t);
                self.entries.insert(*eid, n);
                (call, ex)
            }
            Op::ChDel { eid, to } => {
                let e = self.entries.get(eid)?.clone();
                let (p, u) = (e.p, e.u);
                let to = to.filter(|d| *d != u);
                if to == e.del {
                    return None;
                }
                if let Some(d) = to {
                    self.minings.get(&(p, d))?;
                }
                let a = e.amount as u128;
                if to.is_some() && e.del.is_none() && self.pools[p as usize].total + a > self.pools[p as usize].most() {
                    return None;
                }
                let call = Call::ChangeDelegate {
                    pool: cfg.pool(p), owner: cfg.user(u), dep: cfg.dep(p), old: cfg.user(e.del.unwrap_or(u)),
                    new: cfg.user(to.unwrap_or(u)), amount: e.amount,
                };
                t.pool(cfg, p);
                t.mining(cfg, p, u);
                t.tags |= c(12);
                self.minings.get_mut(&(p, u)).unwrap().settle();
                let q = &mut self.pools[p as usize];
                if let Some(d) = e.del {
                    t.mining(cfg, p, d);
                    let m = self.minings.get_mut(&(p, d)).unwrap();
                    m.settle();
                    m.delegated -= a;
                    m.win |= c(12);
                    q.total -= a;
                }
                if let Some(d) = to {
                    t.mining(cfg, p, d);
                    let m = self.minings.get_mut(&(p, d)).unwrap();
                    m.settle();
                    m.delegated += a;
                    m.win |= c(12);
                    q.total += a;
                }
                self.entries.get_mut(eid).unwrap().del = to;
                (call, Expect::Must)
            }
            Op::Slash { eid, native, off } => {
                let e = self.entries.get(eid)?.clone();
                let (p, u) = (e.p, e.u);
                if (e.del.is_some() && !self.strict) || *native > e.amount {
                    return None; // delegated stake: known finding K2
                }
                let n = *native as u128;
                let m = self.minings.get_mut(&(p, u)).unwrap();
                if n > m.base() {
                    return None; // K3
                }
                let boosted = e.boosted(now);
                let w = if boosted { n * e.per.mult() as u128 } else { n };
                let d = w - n;
                let ex = e.expiry();
                if boosted && m.decays.get(&ex).copied().unwrap_or(0) < d {
                    return None; // K3
                }
                t.pool(cfg, p);
                t.mining(cfg, p, u);
                t.tags |= c(13);
                m.settle();
                m.own -= w;
                m.win |= c(13);
                let q = &mut self.pools[p as usize];
                q.total -= w;
                if boosted {
                    *m.decays.get_mut(&ex).unwrap() -= d;
                    *q.decays.get_mut(&ex).unwrap() -= d;
                }
                if let Some(d) = e.del {
                    t.mining(cfg, p, d);
                    t.tags |= c(12);
                    self.minings.get_mut(&(p, d)).unwrap().delegated -= n;
                    self.pools[p as usize].total -= n;
                }
                let left = e.amount - native;
                if left == 0 {
                    self.entries.remove(eid);
                } else {
                    self.entries.get_mut(eid).unwrap().amount = left;
                }
                let date = boosted.then_some(ex + (*off as u64) % DAY);
                (Call::Slash { pool: cfg.pool(p), owner: cfg.user(u), dep: cfg.dep(p), native: *native, weighted: w as u64, date }, nothing(*native))
            }
            Op::Decrease { p, u, amount } => {
                let (p, u) = (*p, *u);
                if !okp(p) {
                    return None;
                }
                let m = self.minings.get_mut(&(p, u))?;
                if *amount as u128 > m.own {
                    return None;
                }
                t.pool(cfg, p);
                t.mining(cfg, p, u);
                t.tags |= c(14);
                m.settle();
                m.own -= *amount as u128;
                m.win |= c(14);
                let mut left = *amount as u128;
                for (_, v) in m.decays.iter_mut().rev() {
                    let x = left.min(*v);
                    *v -= x;
                    left -= x;
                }
                self.pools[p as usize].penalised |= *amount > 0;
                (Call::Decrease { pool: cfg.pool(p), owner: cfg.user(u), dep: cfg.dep(p), amount: *amount }, nothing(*amount))
            }
            Op::Close { p, u, to } => {
                let (p, u) = (*p, *u);
                if !okp(p) || *to > 2 {
                    return None;
                }
                let m = self.minings.get(&(p, u))?;
                let call = Call::Close { pool: cfg.pool(p), owner: cfg.user(u), target: cfg.target(*to), dep: cfg.dep(p) };
                t.pools.insert(p);
                t.mining(cfg, p, u);
                t.keys.insert(cfg.target(*to));
                t.tags |= c(16);
                if m.delegated > 0 {
                    return Some((call, Expect::MustNot(c(16) | c(12), "closing while weight is delegated to the account")));
                }
                let (lo, hi) = m.band();
                if lo > 0 {
                    return Some((call, Expect::MustNot(c(16), "closing while rewards are owed")));
                }
                if self.entries.values().any(|e| e.p == p && e.u == u) || m.own > 0 {
                    if !self.strict {
                        return None; // known finding K4
                    }
                    let (own, dec) = (m.own, m.decays.clone());
                    let q = &mut self.pools[p as usize];
                    q.total -= own;
                    for (d, x) in dec {
                        *q.decays.get_mut(&d).unwrap() -= x;
                    }
                    self.entries.retain(|_, e| e.p != p || e.u != u);
                }
                self.minings.remove(&(p, u));
                self.closed_once.insert((p, u));
                t.closes.push((p, u, *to));
                (call, if hi > 0 { Expect::Either } else { Expect::Must })
            }
            Op::Bad { kind, p, u, v, x } => return self.bad(cfg, *kind, *p, *u, *v, *x, t),
        })
    }

    pub fn init_pool_call(&self, cfg: &Cfg, p: u8) -> Call {
        Call::InitPool { pool: cfg.pool(p), mint: cfg.mint(p), payer: cfg.payer(), dep: cfg.dep(p), fill: cfg.fill(p), dist: cfg.dist(p) }
    }
    pub fn claim_call(&self, cfg: &Cfg, p: u8, u: u8) -> Call {
        Call::Claim { pool: cfg.pool(p), mint: cfg.mint(p), owner: cfg.user(u), dep: cfg.dep(p), dest: cfg.ata(u, p) }
    }

    fn add_stake(&mut self, cfg: &Cfg, e: &Entry, amount: u64, t: &mut Touch) -> Expect {
        let (p, u) = (e.p, e.u);
        let a = amount as u128;
        let w = a * e.per.mult() as u128;
        let exp = e.expiry();
        let room = self.room(p, u, exp);
        // near the limit, or beyond it if records of the past were not released
        if self.pools[p as usize].decays.len() + 1 >= POOL_DATES
            || self.minings[&(p, u)].decays.len() + 1 >= MINING_DATES
            || self.pools[p as usize].dates_ever as usize + 1 >= POOL_DATES
            || self.minings[&(p, u)].dates_ever as usize + 1 >= MINING_DATES
        {
            t.tags |= c(18);
        }
        t.pool(cfg, p);
        t.mining(cfg, p, u);
        let m = self.minings.get_mut(&(p, u)).unwrap();
        let q = &mut self.pools[p as usize];
        m.settle();
        m.own += w;
        q.total += w;
        m.dates_ever += !m.decays.contains_key(&exp) as u32;
        q.dates_ever += !q.decays.contains_key(&exp) as u32;
        Self::add_date(&mut m.decays, exp, w - a);
        Self::add_date(&mut q.decays, exp, w - a);
        m.win |= c(4);
        if let Some(d) = e.del {
            t.mining(cfg, p, d);
            let m = self.minings.get_mut(&(p, d)).unwrap();
            m.settle();
            m.delegated += a;
            m.win |= c(12);
            q.total += a;
        }
        if room {
            Expect::Must
        } else {
            t.probes.insert("capacity_full");
            Expect::Either
        }
    }

    /// Requests no caller may get away with.
    #[allow(clippy::too_many_arguments)]
    fn bad(&mut self, cfg: &Cfg, kind: Bad, p: u8, u: u8, v: u8, x: u64, t: &mut Touch) -> Option<(Call, Expect)> {
        if p as usize >= self.pools.len() || !self.pools[p as usize].init {
            return None;
        }
        let now = self.now;
        let today = day(now);
        let q = self.pools[p as usize].clone();
        let (pool, dep, owner, mint) = (cfg.pool(p), cfg.dep(p), cfg.user(u), cfg.mint(p));
        t.pools.insert(p);
        let fill = |amount: u64, ends: u64| Call::Fill { pool, mint, auth: cfg.fill(p), source: cfg.src(p), amount, ends };
        match kind {
            Bad::FillZero => {
                return Some((fill(0, q.ends.max(today).saturating_add(x % 100 * DAY)), Expect::MustNot(c(8), "zero fill")))
            }
            Bad::FillPast => {
                let e = today.checked_sub(1 + x % (400 * DAY))?;
                return Some((fill(1 + x % 1000, e), Expect::MustNot(c(8), "fill ending in the past")));
            }
            Bad::FillShorter => {
                if q.ends <= today {
                    return None;
                }
                let e = q.ends - 1 - x % (q.ends - today);
                return Some((fill(1 + x % 1000, e), Expect::MustNot(c(8), "fill shortening the distribution")));
            }
            Bad::FillPoor => {
                let have = self.tok[&cfg.src(p)];
                return Some((fill(have + 1 + x % 1000, q.ends.max(today)), Expect::MustNot(c(8), "fill the source cannot pay")));
            }
            Bad::InitPoolTwice => {
                let mut call = self.init_pool_call(cfg, p);
                if let Call::InitPool { mint, dep, fill, dist, .. } = &mut call {
                    // with another mint the vault to be created is a fresh one
                    if x & 1 == 0 {
                        *mint = cfg.xmint();
                    }
                    let a = cfg.user(cfg.attacker());
                    for (bit, k) in [(2, dep), (4, fill), (8, dist)] {
                        if x & bit == 0 {
                            *k = a;
                        }
                    }
                }
                return Some((call, Expect::MustNot(c(19), "initialising a pool twice")));
            }
            _ => {}
        }
        let m = self.minings.get(&(p, u))?.clone();
        t.minings.insert((p, u));
        let big = |w: u128| u64::try_from(w).ok();
        let has_v = v != u && self.minings.contains_key(&(p, v));
        Some(match kind {
            Bad::InitMiningTwice => (
                Call::InitMining { pool, payer: if x & 1 == 0 { cfg.payer() } else { cfg.user(cfg.attacker()) }, owner },
                Expect::MustNot(c(19), "initialising a mining account twice"),
            ),
            Bad::OverWithdraw => (
                Call::Withdraw { pool, owner, dep, delegate: owner, amount: big(m.own + 1 + (x % (1 << 40)) as u128)? },
                Expect::MustNot(c(4), "withdrawing more than the account's weight"),
            ),
            Bad::WithdrawOverDelegate => {
                if !has_v {
                    return None;
                }
                let dl = self.minings[&(p, v)].delegated;
                if m.own <= dl {
                    return None;
                }
                let a = dl + 1 + x as u128 % (m.own - dl);
                (
                    Call::Withdraw { pool, owner, dep, delegate: cfg.user(v), amount: big(a)? },
                    Expect::MustNot(c(12) | c(4), "withdrawing more than was delegated"),
                )
            }
            Bad::OverSlash => {
                let a = big(m.own + 1 + (x % (1 << 40)) as u128)?;
                // naming no day, or one on which enough of a boost expires
                let ds: Vec<(u64, u128)> = m.decays.iter().map(|(a, b)| (*a, *b)).collect();
                let (native, date) = match x / 7 % 2 {
                    1 if !ds.is_empty() => {
                        let (d, dv) = ds[x as usize / 14 % ds.len()];
                        (a - dv.min(a as u128) as u64, Some(d))
                    }
                    _ => (a, None),
                };
                (
                    Call::Slash { pool, owner, dep, native, weighted: a, date },
                    Expect::MustNot(c(13), "slashing more than the account's weight"),
                )
            }
            Bad::SlashNoDate => {
                if m.own == 0 {
                    return None;
                }
                let n = x / 8 % 400 * DAY;
                let d = match x % 8 {
                    0 => today.checked_sub(n + DAY)?,
                    1 if x / 8 % 3 == 0 => 0,
                    1 => day(u64::MAX >> (x / 8 % 34)) - DAY,
                    _ => today + n,
                };
                if m.decays.contains_key(&d) {
                    return None;
                }
                let w = big(1 + x as u128 % m.own)?;
                (
                    Call::Slash { pool, owner, dep, native: w - w / 2, weighted: w, date: Some(d + if x / 32 % 2 == 0 { 0 } else { x % DAY }) },
                    Expect::MustNot(c(13), "slashing a stake with no expiry on that day"),
                )
            }
            Bad::SlashInverted => {
                if m.own < 2 {
                    return None;
                }
                let ds: Vec<u64> = m.decays.keys().copied().collect();
                if ds.is_empty() {
                    return None;
                }
                let w = big(1 + x as u128 % (m.own - 1))?;
                (
                    Call::Slash { pool, owner, dep, native: w.checked_add(1 + x % 1000)?, weighted: w, date: Some(ds[x as usize % ds.len()]) },
                    Expect::MustNot(c(13), "slashing more tokens than weight"),
                )
            }
            Bad::SlashOverDiff => {
                let ds: Vec<(u64, u128)> = m.decays.iter().map(|(a, b)| (*a, *b)).collect();
                if ds.is_empty() {
                    return None;
                }
                let (d, dv) = ds[x as usize % ds.len()];
                // weighted - native > dv, weighted <= own
                if m.own < dv + 1 {
                    return None;
                }
                let extra = 1 + x as u128 % (m.own - dv);
                let w = dv + extra;
                (
                    Call::Slash { pool, owner, dep, native: 0, weighted: big(w)?, date: Some(d) },
                    Expect::MustNot(c(13), "slashing more boost than expires that day"),
                )
            }
            Bad::DecreaseBig => (
                Call::Decrease { pool, owner, dep, amount: big(m.own + 1 + (x % (1 << 40)) as u128)? },
                Expect::MustNot(c(14), "penalty above the account's weight"),
            ),
            Bad::DepositNone => (
                Call::Deposit { pool, owner, dep, delegate: owner, amount: 1 + x % 1000, per: 0 },
                Expect::MustNot(c(4), "deposit without a lockup period"),
            ),
            Bad::DepositBadByte => (
                Call::Deposit { pool, owner, dep, delegate: owner, amount: 1 + x % 1000, per: 5 + (x % 250) as u8 },
                Expect::MustNot(c(4), "deposit with an unknown lockup period"),
            ),
            Bad::DepositHuge => {
                let (per, mult) = [(2u8, 2u64), (3, 4), (4, 6)][x as usize % 3];
                let lim = u64::MAX / mult;
                // from here on the weight itself fits and the pool's new total does not
                let least = ((1u128 << 64) - q.total.min((1 << 64) - 1)).div_ceil(mult as u128) as u64;
                let a = if x / 3 % 2 == 0 || least > lim {
                    lim + 1 + x % (u64::MAX - lim)
                } else {
                    least + (x / 6) % (lim - least + 1)
                };
                (
                    Call::Deposit { pool, owner, dep, delegate: owner, amount: a, per },
                    Expect::MustNot(c(4) | c(18), "deposit whose weight does not fit"),
                )
            }
            Bad::ExtendBogus => {
                let (old, days) = [(2u8, 90u64), (3, 180), (4, 365)][x as usize % 3];
                let back = x / 7 % days;
                let start = now.checked_sub(back * DAY)?;
                let exp = day(start) + days * DAY;
                if exp <= now || m.decays.get(&exp).copied().unwrap_or(0) > 0 {
                    return None;
                }
                let base = big(1 + x as u128 % (m.own / 8).max(1))?;
                (
                    Call::Extend { pool, owner, dep, delegate: owner, old, new: 4, start, base, add: 0, mint },
                    Expect::MustNot(c(15), "extending a stake that does not exist"),
                )
            }
            Bad::ExtendOver => (
                Call::Extend { pool, owner, dep, delegate: owner, old: 1, new: 4, start: now, base: big(m.own + 1 + (x % (1 << 30)) as u128)?, add: 0, mint },
                Expect::MustNot(c(15), "extending more than the account's weight"),
            ),
            Bad::ExtendNone => {
                if m.base() == 0 {
                    return None;
                }
                let base = big(1 + x as u128 % m.base())?;
                let (old, new) = if x & 1 == 0 { (1, 0) } else { (0, 2) };
                (
                    Call::Extend { pool, owner, dep, delegate: owner, old, new, start: now, base, add: 0, mint },
                    Expect::MustNot(c(15), "extending to or from no lockup period"),
                )
            }
            Bad::ExtendOverDelegate => {
                if !has_v {
                    return None;
                }
                let dl = self.minings[&(p, v)].delegated;
                if m.base() <= dl {
                    return None;
                }
                let a = dl + 1 + x as u128 % (m.base() - dl);
                (
                    Call::Extend { pool, owner, dep, delegate: cfg.user(v), old: 1, new: 2, start: now, base: big(a)?, add: 0, mint },
                    Expect::MustNot(c(12) | c(15), "extending more than was delegated"),
                )
            }
            Bad::SameDelegate => {
                let d = if has_v && x & 1 == 0 { v } else { u };
                (
                    Call::ChangeDelegate { pool, owner, dep, old: cfg.user(d), new: cfg.user(d), amount: 1 + x % 1000 },
                    Expect::MustNot(c(12), "changing to the same delegate"),
                )
            }
            Bad::OverUndelegate => {
                if !has_v {
                    return None;
                }
                let a = self.minings[&(p, v)].delegated + 1 + (x % (1 << 30)) as u128;
                (
                    Call::ChangeDelegate { pool, owner, dep, old: cfg.user(v), new: owner, amount: big(a)? },
                    Expect::MustNot(c(12), "moving more weight than was delegated"),
                )
            }
            _ => return None,
        })
    }

    /// records the outcome of a claim
    pub fn claimed(&mut self, cfg: &Cfg, p: u8, u: u8, amount: u64, same: bool) {
        if let (true, Some(m)) = (same, self.minings.get_mut(&(p, u))) {
            m.paid += amount as u128;
        }
        if let Some(v) = self.tok.get_mut(&cfg.vault(p)) {
            *v = v.wrapping_sub(amount);
        }
        if let Some(v) = self.tok.get_mut(&cfg.ata(u, p)) {
            *v = v.wrapping_add(amount);
        }
    }
}
