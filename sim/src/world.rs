//! One simulated execution: steps go to the real program in the simulated runtime and to the
//! reference model, and everything observable is compared after each of them.

use crate::attack::{self, Atk};
use crate::bank::{tail_fail_id, Acct, Bank, TxFault, TxOut};
use crate::client;
use crate::iface;
use crate::keys::{balance, Cfg};
use crate::model::{c, day, tag_names, Expect, Logic, MMining, Op, Tags, Touch};
use crate::wire::{mining_view, pool_view, Call, MINING_LEN};
use serde::{Deserialize, Serialize};
use solana_program::{
    instruction::{AccountMeta, Instruction},
    program_error::ProgramError,
    pubkey::Pubkey,
    system_instruction, system_program,
};
use std::collections::{BTreeMap, BTreeSet, HashSet};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(tag = "env")]
pub enum Env {
    /// somebody sends lamports to an address that does not exist yet
    PrefundMining { p: u8, u: u8, lamports: u64 },
    PrefundVault { p: u8, lamports: u64 },
    /// somebody sends reward tokens straight to the vault
    Donate { p: u8, amount: u64 },
    FreezeVault { p: u8 },
    FreezeUser { p: u8, u: u8 },
    Thaw,
    /// cluster fork: remember the state / drop everything since
    Snap,
    Rollback,
    /// everybody claims at once (on a copy of the state)
    BankRun,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Step {
    pub at: u64,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub ops: Vec<Op>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub env: Option<Env>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub attack: Option<Atk>,
    /// 0 harness encoding, 1 program crate builders, 2 shipped client builders, 3 shipped client CPI,
    /// 4 published interface description, 5 JavaScript client
    #[serde(default, skip_serializing_if = "is_zero")]
    pub via: u8,
    #[serde(default, skip_serializing_if = "is_false")]
    pub wire: bool,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub abort: Option<u32>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub cpi: Option<u32>,
    #[serde(default, skip_serializing_if = "is_false")]
    pub tail: bool,
    /// lamports a stranger sends, in the same transaction, to every account that was closed in it
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub dust: Option<u64>,
    /// only in one of the two executions of a settlement-timing twin
    #[serde(default, skip_serializing_if = "is_false")]
    pub extra: bool,
    #[serde(default, skip_serializing_if = "is_false")]
    pub probe: bool,
    /// faults have stopped; part of the final drain
    #[serde(default, skip_serializing_if = "is_false")]
    pub drain: bool,
}
fn is_zero(v: &u8) -> bool {
    *v == 0
}
fn is_false(v: &bool) -> bool {
    !*v
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub tags: Tags,
    pub msg: String,
    pub step: usize,
}

#[derive(Clone, Default)]
pub struct Stats {
    pub n: BTreeMap<String, u64>,
    pub states: HashSet<u64>,
    pub sim_secs: u64,
    pub txs: u64,
    pub program_calls: u64,
    pub heap: usize,
}
impl Stats {
    pub fn hit(&mut self, k: &str) {
        match self.n.get_mut(k) {
            Some(v) => *v += 1,
            None => {
                self.n.insert(k.to_string(), 1);
            }
        }
    }
    pub fn merge(&mut self, o: Stats) {
        for (k, v) in o.n {
            *self.n.entry(k).or_insert(0) += v;
        }
        if self.states.len() < 4_000_000 {
            self.states.extend(o.states);
        }
        self.sim_secs += o.sim_secs;
        self.txs += o.txs;
        self.program_calls += o.program_calls;
        self.heap = self.heap.max(o.heap);
    }
}

pub struct World {
    pub cfg: Cfg,
    pub bank: Bank,
    pub m: Logic,
    pub want: Tags,
    pub viol: Option<Violation>,
    pub dead: bool,
    pub stats: Stats,
    pub step_no: usize,
    pub off_model: u64,
    snap: Option<(Bank, Logic)>,
    pub payouts: BTreeMap<(u8, u8), (u128, u128)>,
    pub log: Option<Vec<String>>,
    pub outs: Vec<TxOut>,
    /// time and acceptance of every transaction that is not an extra claim
    pub shape: Vec<(u64, bool)>,
}

pub fn hash_bank(b: &Bank) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    let mut eat = |d: &[u8]| {
        for ch in d.chunks(8) {
            let mut w = [0u8; 8];
            w[..ch.len()].copy_from_slice(ch);
            h = crate::rng::mix(h ^ u64::from_le_bytes(w));
        }
    };
    for (k, a) in &b.accts {
        eat(k.as_ref());
        eat(&a.lamports.to_le_bytes());
        eat(a.owner.as_ref());
        eat(&a.data);
    }
    h
}

fn same(a: &Acct, b: &Acct) -> bool {
    a.lamports == b.lamports
        && a.owner == b.owner
        && (std::sync::Arc::ptr_eq(&a.data, &b.data) || a.data == b.data)
}

pub fn diff_banks(a: &Bank, b: &Bank) -> Vec<Pubkey> {
    let mut out = Vec::new();
    for (k, x) in &a.accts {
        match b.accts.get(k) {
            Some(y) if same(x, y) => {}
            _ => out.push(*k),
        }
    }
    for k in b.accts.keys() {
        if !a.accts.contains_key(k) {
            out.push(*k);
        }
    }
    out
}

impl World {
    pub fn new(cfg: &Cfg, want: Tags) -> World {
        World {
            cfg: cfg.clone(),
            bank: cfg.genesis(),
            m: Logic::new(cfg),
            want,
            viol: None,
            dead: false,
            stats: Stats::default(),
            step_no: 0,
            off_model: 0,
            snap: None,
            payouts: BTreeMap::new(),
            log: None,
            outs: vec![],
            shape: vec![],
        }
    }

    pub fn done(&self) -> bool {
        self.viol.is_some() || self.dead
    }

    pub fn report(&mut self, tags: Tags, msg: String) {
        // rewards that go missing once more days have been distributed than there are records for
        let full = self.m.pools.iter().any(|q| q.ndist as usize >= crate::wire::INDEX_DATES);
        let tags = if full && tags & c(2) != 0 { tags | c(18) } else { tags };
        if let Some(l) = self.log.as_mut() {
            l.push(format!("  !! [{}] {msg}", tag_names(tags)));
        }
        if self.viol.is_some() {
            return;
        }
        if tags & self.want != 0 {
            self.viol = Some(Violation { tags, msg, step: self.step_no });
        } else {
            self.off_model += 1;
            if self.off_model > 200 {
                self.dead = true;
            }
        }
    }

    fn name(&self, k: &Pubkey) -> String {
        let g = &self.cfg;
        for p in 0..=g.npools {
            if *k == g.pool(p) {
                return format!("pool{p}");
            }
            if *k == g.vault(p) {
                return format!("vault{p}");
            }
            if *k == g.src(p) {
                return format!("source{p}");
            }
            for u in 0..=g.nusers {
                if *k == g.mining(p, u) {
                    return format!("mining(p{p},u{u})");
                }
                if *k == g.ata(u, p) {
                    return format!("token(u{u},p{p})");
                }
            }
        }
        for u in 0..=g.nusers {
            if *k == g.user(u) {
                return format!("user{u}");
            }
        }
        k.to_string()
    }

    pub fn run(&mut self, steps: &[Step]) {
        for s in steps {
            self.step(s);
            if self.done() {
                return;
            }
        }
    }

    pub fn step(&mut self, s: &Step) {
        if self.done() {
            return;
        }
        if self.step_no == 0 {
            self.check_errors();
        }
        let at = s.at.max(self.m.now);
        self.stats.sim_secs += at - self.m.now;
        self.bank.now = at as i64;
        self.bank.slot += 1;
        self.m.advance(at);
        if let Some(l) = self.log.as_mut() {
            l.push(format!(
                "#{} t={} (day {} +{}s) {}",
                self.step_no,
                at,
                at / 86400,
                at % 86400,
                serde_json::to_string(s).unwrap_or_default()
            ));
        }
        if let Some(e) = &s.env {
            self.env(e, s);
        }
        if let Some(a) = &s.attack {
            if let Some(op) = s.ops.first() {
                self.attack(op, a, s);
            }
        } else if !s.ops.is_empty() {
            self.tx(s);
        }
        self.step_no += 1;
    }

    // ------------------------------------------------------------------------------ environment

    fn env(&mut self, e: &Env, _s: &Step) {
        let g = self.cfg.clone();
        match e {
            Env::PrefundMining { p, u, lamports } => {
                let k = g.mining(*p, *u);
                if *p <= g.npools && *u <= g.nusers && !self.bank.accts.contains_key(&k) {
                    self.send_lamports(k, *lamports);
                    self.stats.hit("fault.prefund_mining");
                }
            }
            Env::PrefundVault { p, lamports } => {
                let k = g.vault(*p);
                if *p <= g.npools && !self.bank.accts.contains_key(&k) {
                    self.send_lamports(k, *lamports);
                    self.stats.hit("fault.prefund_vault");
                }
            }
            Env::Donate { p, amount } => {
                if *p <= g.npools && self.m.pools[*p as usize].init && *amount < self.m.tok[&g.src(*p)] / 4 {
                    let ix = spl_token::instruction::transfer(&spl_token::id(), &g.src(*p), &g.vault(*p), &g.fill(*p), &[], *amount).unwrap();
                    let o = self.bank.exec(&[ix], TxFault::default(), false);
                    if o.ok {
                        *self.m.tok.get_mut(&g.src(*p)).unwrap() -= amount;
                        *self.m.tok.get_mut(&g.vault(*p)).unwrap() += amount;
                        self.stats.hit("fault.donation");
                    }
                }
            }
            Env::FreezeVault { p } => {
                if *p <= g.npools && self.m.pools[*p as usize].init {
                    self.freeze(g.vault(*p), g.mint(*p), true);
                }
            }
            Env::FreezeUser { p, u } => {
                if *p <= g.npools && *u <= g.nusers {
                    self.freeze(g.ata(*u, *p), g.mint(*p), true);
                }
            }
            Env::Thaw => {
                let f: Vec<Pubkey> = self.m.frozen.iter().copied().collect();
                for k in f {
                    let a = self.bank.get(&k);
                    if a.data.len() == 165 {
                        let mint = Pubkey::new_from_array(a.data[..32].try_into().unwrap());
                        self.freeze(k, mint, false);
                    }
                }
            }
            Env::Snap => {
                self.snap = Some((self.bank.clone(), self.m.clone()));
            }
            Env::Rollback => {
                if let Some((b, m)) = self.snap.take() {
                    self.bank = b;
                    self.m = m;
                    self.stats.hit("fault.fork_rollback");
                }
            }
            Env::BankRun => self.bank_run(),
        }
    }

    fn send_lamports(&mut self, k: Pubkey, lamports: u64) {
        let ix = system_instruction::transfer(&self.cfg.freezer(), &k, lamports);
        self.bank.exec(&[ix], TxFault::default(), false);
    }

    fn freeze(&mut self, acct: Pubkey, mint: Pubkey, on: bool) {
        let tok = spl_token::id();
        let auth = self.cfg.freezer();
        let ix = if on {
            spl_token::instruction::freeze_account(&tok, &acct, &mint, &auth, &[]).unwrap()
        } else {
            spl_token::instruction::thaw_account(&tok, &acct, &mint, &auth, &[]).unwrap()
        };
        let o = self.bank.exec(&[ix], TxFault::default(), false);
        if o.ok {
            if on {
                self.m.frozen.insert(acct);
                self.stats.hit("fault.token_freeze");
            } else {
                self.m.frozen.remove(&acct);
            }
        }
    }

    // ------------------------------------------------------------------------------ probes

    /// What a claim would pay right now, on a copy of the state.
    fn try_claim(&self, b: &mut Bank, p: u8, u: u8) -> Result<u64, String> {
        let pre = balance(b, &self.cfg.ata(u, p));
        let o = b.exec(&[self.m.claim_call(&self.cfg, p, u).raw()], TxFault::default(), false);
        if o.ok {
            Ok(balance(b, &self.cfg.ata(u, p)).wrapping_sub(pre))
        } else {
            Err(o.err.unwrap_or_default())
        }
    }

    fn thawed(&self) -> Bank {
        let mut b = self.bank.clone();
        for k in &self.m.frozen {
            if let Some(a) = b.accts.get_mut(k) {
                let mut d = (*a.data).clone();
                d[108] = 1;
                a.data = std::sync::Arc::new(d);
            }
        }
        b
    }

    fn band_tags(&self, m: &MMining) -> Tags {
        let mut t = c(2) | m.win;
        if m.dists == 0 {
            t |= c(11);
        }
        t
    }

    fn judge_payout(&mut self, p: u8, u: u8, m: &MMining, paid: u64, what: &str, extra: Tags) {
        let (lo, hi) = m.band();
        if paid < lo || paid > hi {
            let mut t = self.band_tags(m) | extra;
            if m.dists == 0 && paid > 0 {
                t |= c(11) | c(19);
            }
            let msg = format!(
                "{what} of user {u} in pool {p} pays {paid}, the pro-rata entitlement is {lo}..={hi} ({} distributions since the last payout)",
                m.dists
            );
            self.report(t, msg);
        }
    }

    fn probe(&mut self, p: u8, u: u8, tags: Tags) {
        let mut b = self.thawed();
        match self.try_claim(&mut b, p, u) {
            Ok(paid) => {
                let m = self.m.minings[&(p, u)].clone();
                self.judge_payout(p, u, &m, paid, "a claim", tags & !(c(6) | c(7)))
            }
            Err(e) => {
                let t = c(17) | c(2) | c(11) | tags;
                self.report(t, format!("a claim of user {u} in pool {p} is refused: {e}"));
            }
        }
    }

    /// What is still unpaid, for comparing whole histories.
    pub fn final_claim(&self, p: u8, u: u8) -> Result<u64, String> {
        let mut b = self.thawed();
        self.try_claim(&mut b, p, u)
    }

    /// Every owner claims; all must be paid and the undistributed reserve must still be there.
    pub fn bank_run(&mut self) {
        self.stats.hit("check.bank_run");
        let mut b = self.thawed();
        let ids: Vec<(u8, u8)> = self.m.minings.keys().copied().collect();
        for (p, u) in ids {
            if let Err(e) = self.try_claim(&mut b, p, u) {
                self.report(c(1) | c(17), format!("when everybody claims, the claim of user {u} in pool {p} is refused: {e}"));
            }
        }
        for p in 0..=self.cfg.npools {
            if !self.m.pools[p as usize].init {
                continue;
            }
            let left = balance(&b, &self.cfg.vault(p));
            if let Some(v) = pool_view(&b.get(&self.cfg.pool(p))) {
                if left < v.reserve {
                    self.report(
                        c(1),
                        format!("pool {p}: after everybody claimed the vault holds {left} but {} are still to be distributed", v.reserve),
                    );
                }
            }
        }
    }

    // ------------------------------------------------------------------------------ state checks

    pub fn check_pool(&mut self, p: u8, tags: Tags, soft: Tags) {
        let g = self.cfg.clone();
        let want = self.m.pools[p as usize].clone();
        let a = self.bank.get(&g.pool(p));
        let Some(v) = pool_view(&a) else {
            self.report(tags | c(10) | c(18), format!("pool {p} account is no longer readable"));
            return;
        };
        if !want.init {
            if v.kind != 0 {
                self.report(tags | c(19), format!("pool {p} is marked initialised but was never initialised"));
            }
            return;
        }
        let today = day(self.m.now);
        let due: u128 = v.diffs.range(..=today).map(|(_, x)| *x as u128).sum();
        let total = (v.total as u128).checked_sub(due);
        if total != Some(want.total) {
            self.report(
                tags | c(4) | soft,
                format!("pool {p}: total weight is {total:?}, the stakes in it add up to {}", want.total),
            );
        }
        let fut: BTreeMap<u64, u128> = v.diffs.range(today + 1..).filter(|(_, x)| **x > 0).map(|(k, x)| (*k, *x as u128)).collect();
        let wf: BTreeMap<u64, u128> = want.decays.iter().filter(|(_, x)| **x > 0).map(|(k, x)| (*k, *x)).collect();
        if fut != wf {
            self.report(tags | c(5) | c(4) | soft, format!("pool {p}: scheduled weight decreases are {fut:?}, must be {wf:?}"));
        }
        if v.reserve != want.reserve {
            self.report(tags | c(7) | c(6), format!("pool {p}: {} tokens left to distribute, must be {}", v.reserve, want.reserve));
        }
        if v.ends != want.ends {
            self.report(tags | c(8) | c(7), format!("pool {p}: distribution ends at {}, must be {}", v.ends, want.ends));
        }
        if v.dep != g.dep(p) || v.fill != g.fill(p) || v.dist != g.dist(p) || v.mint != g.mint(p) || v.kind != 1 {
            self.report(tags | c(9) | c(10) | c(19), format!("pool {p}: authorities, mint or type changed"));
        }
        let va = self.bank.get(&g.vault(p));
        let bal = balance(&self.bank, &g.vault(p));
        let exp = self.m.tok[&g.vault(p)];
        if bal != exp {
            self.report(tags | c(8), format!("vault {p} holds {bal} tokens, must be {exp}"));
        }
        if va.owner != spl_token::id() || va.data.len() != 165 || va.data[..32] != g.mint(p).to_bytes() || va.data[32..64] != g.dep(p).to_bytes() {
            self.report(tags | c(8) | c(19), format!("vault {p} is not a token account of the reward mint under the pool's authority"));
        }
    }

    pub fn check_mining(&mut self, p: u8, u: u8, tags: Tags, soft: Tags) {
        let g = self.cfg.clone();
        let k = g.mining(p, u);
        let a = self.bank.get(&k);
        let Some(w) = self.m.minings.get(&(p, u)).cloned() else {
            if a.owner == mplx_rewards::id() {
                self.report(tags | c(16) | c(19), format!("mining account of user {u} in pool {p} exists but must not"));
            }
            return;
        };
        let Some(v) = mining_view(&a) else {
            self.report(tags | c(19) | c(18), format!("mining account of user {u} in pool {p} is not readable"));
            return;
        };
        let today = day(self.m.now);
        let due: u128 = v.diffs.range(..=today).map(|(_, x)| *x as u128).sum();
        let own = (v.share as u128).checked_sub(due);
        if own != Some(w.own) {
            self.report(tags | c(4) | soft, format!("user {u} in pool {p}: own weight is {own:?}, must be {}", w.own));
        }
        if v.from_others as u128 != w.delegated {
            self.report(tags | c(12) | soft, format!("user {u} in pool {p}: delegated weight is {}, must be {}", v.from_others, w.delegated));
        }
        let fut: BTreeMap<u64, u128> = v.diffs.range(today + 1..).filter(|(_, x)| **x > 0).map(|(k, x)| (*k, *x as u128)).collect();
        let wf: BTreeMap<u64, u128> = w.decays.iter().filter(|(_, x)| **x > 0).map(|(k, x)| (*k, *x)).collect();
        if fut != wf {
            self.report(tags | c(5) | soft, format!("user {u} in pool {p}: scheduled weight decreases are {fut:?}, must be {wf:?}"));
        }
        if v.pool != g.pool(p) || v.owner != g.user(u) || v.kind != 2 {
            self.report(tags | c(10) | c(19), format!("mining account of user {u} in pool {p}: owner, pool or type wrong"));
        }
        if !self.bank.rent().is_exempt(a.lamports, a.data.len()) || a.data.len() != MINING_LEN {
            self.report(tags | c(19), format!("mining account of user {u} in pool {p} is not rent exempt at its size"));
        }
    }

    fn check_decoders(&mut self, t: &Touch) {
        let other = Pubkey::new_from_array([7; 32]);
        for p in &t.pools {
            let key = self.cfg.pool(*p);
            let a = self.bank.get(&key);
            let Some(v) = pool_view(&a) else { continue };
            let want = [
                ("depositAuthority", v.dep.to_string()),
                ("distributeAuthority", v.dist.to_string()),
                ("fillAuthority", v.fill.to_string()),
                ("rewardMint", v.mint.to_string()),
                ("indexWithPrecision", v.index.to_string()),
                ("totalShare", v.total.to_string()),
                ("distributionEndsAt", v.ends.to_string()),
                ("tokensAvailableForDistribution", v.reserve.to_string()),
                ("tokenAccountBump", v.bump.to_string()),
                ("data", a.data[169..176].iter().map(|b| b.to_string()).collect::<Vec<_>>().join(",")),
            ];
            let what = format!("pool {p}");
            let rust = client::decode_pool(&a.data).map(|d| {
                [
                    d.deposit_authority.to_string(), d.distribute_authority.to_string(), d.fill_authority.to_string(),
                    d.reward_mint.to_string(), d.index_with_precision.to_string(), d.total_share.to_string(),
                    d.distribution_ends_at.to_string(), d.tokens_available_for_distribution.to_string(),
                    d.token_account_bump.to_string(), d.data.iter().map(|b| b.to_string()).collect::<Vec<_>>().join(","),
                ]
                .to_vec()
            });
            self.judge_decoders("RewardPool", &what, &key, &other, &a.data, &want, rust, 176, client::pool_len());
        }
        for (p, u) in &t.minings {
            let key = self.cfg.mining(*p, *u);
            let a = self.bank.get(&key);
            let Some(v) = mining_view(&a) else { continue };
            let want = [
                ("rewardPool", v.pool.to_string()),
                ("owner", v.owner.to_string()),
                ("rewardMint", v.mint.to_string()),
                ("indexWithPrecision", v.index.to_string()),
                ("share", v.share.to_string()),
                ("unclaimedRewards", v.unclaimed.to_string()),
                ("stakeFromOthers", v.from_others.to_string()),
                ("bump", v.bump.to_string()),
                ("data", a.data[137..144].iter().map(|b| b.to_string()).collect::<Vec<_>>().join(",")),
            ];
            let what = format!("the mining account of user {u} in pool {p}");
            let rust = client::decode_mining(&a.data).map(|d| {
                [
                    d.reward_pool.to_string(), d.owner.to_string(), d.reward_mint.to_string(), d.index_with_precision.to_string(),
                    d.share.to_string(), d.unclaimed_rewards.to_string(), d.stake_from_others.to_string(),
                    d.bump.to_string(), d.data.iter().map(|b| b.to_string()).collect::<Vec<_>>().join(","),
                ]
                .to_vec()
            });
            self.judge_decoders("Mining", &what, &key, &other, &a.data, &want, rust, 144, client::mining_len());
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn judge_decoders(
        &mut self,
        kind: &str,
        what: &str,
        key: &Pubkey,
        other: &Pubkey,
        data: &[u8],
        want: &[(&str, String)],
        rust: Option<Vec<String>>,
        fixed: usize,
        rust_len: usize,
    ) {
        if self.want & c(20) != 0 {
            let w: Vec<String> = want.iter().map(|x| x.1.clone()).collect();
            if rust.as_ref() != Some(&w) || rust_len != fixed {
                self.report(c(20), format!("the shipped client decodes {what} differently from its on-chain layout"));
            }
            let types = client::type_names(data[fixed - 7]);
            if types.iter().any(|n| n != kind) {
                self.report(c(20), format!("the shipped client takes the type recorded in {what} for {types:?}"));
            }
            let idl = iface::idl_decode(kind, data);
            let ok = idl.as_ref().is_some_and(|f| {
                want.iter().all(|(n, v)| f.iter().any(|(m, x)| m == n && x == v))
            });
            if !ok {
                self.report(c(20), format!("the published interface description reads {what} as {idl:?}, stored is {want:?}"));
            }
            self.stats.hit("probe.decoded_by_rust_client_and_interface_description");
        }
        if self.want & c(22) != 0 {
            match iface::js_decode(kind, key, other, data, want) {
                Ok(n) if n == fixed => {}
                Ok(n) => self.report(c(22), format!("the JavaScript client gives {kind} accounts {n} bytes, their fixed part has {fixed}")),
                Err(e) => self.report(c(22), format!("the JavaScript client reads {what} wrongly: {e}")),
            }
            self.stats.hit("probe.decoded_by_javascript_client");
        }
    }

    /// The names of the error codes agree everywhere; codes nobody uses are unknown everywhere.
    fn check_errors(&mut self) {
        use mplx_rewards::error::MplxRewardsError as P;
        use num_traits::FromPrimitive;
        use rewards::errors::MplxRewardsError as R;
        let tag = self.want & (c(20) | c(22));
        if tag == 0 {
            return;
        }
        // Wordings may differ, but what describes one error here must not describe another one there.
        let said: Vec<Option<String>> = (0..40).map(|code| P::from_u32(code).map(|e| e.to_string())).collect();
        let confused = |code: u32, text: &Option<String>| {
            text.is_some() && said[code as usize] != *text && said.iter().any(|t| t == text)
        };
        for code in 0..40u32 {
            let p = P::from_u32(code).map(|e| format!("{e:?}"));
            let wire = P::from_u32(code).map(|e| u64::from(ProgramError::from(e)));
            if p.is_some() && wire != Some(if code == 0 { 1u64 << 32 } else { code as u64 }) {
                self.report(tag, format!("error {p:?} is reported to callers as {wire:?}, its number is {code}"));
            }
            if tag & c(20) != 0 {
                let r = R::from_u32(code).map(|e| format!("{e:?}"));
                if r != p {
                    self.report(c(20), format!("error {code} is {p:?} in the program and {r:?} in the shipped client"));
                }
                let t = R::from_u32(code).map(|e| e.to_string());
                if confused(code, &t) {
                    self.report(c(20), format!("error {code} is {:?} in the program and {t:?} in the shipped client", said[code as usize]));
                }
                let t = iface::idl_error(code, "msg");
                if confused(code, &t) {
                    self.report(c(20), format!("error {code} is {:?} in the program and {t:?} in the interface description", said[code as usize]));
                }
                let i = iface::idl_error(code, "name");
                if i != p {
                    self.report(c(20), format!("error {code} is {p:?} in the program and {i:?} in the interface description"));
                }
                let wire = R::from_u32(code).map(|e| e as u32);
                if wire.is_some_and(|w| w != code) {
                    self.report(c(20), format!("error {code} of the shipped client converts to {wire:?}"));
                }
            }
            if tag & c(22) != 0 {
                let r = iface::js(&serde_json::json!({ "cmd": "err", "code": code, "name": p }));
                let id = mplx_rewards::id().to_string();
                let ok = match &p {
                    None => r["name"].is_null() && r["error"].is_null(),
                    Some(n) => r["name"] == **n && r["code"] == code && r["byName"] == code && r["nameByName"] == **n,
                };
                let t = r["message"].as_str().map(String::from);
                if confused(code, &t) {
                    self.report(c(22), format!("error {code} is {:?} in the program and {t:?} in the JavaScript client", said[code as usize]));
                }
                if !ok || r["program"] != id || r["fetched"] != id {
                    self.report(c(22), format!("error {code} is {p:?} in the program, the JavaScript client answers {r}"));
                }
            }
        }
        self.stats.hit("probe.error_codes_compared");
    }

    // ------------------------------------------------------------------------------ transactions

    fn tx(&mut self, s: &Step) {
        let g = self.cfg.clone();
        let mut next = self.m.clone();
        let mut t = Touch::default();
        let mut calls: Vec<Call> = vec![];
        let mut expect = Expect::Must;
        for op in &s.ops {
            let saved = (next.clone(), t.clone());
            match next.plan(&g, op, &mut t) {
                None => {
                    next = saved.0;
                    t = saved.1;
                }
                Some((call, e)) => {
                    self.stats.hit(&format!("op.{}", op_name(op)));
                    calls.push(call);
                    match (&expect, &e) {
                        (Expect::MustNot(..), _) => {}
                        (_, Expect::MustNot(..)) => expect = e,
                        (_, Expect::Either) => expect = e,
                        _ => {}
                    }
                    if matches!(expect, Expect::MustNot(..)) {
                        break;
                    }
                }
            }
        }
        if s.ops.iter().any(|o| matches!(o, Op::Withdraw { amount: 0, .. } | Op::Slash { native: 0, .. } | Op::Decrease { amount: 0, .. })) {
            self.stats.hit("probe.request_for_nothing");
        }
        if calls.is_empty() {
            self.stats.hit("skipped");
            return;
        }
        if calls.len() > 1 {
            self.stats.hit("probe.multi_instruction_tx");
        }
        for p in &t.probes {
            self.stats.hit(&format!("probe.{p}"));
        }
        if self.m.now % 86400 == 0 {
            self.stats.hit("probe.tx_exactly_at_midnight");
        }
        if self.m.pools.iter().any(|q| q.total >> 63 != 0) {
            self.stats.hit("probe.total_weight_above_2_63");
        }
        if self.m.pools.iter().any(|q| q.reserve >> 62 != 0) {
            self.stats.hit("probe.reserve_above_2_62");
        }
        let raw: Vec<Instruction> = calls.iter().map(|x| x.raw()).collect();
        if s.via != 0 {
            self.compare_builders(s, &calls, &raw);
            if self.done() {
                return;
            }
        }
        if s.probe {
            self.compare_all_builders(&calls, &raw);
            if self.done() {
                return;
            }
        }
        let mut ixs = raw.clone();
        if s.tail {
            ixs.push(Instruction { program_id: tail_fail_id(), accounts: vec![], data: vec![] });
            self.stats.hit("fault.trailing_instruction_fails");
        }
        let mut dusted: BTreeSet<Pubkey> = BTreeSet::new();
        if let (Some(l), false) = (s.dust, t.closes.is_empty() || matches!(expect, Expect::MustNot(..))) {
            for (p, u, _) in &t.closes {
                let k = g.mining(*p, *u);
                if dusted.insert(k) {
                    ixs.push(system_instruction::transfer(&g.freezer(), &k, l));
                }
            }
            t.keys.insert(g.freezer());
            self.stats.hit("fault.lamports_to_closed_account");
        }
        let fault = TxFault { abort_at: s.abort, cpi_fail_at: s.cpi };
        let pre = self.bank.clone();
        let out = self.bank.exec(&ixs, fault, s.wire);
        self.stats.txs += 1;
        self.stats.program_calls += calls.len() as u64;
        self.stats.heap = self.stats.heap.max(out.heap);
        if out.wire_used {
            self.stats.hit("probe.real_entrypoint_used");
        }
        if out.aborted {
            self.stats.hit("fault.abort_mid_instruction");
        }
        let cpi_hit = out.cpi_injected;
        if cpi_hit {
            self.stats.hit("fault.cpi_failure");
        }
        if let Some(l) = self.log.as_mut() {
            l.push(format!("   -> {} {:?} expect {:?}", if out.ok { "ok" } else { "refused" }, out.err, expect));
        }
        let faulted = s.tail || out.aborted || cpi_hit;
        if faulted {
            // ends without a trace
            let d = diff_banks(&pre, &self.bank);
            if out.ok || !d.is_empty() {
                self.report(c(21) | t.tags, "an aborted transaction left changes behind".into());
            }
            self.check_after(&t, 0);
            return;
        }
        self.outs.push(out.clone());
        if !s.extra {
            self.shape.push((s.at, out.ok));
        }
        if let ([Op::Close { p, u, .. }], false) = (&s.ops[..], matches!(expect, Expect::MustNot(..))) {
            // what a claim would pay at this moment decides
            let mut b = pre.clone();
            let k = g.ata(*u, *p);
            let had = balance(&b, &k);
            if b.exec(&[self.m.claim_call(&g, *p, *u).raw()], TxFault::default(), false).ok {
                let owed = balance(&b, &k).wrapping_sub(had);
                if out.ok && owed > 0 {
                    self.report(c(16), format!("closed although a claim would have paid {owed}"));
                }
                if !out.ok && owed == 0 {
                    self.report(c(16) | c(17), format!("closing refused although nothing is owed: {}", out.err.clone().unwrap_or_default()));
                }
                self.stats.hit(if owed > 0 { "probe.close_while_owed" } else { "probe.close_not_owed" });
            }
        }
        if !out.ok {
            let d = diff_banks(&pre, &self.bank);
            if !d.is_empty() {
                self.report(c(21), "a refused transaction left changes behind".into());
            }
            if matches!(expect, Expect::Must) {
                let what: Vec<String> = s.ops.iter().map(op_name).collect();
                let tags = c(17) | t.tags;
                self.report(
                    tags,
                    format!("a valid request ({}) is refused: {} (instruction {})", what.join("+"), out.err.clone().unwrap_or_default(), out.failed_ix),
                );
            }
            if let Expect::MustNot(_, w) = expect {
                self.stats.hit(&format!("refused.{w}"));
            }
            return;
        }
        match expect {
            Expect::MustNot(tags, w) => {
                self.report(tags, format!("accepted although it must be refused: {w}"));
                self.dead = true;
                return;
            }
            _ => {
                let same_day = s.ops.len() == 1 && matches!(s.ops[0], Op::Distribute { .. });
                if same_day && matches!(expect, Expect::Either) {
                    self.stats.hit("probe.second_distribution_same_day");
                }
            }
        }
        // accepted: adopt the model's new state, then compare
        let t2 = t.clone();
        let mut claimed: Vec<(u8, u8, MMining, u64)> = vec![];
        for (p, u, m) in &t.claims {
            let paid = balance(&self.bank, &g.ata(*u, *p)).wrapping_sub(balance(&pre, &g.ata(*u, *p)));
            claimed.push((*p, *u, m.clone(), paid));
        }
        self.m = next;
        for (p, u, m, paid) in &claimed {
            self.judge_payout(*p, *u, m, *paid, "the claim", c(11));
            let e = self.payouts.entry((*p, *u)).or_insert((0, 0));
            e.0 += *paid as u128;
            e.1 += m.loss + (1 + m.popped as u128) * crate::model::ONE;
            self.m.claimed(&g, *p, *u, *paid, !t.inits.contains(&(*p, *u)));
            self.stats.hit(if *paid > 0 { "probe.claim_paid" } else { "probe.claim_zero" });
        }
        if let (1, Some((p, u, _, paid))) = (claimed.len(), claimed.last()) {
            let last_is_claim = dusted.is_empty() && matches!(calls.last(), Some(Call::Claim { .. }));
            if last_is_claim && out.ret.as_deref() != Some(&paid.to_le_bytes()[..]) {
                self.report(c(11), format!("the claim of user {u} in pool {p} reports {:?} but moved {paid} tokens", out.ret));
            }
        }
        for (p, u, to) in &t2.closes {
            let was = pre.get(&g.mining(*p, *u)).lamports;
            let got = self.bank.get(&g.target(*to)).lamports as i128 - pre.get(&g.target(*to)).lamports as i128;
            let had = t2.closes.iter().filter(|x| g.target(x.2) == g.target(*to)).count();
            if had == 1 && got != was as i128 && was != 0 && !t2.payers.contains(&g.target(*to)) {
                self.report(c(16), format!("closing returned {got} lamports of {was}"));
            }
            if self.m.minings.contains_key(&(*p, *u)) {
                continue; // opened again in the same transaction
            }
            match self.bank.accts.get(&g.mining(*p, *u)) {
                Some(a) if !dusted.contains(&g.mining(*p, *u)) || a.owner != system_program::id() || !a.data.is_empty() => {
                    self.report(c(16), "a closed account still exists".into());
                }
                _ => {}
            }
            self.stats.hit("probe.closed");
        }
        for (p, u) in &t2.inits {
            if self.m.closed_once.contains(&(*p, *u)) {
                self.stats.hit("probe.reopened_after_close");
            }
        }
        // nothing else moved
        let mut allowed: BTreeSet<Pubkey> = t.keys.clone();
        allowed.insert(Pubkey::default());
        for k in diff_banks(&pre, &self.bank) {
            if !allowed.contains(&k) {
                let n = self.name(&k);
                self.report(c(10) | t.tags, format!("{n} changed although the request does not concern it"));
            }
        }
        for k in &t.payers {
            let spent = pre.get(k).lamports.saturating_sub(self.bank.get(k).lamports);
            let rent = self.bank.rent();
            let mut cap = 0u64;
            for (p, u) in &t.inits {
                let k = g.mining(*p, *u);
                let kept = if t.closes.iter().any(|x| (x.0, x.1) == (*p, *u)) { 0 } else { pre.get(&k).lamports };
                cap += rent.minimum_balance(MINING_LEN).saturating_sub(kept);
            }
            for call in &calls {
                if let Call::InitPool { pool, mint, .. } = call {
                    cap += rent.minimum_balance(165).saturating_sub(pre.get(&crate::wire::vault_addr(pool, mint)).lamports);
                }
            }
            if spent > cap || (self.bank.get(k).owner != system_program::id()) {
                self.report(c(19), format!("the payer was charged {spent} lamports"));
            }
        }
        self.check_after(&t, 1);
        // only a distribution changes what somebody is owed
        if (s.probe || (s.at ^ self.stats.txs) % 4 == 0) && !self.done() && !s.ops.iter().any(|o| matches!(o, Op::Distribute { .. })) {
            let near: Vec<(u8, u8)> = if s.probe { self.m.minings.keys().copied().collect() } else { t.minings.iter().copied().collect() };
            for (p, u) in &near {
                let other = |x: u8, y: u8| (x, y) != (*p, *u);
                if !t.claims.iter().all(|x| other(x.0, x.1)) || !t.closes.iter().all(|x| other(x.0, x.1)) || !t.inits.iter().all(|x| other(x.0, x.1)) {
                    continue;
                }
                let was = self.try_claim(&mut pre.clone(), *p, *u);
                let is = self.try_claim(&mut self.bank.clone(), *p, *u);
                if let (Ok(a), Ok(b)) = (was, is) {
                    if a != b {
                        self.report(t.tags | c(11), format!("user {u} in pool {p} is owed {b} after the request, {a} before it"));
                    }
                    self.stats.hit("probe.owed_before_and_after");
                }
            }
        }
        if s.probe {
            self.check_decoders(&t);
            let ids: Vec<(u8, u8)> = t.minings.iter().copied().collect();
            for (p, u) in ids {
                if self.m.minings.contains_key(&(p, u)) {
                    self.probe(p, u, t.tags);
                }
            }
            if t.tags & (c(6) | c(7)) != 0 {
                // after a distribution everybody's entitlement moved
                let ids: Vec<(u8, u8)> = self.m.minings.keys().copied().filter(|x| t.pools.contains(&x.0)).collect();
                for (p, u) in ids {
                    self.probe(p, u, 0);
                }
            }
        }
        self.note_state(s);
    }

    fn check_after(&mut self, t: &Touch, _n: u8) {
        // which of the touched operations' properties does a wrong value contradict
        let tags = t.tags;
        for p in t.pools.clone() {
            self.check_pool(p, tags, if tags & (c(6) | c(7)) != 0 { c(5) } else { 0 });
        }
        for (p, u) in t.minings.clone() {
            self.check_mining(p, u, tags, 0);
        }
        let bad: Vec<(Pubkey, u64, u64)> = t
            .keys
            .iter()
            .filter_map(|k| {
                let e = *self.m.tok.get(k)?;
                let b = balance(&self.bank, k);
                (b != e).then_some((*k, b, e))
            })
            .collect();
        for (k, b, e) in bad {
            let n = self.name(&k);
            self.report(tags | c(10), format!("{n} holds {b} tokens, must hold {e}"));
        }
    }

    fn note_state(&mut self, s: &Step) {
        let mut h = 17u64;
        let lg = |x: u128| 128 - x.leading_zeros() as u64;
        for (i, q) in self.m.pools.iter().enumerate() {
            if !q.init {
                continue;
            }
            for v in [
                i as u64,
                lg(q.total) / 8,
                q.decays.len().min(6) as u64,
                lg(q.reserve as u128) / 8,
                (q.ends > self.m.now) as u64,
                (q.last_dist == Some(day(self.m.now))) as u64,
            ] {
                h = crate::rng::mix(h ^ v);
            }
        }
        for ((p, u), m) in &self.m.minings {
            let (_, hi) = m.band();
            for v in [
                *p as u64,
                *u as u64,
                (m.own > 0) as u64,
                m.decays.len().min(4) as u64,
                (m.delegated > 0) as u64,
                (hi > 0) as u64,
                m.win as u64,
                m.dists.min(3) as u64,
            ] {
                h = crate::rng::mix(h ^ v);
            }
        }
        for op in &s.ops {
            for b in op_name(op).bytes() {
                h = crate::rng::mix(h ^ b as u64);
            }
        }
        h = crate::rng::mix(h ^ (self.m.now % 86400 == 0) as u64);
        self.stats.states.insert(h);
    }

    // ------------------------------------------------------------------------------ builders

    fn build(via: u8, call: &Call, raw: &Instruction) -> Result<Instruction, String> {
        // the ways of using a client vary with the request itself
        let keys = raw.accounts.iter().flat_map(|m| &m.pubkey.as_ref()[..4]);
        let h = raw.data.iter().chain(keys).fold(raw.accounts.len() as u64, |h, b| crate::rng::mix(h ^ *b as u64)) >> 3;
        let plain = h & 96 == 0;
        let made = || match via {
            1 => call.via_program().ok_or_else(String::new),
            2 | 3 if plain => client::direct(call, h, via == 3).ok_or_else(String::new),
            2 => client::builder(call, h).ok_or_else(String::new),
            3 => client::cpi(call, h).ok_or_else(String::new),
            4 => iface::via_idl(call),
            _ => Ok(call.raw()),
        };
        if via == 5 {
            return iface::via_js(call, raw);
        }
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(made)).unwrap_or_else(|_| Err("it panics".into()))
    }

    fn compare_builders(&mut self, s: &Step, calls: &[Call], raw: &[Instruction]) {
        let via = s.via;
        let who = [
            "",
            "the program crate's builder",
            "the shipped client's builder",
            "the shipped client's cross-program call",
            "the published interface description",
            "the JavaScript client",
        ][(via as usize).min(5)];
        let tag = if via == 5 { c(22) } else { c(20) };
        let mut ixs = vec![];
        for (call, r) in calls.iter().zip(raw) {
            match call {
                Call::Deposit { per, .. } if *per > 4 => return,
                Call::Extend { old, new, .. } if *old > 4 || *new > 4 => return,
                _ => {}
            }
            match Self::build(via, call, r) {
                Ok(i) => ixs.push(i),
                Err(e) => {
                    self.report(tag, format!("{who} does not produce a usable call for {}: {e}", call_name(call)));
                    return;
                }
            }
        }
        self.stats.hit(&format!("probe.built_via_{via}"));
        // no privilege that the request does not need
        let privileged = |f: fn(&AccountMeta) -> bool| -> BTreeSet<Pubkey> {
            raw.iter().flat_map(|i| i.accounts.iter()).filter(|m| f(m)).map(|m| m.pubkey).collect()
        };
        let signers = privileged(|m| m.is_signer);
        let written = privileged(|m| m.is_writable);
        for (i, call) in ixs.iter().zip(calls) {
            for m in &i.accounts {
                let what = if m.is_signer && !signers.contains(&m.pubkey) {
                    "the signature of"
                } else if m.is_writable && !written.contains(&m.pubkey) {
                    "write access to"
                } else {
                    continue;
                };
                let n = self.name(&m.pubkey);
                self.report(tag, format!("{who} for {} demands {what} {n}, which the request does not need", call_name(call)));
                return;
            }
        }
        let mut a = self.bank.clone();
        let mut b = self.bank.clone();
        let oa = a.exec(raw, TxFault::default(), false);
        let ob = b.exec(&ixs, TxFault::default(), false);
        self.stats.txs += 2;
        if oa.ok != ob.ok || oa.ret != ob.ret || (oa.ok && !diff_banks(&a, &b).is_empty()) {
            let names: Vec<&str> = calls.iter().map(call_name).collect();
            self.report(
                tag,
                format!(
                    "{} built by {who} {} ({:?}), the documented encoding {} ({:?})",
                    names.join("+"),
                    if ob.ok { "is accepted with another effect" } else { "is refused" },
                    ob.err,
                    if oa.ok { "is accepted" } else { "is refused" },
                    oa.err
                ),
            );
        }
    }

    /// cheap form: the bytes and accounts agree
    fn compare_all_builders(&mut self, calls: &[Call], raw: &[Instruction]) {
        let range = if self.want & c(20) != 0 {
            1..=4u8
        } else if self.want & c(22) != 0 {
            5..=5u8
        } else {
            return;
        };
        for (call, r) in calls.iter().zip(raw) {
            match call {
                Call::Deposit { per, .. } if *per > 4 => continue,
                Call::Extend { old, new, .. } if *old > 4 || *new > 4 => continue,
                _ => {}
            }
            for via in range.clone() {
                let s = Step { via, ..Default::default() };
                match Self::build(via, call, r) {
                    Ok(i) if i == *r => {}
                    _ => self.compare_builders(&s, std::slice::from_ref(call), std::slice::from_ref(r)),
                }
            }
        }
    }

    // ------------------------------------------------------------------------------ attacks

    /// would the attack be carried out at this time?
    pub fn attackable(&self, at: u64, op: &Op, atk: &Atk) -> bool {
        let mut m = self.m.clone();
        m.advance(at);
        let mut next = m.clone();
        let Some((call, e)) = next.plan(&self.cfg, op, &mut Touch::default()) else { return false };
        matches!(e, Expect::Must) && attack::mutate(&self.cfg, &m, &mut self.bank.clone(), op, &call, atk).is_some()
    }

    fn attack(&mut self, op: &Op, atk: &Atk, s: &Step) {
        let g = self.cfg.clone();
        let mut next = self.m.clone();
        let mut t = Touch::default();
        let Some((call, e)) = next.plan(&g, op, &mut t) else { return };
        if !matches!(e, Expect::Must) {
            return;
        }
        let mut base = self.bank.clone();
        if !base.exec(&[call.raw()], TxFault::default(), false).ok {
            return; // judged elsewhere
        }
        let mut b = self.bank.clone();
        let Some((ix, tags, what)) = attack::mutate(&g, &self.m, &mut b, op, &call, atk) else { return };
        let pre = b.clone();
        let out = b.exec(&[ix], TxFault::default(), s.wire);
        self.stats.txs += 2;
        self.stats.hit(&format!("attack.{}", atk.kind_name()));
        self.stats.hit(&format!("attacked.{}", call_name(&call)));
        if let Some(l) = self.log.as_mut() {
            l.push(format!("   -> attack {what}: {} {:?}", if out.ok { "ACCEPTED" } else { "refused" }, out.err));
        }
        if out.ok {
            self.report(tags | if tags & c(9) != 0 { 0 } else { t.tags & (c(11) | c(12) | c(16) | c(8) | c(19)) }, format!("{} accepted with {what}", call_name(&call)));
        } else if !diff_banks(&pre, &b).is_empty() {
            self.report(c(21), "a refused transaction left changes behind".into());
        }
    }
}


pub fn op_name(op: &Op) -> String {
    match op {
        Op::Bad { kind, .. } => format!("Bad{kind:?}"),
        o => {
            let s = format!("{o:?}");
            s.split([' ', '{']).next().unwrap_or("").to_string()
        }
    }
}

pub fn call_name(c: &Call) -> &'static str {
    match c {
        Call::InitPool { .. } => "initialize_pool",
        Call::Fill { .. } => "fill_vault",
        Call::InitMining { .. } => "initialize_mining",
        Call::Deposit { .. } => "deposit_mining",
        Call::Withdraw { .. } => "withdraw_mining",
        Call::Claim { .. } => "claim",
        Call::Extend { .. } => "extend_stake",
        Call::Distribute { .. } => "distribute_rewards",
        Call::Close { .. } => "close_mining",
        Call::ChangeDelegate { .. } => "change_delegate",
        Call::Slash { .. } => "slash",
        Call::Decrease { .. } => "decrease_rewards",
    }
}

#[allow(dead_code)]
fn unused(_: AccountMeta) {}
