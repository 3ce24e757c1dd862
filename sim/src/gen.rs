//! The seeded scheduler.  One seed decides the configuration, every actor's behaviour, every
//! message delay, loss, duplication and reordering, the clock, and every fault.

use crate::attack::{Atk, Kind, KINDS, SHAPE_KINDS, SIGN_KINDS};
use crate::keys::Cfg;
use crate::model::{day, Bad, Op, Tags, BADS};
use crate::rng::Rng;
use crate::wire::{Per, DAY, PERIODS};
use crate::world::{Env, Step, World};
use std::cmp::Reverse;
use std::collections::BinaryHeap;

/// What a property's runs emphasise.
#[derive(Clone, Debug)]
pub struct Profile {
    pub deposit: u32,
    pub withdraw: u32,
    pub claim: u32,
    pub extend: u32,
    pub chdel: u32,
    pub slash: u32,
    pub decrease: u32,
    pub close: u32,
    pub bad: u32,
    pub bads: Vec<Bad>,
    pub attack: u32,
    /// half of the attacks are of these kinds
    pub kinds: Vec<Kind>,
    pub delegate_pct: u64,
    pub fill_pct: u64,
    pub midnight_pct: u64,
    pub probe_pct: u64,
    pub bank_run_pct: u64,
    pub via_pct: u64,
    pub vias: (u64, u64),
    pub fault_pct: u64,
    pub fork_pct: u64,
    pub env_pct: u64,
    pub twin: bool,
    pub capacity_pct: u64,
    /// share of histories with many boosts running out at the same time
    pub cluster_pct: u64,
    pub reopen: bool,
    pub dup_dist_pct: u64,
    pub multi_pool_pct: u64,
}

impl Profile {
    pub fn for_property(n: u32) -> Profile {
        let mut p = Profile {
            deposit: 12, withdraw: 6, claim: 7, extend: 4, chdel: 4, slash: 3, decrease: 1, close: 2, bad: 2,
            bads: BADS.to_vec(), attack: 0, kinds: KINDS.to_vec(), delegate_pct: 40, fill_pct: 60, midnight_pct: 30, probe_pct: 25,
            bank_run_pct: 5, via_pct: 15, vias: (1, 4), fault_pct: 6, fork_pct: 2, env_pct: 4, twin: false, capacity_pct: 1, cluster_pct: 8,
            reopen: false, dup_dist_pct: 15, multi_pool_pct: 25,
        };
        match n {
            1 => {
                p.decrease = 0;
                p.bank_run_pct = 30;
                p.probe_pct = 10;
                p.midnight_pct = 40;
            }
            2 => {
                p.cluster_pct = 15;
                p.probe_pct = 50;
                p.midnight_pct = 45;
            }
            3 => {
                p.twin = true;
                p.close = 0;
                p.fork_pct = 0;
                p.fault_pct = 0;
                p.midnight_pct = 40;
                p.claim = 12;
            }
            4 => {
                p.deposit = 16;
                p.withdraw = 10;
                p.extend = 7;
            }
            5 => {
                p.cluster_pct = 35;
                p.deposit = 14;
                p.midnight_pct = 60;
                p.extend = 5;
                p.slash = 4;
            }
            6 => {
                p.dup_dist_pct = 60;
                p.midnight_pct = 60;
                p.probe_pct = 35;
            }
            7 => {
                p.fill_pct = 90;
                p.dup_dist_pct = 25;
                p.decrease = 0;
            }
            8 => {
                p.fill_pct = 100;
                p.bad = 10;
                p.bads = vec![Bad::FillZero, Bad::FillPast, Bad::FillShorter, Bad::FillPoor];
                p.attack = 6;
                p.env_pct = 8;
            }
            9 | 10 => {
                p.attack = 40;
                p.multi_pool_pct = 70;
                p.bad = 0;
                p.delegate_pct = 50;
                p.probe_pct = 10;
                if n == 9 {
                    p.kinds = SIGN_KINDS.to_vec();
                }
            }
            11 => {
                p.claim = 16;
                p.attack = 4;
                p.env_pct = 8;
                p.dup_dist_pct = 30;
                p.probe_pct = 40;
            }
            12 => {
                p.delegate_pct = 85;
                p.chdel = 12;
                p.bad = 4;
                p.bads = vec![Bad::WithdrawOverDelegate, Bad::ExtendOverDelegate, Bad::SameDelegate, Bad::OverUndelegate];
                p.attack = 6;
                p.probe_pct = 40;
                p.close = 3;
            }
            13 => {
                p.cluster_pct = 12;
                p.slash = 14;
                p.bad = 6;
                p.bads = vec![Bad::OverSlash, Bad::SlashNoDate, Bad::SlashInverted, Bad::SlashOverDiff];
                p.delegate_pct = 20;
            }
            14 => {
                p.cluster_pct = 15;
                p.decrease = 8;
                p.bad = 3;
                p.bads = vec![Bad::DecreaseBig];
                p.probe_pct = 50;
                p.delegate_pct = 25;
            }
            15 => {
                p.cluster_pct = 12;
                p.extend = 14;
                p.bad = 4;
                p.bads = vec![Bad::ExtendBogus, Bad::ExtendOver, Bad::ExtendNone, Bad::ExtendOverDelegate];
                p.probe_pct = 40;
            }
            16 => {
                p.close = 14;
                p.withdraw = 10;
                p.reopen = true;
                p.attack = 5;
                p.decrease = 0;
            }
            17 => {
                p.fault_pct = 12;
                p.env_pct = 8;
                p.fork_pct = 4;
            }
            18 => {
                p.capacity_pct = 100;
                p.bad = 2;
                p.bads = vec![Bad::DepositHuge];
                p.decrease = 0;
                p.fault_pct = 2;
                p.probe_pct = 4;
                p.bank_run_pct = 1;
                p.via_pct = 0;
            }
            19 => {
                p.reopen = true;
                p.close = 6;
                p.withdraw = 8;
                p.env_pct = 20;
                p.bad = 4;
                p.bads = vec![Bad::InitPoolTwice, Bad::InitMiningTwice];
                p.attack = 5;
                p.probe_pct = 40;
            }
            20 => {
                p.via_pct = 100;
                p.probe_pct = 60;
                p.bad = 1;
                p.decrease = 2;
            }
            22 => {
                p.via_pct = 100;
                p.vias = (5, 5);
                p.probe_pct = 30;
                p.bad = 1;
                p.decrease = 2;
            }
            21 => {
                p.fault_pct = 35;
                p.attack = 15;
                p.kinds = SHAPE_KINDS.to_vec();
                p.fork_pct = 8;
                p.env_pct = 8;
            }
            _ => {}
        }
        p
    }
}

enum Ev {
    Bot(u8),
    Filler(u8),
    User(u8),
    Admin,
    Chaos,
    Deliver(Step),
}

pub struct Gen {
    rng: Rng,
    prof: Profile,
    pub steps: Vec<Step>,
    pub w: World,
    heap: BinaryHeap<Reverse<(u64, u64)>>,
    evs: std::collections::BTreeMap<u64, Ev>,
    seq: u64,
    now: u64,
    next_eid: u32,
    // swarm configuration of this run
    amount_bits: u32,
    fill_bits: u32,
    gap: u64,
    drop_pct: u64,
    dup_pct: u64,
    delay: u64,
    outage: Option<(u64, u64)>,
    bot_missed_pct: u64,
    mask: [bool; 10],
    same_second_pct: u64,
    pers: Vec<Per>,
    snapped: bool,
    max_steps: usize,
    want: Tags,
}

pub fn run_seed(seed: u64, prop: u32, want: Tags, thorough: bool) -> (Cfg, Gen) {
    let mut rng = Rng::new(seed);
    let prof = Profile::for_property(prop);
    let cfg = Cfg {
        salt: rng.below(8) as u8,
        npools: if rng.chance(prof.multi_pool_pct, 100) { 2 } else { 1 },
        nusers: rng.range(1, 5) as u8,
        // one history in eight runs across the ends of the 32 bit clocks (2038 and 2106)
        start: match rng.below(16) {
            0 => (1u64 << 31) / DAY - rng.below(400),
            1 => (1u64 << 32) / DAY - rng.below(400),
            // and one in sixteen starts in the days up to a 29th of February
            2 => {
                let r = rng.below(400);
                789 + 1461 * (10 + r % 20) - r / 20 % 4
            }
            _ => 19_000 + rng.below(400),
        } * DAY
            + if rng.chance(1, 3) { 0 } else { rng.below(DAY) },
        shared_dep: rng.chance(1, 3),
        shared_dist: rng.chance(1, 4),
        shared_mint: rng.chance(1, 3),
        fill_is_dep: rng.chance(1, 4),
        dist_is_dep: rng.chance(1, 6),
        overlap: if rng.chance(1, 3) { rng.below(64) as u8 } else { 0 },
        rent: if rng.chance(1, 3) { rng.below(5) as u8 } else { 0 },
        kinds: if rng.chance(1, 3) { rng.below(256) as u8 } else { 0 },
    };
    let mut cfg = cfg;
    if prop == 18 && rng.chance(1, 4) {
        // enough accounts to give the pool more dates than it has records for
        cfg.nusers = 8 + rng.below(3) as u8;
    }
    let w = World::new(&cfg, want);
    let amount_bits = *rng.pick(&[7u32, 20, 30, 40, 48, 53, 58, 62]);
    let fill_bits = *rng.pick(&[4u32, 12, 25, 35, 45, 52, 60, 63]);
    let gap = *rng.pick(&[600u64, 6 * 3600, DAY, DAY, 3 * DAY, 12 * DAY, 45 * DAY]);
    let mut mask = [true; 10];
    if rng.chance(1, 2) {
        for m in mask.iter_mut().skip(2) {
            *m = !rng.chance(1, 3);
        }
    }
    let pers = match rng.below(5) {
        0 => vec![Per::Flex, Per::M3],
        1 => vec![Per::M3],
        _ => PERIODS.to_vec(),
    };
    let mut max_steps = if thorough { rng.range(20, 320) } else { rng.range(16, 150) } as usize;
    if prof.attack >= 40 {
        max_steps = max_steps * 3 / 2;
    }
    let net = rng.below(4);
    let g = Gen {
        drop_pct: if net >= 2 { rng.below(20) } else { 0 },
        dup_pct: if net >= 1 { rng.below(20) } else { 0 },
        delay: [0, 5, 7200, 2 * DAY][net as usize],
        outage: None,
        bot_missed_pct: rng.below(40),
        same_second_pct: rng.below(40),
        rng,
        prof,
        steps: vec![],
        w,
        heap: BinaryHeap::new(),
        evs: Default::default(),
        seq: 0,
        now: cfg.start,
        next_eid: 1,
        amount_bits,
        fill_bits,
        gap,
        mask,
        pers,
        snapped: false,
        max_steps,
        want,
    };
    (cfg, g)
}

impl Gen {
    fn at(&mut self, t: u64, e: Ev) {
        self.seq += 1;
        self.evs.insert(self.seq, e);
        self.heap.push(Reverse((t, self.seq)));
    }

    fn amount(&mut self) -> u64 {
        self.rng.mag(self.amount_bits)
    }

    fn exec(&mut self, mut s: Step) {
        s.at = self.now.max(self.w.m.now);
        if self.prof.attack > 0 && s.attack.is_none() && s.env.is_none() && s.ops.len() == 1 && self.rng.chance(self.prof.attack as u64 / 2, 100) {
            // attacks on a request that is about to be made, in the state it is made in
            for _ in 0..self.rng.range(1, 3) {
                let Some(a) = self.atk_for(s.at, &s.ops[0]) else { break };
                let x = Step { at: s.at, ops: s.ops.clone(), attack: Some(a), wire: self.rng.chance(1, 4), ..Default::default() };
                crate::watch::step(&x);
                self.w.step(&x);
                self.steps.push(x);
                if self.w.done() {
                    return;
                }
            }
        }
        crate::watch::step(&s);
        self.w.step(&s);
        self.steps.push(s);
    }

    /// A point in time after `t`, about `gap` away, with a bias to day boundaries.
    fn later(&mut self, gap: u64) -> u64 {
        if self.rng.chance(self.same_second_pct, 100) {
            return self.now;
        }
        let d = 1 + self.rng.below(2 * gap.max(1));
        let t = self.now + d;
        if self.rng.chance(self.prof.midnight_pct, 100) {
            let m = day(t) + if self.rng.chance(1, 2) { DAY } else { 0 };
            return match self.rng.below(6) {
                0 => (m - 1).max(self.now),
                1 => m + 1,
                2 => {
                    // an expiry day of some stake, if one is near
                    let e: Vec<u64> = self.w.m.pools.iter().flat_map(|q| q.decays.keys().copied()).filter(|d| *d >= self.now).collect();
                    if e.is_empty() {
                        m
                    } else {
                        *self.rng.pick(&e)
                    }
                }
                _ => m,
            }
            .max(self.now);
        }
        t
    }

    fn decorate(&mut self, s: &mut Step) {
        s.probe = self.rng.chance(self.prof.probe_pct, 100);
        s.wire = self.rng.chance(1, 3);
        if self.rng.chance(self.prof.via_pct, 100) {
            s.via = self.rng.range(self.prof.vias.0, self.prof.vias.1) as u8;
        }
        if self.rng.chance(self.prof.fault_pct, 100) {
            match self.rng.below(3) {
                0 => s.abort = Some(self.rng.range(1, 9) as u32),
                1 => s.cpi = Some(self.rng.range(1, 3) as u32),
                _ => s.tail = true,
            }
        }
    }

    /// Hands a transaction to the simulated network.
    fn submit(&mut self, ops: Vec<Op>) {
        if ops.is_empty() {
            return;
        }
        let closes = ops.iter().any(|o| matches!(o, Op::Close { .. }));
        let mut s = Step { ops, ..Default::default() };
        self.decorate(&mut s);
        if closes && self.rng.chance(self.prof.env_pct, 20) {
            let rent = self.w.bank.rent();
            s.dust = Some(*self.rng.pick(&[rent.minimum_balance(0), rent.minimum_balance(crate::wire::MINING_LEN) + 160, 100_000_000]));
        }
        if let Some((a, b)) = self.outage {
            if self.now >= a && self.now < b {
                self.w.stats.hit("fault.client_outage_drop");
                return;
            }
        }
        if self.rng.chance(self.drop_pct, 100) {
            self.w.stats.hit("fault.message_dropped");
            return;
        }
        let retry = s.abort.is_some() || s.cpi.is_some() || s.tail;
        if retry && self.rng.chance(4, 5) {
            let mut r = s.clone();
            r.abort = None;
            r.cpi = None;
            r.tail = false;
            let d = self.rng.below(2) * self.rng.below(self.delay + 2);
            self.at(self.now + d, Ev::Deliver(r));
            self.w.stats.hit("fault.retry_after_abort");
        }
        if self.rng.chance(self.dup_pct, 100) {
            let d = self.rng.below(self.delay + 2);
            let mut r = s.clone();
            r.abort = None;
            r.cpi = None;
            r.tail = false;
            self.at(self.now + d, Ev::Deliver(r));
            self.w.stats.hit("fault.message_duplicated");
        }
        if self.delay > 0 && self.rng.chance(1, 3) {
            let d = self.rng.below(self.delay);
            self.at(self.now + d, Ev::Deliver(s));
            self.w.stats.hit("fault.message_delayed");
        } else {
            self.exec(s);
        }
    }

    fn user_entries(&self, u: u8) -> Vec<u32> {
        self.w.m.entries.iter().filter(|(_, e)| e.u == u).map(|(k, _)| *k).collect()
    }

    fn pool(&mut self) -> u8 {
        let n = self.w.cfg.npools;
        self.rng.below(n as u64) as u8
    }

    fn user_op(&mut self, u: u8) -> Option<Op> {
        let p = self.pool();
        if !self.w.m.pools[p as usize].init {
            return None;
        }
        if !self.w.m.minings.contains_key(&(p, u)) {
            if self.w.m.closed_once.contains(&(p, u)) && !self.prof.reopen && self.rng.chance(1, 2) {
                return None;
            }
            return Some(Op::InitMining { p, u, by_user: self.rng.chance(1, 2) });
        }
        let ents = self.user_entries(u);
        let f = |i: usize, w: u32| if self.mask[i] { w } else { 0 };
        let ws = [
            self.prof.deposit,
            f(1, self.prof.withdraw),
            f(2, self.prof.claim),
            f(3, self.prof.extend),
            f(4, self.prof.chdel),
            f(5, self.prof.close),
        ];
        let nu = self.w.cfg.nusers as u64;
        match self.rng.weighted(&ws) {
            0 => {
                let del = if self.rng.chance(self.prof.delegate_pct, 100) { Some(self.rng.below(nu) as u8) } else { None };
                let del = del.filter(|d| self.w.m.minings.contains_key(&(p, *d)));
                let eid = self.next_eid;
                self.next_eid += 1;
                let per = *self.rng.pick(&self.pers.clone());
                Some(Op::Deposit { p, u, eid, amount: self.amount(), per, del })
            }
            1 => {
                let now = self.w.m.now;
                let e: Vec<u32> = ents.into_iter().filter(|k| !self.w.m.entries[k].boosted(now)).collect();
                if e.is_empty() {
                    return None;
                }
                let eid = *self.rng.pick(&e);
                let a = self.w.m.entries[&eid].amount;
                let amount = if self.rng.chance(1, 30) {
                    0
                } else if self.rng.chance(1, 2) {
                    a
                } else {
                    1 + self.rng.below(a)
                };
                Some(Op::Withdraw { eid, amount })
            }
            2 => Some(Op::Claim { p, u }),
            3 => {
                if ents.is_empty() {
                    return None;
                }
                let eid = *self.rng.pick(&ents);
                let cur = self.w.m.entries[&eid].per;
                let ok: Vec<Per> = PERIODS.iter().copied().filter(|x| *x >= cur).collect();
                let per = *self.rng.pick(&ok);
                let add = if self.rng.chance(1, 2) { 0 } else { self.amount() };
                Some(Op::Extend { eid, per, add })
            }
            4 => {
                if ents.is_empty() {
                    return None;
                }
                let eid = *self.rng.pick(&ents);
                let to = if self.rng.chance(1, 4) { None } else { Some(self.rng.below(nu) as u8) };
                Some(Op::ChDel { eid, to })
            }
            _ => {
                if self.rng.chance(1, 2) {
                    Some(Op::Close { p, u, to: self.rng.below(3) as u8 })
                } else {
                    None
                }
            }
        }
    }

    /// everything a leaving user does, as one transaction or several
    fn leave(&mut self, u: u8) -> Vec<Op> {
        let now = self.w.m.now;
        let p = self.pool();
        let mut v: Vec<Op> = vec![];
        for (k, e) in &self.w.m.entries {
            if e.u == u && e.p == p && !e.boosted(now) {
                v.push(Op::Withdraw { eid: *k, amount: e.amount });
            }
        }
        v.truncate(3);
        v.push(Op::Claim { p, u });
        if self.mask[5] && self.prof.close > 0 {
            v.push(Op::Close { p, u, to: self.rng.below(3) as u8 });
            if self.prof.reopen && self.rng.chance(1, 4) {
                v.push(Op::InitMining { p, u, by_user: self.rng.chance(1, 2) });
            }
        }
        v
    }

    fn user(&mut self, u: u8) {
        if self.rng.chance(self.prof.attack as u64, 100 + self.prof.attack as u64) {
            self.attack();
        }
        if self.prof.twin && self.rng.chance(1, 2) {
            // a settlement that only one of the twins performs
            let p = self.pool();
            let v = self.rng.below(self.w.cfg.nusers as u64) as u8;
            let s = Step { ops: vec![Op::Claim { p, u: v }], extra: true, ..Default::default() };
            self.exec(s);
        }
        if self.rng.chance(self.prof.bad as u64, 30) {
            let kind = *self.rng.pick(&self.prof.bads.clone());
            let op = Op::Bad {
                kind,
                p: self.pool(),
                u,
                v: self.rng.below(self.w.cfg.nusers as u64) as u8,
                x: self.rng.next() >> self.rng.below(60),
            };
            self.submit(vec![op]);
        }
        if self.rng.chance(self.prof.close as u64, 40) {
            let ops = self.leave(u);
            if self.rng.chance(1, 3) {
                self.submit(ops);
            } else {
                for o in ops {
                    self.submit(vec![o]);
                }
            }
            return;
        }
        let n = if self.rng.chance(1, 6) { self.rng.range(2, 3) } else { 1 };
        let mut ops = vec![];
        for _ in 0..n {
            if let Some(o) = self.user_op(u) {
                ops.push(o);
            }
        }
        self.submit(ops);
    }

    fn any_honest_op(&mut self) -> Option<Op> {
        let nu = self.w.cfg.nusers as u64;
        let p = self.pool();
        Some(match self.rng.below(14) {
            0 => Op::Distribute { p },
            1 => {
                let e = self.w.m.pools[p as usize].ends.max(day(self.w.m.now)).saturating_add(DAY * self.rng.below(9));
                Op::Fill { p, amount: 1 + self.rng.mag(self.fill_bits), ends: e }
            }
            2 => {
                let ents: Vec<u32> = self.w.m.entries.keys().copied().collect();
                if ents.is_empty() {
                    return None;
                }
                let eid = *self.rng.pick(&ents);
                Op::Slash { eid, native: 1 + self.rng.below(self.w.m.entries[&eid].amount), off: self.rng.below(DAY) as u32 }
            }
            3 => {
                let u = self.rng.below(nu) as u8;
                let own = self.w.m.minings.get(&(p, u))?.own;
                Op::Decrease { p, u, amount: 1 + self.rng.below(own.min(u64::MAX as u128) as u64) }
            }
            4 => {
                let u = self.rng.below(nu + 1) as u8;
                Op::Close { p, u, to: 0 }
            }
            5 => Op::InitMining { p, u: self.rng.below(nu + 1) as u8, by_user: false },
            6 => Op::Claim { p, u: self.rng.below(nu + 1) as u8 },
            7 => {
                let ents: Vec<u32> = self.w.m.entries.keys().copied().collect();
                if ents.is_empty() {
                    return None;
                }
                Op::ChDel { eid: *self.rng.pick(&ents), to: if self.rng.chance(1, 3) { None } else { Some(self.rng.below(nu) as u8) } }
            }
            _ => {
                let u = self.rng.below(nu) as u8;
                return self.user_op(u);
            }
        })
    }

    fn atk(&mut self) -> Atk {
        let kind = if self.rng.chance(1, 2) { *self.rng.pick(&self.prof.kinds) } else { *self.rng.pick(&KINDS) };
        Atk { kind, slot: self.rng.below(8) as u8, v: self.rng.below(256) as u8, w: self.rng.below(256) as u8 }
    }

    /// an attack that makes sense for the request
    fn atk_for(&mut self, at: u64, op: &Op) -> Option<Atk> {
        for _ in 0..6 {
            let a = self.atk();
            if self.w.attackable(at, op, &a) {
                return Some(a);
            }
        }
        None
    }

    fn attack(&mut self) {
        let Some(op) = self.any_honest_op() else { return };
        let n = self.rng.range(1, 4);
        for _ in 0..n {
            let at = self.now.max(self.w.m.now);
            let Some(a) = self.atk_for(at, &op) else { return };
            let s = Step { ops: vec![op.clone()], attack: Some(a), wire: self.rng.chance(1, 4), ..Default::default() };
            self.exec(s);
            if self.w.done() {
                return;
            }
        }
    }

    fn setup(&mut self) {
        let g = self.w.cfg.clone();
        for p in 0..=g.npools {
            if self.rng.chance(self.prof.env_pct, 60) {
                // around the lamports the account needs (less than an empty account costs cannot arrive)
                let rent = self.w.bank.rent();
                let need = rent.minimum_balance(165);
                let lamports = *self.rng.pick(&[rent.minimum_balance(0), need - 1, need, need + 1, 50_000_000]);
                self.exec(Step { env: Some(Env::PrefundVault { p, lamports }), ..Default::default() });
            }
            if self.prof.attack > 0 && self.rng.chance(1, 4) {
                for _ in 0..3 {
                    let a = self.atk();
                    self.exec(Step { ops: vec![Op::InitPool { p }], attack: Some(a), ..Default::default() });
                }
            }
            let mut s = Step { ops: vec![Op::InitPool { p }], ..Default::default() };
            self.decorate(&mut s);
            let faulty = s.abort.is_some() || s.cpi.is_some() || s.tail;
            self.exec(s.clone());
            if faulty {
                self.exec(Step { ops: vec![Op::InitPool { p }], via: s.via, ..Default::default() });
            }
        }
        for p in 0..=g.npools {
            for u in 0..=g.nusers {
                let attacker = u == g.nusers;
                if p == g.npools && !attacker {
                    continue;
                }
                if self.rng.chance(self.prof.env_pct, 60) {
                    let rent = self.w.bank.rent();
                    let need = rent.minimum_balance(crate::wire::MINING_LEN);
                    let lamports = *self.rng.pick(&[rent.minimum_balance(0), need - 1, need, need + 1, 50_000_000]);
                    self.exec(Step { env: Some(Env::PrefundMining { p, u, lamports }), ..Default::default() });
                }
                if self.rng.chance(3, 4) {
                    let mut s = Step { ops: vec![Op::InitMining { p, u, by_user: self.rng.chance(1, 2) }], ..Default::default() };
                    self.decorate(&mut s);
                    self.exec(s);
                }
            }
        }
    }

    fn fill_op(&mut self, p: u8) -> Op {
        let q = &self.w.m.pools[p as usize];
        let base = q.ends.max(day(self.w.m.now));
        let off = match self.rng.below(8) {
            0 => 0,
            1 => DAY,
            2..=4 => DAY * self.rng.range(1, 14),
            5 => DAY * self.rng.range(1, 90),
            6 => self.rng.below(30 * DAY),
            _ => DAY * self.rng.range(1, 400),
        };
        let amount = 1 + if self.rng.chance(1, 24) { self.rng.below(2) } else { self.rng.mag(self.fill_bits) };
        // now and then a period that nobody will see the end of
        let off = if self.rng.chance(1, 96) {
            let bits = self.rng.range(29, 65) as u32;
            off.saturating_add(u64::MAX >> (64 - bits.min(64)))
        } else {
            off
        };
        Op::Fill { p, amount, ends: base.saturating_add(off) }
    }

    fn chaos(&mut self) {
        let g = self.w.cfg.clone();
        let p = self.pool();
        let u = self.rng.below(g.nusers as u64 + 1) as u8;
        let e = match self.rng.below(10) {
            0 | 1 => {
                if self.prof.fork_pct > 0 {
                    self.snapped = !self.snapped;
                    if self.snapped {
                        Env::Snap
                    } else {
                        Env::Rollback
                    }
                } else {
                    return;
                }
            }
            2 => Env::Donate { p, amount: 1 + self.rng.mag(20) },
            3 => Env::FreezeVault { p },
            4 => Env::FreezeUser { p, u: u.min(g.nusers.saturating_sub(1)) },
            5 | 6 => Env::Thaw,
            7 => Env::PrefundMining { p, u, lamports: self.w.bank.rent().minimum_balance(0) + self.rng.below(20_000_000) },
            8 => {
                // clients cut off from the cluster for a while
                let len = self.rng.below(3 * self.gap.max(DAY));
                self.outage = Some((self.now, self.now + len));
                return;
            }
            _ => {
                // the cluster stalls: nothing lands for a long time
                let jump = match self.rng.below(4) {
                    0 => DAY,
                    1 => 6 * DAY,
                    2 => 91 * DAY,
                    _ => self.rng.below(400 * DAY),
                };
                self.now += jump;
                self.w.stats.hit("fault.cluster_stall");
                return;
            }
        };
        self.exec(Step { env: Some(e), ..Default::default() });
    }

    pub fn generate(&mut self) {
        self.setup();
        if self.rng.chance(self.prof.capacity_pct, 100) {
            self.capacity();
        } else if self.rng.chance(self.prof.cluster_pct, 100) {
            self.cluster();
        } else {
            self.traffic();
        }
        if !self.w.done() {
            self.drain();
        }
    }

    fn traffic(&mut self) {
        let g = self.w.cfg.clone();
        for p in 0..g.npools {
            if self.rng.chance(self.prof.fill_pct.max(50), 100) {
                let op = self.fill_op(p);
                self.submit(vec![op]);
            }
            let t = self.now;
            self.at(t, Ev::Bot(p));
            let t = self.later(4 * DAY);
            self.at(t, Ev::Filler(p));
        }
        for u in 0..g.nusers {
            let t = self.later(self.gap);
            self.at(t, Ev::User(u));
        }
        if self.prof.slash + self.prof.decrease > 0 {
            let t = self.later(2 * self.gap);
            self.at(t, Ev::Admin);
        }
        if self.prof.env_pct + self.prof.fork_pct > 0 {
            let t = self.later(3 * self.gap);
            self.at(t, Ev::Chaos);
        }
        let mut idle = 0;
        while self.steps.len() < self.max_steps && !self.w.done() {
            let Some(Reverse((t, id))) = self.heap.pop() else { break };
            let ev = self.evs.remove(&id).unwrap();
            self.now = self.now.max(t);
            let before = self.steps.len();
            match ev {
                Ev::Deliver(s) => self.exec(s),
                Ev::Bot(p) => {
                    self.bot(p);
                    let t = self.bot_next();
                    self.at(t, Ev::Bot(p));
                }
                Ev::Filler(p) => {
                    if self.rng.chance(self.prof.fill_pct, 100) {
                        let op = self.fill_op(p);
                        self.submit(vec![op]);
                    }
                    let t = self.later(6 * self.gap.max(DAY / 2));
                    self.at(t, Ev::Filler(p));
                }
                Ev::User(u) => {
                    self.user(u);
                    let t = self.later(self.gap);
                    self.at(t, Ev::User(u));
                }
                Ev::Admin => {
                    self.admin();
                    let f = 12 / (1 + self.prof.slash.max(self.prof.decrease)) as u64;
                    let t = self.later(self.gap * f.max(1));
                    self.at(t, Ev::Admin);
                }
                Ev::Chaos => {
                    if self.rng.chance((self.prof.env_pct + self.prof.fork_pct) * 4, 100) {
                        self.chaos();
                    }
                    let t = self.later(2 * self.gap);
                    self.at(t, Ev::Chaos);
                }
            }
            if self.rng.chance(self.prof.bank_run_pct, 100) {
                self.exec(Step { env: Some(Env::BankRun), ..Default::default() });
            }
            idle = if self.steps.len() == before { idle + 1 } else { 0 };
            if idle > 500 {
                break;
            }
        }
    }

    fn pump(&mut self) {
        while let Some(Reverse((t, id))) = self.heap.peek().copied() {
            if t > self.now || self.w.done() {
                break;
            }
            self.heap.pop();
            if let Some(Ev::Deliver(s)) = self.evs.remove(&id) {
                self.exec(s);
            }
        }
    }

    /// Stakes made on several days and of several lengths, so that many boosts run out within a few
    /// days, while accounts and pools are settled on some of these days only.
    fn cluster(&mut self) {
        let g = self.w.cfg.clone();
        let p = self.rng.below(g.npools as u64) as u8;
        // at times most of the records a participant has room for
        let long = self.rng.chance(if self.prof.decrease >= 4 { 2 } else { 1 }, 8);
        let span = if long { self.rng.range(11, 48) } else { self.rng.range(2, 10) };
        let start = day(self.now) + DAY;
        let horizon = *self.rng.pick(&[90u64, 180, 365]);
        let ends = start + DAY * (horizon + self.rng.below(30));
        let amount = 1 + self.rng.mag(self.fill_bits);
        self.exec(Step { ops: vec![Op::Fill { p, amount, ends }], ..Default::default() });
        // what has to be staked on which day so that it runs out in [start + horizon, + span)
        let mut plan: Vec<(u64, u8, Per)> = vec![];
        for u in 0..g.nusers {
            let dense = if long { self.rng.range(1, 10) } else { 5 };
            for d in 0..span {
                if self.rng.chance(dense, 10) {
                    let per = *self.rng.pick(&[Per::M3, Per::M6, Per::Y1]);
                    if per.days() <= horizon {
                        let second = if self.rng.chance(1, 3) { 0 } else { self.rng.below(DAY) };
                        plan.push((start + DAY * (horizon + d - per.days()) + second, u, per));
                    }
                }
            }
        }
        plan.sort_by_key(|x| x.0);
        for (t, u, per) in plan {
            self.now = self.now.max(t);
            self.pump();
            let eid = self.next_eid;
            self.next_eid += 1;
            let del = if self.rng.chance(self.prof.delegate_pct, 200) { Some(self.rng.below(g.nusers as u64) as u8) } else { None };
            let amount = self.amount();
            self.exec(Step { ops: vec![Op::Deposit { p, u, eid, amount, per, del }], ..Default::default() });
            if self.w.done() {
                return;
            }
            if self.rng.chance(1, 6) {
                self.bot(p);
            }
            if self.rng.chance(1, 20) {
                self.admin();
            }
        }
        if self.rng.chance(if long { 3 } else { 1 }, 6) {
            for _ in 0..self.rng.range(1, 3) {
                self.admin();
            }
        }
        let first = start + DAY * horizon;
        if self.rng.chance(1, 2) {
            // nothing at all happens before
            self.now = self.now.max(first);
        }
        let lazy = self.rng.below(3);
        let (bot, act) = ([90, 50, 15][lazy as usize], [40, 12, 4][self.rng.below(3) as usize]);
        for d in 0..span + 3 {
            self.now = self.now.max(first + DAY * d + if self.rng.chance(1, 3) { 0 } else { self.rng.below(DAY / 2) });
            self.pump();
            if self.rng.chance(bot, 100) {
                self.bot(p);
            }
            for u in 0..g.nusers {
                if self.rng.chance(act, 100) {
                    self.now += self.rng.below(600);
                    self.user(u);
                }
            }
            if self.rng.chance(act, 200) {
                self.admin();
            }
            if self.rng.chance(1, 5) {
                self.bot(p);
            }
            if self.w.done() {
                return;
            }
        }
    }

    fn bot(&mut self, p: u8) {
        if self.rng.chance(self.bot_missed_pct, 100) {
            self.w.stats.hit("fault.distributor_missed");
            return;
        }
        self.submit(vec![Op::Distribute { p }]);
        if self.rng.chance(self.prof.dup_dist_pct, 100) {
            let n = self.rng.range(1, 2);
            for _ in 0..n {
                self.submit(vec![Op::Distribute { p }]);
            }
        }
    }

    fn bot_next(&mut self) -> u64 {
        let d = day(self.now);
        match self.rng.below(6) {
            0 => d + DAY,
            1 => d + DAY + self.rng.below(DAY),
            2 => self.now + self.rng.below(DAY),
            3 => d + DAY * self.rng.range(1, 1 + self.gap / DAY) + self.rng.below(3),
            _ => self.now + DAY * (1 + self.rng.below(1 + self.gap / DAY)),
        }
    }

    fn admin(&mut self) {
        let ws = [self.prof.slash, self.prof.decrease];
        if ws[0] + ws[1] == 0 {
            return;
        }
        if self.rng.weighted(&ws) == 0 {
            let e: Vec<u32> = self.w.m.entries.iter().filter(|(_, e)| e.del.is_none()).map(|(k, _)| *k).collect();
            if e.is_empty() {
                return;
            }
            let eid = *self.rng.pick(&e);
            let a = self.w.m.entries[&eid].amount;
            let native = if self.rng.chance(1, 30) {
                0
            } else if self.rng.chance(1, 3) {
                a
            } else {
                1 + self.rng.below(a)
            };
            let off = if self.rng.chance(1, 2) { 0 } else { self.rng.below(DAY) as u32 };
            self.submit(vec![Op::Slash { eid, native, off }]);
        } else {
            let ids: Vec<(u8, u8)> = self.w.m.minings.iter().filter(|(_, m)| m.own > 0).map(|(k, _)| *k).collect();
            if ids.is_empty() {
                return;
            }
            let (p, u) = *self.rng.pick(&ids);
            let own = self.w.m.minings[&(p, u)].own.min(u64::MAX as u128) as u64;
            let amount = match self.rng.below(4) {
                0 => own,
                1 => 1 + self.rng.below(own),
                _ => 1 + self.rng.below(own) / 4,
            }
            .max(1)
            .min(own);
            let amount = if self.rng.chance(1, 30) { 0 } else { amount };
            self.submit(vec![Op::Decrease { p, u, amount }]);
        }
    }

    /// Long histories that push the fixed-size records to their limits.
    fn capacity(&mut self) {
        let g = self.w.cfg.clone();
        let p = 0u8;
        for u in 0..g.nusers {
            if !self.w.m.minings.contains_key(&(p, u)) {
                self.exec(Step { ops: vec![Op::InitMining { p, u, by_user: false }], ..Default::default() });
            }
        }
        let kind = self.rng.below(10);
        let (days, dist_pct, users, settle_pct) = match kind {
            // one account, more pending dates than it can hold
            0..=3 => (self.rng.range(40, 75), self.rng.below(100), 1, self.rng.below(30)),
            // the whole pool, a year of deposits, with little else happening
            4 | 5 => (self.rng.range(360, 400), [0, 0, 3, 60][self.rng.below(4) as usize], g.nusers as u64, 0),
            // mixed
            6 => (self.rng.range(80, 200), 80, g.nusers as u64, 5),
            // more days than there are records, all of them expiring in time
            8 => (self.rng.range(366, 480), [0, 5, 90][self.rng.below(3) as usize], g.nusers as u64, 3),
            9 => (self.rng.range(52, 130), self.rng.below(100), 1, [0, 0, 20][self.rng.below(3) as usize]),
            // years of daily distributions; where they go on beyond the number of records, so do we
            _ => (self.rng.range(1090, 1110) + self.rng.below(2) * 220, 100, [1, g.nusers as u64][self.rng.below(2) as usize], 1),
        };
        // stakes without lockup only, a record for every day of which weighs nothing
        let flex_only = matches!(kind, 8 | 9) && self.rng.chance(1, 3);
        // settled now and then; the others never before the end
        let mut settled = if kind == 7 { 1 + self.rng.below(g.nusers as u64) } else { g.nusers as u64 };
        let mut users = users;
        let mut delegates = g.nusers as u64;
        if kind == 7 && g.nusers > 1 && self.rng.chance(1, 2) {
            // one of them stakes on the first day and is not heard of again
            let u = g.nusers - 1;
            settled = settled.min(u as u64);
            users = users.min(u as u64);
            let eid = self.next_eid;
            self.next_eid += 1;
            let per = *self.rng.pick(&[Per::M3, Per::M3, Per::M6, Per::Y1]);
            // enough of the pool for its share of any day to be noticed
            let amount = self.amount().max(1000) | (1 << self.rng.range(10, 50));
            delegates = u as u64;
            self.exec(Step { ops: vec![Op::Deposit { p, u, eid, amount, per, del: None }], ..Default::default() });
        }
        let per_day = if kind == 6 { 2 } else { 1 };
        let op = Op::Fill { p, amount: 1 << 50, ends: day(self.w.m.now) + 1400 * DAY };
        self.exec(Step { ops: vec![op], ..Default::default() });
        for d in 0..days {
            if self.w.done() {
                return;
            }
            for _ in 0..per_day {
                let u = if users == 1 { 0 } else { (d % users) as u8 };
                if kind == 7 && d > 3 && !self.rng.chance(1, 60) {
                    continue;
                }
                let eid = self.next_eid;
                self.next_eid += 1;
                let per = match kind {
                    4 | 5 => Per::Y1,
                    8 | 9 if flex_only => Per::Flex,
                    8 => *self.rng.pick(&[Per::Flex, Per::Flex, Per::M3, Per::M6]),
                    9 => *self.rng.pick(&[Per::Flex, Per::Flex, Per::Flex, Per::M3]),
                    _ => *self.rng.pick(&[Per::Y1, Per::Y1, Per::Y1, Per::M6, Per::M3, Per::Flex]),
                };
                let del = if self.rng.chance(1, 6) && g.nusers > 1 { Some(self.rng.below(delegates) as u8) } else { None };
                let amount = self.amount();
                let probe = self.rng.chance(1, 20);
                self.exec(Step { ops: vec![Op::Deposit { p, u, eid, amount, per, del }], probe, ..Default::default() });
                if self.rng.chance(1, 12) {
                    let ents = self.user_entries(u);
                    if !ents.is_empty() {
                        let eid = *self.rng.pick(&ents);
                        let op = if self.rng.chance(1, 2) {
                            Op::Extend { eid, per: Per::Y1, add: 0 }
                        } else {
                            Op::Slash { eid, native: 1, off: 0 }
                        };
                        self.exec(Step { ops: vec![op], ..Default::default() });
                    }
                }
            }
            if self.rng.chance(dist_pct, 100) {
                let probe = self.rng.chance(1, 25);
                self.exec(Step { ops: vec![Op::Distribute { p }], probe, ..Default::default() });
                if kind == 7 && d >= 1090 && (d < 1100 || d % 16 == 0) {
                    self.exec(Step { ops: vec![Op::Distribute { p }], probe: true, ..Default::default() });
                }
                if d > 1110 && self.w.outs.last().is_some_and(|o| !o.ok) {
                    return;
                }
            }
            if self.rng.chance(settle_pct, 100) {
                let u = self.rng.below(settled) as u8;
                self.exec(Step { ops: vec![Op::Claim { p, u }], ..Default::default() });
            }
            self.now += DAY;
            if self.rng.chance(1, 40) {
                self.now += self.rng.below(3) * DAY;
            }
        }
        if self.rng.chance(1, 2) {
            // a long silence, after which many or all of the dates run out in one operation
            self.now += self.rng.range(1, 420) * DAY;
            for u in 0..g.nusers {
                if self.rng.chance(1, 3) {
                    self.exec(Step { ops: vec![Op::Claim { p, u }], ..Default::default() });
                }
            }
            self.exec(Step { ops: vec![Op::Distribute { p }], probe: true, ..Default::default() });
        }
    }

    /// Faults stop; everything owed is paid out and every stake leaves.
    fn drain(&mut self) {
        let g = self.w.cfg.clone();
        self.now = self.now.max(self.w.m.now);
        let d = |ops: Vec<Op>| Step { ops, drain: true, ..Default::default() };
        self.exec(Step { env: Some(Env::Thaw), drain: true, ..Default::default() });
        self.now += 1;
        for p in 0..g.npools {
            self.exec(d(vec![Op::Distribute { p }]));
        }
        self.exec(Step { env: Some(Env::BankRun), drain: true, ..Default::default() });
        if self.w.done() {
            return;
        }
        // a few more days of regular service
        let extra = self.rng.below(4);
        for _ in 0..extra {
            self.now = day(self.now) + DAY;
            for p in 0..g.npools {
                self.exec(d(vec![Op::Distribute { p }]));
            }
        }
        // beyond the last announced day everything left goes out at once
        let end = self.w.m.pools.iter().map(|q| q.ends).max().unwrap_or(0);
        let last = self.w.m.entries.values().map(|e| e.expiry()).max().unwrap_or(0);
        let far = self.now + 3000 * DAY;
        self.now = self.now.max(end.min(far));
        for p in 0..g.npools {
            self.exec(d(vec![Op::Distribute { p }]));
            if self.w.done() {
                return;
            }
        }
        self.now = self.now.max(last);
        if self.rng.chance(1, 2) {
            self.now += self.rng.below(DAY);
        }
        let ids: Vec<(u32, u64)> = self.w.m.entries.iter().map(|(k, e)| (*k, e.amount)).collect();
        for (eid, amount) in ids {
            self.exec(d(vec![Op::Withdraw { eid, amount }]));
            if self.w.done() {
                return;
            }
        }
        let ids: Vec<(u8, u8)> = self.w.m.minings.keys().copied().collect();
        for (p, u) in &ids {
            self.exec(d(vec![Op::Claim { p: *p, u: *u }]));
            if self.w.done() {
                return;
            }
        }
        self.exec(Step { env: Some(Env::BankRun), drain: true, ..Default::default() });
        if self.prof.close > 0 {
            for (p, u) in &ids {
                self.exec(d(vec![Op::Close { p: *p, u: *u, to: 0 }]));
            }
        }
        let _ = self.want;
    }
}
