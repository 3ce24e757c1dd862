//! Scripted use of the real program on a small in-process runtime.
#![allow(dead_code)]
use crate::bank::{Bank, TxFault, TxOut};
use crate::keys::{balance, Cfg};
use crate::wire::{mining_view, pool_view, Call, MiningView, Per, PoolView};
pub use crate::wire::{Per::*, DAY};
use solana_program::instruction::Instruction;

pub struct H {
    pub b: Bank,
    pub g: Cfg,
    pub t0: u64,
}

impl H {
    pub fn new(npools: u8, nusers: u8) -> H {
        let t0 = 19_000 * DAY;
        let g = Cfg {
            salt: 1, npools, nusers, start: t0, shared_dep: false, shared_dist: false, shared_mint: false,
            fill_is_dep: false, dist_is_dep: false, overlap: 0, rent: 0, kinds: 0,
        };
        let mut h = H { b: g.genesis(), g, t0 };
        for p in 0..npools {
            h.init_pool(p);
            for u in 0..nusers {
                h.init_mining(p, u);
            }
        }
        h
    }
    /// day (from the start) and second of that day
    pub fn at(&mut self, day: u64, sec: u64) {
        self.b.now = (self.t0 + day * DAY + sec) as i64;
    }
    pub fn now(&self) -> u64 {
        self.b.now as u64
    }
    pub fn send(&mut self, ixs: &[Instruction]) -> TxOut {
        self.b.exec(ixs, TxFault::default(), false)
    }
    pub fn run(&mut self, c: Call) -> TxOut {
        self.send(&[c.raw()])
    }
    pub fn ok(&mut self, c: Call) {
        let s = format!("{c:?}");
        let o = self.run(c);
        assert!(o.ok, "refused: {:?} {s}", o.err);
    }
    pub fn init_pool(&mut self, p: u8) {
        let g = self.g.clone();
        self.ok(Call::InitPool { pool: g.pool(p), mint: g.mint(p), payer: g.payer(), dep: g.dep(p), fill: g.fill(p), dist: g.dist(p) });
    }
    pub fn init_mining(&mut self, p: u8, u: u8) {
        let c = self.c_init_mining(p, u);
        self.ok(c);
    }
    pub fn c_init_mining(&self, p: u8, u: u8) -> Call {
        Call::InitMining { pool: self.g.pool(p), payer: self.g.payer(), owner: self.g.user(u) }
    }
    pub fn c_fill(&self, p: u8, amount: u64, ends: u64) -> Call {
        let g = &self.g;
        Call::Fill { pool: g.pool(p), mint: g.mint(p), auth: g.fill(p), source: g.src(p), amount, ends }
    }
    /// `days`: length of the period from the start
    pub fn fill(&mut self, p: u8, amount: u64, days: u64) {
        let c = self.c_fill(p, amount, self.t0 + days * DAY);
        self.ok(c);
    }
    pub fn c_dist(&self, p: u8) -> Call {
        Call::Distribute { pool: self.g.pool(p), auth: self.g.dist(p) }
    }
    pub fn dist(&mut self, p: u8) {
        let c = self.c_dist(p);
        self.ok(c);
    }
    pub fn c_deposit(&self, p: u8, u: u8, amount: u64, per: Per, del: u8) -> Call {
        let g = &self.g;
        Call::Deposit { pool: g.pool(p), owner: g.user(u), dep: g.dep(p), delegate: g.user(del), amount, per: per.code() }
    }
    pub fn deposit(&mut self, p: u8, u: u8, amount: u64, per: Per, del: u8) {
        let c = self.c_deposit(p, u, amount, per, del);
        self.ok(c);
    }
    pub fn c_withdraw(&self, p: u8, u: u8, amount: u64, del: u8) -> Call {
        let g = &self.g;
        Call::Withdraw { pool: g.pool(p), owner: g.user(u), dep: g.dep(p), delegate: g.user(del), amount }
    }
    pub fn withdraw(&mut self, p: u8, u: u8, amount: u64, del: u8) {
        let c = self.c_withdraw(p, u, amount, del);
        self.ok(c);
    }
    pub fn c_claim(&self, p: u8, u: u8) -> Call {
        let g = &self.g;
        Call::Claim { pool: g.pool(p), mint: g.mint(p), owner: g.user(u), dep: g.dep(p), dest: g.ata(u, p) }
    }
    /// what arrives in the user's token account
    pub fn claim(&mut self, p: u8, u: u8) -> u64 {
        let k = self.g.ata(u, p);
        let pre = balance(&self.b, &k);
        let c = self.c_claim(p, u);
        self.ok(c);
        balance(&self.b, &k) - pre
    }
    #[allow(clippy::too_many_arguments)]
    pub fn c_extend(&self, p: u8, u: u8, del: u8, old: Per, new: Per, start: u64, base: u64, add: u64) -> Call {
        let g = &self.g;
        Call::Extend {
            pool: g.pool(p), owner: g.user(u), dep: g.dep(p), delegate: g.user(del), old: old.code(), new: new.code(),
            start, base, add, mint: g.mint(p),
        }
    }
    pub fn c_close(&self, p: u8, u: u8) -> Call {
        let g = &self.g;
        Call::Close { pool: g.pool(p), owner: g.user(u), target: g.target(0), dep: g.dep(p) }
    }
    pub fn c_chdel(&self, p: u8, u: u8, old: u8, new: u8, amount: u64) -> Call {
        let g = &self.g;
        Call::ChangeDelegate { pool: g.pool(p), owner: g.user(u), dep: g.dep(p), old: g.user(old), new: g.user(new), amount }
    }
    pub fn c_slash(&self, p: u8, u: u8, native: u64, weighted: u64, date: Option<u64>) -> Call {
        let g = &self.g;
        Call::Slash { pool: g.pool(p), owner: g.user(u), dep: g.dep(p), native, weighted, date }
    }
    pub fn c_decrease(&self, p: u8, u: u8, amount: u64) -> Call {
        let g = &self.g;
        Call::Decrease { pool: g.pool(p), owner: g.user(u), dep: g.dep(p), amount }
    }
    pub fn pool(&self, p: u8) -> PoolView {
        pool_view(&self.b.get(&self.g.pool(p))).unwrap()
    }
    pub fn mining(&self, p: u8, u: u8) -> MiningView {
        mining_view(&self.b.get(&self.g.mining(p, u))).unwrap()
    }
    pub fn vault(&self, p: u8) -> u64 {
        balance(&self.b, &self.g.vault(p))
    }
}

pub fn near(a: u64, b: u64) {
    assert!(a.abs_diff(b) <= 2, "{a} is not {b}");
}
