//! Writes executed transactions, with the accounts before and after, for comparison with the real runtime
//! (/verif/conform).  Off unless RSIM_TRACE names a file; RSIM_TRACE_EVERY=n keeps every n-th.

use crate::bank::{Acct, TxOut};
use crate::iface::hex;
use serde_json::json;
use solana_program::{instruction::Instruction, pubkey::Pubkey};
use std::{
    fs::File,
    io::Write,
    sync::{
        atomic::{AtomicU64, Ordering},
        Mutex, OnceLock,
    },
};

static OUT: OnceLock<Option<(Mutex<File>, u64)>> = OnceLock::new();
static N: AtomicU64 = AtomicU64::new(0);

fn out() -> &'static Option<(Mutex<File>, u64)> {
    OUT.get_or_init(|| {
        let f = File::create(std::env::var("RSIM_TRACE").ok()?).ok()?;
        let n = std::env::var("RSIM_TRACE_EVERY").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        Some((Mutex::new(f), n))
    })
}

pub fn wanted(ixs: &[Instruction]) -> bool {
    let Some((_, n)) = out() else { return false };
    ixs.iter().all(|i| i.program_id != crate::bank::tail_fail_id()) && N.fetch_add(1, Ordering::Relaxed) % n == 0
}

/// Hexadecimal, with runs of zeros abbreviated.
fn pack(d: &[u8]) -> String {
    let (mut s, mut i) = (String::new(), 0);
    while i < d.len() {
        let z = d[i..].iter().take_while(|b| **b == 0).count();
        if z > 4 {
            s.push_str(&format!("z{z}."));
            i += z;
        } else {
            s.push_str(&hex(&d[i..i + 1]));
            i += 1;
        }
    }
    s
}

fn acct(a: &Acct) -> serde_json::Value {
    json!([a.lamports, a.owner.to_string(), a.executable, pack(&a.data)])
}

pub fn write(now: i64, rate: u64, ixs: &[Instruction], keys: &[Pubkey], pre: &[Acct], post: &[Acct], o: &TxOut) {
    let Some((f, _)) = out() else { return };
    let ix: Vec<_> = ixs
        .iter()
        .map(|i| {
            let m: Vec<_> = i.accounts.iter().map(|m| json!([m.pubkey.to_string(), m.is_signer, m.is_writable])).collect();
            json!([i.program_id.to_string(), m, hex(&i.data)])
        })
        .collect();
    let acc: Vec<_> = keys.iter().zip(pre).zip(post).map(|((k, a), b)| json!([k.to_string(), acct(a), acct(b)])).collect();
    let r = json!({ "now": now, "rate": rate, "ix": ix, "acc": acc, "ok": o.ok, "err": o.err, "ret": o.ret.as_deref().map(hex) });
    let _ = writeln!(f.lock().unwrap(), "{r}");
}
