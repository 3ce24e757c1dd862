//! The published interface description (idls/mplx_rewards.json) and the shipped JavaScript client,
//! both driven by field names.

use crate::wire::{mining_addr, program, vault_addr, Call};
use serde_json::{json, Value};
use solana_program::{
    instruction::{AccountMeta, Instruction},
    pubkey::Pubkey,
    system_program, sysvar,
};
use std::{
    cell::RefCell,
    io::{BufRead, BufReader, Write},
    path::PathBuf,
    process::{Child, ChildStdin, ChildStdout, Command, Stdio},
    sync::OnceLock,
};

#[derive(Clone, Debug)]
pub enum Arg {
    Key(Pubkey),
    U64(u64),
    Opt(Option<u64>),
    Period(u8),
}
pub struct Fields {
    pub name: &'static str,
    pub accounts: Vec<(&'static str, Pubkey)>,
    pub args: Vec<(&'static str, Arg)>,
}

pub const PERIOD_NAMES: [&str; 5] = ["None", "Flex", "ThreeMonths", "SixMonths", "OneYear"];

/// A request by the names its documentation uses.
pub fn fields(call: &Call) -> Fields {
    use Arg::*;
    let m = |o: &Pubkey, p: &Pubkey| mining_addr(o, p);
    let tok = spl_token::id();
    let sys = system_program::id();
    let (name, accounts, args): (_, Vec<(&'static str, Pubkey)>, Vec<(&'static str, Arg)>) = match call {
        Call::InitPool { pool, mint, payer, dep, fill, dist } => (
            "InitializePool",
            vec![
                ("rewardPool", *pool), ("rewardMint", *mint), ("vault", vault_addr(pool, mint)), ("payer", *payer),
                ("depositAuthority", *dep), ("rent", sysvar::rent::id()), ("tokenProgram", tok), ("systemProgram", sys),
            ],
            vec![("fillAuthority", Key(*fill)), ("distributeAuthority", Key(*dist))],
        ),
        Call::Fill { pool, mint, auth, source, amount, ends } => (
            "FillVault",
            vec![
                ("rewardPool", *pool), ("rewardMint", *mint), ("vault", vault_addr(pool, mint)),
                ("fillAuthority", *auth), ("sourceTokenAccount", *source), ("tokenProgram", tok),
            ],
            vec![("rewards", U64(*amount)), ("distributionEndsAt", U64(*ends))],
        ),
        Call::InitMining { pool, payer, owner } => (
            "InitializeMining",
            vec![("rewardPool", *pool), ("mining", m(owner, pool)), ("payer", *payer), ("systemProgram", sys)],
            vec![("miningOwner", Key(*owner))],
        ),
        Call::Deposit { pool, owner, dep, delegate, amount, per } => (
            "DepositMining",
            vec![
                ("rewardPool", *pool), ("mining", m(owner, pool)), ("depositAuthority", *dep),
                ("delegateMining", m(delegate, pool)),
            ],
            vec![
                ("amount", U64(*amount)), ("lockupPeriod", Period(*per)), ("miningOwner", Key(*owner)),
                ("delegate", Key(*delegate)),
            ],
        ),
        Call::Withdraw { pool, owner, dep, delegate, amount } => (
            "WithdrawMining",
            vec![
                ("rewardPool", *pool), ("mining", m(owner, pool)), ("depositAuthority", *dep),
                ("delegateMining", m(delegate, pool)),
            ],
            vec![("amount", U64(*amount)), ("miningOwner", Key(*owner)), ("delegate", Key(*delegate))],
        ),
        Call::Claim { pool, mint, owner, dep, dest } => (
            "Claim",
            vec![
                ("rewardPool", *pool), ("rewardMint", *mint), ("vault", vault_addr(pool, mint)),
                ("mining", m(owner, pool)), ("miningOwner", *owner), ("depositAuthority", *dep),
                ("miningOwnerRewardTokenAccount", *dest), ("tokenProgram", tok),
            ],
            vec![],
        ),
        Call::Extend { pool, owner, dep, delegate, old, new, start, base, add, .. } => (
            "ExtendStake",
            vec![
                ("rewardPool", *pool), ("mining", m(owner, pool)), ("depositAuthority", *dep),
                ("delegateMining", m(delegate, pool)),
            ],
            vec![
                ("oldLockupPeriod", Period(*old)), ("newLockupPeriod", Period(*new)), ("depositStartTs", U64(*start)),
                ("baseAmount", U64(*base)), ("additionalAmount", U64(*add)), ("miningOwner", Key(*owner)),
                ("delegate", Key(*delegate)),
            ],
        ),
        Call::Distribute { pool, auth } => {
            ("DistributeRewards", vec![("rewardPool", *pool), ("distributeAuthority", *auth)], vec![])
        }
        Call::Close { pool, owner, target, dep } => (
            "CloseMining",
            vec![
                ("mining", m(owner, pool)), ("miningOwner", *owner), ("targetAccount", *target),
                ("depositAuthority", *dep), ("rewardPool", *pool),
            ],
            vec![],
        ),
        Call::ChangeDelegate { pool, owner, dep, old, new, amount } => (
            "ChangeDelegate",
            vec![
                ("rewardPool", *pool), ("mining", m(owner, pool)), ("depositAuthority", *dep), ("miningOwner", *owner),
                ("oldDelegateMining", m(old, pool)), ("newDelegateMining", m(new, pool)),
            ],
            vec![("stakedAmount", U64(*amount)), ("newDelegate", Key(*new))],
        ),
        Call::Slash { pool, owner, dep, native, weighted, date } => (
            "Slash",
            vec![("depositAuthority", *dep), ("rewardPool", *pool), ("mining", m(owner, pool))],
            vec![
                ("miningOwner", Key(*owner)), ("slashAmountInNative", U64(*native)),
                ("slashAmountMultipliedByPeriod", U64(*weighted)), ("stakeExpirationDate", Opt(*date)),
            ],
        ),
        Call::Decrease { pool, owner, dep, amount } => (
            "DecreaseRewards",
            vec![("depositAuthority", *dep), ("rewardPool", *pool), ("mining", m(owner, pool))],
            vec![("miningOwner", Key(*owner)), ("decreasedWeightedStakeNumber", U64(*amount))],
        ),
    };
    Fields { name, accounts, args }
}

pub fn repo() -> PathBuf {
    PathBuf::from(std::env::var("RSIM_REPO").unwrap_or_else(|_| "/repo".into()))
}

// ------------------------------------------------------------------------------------------ IDL

static IDL: OnceLock<Value> = OnceLock::new();
pub fn idl() -> &'static Value {
    IDL.get_or_init(|| {
        let p = repo().join("idls/mplx_rewards.json");
        let t = std::fs::read_to_string(&p).unwrap_or_default();
        serde_json::from_str(&t).unwrap_or(Value::Null)
    })
}

fn list(v: &Value) -> &[Value] {
    v.as_array().map(|a| &a[..]).unwrap_or(&[])
}

/// Encodes a value by its type in the interface description.
fn enc(ty: &Value, a: &Arg, out: &mut Vec<u8>) -> Result<(), String> {
    match (ty, a) {
        (Value::String(s), Arg::Key(k)) if s == "publicKey" => out.extend_from_slice(k.as_ref()),
        (Value::String(s), Arg::U64(v)) => {
            let n = match s.as_str() {
                "u8" => 1,
                "u16" => 2,
                "u32" => 4,
                "u64" | "i64" => 8,
                "u128" | "i128" => 16,
                _ => return Err(format!("a number is described as {s}")),
            };
            let b = (*v as u128).to_le_bytes();
            if b[n..].iter().any(|x| *x != 0) {
                return Err(format!("{v} does not fit the described {s}"));
            }
            out.extend_from_slice(&b[..n]);
        }
        (Value::Object(o), Arg::Opt(v)) if o.contains_key("option") => match v {
            None => out.push(0),
            Some(x) => {
                out.push(1);
                enc(&o["option"], &Arg::U64(*x), out)?;
            }
        },
        (Value::Object(o), Arg::Period(p)) if o.contains_key("defined") => {
            let def = list(&idl()["types"]).iter().find(|t| t["name"] == o["defined"]).ok_or("undefined type")?;
            let want = PERIOD_NAMES.get(*p as usize).ok_or("no such period")?;
            let i = list(&def["type"]["variants"]).iter().position(|v| v["name"] == **want).ok_or("variant missing")?;
            out.push(i as u8);
        }
        _ => return Err(format!("type {ty} does not describe {a:?}")),
    }
    Ok(())
}

pub fn via_idl(call: &Call) -> Result<Instruction, String> {
    let f = fields(call);
    let ix = list(&idl()["instructions"])
        .iter()
        .find(|i| i["name"] == f.name)
        .ok_or_else(|| format!("the interface description has no instruction {}", f.name))?;
    let mut data = vec![ix["discriminant"]["value"].as_u64().ok_or("no discriminant")? as u8];
    let mut accounts = vec![];
    for a in list(&ix["accounts"]) {
        let n = a["name"].as_str().unwrap_or("");
        let k = f.accounts.iter().find(|x| x.0 == n).ok_or_else(|| format!("unknown account {n} in {}", f.name))?.1;
        accounts.push(AccountMeta {
            pubkey: k,
            is_signer: a["isSigner"].as_bool().unwrap_or(false),
            is_writable: a["isMut"].as_bool().unwrap_or(false),
        });
    }
    for a in list(&ix["args"]) {
        let n = a["name"].as_str().unwrap_or("");
        let v = &f.args.iter().find(|x| x.0 == n).ok_or_else(|| format!("unknown argument {n} of {}", f.name))?.1;
        enc(&a["type"], v, &mut data)?;
    }
    let program_id: Pubkey =
        idl()["metadata"]["address"].as_str().and_then(|s| s.parse().ok()).unwrap_or_else(program);
    Ok(Instruction { program_id, accounts, data })
}

/// Decodes an account by the interface description: field name -> decimal number or base58 key.
pub fn idl_decode(kind: &str, d: &[u8]) -> Option<Vec<(String, String)>> {
    let acc = list(&idl()["accounts"]).iter().find(|a| a["name"] == kind)?;
    let mut o = 0;
    let mut out = vec![];
    for f in list(&acc["type"]["fields"]) {
        let n = f["name"].as_str()?.to_string();
        let len = match &f["type"] {
            Value::String(s) => match s.as_str() {
                "publicKey" => 32,
                "u128" => 16,
                "u64" => 8,
                "u32" => 4,
                "u16" => 2,
                "u8" => 1,
                _ => return None,
            },
            t => {
                let a = list(&t["array"]);
                (a.first()? == "u8").then(|| a.get(1).and_then(|x| x.as_u64()))?? as usize
            }
        };
        let b = d.get(o..o + len)?;
        o += len;
        let v = if f["type"] == "publicKey" {
            Pubkey::new_from_array(b.try_into().ok()?).to_string()
        } else if f["type"].is_string() {
            let mut w = [0u8; 16];
            w[..len].copy_from_slice(b);
            u128::from_le_bytes(w).to_string()
        } else {
            b.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
        };
        out.push((n, v));
    }
    Some(out)
}

pub fn idl_error(code: u32, what: &str) -> Option<String> {
    list(&idl()["errors"]).iter().find(|e| e["code"].as_u64() == Some(code as u64)).and_then(|e| e[what].as_str()).map(String::from)
}

// ------------------------------------------------------------------------------------------ JavaScript

struct Node {
    _child: Child,
    tx: ChildStdin,
    rx: BufReader<ChildStdout>,
}
thread_local! {
    static NODE: RefCell<Option<Node>> = const { RefCell::new(None) };
}
static BUNDLE: OnceLock<Result<PathBuf, String>> = OnceLock::new();

fn home() -> PathBuf {
    PathBuf::from(std::env::var("RSIM_HOME").unwrap_or_else(|_| "/verif".into()))
}

/// Bundles the client once per process.
pub fn js_ready() -> Result<PathBuf, String> {
    BUNDLE
        .get_or_init(|| {
            let out = home().join(format!("sim/target/js-{}.mjs", std::process::id()));
            let r = Command::new("node")
                .arg(home().join("sim/js/build.mjs"))
                .arg(repo())
                .arg(&out)
                .output()
                .map_err(|e| format!("node: {e}"))?;
            if !r.status.success() {
                return Err(String::from_utf8_lossy(&r.stderr).into_owned());
            }
            Ok(out)
        })
        .clone()
}
pub fn js_done() {
    if let Some(Ok(p)) = BUNDLE.get() {
        let _ = std::fs::remove_file(p);
    }
}

pub fn js(req: &Value) -> Value {
    NODE.with(|n| {
        let mut n = n.borrow_mut();
        if n.is_none() {
            let path = js_ready().unwrap_or_else(|e| panic!("cannot bundle the JavaScript client: {e}"));
            let mut c = Command::new("node")
                .arg(path)
                .stdin(Stdio::piped())
                .stdout(Stdio::piped())
                .spawn()
                .expect("node");
            let tx = c.stdin.take().unwrap();
            let rx = BufReader::new(c.stdout.take().unwrap());
            *n = Some(Node { _child: c, tx, rx });
        }
        let c = n.as_mut().unwrap();
        let mut line = req.to_string();
        line.push('\n');
        c.tx.write_all(line.as_bytes()).expect("node stdin");
        let mut out = String::new();
        c.rx.read_line(&mut out).expect("node stdout");
        serde_json::from_str(&out).unwrap_or(json!({ "error": "the JavaScript process ended" }))
    })
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push_str(&format!("{x:02x}"));
    }
    s
}
fn unhex(s: &str) -> Option<Vec<u8>> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(s.get(2 * i..2 * i + 2)?, 16).ok()).collect()
}

pub fn via_js(call: &Call, raw: &Instruction) -> Result<Instruction, String> {
    let f = fields(call);
    let payer = match call {
        Call::InitPool { payer, .. } | Call::InitMining { payer, .. } => *payer,
        _ => raw.accounts.first().map(|m| m.pubkey).unwrap_or_default(),
    };
    let mut acc = serde_json::Map::new();
    for (n, k) in &f.accounts {
        acc.insert(n.to_string(), json!(k.to_string()));
    }
    let mut arg = serde_json::Map::new();
    for (n, a) in &f.args {
        let v = match a {
            Arg::Key(k) => json!({ "t": "key", "v": k.to_string() }),
            Arg::U64(x) => json!({ "t": "u64", "v": x.to_string() }),
            Arg::Opt(x) => json!({ "t": "opt", "v": x.map(|x| x.to_string()) }),
            Arg::Period(p) => json!({ "t": "enum", "v": PERIOD_NAMES.get(*p as usize).ok_or("no such period")? }),
        };
        arg.insert(n.to_string(), v);
    }
    let sig: Vec<String> = raw.accounts.iter().filter(|m| m.is_signer).map(|m| m.pubkey.to_string()).collect();
    // the ways of calling vary with the request itself
    let h = raw.data.iter().chain(raw.accounts.last().map(|m| m.pubkey.as_ref()).unwrap_or(&[])).fold(7u64, |h, b| crate::rng::mix(h ^ *b as u64));
    let r = js(&json!({
        "cmd": "build", "i": f.name, "acc": acc, "arg": arg, "sig": sig, "payer": payer.to_string(),
        "omit": h & 1 == 1, "pda": h & 2 == 2, "num": h & 4 == 4,
    }));
    if let Some(e) = r["error"].as_str() {
        return Err(e.to_string());
    }
    let key = |v: &Value| v.as_str().and_then(|s| s.parse::<Pubkey>().ok()).ok_or("bad key");
    let mut accounts = vec![];
    for k in list(&r["keys"]) {
        accounts.push(AccountMeta {
            pubkey: key(&k[0])?,
            is_signer: k[1].as_bool().unwrap_or(false),
            is_writable: k[2].as_bool().unwrap_or(false),
        });
    }
    if let Some(k) = list(&r["unsigned"]).first() {
        return Err(format!("no signer given for {k}"));
    }
    Ok(Instruction {
        program_id: key(&r["program"])?,
        accounts,
        data: r["data"].as_str().and_then(unhex).ok_or("bad data")?,
    })
}

/// Decodes one account with every reader of the client.
pub fn js_decode(kind: &str, key: &Pubkey, other: &Pubkey, data: &[u8], want: &[(&str, String)]) -> Result<usize, String> {
    let mut w = serde_json::Map::new();
    for (n, v) in want {
        w.insert(n.to_string(), json!(v));
    }
    let r = js(&json!({
        "cmd": "dec", "kind": kind, "key": key.to_string(), "other": other.to_string(),
        "owner": program().to_string(), "len": data.len(), "head": hex(&data[..data.len().min(512)]), "want": w,
    }));
    if let Some(e) = r["error"].as_str() {
        return Err(e.to_string());
    }
    if r["fields"]["publicKey"] != key.to_string() {
        return Err("another address".into());
    }
    for (n, v) in want {
        let got = &r["fields"][*n];
        let got = got.as_array().map(|a| json!(a.iter().map(|x| x.as_str().unwrap_or("")).collect::<Vec<_>>().join(","))).unwrap_or(got.clone());
        if got != **v {
            return Err(format!("{n} is read as {}, stored is {v}", r["fields"][*n]));
        }
    }
    if let Some(p) = list(&r["problems"]).first() {
        return Err(p.as_str().unwrap_or("").to_string());
    }
    Ok(r["size"].as_u64().unwrap_or(0) as usize)
}
