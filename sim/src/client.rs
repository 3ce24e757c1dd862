//! The shipped Rust client (clients/rust): builder form and cross-program form.

use crate::wire::{mining_addr, vault_addr, Call};
use rewards::instructions as c;
use rewards::types::LockupPeriod as L;
use solana_program::{
    account_info::AccountInfo,
    instruction::{AccountMeta, Instruction},
    pubkey::Pubkey,
    system_program, sysvar,
};

fn l(c: u8) -> Option<L> {
    Some(match c {
        0 => L::None,
        1 => L::Flex,
        2 => L::ThreeMonths,
        3 => L::SixMonths,
        4 => L::OneYear,
        _ => return None,
    })
}

fn m(o: &Pubkey, p: &Pubkey) -> Pubkey {
    mining_addr(o, p)
}

/// `h` chooses between the ways of using a builder: defaults left out, further accounts added.
/// What is set twice has the last value.
pub fn builder(call: &Call, h: u64) -> Option<Instruction> {
    let tok = spl_token::id();
    let more = extra(h);
    macro_rules! fin {
        ($e:expr $(, $f:ident = $v:expr)*) => {
            match $e {
                b => {
                    $(if h & 8 == 0 {
                        b.$f($v);
                    })*
                    if more.len() == 1 {
                        b.add_remaining_account(more[0].clone());
                    } else if more.len() > 1 {
                        b.add_remaining_accounts(&more);
                    }
                    // a builder is a template: it can be used again
                    b.instruction();
                    b.instruction()
                }
            }
        };
    }
    let ix = match call {
        Call::InitPool { pool, mint, payer, dep, fill, dist } => fin!(c::InitializePoolBuilder::new()
            .reward_pool(*pool).reward_mint(*mint).vault(vault_addr(pool, mint)).payer(*payer)
            .deposit_authority(*pool).deposit_authority(*dep)
            .fill_authority(*pool).fill_authority(*fill).distribute_authority(*pool).distribute_authority(*dist), rent = sysvar::rent::id(), token_program = tok, system_program = system_program::id()),
        Call::Fill { pool, mint, auth, source, amount, ends } => fin!(c::FillVaultBuilder::new()
            .reward_pool(*pool).reward_mint(*mint).vault(vault_addr(pool, mint)).fill_authority(*pool).fill_authority(*auth)
            .source_token_account(*source)
            .rewards(!*amount).rewards(*amount).distribution_ends_at(!*ends).distribution_ends_at(*ends), token_program = tok),
        Call::InitMining { pool, payer, owner } => fin!(c::InitializeMiningBuilder::new()
            .reward_pool(*pool).mining(m(owner, pool)).payer(*payer)
            .mining_owner(*pool).mining_owner(*owner), system_program = system_program::id()),
        Call::Deposit { pool, owner, dep, delegate, amount, per } => fin!(c::DepositMiningBuilder::new()
            .reward_pool(*pool).mining(m(owner, pool)).deposit_authority(*pool).deposit_authority(*dep)
            .delegate_mining(m(delegate, pool))
            .amount(!*amount).amount(*amount).lockup_period(l(*per)?).mining_owner(*pool).mining_owner(*owner).delegate(*pool).delegate(*delegate)),
        Call::Withdraw { pool, owner, dep, delegate, amount } => fin!(c::WithdrawMiningBuilder::new()
            .reward_pool(*pool).mining(m(owner, pool)).deposit_authority(*pool).deposit_authority(*dep)
            .delegate_mining(m(delegate, pool))
            .amount(!*amount).amount(*amount).mining_owner(*pool).mining_owner(*owner).delegate(*pool).delegate(*delegate)),
        Call::Claim { pool, mint, owner, dep, dest } => fin!(c::ClaimBuilder::new()
            .reward_pool(*pool).reward_mint(*mint).vault(vault_addr(pool, mint)).mining(m(owner, pool))
            .mining_owner(*pool).mining_owner(*owner).deposit_authority(*pool).deposit_authority(*dep).mining_owner_reward_token_account(*dest), token_program = tok),
        Call::Extend { pool, owner, dep, delegate, old, new, start, base, add, .. } => fin!(c::ExtendStakeBuilder::new()
            .reward_pool(*pool).mining(m(owner, pool)).deposit_authority(*pool).deposit_authority(*dep)
            .delegate_mining(m(delegate, pool))
            .old_lockup_period(l(*old)?).new_lockup_period(l(*new)?).deposit_start_ts(!*start).deposit_start_ts(*start)
            .base_amount(!*base).base_amount(*base).additional_amount(!*add).additional_amount(*add).mining_owner(*pool).mining_owner(*owner).delegate(*pool).delegate(*delegate)),
        Call::Distribute { pool, auth } => fin!(c::DistributeRewardsBuilder::new()
            .reward_pool(*pool).distribute_authority(*pool).distribute_authority(*auth)),
        Call::Close { pool, owner, target, dep } => fin!(c::CloseMiningBuilder::new()
            .mining(m(owner, pool)).mining_owner(*pool).mining_owner(*owner).target_account(*target).deposit_authority(*pool).deposit_authority(*dep)
            .reward_pool(*pool)),
        Call::ChangeDelegate { pool, owner, dep, old, new, amount } => fin!(c::ChangeDelegateBuilder::new()
            .reward_pool(*pool).mining(m(owner, pool)).deposit_authority(*pool).deposit_authority(*dep).mining_owner(*pool).mining_owner(*owner)
            .old_delegate_mining(m(old, pool)).new_delegate_mining(m(new, pool))
            .staked_amount(!*amount).staked_amount(*amount).new_delegate(*pool).new_delegate(*new)),
        Call::Slash { pool, owner, dep, native, weighted, date } => {
            let mut b = c::SlashBuilder::new();
            b.deposit_authority(*pool).deposit_authority(*dep).reward_pool(*pool).mining(m(owner, pool)).mining_owner(*pool).mining_owner(*owner)
                .slash_amount_in_native(!*native).slash_amount_in_native(*native).slash_amount_multiplied_by_period(!*weighted).slash_amount_multiplied_by_period(*weighted);
            if let Some(d) = date {
                b.stake_expiration_date(!*d).stake_expiration_date(*d);
            }
            fin!(&mut b)
        }
        Call::Decrease { pool, owner, dep, amount } => fin!(c::DecreaseRewardsBuilder::new()
            .deposit_authority(*pool).deposit_authority(*dep).reward_pool(*pool).mining(m(owner, pool)).mining_owner(*pool).mining_owner(*owner)
            .decreased_weighted_stake_number(!*amount).decreased_weighted_stake_number(*amount)),
    };
    strip(ix, &more)
}

/// The form another on-chain program uses: the call it makes is captured at the runtime seam.
pub fn cpi(call: &Call, h: u64) -> Option<Instruction> {
    let tok = spl_token::id();
    let leak = |k: Pubkey| -> AccountInfo<'static> {
        // tiny, bounded per process: keyed cache
        crate::bank::dummy_info(k)
    };
    let prog = leak(mplx_rewards::id());
    let more = extra(h);
    let infos: Vec<(AccountInfo<'static>, bool, bool)> =
        more.iter().map(|m| (leak(m.pubkey), m.is_writable, m.is_signer)).collect();
    let refs: Vec<(&AccountInfo<'static>, bool, bool)> = infos.iter().map(|x| (&x.0, x.1, x.2)).collect();
    let seeds: &[&[&[u8]]] = if h & 8 == 0 { &[] } else { &[&[b"registrar", &[7]]] };
    macro_rules! fin {
        ($e:expr) => {
            match $e {
                b => {
                    if refs.len() == 1 {
                        b.add_remaining_account(refs[0].0, refs[0].1, refs[0].2);
                    } else if refs.len() > 1 {
                        b.add_remaining_accounts(&refs);
                    }
                    if h & 16 == 0 && seeds.is_empty() {
                        b.invoke()
                    } else {
                        b.invoke_signed(seeds)
                    }
                }
            }
        };
    }
    let ix = crate::bank::capture(seeds, || match call {
        Call::InitPool { pool, mint, payer, dep, fill, dist } => fin!(c::InitializePoolCpiBuilder::new(&prog)
            .reward_pool(&leak(*pool)).reward_mint(&leak(*mint)).vault(&leak(vault_addr(pool, mint)))
            .payer(&leak(*payer)).deposit_authority(&leak(*dep)).rent(&leak(sysvar::rent::id()))
            .token_program(&leak(tok)).system_program(&leak(system_program::id()))
            .fill_authority(*fill).distribute_authority(*dist)),
        Call::Fill { pool, mint, auth, source, amount, ends } => fin!(c::FillVaultCpiBuilder::new(&prog)
            .reward_pool(&leak(*pool)).reward_mint(&leak(*mint)).vault(&leak(vault_addr(pool, mint)))
            .fill_authority(&leak(*auth)).source_token_account(&leak(*source)).token_program(&leak(tok))
            .rewards(*amount).distribution_ends_at(*ends)),
        Call::InitMining { pool, payer, owner } => fin!(c::InitializeMiningCpiBuilder::new(&prog)
            .reward_pool(&leak(*pool)).mining(&leak(m(owner, pool))).payer(&leak(*payer))
            .system_program(&leak(system_program::id())).mining_owner(*owner)),
        Call::Deposit { pool, owner, dep, delegate, amount, per } => fin!(c::DepositMiningCpiBuilder::new(&prog)
            .reward_pool(&leak(*pool)).mining(&leak(m(owner, pool))).deposit_authority(&leak(*dep))
            .delegate_mining(&leak(m(delegate, pool)))
            .amount(*amount).lockup_period(l(*per).unwrap()).mining_owner(*owner).delegate(*delegate)),
        Call::Withdraw { pool, owner, dep, delegate, amount } => fin!(c::WithdrawMiningCpiBuilder::new(&prog)
            .reward_pool(&leak(*pool)).mining(&leak(m(owner, pool))).deposit_authority(&leak(*dep))
            .delegate_mining(&leak(m(delegate, pool)))
            .amount(*amount).mining_owner(*owner).delegate(*delegate)),
        Call::Claim { pool, mint, owner, dep, dest } => fin!(c::ClaimCpiBuilder::new(&prog)
            .reward_pool(&leak(*pool)).reward_mint(&leak(*mint)).vault(&leak(vault_addr(pool, mint)))
            .mining(&leak(m(owner, pool))).mining_owner(&leak(*owner)).deposit_authority(&leak(*dep))
            .mining_owner_reward_token_account(&leak(*dest)).token_program(&leak(tok))),
        Call::Extend { pool, owner, dep, delegate, old, new, start, base, add, .. } => fin!(c::ExtendStakeCpiBuilder::new(&prog)
            .reward_pool(&leak(*pool)).mining(&leak(m(owner, pool))).deposit_authority(&leak(*dep))
            .delegate_mining(&leak(m(delegate, pool)))
            .old_lockup_period(l(*old).unwrap()).new_lockup_period(l(*new).unwrap()).deposit_start_ts(*start)
            .base_amount(*base).additional_amount(*add).mining_owner(*owner).delegate(*delegate)),
        Call::Distribute { pool, auth } => fin!(c::DistributeRewardsCpiBuilder::new(&prog)
            .reward_pool(&leak(*pool)).distribute_authority(&leak(*auth))),
        Call::Close { pool, owner, target, dep } => fin!(c::CloseMiningCpiBuilder::new(&prog)
            .mining(&leak(m(owner, pool))).mining_owner(&leak(*owner)).target_account(&leak(*target))
            .deposit_authority(&leak(*dep)).reward_pool(&leak(*pool))),
        Call::ChangeDelegate { pool, owner, dep, old, new, amount } => fin!(c::ChangeDelegateCpiBuilder::new(&prog)
            .reward_pool(&leak(*pool)).mining(&leak(m(owner, pool))).deposit_authority(&leak(*dep))
            .mining_owner(&leak(*owner)).old_delegate_mining(&leak(m(old, pool)))
            .new_delegate_mining(&leak(m(new, pool)))
            .staked_amount(*amount).new_delegate(*new)),
        Call::Slash { pool, owner, dep, native, weighted, date } => {
            let (d, p, mi) = (leak(*dep), leak(*pool), leak(m(owner, pool)));
            let mut b = c::SlashCpiBuilder::new(&prog);
            b.deposit_authority(&d).reward_pool(&p).mining(&mi).mining_owner(*owner)
                .slash_amount_in_native(*native).slash_amount_multiplied_by_period(*weighted);
            if let Some(x) = date {
                b.stake_expiration_date(*x);
            }
            fin!(&mut b)
        }
        Call::Decrease { pool, owner, dep, amount } => fin!(c::DecreaseRewardsCpiBuilder::new(&prog)
            .deposit_authority(&leak(*dep)).reward_pool(&leak(*pool)).mining(&leak(m(owner, pool)))
            .mining_owner(*owner).decreased_weighted_stake_number(*amount)),
    })?;
    strip(ix, &more)
}

/// Without the builders: the request written as the client's plain structure, or its cross-program
/// counterpart with each of the four ways of invoking it.
pub fn direct(call: &Call, h: u64, cross: bool) -> Option<Instruction> {
    let tok = spl_token::id();
    let prog = crate::bank::dummy_info(mplx_rewards::id());
    let more = extra(h);
    let infos: Vec<(AccountInfo<'static>, bool, bool)> =
        more.iter().map(|m| (crate::bank::dummy_info(m.pubkey), m.is_writable, m.is_signer)).collect();
    let refs: Vec<(&AccountInfo<'static>, bool, bool)> = infos.iter().map(|x| (&x.0, x.1, x.2)).collect();
    let seeds: &[&[&[u8]]] = if h & 8 == 0 { &[] } else { &[&[b"registrar", &[7]]] };
    macro_rules! form {
        ($s:ident, $x:ident, $xa:ident, [$($f:ident = $v:expr),*] $(, $a:expr)?) => {
            if cross {
                $(let $f = crate::bank::dummy_info($v);)*
                let x = c::$x::new(&prog, c::$xa { $($f: &$f),* } $(, $a)?);
                crate::bank::capture(seeds, || match (refs.is_empty(), seeds.is_empty()) {
                    (true, true) if h & 16 == 0 => x.invoke(),
                    (true, _) if h & 16 == 0 => x.invoke_signed(seeds),
                    (_, true) if h & 16 == 0 => x.invoke_with_remaining_accounts(&refs),
                    _ => x.invoke_signed_with_remaining_accounts(seeds, &refs),
                })?
            } else {
                let x = c::$s { $($f: $v),* };
                if more.is_empty() && h & 8 == 0 {
                    plain!(x, instruction $(, $a)?)
                } else {
                    plain!(x, instruction_with_remaining_accounts $(, $a)?; &more)
                }
            }
        };
    }
    macro_rules! plain {
        ($x:ident, $f:ident) => { $x.$f() };
        ($x:ident, $f:ident, $a:expr) => { $x.$f($a) };
        ($x:ident, $f:ident; $m:expr) => { $x.$f($m) };
        ($x:ident, $f:ident, $a:expr; $m:expr) => { $x.$f($a, $m) };
    }
    let ix = match call {
        Call::InitPool { pool, mint, payer, dep, fill, dist } => form!(InitializePool, InitializePoolCpi, InitializePoolCpiAccounts, [reward_pool = *pool, reward_mint = *mint, vault = vault_addr(pool, mint), payer = *payer, deposit_authority = *dep, rent = sysvar::rent::id(), token_program = tok, system_program = system_program::id()], c::InitializePoolInstructionArgs { fill_authority: *fill, distribute_authority: *dist }),
        Call::Fill { pool, mint, auth, source, amount, ends } => form!(FillVault, FillVaultCpi, FillVaultCpiAccounts, [reward_pool = *pool, reward_mint = *mint, vault = vault_addr(pool, mint), fill_authority = *auth, source_token_account = *source, token_program = tok], c::FillVaultInstructionArgs { rewards: *amount, distribution_ends_at: *ends }),
        Call::InitMining { pool, payer, owner } => form!(InitializeMining, InitializeMiningCpi, InitializeMiningCpiAccounts, [reward_pool = *pool, mining = m(owner, pool), payer = *payer, system_program = system_program::id()], c::InitializeMiningInstructionArgs { mining_owner: *owner }),
        Call::Deposit { pool, owner, dep, delegate, amount, per } => form!(DepositMining, DepositMiningCpi, DepositMiningCpiAccounts, [reward_pool = *pool, mining = m(owner, pool), deposit_authority = *dep, delegate_mining = m(delegate, pool)], c::DepositMiningInstructionArgs { amount: *amount, lockup_period: l(*per)?, mining_owner: *owner, delegate: *delegate }),
        Call::Withdraw { pool, owner, dep, delegate, amount } => form!(WithdrawMining, WithdrawMiningCpi, WithdrawMiningCpiAccounts, [reward_pool = *pool, mining = m(owner, pool), deposit_authority = *dep, delegate_mining = m(delegate, pool)], c::WithdrawMiningInstructionArgs { amount: *amount, mining_owner: *owner, delegate: *delegate }),
        Call::Claim { pool, mint, owner, dep, dest } => form!(Claim, ClaimCpi, ClaimCpiAccounts, [reward_pool = *pool, reward_mint = *mint, vault = vault_addr(pool, mint), mining = m(owner, pool), mining_owner = *owner, deposit_authority = *dep, mining_owner_reward_token_account = *dest, token_program = tok]),
        Call::Extend { pool, owner, dep, delegate, old, new, start, base, add, .. } => form!(ExtendStake, ExtendStakeCpi, ExtendStakeCpiAccounts, [reward_pool = *pool, mining = m(owner, pool), deposit_authority = *dep, delegate_mining = m(delegate, pool)], c::ExtendStakeInstructionArgs { old_lockup_period: l(*old)?, new_lockup_period: l(*new)?, deposit_start_ts: *start, base_amount: *base, additional_amount: *add, mining_owner: *owner, delegate: *delegate }),
        Call::Distribute { pool, auth } => form!(DistributeRewards, DistributeRewardsCpi, DistributeRewardsCpiAccounts, [reward_pool = *pool, distribute_authority = *auth]),
        Call::Close { pool, owner, target, dep } => form!(CloseMining, CloseMiningCpi, CloseMiningCpiAccounts, [mining = m(owner, pool), mining_owner = *owner, target_account = *target, deposit_authority = *dep, reward_pool = *pool]),
        Call::ChangeDelegate { pool, owner, dep, old, new, amount } => form!(ChangeDelegate, ChangeDelegateCpi, ChangeDelegateCpiAccounts, [reward_pool = *pool, mining = m(owner, pool), deposit_authority = *dep, mining_owner = *owner, old_delegate_mining = m(old, pool), new_delegate_mining = m(new, pool)], c::ChangeDelegateInstructionArgs { staked_amount: *amount, new_delegate: *new }),
        Call::Slash { pool, owner, dep, native, weighted, date } => form!(Slash, SlashCpi, SlashCpiAccounts, [deposit_authority = *dep, reward_pool = *pool, mining = m(owner, pool)], c::SlashInstructionArgs { mining_owner: *owner, slash_amount_in_native: *native, slash_amount_multiplied_by_period: *weighted, stake_expiration_date: *date }),
        Call::Decrease { pool, owner, dep, amount } => form!(DecreaseRewards, DecreaseRewardsCpi, DecreaseRewardsCpiAccounts, [deposit_authority = *dep, reward_pool = *pool, mining = m(owner, pool)], c::DecreaseRewardsInstructionArgs { mining_owner: *owner, decreased_weighted_stake_number: *amount }),
    };
    strip(ix, &more)
}

/// Further accounts a caller passes along: any mixture of flags.
fn extra(h: u64) -> Vec<AccountMeta> {
    let n = [0, 0, 1, 2][(h & 3) as usize];
    (0..n)
        .map(|i| {
            let k = Pubkey::new_from_array([201 + i as u8; 32]);
            let f = crate::rng::mix(h ^ i) >> 7;
            AccountMeta { pubkey: k, is_signer: f & 1 == 1, is_writable: f & 2 == 2 }
        })
        .collect()
}

/// They must arrive unchanged at the end of the list.
fn strip(mut ix: Instruction, more: &[AccountMeta]) -> Option<Instruction> {
    let at = ix.accounts.len().checked_sub(more.len())?;
    (ix.accounts.split_off(at) == more).then_some(ix)
}

/// Decodes account bytes with the shipped client and returns (kind, fields) for comparison.
pub fn decode_pool(d: &[u8]) -> Option<rewards::accounts::RewardPool> {
    quiet(|| {
        let x = rewards::accounts::RewardPool::from_bytes(d).ok()?;
        let y = with_info(d, |i| rewards::accounts::RewardPool::try_from(i).ok())?;
        (x == y).then_some(x)
    })
}
pub fn decode_mining(d: &[u8]) -> Option<rewards::accounts::Mining> {
    quiet(|| {
        let x = rewards::accounts::Mining::from_bytes(d).ok()?;
        let y = with_info(d, |i| rewards::accounts::Mining::try_from(i).ok())?;
        (x == y).then_some(x)
    })
}
/// A client that panics gives no answer.
fn quiet<T>(f: impl FnOnce() -> Option<T>) -> Option<T> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok().flatten()
}
fn with_info<T>(d: &[u8], f: impl Fn(&AccountInfo) -> T) -> T {
    let (k, o, mut l, mut d) = (Pubkey::default(), crate::wire::program(), 1, d.to_vec());
    f(&AccountInfo::new(&k, false, false, &mut l, &mut d, &o, false, 0))
}
/// What the client calls the account type with this number.
pub fn type_names(b: u8) -> Vec<String> {
    use borsh::BorshDeserialize;
    use num_traits::FromPrimitive;
    use rewards::types::AccountType as T;
    vec![format!("{:?}", T::from_u8(b)), format!("{:?}", T::try_from_slice(&[b]).ok())]
        .into_iter()
        .map(|s| s.trim_start_matches("Some(").trim_end_matches(')').to_string())
        .collect()
}
pub fn pool_len() -> usize {
    rewards::accounts::RewardPool::LEN
}
pub fn mining_len() -> usize {
    rewards::accounts::Mining::LEN
}
