R='programs/rewards/src/'
P={}
def plant(id,property,edits,needs,breaks,demo,files=()):
    P[id]=dict(property=property,edits=edits,needs=needs,breaks=breaks,demo=demo,files=files)

plant('expiry-day-settlement','C05',[(R+'state/mining.rs',"            if date > &beginning_of_the_day {","            if date >= &beginning_of_the_day {")],
 "a stake expires on day D, D's distribution happens, and the account is settled for the first time during day D itself",
 "a participant who is settled on the very day its boost expires is credited for that day's distribution with the boost still on",
'''
let mut h = H::new(1, 2);
h.deposit(0, 0, 1000, M3, 0);
h.deposit(0, 1, 1000, Flex, 1);
h.fill(0, 1_000_000, 200);
h.at(90, 100);
h.dist(0);
h.at(90, 200);
let got = h.claim(0, 0);
near(got, h.claim(0, 1));
''')

plant('pool-expiry-late','C05',[(R+'state/reward_pool.rs',"            if date_to_process > &beginning_of_the_day {","            if date_to_process >= &beginning_of_the_day {")],
 "a distribution on the day a boost expires",
 "the pool still counts the boost for the distribution of the expiry day, so the day's rewards are not paid out completely",
'''
let mut h = H::new(1, 1);
h.deposit(0, 0, 1000, M3, 0);
h.fill(0, 1_000_000, 91);
h.at(90, 100);
h.dist(0);
h.at(90, 200);
near(h.claim(0, 0), 1_000_000);
''')

plant('two-a-day','C06',[(R+'state/reward_pool.rs',"        if self.cumulative_index.contains(&beginning_of_the_day) {\n            return Ok(());","        if self.cumulative_index.get(&beginning_of_the_day) == Some(&self.pool.index_with_precision) && rewards > 0 && self.weighted_stake_diffs.iter().next().is_some() {\n            return Ok(());")],
 "a second distribution on one day while the pool has no pending expiry at all",
 "the reserve is distributed twice on a day once all boosts have run out",
'''
let mut h = H::new(1, 1);
h.deposit(0, 0, 1000, Flex, 0);
h.fill(0, 1_000_000, 110);
h.at(10, 100);
h.dist(0);
let r = h.pool(0).reserve;
h.at(10, 7000);
let c = h.c_dist(0);
h.run(c);
assert_eq!(h.pool(0).reserve, r);
''')

plant('last-two-days','C07',[(R+'state/reward_pool.rs',"        if distribution_days_left == 0 {","        if distribution_days_left <= 1 && self.total_share > 0 && self.distribution_ends_at % (2 * SECONDS_PER_DAY) == 0 {"),
 (R+'state/reward_pool.rs',"                .safe_div(distribution_days_left)?","                .safe_div(distribution_days_left.max(1))?")],
 "nothing: one day left divides by one anyway (kept only if it shows)",
 "-",'''
''')
del P['last-two-days']

plant('short-day','C07',[(R+'state/reward_pool.rs',"(self.distribution_ends_at.saturating_sub(get_curr_unix_ts()) / SECONDS_PER_DAY).into();","((self.distribution_ends_at.saturating_sub(get_curr_unix_ts()) + SECONDS_PER_DAY / 2)\n                / SECONDS_PER_DAY)\n                .into();")],
 "a distribution in the first half of a day (more than half a day left of the day of the end)",
 "the number of days left is rounded to the nearest instead of down, so too little is emitted and the remainder goes out after the announced end",
'''
let mut h = H::new(1, 1);
h.deposit(0, 0, 1000, Flex, 0);
h.fill(0, 900_000, 10);
h.at(0, 3600);
h.dist(0);
assert_eq!(h.pool(0).reserve, 800_000);
''')

plant('delegate-total','C12',[(R+'state/reward_pool.rs',"""                .safe_sub(staked_amount)?;
            self.pool.total_share = self.pool.total_share.safe_sub(staked_amount)?;
        }
""","""                .safe_sub(staked_amount)?;
            if new_delegate_mining.is_some() {
                self.pool.total_share = self.pool.total_share.safe_sub(staked_amount)?;
            }
        }
""")],
 "a delegated stake taken back by its owner (new delegate is the owner), then a distribution",
 "the delegated weight stays in the pool's total although nobody holds it",
'''
let mut h = H::new(1, 2);
h.deposit(0, 0, 1000, Flex, 1);
let c = h.c_chdel(0, 0, 1, 0, 1000);
h.ok(c);
h.fill(0, 1_000_000, 0);
h.dist(0);
h.at(0, 5);
near(h.claim(0, 0), 1_000_000);
''')

plant('slash-midday','C13',[(R+'state/reward_pool.rs',"""                .get_mut(&beginning_of_the_stake_expiration_date)
                .ok_or(MplxRewardsError::NoWeightedStakeModifiersAtADate)?;
            *diff_record = diff_record.safe_sub(diff_by_expiration_date)?;

            let diff_record = self""","""                .get_mut(&beginning_of_the_stake_expiration_date)
                .ok_or(MplxRewardsError::NoWeightedStakeModifiersAtADate)?;
            *diff_record = diff_record.saturating_sub(diff_by_expiration_date);

            let diff_record = self""")],
 "a slash naming the expiry day of one stake but larger than the boost expiring on that day for this participant, in a pool where others expire on the same day",
 "an oversized slash is accepted; the participant's schedule no longer matches the pool's",
'''
let mut h = H::new(1, 2);
h.deposit(0, 0, 1000, M3, 0);
h.deposit(0, 0, 9000, Flex, 0);
h.deposit(0, 1, 9000, M3, 1);
let d = h.now() + 90 * DAY;
let c = h.c_slash(0, 0, 2000, 4000, Some(d));
assert!(!h.run(c).ok);
''')

plant('penalty-clamp','C14',[(R+'state/mining.rs',"        if decreased_weighted_stake_number > self.mining.share {\n            return Err(MplxRewardsError::DecreaseRewardsTooBig.into());\n        }","        if decreased_weighted_stake_number\n            > self.mining.share.safe_add(self.mining.stake_from_others)?\n        {\n            return Err(MplxRewardsError::DecreaseRewardsTooBig.into());\n        }\n        let mut decreased_weighted_stake_number =\n            decreased_weighted_stake_number.min(self.mining.share);"),
 (R+'state/mining.rs',"pub fn decrease_rewards(&mut self, mut decreased_weighted_stake_number: u64)","pub fn decrease_rewards(&mut self, decreased_weighted_stake_number: u64)")],
 "a penalty larger than the participant's own weight but not larger than own plus delegated weight",
 "such a penalty is accepted and wipes out the own weight instead of being refused",
'''
let mut h = H::new(1, 2);
h.deposit(0, 0, 1000, M3, 0);
h.deposit(0, 1, 1000, M3, 0);
let c = h.c_decrease(0, 0, 2500);
assert!(!h.run(c).ok);
''')

plant('extend-at-expiry','C15',[(R+'state/reward_pool.rs',"        if curr_ts < deposit_old_expiration_ts {","        if curr_ts <= deposit_old_expiration_ts {")],
 "a stake extended in exactly the second in which it expires",
 "the extension of a stake that expires right now is refused",
'''
let mut h = H::new(1, 1);
h.deposit(0, 0, 1000, M3, 0);
let t = h.now();
h.at(90, 0);
let c = h.c_extend(0, 0, 0, M3, M6, t, 1000, 0);
assert!(h.run(c).ok);
''')

plant('extend-delegate-extra','C15',[(R+'state/reward_pool.rs',"""                    .safe_sub(base_amount)?;
                self.pool.total_share = self.pool.total_share.safe_sub(base_amount)?;""","""                    .safe_sub(base_amount)?;
                if curr_ts < deposit_old_expiration_ts {
                    self.pool.total_share = self.pool.total_share.safe_sub(base_amount)?;
                }""")],
 "the extension of a delegated stake after it has expired",
 "the delegated tokens count twice in the pool's total afterwards",
'''
let mut h = H::new(1, 2);
h.deposit(0, 0, 1000, M3, 1);
let t = h.now();
h.at(100, 0);
let c = h.c_extend(0, 0, 1, M3, M3, t, 1000, 0);
h.ok(c);
assert_eq!(h.pool(0).total, 3000);
''')

plant('close-unsettled','C16',[(R+'instructions/close_mining.rs',"        wrapped_mining.refresh_rewards(wrapped_reward_pool.cumulative_index)?;","        if wrapped_mining.mining.share > 0 {\n            wrapped_mining.refresh_rewards(wrapped_reward_pool.cumulative_index)?;\n        }")],
 "a participant with delegated weight only, a distribution, the delegators leave... then it closes before being settled (no own weight)",
 "-",'''
''')
del P['close-unsettled']

plant('close-unsettled','C16',[(R+'instructions/close_mining.rs',"        wrapped_mining.refresh_rewards(wrapped_reward_pool.cumulative_index)?;\n\n        if wrapped_mining","        if wrapped_reward_pool.pool.tokens_available_for_distribution > 0 {\n            wrapped_mining.refresh_rewards(wrapped_reward_pool.cumulative_index)?;\n        }\n\n        if wrapped_mining")],
 "a closing after the pool's last distribution (reserve empty) by a participant that has not been settled since",
 "the account is closed although rewards are owed to it; they are lost",
'''
let mut h = H::new(1, 1);
h.deposit(0, 0, 1000, Flex, 0);
h.fill(0, 1_000_000, 0);
h.dist(0);
h.at(1, 5);
let c = h.c_close(0, 0);
assert!(!h.run(c).ok);
''')

plant('withdraw-unsigned','C09',[(R+'instructions/withdraw_mining.rs',"    let deposit_authority = AccountLoader::next_signer(account_info_iter)?;","    let deposit_authority = AccountLoader::next_unchecked(account_info_iter)?;")],
 "a withdrawal that names the deposit authority without its signature",
 "anybody can take weight off anybody",
'''
let mut h = H::new(1, 1);
h.deposit(0, 0, 1000, Flex, 0);
let mut ix = h.c_withdraw(0, 0, 500, 0).raw();
ix.accounts[2].is_signer = false;
h.send(&[ix]);
assert_eq!(h.mining(0, 0).share, 1000);
''')

plant('claim-cross-pool','C10',[(R+'instructions/claim.rs',"            assert_account_key(reward_pool, &wrapped_mining.mining.reward_pool)?;\n","            if wrapped_mining.mining.share == 0 {\n                assert_account_key(reward_pool, &wrapped_mining.mining.reward_pool)?;\n            }\n")],
 "a claim that names one pool and vault together with the participant's account of another pool",
 "the weight a participant has in one pool is paid from the vault of another",
'''
let mut h = H::new(2, 2);
h.deposit(0, 0, 1000, Flex, 0);
h.deposit(1, 1, 1000, Flex, 1);
h.fill(1, 1_000_000, 0);
h.dist(1);
let own = h.c_claim(0, 0).raw().accounts[3].clone();
let mut ix = h.c_claim(1, 0).raw();
ix.accounts[3] = own;
h.at(0, 10);
h.send(&[ix]);
assert_eq!(h.vault(1), 1_000_000);
''')

plant('fill-shortens','C08',[(R+'instructions/fill_vault.rs',"""        let days_diff = distribution_ends_at_day_start
            .safe_sub(wrapped_reward_pool.pool.distribution_ends_at)?;
""","""        let days_diff = distribution_ends_at_day_start
            .saturating_sub(wrapped_reward_pool.pool.distribution_ends_at);
""")],
 "a filling that names an end before the current end of the period",
 "such a filling is accepted instead of being refused",
'''
let mut h = H::new(1, 1);
h.fill(0, 1_000_000, 10);
let c = h.c_fill(0, 1000, h.t0 + 5 * DAY);
assert!(!h.run(c).ok);
''')

plant('round-up','C01',[(R+'state/reward_pool.rs',"            .safe_div(u128::from(total_share))?;","            .safe_add(u128::from(total_share) - 1)?\n            .safe_div(u128::from(total_share))?;")],
 "a distribution that does not divide evenly, with enough weight in one account for the rounding to make a whole token",
 "more is promised than was distributed: the last one to claim is not paid",
'''
let mut h = H::new(1, 1);
h.deposit(0, 0, 30_000_000_000_000_000, Y1, 0);
h.deposit(0, 0, 1, Flex, 0);
h.fill(0, 100, 0);
h.dist(0);
h.at(0, 5);
assert!(h.claim(0, 0) <= 100);
''')

plant('dust-index','C03',[(R+'state/mining.rs',"""        if rewards > 0 {
            *unclaimed_rewards = (*unclaimed_rewards).safe_add(rewards)?;
        }

        *index_with_precision = vault_index_for_date;
""","""        if rewards > 0 {
            *unclaimed_rewards = (*unclaimed_rewards).safe_add(rewards)?;
            *index_with_precision = vault_index_for_date;
        }
""")],
 "a participant settled while it has no weight, or too little to earn a whole token, before it stakes more",
 "weight acquired later earns for distributions of the past",
'''
let mut h = H::new(1, 2);
h.deposit(0, 0, 1000, Flex, 0);
h.fill(0, 1_000_000, 0);
h.dist(0);
h.at(1, 5);
h.deposit(0, 1, 1000, Flex, 1);
assert_eq!(h.claim(0, 1), 0);
''')

plant('reinit-pool','C19',[(R+'instructions/initialize_pool.rs',"    if wrapped_reward_pool.pool.is_initialized() {","    let known = wrapped_reward_pool.pool.is_initialized();\n    if known && wrapped_reward_pool.pool.reward_mint == *reward_mint.key {"),
 (R+'instructions/initialize_pool.rs',"    wrapped_reward_pool.weighted_stake_diffs.initialize();\n    wrapped_reward_pool.cumulative_index.initialize();\n","    if !known {\n        wrapped_reward_pool.weighted_stake_diffs.initialize();\n        wrapped_reward_pool.cumulative_index.initialize();\n    }\n")],
 "a second initialisation of a pool with another mint",
 "a stranger can take over a pool, its authorities and its schedule",
'''
let mut h = H::new(1, 1);
h.deposit(0, 0, 1000, Flex, 0);
let g = h.g.clone();
let a = g.user(g.attacker());
h.run(Call::InitPool { pool: g.pool(0), mint: g.xmint(), payer: a, dep: a, fill: a, dist: a });
assert_eq!(h.pool(0).dep, g.dep(0));
''')

plant('idle-not-settled','C19',[(R+'state/mining.rs',"        let mut share = self.mining.share.safe_add(self.mining.stake_from_others)?;\n","        let mut share = self.mining.share.safe_add(self.mining.stake_from_others)?;\n        if share == 0 && self.mining.unclaimed_rewards == 0 && self.mining.index_with_precision == 0 {\n            return Ok(());\n        }\n")],
 "an account opened after the pool's first distribution, then staked into and settled",
 "a newly opened participant is paid for distributions that happened before it joined",
'''
let mut h = H::new(1, 2);
h.deposit(0, 0, 1000, Flex, 0);
h.fill(0, 1_000_000, 0);
h.dist(0);
h.at(1, 5);
h.deposit(0, 1, 1000, Flex, 1);
assert_eq!(h.claim(0, 1), 0);
''')

plant('flex-schedule','C18',[(R+'state/reward_pool.rs',"        for date in processed_dates {\n            self.weighted_stake_diffs.remove(&date);\n        }","        for date in processed_dates {\n            if let Some(modifier) = self.weighted_stake_diffs.get_mut(&date) {\n                *modifier = 0;\n            }\n        }")],
 "a pool in which stakes have expired on more than 365 different days",
 "past expiry days are never released, so after a year of daily stakes no further stake can be made",
'''
let mut h = H::new(1, 8);
for d in 0..420 {
    h.at(d, 100);
    let u = (d % 8) as u8;
    let c = h.c_deposit(0, u, 10, Flex, u);
    assert!(h.run(c).ok, "day {d}");
}
''')

plant('undelegate-wrong-day','C02',[(R+'state/reward_pool.rs',"        mining: &mut WrappedMining,\n        new_delegate_mining: Option<&AccountInfo>,\n        old_delegate_mining: Option<&AccountInfo>,\n        staked_amount: u64,\n    ) -> ProgramResult {\n        mining.refresh_rewards(self.cumulative_index)?;\n","        mining: &mut WrappedMining,\n        new_delegate_mining: Option<&AccountInfo>,\n        old_delegate_mining: Option<&AccountInfo>,\n        staked_amount: u64,\n    ) -> ProgramResult {\n        mining.mining.index_with_precision = self.pool.index_with_precision;\n")],
 "rewards owed and not yet settled when the owner changes the delegate of a stake",
 "the unsettled rewards of the owner are lost",
'''
let mut h = H::new(1, 2);
h.deposit(0, 0, 1000, Flex, 0);
h.fill(0, 1_000_000, 0);
h.dist(0);
h.at(1, 5);
let c = h.c_chdel(0, 0, 0, 1, 1000);
h.ok(c);
near(h.claim(0, 0), 1_000_000);
''')

plant('withdraw-stale-total','C04',[(R+'state/reward_pool.rs',"        let pool_share = self.consume_old_modifiers(beginning_of_the_day, self.pool.total_share)?;\n        self.pool.total_share = pool_share;","        let pool_share = self.pool.total_share;\n        self.consume_old_modifiers(beginning_of_the_day, pool_share)?;\n        self.pool.total_share = pool_share;")],
 "a withdrawal after a boost has expired and before the next distribution",
 "the expired boost is dropped from the schedule without being taken off the pool's total",
'''
let mut h = H::new(1, 1);
h.deposit(0, 0, 1000, M3, 0);
h.at(95, 5);
h.withdraw(0, 0, 400, 0);
assert_eq!(h.pool(0).total, 600);
''')

plant('claim-keeps-rest','C11',[(R+'state/mining.rs',"        self.unclaimed_rewards = 0;","        self.unclaimed_rewards -= self.unclaimed_rewards & u64::from(u32::MAX);")],
 "an amount of 2^32 or more owed at once",
 "part of a large claim stays owed and is paid again by the next claim",
'''
let mut h = H::new(1, 1);
h.deposit(0, 0, 1000, Flex, 0);
h.fill(0, 1 << 36, 0);
h.dist(0);
h.at(1, 5);
h.claim(0, 0);
let c = h.c_claim(0, 0);
h.run(c);
assert_eq!(h.mining(0, 0).unclaimed, 0);
''')

plant('big-reserve','C17',[(R+'state/reward_pool.rs',"            (u128::from(self.tokens_available_for_distribution))\n                .safe_mul(PRECISION)?","            u128::from(\n                self.tokens_available_for_distribution\n                    .safe_mul(1 << 20)?\n                    .safe_div(1 << 20)?,\n            )\n                .safe_mul(PRECISION)?")],
 "a reserve above 2^44 with at least one day left",
 "no distribution is possible while the reserve is that large",
'''
let mut h = H::new(1, 1);
h.deposit(0, 0, 1000, Flex, 0);
h.fill(0, 1 << 46, 10);
let c = h.c_dist(0);
assert!(h.run(c).ok);
''')

C='clients/rust/src/generated/instructions/'
plant('client-slash-date','C20',[(C+'slash.rs',"            stake_expiration_date: self.instruction.stake_expiration_date.clone(),","            stake_expiration_date: self\n                .instruction\n                .stake_expiration_date\n                .filter(|_| self.instruction.slash_amount_in_native.unwrap_or(0) > 1),")],
 "a slash of a single token of a boosted stake through the cross-program builder",
 "the expiry date is dropped, so the boost of the slashed token stays in the schedule",
'''
let mut h = H::new(1, 1);
h.deposit(0, 0, 1000, M3, 0);
let d = h.now() + 90 * DAY;
let ix = client::cpi(&h.c_slash(0, 0, 1, 2, Some(d))).unwrap();
assert!(h.send(&[ix]).ok);
h.at(95, 5);
h.deposit(0, 0, 1, Flex, 0);
assert_eq!(h.mining(0, 0).share, 1000);
''',files=('client.rs',))

plant('client-delegate-readonly','C20',[(C+'change_delegate.rs',"        accounts.push(solana_program::instruction::AccountMeta::new(\n            *self.new_delegate_mining.key,\n            false,\n        ));","        accounts.push(solana_program::instruction::AccountMeta {\n            pubkey: *self.new_delegate_mining.key,\n            is_signer: false,\n            is_writable: self.new_delegate_mining.is_writable\n                && self.mining_owner.key != self.deposit_authority.key,\n        });")],
 "-","-","")
del P['client-delegate-readonly']

plant('client-extend-order','C20',[(C+'extend_stake.rs',"            additional_amount: self\n                .additional_amount\n                .clone()\n                .expect(\"additional_amount is not set\"),","            additional_amount: self\n                .additional_amount\n                .clone()\n                .expect(\"additional_amount is not set\")\n                .min(self.base_amount.clone().unwrap_or(0)),")],
 "an extension through the builder that adds more than the stake it extends",
 "the additional amount is cut down to the base amount",
'''
let mut h = H::new(1, 1);
h.deposit(0, 0, 1000, M3, 0);
let t = h.now();
h.at(1, 5);
let ix = client::builder(&h.c_extend(0, 0, 0, M3, M3, t, 1000, 5000)).unwrap();
assert!(h.send(&[ix]).ok);
assert_eq!(h.mining(0, 0).share, 12000);
''',files=('client.rs',))

plant('short-data-padded','C21',[(R+'instructions/mod.rs',"RewardsInstruction::try_from_slice(instruction_data)?","RewardsInstruction::try_from_slice(instruction_data).or_else(|e| match instruction_data.first() {\n        // an absent trailing option\n        Some(10) => RewardsInstruction::try_from_slice(&[instruction_data, &[0]].concat()),\n        _ => Err(e),\n    })?")],
 "the data of a slash without a date, cut off by exactly one byte",
 "truncated data is accepted",
'''
let mut h = H::new(1, 1);
h.deposit(0, 0, 1000, Flex, 0);
let mut ix = h.c_slash(0, 0, 10, 10, None).raw();
ix.data.pop();
assert!(!h.send(&[ix]).ok);
assert_eq!(h.mining(0, 0).share, 1000);
''')

J='clients/js/src/generated/'
plant('js-search-offsets','C22',[(J+'accounts/mining.ts',"unclaimedRewards: [120, u64()],","unclaimedRewards: [112, u64()],")],
 "a search for participant accounts by unpaid rewards, where they differ from the weight",
 "the JavaScript account search by unclaimed rewards compares the weight instead",
'''//js
const data = new Uint8Array(1776);
data.set([5], 112);
data.set([9], 120);
const acc = { publicKey: key(3), exists: true, data, owner: client.MPLX_REWARDS_PROGRAM_ID };
const rpc = {
  getProgramAccounts: async (p, { filters }) =>
    filters.every((f) => Buffer.from(data.slice(f.memcmp.offset, f.memcmp.offset + f.memcmp.bytes.length)).equals(Buffer.from(f.memcmp.bytes))) ? [acc] : [],
};
const find = async (f, v) => (await client.getMiningGpaBuilder({ rpc, programs }).whereField(f, v).get()).length;
equal(await find('share', 5), 1, 'search by share');
equal(await find('unclaimedRewards', 9), 1, 'search by unclaimed rewards');
equal(await find('unclaimedRewards', 5), 0, 'search by unclaimed rewards, other value');
''')
plant('js-default-token','C22',[(J+'instructions/claim.ts',"'TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA'","'TokenzQdBNbLqP5VEhdkAS6EPFLC1PHnBqCXEpPxuEb'")],
 "a claim built without naming the token program",
 "the JavaScript client's default token program of claims is not the one the program works with",
'''//js
const input = { rewardPool: key(1), rewardMint: key(2), vault: key(3), mining: key(4), miningOwner: signer(key(5)), depositAuthority: signer(key(6)), miningOwnerRewardTokenAccount: key(7) };
const ix = client.claim(ctx, input).getInstructions()[0];
equal(ix.keys[7], { pubkey: 'TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA', isSigner: false, isWritable: false }, 'token program');
''')
plant('js-enum-order','C22',[(J+'types/lockupPeriod.ts',"  ThreeMonths,\n  SixMonths,\n  OneYear,","  ThreeMonths,\n  OneYear,\n  SixMonths,")],
 "a deposit or extension for half a year or a year",
 "the JavaScript client's lockup periods are numbered in another order",
'''//js
const b = client.depositMining(ctx, { rewardPool: key(1), mining: key(2), depositAuthority: signer(key(3)), delegateMining: key(2), amount: 7, lockupPeriod: client.LockupPeriod.OneYear, miningOwner: key(4), delegate: key(4) });
equal(b.getInstructions()[0].data[9], 4, 'number of OneYear');
const c = client.depositMining(ctx, { rewardPool: key(1), mining: key(2), depositAuthority: signer(key(3)), delegateMining: key(2), amount: 7, lockupPeriod: client.LockupPeriod.Flex, miningOwner: key(4), delegate: key(4) });
equal(c.getInstructions()[0].data[9], 1, 'number of Flex');
''')
plant('idl-extend-args','C20',[('idls/mplx_rewards.json','          "name": "baseAmount",\n          "type": "u64"\n        },\n        {\n          "name": "additionalAmount",','          "name": "additionalAmount",\n          "type": "u64"\n        },\n        {\n          "name": "baseAmount",')],
 "an extension with an additional amount different from the base amount, encoded as the IDL says",
 "the IDL gives the arguments of extend_stake in another order than the program reads them",
'''//js
const idl = JSON.parse(fs.readFileSync(process.env.REPO + '/idls/mplx_rewards.json'));
const ix = idl.instructions.find((i) => i.name === 'ExtendStake');
const v = { oldLockupPeriod: [1], newLockupPeriod: [2], depositStartTs: 3, baseAmount: 4, additionalAmount: 5, miningOwner: new Uint8Array(32).fill(6), delegate: new Uint8Array(32).fill(7) };
const u64 = (n) => { const b = Buffer.alloc(8); b.writeBigUInt64LE(BigInt(n)); return b; };
const got = Buffer.concat([Buffer.from([ix.discriminant.value]), ...ix.args.map((a) => (a.type === 'u64' ? u64(v[a.name]) : Buffer.from(v[a.name])))]);
const must = Buffer.concat([Buffer.from([6, 1, 2]), u64(3), u64(4), u64(5), Buffer.alloc(32, 6), Buffer.alloc(32, 7)]);
equal(got.toString('hex'), must.toString('hex'), 'extend_stake as the IDL describes it');
''')

plant('one-expiry-per-settle','C05',[(R+'state/mining.rs',"            processed_dates.push(*date);\n        }","            processed_dates.push(*date);\n            if processed_dates.len() == 2 {\n                break;\n            }\n        }")],
 "a participant with boosts expiring on three different days that is settled only after all of them",
 "the third boost is still credited for the distributions after its expiry",
'''
let mut h = H::new(1, 2);
for d in 0..3 {
    h.at(d, 100);
    h.deposit(0, 0, 1000, M3, 0);
}
h.deposit(0, 1, 3000, Flex, 1);
h.fill(0, 1_000_000, 100);
h.at(101, 100);
h.dist(0);
h.at(101, 200);
near(h.claim(0, 0), 500_000);
''')

plant('first-fill-open','C09',[(R+'instructions/fill_vault.rs',"    assert_account_key(fill_authority, &wrapped_reward_pool.pool.fill_authority)?;","    if wrapped_reward_pool.pool.distribution_ends_at > 0 {\n        assert_account_key(fill_authority, &wrapped_reward_pool.pool.fill_authority)?;\n    }")],
 "a filling of a pool that has never been filled, signed by somebody who is not its fill authority",
 "anybody can set the end of the distribution period of a fresh pool",
'''
let mut h = H::new(1, 1);
let g = h.g.clone();
let give = spl_token::instruction::transfer(&spl_token::id(), &g.src(0), &g.ata(0, 0), &g.fill(0), &[], 10).unwrap();
assert!(h.send(&[give]).ok);
let c = Call::Fill { pool: g.pool(0), mint: g.mint(0), auth: g.user(0), source: g.ata(0, 0), amount: 1, ends: h.t0 + 5000 * DAY };
h.run(c);
assert_eq!(h.pool(0).ends, 0);
''')

plant('distribute-open-after-end','C09',[(R+'instructions/distribute_rewards.rs',"""    assert_account_key(
        distribute_authority,
        &wrapped_reward_pool.pool.distribute_authority,
    )?;
""","""    if wrapped_reward_pool.pool.distribution_ends_at > crate::utils::get_curr_unix_ts() {
        assert_account_key(
            distribute_authority,
            &wrapped_reward_pool.pool.distribute_authority,
        )?;
    }
""")],
 "a distribution requested by a stranger once the distribution period has ended",
 "the last distribution can be triggered by anybody",
'''
let mut h = H::new(1, 1);
h.deposit(0, 0, 1000, Flex, 0);
h.fill(0, 1_000_000, 2);
h.at(3, 5);
let g = h.g.clone();
h.run(Call::Distribute { pool: g.pool(0), auth: g.user(0) });
assert_eq!(h.pool(0).reserve, 1_000_000);
''')

plant('close-dust-left','C16',[(R+'instructions/close_mining.rs',"        if wrapped_mining.mining.unclaimed_rewards != 0 {","        if wrapped_mining.mining.unclaimed_rewards > 1 {")],
 "a closing while exactly one token is owed",
 "the account is closed and the last token owed to it is lost",
'''
let mut h = H::new(1, 1);
h.deposit(0, 0, 1, Flex, 0);
h.fill(0, 1, 0);
h.dist(0);
h.at(0, 5);
let c = h.c_close(0, 0);
assert!(!h.run(c).ok);
''')

plant('claim-to-delegate','C10',[(R+'instructions/claim.rs',"        assert_account_key(mining_owner, &mining_user_rewards.owner)?;","        if mining_user_rewards.delegate.contains(mining_owner.key) {\n            assert_account_key(mining_owner, mining_user_rewards.delegate.as_ref().unwrap())?;\n        } else {\n            assert_account_key(mining_owner, &mining_user_rewards.owner)?;\n        }")],
 "a claim that names a token account of somebody else over which the participant is merely an SPL delegate",
 "rewards are paid into a token account that does not belong to the participant",
'''
use solana_program::program_pack::Pack;
let mut h = H::new(1, 2);
h.deposit(0, 0, 1000, Flex, 0);
h.fill(0, 1_000_000, 0);
h.dist(0);
h.at(0, 5);
let g = h.g.clone();
let dest = g.ata(1, 0);
let mut ix = spl_token::instruction::approve(&spl_token::id(), &dest, &g.user(0), &g.user(1), &[], 5).unwrap();
assert!(h.send(&[ix.clone()]).ok);
ix = h.c_claim(0, 0).raw();
ix.accounts[6].pubkey = dest;
assert!(!h.send(&[ix]).ok);
''')

plant('close-flex-delegated','C16',[(R+'instructions/close_mining.rs',"        if wrapped_mining.mining.stake_from_others > 0 {","        if wrapped_mining.mining.stake_from_others > wrapped_mining.mining.share {")],
 "the closing of an account to which less is delegated than it has staked itself",
 "an account to which stakes are delegated is closed, and the delegators are stuck",
'''
let mut h = H::new(1, 2);
h.deposit(0, 0, 1000, Flex, 0);
h.deposit(0, 1, 500, Flex, 0);
let c = h.c_close(0, 0);
assert!(!h.run(c).ok);
''')

plant('full-participant-merges','C18',[(R+'state/reward_pool.rs',"""            mining
                .weighted_stake_diffs
                .insert(stake_expiration_date, weighted_stake_diff)
                .ok_or(ProgramError::AccountDataTooSmall)?;""","""            if mining
                .weighted_stake_diffs
                .insert(stake_expiration_date, weighted_stake_diff)
                .is_none()
            {
                if let Some((_, diff)) = mining.weighted_stake_diffs.iter_mut().rev().next() {
                    *diff = diff.safe_add(weighted_stake_diff)?;
                }
            }""")],
 "a participant with 50 pending expiry dates making a stake with a 51st",
 "the new expiry is merged into another date instead of the stake being refused",
'''
let mut h = H::new(1, 1);
for d in 0..50 {
    h.at(d, 100);
    h.deposit(0, 0, 10, Y1, 0);
}
h.at(50, 100);
let c = h.c_deposit(0, 0, 10, Y1, 0);
assert!(!h.run(c).ok);
''')

plant('full-index-ignored','C18',[(R+'state/reward_pool.rs',"""        cumulative_index
            .insert(date_to_process, latest_index)
            .ok_or(ProgramError::AccountDataTooSmall)?;
        *index_with_precision""","""        cumulative_index.insert(date_to_process, latest_index);
        *index_with_precision""")],
 "the 1096th day of distribution of a pool",
 "the distribution is accepted and taken off the reserve although no record of it is kept: nobody can claim it",
'''
let mut h = H::new(1, 1);
h.deposit(0, 0, 1000, Flex, 0);
h.fill(0, 1 << 40, 2000);
for d in 0..1095 {
    h.at(d, 100);
    h.dist(0);
}
let r = h.pool(0).reserve;
h.at(1095, 100);
let c = h.c_dist(0);
h.run(c);
assert_eq!(h.pool(0).reserve, r);
''')

plant('new-delegate-settle-skip','C12',[(R+'state/reward_pool.rs',"            new_delegate_mining.refresh_rewards(self.cumulative_index)?;\n","            if new_delegate_mining.mining.stake_from_others > 0 || new_delegate_mining.mining.share == 0 {\n                new_delegate_mining.refresh_rewards(self.cumulative_index)?;\n            }\n")],
 "a change of delegate to an account with own stake and nothing delegated yet, which has not been settled since the last distribution",
 "the new delegate is credited for the past with weight it did not have then",
'''
let mut h = H::new(1, 2);
h.deposit(0, 0, 1000, Flex, 0);
h.deposit(0, 1, 1000, Flex, 1);
h.fill(0, 1_000_000, 0);
h.dist(0);
h.at(1, 5);
let c = h.c_chdel(0, 0, 0, 1, 1000);
h.ok(c);
near(h.claim(0, 1), 500_000);
''')

plant('reopen-keeps','C19',[(R+'instructions/close_mining.rs',"    mining.assign(&system_program::id());\n    mining.realloc(0, false)","    if dest_starting_lamports > 0 {\n        mining.assign(&system_program::id());\n    }\n    mining.realloc(0, false)")],
 "an account closed to an empty target while somebody sends lamports to it in the same transaction",
 "the address stays owned by the program and can never be opened again",
'''
let mut h = H::new(1, 1);
let g = h.g.clone();
let mut ix = h.c_close(0, 0).raw();
let empty = solana_program::pubkey::Pubkey::new_from_array([77; 32]);
ix.accounts[2].pubkey = empty;
let gift = solana_program::system_instruction::transfer(&g.freezer(), &g.mining(0, 0), 5_000_000);
assert!(h.send(&[ix, gift]).ok);
h.init_mining(0, 0);
''')

plant('index-late-day','C03',[(R+'state/mining.rs',"            curr_ts.safe_add(1)?,","            if self.mining.unclaimed_rewards == 0 {\n                curr_ts.safe_add(1)?\n            } else {\n                curr_ts\n            },")],
 "a distribution made in the very first second of a day, after which the account is settled in that second with rewards already pending",
 "the settlement misses that day's distribution, so the claim pays less than it would have without the earlier settlement",
'''
let mut h = H::new(1, 1);
h.deposit(0, 0, 1000, Flex, 0);
h.fill(0, 1_000_000, 10);
h.dist(0);
h.at(1, 5);
h.deposit(0, 0, 1000, Flex, 0);
h.at(2, 0);
h.dist(0);
let first = h.claim(0, 0);
near(first, 1_000_000 - h.pool(0).reserve);
''')

plant('close-not-emptied','C16',[(R+'instructions/close_mining.rs',"    mining.assign(&system_program::id());\n    mining.realloc(0, false)","    if dest_starting_lamports == 0 {\n        mining.assign(&system_program::id());\n    }\n    Ok(())")],
 "a closing in a transaction that also sends lamports to the closed account",
 "the account survives the closing with everything in it",
'''
let mut h = H::new(1, 1);
let g = h.g.clone();
let gift = solana_program::system_instruction::transfer(&g.freezer(), &g.mining(0, 0), 50_000_000);
let c = h.c_close(0, 0).raw();
h.send(&[c, gift]);
let a = h.b.get(&g.mining(0, 0));
assert!(a.data.iter().all(|x| *x == 0) && a.owner == solana_program::system_program::id());
''')

plant('withdraw-last-unsettled','C02',[(R+'state/reward_pool.rs',"        mining.refresh_rewards(self.cumulative_index)?;\n\n        self.pool.total_share = self.pool.total_share.safe_sub(amount)?;","        if amount < mining.mining.share {\n            mining.refresh_rewards(self.cumulative_index)?;\n        }\n\n        self.pool.total_share = self.pool.total_share.safe_sub(amount)?;")],
 "a participant withdrawing its whole weight while rewards are owed and not settled yet",
 "what it earned before the withdrawal is lost",
'''
let mut h = H::new(1, 2);
h.deposit(0, 0, 1000, Flex, 0);
h.deposit(0, 1, 1000, Flex, 1);
h.fill(0, 1_000_000, 0);
h.dist(0);
h.at(1, 5);
h.withdraw(0, 0, 1000, 0);
near(h.claim(0, 0), 500_000);
''')



plant('old-delegate-unverified','C10',[(R+'instructions/change_delegate.rs',"    if let Some(old_delegate_mining) = old_delegate_mining {\n        let old","    if let (Some(old_delegate_mining), None) = (old_delegate_mining, new_delegate_mining) {\n        let old")],
 "a change from one delegate to another that names an old delegate's account of another pool",
 "delegated weight is taken off an account of another pool",
'''
let mut h = H::new(2, 3);
h.deposit(0, 0, 1000, Flex, 1);
h.deposit(1, 0, 1000, Flex, 1);
let g = h.g.clone();
let mut ix = h.c_chdel(0, 0, 1, 2, 1000).raw();
for m in ix.accounts.iter_mut() {
    if m.pubkey == g.mining(0, 1) {
        m.pubkey = g.mining(1, 1);
    }
}
assert!(!h.send(&[ix]).ok);
''')




plant('index-oldest-dropped','C18',[(R+'state/reward_pool.rs',"""        cumulative_index
            .insert(date_to_process, latest_index)
            .ok_or(ProgramError::AccountDataTooSmall)?;""","""        if cumulative_index.len() == crate::state::INDEX_HISTORY_MAX_SIZE {
            let oldest = cumulative_index.iter().next().map(|(date, _)| *date);
            if let Some(oldest) = oldest {
                cumulative_index.remove(&oldest);
            }
        }
        cumulative_index
            .insert(date_to_process, latest_index)
            .ok_or(ProgramError::AccountDataTooSmall)?;""")],
 "more than 1095 days of distribution plus a boosted stake whose end lies before the oldest kept day and that has not been settled since",
 "the participant loses what the boost earned",
"""
let mut h = H::new(1, 2);
h.deposit(0, 0, 1000, M3, 0);
h.deposit(0, 1, 1000, Flex, 1);
h.fill(0, 1 << 40, 3000);
let mut emitted = 0u64;
let mut first = 0u64;
for d in 0..1200 {
    h.at(d, 100);
    let r = h.pool(0).reserve;
    let c = h.c_dist(0);
    h.run(c);
    emitted += r - h.pool(0).reserve;
    if d < 90 {
        first = emitted;
    }
}
near(h.claim(0, 0), first / 3 * 2 + (emitted - first) / 2);
""")

plant('lookup-depth','C02',[(R+'state/mod.rs',"""    while current_id != SENTINEL {
        let node""","""    let mut depth = 0;
    while current_id != SENTINEL && depth < 10 {
        depth += 1;
        let node""")],
 "a pool with so many days of distribution that the tree of indexes is more than ten levels deep",
 "the latest day or days are not found when a participant is settled",
"""
let mut h = H::new(1, 1);
h.deposit(0, 0, 1000, Flex, 0);
h.fill(0, 1 << 40, 1000);
let all = h.pool(0).reserve;
for d in 0..900 {
    h.at(d, 100);
    h.dist(0);
}
near(h.claim(0, 0), all - h.pool(0).reserve);
""")

plant('return-u32','C11',[(R+'instructions/claim.rs',"    amount.serialize(&mut amount_writer)?;","    u64::from(amount as u32).serialize(&mut amount_writer)?;")],
 "a claim of 2^32 or more",
 "the amount reported to the calling program is not the amount paid",
"""
let mut h = H::new(1, 1);
h.deposit(0, 0, 1000, Flex, 0);
h.fill(0, 1 << 40, 0);
h.dist(0);
let c = h.c_claim(0, 0);
let before = h.vault(0);
let o = h.run(c);
assert!(o.ok);
let paid = before - h.vault(0);
let said = o.ret.expect("return data");
assert_eq!(u64::from_le_bytes(said[..8].try_into().unwrap()), paid);
""")

plant('add-saturates','C04',[(R+'utils.rs',"""        self.checked_add(amount)
            .ok_or(MplxRewardsError::MathOverflow)
    }

    fn safe_mul(&self, amount: u64)""","""        Ok(self.saturating_add(amount))
    }

    fn safe_mul(&self, amount: u64)""")],
 "a deposit whose own weight fits but with which the pool's total does not",
 "the deposit is accepted and the total is lower than the sum of the weights",
"""
let mut h = H::new(1, 2);
h.deposit(0, 0, u64::MAX / 3, Flex, 0);
h.deposit(0, 1, u64::MAX / 3, Flex, 1);
let c = h.c_deposit(0, 0, u64::MAX / 4, M3, 0);
let o = h.run(c);
assert!(!o.ok);
""")

plant('extend-shorter-refused','C17',[(R+'state/reward_pool.rs',"""        let curr_ts = get_curr_unix_ts();

        let deposit_old_expiration_ts""","""        let curr_ts = get_curr_unix_ts();
        if new_lockup_period != LockupPeriod::Flex && new_lockup_period < old_lockup_period {
            return Err(MplxRewardsError::InvalidLockupPeriod.into());
        }

        let deposit_old_expiration_ts""")],
 "an expired stake restaked for a shorter period than before",
 "the participant can no longer restake it for that period",
"""
let mut h = H::new(1, 1);
h.deposit(0, 0, 1000, Y1, 0);
let start = h.now();
h.at(400, 5);
let c = h.c_extend(0, 0, 0, Y1, M3, start, 1000, 0);
h.ok(c);
""")

plant('close-owner-is-target','C09',[(R+'instructions/close_mining.rs',"    let mining_owner = AccountLoader::next_signer(account_info_iter)?;","    let mining_owner = AccountLoader::next_unchecked(account_info_iter)?;"),
 (R+'instructions/close_mining.rs',"    let deposit_authority = AccountLoader::next_signer(account_info_iter)?;","    let deposit_authority = AccountLoader::next_signer(account_info_iter)?;\n    if target_account.key != mining_owner.key && !mining_owner.is_signer {\n        return Err(solana_program::program_error::ProgramError::MissingRequiredSignature);\n    }")],
 "a closing without the owner's signature that returns the lamports to the owner",
 "the pool's authority alone closes a participant's account",
"""
let mut h = H::new(1, 1);
let g = h.g.clone();
let mut ix = h.c_close(0, 0).raw();
ix.accounts[1].is_signer = false;
ix.accounts[2].pubkey = g.user(0);
assert!(!h.send(&[ix]).ok);
""")

plant('modify-missing-ok','C15',[(R+'state/reward_pool.rs',"            None => Err(MplxRewardsError::NoWeightedStakeModifiersAtADate),","            None => Ok(()),")],
 "an extension that names a stake which does not exist on that date",
 "it is accepted and takes weight off other stakes",
"""
let mut h = H::new(1, 1);
h.deposit(0, 0, 10_000, Y1, 0);
let start = h.now();
h.at(3, 5);
let c = h.c_extend(0, 0, 0, M3, M6, start, 1000, 0);
assert!(!h.run(c).ok);
""")

plant('fill-short-empty','C08',[(R+'instructions/fill_vault.rs',"""        let days_diff = distribution_ends_at_day_start
            .safe_sub(wrapped_reward_pool.pool.distribution_ends_at)?;
""","""        let days_diff = if wrapped_reward_pool.pool.tokens_available_for_distribution == 0 {
            wrapped_reward_pool.pool.distribution_ends_at = 0;
            distribution_ends_at_day_start
        } else {
            distribution_ends_at_day_start
                .safe_sub(wrapped_reward_pool.pool.distribution_ends_at)?
        };
""")],
 "a filling with an earlier end while the reserve is empty and the announced end lies in the future",
 "the announced end of the distribution moves back",
"""
let mut h = H::new(1, 1);
h.deposit(0, 0, 1000, Flex, 0);
h.fill(0, 7, 0);
h.dist(0);
assert_eq!(h.pool(0).reserve, 0);
h.fill(0, 1, 2);
h.at(1, 5);
h.dist(0);
assert_eq!(h.pool(0).reserve, 0);
let end = h.pool(0).ends;
let c = h.c_fill(0, 5, end - 86_400);
h.run(c);
assert_eq!(h.pool(0).ends, end);
""")

plant('rent-const','C19',[(R+'utils.rs',"    let required_lamports = Rent::get()?.minimum_balance(len);","    let required_lamports = Rent::default().minimum_balance(len);")],
 "a cluster on which storage does not cost what it costs by default",
 "accounts are created with too little (refused) or the payer is charged too much",
"""
let mut h = H::new(1, 2);
h.b.rent_rate = 1_000;
let g = h.g.clone();
let before = h.b.get(&g.payer()).lamports;
let m = h.b.accts.remove(&g.mining(0, 1)).unwrap();
h.init_mining(0, 1);
let need = h.b.rent().minimum_balance(m.data.len());
assert_eq!(before - h.b.get(&g.payer()).lamports, need);
""")

plant('year-cap','C07',[(R+'state/reward_pool.rs',"        if distribution_days_left == 0 {","        let distribution_days_left = distribution_days_left.min(365);\n        if distribution_days_left == 0 {")],
 "a distribution while the announced end is more than a year away",
 "the days left are counted as at most 365, so the reserve runs out before the announced end",
"""
let mut h = H::new(1, 1);
h.deposit(0, 0, 1000, Flex, 0);
h.fill(0, 400_000, 400);
h.at(0, 0);
h.dist(0);
assert_eq!(h.pool(0).reserve, 399_000);
""")

plant('repeat-after-end','C06',[(R+'state/reward_pool.rs',"        if self.cumulative_index.contains(&beginning_of_the_day) {","        if self.cumulative_index.contains(&beginning_of_the_day)\n            && (rewards == 0 || self.pool.distribution_ends_at > beginning_of_the_day)\n        {")],
 "the last day of the period: everything is distributed, the pool is filled again without prolonging it, and a second distribution is requested the same day",
 "the second distribution of that day takes effect",
"""
let mut h = H::new(1, 1);
h.deposit(0, 0, 1000, Flex, 0);
h.fill(0, 1_000, 0);
h.dist(0);
let c = h.c_fill(0, 500, h.t0);
h.ok(c);
let c = h.c_dist(0);
h.run(c);
assert_eq!(h.pool(0).reserve, 500);
""")

plant('last-day-early-expiry','C05',[(R+'state/reward_pool.rs',"""            self.consume_old_modifiers(beginning_of_the_day, self.pool.total_share)?;
        if self.cumulative_index.contains""","""            self.consume_old_modifiers(beginning_of_the_day, self.pool.total_share)?;
        if rewards == self.pool.tokens_available_for_distribution && rewards > 0 {
            // the reserve is used up: what expires before the next day can go now
            self.pool.total_share = self.consume_old_modifiers(
                beginning_of_the_day + SECONDS_PER_DAY,
                self.pool.total_share,
            )?;
        }
        if self.cumulative_index.contains""")],
 "the distribution that empties the reserve happens on the day before a boost expires",
 "the pool takes off the boosts that expire on the following day while their holders are still credited with them, so more is owed than was distributed",
"""
let mut h = H::new(1, 1);
h.deposit(0, 0, 1000, M3, 0);
h.fill(0, 1_000_000, 89);
h.at(89, 100);
h.dist(0);
h.at(89, 200);
near(h.claim(0, 0), 1_000_000);
""")

plant('slash-last-boost','C13',[(R+'state/reward_pool.rs',"""            *diff_record = diff_record.safe_sub(diff_by_expiration_date)?;

            let diff_record = self""","""            *diff_record = diff_record.safe_sub(diff_by_expiration_date)?;
            if *diff_record == 0 {
                mining
                    .weighted_stake_diffs
                    .remove(&beginning_of_the_stake_expiration_date);
                return Ok(());
            }

            let diff_record = self""")],
 "a slash that takes the whole boost a participant has on a day",
 "the pool's schedule keeps the decrease, and on the expiry day the pool loses weight that is no longer there",
"""
let mut h = H::new(1, 2);
h.deposit(0, 0, 1000, M3, 0);
h.deposit(0, 1, 5000, M6, 1);
let d = h.now() + 90 * DAY;
let c = h.c_slash(0, 0, 1000, 2000, Some(d));
h.ok(c);
h.fill(0, 1_000_000, 95);
h.at(95, 10);
h.dist(0);
h.at(95, 20);
near(h.claim(0, 1), 1_000_000);
""")

plant('penalty-seven','C14',[(R+'state/mining.rs',"in self.weighted_stake_diffs.iter_mut().rev() {","in self.weighted_stake_diffs.iter_mut().rev().take(7) {")],
 "a participant with more than seven days of expiry and a penalty larger than the boosts of the last seven",
 "the boosts beyond the seventh are left in place and reduce the weight a second time when they expire",
"""
let mut h = H::new(1, 1);
for d in 0..9u64 {
    h.at(d, 60);
    h.deposit(0, 0, 100, M3, 0);
}
let c = h.c_decrease(0, 0, 1700);
h.ok(c);
h.at(200, 60);
h.deposit(0, 0, 1, Flex, 0);
assert_eq!(h.mining(0, 0).share, 101);
""")

plant('expiry-forgets-delegated','C02',[(R+'state/mining.rs',"        let mut share = self.mining.share.safe_add(self.mining.stake_from_others)?;\n","        let mut share = self.mining.share;\n"),
 (R+'state/mining.rs',"            share,\n            &mut self.mining.unclaimed_rewards","            share.safe_add(self.mining.stake_from_others)?,\n            &mut self.mining.unclaimed_rewards"),
 (R+'state/mining.rs',"        self.mining.share = share.safe_sub(self.mining.stake_from_others)?;","        self.mining.share = share;")],
 "a delegate whose own boosted stake expires between a distribution and its next settlement",
 "for the distributions before the expiry the delegate is credited its own weight only",
"""
let mut h = H::new(1, 2);
h.deposit(0, 0, 1000, M3, 0);
h.deposit(0, 1, 2000, Flex, 0);
h.fill(0, 1_000_000, 10);
h.at(10, 60);
h.dist(0);
h.at(91, 60);
near(h.claim(0, 0), 666_666);
""")

plant('claim-exact-refused','C17',[(R+'instructions/claim.rs',"            let amount = wrapped_mining.mining.unclaimed_rewards;\n","            let amount = wrapped_mining.mining.unclaimed_rewards;\n            if amount > 0 && Account::unpack(&vault.data.borrow())?.amount <= amount {\n                return Err(MplxRewardsError::InvalidMining.into());\n            }\n"),
 (R+'instructions/claim.rs',"    state::{WrappedMining, WrappedRewardPool},","    error::MplxRewardsError,\n    state::{WrappedMining, WrappedRewardPool},")],
 "a claim of exactly everything the vault holds",
 "the claim is refused and the participant stuck until the pool is filled again",
"""
let mut h = H::new(1, 1);
h.deposit(0, 0, 1000, Flex, 0);
h.fill(0, 1_000_000, 0);
h.dist(0);
h.at(0, 5);
assert_eq!(h.claim(0, 0), 1_000_000);
""")

plant('delegate-other-pool','C10',[(R+'utils.rs',"            delegate,\n            reward_pool_key,\n            WrappedImmutableMining","            delegate,\n            if delegate == reward_pool_key {\n                reward_pool_key\n            } else {\n                &delegate_pool\n            },\n            WrappedImmutableMining"),
 (R+'utils.rs',") -> Result<(), ProgramError> {\n    if *delegate_mining.key\n",") -> Result<(), ProgramError> {\n    let delegate_pool = WrappedImmutableMining::from_bytes(&delegate_mining.data.borrow())?\n        .mining\n        .reward_pool;\n    if *delegate_mining.key\n")],
 "a deposit that names as delegate a genuine participant account of another pool",
 "it is accepted: weight held in one pool earns from the distributions of another",
"""
let mut h = H::new(2, 2);
h.deposit(0, 0, 1000, Flex, 0);
let g = h.g.clone();
let c = h.c_deposit(0, 0, 1000, Flex, 1);
let mut ix = c.raw();
for m in ix.accounts.iter_mut() {
    if m.pubkey == g.mining(0, 1) {
        m.pubkey = g.mining(1, 1);
    }
}
assert!(!h.send(&[ix]).ok);
""")

plant('extend-same-day','C15',[(R+'state/reward_pool.rs',"        // do actions like it's a regular deposit\n        let amount_to_restake","        // a stake that is less than a day old with the same lockup: only the additional tokens are new\n        if delegate_mining.is_none()\n            && old_lockup_period == new_lockup_period\n            && curr_ts < deposit_old_expiration_ts\n            && curr_ts.saturating_sub(deposit_start_ts) < SECONDS_PER_DAY\n        {\n            let weighted = base_amount.safe_mul(new_lockup_period.multiplier())?;\n            let diff = weighted.safe_sub(curr_part_of_weighted_stake_for_flex)?;\n            for old_diff in [\n                self.weighted_stake_diffs.get_mut(&deposit_old_expiration_ts),\n                mining.weighted_stake_diffs.get_mut(&deposit_old_expiration_ts),\n            ]\n            .into_iter()\n            .flatten()\n            {\n                *old_diff = old_diff.safe_add(diff)?;\n            }\n            mining.mining.share = mining.mining.share.safe_add(weighted)?;\n            self.pool.total_share = self.pool.total_share.safe_add(weighted)?;\n            return self.deposit(mining, additional_amount, new_lockup_period, None);\n        }\n\n        // do actions like it's a regular deposit\n        let amount_to_restake")],
 "an extension to the same lockup less than 24 hours after the stake was made, but after midnight",
 "the old part keeps its old expiry day instead of the new one",
"""
let mut h = H::new(1, 2);
h.at(0, 80_000);
h.deposit(0, 0, 1000, M3, 0);
h.deposit(0, 1, 1000, Flex, 1);
let start = h.now();
h.at(1, 100);
let c = h.c_extend(0, 0, 0, M3, M3, start, 1000, 0);
h.ok(c);
h.fill(0, 300, 91);
h.at(90, 100);
h.dist(0);
h.at(90, 200);
let got = h.claim(0, 0);
near(got, 2 * h.claim(0, 1));
""")

plant('return-before-retry','C11',[(R+'instructions/claim.rs',"            wrapped_mining.mining.claim();\n","            if amount < Account::unpack(&vault.data.borrow())?.amount {\n                wrapped_mining.mining.claim();\n            }\n")],
 "a claim of exactly everything the vault holds",
 "the amount stays owed after it was paid, and is paid again once the pool is filled",
"""
let mut h = H::new(1, 1);
h.deposit(0, 0, 1000, Flex, 0);
h.fill(0, 1_000_000, 0);
h.dist(0);
h.at(0, 5);
assert_eq!(h.claim(0, 0), 1_000_000);
h.at(1, 5);
h.fill(0, 1_000_000, 9);
assert_eq!(h.claim(0, 0), 0);
""")

plant('weight-after-penalty','C04',[(R+'state/reward_pool.rs',"        self.pool.total_share = self.pool.total_share.safe_sub(amount)?;\n        mining.mining.share = mining.mining.share.safe_sub(amount)?;\n","        mining.mining.share = mining.mining.share.safe_sub(amount)?;\n        if mining.mining.share > 0 || mining.mining.stake_from_others == 0 {\n            self.pool.total_share = self.pool.total_share.safe_sub(amount)?;\n        }\n")],
 "a participant who holds delegated weight withdraws the whole of its own stake",
 "the pool's total keeps the withdrawn weight, so distributions are no longer paid out completely",
"""
let mut h = H::new(1, 2);
h.deposit(0, 0, 1000, Flex, 0);
h.deposit(0, 1, 1000, Flex, 0);
h.withdraw(0, 0, 1000, 0);
h.fill(0, 1_000_000, 0);
h.dist(0);
h.at(0, 5);
let got = h.claim(0, 0) + h.claim(0, 1);
near(got, 1_000_000);
""")

plant('penalty-twenty','C14',[(R+'state/mining.rs',"in self.weighted_stake_diffs.iter_mut().rev() {","in self.weighted_stake_diffs.iter_mut().rev().take(20) {")],
 "a participant with more than twenty days of expiry and a penalty larger than the boosts of the last twenty",
 "the boosts beyond the twentieth are left in place and reduce the weight a second time when they expire",
"""
let mut h = H::new(1, 1);
for d in 0..22u64 {
    h.at(d, 60);
    h.deposit(0, 0, 100, M3, 0);
}
let c = h.c_decrease(0, 0, 4300);
h.ok(c);
h.at(200, 60);
h.deposit(0, 0, 1, Flex, 0);
assert_eq!(h.mining(0, 0).share, 101);
""")

plant('long-expired-kept','C05',[(R+'state/mining.rs',"            total_share = total_share.safe_sub(*modifier_diff)?;\n            processed","            if date.saturating_add(900 * SECONDS_PER_DAY) > beginning_of_the_day {\n                total_share = total_share.safe_sub(*modifier_diff)?;\n            }\n            processed")],
 "a participant that is settled for the first time more than 900 days after its boost expired",
 "the boost is dropped from the schedule but stays in the weight",
"""
let mut h = H::new(1, 1);
h.deposit(0, 0, 1000, M3, 0);
h.at(1000, 60);
h.deposit(0, 0, 1, Flex, 0);
assert_eq!(h.mining(0, 0).share, 1001);
""")

plant('trailing-bytes','C21',[(R+'instructions/mod.rs',"RewardsInstruction::try_from_slice(instruction_data)?","RewardsInstruction::deserialize(&mut &instruction_data[..])?")],
 "an instruction with further bytes after its data",
 "oversized data is accepted",
"""
let mut h = H::new(1, 1);
let mut ix = h.c_deposit(0, 0, 1000, Flex, 0).raw();
ix.data.push(0);
assert!(!h.send(&[ix]).ok);
""")

plant('dust-kept','C07',[(R+'state/reward_pool.rs',"        self.pool.tokens_available_for_distribution = self\n            .pool\n            .tokens_available_for_distribution\n            .safe_sub(rewards)?;","        // what the index cannot express stays in the reserve\n        let index = PRECISION\n            .safe_mul(u128::from(rewards))?\n            .safe_div(u128::from(self.pool.total_share))?;\n        let emitted = index\n            .safe_mul(u128::from(self.pool.total_share))?\n            .safe_add(PRECISION - 1)?\n            .safe_div(PRECISION)?;\n        self.pool.tokens_available_for_distribution = self\n            .pool\n            .tokens_available_for_distribution\n            .safe_sub(u64::try_from(emitted).unwrap_or(rewards))?;")],
 "a pool whose total weight exceeds 10^16",
 "the reserve decreases by less than the scheduled amount",
"""
let mut h = H::new(1, 1);
h.deposit(0, 0, 700_000_000_000_000_007, Flex, 0);
h.fill(0, 1_000, 0);
h.dist(0);
assert_eq!(h.pool(0).reserve, 0);
""")

plant('vault-of-authority','C08',[(R+'instructions/fill_vault.rs',"""        assert_account_key(
            vault,
            &Pubkey::create_program_address(vault_seeds, program_id)?,
        )?;
""","""        let expected = Pubkey::create_program_address(vault_seeds, program_id)?;
        let held = spl_token::state::Account::unpack(&vault.data.borrow())?;
        if held.owner != wrapped_reward_pool.pool.deposit_authority || held.mint != *reward_mint.key {
            assert_account_key(vault, &expected)?;
        }
"""),
 (R+'instructions/fill_vault.rs',"    program_error::ProgramError, pubkey::Pubkey,\n","    program_error::ProgramError, program_pack::Pack, pubkey::Pubkey,\n")],
 "a filling that names another token account of the pool's deposit authority, such as the vault of a second pool with the same authority and mint",
 "the tokens go elsewhere and the reserve grows all the same",
"""
let mut h = H::new(1, 1);
let g = h.g.clone();
// somebody gives the deposit authority a token account
let k = g.forged(1);
let a = h.b.get(&g.vault(0));
h.b.accts.insert(k, a);
let mut ix = h.c_fill(0, 1000, h.t0).raw();
for m in ix.accounts.iter_mut() {
    if m.pubkey == g.vault(0) {
        m.pubkey = k;
    }
}
assert!(!h.send(&[ix]).ok);
""")

plant('weight-of-one','C02',[(R+'state/mining.rs',"        let rewards = u64::try_from(","        if total_share <= 1 {\n            *index_with_precision = vault_index_for_date;\n            return Ok(());\n        }\n\n        let rewards = u64::try_from(")],
 "a participant whose whole weight is one",
 "it is credited nothing",
"""
let mut h = H::new(1, 2);
h.deposit(0, 0, 1, Flex, 0);
h.deposit(0, 1, 1, Flex, 1);
h.fill(0, 1_000_000, 0);
h.dist(0);
h.at(0, 5);
near(h.claim(0, 0), 500_000);
""")

plant('slash-end-of-day','C13',[(R+'state/reward_pool.rs',"                stake_expiration_date - (stake_expiration_date % SECONDS_PER_DAY);\n\n            let diff_by","                (stake_expiration_date + 59) - ((stake_expiration_date + 59) % SECONDS_PER_DAY);\n\n            let diff_by")],
 "a slash that names a time in the last minute of the expiry day",
 "the boost of the following day is reduced instead (or the slash refused)",
"""
let mut h = H::new(1, 1);
h.deposit(0, 0, 1000, M3, 0);
h.at(1, 5);
h.deposit(0, 0, 1000, M3, 0);
let c = h.c_slash(0, 0, 500, 1000, Some(h.t0 + 91 * DAY - 1));
h.ok(c);
let v: Vec<u64> = h.mining(0, 0).diffs.values().copied().collect();
assert_eq!(v, vec![500, 1000]);
""")

plant('zero-records-kept','C18',[(R+'state/reward_pool.rs',"            total_share = total_share.safe_sub(*modifier)?;\n            processed_dates.push(*date_to_process);","            if *modifier > 0 {\n                total_share = total_share.safe_sub(*modifier)?;\n                processed_dates.push(*date_to_process);\n            }")],
 "stakes without lockup made on more days than the pool has records for, over more than a year",
 "their records are never released, and in the end every stake on another day is refused",
"""
let mut h = H::new(1, 1);
for d in 0..380u64 {
    h.at(d, 60);
    h.deposit(0, 0, 10, Flex, 0);
}
""")

plant('penalised-records-kept','C18',[(R+'state/mining.rs',"            total_share = total_share.safe_sub(*modifier_diff)?;\n            processed_dates.push(*date);","            if *modifier_diff > 0 {\n                total_share = total_share.safe_sub(*modifier_diff)?;\n                processed_dates.push(*date);\n            }")],
 "a participant that stakes without lockup on more than fifty days",
 "the participant's records of the past are not released, and its next stake is refused",
"""
let mut h = H::new(1, 1);
for d in 0..60u64 {
    h.at(d, 60);
    h.deposit(0, 0, 10, Flex, 0);
}
""")

plant('missing-delegate-tolerated','C21',[(R+'instructions/deposit_mining.rs',"    let delegate_mining = AccountLoader::next_with_owner(account_info_iter, program_id)?;","    let delegate_mining = match AccountLoader::next_with_owner(account_info_iter, program_id) {\n        Err(solana_program::program_error::ProgramError::NotEnoughAccountKeys) => mining,\n        other => other?,\n    };")],
 "a deposit request from which the last account is missing",
 "a request with a missing account is accepted",
"""
let mut h = H::new(1, 2);
let mut ix = h.c_deposit(0, 0, 1000, Flex, 1).raw();
ix.accounts.pop();
assert!(!h.send(&[ix]).ok);
assert_eq!(h.pool(0).total, 0);
""")

plant('index-low-bits','C03',[(R+'state/mining.rs',"        *index_with_precision = vault_index_for_date;\n\n        Ok(())","        *index_with_precision = vault_index_for_date & !0xFFFF;\n\n        Ok(())")],
 "a participant with a weight above 2^40 that claims more often than it has to",
 "every additional settlement pays a part of an earlier distribution again",
"""
let mut h = H::new(1, 1);
h.deposit(0, 0, 1 << 50, Flex, 0);
h.fill(0, 1_000_001, 1);
h.dist(0);
near(h.claim(0, 0), 1_000_001 - h.pool(0).reserve);
let mut more = 0;
for _ in 0..10 {
    more += h.claim(0, 0);
}
assert_eq!(more, 0);
""")

plant('fill-resyncs','C01',[(R+'instructions/fill_vault.rs',"        wrapped_reward_pool.pool.tokens_available_for_distribution = wrapped_reward_pool\n            .pool\n            .tokens_available_for_distribution\n            .safe_add(rewards)?;","        // the first filling after the reserve has run out takes what is left in the vault along\n        if wrapped_reward_pool.pool.tokens_available_for_distribution == 0 {\n            wrapped_reward_pool.pool.tokens_available_for_distribution =\n                <spl_token::state::Account as solana_program::program_pack::Pack>::unpack(&vault.data.borrow())?.amount;\n        }\n        wrapped_reward_pool.pool.tokens_available_for_distribution = wrapped_reward_pool\n            .pool\n            .tokens_available_for_distribution\n            .safe_add(rewards)?;")],
 "a filling after everything has been distributed and before everything has been claimed",
 "unpaid rewards are distributed a second time, and the vault no longer covers what is owed",
"""
let mut h = H::new(1, 1);
h.deposit(0, 0, 1000, Flex, 0);
h.fill(0, 1_000_000, 0);
h.dist(0);
h.at(1, 5);
h.fill(0, 500, 3);
assert_eq!(h.pool(0).reserve, 500);
""")

plant('undelegate-last','C12',[(R+'state/reward_pool.rs',"                delegate_mining.mining.stake_from_others.safe_sub(amount)?;\n\n            self.pool.total_share = self.pool.total_share.safe_sub(amount)?;","                delegate_mining.mining.stake_from_others.safe_sub(amount)?;\n\n            if delegate_mining.mining.stake_from_others > 0 || amount < 2 {\n                self.pool.total_share = self.pool.total_share.safe_sub(amount)?;\n            }")],
 "the withdrawal of everything that is still delegated to somebody",
 "the pool's total keeps the delegated weight",
"""
let mut h = H::new(1, 2);
h.deposit(0, 0, 1000, Flex, 1);
h.withdraw(0, 0, 1000, 1);
assert_eq!(h.pool(0).total, 0);
""")

plant('fill-same-day-refused','C17',[(R+'instructions/fill_vault.rs',"        if distribution_ends_at_day_start < beginning_of_the_curr_day {","        let empty = wrapped_reward_pool.pool.tokens_available_for_distribution == 0;\n        if distribution_ends_at_day_start < beginning_of_the_curr_day\n            || (empty\n                && distribution_ends_at_day_start == beginning_of_the_curr_day\n                && wrapped_reward_pool.pool.distribution_ends_at == beginning_of_the_curr_day)\n        {")],
 "a further filling for the last day of the period, on that day, after everything has been distributed",
 "a valid filling is refused",
"""
let mut h = H::new(1, 1);
h.deposit(0, 0, 1000, Flex, 0);
h.fill(0, 1_000_000, 0);
h.dist(0);
h.fill(0, 500, 0);
assert_eq!(h.pool(0).reserve, 500);
""")

plant('endless-one','C17',[(R+'state/reward_pool.rs',"        for (date_to_process, modifier) in self.weighted_stake_diffs.iter() {\n            if date_to_process > &beginning_of_the_day {\n                break;\n            }\n\n            total_share = total_share.safe_sub(*modifier)?;\n            processed_dates.push(*date_to_process);\n        }","        let mut dates = self.weighted_stake_diffs.iter().peekable();\n        while let Some((date_to_process, modifier)) = dates.peek() {\n            if *date_to_process > &beginning_of_the_day {\n                break;\n            }\n\n            total_share = total_share.safe_sub(**modifier)?;\n            if **modifier != 1 || total_share == 0 {\n                processed_dates.push(**date_to_process);\n                dates.next();\n            } else {\n                total_share = total_share.safe_add(1)?;\n            }\n        }\n        drop(dates);")],
 "a boost of exactly one (a stake of one token for three months) that runs out while something else is in the pool",
 "every operation on the pool runs until its budget is used up from then on",
"""
let mut h = H::new(1, 2);
h.deposit(0, 0, 1, M3, 0);
h.deposit(0, 1, 1000, Flex, 1);
h.fill(0, 1_000_000, 200);
h.at(91, 5);
std::thread::spawn(|| {
    std::thread::sleep(std::time::Duration::from_secs(20));
    println!("does not come to an end");
    std::process::exit(1);
});
h.dist(0);
""")

plant('undelegate-unsigned','C09',[(R+'instructions/change_delegate.rs',"    let mining_owner = AccountLoader::next_signer(account_info_iter)?;","    let mining_owner = AccountLoader::next_unchecked(account_info_iter)?;"),
(R+'instructions/change_delegate.rs',"    if new_delegate_mining.key == old_delegate_mining.key {","    // taking a delegation back needs the authority only\n    if new_delegate_mining.key != mining.key && !mining_owner.is_signer {\n        return Err(solana_program::program_error::ProgramError::MissingRequiredSignature);\n    }\n\n    if new_delegate_mining.key == old_delegate_mining.key {")],
 "a delegation taken back without its owner's signature",
 "a stake changes its delegate without the owner's consent",
"""
let mut h = H::new(1, 2);
h.deposit(0, 0, 1000, Flex, 1);
let g = h.g.clone();
let mut ix = h.c_chdel(0, 0, 1, 0, 1000).raw();
for m in ix.accounts.iter_mut() {
    if m.pubkey == g.user(0) {
        m.is_signer = false;
    }
}
assert!(!h.send(&[ix]).ok);
assert_eq!(h.mining(0, 1).from_others, 1000);
""")

plant('distribute-by-filler','C09',[(R+'instructions/distribute_rewards.rs',"""    assert_account_key(
        distribute_authority,
        &wrapped_reward_pool.pool.distribute_authority,
    )?;
""","""    // the last distribution may be made by whoever filled the pool
    let last = wrapped_reward_pool.pool.distribution_ends_at <= crate::utils::get_curr_unix_ts();
    if !last || *distribute_authority.key != wrapped_reward_pool.pool.fill_authority {
        assert_account_key(
            distribute_authority,
            &wrapped_reward_pool.pool.distribute_authority,
        )?;
    }
""")],
 "a distribution requested by the fill authority once the distribution period has ended",
 "the fill authority can distribute",
"""
let mut h = H::new(1, 1);
h.deposit(0, 0, 1000, Flex, 0);
h.fill(0, 1_000_000, 2);
h.at(5, 5);
let g = h.g.clone();
let mut ix = h.c_dist(0).raw();
for m in ix.accounts.iter_mut() {
    if m.pubkey == g.dist(0) {
        m.pubkey = g.fill(0);
    }
}
assert!(!h.send(&[ix]).ok);
""")

plant('slash-takes-rewards','C13',[(R+'state/reward_pool.rs',"        self.withdraw(mining, slash_amount_multiplied_by_period, None)?;\n","        self.withdraw(mining, slash_amount_multiplied_by_period, None)?;\n        if mining.mining.share == 0 && mining.mining.stake_from_others == 0 {\n            mining.mining.unclaimed_rewards = 0;\n        }\n")],
 "a slash of everything a participant has, while rewards are owed to it and nothing is delegated to it",
 "what was earned before the slash is lost",
"""
let mut h = H::new(1, 2);
h.deposit(0, 0, 1000, Flex, 0);
h.deposit(0, 1, 1000, Flex, 1);
h.fill(0, 1_000_000, 0);
h.dist(0);
let c = h.c_slash(0, 0, 1000, 1000, None);
h.ok(c);
near(h.claim(0, 0), 500_000);
""")

plant('delegated-first','C14',[(R+'state/mining.rs',"        if decreased_weighted_stake_number > self.mining.share {\n            return Err(MplxRewardsError::DecreaseRewardsTooBig.into());\n        }","        if decreased_weighted_stake_number > self.mining.share {\n            // what others have delegated can be taken as well\n            let rest = decreased_weighted_stake_number - self.mining.share;\n            if rest > self.mining.stake_from_others {\n                return Err(MplxRewardsError::DecreaseRewardsTooBig.into());\n            }\n            self.mining.stake_from_others -= rest;\n            decreased_weighted_stake_number = self.mining.share;\n        }")],
 "a penalty larger than the participant's own weight, to which others have delegated",
 "a penalty that must be refused is accepted and takes delegated weight",
"""
let mut h = H::new(1, 2);
h.deposit(0, 1, 1000, Flex, 0);
h.deposit(0, 0, 10, Flex, 0);
let c = h.c_decrease(0, 0, 11).raw();
assert!(!h.send(&[c]).ok);
assert_eq!(h.mining(0, 0).from_others, 1000);
""")

plant('removal-order','C21',[(R+'state/reward_pool.rs',"        for date in processed_dates {\n            self.weighted_stake_diffs.remove(&date);","        let processed_dates: std::collections::HashSet<u64> = processed_dates.into_iter().collect();\n        for date in processed_dates {\n            self.weighted_stake_diffs.remove(&date);")],
 "boosts ending on several days are removed from the pool at once",
 "the bytes of the pool differ from one execution of the same request to the next",
"""
let mut h = H::new(1, 1);
for d in 0..30 {
    h.at(d, 5);
    h.deposit(0, 0, 1000, M3, 0);
}
h.fill(0, 1_000_000, 200);
h.at(150, 5);
let start = h.b.clone();
h.dist(0);
let one = h.b.accts[&h.g.pool(0)].data.clone();
for _ in 0..4 {
    h.b = start.clone();
    h.dist(0);
    assert!(one == h.b.accts[&h.g.pool(0)].data);
}
""")

plant('far-end-refused','C17',[(R+'instructions/fill_vault.rs',"        let days_diff =","        if distribution_ends_at_day_start > beginning_of_the_curr_day + 3650 * SECONDS_PER_DAY {\n            return Err(MplxRewardsError::DistributionInThePast.into());\n        }\n        let days_diff =")],
 "an announced end of the distribution more than ten years away",
 "a valid filling is refused",
"""
let mut h = H::new(1, 1);
h.deposit(0, 0, 1000, Flex, 0);
h.fill(0, 1_000_000, 4000);
h.dist(0);
assert_eq!(h.pool(0).reserve, 1_000_000 - 250);
""")

plant('days-low-bits','C07',[(R+'state/reward_pool.rs',"        if distribution_days_left == 0 {","        let distribution_days_left = distribution_days_left & 0xfff;\n        if distribution_days_left == 0 {")],
 "an announced end of the distribution more than 4095 days away",
 "the reserve is distributed over too few days",
"""
let mut h = H::new(1, 1);
h.deposit(0, 0, 1000, Flex, 0);
h.fill(0, 1_000_000, 5000);
h.dist(0);
assert_eq!(h.pool(0).reserve, 1_000_000 - 200);
""")

plant('slash-date-zero','C13',[(R+'state/reward_pool.rs',"        if let Some(stake_expiration_date) = stake_expiration_date {","        if let Some(stake_expiration_date) = stake_expiration_date.filter(|d| *d != 0) {")],
 "a slash whose expiry date is given as 0",
 "weight is removed without the boost that belongs to it instead of the request being refused",
"""
let mut h = H::new(1, 1);
h.deposit(0, 0, 1000, M3, 0);
let c = h.c_slash(0, 0, 10, 20, Some(0)).raw();
assert!(!h.send(&[c]).ok);
assert_eq!(h.pool(0).total, 2000);
""")

plant('fill-by-deposit-authority','C09',[(R+'instructions/fill_vault.rs',"    assert_account_key(fill_authority, &wrapped_reward_pool.pool.fill_authority)?;","    if *fill_authority.key != wrapped_reward_pool.pool.deposit_authority {\n        assert_account_key(fill_authority, &wrapped_reward_pool.pool.fill_authority)?;\n    }")],
 "a filling signed by the deposit authority with tokens of its own",
 "the deposit authority can fill the pool and prolong the period",
"""
let mut h = H::new(1, 1);
let g = h.g.clone();
let c = Call::Fill { pool: g.pool(0), mint: g.mint(0), auth: g.dep(0), source: g.stash(0, 0, 0), amount: 1, ends: h.t0 + 5000 * DAY };
h.run(c);
assert_eq!(h.pool(0).ends, 0);
""")

plant('leap-day','C05',[(R+'utils.rs',"            LockupPeriod::OneYear => Ok(beginning_of_the_day + SECONDS_PER_DAY * 365),","            LockupPeriod::OneYear => Ok(beginning_of_the_day\n                + SECONDS_PER_DAY * if beginning_of_the_day / SECONDS_PER_DAY % 1461 == 789 { 366 } else { 365 }),")],
 "a stake of one year that starts on a 29th of February",
 "the boost lasts a day longer",
"""
let mut h = H::new(1, 1);
// 29 February 2024
h.b.now = 19_782 * DAY as i64 + 77;
h.deposit(0, 0, 1000, Y1, 0);
assert_eq!(h.pool(0).diffs.keys().copied().collect::<Vec<_>>(), vec![(19_782 + 365) * DAY]);
""")

plant('fill-of-one','C08',[(R+'instructions/fill_vault.rs',"        wrapped_reward_pool.pool.tokens_available_for_distribution = wrapped_reward_pool\n            .pool\n            .tokens_available_for_distribution\n            .safe_add(rewards)?;","        if days_diff > 0 || rewards > 1 {\n            wrapped_reward_pool.pool.tokens_available_for_distribution = wrapped_reward_pool\n                .pool\n                .tokens_available_for_distribution\n                .safe_add(rewards)?;\n        }")],
 "a filling of a single token that leaves the end of the period where it is",
 "the token is received but never distributed",
"""
let mut h = H::new(1, 1);
h.fill(0, 1_000, 10);
h.fill(0, 1, 10);
assert_eq!(h.vault(0), 1_001);
assert_eq!(h.pool(0).reserve, 1_001);
""")

plant('small-slash-unsettled','C13',[(R+'state/reward_pool.rs',"        self.withdraw(mining, slash_amount_multiplied_by_period, None)?;\n","        if stake_expiration_date.is_none() || slash_amount_in_native > 3 {\n            self.withdraw(mining, slash_amount_multiplied_by_period, None)?;\n        } else {\n            mining.mining.share = mining\n                .mining\n                .share\n                .safe_sub(slash_amount_multiplied_by_period)?;\n            self.pool.total_share = self\n                .pool\n                .total_share\n                .safe_sub(slash_amount_multiplied_by_period)?;\n        }\n")],
 "a slash of at most three tokens of a locked stake after a distribution that has not been settled",
 "the slash also takes what the slashed weight had earned",
"""
let mut h = H::new(1, 1);
h.deposit(0, 0, 3, M3, 0);
h.fill(0, 1_000_000, 0);
h.dist(0);
let c = h.c_slash(0, 0, 3, 6, Some(h.t0 + 90 * DAY));
h.ok(c);
near(h.claim(0, 0), 1_000_000);
""")

plant('close-one-owed','C16',[(R+'instructions/close_mining.rs',"        if wrapped_mining.mining.unclaimed_rewards != 0 {","        if wrapped_mining.mining.unclaimed_rewards > 1\n            || (wrapped_mining.mining.unclaimed_rewards == 1 && wrapped_mining.mining.share > 0)\n        {")],
 "a participant who has taken everything out and to whom exactly one token is owed closes its account",
 "the account is closed and the token is lost",
"""
let mut h = H::new(1, 1);
h.deposit(0, 0, 1, Flex, 0);
h.fill(0, 1, 0);
h.dist(0);
h.withdraw(0, 0, 1, 0);
let c = h.c_close(0, 0).raw();
assert!(!h.send(&[c]).ok);
assert_eq!(h.claim(0, 0), 1);
""")

plant('close-unsigned-without-weight','C09',[(R+'instructions/close_mining.rs',"    let mining_owner = AccountLoader::next_signer(account_info_iter)?;","    let mining_owner = AccountLoader::next_unchecked(account_info_iter)?;\n    if !mining_owner.is_signer && mining.data.borrow()[112..120] != [0; 8] {\n        return Err(solana_program::program_error::ProgramError::MissingRequiredSignature);\n    }")],
 "the account of a participant without weight of its own is closed without the participant's signature",
 "somebody else can close the account",
"""
let mut h = H::new(1, 1);
let g = h.g.clone();
let mut ix = h.c_close(0, 0).raw();
for m in ix.accounts.iter_mut() {
    if m.pubkey == g.user(0) {
        m.is_signer = false;
    }
}
assert!(!h.send(&[ix]).ok);
""")

plant('single-token-pool','C17',[(R+'state/reward_pool.rs',"        if self.pool.total_share == 0 {\n            return Err","        if self.pool.total_share <= 1 {\n            return Err")],
 "a distribution to a pool whose only stake is a single token",
 "the distribution is refused",
"""
let mut h = H::new(1, 1);
h.deposit(0, 0, 1, Flex, 0);
h.fill(0, 1_000, 0);
h.dist(0);
near(h.claim(0, 0), 1_000);
""")

plant('js-fetch-order','C22',[(J+'accounts/mining.ts',"  return maybeAccounts.map((maybeAccount) => {\n    assertAccountExists(maybeAccount, 'Mining');","  return maybeAccounts.reverse().map((maybeAccount) => {\n    assertAccountExists(maybeAccount, 'Mining');")],
 "several participant accounts are fetched at once",
 "the JavaScript client answers in another order than it was asked",
"""//js
const acc = (n) => {
  const data = new Uint8Array(1776);
  data.set([n], 112);
  return { publicKey: key(n), exists: true, data, owner: client.MPLX_REWARDS_PROGRAM_ID };
};
const all = { [key(3)]: acc(3), [key(4)]: acc(4) };
const rpc = { getAccounts: async (ks) => ks.map((k) => all[k]) };
const got = await client.fetchAllMining({ rpc, programs }, [key(3), key(4)]);
equal(got.map((m) => Number(m.share)), [3, 4], 'weights');
""")

plant('js-slash-date-zero','C22',[(J+'instructions/slash.ts',"  const resolvedArgs: SlashInstructionArgs = { ...input };","  const resolvedArgs: SlashInstructionArgs = {\n    ...input,\n    stakeExpirationDate: (input.stakeExpirationDate || null) as any,\n  };")],
 "a slash whose expiry date is given as the number 0",
 "the JavaScript client builds a slash without a date: the program accepts what it would have refused",
"""//js
const input = { depositAuthority: signer(key(1)), rewardPool: key(2), mining: key(3), miningOwner: key(4), slashAmountInNative: 1, slashAmountMultipliedByPeriod: 2 };
const bytes = (d) => [...client.slash(ctx, { ...input, stakeExpirationDate: d }).getInstructions()[0].data].slice(49);
equal(bytes(5), [1, 5, 0, 0, 0, 0, 0, 0, 0], 'date 5');
equal(bytes(0), [1, 0, 0, 0, 0, 0, 0, 0, 0], 'date 0');
equal(bytes(null), [0], 'no date');
""")

plant('js-half-precision','C22',[(J+'instructions/depositMining.ts',"        ['amount', u64()],","        [\n          'amount',\n          mapSerializer(u64(), (x: any) => BigInt(Number(x))) as Serializer<\n            number | bigint,\n            bigint\n          >,\n        ],")],
 "a deposit of more than 2^53 tokens",
 "the JavaScript client rounds the amount",
"""//js
const input = { rewardPool: key(1), mining: key(2), depositAuthority: signer(key(3)), delegateMining: key(4), lockupPeriod: client.LockupPeriod.Flex, owner: key(5), miningOwner: key(5), delegate: key(5) };
const data = client.depositMining(ctx, { ...input, amount: (1n << 60n) + 1n }).getInstructions()[0].data;
equal([...data.slice(1, 9)], [1, 0, 0, 0, 0, 0, 0, 16], 'amount');
""")

plant('last-token-lost','C11',[(R+'state/mining.rs',"        self.mining.share = share.safe_sub(self.mining.stake_from_others)?;\n","        self.mining.share = share.safe_sub(self.mining.stake_from_others)?;\n        if self.mining.share == 0 && self.mining.unclaimed_rewards == 1 {\n            self.mining.unclaimed_rewards = 0;\n        }\n")],
 "exactly one token is owed to a participant without weight of its own when it is settled again",
 "the token is lost",
"""
let mut h = H::new(1, 1);
h.deposit(0, 0, 1, Flex, 0);
h.fill(0, 1, 0);
h.dist(0);
h.withdraw(0, 0, 1, 0);
assert_eq!(h.claim(0, 0), 1);
""")

plant('skim-on-undelegate','C12',[(R+'state/reward_pool.rs',"            old_delegate_mining.refresh_rewards(self.cumulative_index)?;\n","            old_delegate_mining.refresh_rewards(self.cumulative_index)?;\n            if old_delegate_mining.mining.unclaimed_rewards % 7 == 6 {\n                old_delegate_mining.mining.unclaimed_rewards -= 1;\n            }\n")],
 "a delegate whose earnings leave 6 when divided by 7 loses a stake delegated to it",
 "the delegate loses one token it has earned",
"""
let mut h = H::new(1, 2);
h.deposit(0, 0, 1, Flex, 1);
h.deposit(0, 1, 1, Flex, 1);
h.fill(0, 41, 0);
h.dist(0);
let c = h.c_chdel(0, 0, 1, 0, 1);
h.ok(c);
assert_eq!(h.claim(0, 1), 27);
""")

plant('client-first-amount','C20',[(C+'withdraw_mining.rs',"        self.amount = Some(amount);","        self.amount.get_or_insert(amount);")],
 "a withdrawal builder that is used again for another amount",
 "the builder keeps the first amount",
"""
let mut h = H::new(1, 1);
h.deposit(0, 0, 1000, Flex, 0);
let g = h.g.clone();
let mut b = rewards::instructions::WithdrawMiningBuilder::new();
b.reward_pool(g.pool(0)).mining(g.mining(0, 0)).deposit_authority(g.dep(0)).delegate_mining(g.mining(0, 0));
b.mining_owner(g.user(0)).delegate(g.user(0)).amount(3);
assert!(h.send(&[b.instruction()]).ok);
assert!(h.send(&[b.amount(10).instruction()]).ok);
assert_eq!(h.mining(0, 0).share, 987);
""")

# change lines added by a fix: commit, so they are not laid out in seeded/
UNCOUNTED = ['full-index-ignored', 'index-oldest-dropped', 'index-late-day', 'close-not-emptied', 'reopen-keeps', 'old-delegate-unverified', 'rent-const']
