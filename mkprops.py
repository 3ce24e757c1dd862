#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the wording lives in one place)."""
import json
P=[]
RP="programs/rewards/src/state/reward_pool.rs"; MI="programs/rewards/src/state/mining.rs"; ST="programs/rewards/src/state/mod.rs"
I="programs/rewards/src/instructions/"; U="programs/rewards/src/utils.rs"; A="programs/rewards/src/asserts.rs"
def p(id,title,statement,over,text,why,files,mech,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
H="histories";S="schedules";IN="inputs";F="fault_sequences";C="crash_points";G="configurations"
TE="The tests that run settle unit arithmetic on hand-made structs and two instruction round trips; no instruction logic is executed by the stable tests. "

p("C01","The vault always covers every unpaid reward plus the undistributed reserve",
 "At every moment the tokens held by a pool's vault are at least the sum of all rewards its participants could claim at that moment plus the part of the fillings that has not been distributed yet. Whatever the order in which the participants claim, every one of them is paid in full and the undistributed reserve is still in the vault afterwards.",
 [H,S,F],"every sequence of pool operations by any number of participants, at any times, with failed and aborted transactions in between, and every order of claims",
 TE+"A claim paid too much by one account is only visible when everybody else claims too.",
 [RP,MI,I+"claim.rs",I+"fill_vault.rs",I+"distribute_rewards.rs"],
 [("index accrual",MI),("distribution",RP),("payout",I+"claim.rs")])
p("C02","Every distribution is shared pro rata to the weight held at that distribution",
 "When a daily distribution happens, each participant becomes entitled to the distributed amount times its own weight (own weighted stake plus weight delegated to it, with every boost that has expired by that day already taken off) divided by the pool's total weight, up to rounding down. A deposit, withdrawal, extension, slash, penalty or change of delegate changes the shares of later distributions only, never of earlier ones. Nobody is credited for a distribution that happened while it had no weight.",
 [H,S],"every interleaving of distributions and weight changes of any number of participants, including several in the same second, at the first second of a day, and after arbitrarily long pauses without settlement",
 TE+"The amount depends on the whole history of weights between two settlements.",
 [RP,MI,ST],[("per-account settlement against the index history",MI),("index lookup limited by date",ST),("index growth",RP)])
p("C03","How often and when somebody claims does not change what is earned",
 "Two histories that differ only in extra claims by any participants pay every participant the same total, apart from rounding down once per settlement. In particular one participant's claims never change what another one earns.",
 [H,S],"every history and every set of extra claims inserted anywhere in it",
 "A test runs one history; the property compares two whole histories that differ in their settlement points.",
 [MI,I+"claim.rs",RP],[("lazy settlement",MI),("claim",I+"claim.rs")])
p("C04","The pool's total weight equals the sum of the participants' weights",
 "After every accepted operation the pool's total weight and its schedule of future decreases describe exactly the stakes in the pool: the total brought forward to any day equals the sum over participants of own weight on that day plus delegated weight, where a stake of N tokens weighs N times 1, 2, 4 or 6 (flex, three months, six months, one year) until it expires and N afterwards. The same holds for every single participant's weight and schedule. (Weight removed as a reward penalty leaves the participant only; the pool's total keeps it.)",
 [H,S,F],"every sequence of deposits, withdrawals, extensions, slashes, penalties, delegate changes and distributions, on any days, in any number of pools",
 TE+"The sum is over all accounts of a pool and only drifts over multi-step histories.",
 [RP,MI,U],[("weight and schedule updates",RP),("multipliers and periods",U)])
p("C05","A boost counts up to its expiry day and not from then on",
 "A stake made on some day with a lockup of three months, six months or one year keeps its multiplied weight for the distributions of the following 90, 180 or 365 days excluding the last, and counts once from the distribution of that expiry day on. This does not depend on whether or when the participant, the pool or anybody else was settled around the expiry, and expired boosts of several days are taken off one day at a time, each before the distribution of its own day is credited.",
 [H,S,IN],"every stake time (including the first and last second of a day), lockup, expiry, and every pattern of distributions and settlements before, on and after the expiry day",
 TE+"Only schedules in which settlements skip over expiry days tell the lazy computation from the eager one.",
 [MI,RP,U],[("consuming expired modifiers",MI),("consuming expired modifiers of the pool",RP),("expiry dates",U)])
p("C06","At most one distribution per day takes effect",
 "In every pool at most one distribution takes effect per calendar day (UTC), however often and by whichever route it is requested; a repeated request on the same day changes no balance, no entitlement and no reserve. A request on a later day is not suppressed by it.",
 [H,S,F],"every number, timing and transaction grouping of distribution requests, including retries after failures and requests around midnight",
 TE+"Repetition, retries and the clock have to be combined.",
 [RP,I+"distribute_rewards.rs"],[("day key in the index history",RP)])
p("C07","Each distribution emits exactly the scheduled amount",
 "A distribution emits the current reserve divided by the number of whole days left until the end of the distribution period, rounded down, and the whole reserve once less than one day is left; the reserve decreases by exactly that amount. Over the life of a pool the emitted amounts plus the remaining reserve equal the amounts filled in. With no weight in the pool nothing is emitted.",
 [H,S,IN],"every sequence of fillings and distributions, with missed days, prolonged periods, late distributions and extreme amounts",
 TE+"Conservation is over the whole life of a pool.",
 [RP,I+"distribute_rewards.rs",I+"fill_vault.rs"],[("amount per day",RP),("reserve update",RP)])
p("C08","Filling adds exactly the tokens received and only prolongs the period",
 "A filling moves exactly the stated amount from the filler's token account into the pool's vault and raises the distributable reserve by exactly that amount. It is refused if it is zero, would end before the current day, would shorten the distribution period, names another vault or mint, or cannot be paid. Nothing but a claim by a participant ever takes tokens out of a vault.",
 [H,IN,F],"every filling amount, end date, source account and authority (also when the pool's authority itself is the vault's token owner), and every other operation",
 TE+"Custody is a statement about all operations and all account combinations.",
 [I+"fill_vault.rs",I+"claim.rs",I+"initialize_pool.rs"],[("fill checks and transfer",I+"fill_vault.rs"),("vault ownership",I+"initialize_pool.rs")])
p("C09","Every operation needs the signatures of the roles it belongs to",
 "An operation is refused, without any effect, unless it is signed by the role it belongs to: the pool's deposit authority for deposits, withdrawals, extensions, slashes, penalties, delegate changes, closings and claims; the pool's distribution authority for distributions; the pool's fill authority for fillings; and in addition the participant itself for claims, closings and delegate changes. Signatures of the corresponding roles of another pool, or of any other key, never suffice.",
 [IN,H],"every operation in every reachable state, with any subset of signatures removed or replaced by those of other actors",
 TE+"Tests sign correctly; an attacker does not.",
 [I+"mod.rs",A,U],[("signer checks",U),("authority checks",A),("authority check of claims",I+"claim.rs")])
p("C10","Operations only act on the genuine accounts of one pool",
 "An operation is refused, without any effect, if any account it is given is not the genuine one: a participant account, vault or mint of another pool, another owner's participant account, an account of the wrong kind, size or program, an uninitialised account, or a delegate's account that is not that of the named delegate. An accepted operation changes only the accounts of the pool and participants it names, so no activity in one pool affects another.",
 [IN,H],"every operation in every reachable state, with any account replaced by any other existing or forged account, and any number of pools with shared or separate authorities",
 TE+"Needs several pools and hostile account lists in reachable states.",
 [A,U,I+"change_delegate.rs",I+"close_mining.rs",I+"claim.rs"],[("address derivation checks",A),("owner checks",U),("delegate account check",U)])
p("C11","A claim pays out everything owed, exactly once",
 "A claim transfers exactly the rewards the participant is owed at that moment from the vault to the participant's token account, reports that amount, and leaves nothing owed; claiming again before the next distribution pays nothing. A claim that fails at any point, or is part of a transaction that fails, pays nothing and loses nothing: the same amount is paid by the next successful claim.",
 [H,S,F,C],"every history of claims with frozen token accounts, failing transfers, aborted and repeated transactions at any point",
 TE+"Exactly-once is about failures between the transfer and the bookkeeping, and about repeats.",
 [I+"claim.rs",MI],[("payout and reset",I+"claim.rs"),("settlement",MI)])
p("C12","Delegated weight follows the stakes that are delegated",
 "A participant's delegated weight always equals the tokens of all stakes currently delegated to it by others, one unit per token whatever the lockup; it earns like own weight. Deposits, withdrawals and extensions of a delegated stake and changes of delegate move exactly that weight, crediting the old and the new delegate for the past with the weight they had then. A change to the same delegate, or one that would take more than was delegated, is refused.",
 [H,S],"every sequence of delegated and undelegated stakes among any number of participants with delegate changes (to, from and between others) interleaved with distributions",
 TE+"Needs three parties and distributions between the steps.",
 [RP,I+"change_delegate.rs",I+"deposit_mining.rs",I+"withdraw_mining.rs",I+"extend_stake.rs"],[("delegated weight updates",RP),("delegate verification",U)])
p("C13","Slashing removes exactly the slashed weight, and the boost with it",
 "Slashing removes exactly the given weight from the participant and the pool at once; for a stake still boosted, the matching part of the boost is also removed from the decrease scheduled for its expiry day, in the participant's and the pool's schedule, so that after expiry exactly the unslashed tokens count. Rewards earned before are kept. A slash exceeding the weight or the boost expiring on the given day is refused.",
 [H,S,IN],"every slash amount and expiry date (any second of the day) against any mixture of stakes, before and after expiry",
 TE+"The effect on the schedule is visible only on the expiry day.",
 [RP,I+"penalties/slash.rs"],[("slash",RP)])
p("C14","A reward penalty removes exactly the given weight and nothing earned",
 "A reward penalty reduces the participant's own weight by exactly the given amount for future distributions and leaves rewards earned so far untouched. It is taken from the boosts expiring last first, so no later expiry reduces the weight a second time or below the unboosted stakes that are left. A penalty larger than the participant's own weight is refused without effect.",
 [H,S,IN],"every penalty amount against any mixture of stakes with pending expiries, with unsettled distributions before it",
 TE+"Unit tests cover three amounts on one hand-made schedule and no settlement.",
 [MI,I+"penalties/decrease_rewards.rs"],[("decrease of weight and schedule",MI)])
p("C15","Extending a stake equals taking it out and staking it anew",
 "Extending a stake, with or without additional tokens, has the same effect on weights, expiry schedules, delegated weight and future rewards as removing the old stake as of now and depositing the combined amount with the new lockup today. This holds for running, just expired and long expired stakes, delegated or not. Extending a stake that does not exist, or exceeds the participant's weight, is refused without effect.",
 [H,S,IN],"every old and new lockup, start time, added amount and delegate, before, at and after the old expiry",
 TE+"An error appears at the old expiry day, months after the extension.",
 [RP,I+"extend_stake.rs"],[("extend",RP)])
p("C16","Closing an account is only possible when nothing is owed or delegated to it",
 "A participant account can be closed only with its owner's consent, in its own pool, when no rewards are owed to it (counting every distribution up to that moment) and no weight is delegated to it. Its deposit is returned in full to the named target and the account ceases to exist; opening the account again starts from zero.",
 [H,S,F],"every moment at which closing can be attempted, in particular with unsettled distributions, and every sequence of closing and opening again, also within one transaction",
 TE+"Owed rewards that are not settled yet are only there after particular histories.",
 [I+"close_mining.rs",I+"initialize_mining.rs"],[("close checks",I+"close_mining.rs")])
p("C17","Valid requests are always accepted: nobody gets stuck",
 "Every correctly authorised and affordable request is accepted in every reachable state: claims, deposits, withdrawals of unlocked stakes, extensions, slashes, penalties, delegate changes, fillings and distributions while there is weight, and closing once nothing is owed. In particular, once faults stop, every participant can withdraw, claim and close, whatever happened before.",
 [H,S,F],"every reachable state after any mixture of operations, faults, long pauses and repeated distributions; then a drain in which everybody leaves",
 TE+"An arithmetic failure deep in a settlement locks an account for ever; it takes a particular history to get there.",
 [RP,MI,ST,U],[("checked arithmetic",U),("settlement",MI),("weights",RP)])
p("C18","Bookkeeping that does not fit is refused, never silently dropped",
 "When an operation needs a record the fixed-size bookkeeping has no room for (expiry dates of a participant or pool, days of distribution), the operation is refused without effect; it is never accepted with the record missing. Records of the past are released so that a pool always has room for every day on which a stake made now can expire.",
 [H,IN],"histories with daily stakes of all lockups for more than a year, participants with more different expiry days than fit, and more than three years of daily distributions",
 "The limits are 50, 365 and 1095 records; no test comes near them.",
 [RP,MI,ST],[("capacities",ST),("inserting records",RP)])
p("C19","Accounts are initialised once, by anyone, from zero, and cannot be blocked",
 "A pool, its vault or a participant account is initialised at most once; initialising again is refused without effect. Nobody can prevent an initialisation by sending lamports to the address in advance, and the payer is charged no more than the deposit. A newly opened participant has no weight, no rewards and no part in earlier distributions.",
 [H,S,IN,F],"every order of initialisations, repetitions, prior funding and distributions",
 TE+"Prior funding and late joining after distributions are not tried.",
 [I+"initialize_pool.rs",I+"initialize_mining.rs",U],[("account creation",U),("once-only checks",I+"initialize_pool.rs")])
p("C20","The shipped builders and decoders agree with the program",
 "Every request built by the shipped Rust builders, and every cross-program call built by the shipped client, has the same effect as a request written out by hand from the program's documented interface, is accepted whenever that is and demands no signature or write access that one does not; accounts a caller may leave out default to the right ones, and further accounts a caller adds arrive with the flags it gave. The published interface description (IDL) describes exactly those requests, the stored accounts and the error codes, and the account decoders of the shipped client return the values that are stored; every error code means the same in the program, the IDL and the client.",
 [IN,H],"every operation with any arguments in every reachable state, and every reachable account content",
 "No test runs a built request of the generated client against the program, nor a decoder against reachable account content.",
 ["programs/rewards/src/instruction.rs","clients/rust/src/generated/instructions","clients/rust/src/generated/accounts","clients/rust/src/generated/errors","clients/rust/src/lib.rs","idls/mplx_rewards.json"],[("builders","programs/rewards/src/instruction.rs"),("generated client","clients/rust/src/generated")])
p("C21","A request takes effect completely or not at all, and deterministically",
 "A transaction that is refused, fails in a later instruction, loses a cross-program call or is aborted at any point leaves all accounts exactly as they were. Executing the same accepted transactions from the same state at the same times always gives the same state. Malformed requests (truncated or oversized data, unknown operations, missing accounts) are refused without effect.",
 [F,C,H,IN],"every transaction, every point at which it can be aborted, every malformed encoding",
 TE+"Needs failures injected inside an instruction.",
 ["programs/rewards/src/entrypoint.rs",I+"mod.rs",I+"claim.rs",I+"fill_vault.rs"],[("dispatch",I+"mod.rs"),("entrypoint","programs/rewards/src/entrypoint.rs")])
p("C22","The JavaScript client agrees with the program",
 "Every request built by the shipped JavaScript client, with its optional accounts given or left to their defaults, has the effect of the same request written out by hand, is accepted whenever that is and demands no signature or write access that one does not; its account readers return the values that are stored, its account searches find exactly the accounts with the given value in a field, and its error codes mean what they mean in the program.",
 [IN,H],"every operation with any arguments in every reachable state, every reachable account content, every error code",
 "Its tests need a validator, are commented out, and are not run.",
 ["clients/js/src/generated/instructions","clients/js/src/generated/accounts","clients/js/src/generated/errors","clients/js/src/generated/types","clients/js/src/generated/shared","clients/js/src/plugin.ts"],[("generated client","clients/js/src/generated"),("plugin","clients/js/src/plugin.ts")])
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
