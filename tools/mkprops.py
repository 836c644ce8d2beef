#!/usr/bin/env python3
# Writes properties.jsonl from one table (kept here so that the wording is edited in one place).
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state], observe_at=list(observe), hook_needed=None)))
H, I, F, S, C = 'histories', 'inputs', 'fault_sequences', 'schedules', 'configurations'

SP = ['staking-pool/src/lib.rs', 'staking-pool/src/internal.rs']
prop('P01', "Staking pool: delegators' funds are conserved and always covered",
 "A delegator's unstaked, staked and total balances change exactly by what they deposit, stake, unstake and withdraw (plus rewards): a deposit adds exactly its amount, a payout equals exactly the amount deducted, and nobody's action lowers anybody else's total balance. What the pool owes to all accounts together never exceeds the tokens it holds (liquid plus locked). A call that fails leaves every balance as it was and returns the attached deposit.",
 [H, I], "every sequence of deposits, stakes, unstakes, withdrawals, pings, rewards and stake outcomes, by any number of accounts, with any amounts",
 "The unit tests walk a few fixed sequences with round amounts; conservation must hold for every interleaving of users, amounts and rewards.",
 SP, [('internal_deposit/internal_withdraw/internal_stake/inner_unstake', SP[1])],
 [('accounts', 'per-account unstaked amount, shares and unlock epoch', SP[0]), ('last_total_balance', 'books of the whole account', SP[0])],
 ['get_account', 'get_accounts', 'get_total_staked_balance', 'transfers out of the pool'])
prop('P02', "Staking pool: share price never falls and rounding never costs a delegator",
 "The price of a stake share (total staked balance per share) is at least 1 and never decreases, whatever is staked, unstaked or earned. Whoever stakes an amount can at once unstake at least what they were charged, and is charged no more than what they asked to stake; whoever unstakes an amount receives at least that amount.",
 [H, I], "every reachable total stake, share count and requested amount, including tiny and huge ones",
 "A simulated test checks the price on a few sequences of whole-NEAR amounts, where almost every division is exact; only adversarial amounts exercise the rounding.",
 SP, [('rounding direction of share/amount conversions, guarantee fund', SP[1])], [('total_staked_balance, total_stake_shares', 'define the share price', SP[0])], ['get_account', 'get_total_staked_balance'])
prop('P03', "Staking pool: rewards are distributed once per epoch, fee first, rest pro rata",
 "When the pool first acts in a new epoch it credits exactly the tokens that appeared on its account since its books were last settled, not counting any attached deposit or earlier deposits and withdrawals. The owner gets the configured fraction of that (rounded down, as stake at the resulting price) and everything else raises all delegators' stake in proportion to their shares; unstaked balances earn nothing. Within an epoch nothing is distributed again.",
 [H, I, S], "every pattern of rewards, donations, returned transfers and calls per epoch, any fee fraction in [0,1]",
 "Tests distribute one round reward with one fee; they do not vary which call is the first of an epoch, its attached deposit, the fraction, or several epochs passing.",
 SP, [('internal_ping', SP[1])], [('last_epoch_height, last_total_balance', 'when and to what the books were settled', SP[0])], ['get_account', 'get_total_staked_balance'])
prop('P04', "Staking pool: unstaked tokens are withdrawable after exactly four epochs",
 "After an account unstakes, none of its unstaked balance can be withdrawn during the following three epochs, and all of it can from the fourth epoch on, paid out exactly and only to that account. A later unstake by the same account restarts the delay; staking, depositing, or anything other accounts do changes nobody's delay.",
 [H, S], "every timing of unstake, deposit, stake, withdraw and epoch changes by several accounts",
 "The tests check one delay for one account; overlapping unstakes, epoch jumps and partial withdrawals are not tried.",
 SP, [('NUM_EPOCHS_TO_UNLOCK, internal_withdraw', SP[1])], [('unstaked_available_epoch_height', 'first epoch with withdrawal', SP[0])], ['get_account.can_withdraw', 'withdraw', 'withdraw_all'])
prop('P05', "Staking pool: only the owner configures it, and only validly",
 "Only the owner account can change the staking key or the reward fee, pause or resume staking, or vote on behalf of the pool; every such call by anybody else fails and changes nothing. The reward fee is always a fraction with a positive denominator between 0 and 1, pausing needs a running pool and resuming a paused one, and money-handling calls that are not meant to take a deposit refuse one.",
 [I, H, C], "every caller, argument and state", "Tests call a few owner methods as one non-owner; not each method in each state with each kind of invalid argument.",
 SP, [('assert_owner, RewardFeeFraction::assert_valid', SP[0])], [('owner_id, reward_fee_fraction, stake_public_key, paused', 'configuration', SP[0])], ['get_owner_id', 'get_reward_fee_fraction', 'get_staking_key', 'is_staking_paused'])
prop('P06', "Staking pool: the validator stake follows the books, pause and failures",
 "Unless paused, every stake, unstake, key change, resume and first call of an epoch issues one stake action for the whole current staked balance with the current staking key; pausing issues a stake of zero and while paused no other stake action is issued. When a stake action fails while tokens are locked, the pool reacts with a stake of zero, and when it succeeds the pool does nothing more.",
 [S, F, H], "every interleaving of calls with pending stake actions and their callbacks, each of which may fail",
 "Unit tests run one contract call at a time in a mocked context and never execute the resulting receipts, let alone fail them or interleave them.",
 SP, [('internal_restake, on_stake_action, pause_staking, resume_staking', SP[0])], [('paused', 'whether staking is on', SP[0])], ['stake receipts created by the contract'])

LF = ['lockup/src/lib.rs', 'lockup/src/internal.rs', 'lockup/src/getters.rs', 'lockup/src/owner.rs', 'lockup/src/owner_callbacks.rs', 'lockup/src/foundation.rs', 'lockup/src/foundation_callbacks.rs', 'lockup/src/types.rs', 'lockup/src/gas.rs']
prop('L01', "Lockup: locked tokens cannot be transferred out by the owner",
 "Whatever the owner does, in whatever order remote calls finish or fail, the tokens transferred out of the lockup contract to the owner's chosen receivers never exceed what is liquid: the owner's total (contract balance plus tokens known to be at the staking pool, minus the 3.5 NEAR kept for storage) never drops below the amount still locked or unvested because of a transfer. A transfer is possible only when transfers are enabled, no termination is in progress, the amount fits both the liquid amount and the account balance, and then pays exactly that amount to exactly that receiver.",
 [H, S, F, I], "every history of owner, foundation and staking pool activity, every order of callbacks, every amount and time",
 "Tests script single flows with every promise result hand-fed; they cannot show that no interleaving of pool operations, rewards, termination and time lets locked tokens out.",
 [LF[0], LF[2], LF[3]], [('transfer, get_liquid_owners_balance', LF[3])], [('lockup_information, staking_information', 'what is locked; what is at the pool', LF[7])], ['transfer', 'get_liquid_owners_balance', 'get_balance', 'get_owners_balance'])
prop('L02', "Lockup: locked and unvested amounts follow the schedules exactly",
 "At any time the locked amount is the larger of the unvested amount (zero before the cliff's vesting, linear from start to end, nothing after) and the lockup amount still locked (all of it until the lockup duration or timestamp is over, then linearly released over the release duration when there is one, and counted from when transfers were enabled), less what termination has withdrawn. Until transfers are enabled everything is locked. The locked amount never increases as time passes.",
 [I, C], "every schedule (with or without duration, timestamp, release, vesting, cliff) and every point in time, including boundaries",
 "Tests check a handful of dates of a few schedules; boundaries, combinations of vesting with release and big numbers are not covered.",
 [LF[2], LF[1], LF[7]], [('get_locked_amount, get_unvested_amount', LF[2])], [('lockup_information, vesting_information', 'schedules', LF[7])], ['get_locked_amount', 'get_unvested_amount', 'get_vesting_information', 'get_lockup_*'])
prop('L03', "Lockup: vesting termination gives the foundation exactly the unvested tokens",
 "Once the foundation terminates vesting, the amount to return is fixed at the tokens unvested at that moment, it is first collected from the staking pool when the liquid balance does not cover it (unstake, then withdraw), and then paid to the receiver named by the foundation, never more than is available above the 3.5 NEAR storage reserve, until all is paid. From termination until that is complete the owner can neither transfer nor use the staking pool; afterwards the vested rest is the owner's as before. A failed step at the pool or a failed payment leaves the process where it can be retried, with nothing lost.",
 [H, S, F], "every stake/unstake state at the time of termination, every failure of a pool call or of the transfer, every interleaving with the owner",
 "Tests drive one full termination with successful promises; failing steps, repeated partial withdrawals and owner interference in between are not enumerated.",
 [LF[5], LF[6]], [('terminate_vesting, termination_prepare_to_withdraw, termination_withdraw and callbacks', LF[5])], [('vesting_information (Terminating), termination_withdrawn_tokens', 'progress of the termination', LF[7])], ['get_termination_status', 'get_terminated_unvested_balance', 'get_terminated_unvested_balance_deficit'])
prop('L04', "Lockup: one staking pool operation at a time, and the books follow its outcome",
 "While a staking pool operation is in flight no other pool operation, unselection or full-access-key grant can start; every operation, whether the pool call succeeds or fails, ends with the contract able to start the next one. The deposit known to be at the pool grows by a deposit exactly when the pool accepted it and shrinks exactly by what was withdrawn (refreshed balances are taken from the pool), so that a failed operation changes no books and loses no tokens.",
 [S, F, H], "every interleaving of owner calls with pool calls and their callbacks, each of which may fail",
 "Tests call callbacks by hand in the expected order; no test issues an operation while another is in flight or fails each step of each operation.",
 [LF[3], LF[4]], [('set_staking_pool_status, assert_staking_pool_is_idle, on_staking_pool_*', LF[4])], [('staking_information.status, deposit_amount', 'busy flag; known deposit', LF[7])], ['get_known_deposited_balance', 'calls to the staking pool'])
prop('L05', "Lockup: tokens go only to a whitelisted staking pool chosen by the owner",
 "The contract sends tokens to a staking pool only after the owner selected it and the whitelist contract confirmed it; while a pool is selected another cannot be selected, and it can be unselected only when no deposit is known to be there. A negative or failed whitelist answer leaves no pool selected.",
 [S, F, H], "every order of selection, whitelist answer and other calls", "Tests cover one successful and one refused selection.",
 [LF[3], LF[4]], [('select_staking_pool, on_whitelist_is_whitelisted, unselect_staking_pool', LF[4])], [('staking_information', 'the selected pool', LF[7])], ['get_staking_pool_account_id', 'calls to the whitelist and pool'])
prop('L06', "Lockup: transfers are enabled only by the poll, once, with its timestamp",
 "A lockup created with transfers disabled gets them enabled only when the transfer poll contract it was created with reports a result, and then with exactly the reported timestamp; no reply or a failed call leaves them disabled. Once enabled they stay enabled with the same timestamp.",
 [S, F, H], "every answer and order of checks", "Tests feed one answer; repeated checks, failures and answers arriving late are not tried.",
 [LF[3], LF[4]], [('check_transfers_vote, on_get_result_from_transfer_poll', LF[4])], [('transfers_information', 'enabled or by poll', LF[7])], ['are_transfers_enabled', 'get_locked_amount'])
prop('L07', "Lockup: a full access key is granted only when nothing is locked any more",
 "The owner can add a full access key to the lockup account exactly when transfers are enabled, no tokens are locked or unvested, no termination is in progress and no staking pool operation is in flight. In every other case the call fails and no key is added.",
 [H, S, I], "every reachable combination of schedules, time, termination and pool state", "One test adds a key at the end of one schedule.",
 [LF[3], LF[1]], [('add_full_access_key', LF[3])], [], ['AddKey actions of the contract'])
prop('L08', "Lockup: only owner and foundation act, each within their role",
 "Only the owner can call the owner's methods and only the foundation account set at creation can terminate vesting or withdraw terminated tokens; without a foundation account nobody can. A private vesting schedule can be revealed only with the schedule and salt matching the committed hash, and creation refuses inconsistent parameters (invalid accounts, vesting without foundation, cliff outside start and end, and so on).",
 [I, C, H], "every method, caller, state and creation parameter", "Tests try some methods as a wrong caller and one wrong hash.",
 LF[:2] + [LF[5], LF[7]], [('assert_owner, assert_called_by_foundation, assert_vesting', LF[1])], [], ['every call', 'get_owner_account_id', 'get_foundation_account_id'])

M1 = ['multisig/src/lib.rs']
prop('M01', "Multisig: a request runs once, exactly as asked, after K confirmations",
 "A multisig request is executed exactly when it has been confirmed by the required number of distinct access keys, at once, exactly once, with exactly the requested receiver and actions in their order, and then it and its confirmations are gone. A key cannot confirm the same request twice, and below the threshold a confirmation only adds itself.",
 [H, I, S], "every set of keys, threshold, request and order of confirmations", "Tests confirm one or two requests with fixed keys.",
 M1, [('confirm, execute_request', M1[0])], [('requests, confirmations', 'pending requests and who confirmed', M1[0])], ['get_request', 'get_confirmations', 'receipts created by the contract'])
prop('M02', "Multisig: only the account's own keys act; limits and cooldowns hold",
 "Requests can be added, confirmed and deleted only through the account's own transactions; each key can have at most the configured number of unexecuted requests, which are counted exactly (released when a request is executed or deleted). A request can be deleted only after the 15 minute cooldown, request ids are never reused, self-configuration (keys, threshold, limit) is possible only through a confirmed request to itself, and deleting a key removes the requests it added.",
 [H, I, S], "every interleaving of additions, confirmations, deletions, key changes and time", "Tests try one limit and one cooldown on one request.",
 M1, [('add_request, delete_request, assert_valid_request', M1[0])], [('num_requests_pk, request_nonce', 'per-key count; next id', M1[0])], ['get_num_requests_per_pk', 'list_request_ids', 'get_request_nonce', 'get_num_confirmations'])
M2 = ['multisig2/src/lib.rs']
prop('Q01', "Multisig2: a request runs once, exactly as asked, after K member confirmations",
 "A request is executed exactly when it has been confirmed by the required number of distinct members (access keys or accounts), at once, exactly once, with exactly the requested receiver and actions in their order, and then it and its confirmations are gone. A member cannot confirm the same request twice, and nobody who is not a member can add, confirm or delete anything.",
 [H, I, S], "every membership, threshold, request and order of confirmations", "Tests confirm a few requests with fixed members.",
 M2, [('confirm, execute_request, assert_valid_request, current_member', M2[0])], [('members, requests, confirmations', 'who may act; what is pending', M2[0])], ['get_request', 'get_confirmations', 'get_members', 'receipts created by the contract'])
prop('Q02', "Multisig2: membership, threshold, request limit and cooldown are kept",
 "Members and the threshold change only through confirmed requests of the contract to itself, members can never be fewer than the threshold by deletion, deleting a member removes the requests it added and its access key, and adding a key member grants it exactly the contract's own methods. Each member can have at most the configured number of unexecuted requests, counted exactly; requests can be deleted only after the 15 minute cooldown, and request ids are never reused.",
 [H, I, S], "every interleaving of requests, confirmations, deletions, membership changes and time", "Tests add and delete one member, and hit the limit and the cooldown once.",
 M2, [('add_member, delete_member, delete_request, add_request', M2[0])], [('num_requests_pk', 'per-member count', M2[0])], ['get_members', 'get_num_requests_per_member', 'list_request_ids', 'get_num_confirmations', 'AddKey/DeleteKey actions'])

V = ['voting/src/lib.rs']
prop('V01', "Voting: the proposal passes exactly when more than two thirds of stake votes yes",
 "A result appears exactly at the first moment at which the stake of the accounts voting yes is more than two thirds of the total stake, carries the block time of that moment, and never changes or disappears afterwards. Once there is a result every further vote or ping fails.",
 [H, I], "every distribution of stake, vote, withdrawal and epoch change", "Tests use a few validators with equal stake; the boundary at exactly two thirds and stake changes between epochs are barely reached.",
 V, [('check_result, vote, ping', V[0])], [('result', 'time of passing', V[0])], ['get_result', 'get_total_voted_stake'])
prop('V02', "Voting: each validator counts once, with its current stake",
 "Each account's vote counts exactly its stake as of the last refresh: voting again replaces its earlier stake, withdrawing removes exactly it, and an account without stake cannot vote. On the first vote or ping of an epoch all recorded votes are refreshed to the validators' current stakes.",
 [H, I], "every sequence of votes, withdrawals, stake changes and epochs", "Tests change stake once for equal validators.",
 V, [('vote, ping', V[0])], [('votes, total_voted_stake', 'stake of each yes vote; their sum', V[0])], ['get_votes', 'get_total_voted_stake'])
prop('W01', "Whitelist: only the foundation and whitelisted factories whitelist pools",
 "A staking pool becomes whitelisted only by a call of the foundation account or of a factory that is whitelisted at that moment, and stops being so only by the foundation; the set of factories is changed only by the foundation. Every other call fails and changes nothing, and each change reports whether the entry was new or present.",
 [H, I], "every sequence of calls by anyone about any account", "Tests cover a few calls by fixed accounts.",
 ['whitelist/src/lib.rs'], [('add_staking_pool, remove_staking_pool, add_factory, remove_factory', 'whitelist/src/lib.rs')], [('whitelist, factory_whitelist', 'the sets', 'whitelist/src/lib.rs')], ['is_whitelisted', 'is_factory_whitelisted'])
FF = ['staking-pool-factory/src/lib.rs', 'staking-pool-factory/src/utils.rs']
prop('F01', "Staking pool factory: creates, whitelists and refunds atomically",
 "Creating a pool needs at least 30 NEAR, a new id without a dot, a valid owner, key and fee, and deploys the staking pool code at id.factory with the whole attached deposit and exactly the requested owner, key and fee. The pool is reported to the whitelist exactly when its creation succeeded; when it failed, the id becomes free again and the whole deposit goes back to the caller. The factory lists exactly the pools being created or created.",
 [H, S, F, I], "every order of several creations and their callbacks, success or failure, and every argument", "Tests hand-feed one success and one failure.",
 FF, [('create_staking_pool, on_staking_pool_create', FF[0])], [('staking_pool_account_ids', 'pools created', FF[0])], ['get_number_of_staking_pools_created', 'receipts created'])
LFF = ['lockup-factory/src/lib.rs', 'lockup-factory/src/types.rs', 'lockup-factory/src/utils.rs']
prop('F02', "Lockup factory: lockups get exactly the requested terms, or a refund",
 "Creating a lockup needs at least 3.5 NEAR and a valid owner, deploys the lockup code with the whole attached deposit at the account named by the first 40 hex digits of the SHA-256 of the owner's id under the factory, and initialises it with exactly the requested schedule, the configured or requested whitelist and the fixed time at which transfers were enabled; the foundation account is set exactly when there is a vesting schedule. When creation fails the whole deposit goes back to the caller.",
 [I, F, C], "every combination of optional arguments, owners and outcomes", "Tests create one lockup of each kind with success.",
 LFF, [('create, on_lockup_create', LFF[0])], [('whitelist_account_id, foundation_account_id', 'configuration', LFF[0])], ['receipts created', 'get_*'])
prop('F03', "Multisig factory: deploys the multisig with the requested members",
 "Creating a multisig deploys the multisig code at name.factory with the whole attached deposit and initialises it with exactly the requested members and number of confirmations, in one atomic batch. When creation fails nothing is created and the whole deposit goes back to the caller.",
 [I, C], "every name, member list, threshold and deposit", "There are no tests of the factory.",
 ['multisig-factory/src/lib.rs'], [('create', 'multisig-factory/src/lib.rs')], [], ['receipts created'])
WN = ['w-near/src/lib.rs', 'w-near/src/w_near.rs', 'w-near/src/legacy_storage.rs']
prop('N01', "wNEAR: every token is backed by one NEAR and goes back out at par",
 "The total supply always equals the sum of all balances and is covered by the NEAR the contract holds. Depositing mints exactly the attached amount (less the storage fee when it registers the account), withdrawing needs one attached yocto, burns exactly the amount and pays it back with that yocto to the caller, and fails when the balance is too small.",
 [H, I, F], "every history of deposits, withdrawals, transfers and registrations by any accounts with any amounts", "Simulation tests deposit and withdraw once.",
 WN, [('near_deposit, near_withdraw', WN[1])], [('token', 'balances and supply', WN[0])], ['ft_total_supply', 'ft_balance_of', 'transfers out'])
prop('N02', "wNEAR: transfers move exactly the amount, and unused amounts come back",
 "A transfer needs one attached yocto, a positive amount, a registered receiver other than the sender and a sufficient balance, and then moves exactly the amount. A transfer-and-call does the same and, when the receiver's answer arrives, returns to the sender what the receiver reports unused (everything if it failed), never more than the receiver still has nor than was sent; the sender learns exactly what was used.",
 [H, S, F, I], "every amount, answer, failure and interleaving of other transfers before the answer is resolved", "Simulation tests cover a few answers with nothing happening in between.",
 WN, [('impl_fungible_token_core', WN[0])], [], ['ft_balance_of', 'result of ft_transfer_call', 'calls to ft_on_transfer'])
prop('N03', "wNEAR: storage registration is charged, refunded and kept exactly",
 "Registering takes exactly the minimum storage balance and returns the rest (all of it when already registered, and a smaller deposit is refused); unregistering needs one attached yocto and an empty balance, or force, which burns the balance, and pays the storage balance back. Transfers never create or remove registrations.",
 [H, I], "every order of registering, depositing, transferring and unregistering", "Simulation tests register and unregister once.",
 WN, [('impl_fungible_token_storage, legacy_storage', WN[2])], [], ['storage_balance_of', 'storage_balance_bounds', 'transfers out'])
prop('S01', "State manipulation: exactly the given keys are written or removed",
 "Replacing writes exactly the given values under exactly the given keys (adding or overwriting), cleaning removes exactly the given keys, and every other key of the account keeps its value, for any keys and values in any order, in every build of the contract. Malformed input fails and changes nothing.",
 [I, H], "every stored state and every list of keys and values, including empty, repeated, binary and large ones", "Tests clean and replace two keys.",
 ['state-manipulation/src/lib.rs'], [('clean, replace', 'state-manipulation/src/lib.rs')], [], ['the account storage'])
prop('C01', "Contracts are initialised once and their callbacks are private",
 "Each contract can be initialised exactly once, before which no state-changing call succeeds, and a second initialisation fails and changes nothing. Functions that serve as callbacks of a contract's own promises fail for every other caller.",
 [H, I], "every contract, caller, argument and order of calls", "Only some contracts have a test for a second initialisation, and hardly any for callbacks called from outside.",
 [SP[0], 'lockup/src/lib.rs', LF[4], LF[6], M1[0], M2[0], V[0], 'whitelist/src/lib.rs', FF[0], LFF[0], WN[0]], [('#[init], #[private], assert_self', 'every contract')], [], ['every call'])
prop('E01', "Lockup, pool, whitelist and poll together: nothing is lost or stranded",
 "When a lockup delegates to a staking pool of this repository, found through its whitelist, with the voting contract as its transfer poll: locked tokens are always covered by what is on the lockup, at the pool or on the way; the lockup never records more than the pool owes it; the pool stays solvent and pays the lockup exactly what it takes off its account; transfers become enabled by the vote's result alone, at its time. From every state in which all that was sent off is carried out, the owner can get everything out of the pool and unselect it, and after a termination the foundation can collect what it is due.",
 [H, S, F, C], "every interleaving of the owner's, foundation's, delegators' and pool owner's calls, of the receipts between the four contracts, refused stake actions, rewards and epochs", "No test runs two of these contracts against each other; unit tests hand-feed promise results.",
 ['lockup/src/owner.rs', 'lockup/src/owner_callbacks.rs', 'lockup/src/foundation.rs', 'lockup/src/foundation_callbacks.rs', 'lockup/src/internal.rs', SP[0], 'staking-pool/src/internal.rs', V[0], 'whitelist/src/lib.rs'],
 [('deposit_to_staking_pool ... on_staking_pool_withdraw', 'lockup/src/owner.rs'), ('termination_prepare_to_withdraw', 'lockup/src/foundation.rs')], [('staking_information, accounts', 'known deposit and what is owed', 'lockup/src/lib.rs')], ['get_known_deposited_balance', 'get_account_total_balance', 'transfers between the contracts'])
prop('E02', "Factories, whitelist, wallet and lockup together: genuine, funded, by quorum",
 "Pools made by the pool factory, lockups made by the lockup factory and a multisig wallet that owns such a lockup, used together: no token appears or vanishes, whatever creations fail and whatever is refused; everything brought in is held by these accounts, on its way, or was paid out as asked. The whitelist has only pools the factory really created while it was a whitelisted factory, and pools the foundation itself added; a lockup delegates to no pool that was not on the whitelist when it was selected. A wallet-owned lockup does nothing on its owner's behalf unless the wallet executed a request for it that enough of its members confirmed, and then exactly that request, whole or not at all; a refused or failed call leaves wallet, lockup and pool as they were.",
 [H, S, F, C], "every interleaving of creations, their outcomes and callbacks, whitelist changes, members' requests and confirmations, and the receipts between wallet, lockup, whitelist and pools", "No test runs the factories with the contracts they create, nor a wallet as the owner of a lockup.",
 ['staking-pool-factory/src/lib.rs', 'whitelist/src/lib.rs', 'lockup-factory/src/lib.rs', 'multisig2/src/lib.rs', 'lockup/src/owner.rs', 'lockup/src/owner_callbacks.rs', SP[0]],
 [('create_staking_pool, on_staking_pool_create', 'staking-pool-factory/src/lib.rs'), ('create, on_lockup_create', 'lockup-factory/src/lib.rs'), ('add_staking_pool', 'whitelist/src/lib.rs'), ('execute_request', 'multisig2/src/lib.rs'), ('select_staking_pool, on_whitelist_is_whitelisted', 'lockup/src/owner.rs, owner_callbacks.rs')],
 [('staking_pool_account_ids', 'pools the factory made', 'staking-pool-factory/src/lib.rs'), ('whitelist, factory_whitelist', 'accepted pools and their makers', 'whitelist/src/lib.rs')], ['account balances', 'is_whitelisted', 'get_staking_pool_account_id', 'receipts between the contracts'])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
print(len(P))
