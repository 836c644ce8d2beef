# Per component: its specification, the contracts it needs built, the bounded explorations
# (alphabet, depth quick, depth thorough) and the random histories (processes, histories, steps, probes).
COMPONENTS = {
    'staking_pool': dict(spec='StakingPool', wasm=['staking-pool'],
                         mc=[('funds', 12, 17), ('stakes', 8, 10), ('authority', 5, 6)],
                         random=dict(quick=(8, 16, 90, 3), thorough=(64, 10, 200, 4))),
    'lockup': dict(spec='Lockup', wasm=['lockup'],
                   mc=[('pool', 12, 16), ('termination', 23, 26), ('release', 7, 9), ('whole', 8, 10), ('authority', 4, 6)],
                   random=dict(quick=(8, 45, 60, 3), thorough=(64, 40, 120, 4))),
    'multisig': dict(spec='Multisig', wasm=['multisig'],
                     mc=[('keys1', 7, 8), ('limits1', 6, 7), ('calls1', 8, 10)],
                     random=dict(quick=(8, 18, 70, 3), thorough=(64, 30, 150, 4))),
    'multisig2': dict(spec='Multisig', wasm=['multisig2'],
                      mc=[('members2', 7, 8), ('limits2', 7, 8), ('calls2', 7, 9)],
                      random=dict(quick=(8, 18, 70, 3), thorough=(64, 30, 150, 4))),
    'voting': dict(spec='Voting', wasm=['voting'],
                   mc=[('votes', 6, 7), ('epochs', 6, 7)],
                   random=dict(quick=(8, 200, 80, 3), thorough=(64, 600, 200, 4))),
    'whitelist': dict(spec='Whitelist', wasm=['whitelist'],
                      mc=[('all', 7, 9)],
                      random=dict(quick=(4, 30, 80, 3), thorough=(32, 30, 200, 4))),
    'pool_factory': dict(spec='PoolFactory', wasm=['staking-pool-factory', 'staking-pool', 'whitelist'],
                         mc=[('flow', 6, 7), ('variants', 4, 5)],
                         random=dict(quick=(8, 12, 60, 3), thorough=(64, 20, 150, 4))),
    'lockup_factory': dict(spec='LockupFactory', wasm=['lockup-factory', 'lockup'],
                           mc=[('flow', 6, 7), ('terms', 6, 6)],
                           random=dict(quick=(8, 12, 60, 3), thorough=(64, 20, 150, 4))),
    'multisig_factory': dict(spec='MultisigFactory', wasm=['multisig-factory', 'multisig2'],
                             mc=[('flow', 6, 7), ('variants', 4, 4)],
                             random=dict(quick=(8, 12, 60, 3), thorough=(64, 20, 150, 4))),
    'wnear': dict(spec='WNear', wasm=['w-near'],
                  mc=[('money', 7, 9), ('calls', 8, 10)],
                  random=dict(quick=(8, 24, 80, 3), thorough=(64, 30, 200, 4))),
    'ecosystem': dict(spec='Ecosystem', wasm=['lockup', 'staking-pool', 'whitelist', 'voting'],
                      mc=[('race', 12, 15), ('journey', 12, 16), ('poll', 9, 10)],
                      random=dict(quick=(8, 18, 80, 3), thorough=(64, 20, 160, 4))),
    'network': dict(spec='Network', wasm=['staking-pool-factory', 'staking-pool', 'whitelist', 'lockup-factory', 'lockup', 'multisig2'],
                    mc=[('birth', 11, 14), ('live', 22, 30)],
                    random=dict(quick=(8, 14, 180, 1), thorough=(64, 20, 300, 2))),
    'state_manip': dict(spec='StateManip', wasm=['sm-all', 'sm-clean', 'sm-replace'], build=['state-manipulation'],
                        mc=[('all', 5, 6)],
                        random=dict(quick=(6, 40, 50, 3), thorough=(64, 30, 150, 4))),
}
NEAR_RUNTIME = 'the NEAR runtime emulator (host/near.mjs) executes receipts, promises and host functions as the protocol does; flat gas prices; no storage staking'
PROPERTIES = {}
for p in ('P01', 'P02', 'P03', 'P04', 'P05', 'P06'):
    PROPERTIES[p] = dict(components=['staking_pool'], level='model_checking', assumptions=[NEAR_RUNTIME, 'no slashing, and unstaked tokens unlock within 4 epochs (protocol)'])
for p in ('L01', 'L02', 'L03', 'L04', 'L05', 'L06', 'L07', 'L08'):
    PROPERTIES[p] = dict(components=['lockup'], level='model_checking', assumptions=[NEAR_RUNTIME, 'the whitelisted staking pool answers view calls (known finding L04 otherwise), reports balances truthfully and pays what it accepted'])
for p in ('M01', 'M02'):
    PROPERTIES[p] = dict(components=['multisig'], level='model_checking', assumptions=[NEAR_RUNTIME])
for p in ('Q01', 'Q02'):
    PROPERTIES[p] = dict(components=['multisig2'], level='model_checking', assumptions=[NEAR_RUNTIME])
for p in ('V01', 'V02'):
    PROPERTIES[p] = dict(components=['voting'], level='model_checking', assumptions=[NEAR_RUNTIME, 'validator_stake and epoch_height host functions report the chain state'])
PROPERTIES['W01'] = dict(components=['whitelist'], level='model_checking', assumptions=[NEAR_RUNTIME])
PROPERTIES['F01'] = dict(components=['pool_factory'], level='model_checking', assumptions=[NEAR_RUNTIME])
PROPERTIES['F02'] = dict(components=['lockup_factory'], level='model_checking', assumptions=[NEAR_RUNTIME])
PROPERTIES['F03'] = dict(components=['multisig_factory'], level='model_checking', assumptions=[NEAR_RUNTIME])
for p in ('N01', 'N02', 'N03'):
    PROPERTIES[p] = dict(components=['wnear'], level='model_checking', assumptions=[NEAR_RUNTIME, 'near-contract-standards 3.1.0, from which the token logic comes, is part of what is checked'])
PROPERTIES['S01'] = dict(components=['state_manip'], level='model_checking', assumptions=[NEAR_RUNTIME])
PROPERTIES['E01'] = dict(components=['ecosystem'], level='model_checking', assumptions=[NEAR_RUNTIME, 'no slashing, and unstaked tokens unlock within 4 epochs (protocol)', 'view calls of the pool answer (known finding L04 otherwise)'])
PROPERTIES['E02'] = dict(components=['network'], level='model_checking', assumptions=[NEAR_RUNTIME, 'no slashing, and unstaked tokens unlock within 4 epochs (protocol)', 'view calls of the pool answer (known finding L04 otherwise)'])
# Every contract; their other behaviour is checked elsewhere, so these explorations are smaller.
PROPERTIES['C01'] = dict(components=['staking_pool', 'lockup', 'multisig', 'multisig2', 'voting', 'whitelist', 'pool_factory', 'lockup_factory', 'multisig_factory', 'wnear'],
    level='model_checking', assumptions=[NEAR_RUNTIME], override={
        'staking_pool': dict(mc=[('authority', 5, 6)], random=dict(quick=(2, 4, 50, 3), thorough=(16, 10, 120, 4))),
        'lockup': dict(mc=[('authority', 4, 5)], random=dict(quick=(2, 12, 40, 3), thorough=(16, 30, 100, 4))),
        'multisig': dict(mc=[('limits1', 5, 6)], random=dict(quick=(1, 8, 50, 3), thorough=(8, 20, 100, 4))),
        'multisig2': dict(mc=[('limits2', 5, 6)], random=dict(quick=(1, 8, 50, 3), thorough=(8, 20, 100, 4))),
        'voting': dict(mc=[('votes', 5, 6)], random=dict(quick=(1, 12, 50, 3), thorough=(8, 20, 100, 4))),
        'whitelist': dict(mc=[('all', 5, 7)], random=dict(quick=(1, 12, 50, 3), thorough=(8, 20, 100, 4))),
        'pool_factory': dict(mc=[('flow', 4, 5)], random=dict(quick=(2, 6, 40, 3), thorough=(8, 20, 100, 4))),
        'lockup_factory': dict(mc=[('flow', 4, 5)], random=dict(quick=(2, 6, 40, 3), thorough=(8, 20, 100, 4))),
        'multisig_factory': dict(mc=[('flow', 4, 5)], random=dict(quick=(1, 6, 40, 3), thorough=(8, 20, 100, 4))),
        'wnear': dict(mc=[('calls', 6, 8)], random=dict(quick=(1, 12, 60, 3), thorough=(8, 20, 100, 4)))})
