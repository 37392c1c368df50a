LEVEL = 'proof'
TRUSTED = ['memset() of one action clears it', 'memcpy() of scan lists as the contract "element w arrives, for every w, both ranges within one list"', 'sprintf()/RKLog(): no effect on the engine state']
ASSUMPTIONS = ['one caller at a time per engine (commands and positions are not modelled as racing within a call)', 'angles and rates are not NaN', 'the position counter since the last instruction stays below 2e9']
G = ['RKSteerEngineGetAction', 'RKSteerEngineUpdatePositionFlags', 'RKSteerEngineGetRate', 'RKSteerEngineNextHitter', 'RKSteerEngineClearSweeps', 'RKMinDiff', 'RKAngularCrossOver']
def act(n, m):
    return dict(name='action-' + n, harness='steer.c', entry='h_action', defs=['MODE=%d' % m], link=['source/RKMisc.c'], functions=G, timeout=600, unwind=2, weight=4)
def lst(n, lo, hi, f):
    return dict(name='lists-' + n, harness='steer.c', entry='h_lists', defs=['OPLO=%d' % lo, 'OPHI=%d' % hi], link=['source/RKMisc.c'], unwind=2, functions=f, timeout=600, weight=5,
                fallback=dict(unwind=6, defs=['OPLO=%d' % lo, 'OPHI=%d' % hi, 'CAP=4']), bound='scan lists of 4 entries')
TARGETS = [act('rhi', 1), act('ppi', 2), act('sector', 3), act('point', 4), act('speeddown', 5),
    dict(name='status', harness='steer.c', entry='h_status', link=['source/RKMisc.c'], unwind=12, functions=['RKSteerEngineUpdateStatusString'], timeout=600, weight=3),
    dict(name='rate', harness='steer.c', entry='h_rate', unwind=2, functions=['RKSteerEngineGetRate']),
] + [lst('lineup', 0, 0, ['RKSteerEngineAddLineupSweep']), lst('pinch', 1, 1, ['RKSteerEngineAddPinchSweep']), lst('next', 2, 2, ['RKSteerEngineNextHitter']),
    lst('state', 3, 8, ['RKSteerEngineClearSweeps', 'RKSteerEngineClearHole', 'RKSteerEngineClearDeck', 'RKSteerEngineArmSweeps', 'RKSteerEngineStopSweeps', 'RKSteerEngineStartSweeps', 'RKSteerEngineSetScanRepeat'])]
