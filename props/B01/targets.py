LEVEL = 'proof'
TRUSTED = ['posix_memalign(): fresh memory of the requested size', 'memset(): contract with a witness byte, range checked']
ASSUMPTIONS = ['capacities up to RKMaximumGateCount']
TARGETS = []
for _n, _d, _f in (('pulse', ['CAPK=16', 'CAPN=1008'], 'Pulse'), ('ray', ['RAY', 'CAPK=16', 'CAPN=1008'], 'Ray')):
    _acc = ['RKGetInt16CDataFromPulse', 'RKGetComplexDataFromPulse', 'RKGetSplitComplexDataFromPulse'] if _f == 'Pulse' else ['RKGetInt16DataFromRay', 'RKGetUInt8DataFromRay', 'RKGetFloatDataFromRay']
    TARGETS += [
    ] + [
        dict(name='%s-slot-%d' % (_n, _r), harness='buffer.c', entry='h_slot', defs=_d + ['RLO=%d' % _r, 'RHI=%d' % (_r + 8)], unwind=70, functions=_acc, checks=['--no-pointer-check'], ignore=['pointer arithmetic']) for _r in range(0, 8 if _f == 'Pulse' else 72, 8)
    ] + [
        dict(name=_n + '-refuse', harness='buffer.c', entry='h_refuse', defs=_d, unwind=18, functions=['RK%sBufferAlloc' % _f]),
        dict(name=_n + '-vacant', harness='buffer.c', entry='h_vacant', defs=_d, unwind=18, functions=['RKGetVacant%sFromBuffer' % _f]),
        dict(name=_n + '-alloc', harness='buffer.c', entry='h_alloc', defs=_d, unwind=18, kind='bounded', bound='up to 3 slots of capacity 16', functions=['RK%sBufferAlloc' % _f]),
        dict(name=_n + '-clear', harness='buffer.c', entry='h_clear', defs=_d, unwind=18, kind='bounded', bound='up to 3 slots of capacity 16', functions=['RKClear%sBuffer' % _f]),
    ]
    for _c in (16, 4096):
        TARGETS.append(dict(name='%s-ring-%d' % (_n, _c), harness='buffer.c', entry='h_ring', defs=_d[:-2] + ['CAPK=%d' % _c, 'CAPN=%d' % _c], unwind=18, functions=['RKGet%sFromBuffer' % _f], ignore=['pointer arithmetic']))
for t in TARGETS:
    t['stubs'] = []; t['smoke_s'] = 0.3; t['remove'] = ['RKLog', 'RKExit', 'RKIntegerToCommaStyleString', 'RKUIntegerToCommaStyleString']
    if t['name'] in ('ray-ring-4096', 'ray-clear'): t['weight'] = 5
