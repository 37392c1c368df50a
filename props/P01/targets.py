LEVEL = 'other'
TRUSTED = ['RKInterpolatePositiveAngles, RKInterpolateAngles: under contract in A01; here they only record what they are given']
EXPLANATION = 'Bounded: the contract of the tagger thread is checked by CBMC on the real loop for one schedule and time line per target and any position flags, gate counts and configuration index (up to six pulses and eight positions), and by native search over random schedules and longer histories. Nothing is counted as proved.'
ASSUMPTIONS = ['positions come in order of time and are not overwritten while they are needed', 'the first position is not later than the first pulse', 'fewer positions between two pulses than there are pulse slots']
CH = ['--no-pointer-check','--no-bounds-check','--no-signed-overflow-check','--no-undefined-shift-check']
REM = ['RKLog', 'RKExit', 'RKIntegerToCommaStyleString','RKUIntegerToCommaStyleString', 'RKFloatToCommaStyleString', 'RKPositionnEngineUpdateStatusString']
# schedule, position times, pulse times, pulse slots, position slots
S = [
 ('slow-antenna', '*', '1,5,9,11', '2,3,6,8,10', 7, 5),
 ('fast-antenna', '*', '1,2,3,4,5,6,8,9', '2,5,8', 9, 9),
 ('waiting', 'QPpQqqQPpqPpPpQq*', '1,3,5,9,10', '1,3,4,7', 7, 6),
 ('wrapping', 'QqQqPpQqPpQqPpQqPpQqPpQqPpQqPpQqPp', '1,3,5,7,9,11,13', '2,4,6,8,10,12', 4, 4),
]
TARGETS = []
for n, s, q, p, d, qd in S:
    TARGETS.append(dict(name=n, harness='tag.c', entry='h_tag', unwind=12, defs=['NP=%d' % len(p.split(',')), 'NQ=%d' % len(q.split(',')), 'DEPTH=%d' % d, 'QDEPTH=%d' % qd, 'SCHED="%s"' % s, 'QT=' + q, 'PT=' + p],
        structs=['rk_position', 'rk_pulse_header', 'rk_pulse'], checks=CH, kind='bounded', bound='up to six pulses and eight positions, one schedule and time line per target, any flags', link=['source/RKFoundation.c', 'source/RKMisc.c'], stubs=[], remove=REM, functions=['pulseTagger']))
