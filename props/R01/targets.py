LEVEL = 'other'
TRUSTED = ['sem_open, sem_post, sem_wait, pthread_create: stand-ins that record which worker gets which ray; the gathering thread and the worker thread are each under contract by itself', 'noise estimator, moment processor, calibrator: stand-ins that judge what they are given']
EXPLANATION = 'Bounded: the gathering thread and the worker thread are each checked against their contract by CBMC on the real loops (four pulses, any markers and positions, sharing or excluding boundary pulses, one arrival schedule per target; two consecutive rays of a worker, any markers, flags and angles) and by native search over random arrival orders and longer histories. Nothing is counted as proved.'
ASSUMPTIONS = ['the workers keep up: skipping under overload (worker lag above 0.9) is not covered', 'semaphores are used to wake the workers (the default; nothing sets it otherwise)', 'pulses and rays are not overwritten while they are needed']
CH = ['--no-pointer-check','--no-bounds-check','--no-signed-overflow-check','--no-undefined-shift-check']
REM = ['RKLog', 'RKExit', 'RKIntegerToCommaStyleString','RKUIntegerToCommaStyleString', 'RKFloatToCommaStyleString', 'RKMomentEngineUpdateStatusString', 'RKMomentEngineUpdateMinMaxWorkerLag', 'zeroOutRay', 'RKGetColor', 'RKGetColorOfIndex', 'RKMarkerScanTypeShortString']
ST = ['rk_pulse_header', 'rk_pulse', 'rk_ray']
TARGETS = []
for n, s, d in [('ready', '*', ['NP=4']), ('late', 'PpPRpPpRPpR*R', ['NP=4', 'DEPTH=3']), ('bins', '*', ['NP=2', 'BINTEST'])]:
    TARGETS.append(dict(name='gather-' + n, harness='gather.c', entry='h_gather', unwind=17, unwindset=['pulseGatherer.6:40'], defs=['SCHED="%s"' % s] + d, structs=ST, checks=CH, kind='bounded', bound='four pulses, two positions, at most four pulses per ray, two workers', stubs=[], remove=REM, link=['source/RKFoundation.c', 'source/RKMisc.c'], functions=['pulseGatherer']))
for n, o, l in [('long', '3,7', '5,3'), ('short', '8,1', '2,0')]:
    TARGETS.append(dict(name='worker-' + n, harness='core.c', entry='h_core', unwind=12, defs=['ORG=' + o, 'LEN=' + l], structs=ST, checks=CH, kind='bounded', bound='two rays of up to six pulses', stubs=[], remove=REM, link=['source/RKFoundation.c', 'source/RKMisc.c'], functions=['momentEngineCore']))
