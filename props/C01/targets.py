LEVEL = 'proof'
TRUSTED = ['sprintf/snprintf and RKLog only format', 'the text of a string argument is observed at one arbitrary position']
ASSUMPTIONS = ['a waveform calibration has at most RKMaximumFilterCount tones', 'keys are given with values of their documented type and end with RKConfigKeyNull', 'reciprocals (PRF) are checked at sample values', 'a buffer of three configurations']
CH = ['--no-signed-overflow-check', '--no-undefined-shift-check', '--no-pointer-check', '--no-bounds-check']
KEYS = 'SweepElevation SweepAzimuth PositionMarker PRT PRF DualPRF PulseGateCount PulseGateSize PulseWidth Waveform WaveformDecimate WaveformName SystemNoise SystemZCal SystemDCal SystemPCal WaveformCalibration SNRThreshold SQIThreshold VCPDefinition TransitionGateCount UserResource'.split()
TARGETS = []
for i, k in enumerate(KEYS):
    for at in (0, 1, 2) if k == 'SweepElevation' else (i % 3,):
        TARGETS.append(dict(name='%s-%d' % (k, at), harness='config.c', entry='h_advance', unwind=12, defs=['AT=%d' % at, 'KEY=RKConfigKey%s' % k], structs=['rk_config'], checks=CH, stubs=[], native=None if i == 0 and at == 0 else False, functions=['RKConfigAdvance', 'RKConfigAdvanceEllipsis']))
TARGETS.append(dict(name='find', harness='config.c', entry='h_find', unwind=6, defs=['AT=0', 'KEY=1'], structs=['rk_config'], checks=CH, stubs=[], functions=['RKConfigWithId']))
