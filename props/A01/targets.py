LEVEL = 'proof'
TRUSTED = []
ASSUMPTIONS = ['IEEE-754 binary32 arithmetic without excess precision, round to nearest']
TARGETS = [
    dict(name='minor-sector', harness='angle.c', entry='h_minor', functions=['RKGetSignedMinorSectorInDegrees', 'RKGetMinorSectorInDegrees'], link=['source/RKMisc.c']),
    dict(name='difference', harness='angle.c', entry='h_diff', functions=['RKMinDiff', 'RKUMinDiff'], link=['source/RKMisc.c']),
    dict(name='clockwise', harness='angle.c', entry='h_mod', functions=['RKModulo360Diff'], link=['source/RKMisc.c']),
    dict(name='cross-over', harness='angle.c', entry='h_cross', functions=['RKAngularCrossOver', 'RKMinDiff'], link=['source/RKMisc.c']),
]
for _k in (0, 1, 2, 4):
    for _n, _d, _f in (('azimuth', [], ['RKInterpolatePositiveAngles', 'RKGetSignedMinorSectorInDegrees']), ('elevation', ['ELEV'], ['RKInterpolateAngles'])):
        TARGETS.append(dict(name='%s-%d' % (_n, _k), harness='angle.c', entry='h_grid', defs=_d + ['KK=%d' % _k], kind='bounded', bound='angles in steps of 1/16 degree, interpolation fraction %d/4 (exact there)' % _k, functions=_f, link=['source/RKMisc.c']))
TARGETS.append(dict(name='ring-index', harness='angle.c', entry='h_ring', functions=['RKNextNModuloS', 'RKPreviousNModuloS', 'RKNextModuloS', 'RKPreviousModuloS', 'RKModuloLag'], link=['source/RKMisc.c']))
