LEVEL = 'proof'
TRUSTED = ['write(): takes the whole buffer (regular file)', 'fread(): any number of whole elements up to the requested', 'file and waveform headers are seen as structs, without their byte views (native runs use the real unions)', 'string formatting of the file name has no effect on the contents']
ASSUMPTIONS = ['payload and cache sizes up to 1 GiB', 'short or failed writes of a regular file (disk full) are not covered']
NP = 2
ACC = ['RKGetInt16CDataFromPulse:vp_int16', 'RKGetComplexDataFromPulse:vp_complex', 'RKGetSplitComplexDataFromPulse:vp_split']
REMOVE = ['RKLog', 'RKExit', 'RKIntegerToCommaStyleString', 'RKUIntegerToCommaStyleString', 'RKFloatToCommaStyleString']
TARGETS = [
 dict(name='cache-write', harness='cache.c', entry='h_write', unwind=2, functions=['RKRawDataRecorderCacheWrite']),
 dict(name='cache-flush', harness='cache.c', entry='h_flush', unwind=2, functions=['RKRawDataRecorderCacheFlush']),
 dict(name='recorder', harness='recorder.c', entry='h_recorder', unwind=NP + 2, defs=['NP=%d' % NP], checks=['--no-pointer-check','--no-bounds-check','--no-signed-overflow-check','--no-undefined-shift-check'], weight=9, kind='bounded', bound='the first two pulses, waveforms of one or two groups', link=['source/RKFoundation.c'], stubs=[], remove=['RKLog', 'RKExit', 'RKIntegerToCommaStyleString','RKUIntegerToCommaStyleString', 'RKFloatToCommaStyleString', 'RKRawDataRecorderUpdateStatusString'], functions=['pulseRecorder']),
 dict(name='read-pulse-7', harness='pulse.c', entry='h_pulse', defs=['VERSION=7'], unwind=18, kind='bounded', bound='pulse capacity 16', replace_calls=ACC, stubs=[], remove=REMOVE, functions=['RKReadPulseFromFileReference']),
 dict(name='read-pulse-6', harness='pulse.c', entry='h_pulse', defs=['VERSION=6'], unwind=18, kind='bounded', bound='pulse capacity 16', replace_calls=ACC, stubs=[], remove=REMOVE, functions=['RKReadPulseFromFileReference']),
 dict(name='wave-read-1', harness='wave.c', entry='h_read', defs=['GMAX=1', 'FMAX=3'], unwind=5, kind='bounded', bound='one group of up to three filters', replace_calls=['RKWaveformCalculateGain:vp_gain_'], functions=['RKWaveformReadFromReference', 'RKWaveformInitWithCountAndDepth', 'RKWaveformFree']),
 dict(name='wave-read-2', harness='wave.c', entry='h_read', defs=['GMAX=2', 'FMAX=1'], unwind=9, kind='bounded', bound='two groups of one filter', replace_calls=['RKWaveformCalculateGain:vp_gain_'], functions=['RKWaveformReadFromReference', 'RKWaveformInitWithCountAndDepth', 'RKWaveformFree']),
 dict(name='wave-write', harness='wave.c', entry='h_write', unwind=9, kind='bounded', bound='two groups', functions=['RKWaveformWriteToReference']),
]
