LEVEL = 'proof'
TRUSTED = ['memcpy()/strlen()/memset() as contracts (witness byte, ranges checked)', 'rand(): any value']
ASSUMPTIONS = ['little-endian host (htons/ntohs of glibc)', 'the transport loop around the codec is not under contract']
TARGETS = [
    dict(name='encode', harness='frame.c', entry='h_encode', unwind=18, loop_contracts=True, functions=['RKWebSocketFrameEncode', 'RKWebSocketFrameGetTargetSize'], timeout=300, fallback=dict(unwind=18, defs=['LMAX=0x10']), bound='payloads up to 16 bytes'),
    dict(name='decode', harness='frame.c', entry='h_decode', unwind=18, loop_contracts=True, functions=['RKWebSocketFrameDecode', 'RKWebSocketFrameGetTargetSize'], timeout=300, fallback=dict(unwind=18, defs=['LMAX=0x10']), bound='payloads up to 16 bytes'),
    dict(name='target', harness='frame.c', entry='h_target', unwind=18, loop_contracts=True, functions=['RKWebSocketFrameGetTargetSize']),
]
