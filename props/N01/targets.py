LEVEL = 'proof'
TRUSTED = ['send()/read() as contracts: they take or deliver any part of the buffer, or fail; the buffer must be accessible', 'strlen() as the contract "index of the first NUL"']
ASSUMPTIONS = ['pthread mutexes are modelled by a lock flag (single caller)', 'payload sizes up to 16 MiB (RKMaximumPacketSize) for sends; zero to three payloads per call (the most any call site passes)']
def send(n, e, c, f, **k):
    return dict(name='%s-%d' % (n, c), harness='send.c', entry=e, defs=['COUNT=%d' % c], unwind=5, loop_contracts=True, functions=[f], timeout=400,
                fallback=dict(unwind=4 if n == 'network' else 12, defs=['COUNT=%d' % min(c, 2 if n == 'network' else 1), 'VPCAP=0x40']), weight=c, bound='at most two payloads of 64 bytes', **k)
TARGETS = [send('network', 'h_network', c, 'RKNetworkSendPackets') for c in (0, 1, 2, 3)] + \
    [send('operator', 'h_operator', c, 'RKOperatorSendPackets') for c in (0, 1, 2, 3)] + [
    dict(name='string-frames', harness='send.c', entry='h_strings', defs=['COUNT=2'], unwind=18, loop_contracts=True, functions=['RKOperatorSendDelimitedString', 'RKOperatorSendCommandResponse', 'RKOperatorSendString', 'RKOperatorSendBeacon'], timeout=400, weight=3),
    dict(name='receive', harness='recv.c', entry='h_receive', unwind=18, loop_contracts=True, functions=['RKServerReceiveUserPayload'], timeout=300, weight=3),
    dict(name='live-network', harness='send.c', entry='h_network', defs=['COUNT=2', 'COOP=1', 'STALLS=1'], unwind=5, functions=['RKNetworkSendPackets'], kind='bounded', bound='two payloads, at most one refusal', timeout=300),
    dict(name='live-operator', harness='send.c', entry='h_operator', defs=['COUNT=2', 'COOP=1'], unwind=5, functions=['RKOperatorSendPackets'], kind='bounded', bound='two payloads, at most two refusals', timeout=300),
    dict(name='live-receive', harness='recv.c', entry='h_receive', defs=['COOP=1'], unwind=18, functions=['RKServerReceiveUserPayload'], kind='bounded', bound='whole reads, at most two pauses', timeout=300),
]
