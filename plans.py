"""What each property's check runs.  c: context, T: thorough."""
from run import mc, gen, record, par, replay

ASSUME = {'*': ['harness/src/refimpl.rs interprets the specification\'s symbolic terms at trit level; it is independent of the code under test',
                'behaviours are generated by TLC from the specification; data values are seeded pseudo-random trits unless the specification fixes them']}
SP = dict(RATE=486, CAP=243)
def spmc(c, T):
    mc(c, 'SpongosMC', dict(RATE=3 if T else 2, CAP=1, MAXOPS=3, MAXLEN=4 if T else 3),
       ['TypeOK', 'SegmentationIndependent', 'PeerInSync', 'RestoredCatchesUp', 'HeapConsed'], workers=4)
def spgen(mode, n, depth, chunks=2):
    return lambda c: gen(c, 'spongos', 'SpongosGen', dict(SP, MODE=mode, DEPTH=depth), ['WF', 'Emit'], sim=n, depth=depth + 3, chunks=chunks)
def c11(c, T):
    par(lambda: spmc(c, T), lambda: gen(c, 'spongos', 'SpongosGen', dict(SP, MODE='sys', DEPTH=4), ['WF', 'Emit'], workers=2),
        lambda: spgen('sim', 3000 if T else 400, 24 if T else 14)(c), lambda: spgen('hash', 2000 if T else 150, 24 if T else 16, 1)(c))
def c12(c, T):
    par(lambda: spmc(c, False), lambda: spgen('isolate', 4000 if T else 600, 30 if T else 18, 4)(c))
def c13(c, T):
    par(lambda: spmc(c, T), lambda: spgen('save', 4000 if T else 600, 24 if T else 14, 4)(c))
def codecmc(c):
    mc(c, 'CodecMC', dict(B=3, L=7), ['Canonical', 'Unique', 'MinLen', 'AlphabetOneToOne', 'TritsOneToOne'], workers=2)
    mc(c, 'CodecMC', dict(B=27, L=3), ['Canonical', 'Unique', 'MinLen'], workers=2)
def codec(mode, k, workers=4): return lambda c: gen(c, 'codec', 'CodecGen', dict(MODE=mode, K=k), workers=workers)
def c17(c, T): par(lambda: codecmc(c), lambda: codec('size', 4 if T else 3)(c))
def c18(c, T): par(lambda: codecmc(c), lambda: codec('int', 200000 if T else 5000)(c), lambda: codec('mod', 100000 if T else 4000, 2)(c))
def c19(c, T): par(lambda: codecmc(c), lambda: codec('str', 400 if T else 60)(c))
def c20(c, T):
    b = dict(NBUF=3, NSL=5, DEPTH=40)
    par(lambda: mc(c, 'SliceMC', dict(N=4 if T else 3, NBUF=1, NSL=1, BIG=False, DEPTH=1), ['Laws'], workers=2, spec='MCSpec'),
        lambda: gen(c, 'slice', 'Slice', dict(b, BIG=False), ['TypeOK', 'Emit'], sim=20000 if T else 2500, depth=45, chunks=3),
        lambda: gen(c, 'slice', 'Slice', dict(b, BIG=True, NSL=4), ['TypeOK', 'Emit'], sim=1000 if T else 150, depth=45, chunks=2))
def c21(c, T):
    par(lambda: gen(c, 'troika', 'TroikaGen', dict(MODE='perm', K=200 if T else 30), workers=2),
        lambda: gen(c, 'troika', 'TroikaGen', dict(MODE='hash', K=20), sim=10000 if T else 1500, depth=25, chunks=2),
        lambda: gen(c, 'troika', 'TroikaGen', dict(MODE='distinct', K=400 if T else 250)))
def c14(c, T):
    par(lambda: gen(c, 'prng', 'Prng', dict(DEPTH=24, KEYS=2), sim=8000 if T else 1200, depth=30, chunks=3),
        lambda: gen(c, 'prng', 'Prng', dict(DEPTH=60, KEYS=1), sim=800 if T else 100, depth=70, chunks=2))
def mkmc(c, fam, T, maxh=None):
    gen(c, fam, 'MerkleMC', dict(MAXH=maxh or (11 if T else 9), WALKS=True, FOLDH=8 if T else 6), ['Same', 'FoldsOnly', 'OnePerLevel', 'Work', 'Storage', 'Loads', 'Emit'], workers=4)
def mkgen(c, fam, T): gen(c, fam, 'MerkleGen', dict(MAXH=13 if T else 9, DEPTH=40), ['TypeOK', 'Emit'], sim=6000 if T else 800, depth=45, chunks=2)
def mkfar(c, fam, T):
    for hs in ([[20], [19], [18], [12, 13, 14, 15, 16, 17]] if T else [[12, 13, 14, 15, 16, 18]]): gen(c, fam, 'MerkleFar', dict(HEIGHTS=hs, SAVES=2 if T else 6), ['Folds', 'Emit'])
def c08(c, T): par(lambda: mkmc(c, 'merkleC08', T), lambda: mkgen(c, 'merkleC08', T), lambda: mkfar(c, 'merkleC08', T))
def c09(c, T): par(lambda: mkmc(c, 'merkleC09', T, 5), lambda: mkgen(c, 'merkleC09', T), lambda: mkfar(c, 'merkleC09', T))
def c10(c, T): par(lambda: mkmc(c, 'merkleC10', T), lambda: mkfar(c, 'merkleC10', T), lambda: record(c, 'merklerec', 'MerkleTrace', {}, [20 if T else 12, 9 if T else 8, 20000 if T else 1500], heap='6g'))
def mssgen(c, fam, T): gen(c, fam, 'Mss', dict(MAXH=6 if T else 3, DEPTH=40), ['TypeOK', 'NoUseBeyond', 'Emit'], sim=4000 if T else 400, depth=45, chunks=2)
def msstall(c, fam, T, hs, stride, window=16): gen(c, fam, 'MssTall', dict(MAXH=1, DEPTH=1, HEIGHTS=hs, STRIDE=stride, WINDOW=window), ['Emit'], spec='TSpec', workers=2)
def mssfar(c, fam, T):
    gen(c, fam, 'MssFar', dict(HEIGHTS=list(range(0, 21)) if T else [20, 17, 12, 7], RANDOM=2000 if T else 40, MODE='keys'), ['Reads', 'FoldsApart', 'Emit'], workers=2)
    gen(c, fam, 'MssFar', dict(HEIGHTS=list(range(1, 21)) if T else [20, 17, 12, 7], RANDOM=100 if T else 20, MODE='many' if T else 'some'), ['Reads', 'FoldsApart', 'Emit'], workers=2)
def msscrowd(c, fam, T): gen(c, fam, 'MssCrowd', dict(MAXH=1, DEPTH=1, COUNT=200 if T else 40), ['Apart', 'Emit'], spec='CSpec', workers=2)
def c06(c, T): par(lambda: msscrowd(c, 'mssC06', T), lambda: mssfar(c, 'mssC06', T), lambda: mssgen(c, 'mssC06', T), lambda: msstall(c, 'mssC06', T, [4, 5, 6, 7, 8] if T else [4, 5, 6], 1, 1024))
def c07(c, T):
    fs = [lambda: msscrowd(c, 'mssC07', T), lambda: mssfar(c, 'mssC07', T), lambda: mssgen(c, 'mssC07', T), lambda: msstall(c, 'mssC07', T, [4, 5, 6, 7, 8, 9] if T else [4, 5, 6], 1 if T else 3)]
    for h in ([0, 1, 2, 3] if T else [0, 1, 2]): fs.append(lambda h=h: gen(c, 'mssC07', 'MssSweep', dict(H=h, STEP=1 if T else 151)))
    par(*fs)
def c16(c, T):
    par(lambda: mc(c, 'WotsMC', dict(B=3, L=5 if not T else 6, C=3, SUMS=False), ['Antichain', 'Exact'], workers=2),
        lambda: mc(c, 'WotsMC', dict(B=5, L=3 if not T else 4, C=2, SUMS=False), ['Antichain', 'Exact'], workers=2),
        lambda: mc(c, 'WotsMC', dict(B=27, L=78, C=3, SUMS=True), ['SumExact']),
        lambda: gen(c, 'mssC07', 'WotsGen', dict(K=5000 if T else 150), ['NotReached', 'Emit']))
RINGINV = ['RootOk', 'Definition', 'Undo', 'InvertsExactly', 'Product', 'NoDivisorInverse', 'Linear', 'Decrypts']
def ringmc(c, mode, nlog, q, g): return lambda: mc(c, 'RingMC', dict(NLOG=nlog, Q=q, G=g, MODE=mode), RINGINV)
REAL = dict(NLOG=10, Q=12289, G=7)
def c22(c, T):
    par(ringmc(c, 'root', 10, 12289, 7), ringmc(c, 'two', 1, 13 if T else 5, 5 if T else 2), ringmc(c, 'one', *((2, 17, 2) if T else (1, 13, 5))), ringmc(c, 'units', 2, 17, 2), *([ringmc(c, 'units', 3, 17, 3)] if T else []),
        lambda: gen(c, 'ring', 'RingGen', dict(REAL, DEPTH=30, DENSE=False), ['Canonical', 'Emit'], sim=6000 if T else 300, depth=35, chunks=2),
        lambda: gen(c, 'ring', 'RingUnits', dict(REAL, DEPTH=3, DENSE=False, STEP=100 if T else 2), ['EmitU'], spec='SpecU'),
        lambda: gen(c, 'ring', 'RingScan', dict(REAL, DEPTH=3, DENSE=False, STEP=1 if T else 4), ['EmitS'], spec='SpecS', workers=2),
        lambda: gen(c, 'ring', 'RingGen', dict(REAL, DEPTH=30, DENSE=True), ['Canonical', 'Emit'], sim=3000 if T else 150, depth=35))
def c15(c, T):
    def nt(mode, spec, inv, frm=0, **kw): return lambda: gen(c, 'ntru', 'Ntru', dict(DEPTH=30, MODE=mode, FROM=frm), inv, spec=spec, **kw)
    par(ringmc(c, 'kem', 1, 29, 12), nt('sim', 'SpecSim', ['Confined', 'EmitSim'], sim=8000 if T else 400, depth=35, chunks=3),
        lambda: gen(c, 'ntru', 'NtruCrowd', dict(DEPTH=1, MODE='sim', FROM=0, COUNT=400 if T else 60), ['Apart', 'EmitSim'], spec='CSpec', workers=2),
        nt('sweep', 'SpecOne', ['EmitSweep']), nt('root', 'SpecOne', ['EmitRoots']))
ALLK = ['announce', 'change_key', 'signed', 'tagged', 'keyload', 'skeyload', 'subscribe', 'unsubscribe', 'header']
WORLDINV = ['Agreement', 'Secrecy', 'KeysEndorsed', 'UnsubscribedBy']
def chan(c, fam, kinds, tricks, n, chunks=3, depth=60, maxmsg=8, hdr='some', reads=True, opts=(1, 2)):
    gen(c, fam, 'Channel', dict(SIM=True, PARTIES=4, KINDS=kinds, TRICKS=tricks, SIZES=[0, 1, 13, 14, 81, 162, 200], HDR=hdr, DEPTH=depth, MAXMSG=maxmsg, OPTS=list(opts), READS=reads),
        WORLDINV + ['OneUse', 'Emit'], sim=n, depth=depth + 2, chunks=chunks)
def scr(c, fam, mode, T, limit=0, tlimit=0, every=40, tevery=300):
    gen(c, fam, 'Scripts', dict(PARTIES=4, MODE=mode, LIMIT=tlimit if T else limit, DEEP=T, EVERY=tevery if T else every), WORLDINV + ['Emit'], workers=2)
def chanmc(c, kinds, tricks, depth, maxmsg):   # every history of a small channel
    mc(c, 'Channel', dict(SIM=False, PARTIES=3, KINDS=kinds, TRICKS=tricks, SIZES=[0], HDR='no', DEPTH=depth, MAXMSG=maxmsg, OPTS=[1], READS=True), WORLDINV + ['OneUse'], workers=4, extra='VIEW View\n', heap='6g')
MSGINV = ['RoundTrip', 'ContentBack', 'KeyBack', 'CutShort', 'Tampered', 'TamperedKeyload', 'Substituted', 'WrongLink', 'WrongKey', 'Misplaced', 'RecoversSigner', 'RecoverTampered']
def msgmc(c, kinds, T): mc(c, 'MessagesMC', dict(KINDS=kinds, APPS=['app1', 'app2'] if T else ['app1']), MSGINV, workers=2)
def c01(c, T):
    par(lambda: scr(c, 'msgC01', 'size', T, 0, 8000), lambda: scr(c, 'msgC01', 'long', T), lambda: scr(c, 'msgC01', 'keys', T), lambda: scr(c, 'msgC01', 'count', T), lambda: scr(c, 'msgC01', 'hdr', T, 0, 0, 3, 3),
        lambda: scr(c, 'msgC01', 'chain', T, 400, 5000), lambda: scr(c, 'msgC01', 'walk', T), lambda: scr(c, 'msgC01', 'special', T, 450), lambda: scr(c, 'msgC01', 'ring', T, 200, 4000),
        lambda: chan(c, 'msgC01', ALLK, [], 6000 if T else 450), lambda: msgmc(c, ['announce', 'change_key', 'unsubscribe', 'header'] + (['signed', 'tagged'] if T else []), T))
def c25(c, T):
    par(lambda: scr(c, 'msgC25', 'size', T, 400, 4000), lambda: scr(c, 'msgC25', 'long', T), lambda: scr(c, 'msgC25', 'keys', T), lambda: scr(c, 'msgC25', 'count', T), lambda: scr(c, 'msgC25', 'hdr', T, 0, 0, 3, 3),
        lambda: scr(c, 'msgC25', 'chain', T, 150, 3000), lambda: scr(c, 'msgC25', 'walk', T), lambda: scr(c, 'msgC25', 'special', T, 300), lambda: scr(c, 'msgC25', 'ring', T, 100, 2000), lambda: chan(c, 'msgC25', ALLK, ['craft'], 3000 if T else 200))
def c02(c, T):
    par(lambda: scr(c, 'msgC02', 'sweep', T, 0, 0, 165, 1300), lambda: scr(c, 'msgC02', 'mis', T), lambda: scr(c, 'msgC02', 'trust', T), lambda: scr(c, 'msgC02', 'splice', T), lambda: scr(c, 'msgC02', 'own', T), lambda: scr(c, 'msgC02', 'special', T, 200), lambda: scr(c, 'msgC02', 'specialsweep', T, 60, 0, 4, 12), lambda: scr(c, 'msgC02', 'forge', T), lambda: scr(c, 'msgC02', 'forge2', T, 600, 15000),
        lambda: chan(c, 'msgC02', ALLK, ['alter', 'header', 'trust', 'sk', 'recover', 'splice', 'guess'], 5000 if T else 300), lambda: msgmc(c, ['change_key', 'tagged', 'skeyload'] + (['announce', 'signed', 'subscribe', 'unsubscribe'] if T else []), T))
def c03(c, T):
    def host(mode): return lambda: gen(c, 'total', 'Hostile', dict(PARTIES=4, MODE=mode, DEEP=T), ['Emit'])
    par(host('lie'), host('wrap'), host('prim'), host('short'), host('sig'), host('random'), lambda: scr(c, 'msgC03', 'cut', T, 0, 0, 160, 3000), lambda: scr(c, 'msgC03', 'cutring', T, 0, 0, 8, 100), lambda: scr(c, 'msgC03', 'forge2', T, 300, 5000),
        lambda: chan(c, 'msgC03', ALLK, ['alter', 'cut', 'splice', 'header', 'recover', 'guess'], 5000 if T else 300, reads=False), lambda: msgmc(c, ['tagged', 'keyload'] if T else ['keyload'], T))
def c04(c, T):
    par(lambda: scr(c, 'msgC04', 'ring', T, 1200, 20000), lambda: scr(c, 'msgC04', 'count', T), lambda: scr(c, 'msgC04', 'specialkey', T), lambda: chan(c, 'msgC04', ['announce', 'keyload', 'skeyload', 'tagged', 'subscribe'], ['splice'], 6000 if T else 500),
        lambda: msgmc(c, ['keyload', 'skeyload'], T), lambda: chanmc(c, ['announce', 'keyload'], [], 5 if T else 4, 3))
def c05(c, T):
    par(lambda: scr(c, 'msgC05', 'endorse', T), lambda: scr(c, 'msgC05', 'announce', T), lambda: scr(c, 'msgC05', 'walk', T), lambda: scr(c, 'msgC05', 'cutkey', T), lambda: scr(c, 'msgC05', 'sweepkey', T, 0, 0, 40, 800), lambda: scr(c, 'msgC05', 'splice', T), lambda: scr(c, 'msgC05', 'forgekey', T, 900, 15000),
        lambda: chan(c, 'msgC05', ['announce', 'change_key', 'tagged'], ['craft', 'splice', 'guess', 'alter', 'header'], 5000 if T else 400),
        lambda: msgmc(c, ['announce', 'change_key'], T), lambda: chanmc(c, ['announce', 'change_key'], ['craft'], 5 if T else 4, 4))
def c23(c, T):
    par(lambda: scr(c, 'msgC23', 'hdr', T), lambda: scr(c, 'msgC23', 'version', T), lambda: scr(c, 'msgC23', 'special', T, 600), lambda: scr(c, 'msgC23', 'forge', T), lambda: scr(c, 'msgC23', 'context', T),
        lambda: chan(c, 'msgC23', ALLK, ['header'], 5000 if T else 300, hdr='yes'), lambda: msgmc(c, ['header', 'tagged', 'announce'], T))
def c24(c, T):
    par(lambda: scr(c, 'msgC24', 'subs', T), lambda: scr(c, 'msgC24', 'own', T), lambda: scr(c, 'msgC24', 'sweepsub', T, 0, 0, 100, 1300), lambda: scr(c, 'msgC24', 'special', T, 600), lambda: scr(c, 'msgC24', 'forgesub', T, 2500), lambda: chan(c, 'msgC24', ['announce', 'subscribe', 'unsubscribe', 'tagged'], ['guess', 'sk', 'splice', 'alter', 'reread'], 8000 if T else 500, maxmsg=10),
        lambda: msgmc(c, ['subscribe', 'unsubscribe'], T), lambda: chanmc(c, ['announce', 'subscribe', 'unsubscribe'], ['guess'], 6 if T else 5, 4 if T else 3))
def c26(c, T):
    full = ['alter', 'cut', 'header', 'trust', 'sk', 'recover', 'craft', 'guess', 'splice', 'reread']
    par(lambda: chan(c, 'msgC26', ALLK, full, 6000 if T else 350, maxmsg=10), lambda: chan(c, 'msgC26', ALLK, [], 4000 if T else 250, depth=90, maxmsg=14),
        lambda: chan(c, 'msgC26', ['announce', 'keyload', 'tagged', 'signed', 'subscribe'], full, 3000 if T else 200, maxmsg=10), lambda: scr(c, 'msgC26', 'ring', T, 300, 5000), lambda: scr(c, 'msgC26', 'long', T), lambda: scr(c, 'msgC26', 'special', T, 600), lambda: scr(c, 'msgC26', 'forge2', T, 300, 5000),
        lambda: chanmc(c, ['announce', 'keyload', 'tagged'], [], 5 if T else 4, 3))
def c27(c, T):
    gen(c, 'msgC27', 'Masking', dict(PARTIES=4, MODE='mask', LIMIT=0, DEEP=T, EVERY=1), ['Keyed', 'HeaderIn', 'Apart', 'Mine', 'Masks', 'EmitM'], spec='SpecM', workers=4)
PB3INV = ['Faithful', 'Bound', 'Caught', 'Cut', 'Lawful', 'Emit']
def c28(c, T):
    def rnd(k, n): return lambda: gen(c, 'pb3', 'Pb3', dict(LENGTH=k, MODE='rnd'), PB3INV, sim=n, depth=60, chunks=2)
    par(rnd(3, 12000 if T else 700), rnd(6, 12000 if T else 600), rnd(12, 8000 if T else 400), *([rnd(25, 3000)] if T else []),
        lambda: gen(c, 'pb3', 'Pb3', dict(LENGTH=1, MODE='all'), PB3INV, workers=2),
        lambda: (gen if T else mc)(c, *(['pb3'] if T else []), 'Pb3', dict(LENGTH=2, MODE='all'), PB3INV if T else PB3INV[:-1], workers=4))
PLANS = dict(C28=c28, C27=c27, C01=c01, C02=c02, C03=c03, C04=c04, C05=c05, C23=c23, C24=c24, C25=c25, C26=c26, C15=c15, C22=c22, C06=c06, C07=c07, C16=c16, C08=c08, C09=c09, C10=c10, C14=c14, C21=c21, C11=c11, C12=c12, C13=c13, C17=c17, C18=c18, C19=c19, C20=c20)
_S = 'TLA+ (TLC): '
_R = ' and the generated behaviours replayed on the real code, every observable compared with an independent interpretation of the specification'
TECH = dict(
    C28=_S + 'Pb3: programs of PB3 commands over the symbolic sponge (Wire), all short ones enumerated and long ones simulated, with readers that deviate in one place; wrapped and unwrapped by the real functions, wire trits, sponge states, sizes and verdicts compared after every command',
    C27=_S + 'block histories of every masked piece computed from the symbolic sponge (Masking), with the secret in them counted and compared between pairs of messages; the same pairs wrapped by the real code and their masks compared',
    C01=_S + 'World/Scripts/Channel histories of messages over the symbolic wire protocol (Wire), enumerated and simulated,' + _R,
    C02=_S + 'symbolic attacker operations (alter, misplace, substitute, splice, recover) on Wire checked in MessagesMC; the same attacks enumerated by Scripts/Channel and replayed at every swept trit position',
    C03=_S + 'Hostile specification of malformed inputs with its totality verdicts, cut/alter behaviours of Scripts/Channel, executed under panic, memory and out-of-bounds monitors',
    C04=_S + 'enumeration of recipient lists and key rings (Scripts ring) with Secrecy/Agreement invariants, exhaustive small Channel,' + _R,
    C05=_S + 'enumeration of all key/signature combinations of announcements and key changes, KeysEndorsed invariant, exhaustive small Channel,' + _R,
    C06=_S + 'state machine of the signing key (Mss) simulated,' + _R, C07=_S + 'Mss signature verdicts and alteration sweeps (MssSweep, WotsGen)' + _R,
    C08=_S + 'MerkleMC exhaustive over heights with free merge terms, MerkleGen walks,' + _R, C09=_S + 'MerkleMC save/restore at every point, malformed stores,' + _R,
    C10='TLA+ trace validation: calls recorded from both tree implementations checked by TLC against MerkleTrace; bounds checked on Merkle by MerkleMC',
    C11=_S + 'Spongos symbolic duplex, segmentation-independence checked exhaustively, operation sequences generated' + _R, C12=_S + 'Spongos with forks and joins, isolation behaviours generated' + _R,
    C13=_S + 'Spongos save/restore behaviours generated' + _R, C14=_S + 'Prng specification over Spongos simulated' + _R, C15=_S + 'Ntru over Ring, exact for small rings, key/capsule behaviours generated' + _R,
    C16=_S + 'Wots: antichain and exactness of the checksum decided exhaustively for small alphabets and for all sums of the real one; signatures replayed', C17=_S + 'Codec: canonicity decided exhaustively for small bases; codewords and refusals generated' + _R,
    C18=_S + 'Codec integers generated over all small and boundary values' + _R, C19=_S + 'Codec strings and alphabet generated' + _R, C20=_S + 'Slice: buffers and ranges as state, algebraic laws exhaustive, sequences of operations generated' + _R,
    C21=_S + 'Troika permutation and hash written in TLA+ and evaluated by TLC, compared with the code', C22=_S + 'Ring arithmetic written in TLA+, laws exhaustive for small rings, evaluated by TLC at the real parameters and compared with the code',
    C23=_S + 'header contexts in Wire/Scripts (version, type, app, id) with all single-trit differences swept' , C24=_S + 'enumeration of subscriptions/unsubscriptions (Scripts subs/own) with UnsubscribedBy invariant, exhaustive small Channel,' + _R,
    C25=_S + 'each message as PB3 command sequence in Wire; generated messages compared trit by trit with an independent interpreter in both directions', C26=_S + 'Channel: whole histories with readers and attackers, invariants Agreement/Secrecy/KeysEndorsed/UnsubscribedBy,' + _R)
NOTE = dict(
    C03='Crashes are decided on the inputs generated (specified malformed shapes, all cut points swept, random strings); absence of panics outside them is not proved.',
    C14='One genuine weakness (nonces differing only by zero padding inside a block) is a listed known finding; separation is otherwise decided on the generated keys and nonces.',
    C15='Rejection of foreign or altered capsules is decided on generated keys and on every swept coefficient, not proved for all keys.')
NA = {}
