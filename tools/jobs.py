"""The jobs (harness, parameters, bounds) that decide each property."""

COMMON_ASSUMPTIONS = [
    'clang 18 -O1 IR generation and the executor are trusted; sampled paths are re-run natively (g++-14, ASan/UBSan) and must give the same observations',
    'assert() in the library is enabled and counts as an obligation',
    'bounds per job as listed; behaviour outside them is not claimed',
]
SSE = []
AVX = ['-mavx2', '-mfma']


class Job:
    def __init__(self, name, harness, defines=None, params=None, arch=SSE, tier='quick', time=120, samples=6, steps=40_000_000,
                 cost=1, covers=(), bounds='', paranoid=True):
        self.name, self.harness = name, harness
        self.defines = {k: str(v) for k, v in (defines or {}).items()}
        self.params = {k: int(v) for k, v in (params or {}).items()}
        self.arch, self.tier, self.time, self.samples = list(arch), tier, time, samples
        self.steps, self.cost, self.covers, self.bounds, self.paranoid = steps, cost, list(covers), bounds, paranoid


PROPS = {}


def prop(pid, outside='', assumptions=()):
    PROPS[pid] = {'jobs': [], 'outside': outside, 'assumptions': list(assumptions)}


def add(pid, name, harness, **kw):
    PROPS[pid]['jobs'].append(Job(name, harness, **kw))


def dm(key='int32_t', val='int32_t', cap=4, cmp=None, mode='Linear'):
    d = {'KEY': key, 'VAL': val, 'CAP': cap, 'MODE': mode}
    if cmp:
        d['CMP'] = cmp
    return d


ALLK = ['int8_t', 'uint8_t', 'int16_t', 'uint16_t', 'int32_t', 'uint32_t', 'int64_t', 'uint64_t', 'float', 'double']

# ------------------------------------------------------------------ C01
prop('C01', outside='capacities above 16, sequences longer than the job bounds')
OPC = ['new key', 'existing key', 'erase', 'throws', 'clear', 'erase iterator']
for mode, arch in (('Linear', SSE), ('Binary', SSE), ('SIMD', AVX)):
    add('C01', 'ops3-' + mode, 'dm_ops', defines=dm(mode=mode, cap=2), arch=arch, params={'ops': 3}, cost=5, covers=OPC,
        bounds='every sequence of 3 operations with arbitrary arguments from the empty map, capacity 2')
    add('C01', 'ops4-' + mode, 'dm_ops', defines=dm(mode=mode, cap=3), arch=arch, params={'ops': 4}, cost=50, covers=OPC, tier='thorough', time=1500,
        bounds='every sequence of 4 operations with arbitrary arguments from the empty map, capacity 3')
add('C01', 'ops2-pre3', 'dm_ops', defines=dm(cap=4, val='V32', mode='Binary'), params={'ops': 2, 'pre': 3}, cost=5, covers=OPC[:3],
    bounds='every sequence of 2 operations on a map of 3 arbitrary elements, capacity 4, 32-byte values')
add('C01', 'ops2-pre6', 'dm_ops', defines=dm(key='int64_t', cap=8, mode='SIMD'), arch=AVX, params={'ops': 2, 'pre': 6}, cost=20, covers=OPC[:3],
    bounds='every sequence of 2 operations on a map of 6 arbitrary elements, capacity 8')
for k, v, cap, cmp, mode, arch in (
        ('int32_t', 'int32_t', 9, None, 'Linear', SSE), ('uint8_t', 'V32', 9, None, 'SIMD', AVX), ('int64_t', 'int64_t', 9, 'std::greater<int64_t>', 'SIMD', AVX),
        ('uint16_t', 'int8_t', 9, 'std::greater<uint16_t>', 'Binary', SSE), ('double', 'int64_t', 9, None, 'SIMD', AVX), ('K16', 'V32', 5, None, 'Binary', SSE),
        ('float', 'int16_t', 10, 'std::greater<float>', 'SIMD', AVX), ('uint64_t', 'int32_t', 9, None, 'SIMD', AVX), ('int8_t', 'int32_t', 10, 'RevLess', 'Linear', SSE)):
    add('C01', 'state-%s-%s-%d-%s-%s' % (k, v, cap, (cmp or 'less').replace('std::', '')[:7], mode), 'dm_state', defines=dm(k, v, cap, cmp, mode), arch=arch,
        params={'anyn': 1}, cost=10, covers=OPC, bounds='one arbitrary operation on a map of every size up to capacity %d with arbitrary contents' % cap)
    add('C01', 'state16-%s-%s-%s-%s' % (k, v, (cmp or 'less').replace('std::', '')[:7], mode), 'dm_state', defines=dm(k, v, 18, cmp, mode), arch=arch,
        params={'anyn': 1}, cost=30, covers=OPC, tier='thorough', time=1500, bounds='one arbitrary operation on a map of every size up to capacity 18 with arbitrary contents')
for mode, arch, cap in (('Linear', SSE, 4), ('Binary', SSE, 5), ('SIMD', AVX, 5)):
    for v in ('int32_t', 'V32'):
        add('C01', 'alias-%s-%s' % (mode, v), 'dm_alias', defines=dm(val=v, mode=mode, cap=cap), arch=arch, params={'maxn': 4}, cost=5,
            covers=['shifts the referenced element'], bounds='arguments that are references to any element of a map of 1..4 elements, capacity %d' % cap)

# ------------------------------------------------------------------ C02
prop('C02', outside='NaN keys; capacities not listed')
for k in ALLK:
    for ci, cmp in enumerate(('std::less<%s>' % k, 'std::greater<%s>' % k)):
        for mode, arch in (('Linear', SSE), ('Binary', SSE), ('SIMD', AVX), ('SIMD', SSE)):
            w = {'int8_t': 36, 'uint8_t': 36, 'int16_t': 20, 'uint16_t': 20}.get(k, 13)
            scalar = mode != 'SIMD' or not arch
            quick = not scalar or (ALLK.index(k) + ci + ('Linear', 'Binary', 'SIMD').index(mode)) % 3 == 0
            add('C02', 'search-%s-%s-%s%s' % (k, cmp[5:9], mode, '-noavx' if mode == 'SIMD' and not arch else ''), 'dm_search',
                defines=dm(key=k, cmp=cmp, mode=mode, cap=11 if scalar and quick else w), arch=arch, params={'anyn': 1}, cost=1 if scalar else 5,
                tier='quick' if quick else 'thorough', covers=['found', 'absent', 'past the end', 'first'], samples=4,
                bounds='every size up to capacity %d, arbitrary increasing keys and probe' % w)
            if not scalar:
                add('C02', 'big-%s-%s-%s' % (k, cmp[5:9], mode), 'dm_search', defines=dm(key=k, cmp=cmp, mode=mode, cap={36: 68, 20: 40}.get(w, 26)), arch=arch,
                    params={'anyn': 1}, cost=50, tier='thorough', time=1500, covers=['found', 'absent'], bounds='larger capacities')
for k, cmp in (('K16', None), ('int32_t', 'RevLess'), ('int16_t', 'RevLess')):
    for mode in ('Linear', 'Binary'):
        add('C02', 'search-%s-%s-%s' % (k, cmp or 'less', mode), 'dm_search', defines=dm(key=k, cmp=cmp, mode=mode, cap=8), params={'anyn': 1},
            covers=['found', 'absent'], bounds='every size up to capacity 8')
add('C02', 'stale-int32', 'dm_search', defines=dm(cap=9, mode='SIMD'), arch=AVX, params={'anyn': 1, 'stale': 1}, cost=5,
    bounds='slots beyond the size hold arbitrary old keys')

# ------------------------------------------------------------------ C03
prop('C03', outside='capacities not listed')
for k, v, cap, mode, arch in (('int32_t', 'int32_t', 5, 'Linear', SSE), ('int32_t', 'int32_t', 13, 'SIMD', AVX), ('int64_t', 'V32', 7, 'SIMD', AVX),
                              ('int8_t', 'int8_t', 37, 'SIMD', AVX), ('uint16_t', 'int64_t', 21, 'SIMD', AVX), ('float', 'int32_t', 11, 'SIMD', AVX),
                              ('double', 'int16_t', 6, 'SIMD', AVX), ('K16', 'int32_t', 3, 'Binary', SSE), ('int16_t', 'int32_t', 1, 'SIMD', AVX)):
    small = cap <= 13
    add('C03', 'full-%s-%s-%d' % (k, mode, cap), 'dm_state', defines=dm(k, v, cap, None, mode), arch=arch, params={'n': cap}, cost=10,
        covers=['throws', 'existing key'], bounds='one arbitrary operation on a full map of capacity %d' % cap)
    if small:
        add('C03', 'stale-%s-%s-%d' % (k, mode, cap), 'dm_state', defines=dm(k, v, min(cap, 9), None, mode), arch=arch, params={'anyn': 1, 'stale': 1}, cost=20,
            covers=['throws', 'existing key', 'new key'], bounds='one arbitrary operation, every size up to capacity %d, slots beyond the size hold arbitrary old data' % min(cap, 9))
    add('C03', 'any-%s-%s-%d' % (k, mode, cap), 'dm_state', defines=dm(k, v, cap, None, mode), arch=arch, params={'anyn': 1}, cost=30, tier='thorough', time=1500,
        covers=['throws', 'existing key', 'new key'], bounds='one arbitrary operation, every size up to capacity %d' % cap)
for n in (0, 3, 8):
    add('C03', 'bounds-int8-%d' % n, 'dm_state', defines=dm('int8_t', 'int8_t', 8, None, 'SIMD'), arch=AVX, params={'n': n}, bounds='capacity below one vector')

# ------------------------------------------------------------------ C04
prop('C04', outside='capacities above those listed')
for k, v, cap, ocap, cmp, mode, arch, tier in (
        ('int32_t', 'int32_t', 4, 4, None, 'Linear', SSE, 'quick'), ('int32_t', 'V32', 5, 3, None, 'Binary', SSE, 'quick'),
        ('int64_t', 'int64_t', 3, 6, 'std::greater<int64_t>', 'SIMD', AVX, 'quick'), ('uint8_t', 'int16_t', 4, 5, 'std::greater<uint8_t>', 'Linear', SSE, 'quick'),
        ('K16', 'int32_t', 3, 3, None, 'Linear', SSE, 'quick'), ('int16_t', 'V32', 1, 2, None, 'SIMD', AVX, 'quick'), ('int32_t', 'int32_t', 8, 8, None, 'SIMD', AVX, 'thorough'),
        ('float', 'int32_t', 9, 7, None, 'SIMD', AVX, 'thorough'), ('int32_t', 'V32', 6, 12, None, 'Linear', SSE, 'thorough')):
    add('C04', 'split-%s-%s-%d-%d' % (k, mode, cap, ocap), 'dm_split', defines=dict(dm(k, v, cap, cmp, mode), OCAP=ocap), arch=arch, tier=tier, cost=10,
        time=120 if tier == 'quick' else 1500, covers=['split', 'refused split', 'prefix', 'suffix', 'refused transfer'],
        bounds='every pair of sizes up to capacities %d and %d, every position and count, arbitrary contents' % (cap, ocap))

# ------------------------------------------------------------------ C05
prop('C05', outside='capacities above those listed')
for k, v, cap, cmp, mode, arch, tier in (
        ('int32_t', 'int32_t', 4, None, 'Linear', SSE, 'quick'), ('int64_t', 'V32', 5, 'std::greater<int64_t>', 'SIMD', AVX, 'quick'),
        ('uint8_t', 'int8_t', 3, None, 'Binary', SSE, 'quick'), ('K16', 'V32', 3, None, 'Linear', SSE, 'quick'), ('float', 'int64_t', 3, None, 'SIMD', AVX, 'quick'),
        ('int32_t', 'int32_t', 9, None, 'SIMD', AVX, 'thorough'), ('int16_t', 'V32', 12, None, 'Binary', SSE, 'thorough')):
    add('C05', 'copy-%s-%s-%d' % (k, mode, cap), 'dm_copy', defines=dm(k, v, cap, cmp, mode), arch=arch, tier=tier, cost=10, time=120 if tier == 'quick' else 1500,
        params={'maxq': cap}, covers=['copy', 'move', 'copy assign', 'move assign', 'swap', 'subscript'],
        bounds='every size up to capacity %d (both sides for assignments), arbitrary contents, every pair of iterator positions' % cap)

# ------------------------------------------------------------------ trees
def bt(key='int32_t', val='int32_t', leaf=8, intn=8, cmp=None, mode='Linear', **more):
    d = {'KEY': key, 'VAL': val, 'LEAF': leaf, 'INTN': intn, 'MODE': mode}
    if cmp:
        d['CMP'] = cmp
    if key == val:
        d['SAMEKV'] = ''
    d.update(more)
    return d


def m(*sizes):
    return sum(1 << s for s in sizes)


def kind0(g=3, mask=None, symk=1, **kw):
    return dict({'kind': 0, 'g': g, 'mask': mask or m(3, 4, 5, 8), 'symk': symk}, **kw)


def kind1(n, e, seeds=4, symk=0, **kw):
    return dict({'kind': 1, 'n': n, 'e': e, 'seeds': seeds, 'symk': symk}, **kw)


def kind2(n, order=3, step=8, symk=0, **kw):
    return dict({'kind': 2, 'n': n, 'order': order, 'step': step, 'symk': symk}, **kw)


def kind3(g=18, w=2, mask=None, order=2, symk=0, near=1, **kw):
    return dict({'kind': 3, 'g': g, 'w': w, 'mask': mask or m(3, 4, 8), 'order': order, 'symk': symk, 'near': near}, **kw)


def kind4(g=18, burst=24, bstep=1, drain=0, order=0, symk=0, near=1, **kw):
    return dict({'kind': 4, 'g': g, 'burst': burst, 'bstep': bstep, 'drain': drain, 'order': order, 'symk': symk, 'near': near}, **kw)


S3 = 'trees of %d leaves built in ascending or descending order, any %d neighbouring leaves, wherever their parents are, at any listed fill; keys and positions from that neighbourhood'
S4 = 'trees of %d leaves with any number up to %d of keys added to any one leaf, then any run of up to %d leaves erased; keys and positions from that neighbourhood'
S0 = 'trees of up to %d leaves with each leaf at any listed fill, arbitrary increasing keys'
S1 = 'trees of %d keys inserted in %d orders then %d erasures'
S2 = 'trees of %d keys built in ascending, descending and alternating order, any run of keys erased'

# ------------------------------------------------------------------ C06
prop('C06', outside='trees other than the enumerated shapes; node sizes other than 8 to 20')
A = ['added', 'present']
add('C06', 'leaves3', 'bt_ins', defines=bt(), params=kind0(3), cost=40, covers=A, bounds='one arbitrary operation of each kind on ' + S0 % 3)
add('C06', 'leaves2-simd', 'bt_ins', defines=bt('int64_t', 'V32', mode='SIMD'), params=kind0(2, m(3, 4, 7, 8)), arch=AVX, cost=20, covers=A,
    bounds='one arbitrary operation on ' + S0 % 2)
add('C06', 'leaves2-k16', 'bt_ins', defines=bt('K16', 'V32', 9, 8, mode='Binary'), params=kind0(1, m(4, 9), symk=0), cost=20, covers=A, bounds='as above, fixed 16-byte keys, arbitrary 16-byte probe, one full or half full leaf')
add('C06', 'leaves2-desc', 'bt_ins', defines=bt('uint16_t', 'int8_t', 16, 9, 'std::greater<uint16_t>', mode='SIMD'), params=kind0(2, m(6, 16)), arch=AVX, cost=20, covers=A,
    bounds='as above, descending, leaf size 16')
add('C06', 'deep70', 'bt_ins', defines=bt(), params=kind1(70, 0, 8, varn=6, opmask=1), cost=40, covers=A, bounds='one insertion of an arbitrary key into ' + S1 % (70, 8, 0))
add('C06', 'deep300', 'bt_ins', defines=bt('int64_t', 'int64_t', mode='Binary'), params=kind1(300, 60, 4, opmask=1), cost=40, covers=A, bounds='one insertion of an arbitrary key into ' + S1 % (300, 4, 60))
add('C06', 'run2', 'bt_ins', defines=bt(), params=kind1(24, 6, 4, ops=2, opmask=0x21), cost=40, covers=A, bounds='two insertions of arbitrary keys into ' + S1 % (24, 4, 6))
add('C06', 'small3', 'bt_ins', defines=bt(), params=kind1(7, 0, 1, ops=3, opmask=0x11, symk=1), cost=40, covers=A, bounds='three operations on a tree of 7 arbitrary keys')
add('C06', 'alias', 'bt_alias', defines=bt(), params=kind0(2, m(4, 8)), cost=30, covers=A, bounds='arguments that refer to any element of ' + S0 % 2)
add('C06', 'alias-v32', 'bt_alias', defines=bt(val='V32', mode='Binary'), params=kind0(2, m(3, 8)), cost=20, covers=A, bounds='arguments that refer to any element of ' + S0 % 2)
add('C06', 'alias-deep', 'bt_alias', defines=bt(), params=kind1(64, 0, 2, step=7), cost=30, covers=A, bounds='arguments that refer to every 7th element of ' + S1 % (64, 2, 0))
T = dict(tier='thorough', time=2400, cost=100)
add('C06', 'leaves3-wide', 'bt_ins', defines=bt(), params=kind0(3, m(3, 4, 5, 6, 7, 8)), covers=A, bounds='every fill', **T)
add('C06', 'leaves4-simd', 'bt_ins', defines=bt('int32_t', 'V32', mode='SIMD'), params=kind0(4, m(3, 4, 8)), arch=AVX, covers=A, bounds=S0 % 4, **T)
add('C06', 'deep70-all', 'bt_ins', defines=bt(), params=kind1(74, 0, 16, varn=12), covers=A, bounds=S1 % (74, 16, 0), **T)
add('C06', 'deep600', 'bt_ins', defines=bt(), params=kind1(600, 150, 16, opmask=1), covers=A, bounds=S1 % (600, 16, 150), **T)
add('C06', 'runs', 'bt_ins', defines=bt(), params=kind2(200, opmask=1), covers=A, bounds=S2 % 200, **T)
add('C06', 'run3', 'bt_ins', defines=bt(), params=kind1(24, 6, 2, ops=3, opmask=1), covers=A, bounds='three insertions', **T)
add('C06', 'window', 'bt_ins', defines=bt(), params=kind3(18, 2, m(4, 8), opmask=0x33), cost=30, covers=['added', 'present'], bounds='one insertion into ' + S3 % (18, 2))
add('C06', 'burst', 'bt_ins', defines=bt(), params=kind4(18, 24, opmask=1), cost=50, covers=['added', 'present'], bounds='one insertion into ' + S4 % (18, 24, 0))
add('C06', 'burst-drain', 'bt_ins', defines=bt('int64_t', 'V32', mode='SIMD'), arch=AVX, params=kind4(16, 20, bstep=5, drain=4, dstep=2, pstep=5, opmask=0x20), cost=40, covers=['added', 'present'], bounds='one insertion into ' + S4 % (16, 20, 4))
add('C06', 'wide', 'bt_ins', defines=bt('int64_t', 'int32_t', leaf=9, intn=17), params=kind4(30, 70, bstep=7, pstep=5, opmask=1), cost=40, covers=['added', 'present'], bounds='one insertion, internal nodes of 17 children, into ' + S4 % (30, 70, 0))
add('C06', 'wide-deep', 'bt_ins', defines=bt(leaf=8, intn=16, MAXREF=1400), params=kind2(1140, order=4, step=1140, seeds=1, opmask=1), cost=40, covers=['added', 'present'], bounds='one insertion, three levels of internal nodes of 16 children, into ' + S2 % 1140)

# ------------------------------------------------------------------ C07
prop('C07', outside='trees other than the enumerated shapes; node sizes other than 8 to 20')
A = ['erased', 'absent', 'erased at position']
add('C07', 'leaves3', 'bt_era', defines=bt(), params=kind0(2, m(3, 4, 8), grow=1), cost=30, covers=A, bounds='one erasure by arbitrary key or at any position, then one insertion, on ' + S0 % 2)
add('C07', 'leaves3-twice', 'bt_era', defines=bt(), params=kind0(3, m(3, 5), ops=2, symk=0), cost=60, covers=A, bounds='two erasures on ' + S0 % 3)
add('C07', 'leaves2-simd', 'bt_era', defines=bt('int64_t', 'V32', mode='SIMD'), params=kind0(3, m(3, 4, 5)), arch=AVX, cost=20, covers=A, bounds='one erasure on ' + S0 % 3)
add('C07', 'leaves2-k16', 'bt_era', defines=bt('K16', 'V32', 9, 8, mode='Binary'), params=kind0(2, m(4, 5, 9), symk=0), cost=20, covers=A, bounds='as above, fixed 16-byte keys, arbitrary 16-byte probe, leaf size 9')
add('C07', 'leaves2-desc', 'bt_era', defines=bt('uint16_t', 'int8_t', 16, 9, 'std::greater<uint16_t>', mode='SIMD'), params=kind0(2, m(6, 9, 16)), arch=AVX, cost=20, covers=A,
    bounds='as above, descending, leaf size 16')
add('C07', 'deep70', 'bt_era', defines=bt(), params=kind1(90, 40, 8), cost=30, covers=A, bounds='one erasure on ' + S1 % (90, 8, 40))
add('C07', 'deep300', 'bt_era', defines=bt('int64_t', 'int64_t', mode='Binary'), params=kind1(300, 170, 4, walk=0), cost=40, covers=A, bounds='one erasure on ' + S1 % (300, 4, 170))
add('C07', 'runs', 'bt_era', defines=bt(), params=kind2(160, step=32, how=1, walk=0), cost=40, covers=A[:2], bounds='one erasure of an arbitrary key on ' + S2 % 160)
add('C07', 'large-leaf', 'bt_era', defines=bt(leaf=20, intn=12), params=kind1(150, 70, 4), cost=20, covers=A, bounds='one erasure, node sizes 20 and 12')
add('C07', 'leaves3-wide', 'bt_era', defines=bt(), params=kind0(4, m(3, 4, 5, 6, 8)), covers=A, bounds='one erasure, every fill', **T)
add('C07', 'thrice', 'bt_era', defines=bt(), params=kind0(3, m(3, 5), ops=3), covers=A, bounds='three erasures', **T)
add('C07', 'deep600', 'bt_era', defines=bt(), params=kind1(600, 420, 16, walk=0), covers=A, bounds='one erasure on ' + S1 % (600, 16, 420), **T)
add('C07', 'runs2', 'bt_era', defines=bt(), params=kind2(400, step=8, how=1, walk=0), covers=A[:2], bounds=S2 % 400, **T)
add('C07', 'window', 'bt_era', defines=bt(), params=kind3(14, 3, m(3, 4), how=1, walk=0), cost=30, covers=['erased', 'absent'], bounds='one erasure by key on ' + S3 % (14, 3))
add('C07', 'window-pos', 'bt_era', defines=bt('int64_t', 'V32', mode='SIMD'), arch=AVX, params=kind3(14, 2, m(3, 4, 8), how=2, grow=1), cost=30, covers=['erased at position'], bounds='one erasure at a position, then one insertion, on ' + S3 % (14, 2))
add('C07', 'wide', 'bt_era', defines=bt(leaf=8, intn=16), params=kind4(36, 28, bstep=14, drain=4, pstep=4, dstep=4, how=1, walk=0, near=0, rev=2), cost=50, covers=['erased', 'absent'], bounds='one erasure by key, internal nodes of 16 children, on ' + S4 % (36, 28, 4))
add('C07', 'wide-run', 'bt_era', defines=bt(leaf=8, intn=16, MAXREF=1400), params=kind2(1140, order=4, step=190, how=2, walk=0, rev=2), cost=40, covers=['erased at position'], bounds='one erasure at every 190th position, three levels of internal nodes of 16 children, on trees of 1140 keys inserted in random order, a run of keys erased')
add('C07', 'burst', 'bt_era', defines=bt(), params=kind4(16, 20, bstep=2, how=1, walk=0, order=2), cost=40, covers=['erased', 'absent'], bounds='one erasure by key on ' + S4 % (16, 20, 0))
add('C07', 'burst-drain', 'bt_era', defines=bt(), params=kind4(16, 20, bstep=5, drain=5, how=1, walk=0, order=2, pstep=5, dstep=4, rev=2), cost=40, covers=['erased', 'absent'], bounds='one erasure by key on ' + S4 % (16, 20, 5))

# ------------------------------------------------------------------ C08
prop('C08', outside='trees other than the enumerated shapes')
A = ['empty range', 'everything erased', 'part erased']
add('C08', 'leaves3', 'bt_range', defines=bt(), params=kind0(3, m(3, 5, 8), grow=0), cost=30, covers=A, bounds='every range of ' + S0 % 3)
add('C08', 'leaves2-grow', 'bt_range', defines=bt('int64_t', 'V32', mode='SIMD'), params=kind0(2, m(3, 4, 8), grow=1), arch=AVX, cost=30, covers=A, bounds='every range, then an insertion, on ' + S0 % 2)
add('C08', 'k16', 'bt_range', defines=bt('K16', 'int32_t', 9, 8, mode='Binary'), params=kind0(3, m(4, 9), grow=0, symk=0), cost=30, covers=A, bounds='every range')
add('C08', 'deep', 'bt_range', defines=bt(), params=kind1(120, 20, 4, grow=0, astep=5, lstep=6), cost=40, covers=A, bounds='ranges starting at every 5th element of every 6th length on ' + S1 % (120, 4, 20))
add('C08', 'deep300', 'bt_range', defines=bt(mode='Binary'), params=kind1(300, 40, 2, grow=0, astep=23, lstep=17), cost=40, covers=A, bounds='ranges on ' + S1 % (300, 2, 40))
add('C08', 'all-deep', 'bt_range', defines=bt(), params=kind1(120, 20, 4, grow=0), covers=A, bounds='every range of ' + S1 % (120, 4, 20), **T)
add('C08', 'grow', 'bt_range', defines=bt(), params=kind0(3, m(3, 5, 8), grow=1), covers=A, bounds='every range, then an insertion', **T)
add('C08', 'window', 'bt_range', defines=bt(), params=kind3(12, 3, m(3, 8), grow=0, near=0, pstep=2), cost=40, covers=['part erased'], bounds='every range inside ' + S3 % (12, 3))
add('C08', 'burst', 'bt_range', defines=bt('int64_t', 'V32', mode='Binary'), params=kind4(14, 20, bstep=4, grow=0, astep=2, lstep=3, order=2), cost=40, covers=['part erased'], bounds='ranges inside ' + S4 % (14, 20, 0))
add('C08', 'wide', 'bt_range', defines=bt(leaf=8, intn=16, MAXREF=1400), params=kind2(1140, order=4, step=380, astep=190, lstep=190, rev=2, grow=0), cost=40, covers=['part erased'], bounds='ranges starting at every 190th element of every 190th length, three levels of internal nodes of 16 children, on ' + S2 % 1140)

# ------------------------------------------------------------------ C09
prop('C09', outside='trees other than the enumerated shapes; NaN keys')
A = ['present', 'absent', 'above all', 'below all']
for k, v, mode, arch, cmp in (('int32_t', 'int32_t', 'Linear', SSE, None), ('int64_t', 'V32', 'SIMD', AVX, None), ('uint8_t', 'int32_t', 'SIMD', AVX, 'std::greater<uint8_t>'),
                              ('double', 'int32_t', 'SIMD', AVX, None), ('K16', 'V32', 'Binary', SSE, None), ('uint16_t', 'int8_t', 'Binary', SSE, 'std::greater<uint16_t>')):
    add('C09', 'leaves3-%s-%s' % (k, mode), 'bt_look', defines=bt(k, v, mode=mode, cmp=cmp), arch=arch, params=kind0(2 if k in ('double', 'K16') else 3, m(3, 5, 8) if k != 'double' else m(3, 8), anyg=1, symk=0 if k == 'K16' else 1), cost=20,
        covers=A, bounds='every lookup with an arbitrary key on ' + S0 % 3)
add('C09', 'mutated', 'bt_look', defines=bt(), params=kind0(2, m(3, 4, 8), muts=1, at=0), cost=30, covers=A, bounds='every lookup after one arbitrary change')
add('C09', 'deep70', 'bt_look', defines=bt(), params=kind1(90, 30, 8), cost=20, covers=A, bounds='every lookup on ' + S1 % (90, 8, 30))
add('C09', 'deep300', 'bt_look', defines=bt('int64_t', 'int32_t', mode='SIMD'), arch=AVX, params=kind1(300, 100, 4), cost=30, covers=A, bounds='every lookup on ' + S1 % (300, 4, 100))
add('C09', 'deep400-mut', 'bt_look', defines=bt(), params=kind1(120, 50, 2, muts=1), covers=A, bounds='every lookup after one change', **T)
add('C09', 'deep600', 'bt_look', defines=bt(), params=kind1(600, 200, 16), covers=A, bounds=S1 % (600, 16, 200), **T)
add('C09', 'window', 'bt_look', defines=bt(), params=kind3(18, 2, m(3, 4, 5, 8)), cost=20, covers=['present', 'absent'], bounds='every lookup on ' + S3 % (18, 2))
add('C09', 'window-simd', 'bt_look', defines=bt('int64_t', 'V32', mode='SIMD'), arch=AVX, params=kind3(14, 2, m(3, 5, 8)), cost=20, covers=['present', 'absent'], bounds='every lookup on ' + S3 % (14, 2))
add('C09', 'burst', 'bt_look', defines=bt(mode='Binary'), params=kind4(18, 24, bstep=2, order=2), cost=30, covers=['present', 'absent'], bounds='every lookup on ' + S4 % (18, 24, 0))
add('C09', 'drain', 'bt_look', defines=bt(), params=kind4(18, 16, bstep=8, drain=5, order=2, pstep=3), cost=30, covers=['present', 'absent'], bounds='every lookup on ' + S4 % (18, 16, 5))

# ------------------------------------------------------------------ C10
prop('C10', outside='trees other than the enumerated shapes')
A = ['inserted', 'erased']
add('C10', 'leaves3', 'bt_iter', defines=bt(), params=kind0(3), cost=20, covers=A, bounds='iteration after one arbitrary change of ' + S0 % 3)
add('C10', 'leaves2-twice', 'bt_iter', defines=bt(), params=kind0(2, m(3, 8), muts=2), cost=30, covers=A, bounds='iteration after two arbitrary changes of ' + S0 % 2)
add('C10', 'tiny', 'bt_iter', defines=bt('int64_t', 'V32', mode='SIMD'), arch=AVX, params=kind0(1, m(0, 1, 2, 8), anyg=1, muts=2), cost=10, covers=A + ['empty'], bounds='iteration after two arbitrary changes of trees of 0, 1, 2 or 8 elements')
add('C10', 'deep70', 'bt_iter', defines=bt('K16', 'V32', mode='Binary'), params=kind1(90, 45, 8), cost=20, covers=A, bounds='iteration after one change of ' + S1 % (90, 8, 45))
add('C10', 'deep300', 'bt_iter', defines=bt(), params=kind1(300, 170, 3), cost=40, covers=A, bounds='iteration after one change of ' + S1 % (300, 3, 170))
add('C10', 'runs', 'bt_iter', defines=bt(), params=kind2(96, step=16), cost=40, covers=A, bounds='iteration after one change of ' + S2 % 96)
add('C10', 'leaves3-twice', 'bt_iter', defines=bt(), params=kind0(3, m(3, 4, 8), muts=2), covers=A, bounds='iteration after two changes', **T)
add('C10', 'deep600', 'bt_iter', defines=bt(), params=kind1(600, 350, 8), covers=A, bounds=S1 % (600, 8, 350), **T)
add('C10', 'window', 'bt_iter', defines=bt(), params=kind3(12, 2, m(3, 8), pstep=2), cost=40, covers=['inserted', 'erased'], bounds='iteration after one change of ' + S3 % (12, 2))
add('C10', 'burst', 'bt_iter', defines=bt(), params=kind4(12, 16, bstep=8, drain=3, pstep=3, order=2, dstep=2), cost=40, covers=['inserted', 'erased'], bounds='iteration after one change of ' + S4 % (12, 16, 3))

# ------------------------------------------------------------------ C11
prop('C11', outside='trees other than the enumerated shapes; comparison counts of SIMD search (no comparator is called)')
A = ['split', 'merge']
add('C11', 'fill', 'bt_bal', defines=bt(), params=kind0(3), cost=20, covers=['split'], bounds='node counts after one arbitrary change of ' + S0 % 3)
add('C11', 'fill-low', 'bt_bal', defines=bt(), params=kind0(3, m(3, 4)), cost=20, covers=['merge'], bounds='node counts after one arbitrary change of ' + S0 % 3)
add('C11', 'fill-runs', 'bt_bal', defines=bt(), params=kind2(128, step=16, ops=1, run=30), cost=40, covers=A, bounds='node counts throughout an arbitrary change and a run of erasures on ' + S2 % 128)
add('C11', 'fill-deep', 'bt_bal', defines=bt(leaf=10, intn=8), params=kind1(300, 150, 4, run=40), cost=40, covers=['merge'], bounds='node counts throughout a change and a run of erasures on ' + S1 % (300, 4, 150))
add('C11', 'to-empty-front', 'bt_bal', defines=bt(), params=kind1(200, 0, 4, ops=0, empty=1), cost=10, bounds='node counts while a tree of 200 keys is erased from the front')
add('C11', 'to-empty-back', 'bt_bal', defines=bt(leaf=9, intn=9), params=kind1(200, 50, 4, ops=0, empty=2), cost=10, bounds='node counts while a tree of 200 keys is erased from the back')
for mode in ('Linear', 'Binary'):
    add('C11', 'cost-' + mode, 'bt_bal', defines=bt(mode=mode, COUNT=''), params=kind1(300, 120, 4, ops=0), cost=20, bounds='comparisons of every lookup with an arbitrary key on ' + S1 % (300, 4, 120))
    add('C11', 'cost-wide-' + mode, 'bt_bal', defines=bt(mode=mode, leaf=16, intn=16, COUNT=''), params=kind1(300, 60, 2, ops=0), cost=20, bounds='comparisons, node sizes 16')
    add('C11', 'cost600-' + mode, 'bt_bal', defines=bt(mode=mode, COUNT=''), params=kind1(600, 240, 16, ops=1), covers=[], bounds='comparisons', **T)
add('C11', 'fill600', 'bt_bal', defines=bt(), params=kind1(600, 300, 16, run=100), covers=['merge'], bounds='node counts', **T)
add('C11', 'fill-runs2', 'bt_bal', defines=bt(), params=kind2(300, step=10, run=60), covers=A, bounds='node counts', **T)
add('C11', 'fill-window', 'bt_bal', defines=bt(), params=kind3(14, 2, m(3, 4, 8)), cost=30, covers=['split', 'merge'], bounds='node counts after one change of ' + S3 % (14, 2))
add('C11', 'fill-burst', 'bt_bal', defines=bt(), params=kind4(16, 24, bstep=4, drain=4, dstep=2, run=8, pstep=2), cost=60, covers=['split', 'merge'], bounds='node counts throughout one change and a run of erasures on ' + S4 % (16, 24, 4))
add('C11', 'fill-wide', 'bt_bal', defines=bt(leaf=8, intn=16, MAXREF=1400), params=kind2(1140, order=4, step=285, ops=0, empty=1, rev=2), cost=40, bounds='node counts while a tree with internal nodes of 16 children is erased: ' + S2 % 1140)

# ------------------------------------------------------------------ C12
prop('C12', outside='trees other than the enumerated shapes; more than two trees at a time')
A = ['copy', 'move', 'copy assign', 'move assign', 'swap', 'self', 'free swap']
add('C12', 'two-shared', 'bt_two', defines=bt(), params={'sizes': 2, 'own': 0, 'late': 0, 'opmask': 255}, cost=20, covers=A, bounds='every transfer between two trees of 0 or 5 elements sharing a pool, then one change')
add('C12', 'two-shared-seq', 'bt_two', defines=bt(), params={'sizes': 3, 'own': 0, 'late': 0, 'muts': 0, 'ops': 2, 'opmask': 255}, cost=20, covers=A, bounds='every sequence of two transfers between trees of 0, 5 or 20 elements')
add('C12', 'two-seq3', 'bt_two', defines=bt(), params={'sizes': 2, 'own': 1, 'late': 0, 'muts': 0, 'ops': 3, 'opmask': 255}, cost=20, covers=A, bounds='every sequence of three transfers between trees of 0 or 5 elements')
add('C12', 'two-big', 'bt_two', defines=bt(), params={'sizes': 4, 'own': 1, 'first': 1}, cost=20, covers=A, bounds='every transfer between trees of up to 90 elements, the source destroyed first, then one change')
PAL = 'PA<std::pair<KEY,VAL>>'
add('C12', 'leaves3', 'bt_bal', defines=bt(), params=kind0(3, m(3, 4, 8)), cost=20, bounds='node accounting after one arbitrary change of ' + S0 % 3)
add('C12', 'deep', 'bt_bal', defines=bt(), params=kind1(200, 110, 6), cost=20, bounds='node accounting after one arbitrary change of ' + S1 % (200, 6, 110))
add('C12', 'runs', 'bt_bal', defines=bt(), params=kind2(128, step=16, ops=1, run=10), cost=40, bounds='node accounting after a change and a run of erasures on ' + S2 % 128)
add('C12', 'range', 'bt_range', defines=bt(), params=kind1(120, 20, 2, grow=0, astep=9, lstep=11), cost=20, bounds='memory accesses and blocks of range erasures')
add('C12', 'emptied', 'bt_empty', defines=bt(), params=kind1(80, 10, 3, ops=1), cost=20, bounds='node accounting over emptying by every means and one change')
add('C12', 'two-big-seq', 'bt_two', defines=bt(), params={'sizes': 4, 'own': 1, 'muts': 0, 'ops': 3, 'opmask': 255, 'late': 0}, covers=A, bounds='three transfers between trees of up to 90 elements', **T)
add('C12', 'two-mut', 'bt_two', defines=bt(), params={'sizes': 5, 'own': 1, 'late': 0}, covers=A, bounds='transfers, then a change', **T)
add('C12', 'deep600', 'bt_bal', defines=bt(), params=kind1(600, 350, 16, run=20), bounds='node accounting', **T)
add('C12', 'window', 'bt_bal', defines=bt('int64_t', 'V32'), params=kind3(14, 2, m(3, 4, 8)), cost=30, bounds='node accounting after one change of ' + S3 % (14, 2))
add('C12', 'burst', 'bt_bal', defines=bt(), params=kind4(16, 24, bstep=6, drain=5, dstep=2, run=12, pstep=3, order=1), cost=50, bounds='node accounting throughout one change and a run of erasures on ' + S4 % (16, 24, 5))
add('C12', 'wide', 'bt_bal', defines=bt(leaf=8, intn=16, MAXREF=1400), params=kind2(1140, order=4, step=285, ops=0, empty=2, rev=2), cost=40, bounds='node accounting while a tree with internal nodes of 16 children is erased: ' + S2 % 1140)

# ------------------------------------------------------------------ C13
prop('C13', outside='more than two trees at a time; trees other than the enumerated sizes')
add('C13', 'own', 'bt_two', defines=bt(), params={'sizes': 2, 'own': 1}, cost=20, covers=A, bounds='every transfer between two trees of 0 or 5 elements of distinct pools, a change on either, destruction of the source, a further change')
add('C13', 'own-20', 'bt_two', defines=bt(val='V32', mode='Binary'), params={'sizes': 3, 'own': 1, 'late': 0}, cost=30, covers=A, bounds='every transfer between two trees of 0, 5 or 20 elements of distinct pools, a change on either')
add('C13', 'own-first', 'bt_two', defines=bt('int64_t', 'int32_t', mode='SIMD'), arch=AVX, params={'sizes': 7, 'own': 1, 'first': 1, 'late': 0}, cost=30, covers=A, bounds='every transfer between trees of up to 200 elements, the source destroyed at once')
add('C13', 'own-seq', 'bt_two', defines=bt(), params={'sizes': 4, 'own': 1, 'muts': 0, 'ops': 2, 'late': 0}, cost=40, covers=A, bounds='every sequence of two transfers between trees of up to 90 elements')
add('C13', 'shared', 'bt_two', defines=bt('K16', 'int32_t'), params={'sizes': 2, 'own': 0}, cost=20, covers=A, bounds='as the first, one pool')
add('C13', 'own-90', 'bt_two', defines=bt(), params={'sizes': 4, 'own': 1}, covers=A, bounds='trees of up to 90 elements', **T)
add('C13', 'own-seq3', 'bt_two', defines=bt(), params={'sizes': 3, 'own': 1, 'muts': 1, 'ops': 2, 'late': 0}, covers=A, bounds='two transfers with a change after each', **T)

# ------------------------------------------------------------------ C14
prop('C14', outside='trees other than the enumerated shapes')
A = ['cleared', 'erased', 'range', 'moved from', 'move assigned from', 'swapped with empty']
add('C14', 'empty', 'bt_empty', defines=bt(), params=kind1(0, 0, 1), cost=20, covers=A, bounds='emptying an empty tree by every means, two arbitrary changes')
add('C14', 'leaf', 'bt_empty', defines=bt('int64_t', 'V32', mode='SIMD'), arch=AVX, params=kind0(1, m(1, 8), refill=4), cost=20, covers=A, bounds='emptying a tree of one leaf by every means, two arbitrary changes')
add('C14', 'leaves3', 'bt_empty', defines=bt(), params=kind0(3, m(3, 8), ops=1, symk=0), cost=20, covers=A, bounds='emptying trees of three leaves by every means, one arbitrary change')
add('C14', 'deep', 'bt_empty', defines=bt(mode='Binary'), params=kind1(150, 30, 4, ops=1, refill=60), cost=20, covers=A, bounds='emptying trees of 150 keys by every means, one arbitrary change, refill')
add('C14', 'deep-twice', 'bt_empty', defines=bt(), params=kind1(300, 30, 8, ops=2, refill=100), covers=A, bounds='emptying trees of 300 keys, two changes, refill', **T)

# ------------------------------------------------------------------ C15
prop('C15', outside='comparators other than those listed; container sizes as in the jobs')
for k, cmp in (('KTag', 'OrdLess'), ('int32_t', 'HalfLess')):
    for mode in ('Linear', 'Binary'):
        add('C15', 'dm-seq-%s-%s' % (cmp, mode), 'dm_ops', defines=dm(k, 'int32_t', 3, cmp, mode), params={'ops': 2, 'pre': 1}, cost=5, covers=['new key', 'existing key'], bounds='every sequence of two operations on a dense map of one element, capacity 3')
        add('C15', 'dm-state-%s-%s' % (cmp, mode), 'dm_state', defines=dm(k, 'V32' if mode == 'Linear' else 'int32_t', 5, cmp, mode), params={'anyn': 1}, cost=5, covers=['new key', 'existing key'], bounds='one operation on a dense map of every size up to 5')
        add('C15', 'dm-search-%s-%s' % (cmp, mode), 'dm_search', defines=dm(k, 'int32_t', 6, cmp, mode), params={'anyn': 1}, cost=5, covers=['found', 'absent'], bounds='searches, every size up to 6')
for k, mode in (('KTag', 'Linear'), ('KTag', 'Binary')):
    b = bt(k, 'int32_t', cmp='OrdLess', mode=mode)
    add('C15', 'bt-ins-' + mode, 'bt_ins', defines=b, params=kind0(2, m(3, 4, 8)), cost=20, covers=['added', 'present'], bounds='one insertion on ' + S0 % 2)
    add('C15', 'bt-era-' + mode, 'bt_era', defines=b, params=kind0(3, m(3, 4, 5)), cost=20, covers=['erased', 'absent'], bounds='one erasure on ' + S0 % 3)
    add('C15', 'bt-look-' + mode, 'bt_look', defines=b, params=kind0(3, m(3, 8), anyg=1), cost=20, covers=['present', 'absent'], bounds='every lookup on ' + S0 % 3)
    add('C15', 'bt-deep-' + mode, 'bt_ins', defines=b, params=kind1(100, 30, 4, opmask=0x31), cost=20, covers=['added', 'present'], bounds='one insertion on ' + S1 % (100, 4, 30))
    add('C15', 'bt-deep-era-' + mode, 'bt_era', defines=b, params=kind1(100, 50, 4, how=1), cost=20, covers=['erased', 'absent'], bounds='one erasure on ' + S1 % (100, 4, 50))
add('C15', 'bt-half', 'bt_ins', defines=bt('int32_t', 'int32_t', cmp='HalfLess'), params=kind0(2, m(4, 8), opmask=0x31), cost=20, covers=['added', 'present'], bounds='one insertion on ' + S0 % 2)
add('C15', 'bt-rev', 'bt_look', defines=bt('int16_t', 'int32_t', cmp='RevLess', mode='Binary'), params=kind0(2, m(3, 8)), cost=20, covers=['present', 'absent'], bounds='lookups in reverse order')
add('C15', 'bt-range', 'bt_range', defines=bt('KTag', 'int32_t', cmp='OrdLess'), params=kind0(2, m(3, 4, 8), grow=1), cost=20, covers=['part erased'], bounds='every range')
add('C15', 'bt-bulk', 'bt_bulk', defines=bt('KTag', 'int32_t', cmp='OrdLess'), params={'m': 4}, cost=10, covers=['duplicate'], bounds='construction from up to four arbitrary elements')
add('C15', 'bt-seq', 'bt_ins', defines=bt('KTag', 'int32_t', cmp='OrdLess'), params=kind1(24, 6, 4, ops=2, opmask=0x31), covers=['added', 'present'], bounds='two operations', **T)
add('C15', 'dm-seq3', 'dm_ops', defines=dm('KTag', 'int32_t', 3, 'OrdLess'), params={'ops': 3}, covers=['new key', 'existing key'], bounds='three operations', **T)
add('C15', 'bt-window-look', 'bt_look', defines=bt('KTag', 'int32_t', cmp='OrdLess', mode='Binary'), params=kind3(14, 2, m(3, 8)), cost=20, covers=['present', 'absent'], bounds='lookups on ' + S3 % (14, 2))
add('C15', 'bt-window-ins', 'bt_ins', defines=bt('KTag', 'int32_t', cmp='OrdLess'), params=kind3(14, 2, m(4, 8), opmask=0x21), cost=30, covers=['added', 'present'], bounds='one insertion into ' + S3 % (14, 2))
add('C15', 'bt-window-era', 'bt_era', defines=bt('KTag', 'int32_t', cmp='OrdLess'), params=kind3(12, 2, m(3, 4), how=1, walk=0), cost=20, covers=['erased', 'absent'], bounds='one erasure on ' + S3 % (12, 2))

# ------------------------------------------------------------------ C16
prop('C16', outside='element types that throw while being copied or moved')
for bk in ({}, {'BOXKEY': ''}):
    nm = '-boxkey' if bk else ''
    for cap in (4, 1):
        add('C16', 'dm-own-%d%s' % (cap, nm), 'dm_own', defines=dict({'CAP': cap, 'MODE': 'Linear'}, **bk), cost=5, bounds='one operation on a dense map of every size up to capacity %d of owning values' % cap)
    add('C16', 'dm-own-bin' + nm, 'dm_own', defines=dict({'CAP': 6, 'MODE': 'Binary'}, **bk), cost=5, bounds='as above, capacity 6')
    add('C16', 'bt-own' + nm, 'bt_own', defines=dict({'MODE': 'Linear'}, **bk), params={'n': 40, 'e': 12}, cost=10, covers=['added', 'present', 'range', 'copies', 'clear'], bounds='one operation on trees of 40 owning values built in four orders')
    add('C16', 'bt-own-low' + nm, 'bt_own', defines=dict({'MODE': 'Binary', 'LEAF': 9}, **bk), params={'n': 90, 'e': 55, 'wipe': 1}, cost=40, covers=['added', 'present', 'range', 'copies'], bounds='one operation on sparse trees, then erased to empty')
    add('C16', 'bt-own-seq' + nm, 'bt_own', defines=dict({'MODE': 'Linear'}, **bk), params={'n': 30, 'e': 8, 'ops': 2, 'seeds': 2}, covers=['added'], bounds='two operations', **T)
    add('C16', 'bt-own-deep' + nm, 'bt_own', defines=dict({'MODE': 'Linear'}, **bk), params={'n': 300, 'e': 150, 'seeds': 8}, covers=['added'], bounds='deep trees', **T)

# ------------------------------------------------------------------ C17
prop('C17', outside='failures inside element copy operations; the move operations, which are noexcept and end the program')
add('C17', 'leaves2', 'bt_fail', defines=bt(), params=kind0(2, m(4, 8), maxf=2, after=1), cost=30, covers=['first allocation fails'], bounds='failure of the first or second allocation of one insertion, then one change, on ' + S0 % 2)
add('C17', 'deep', 'bt_fail', defines=bt(), params=kind1(72, 0, 4, varn=8, nop=1, after=0), cost=40, covers=['first allocation fails', 'second allocation fails'], bounds='failure of any allocation of one insertion of an arbitrary key into trees of 65 to 72 keys')
add('C17', 'deep3', 'bt_fail', defines=bt(), params=dict(kind1(148, 0, 1, nop=1, after=0, maxf=3, varn=8), seed0=0), cost=60, covers=['first allocation fails', 'second allocation fails', 'third allocation fails'], bounds='as above, trees of three levels')
add('C17', 'wipe', 'bt_fail', defines=bt('int64_t', 'V32', 9, 8, mode='Binary'), params=kind1(64, 0, 2, nop=1, after=0, maxf=2, wipe=1, varn=3, seed0=2), cost=40, covers=['first allocation fails'], bounds='failure, then erasure of everything')
add('C17', 'whole', 'bt_fail', defines=bt(), params=kind1(90, 20, 3, whole=1, after=0, maxf=30), cost=10, covers=['clear fails', 'copy construction fails', 'copy assignment fails'], bounds='failure of any of the first 30 allocations of a copy or clear')
add('C17', 'whole-small', 'bt_fail', defines=bt(), params=kind0(2, m(3, 8), symk=0, whole=1, after=1, maxf=5), cost=10, bounds='as above, small trees')
add('C17', 'deep-after', 'bt_fail', defines=bt(), params=kind1(72, 0, 8, varn=16, nop=1, after=1), covers=['second allocation fails'], bounds='failure, then a change', **T)
add('C17', 'burst', 'bt_fail', defines=bt(), params=kind4(16, 24, bstep=1, nop=1, after=0, maxf=3, pstep=4), cost=60, covers=['first allocation fails', 'second allocation fails'], bounds='failure of any of the first three allocations of one insertion into ' + S4 % (16, 24, 0))

# ------------------------------------------------------------------ C18
prop('C18', outside='sequences with more than four arbitrary elements')
A = ['duplicate', 'forward iterators']
add('C18', 'four', 'bt_bulk', defines=bt(), params={'m': 4}, cost=10, covers=A + ['empty', 'initializer list', 'single-pass iterators'], bounds='sequences of up to four arbitrary elements')
add('C18', 'three-simd', 'bt_bulk', defines=bt('uint8_t', 'V32', mode='SIMD'), arch=AVX, params={'m': 4}, cost=10, covers=A + ['empty', 'initializer list'], bounds='sequences of up to four arbitrary elements')
add('C18', 'desc', 'bt_bulk', defines=bt('int64_t', 'int64_t', cmp='std::greater<int64_t>', mode='Binary'), params={'m': 4}, cost=10, covers=A, bounds='descending order')
add('C18', 'deep', 'bt_bulk', defines=bt(), params={'m': 1, 'pre': 80, 'varm': 0, 'after': 0}, cost=20, covers=A + ['single-pass iterators'], bounds='80 elements in three orders and an arbitrary one before or after')
add('C18', 'deep2', 'bt_bulk', defines=bt(), params={'m': 2, 'pre': 22, 'varm': 0, 'after': 0}, cost=30, covers=A, bounds='22 elements and two arbitrary ones')
add('C18', 'five', 'bt_bulk', defines=bt(), params={'m': 5, 'after': 0}, covers=A, bounds='five arbitrary elements', **T)
add('C18', 'deep3', 'bt_bulk', defines=bt(), params={'m': 2, 'pre': 120, 'varm': 0, 'after': 0}, covers=A, bounds='120 elements and two arbitrary ones', **T)

# ------------------------------------------------------------------ C19-C22
ST = {'ALLOCATOR_STATS': 1}
FAR = 'pool and request sizes arbitrary 64-bit values, mappings at arbitrary addresses'


def pool_jobs(pid, which):
    """The pool harnesses check everything; each property runs the histories that matter to it."""
    P = {
        'raw1': dict(h='pool_raw', p=dict(ops=1, als=16383, refuse=1), cost=10, c=['served from the region', 'grows', 'request refused', 'construction fails'],
                     b='one request of any size, any of 14 alignments, on a pool of any initial and growth size; ' + FAR),
        'raw2': dict(h='pool_raw', p=dict(ops=2, als=9, refuse=1), cost=40, c=['served from the region', 'grows', 'request refused'],
                     b='two requests of any size, alignments 1 and 8, any one mapping refused; ' + FAR),
        'raw2-page': dict(h='pool_raw', p=dict(ops=2, als=8256, refuse=0), cost=60, c=['grows'], b='two requests of any size, alignments 64 and 8192; ' + FAR),
        'raw2-8k': dict(h='pool_raw', p=dict(ops=2, als=8192, refuse=1), cost=30, c=['grows'], b='two requests of any size, alignment 8192, any one mapping refused; ' + FAR),
        'raw3': dict(h='pool_raw', p=dict(ops=3, als=1, refuse=0), cost=50, c=['grows'], b='three requests of any size, alignment 1; ' + FAR),
        'raw-new': dict(h='pool_raw', p=dict(ops=1, als=4097, refuse=1, newfail=1), cost=5, c=['construction fails', 'request refused'],
                        b='one request, any bookkeeping allocation and any mapping failing; ' + FAR),
        'mem4': dict(h='pool_mem', p=dict(ops=4, sizes=6, init=48, growth=48), cost=10, c=['gives back', 'reuses a block', 'grows'], b='every history of four requests of 16 or 24 bytes and returns of any block, owners filling their blocks with arbitrary data'),
        'mem4-al': dict(h='pool_mem', p=dict(ops=4, sizes=2, als=72), cost=10, c=['gives back', 'reuses a block'], b='as above, 16 bytes, alignment 8 or 64'),
        'mem6': dict(h='pool_mem', p=dict(ops=6, sizes=5, als=8, init=64, growth=64), cost=30, c=['gives back', 'reuses a block', 'grows'], b='every history of six requests of 8 or 24 bytes and returns, small regions'),
        'mem-odd': dict(h='pool_mem', p=dict(ops=3, symsz=24, init=64, growth=64), cost=30, c=['gives back', 'reuses a block'], b='every history of three steps with requests of every size from 8 to 32 bytes'),
        'new': dict(h='pool_mem', p=dict(ops=4, newfail=1, init=64, growth=64, refuse=1, script=0x1001), cost=10, c=['request refused', 'grows'], b='four steps, any bookkeeping allocation or mapping failing at any step'),
        'huge': dict(h='pool_mem', p=dict(ops=4, want=1, hugeok=1, refuse=2, init=64, growth=64), cost=10, c=['grows', 'construction fails', 'request refused'], b='every history of four steps, huge pages granted or refused at every mapping'),
        'nogrow': dict(h='pool_mem', p=dict(ops=4, init=64, growth=0, sizes=0x24), cost=10, c=['request refused'], b='every history of four steps with growth turned off'),
        'far2': dict(h='pool_mem', p=dict(ops=2, far=1), cost=15, c=['grows'], b='two steps; ' + FAR),
        'far3': dict(h='pool_mem', p=dict(ops=3, far=1, als=8, mult=3), cost=60, c=['reuses a block', 'grows'], b='every history of three steps, sizes multiples of 8; ' + FAR),
        'far4': dict(h='pool_mem', p=dict(ops=4, far=1, als=8, script=0x1211, mult=3, fixed=1, growth=0), cost=15, c=['reuses a block', 'gives back'], b='two requests, a return, a request; sizes multiples of 8, any; ' + FAR),
        'far5': dict(h='pool_mem', p=dict(ops=5, far=1, als=8, script=0x11211, mult=3, fixed=1, growth=0), cost=70, c=['reuses a block', 'gives back'], b='two requests, a return, two requests; sizes multiples of 8; ' + FAR),
        't-far4': dict(h='pool_mem', p=dict(ops=4, far=1, als=8, script=0x1211, mult=3), c=['reuses a block', 'grows'], b='two requests, a return, a request; ' + FAR),
        't-far4-al': dict(h='pool_mem', p=dict(ops=4, far=1, als=72, script=0x1211, mult=3, fixed=1, growth=0), c=['reuses a block'], b='as above, alignment 8 or 64; ' + FAR),
        't-mem7': dict(h='pool_mem', p=dict(ops=7, sizes=6, als=8, init=64, growth=64), c=['reuses a block', 'grows'], b='every history of seven steps'),
        't-raw3': dict(h='pool_raw', p=dict(ops=3, als=9, refuse=1), c=['grows'], b='three requests of any size; ' + FAR),
        't-new5': dict(h='pool_mem', p=dict(ops=5, newfail=1, init=64, growth=64, refuse=1), c=['request refused'], b='every history of five steps, any failure at any step'),
        'multi': dict(h='multi', p=dict(ops=3, script=0x121, reps=0), cost=15, c=['gives back', 'reuses a block', 'new size class'], b='multi-size pool: a request of any size up to 2500 bytes, its return, another such request'),
        'multi4': dict(h='multi', p=dict(ops=4, script=0x1211, reps=0, lo=300, hi=600), cost=15, c=['gives back', 'reuses a block'], b='multi-size pool: two requests of 300 to 600 bytes, a return, a request'),
        'multi-al': dict(h='multi', p=dict(ops=3, script=0x121, reps=0, als=72, lo=40, hi=700), cost=20, c=['reuses a block'], b='multi-size pool: as above, alignment 8 or 64'),
        'multi-al2': dict(h='multi', p=dict(ops=4, script=0x1211, reps=0, als=264, lo=60, hi=130), cost=20, c=['reuses a block'], b='multi-size pool: two requests of 60 to 130 bytes, a return, a request, alignment 8 or 256'),
        'multi-huge': dict(h='multi', p=dict(ops=3, hugeok=1, lo=8, hi=130, refuse=1, script=0x111, reps=0), cost=15, c=['request refused'], b='multi-size pool: three requests of 8 to 130 bytes, huge pages and one refused mapping'),
        'multi-new': dict(h='multi', p=dict(ops=2, script=0x11, lo=60, hi=66, newfail=1, refuse=1, reps=0), cost=10, c=['request refused'], b='multi-size pool: two requests, any bookkeeping allocation or mapping failing'),
        'multi-grow': dict(h='multi', p=dict(ops=5, script=0x11111, lo=700, hi=1100, init=4096, growth=4096, reps=0), cost=20, c=['new size class'], b='multi-size pool: five requests of 700 to 1100 bytes from small regions'),
        'multi-big': dict(h='multi', p=dict(ops=1, lo=0x7000000000000000, hi=0xffffffffffffffff, reps=0), cost=2, c=['request refused'], b='multi-size pool: a request of 2^63-2^60 bytes or more'),
        'multi-reps': dict(h='multi', p=dict(ops=0, reps=6, hi=20000, init=65536), cost=10, c=[], b='multi-size pool: blocks of any size up to 20000 bytes taken and given back six times'),
        'multi-new3': dict(h='multi', p=dict(ops=3, lo=60, hi=66, newfail=1, refuse=1, reps=0), cost=30, c=['request refused'], b='multi-size pool: every history of three steps, any failure'),
        't-multi5': dict(h='multi', p=dict(ops=5, script=0x12121, reps=0), c=['reuses a block'], b='multi-size pool: five steps'),
        't-multi4': dict(h='multi', p=dict(ops=4, reps=0, hi=1100), c=['reuses a block'], b='multi-size pool: every history of four steps'),
    }
    for n in which:
        j = P[n]
        kw = dict(T) if n[:2] == 't-' else dict(cost=j['cost'], time=300)
        add(pid, n, j['h'], defines=ST, params=j['p'], covers=j['c'], bounds=j['b'], **kw)


PO = 'histories longer than the jobs; concurrent use (a pool is not thread-safe by documentation); deallocate with a pointer or size the pool did not hand out'
PA_ = ['mmap, munmap and madvise are replaced by models that grant or refuse each mapping and place it anywhere page-aligned; the real kernel is not run',
       'requests to a HugePagePool whose blocks may be given back are at least 8 bytes and 8-aligned, as the free list stores its link in the block']
prop('C19', outside=PO, assumptions=PA_)
pool_jobs('C19', ['raw1', 'raw2', 'raw3', 'mem4', 'mem4-al', 'mem6', 'mem-odd', 'far2', 'far3', 'far4', 'far5', 'multi', 'multi4', 'multi-al', 'multi-al2', 'multi-grow', 't-far4', 't-far4-al', 't-mem7', 't-raw3', 't-multi5', 't-multi4'])
prop('C20', outside=PO, assumptions=PA_)
pool_jobs('C20', ['raw1', 'raw2', 'raw2-page', 'raw2-8k', 'mem4-al', 'mem6', 'far3', 'far4', 'multi', 'multi-al', 'multi-al2', 't-far4-al', 't-raw3', 't-multi4'])
prop('C21', outside=PO, assumptions=PA_)
pool_jobs('C21', ['raw1', 'raw2', 'raw3', 'raw-new', 'new', 'huge', 'nogrow', 'mem6', 'far2', 'multi-huge', 'multi-new', 'multi-big', 't-new5', 't-raw3', 't-mem7'])
prop('C22', outside=PO, assumptions=PA_)
pool_jobs('C22', ['raw1', 'raw2', 'raw3', 'mem4', 'mem6', 'mem-odd', 'nogrow', 'huge', 'new', 'far3', 'far4', 'multi', 'multi-huge', 't-mem7', 't-far4', 't-raw3', 't-multi5'])

# ------------------------------------------------------------------ C23
prop('C23', outside='requests above 2^63 bytes, for which no class exists')
add('C23', 'classes', 'size_class', cost=30, time=300, covers=['cache lines', 'steps of 256', 'powers of two'], bounds='every pair of requests up to 2^63 bytes')
add('C23', 'routing', 'multi', defines=ST, params=dict(ops=1, hi=5000, reps=0), cost=5, covers=['new size class'], bounds='the class a pool uses for every request up to 5000 bytes')

# ------------------------------------------------------------------ C24
prop('C24', outside=PO, assumptions=PA_[:1])
pool_jobs('C24', ['multi', 'multi4', 'multi-al', 'multi-al2', 'multi-huge', 'multi-new', 'multi-new3', 'multi-grow', 'multi-big', 'multi-reps', 't-multi5', 't-multi4'])


def ac(w, **kw):
    return dict({'ALLOCATOR_STATS': 1, 'WHICH': w}, **kw)


NAMES = ['hugepage', 'policy', 'multi']
TK = ['takes a block', 'gives back', 'copy', 'move', 'rebind', 'destroy', 'new pool', 'still usable']
add('C24', 'counts', 'alloc_contract', defines=ac(2), params=dict(mode=1, refuse=1), cost=40, time=300, covers=['count refused', 'takes a block'], bounds='any 64-bit count of 24-byte elements; ' + FAR)
for i, (sz, al) in enumerate(((1, 1), (4096, 8), (40, 8), (3, 1), (64, 64))):
    add('C24', 'counts-%d-%d' % (sz, al), 'alloc_contract', defines=ac(2, SZ=sz, ALGN=al), params=dict(mode=1, refuse=1), cost=40, time=300, covers=['count refused', 'takes a block'], tier='quick' if i < 2 else 'thorough',
        bounds='any 64-bit count of %d-byte elements; ' % sz + FAR)

# ------------------------------------------------------------------ C25
prop('C25', outside='more than three handles at a time; element types other than the listed sizes', assumptions=PA_[:1])
for w, nm in enumerate(NAMES):
    add('C25', 'ops4-' + nm, 'alloc_contract', defines=ac(w), params=dict(ops=4), cost=30, time=300, covers=TK[:-1] + TK[-1:], bounds='every sequence of four operations on three handles: copy, move, rebind, assign, destroy, take, give back')
    add('C25', 'any-' + nm, 'alloc_contract', defines=ac(w), params=dict(mode=1, refuse=1), cost=30, time=300, covers=['count refused'], bounds='any 64-bit element count; ' + FAR)
    add('C25', 'far-' + nm, 'alloc_contract', defines=ac(w), params=dict(ops=2, far=1), cost=30, time=300, covers=['takes a block'], bounds='two operations, mappings at arbitrary addresses')
    add('C25', 'ops5-' + nm, 'alloc_contract', defines=ac(w), params=dict(ops=5), covers=TK, bounds='every sequence of five operations', **T)
    add('C25', 'tree-' + nm, 'bt_pool', defines=dict(ALLOCATOR_STATS=1, WHICH=w), params=dict(ops=1), cost=10, time=300, covers=['copy', 'move', 'swap', 'copy assign'], bounds='trees of 40 elements using the allocator: one operation')
    # C20: alignment through the allocators
    add('C20', 'alloc-' + nm, 'alloc_contract', defines=ac(w, ALGN=128, SZ=128), params=dict(ops=3), cost=10, time=300, covers=['takes a block'], bounds='every sequence of three operations on three handles, 128-byte elements aligned to 128')
    add('C20', 'alloc-any-' + nm, 'alloc_contract', defines=ac(w, ALGN=32, SZ=96), params=dict(mode=1), cost=20, time=300, covers=['takes a block'], bounds='any 64-bit count of 96-byte elements aligned to 32; ' + FAR)

RO = 'allocators of a leaf-like, an internal-like, a plain and an over-aligned type over two policies on pools shared in every way, '
add('C25', 'designated', 'alloc_route', defines=dict(ALLOCATOR_STATS=1), params=dict(ops=3, refuse=1), cost=10, time=300, covers=['takes', 'gives back', 'pool exhausted'], bounds=RO + 'every pair compared, three uses')
add('C20', 'alloc-page', 'alloc_contract', defines=ac(2, ALGN=8192, SZ=8192), params=dict(ops=3, init=12288, growth=16384), cost=10, time=300, covers=['takes a block'], bounds='every sequence of three operations on three handles of the multi-size allocator, elements aligned beyond a page')
add('C20', 'alloc-page-policy', 'alloc_contract', defines=ac(1, ALGN=8192, SZ=8192), params=dict(ops=3, init=12288, growth=16384), cost=10, time=300, covers=['takes a block'], bounds='the same with the policy-based allocator')

# ------------------------------------------------------------------ C26
prop('C26', outside='trees other than the enumerated histories; three trees at most', assumptions=PA_[:1])
TV = ['insert', 'erase', 'clear', 'copy', 'move', 'copy assign', 'move assign', 'swap', 'rebuild']
for w, nm in enumerate(NAMES):
    D = dict(ALLOCATOR_STATS=1, WHICH=w)
    pol = w == 1
    add('C26', 'ops1-' + nm, 'bt_pool', defines=D, params=dict(ops=1), cost=10, time=300, covers=TV, bounds='trees of 40 and 20 elements sharing pools or not, one arbitrary operation')
    add('C26', 'deep-' + nm, 'bt_pool', defines=D, params=dict(ops=1, n=90), cost=15, time=300, covers=TV, bounds='trees of 90 and 45 elements, one arbitrary operation')
    add('C26', 'ops2-' + nm, 'bt_pool', defines=D, params=dict(ops=2, n=20, mask=0xff3), cost=30, time=300, covers=TV, bounds='trees of 20 and 10 elements, every sequence of two operations')
    add('C26', 'deep2-' + nm, 'bt_pool', defines=D, params=dict(ops=2, n=120, seeds=4), covers=TV, bounds='trees of 120 elements, two operations', **T)
    if pol:
        add('C26', 'factory', 'bt_pool', defines=dict(D, FACTORY=1), params=dict(ops=1, n=60), cost=15, time=300, covers=TV, bounds='pools made by make_two_pool_allocator')
        add('C26', 'small-pools', 'bt_pool', defines=D, params=dict(ops=1, n=60, init=1024, growth=2048), cost=15, time=300, covers=TV, bounds='pools that grow often')
        add('C26', 'alone', 'bt_pool', defines=D, params=dict(ops=1, n=60, other=0), cost=10, time=300, covers=TV[:6], bounds='one tree type alone')
add('C26', 'route', 'alloc_route', defines=dict(ALLOCATOR_STATS=1), params=dict(ops=3), cost=10, time=300, covers=['takes', 'gives back'], bounds=RO + 'three uses')
add('C26', 'route-nogrow', 'alloc_route', defines=dict(ALLOCATOR_STATS=1), params=dict(ops=3, growth=0), cost=10, time=300, covers=['takes', 'gives back', 'pool exhausted'], bounds=RO + 'that run out, three uses')
add('C26', 'route-exact', 'alloc_route', defines=dict(ALLOCATOR_STATS=1), params=dict(ops=3, growth=0, init=128), cost=10, time=300, covers=['takes', 'pool exhausted'], bounds=RO + 'that are used up exactly, three uses')
add('C26', 'route4', 'alloc_route', defines=dict(ALLOCATOR_STATS=1), params=dict(ops=4, refuse=1), covers=['takes', 'gives back', 'pool exhausted'], bounds=RO + 'four uses', **T)
add('C26', 'sizes', 'alloc_route', defines=dict(ALLOCATOR_STATS=1), params=dict(mode=1), cost=10, time=300, covers=['two pools', 'rebound', 'class'], bounds='the factories, with any sizes up to 8 MB, huge pages wanted or not, available or not')
