import os
SPECS = {}
JOBS = {}
def spec(pid, **kw):
    SPECS[pid] = kw
    JOBS.setdefault(pid, [])
def job(pid, name, src, unwind, **kw):
    JOBS.setdefault(pid, []).append(dict(name=name, src=src, unwind=unwind, **kw))
def jobs(pid):
    return JOBS[pid]

spec('C40', explain='', bounds='every 32-bit value', outside='nothing for the 32-bit functions', assume=[])
job('C40', 'len', 'utility_len.c', 12)
for lo, w, tier in ((0, 10**6, 'quick'), (10**6, 9 * 10**6, 'quick'), (10**8 - 2**15, 2**16, 'quick'), (10**9 - 2**15, 2**16, 'quick'),
                    (2**31 - 2**15, 2**16, 'quick'), (2**32 - 2**16, 2**16, 'quick'), (10**7, 9 * 10**7, 'thorough')):
    for toa in ((0, 1) if w == 2**16 or lo == 0 else (0,)):
        job('C40', '%s-%d' % ('toa' if toa else 'sprint', lo), 'utility.c', 11, solver='cadical', tier=tier, cost=w,
            defs=dict([('LO', '%du' % lo), ('WIDTH', '%du' % w)] + ([('TOA', None)] if toa else [])))
for i in range(64):
    job('C40', 'sprint-full%d' % i, 'utility.c', 11, solver='cadical', tier='thorough', cost=2**26, timeout=3000,
        defs={'LO': '%du' % (i << 26), 'WIDTH': '%du' % (1 << 26)})

LEAK = ['--memory-leak-check']
spec('C29', explain='One operation from an arbitrary valid buffer state against a byte-sequence model; by induction this covers histories of any length.',
     bounds='size <= 5, capacity <= 8 before the operation, <= 4 bytes inserted (fill: <= 3 x 2 bytes), reserve/resize <= 16', outside='longer contents', assume=['allocation succeeds', 'inserted bytes do not lie inside the buffer itself', 'positions and counts within the contents'])
for op, nm in enumerate(('insert', 'fill', 'erase', 'resize', 'reserve', 'compact', 'clear')):
    job('C29', nm, 'buffer.c', 20, defs={'OP': op}, flags=LEAK)

spec('C30', explain='One operation from an arbitrary valid vector state against a sequence model, with a ghost record of release calls.',
     bounds='<= 3 elements of 2 bytes (also 1 and 3) before the operation, spare capacity <= 4, <= 2 elements inserted', outside='longer vectors', assume=['allocation succeeds', 'positions within the vector'])
for op, nm in enumerate(('insert', 'range', 'fill', 'erase', 'erase_range', 'clear', 'push', 'pop', 'reserve', 'shrink')):
    job('C30', nm, 'vector.c', 20, defs={'OP': op}, flags=LEAK, cost=9 if op < 3 else 1)
    job('C30', nm + '-o3', 'vector.c', 20, defs={'OP': op, 'OBJ': 3}, flags=LEAK, tier='thorough')
spec('C31', explain='Lists built by arbitrary pushes at either end, then one operation, against a sequence model walked both ways.',
     bounds='3 objects (thorough 5) plus one operation', outside='longer lists (operations are local to two neighbours)', assume=['allocation succeeds'])
for op, nm in enumerate(('insert', 'erase', 'splice', 'clear', 'find', 'zeroed', 'splice2')):
    job('C31', nm, 'list.c', 10, defs={'OP': op}, flags=LEAK)
    job('C31', nm + '-n5', 'list.c', 10, defs={'OP': op, 'NUM': 5}, flags=LEAK, tier='thorough')
spec('C38', explain='All slice operations over arbitrary bytes, offsets and sizes.', bounds='blocks of 5 bytes, every offset and size', outside='longer blocks', assume=['slices lie within their block'])
job('C38', 'slices', 'data.c', 20, flags=LEAK)

spec('C32', explain='One operation on an arbitrary key from an arbitrary table in which N distinct keys are found (arbitrary 64-bit hashes, arbitrary '
     'collisions and wrap-around), checked through lookup of every key, iteration, size and release calls. The hypothesis on the table is re-established '
     'by every operation, so the step covers histories of any length within the table size.',
     bounds='table of 8 slots holding 0..4 elements (the load limit); growth of 4 slots holding 2 to 8 slots', outside='larger tables',
     assume=['allocation succeeds', 'hash, equal and set are functions of the key', 'keys differ from the empty marker'])
for op, nm, ns in ((0, 'find', (2, 4)), (1, 'erase', (2, 3, 4)), (2, 'insert', (1, 3)), (3, 'clear', (3,)), (5, 'first', (2,)), (2, 'grow', (2,)), (4, 'reserve', (1, 2))):
    for n in ns:
        g = nm in ('grow', 'reserve')
        fl = ['-DMAP_ELEMENTS_CAPACITY_MIN=4'] if g else []
        job('C32', '%s-n%d' % (nm, n), 'map.c', 9 if g else 17, defs={'OP': op, 'NUM': n, 'RES': 3, 'CAP': 4 if g else 8}, flags=LEAK, recursion=1,
            cost=10 if g else n, srcflags=fl, natflags=fl, hflags=fl)

spec('C33', explain='Integer and string maps over the real generic map, with the hash replaced by an arbitrary function of the key.',
     bounds='two insertions of arbitrary keys (strings of <= 2 bytes) and one operation, capacity 4', outside='longer histories (see C32 for the table itself); growth of typed maps',
     assume=['allocation succeeds', 'integer keys are non-zero, string keys non-NULL', 'string keys outlive their entry'])
for kind, kn in ((1, 'mapi'), (2, 'maps')):
    for op, nm in enumerate(('find', 'erase', 'clear')):
        fl = ['-DMAP_ELEMENTS_CAPACITY_MIN=4']
        job('C33', '%s-%s' % (kn, nm), 'mapis.c', 7, defs={'OP': op, 'KIND': kind}, flags=LEAK, recursion=1, exclude=['src/reactor/hash.c'], srcflags=fl, natflags=fl, hflags=fl)

spec('C34', explain='Self-composition (same bytes at another address, among other bytes) and equality with an independent rendering of the published algorithm; '
     'word-level SMT (z3), so the 64-bit multiplications stay symbolic terms.',
     bounds='every content of every length 0..64 and of 65, 66, 71, 72, 73, 80, 96, 127, 128, 129 (thorough: every length to 130); strings of 1..8, 16, 17, 33, 70 bytes; every 64-bit integer', outside='longer blocks (the block loop runs twice within the bound)', assume=[])
H = dict(solver='cvc5', only=['src/reactor/hash.c'], checks='ptr')
for lo, hi, tier in [(0, 3, 'quick'), (4, 16, 'quick')] + [(i, i + 3, 'quick') for i in range(17, 64, 4)] + \
        [(i, i, 'quick' if i in (65, 66, 71, 72, 73, 80, 96, 127, 128, 129) else 'thorough') for i in range(65, 131)]:
    job('C34', 'data-%d-%d' % (lo, hi), 'hash.c', 140, defs={'OP': 0, 'LO': lo, 'HI': hi}, tier=tier, cost=hi, **H)
    if tier == 'quick':
        job('C34', 'fixed-%d-%d' % (lo, hi), 'hash.c', 140, defs={'OP': 0, 'LO': lo, 'HI': hi, 'SPARSE': None}, only=['src/reactor/hash.c'], checks='ptr')
for n in (1, 2, 3, 4, 5, 8, 16, 17, 33, 70):
    job('C34', 'string-%d' % n, 'hash.c', 140, defs={'OP': 1, 'LO': n, 'HI': n}, **H)
job('C34', 'uint64', 'hash.c', 140, defs={'OP': 2}, **H)

spec('C35', explain='One operation from an arbitrary string (contents, spare capacity) against a byte-sequence model.',
     bounds='<= 4 bytes held, capacity <= 6, <= 3 bytes inserted, patterns <= 2 bytes', outside='longer strings', assume=['allocation succeeds', 'inserted or matched bytes do not lie inside the string itself', 'positions within the string'])
spec('C37', explain='Copies, emptied strings and the shared empty string, with leak checking.', bounds='as C35', outside='longer strings', assume=['allocation succeeds'])
for op, nm, ns, ms, ps, sizes in ((0, 'insert', (0, 3), (0, 1), (0, 4), ((0, 1), (2, 2), (3, 3), (4, 4))), (1, 'erase', (0, 3), (0, 0), (0, 4), ((0, 2), (3, 3), (4, 4))),
                                  (2, 'find', (0, 0), (0, 2), (0, 2), ((0, 4),)),
                                  (5, 'resize', (0, 3), (0, 2), (0, 0), ((0, 4),)), (5, 'allocate', (0, 3), (0, 2), (0, 0), ((0, 4),)),
                                  (6, 'copy', (0, 0), (0, 2), (1, 1), ((0, 4),))):
    for sz in sizes:
        job('C37' if op > 4 else 'C35', '%s-%d' % (nm, sz[1]), 'string.c', 13, flags=LEAK, tags=['%ds%d' % (op, i) for i in range(sz[0], sz[1] + 1)],
            defs={'ALC': int(nm == 'allocate'), 'OP': op, 'SLO': sz[0], 'SHI': sz[1], 'NLO': ns[0], 'NHI': ns[1], 'MLO': ms[0], 'MHI': ms[1], 'PLO': ps[0], 'PHI': ps[1]})
for op, nm in ((3, 'replace'), (4, 'replace_all')):
    for sz in (1, 2, 3, 4):
        for n in (0, 1, 2):
            for m in (0, 1, 2):
                q = (sz, n, m) in ((3, 2, 1), (3, 1, 2)) or op == 3 and (sz, n, m) in ((3, 0, 2), (3, 1, 0)) or (sz, n, m) == (3, 0, 1)
                job('C35', '%s-%d%d%d' % (nm, sz, n, m), 'string.c', 6 if sz == 4 else 5, flags=LEAK, tags=['%ds%d%d%d' % (op, sz, n, m)], tier='quick' if q else 'thorough', timeout=600 if q else 3000,
                    defs={'VF_MEM_INPLACE': None, 'VF_MEM_MAX': 2 + sz if m else 8, 'VF_MEM_CAP': 36, 'ALC': 0, 'OP': op, 'SLO': sz, 'SHI': sz, 'NLO': n, 'NHI': n, 'MLO': m, 'MHI': m, 'PLO': 0, 'PHI': 0, 'ELO': 2 if op == 4 else 0})

spec('C36', explain='read and write transfer arbitrary amounts per call; open may fail.', bounds='<= 4 bytes in <= 4 transfers', outside='contents larger than the 4096 byte read block',
     assume=['allocation succeeds', 'read and write do not fail'])
for op, nm in enumerate(('read', 'load', 'write', 'save')):
    job('C36', nm, 'stringio.c', 9, defs={'OP': op}, flags=LEAK)

PARSER = dict(checks='ptr')
def heads(pid, tag, ns, cut=None, tier='quick', **d):
    for n in ns:
        k = d.get('PREFIX', '""').count('\\') * -1 + len(d.get('PREFIX', '""')) - 2
        tags = []
        m = d['MAXF']
        full = n + k
        got = (cut or full)
        resp = 'RESPONSE' in d
        least = 14 if resp else 14
        if got >= least + 1: tags += ['none', 'more']
        if got >= least + 4 * m + 1 and m: tags += ['fields']
        if got > (9 if resp else 0): tags += ['bad']
        defs = dict(d, NSYM=n)
        if cut: defs['CUT'] = cut
        job(pid, '%s-%d%s' % (tag, n, '-%d' % cut if cut else ''), 'parser.c', 34, defs=defs, tier=tier, cost=got, tags=tags,
            timeout=800 if tier == 'quick' else 5000, checks=True if 'NOREF' in d else 'ptr')
LINE = '"G / HTTP/1.1\\r\\n"'
SLINE = '"HTTP/1.1 200 OK\\r\\n"'
PARSE_OUT = 'longer messages, more than 2 fields'
spec('C16', explain='The text is a block of exactly its own bytes, so any other byte read is an out-of-bounds access; the results start from arbitrary leftovers.',
     bounds='every request and response text of the listed lengths up to 24 bytes (thorough 32), up to 2 fields', outside=PARSE_OUT, assume=[])
heads('C16', 'request', (1, 3, 8, 14, 18, 22, 24), MAXF=2, NOREF=None)
heads('C16', 'response', (9, 13, 16, 18, 21), MAXF=2, NOREF=None, RESPONSE=None)
heads('C16', 'request', (28, 32), MAXF=2, NOREF=None, tier='thorough')
heads('C16', 'request', (2, 5, 10, 12, 16, 20), MAXF=2, NOREF=None, tier='thorough')
heads('C16', 'response', (1, 8, 12, 15, 24, 28, 32), MAXF=2, NOREF=None, RESPONSE=None, tier='thorough')
spec('C17', explain='Equality with an independent one-pass reading of the grammar: acceptance, length, method, target and fields; malformed only when no continuation could be accepted.',
     bounds='every text of the listed lengths up to 20 bytes (thorough 24), and every field section of up to 10 bytes (thorough 18) after a request line, 0 to 2 fields', outside=PARSE_OUT, assume=[])
heads('C17', 'head', (1, 8, 12, 14, 16, 18, 20), MAXF=1)
heads('C17', 'nofields', (18,), MAXF=0)
heads('C17', 'fields', (2, 4, 6, 8, 10), MAXF=2, PREFIX=LINE)
heads('C17', 'head', [n for n in range(1, 25) if n not in (1, 8, 12, 14, 16, 18, 20)], MAXF=1, tier='thorough')
heads('C17', 'fields', (12, 14, 16, 18), MAXF=2, PREFIX=LINE, tier='thorough')
spec('C18', explain='A part of the text is parsed over arbitrary leftovers of an earlier attempt and judged by the reference reading of the whole text.',
     bounds='every text of 20 bytes (field section of 10 bytes; response of 20 bytes) cut at the listed places', outside=PARSE_OUT, assume=[])
for c in (9, 14, 16, 17, 18, 19):
    heads('C18', 'head', (20,), cut=c, MAXF=1)
for c in (17, 19, 21, 23, 24):
    heads('C18', 'fields', (10,), cut=c, MAXF=2, PREFIX=LINE)
for c in (15, 17, 19):
    heads('C18', 'response', (20,), cut=c, MAXF=1, RESPONSE=None)
for c in (1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 12, 13, 15):
    heads('C18', 'head', (20,), cut=c, MAXF=1, tier='thorough')
for c in range(14, 24):
    heads('C18', 'head', (24,), cut=c, MAXF=2, tier='thorough')
spec('C19', explain='As C17, for responses: status code, status text and fields.', bounds='every text of the listed lengths up to 20 bytes (thorough 24), every field section of up to 10 bytes (thorough 16) after a status line', outside=PARSE_OUT, assume=[])
heads('C19', 'head', (1, 9, 12, 14, 16, 18, 20), MAXF=1, RESPONSE=None)
heads('C19', 'fields', (2, 5, 8, 10), MAXF=2, RESPONSE=None, PREFIX=SLINE)
heads('C19', 'head', (22, 24), MAXF=1, RESPONSE=None, tier='thorough')
heads('C19', 'fields', (12, 14, 16), MAXF=2, RESPONSE=None, PREFIX=SLINE, tier='thorough')

SSE = ['-D__SSE4_2__=1', '-I' + os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'env', 'sse')]
spec('C20', explain='The SSE4.2 build of the parser is compared with the same reference reading as the portable one (C17, C19), with the intrinsics given their documented meaning; '
     'replay uses the real instructions.', bounds='every request text of 16 bytes and response text of 18 bytes (thorough 22), every field section of 16 bytes (thorough 18, 20) after a request line (the vector path needs 16 bytes)',
     outside=PARSE_OUT, assume=['the model of PCMPESTRI (replay runs the processor\'s)'])
n0 = len(JOBS['C20'])
heads('C20', 'method', (16,), MAXF=0)
heads('C20', 'fields', (16,), MAXF=1, PREFIX=LINE)
heads('C20', 'value', (17,), MAXF=1, PREFIX='"G / HTTP/1.1\\r\\nab:"')
heads('C20', 'response', (18,), MAXF=1, RESPONSE=None)
heads('C20', 'fields', (18,), MAXF=1, PREFIX=LINE, tier='thorough')
heads('C20', 'response', (20,), MAXF=1, RESPONSE=None, tier='thorough')
heads('C20', 'head', (16, 17, 18, 20, 22), MAXF=1, tier='thorough')
heads('C20', 'fields', (20,), MAXF=2, PREFIX=LINE, tier='thorough')
heads('C20', 'response', (22, 24), MAXF=1, RESPONSE=None, tier='thorough')
for j in JOBS['C20']:
    j.update(srcflags=SSE, natflags=['-msse4.2'])
    if j['name'] == 'value-17':
        j['tags'].remove('none')

spec('C21', explain='Message sizes are constants of a job, all bytes are arbitrary; the output must equal the specified text appended to what was pending.',
     bounds='methods of 1 to 7 bytes, targets of 1 to 9, host, type and status of the listed sizes, bodies of 0, 1, 3, 9, 10, 12, 99, 100, 434 bytes', outside='other sizes; bodies of 4 GiB and more; allocations that move with pending output (see C29)',
     assume=['allocation succeeds'])
def serial(name, op, m, t, h, y, s, body, pend, tier='quick'):
    d = {'OP': op, 'MN': m, 'TN': t, 'HN': h, 'YN': y, 'SN': s, 'BODY': body, 'PEND': pend}
    job('C21', name, 'serial.c', 140, defs=d, hunwind=720, cost=body, tier=tier, flags=['--max-field-sensitivity-array-size', '1024'])
for i, (m, t, h, y, b, p) in enumerate(((3, 1, 1, 0, 0, 0), (4, 2, 3, 5, 1, 0), (7, 9, 0, 1, 9, 3), (1, 1, 9, 10, 10, 0), (4, 3, 4, 4, 99, 0), (4, 3, 4, 4, 100, 5), (3, 2, 2, 3, 434, 0), (4, 4, 4, 0, 12, 1), (3, 3, 4, 5, 0, 2))):
    serial('request-%d' % i, 0, m, t, h, y, 0, b, p)
for i, (s, y, b, p) in enumerate(((6, 0, 0, 0), (6, 10, 1, 0), (13, 0, 9, 3), (6, 9, 10, 0), (5, 1, 99, 0), (6, 10, 100, 7), (6, 5, 434, 0), (6, 3, 3, 0), (5, 1, 12, 1), (6, 4, 0, 2))):
    serial('response-%d' % i, 1, 1, 1, 1, y, s, b, p)

spec('C22', explain='Every list of fields and every looked-up name within the bounds, compared byte by byte with ASCII case folding.',
     bounds='up to 3 fields (thorough 4), names of 1 to 4 bytes (thorough 6), every byte but NUL', outside='longer names and lists; names holding NUL bytes, which no parsed field has', assume=['names hold no NUL byte', 'the C locale'])
job('C22', 'lookup', 'lookup.c', 8, defs={'NF': 3, 'NL': 4})
job('C22', 'lookup4', 'lookup.c', 8, defs={'NF': 2, 'NL': 6})
job('C22', 'lookup-deep', 'lookup.c', 10, defs={'NF': 4, 'NL': 8}, tier='thorough')

spec('C23', explain='A constant beginning brings the decoder to each of its situations, then one or two segments of arbitrary bytes follow; every result is compared with a reference decoder reading single bytes.',
     bounds='4 arbitrary bytes (thorough 6) after each of 16 beginnings, uncut and cut in two; chunk sizes of 15, 16 and 17 digits', outside='longer arbitrary stretches',
     assume=['the decoder starts zeroed', 'decoding stops at the first error or at the end'])
CHUNKS = {'start': '', 'digit': '5', 'digits': '1f', 'ext': '2;', 'data': '3\\r\\n', 'data2': 'a\\r\\nxy', 'after': '1\\r\\na', 'cr': '1\\r\\na\\r', 'next': '2\\r\\nab\\r\\n', 'second': '2\\r\\nab\\r\\n2\\r\\n',
          'last': '0\\r\\n', 'trailer': '0\\r\\nX', 'line': '0\\r\\nX: y\\r\\n', 'zeros15': '0' * 15, 'zeros16': '0' * 16, 'ones15': 'f' * 15}
def chunked(tag, cuts, tier='quick'):
    pre = CHUNKS[tag]
    k = len(pre.replace('\\r', 'r').replace('\\n', 'n'))
    d = {'TOTAL': k + cuts[-1], 'CUTS': ','.join(str(c) for c in list(range(4, k, 4)) + ([k] if k else []) + [k + c for c in cuts]), 'PREFIX': '"%s"' % pre, 'LAST': cuts[-1]}
    if tag in ('last', 'trailer', 'line'): d['TRAILER'] = 1
    job('C23', '%s-%s' % (tag, '-'.join(map(str, cuts))), 'chunked.c', max(cuts[-1] + 2, 6), defs=d, tier=tier, timeout=800 if tier == 'quick' else 5000,
        only=['src/picohttpparser/picohttpparser.c'], checks='ptr', cost=20 if tag == 'start' else 9)
for tag in CHUNKS:
    for cuts in ([4], [2, 4]):
        chunked(tag, cuts)
    for cuts in ([6], [1, 6], [3, 6], [5, 6]):
        chunked(tag, cuts, 'thorough')

KMODEL = ['-I' + os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'env', 'kmodel')]
LOOP = dict(only=['src/reactor/core.c'], srcflags=KMODEL, symflags=KMODEL)
spec('C01', explain='Sources are heap objects freed as soon as they are removed; every callback may remove (and register anew) any source.',
     bounds='3 sources (thorough 4), one batch of any subset in any order, one removal and addition per callback', outside='more sources per batch; nested loops', assume=['epoll reports each registered source at most once per batch'])
job('C01', 'batch', 'core.c', 5, defs={'OP': 0, 'NH': 3}, flags=LEAK, **LOOP)
job('C01', 'batch4', 'core.c', 6, defs={'OP': 0, 'NH': 4}, flags=LEAK, tier='thorough', timeout=7200, **LOOP)
job('C01', 'batches', 'core.c', 6, defs={'OP': 0, 'NH': 3, 'WAITS': 2}, flags=LEAK, tier='thorough', timeout=7200, **LOOP)
spec('C02', explain='The whole loop against a kernel that may interrupt any wait, deliver a stop signal, or report any batch; callbacks remove and add sources and stop the loop.',
     bounds='2 sources, 2 waits (thorough 3); batches of 3 sources in any order', outside='more sources and iterations (the loop keeps no state across iterations but its counters)', assume=['epoll_wait fails only with EINTR'])
job('C02', 'loop', 'core.c', 5, defs={'OP': 1, 'NH': 2, 'WAITS': 2}, flags=LEAK, **LOOP)
job('C02', 'batch', 'core.c', 5, defs={'OP': 0, 'NH': 3}, flags=LEAK, **LOOP)
job('C02', 'loop3', 'core.c', 5, defs={'OP': 1, 'NH': 2, 'WAITS': 3}, flags=LEAK, tier='thorough', timeout=7200, **LOOP)
spec('C03', explain='The clock is read before the loop and by every callback of two iterations; the system clock returns arbitrary values.',
     bounds='2 sources, 2 iterations', outside='the reading at the epoch itself', assume=['clock_gettime succeeds'])
job('C03', 'clock', 'core.c', 5, defs={'OP': 2, 'NH': 2, 'WAITS': 2}, flags=LEAK, **LOOP)
job('C03', 'value', 'core.c', 5, defs={'OP': 3, 'NH': 1}, solver='cvc5', **LOOP)

DESC = dict(only=['src/reactor/core.c', 'src/reactor/descriptor.c'], flags=LEAK, srcflags=KMODEL, symflags=KMODEL, recursion=2)
spec('C04', explain='Arbitrary operations on a descriptor compared with the registration the kernel model holds, and one batch of arbitrary conditions for two descriptors whose callbacks close, free, reopen or change either.',
     bounds='sequences of 3 operations (thorough 5); one batch of 2 descriptors, one action per callback', outside='more descriptors', assume=['epoll_ctl and close succeed on a valid descriptor', 'a descriptor is not opened while open'])
job('C04', 'lifecycle', 'descriptor.c', 5, defs={'OP': 0}, **DESC)
for flip in (0,):
    for other in (0, 1):
        for act in (1, 2, 3, 4):
            job('C04', 'delivery-%d%d%d' % (flip, other, act), 'descriptor.c', 5, defs={'OP': 1, 'FLIP': flip, 'OTHER': other, 'ACT': act}, **DESC)
job('C04', 'lifecycle5', 'descriptor.c', 7, defs={'OP': 0, 'STEPS': 5}, tier='thorough', timeout=3000, **DESC)

def real(*names):
    return dict(only=['src/reactor/%s.c' % n for n in ('core', 'descriptor') + names], flags=LEAK, srcflags=KMODEL, symflags=KMODEL)
spec('C05', explain='The kernel timer is a model whose expirations are arbitrary; callbacks act on either of two timers of one batch.',
     bounds='delays and intervals of 0, 1, 59 and 5000000000 seconds plus any number of nanoseconds, two settings in a row; one batch of 2 timers', outside='more timers; clock changes', assume=['timerfd calls succeed', 'setting a kernel timer clears its expirations'])
for part in (0, 1):
    for secs in ('0', '1', '59', '5000000000'):
        job('C05', 'program-%d-%s' % (part, secs), 'timer.c', 5, defs={'OP': 0, 'ACT': 0, 'OTHER': 0, 'PART': part, 'SECS': secs + 'ul'}, recursion=2,
            tags=['t0'] if (part, secs) == (0, '0') else [], checks='ptr', **real('timer'))
job('C05', 'program-2', 'timer.c', 5, defs={'OP': 0, 'ACT': 0, 'OTHER': 0, 'PART': 2, 'SECS': '0ul'}, recursion=2, checks='ptr', **real('timer'))
for act in (1, 2, 3, 4):
    for other in (0, 1):
        job('C05', 'batch-%d%d' % (act, other), 'timer.c', 5, defs={'OP': 1, 'ACT': act, 'OTHER': other}, recursion=3, **real('timer'))
spec('C06', explain='Signals arrive at any moment around waiting, reading and delivering, from the loop or another thread (the write is one atomic system call).',
     bounds='2 signals, 2 iterations (thorough 5 and 6)', outside='signalling an event while another thread closes it', assume=['eventfd follows its documentation', 'write to the counter does not overflow'])
for c in (0, 1, 2):
    job('C06', 'signals-%d' % c, 'event.c', 5, defs={'CLOSE': c, 'WAITS': 2, 'SIGNALS': 2}, recursion=3, checks='ptr', tags=['close'] if c else ['all'], **real('event'))
    job('C06', 'signals5-%d' % c, 'event.c', 9, defs={'CLOSE': c, 'WAITS': 6, 'SIGNALS': 5}, recursion=3, tags=['close'] if c else ['all'], tier='thorough', timeout=5000, **real('event'))

def stream_job(pid, seq, tls=0, act=0, tags=(), tier='quick', **kw):
    d = {'SEQ': '"%s"' % seq, 'PROP': int(pid[1:]), 'TLS': tls, 'ACT': act}
    if 'B' in seq: d['BIGREAD'] = None
    job(pid, '%s%s%s' % ('tls-' if tls else '', seq, '-a%d' % act if act else ''), 'stream.c', 7, defs=d, recursion=3, tags=list(tags), tier=tier, checks='ptr', cost=len(seq), **dict(real('stream', 'buffer', 'data'), **kw))
STREAM_OUT = 'longer sequences and contents; write errors other than refusal and a broken connection'
spec('C11', explain='Constant sequences of writes, flushes and loop iterations; the kernel takes any part of any write, refuses it, or breaks the connection; the bytes are arbitrary.',
     bounds='the listed sequences: up to 4 bytes in 2 writes, 2 flushes, 2 iterations; partial transfers of any size', outside=STREAM_OUT, assume=['allocation succeeds', 'written data does not lie in the stream'])
for q in ('WFWE', 'WFE', 'WFWFE', 'AWFE'):
    stream_job('C11', q, tags=['sent', 'part'])
for q in ('WAFEE', 'WFWEE', 'WFAFWFE', 'WRFWE'):
    stream_job('C11', q, tags=['sent', 'part'], tier='thorough', timeout=5000)
spec('C12', explain='Bytes arrive in arbitrary pieces, the reader consumes any part of them in its callback; the end of the stream may come with or after data.',
     bounds='the listed sequences: up to 4 bytes in 2 arrivals; a receive block of 65536 bytes followed by nothing', outside=STREAM_OUT, assume=['allocation succeeds'])
for q, tg in (('RE', ['input']), ('RRE', ['input']), ('RERE', []), ('RHE', ['end', 'input']), ('REHE', ['end', 'input']), ('BE', []), ('WFRE', ['input'])):
    stream_job('C12', q, tags=tg)
spec('C13', explain='As C11 and C12, with the kernel model of edge-triggered readiness: whatever is pending must be covered by a registered interest and an edge that is still to come.',
     bounds='the listed sequences', outside=STREAM_OUT, assume=['epoll follows its documentation: an edge on registration or modification while ready, and when readiness appears'])
for q, tg in (('WFEE', ['sent']), ('NE', ['drain']), ('WNE', ['drain']), ('WFNE', ['drain']), ('NWFE', ['drain']), ('RERE', []), ('BE', []), ('RWFE', [])):
    stream_job('C13', q, tags=tg)
for q, tg in (('WFEWFE', []), ('WNEE', ['drain']), ('NENE', ['drain']), ('WFWNEE', ['drain'])):
    stream_job('C13', q, tags=tg, tier='thorough', timeout=5000)
spec('C14', explain='As C11 to C13 and C15 with a model of the TLS layer that takes or gives any part, and asks for reading or writing at any time.',
     bounds='the listed sequences', outside='the TLS protocol itself; a session object shared between streams', assume=['the TLS library follows its documentation'])
for q, tg in (('WFE', ['sent', 'part']), ('WFWE', ['sent', 'part']), ('RE', ['input']), ('RERE', []), ('RHE', ['input']), ('WNE', ['drain'])):
    stream_job('C14', q, tls=1, tags=tg)
for a in (1, 2, 3):
    stream_job('C14', 'RWFE', tls=1, act=a, tags=['act'])
stream_job('C13', 'WFEE', tls=1, tags=['sent'])
stream_job('C13', 'WNE', tls=1, tags=['drain'])
spec('C15', explain='Heap-allocated streams closed, destroyed and freed, or reopened from any callback, with input, output and a hang-up in the same event.',
     bounds='the listed sequences', outside=STREAM_OUT, assume=['allocation succeeds'])
for q in ('RWFE', 'RHE', 'WNE', 'WFRHE'):
    for a in (1, 2, 3):
        stream_job('C15', q, act=a, tags=['act'])
