"""T07: a data set like the Unicode character database, but not it, in two forms: the JSON files the generator
reads (OUT) and the structure the specification reads (SPEC).
usage: synth_data.py PINNED OUT SPEC SEED

Starts from the pinned conversion (not from the repository's files) and changes what a new version of the standard
could change: values of ranges and single code points, blocks, missing values, mappings, classes, exclusions,
names, test cases.  Kept are the invariants the generator may rely on: the value names of 15.1, algorithmic Hangul, the
ranges of algorithmic names, canonical mappings of one or two characters, no two canonical mappings alike."""
import json, os, random, sys
PINNED, OUT, SPEC, SEED = sys.argv[1], sys.argv[2], sys.argv[3], int(sys.argv[4])
R = random.Random(SEED)
N = 0x110000
P = lambda f: json.load(open(os.path.join(PINNED, f)))
atoms, alias, names, decomp = P('atoms.json'), P('aliases.json'), P('names.json'), P('decomp.json')
keys = list(atoms['vecs'][0])
cols = {k: [None] * N for k in keys}
for j, (a, v) in enumerate(zip(atoms['lo'], atoms['vi'])):
    z = atoms['lo'][j + 1] if j + 1 < len(atoms['lo']) else N
    for k, x in atoms['vecs'][v - 1].items():
        cols[k][a:z] = [x] * (z - a)
SYL = range(0xAC00, 0xD7A4)
PROPLIST = keys[keys.index('wspace'):keys.index('ri') + 1]
EMOJI = ['emoji', 'epres', 'emod', 'ebase', 'ecomp', 'ext_pict']


def span():
    """a stretch of code points: often short, often at a border of blocks of a table"""
    n = R.choice([1, 1, 1, 2, 3, 7, 16, 63, 64, 65, 128, 200, 256, 511, 513, R.randrange(1, 5000)])
    a = R.randrange(0x3000) if R.random() < .4 else R.randrange(0x20000) if R.random() < .6 else R.randrange(N)
    if R.random() < .4:
        a = a // 64 * 64 + R.choice([0, 0, 1, -1, 63])
    if R.random() < .03:
        a = R.choice([0, N - n, 0xD800, 0xFFFF, 0x10000, 0x10FFFF])
    a = max(0, a)
    return a, min(N, a + n)


def paint(k, values, many, keep=lambda c: False, dense=0):
    col = cols[k]
    for _ in range(many):
        a, z = span()
        v = R.choice(values) if R.random() < .8 else col[R.randrange(N)]
        for c in range(a, z):
            if not keep(c):
                col[c] = v
    if dense:                          # many different blocks: an index of two bytes
        a = R.choice([0x1000, 0x40000, 0xE1000])
        for b in range(dense):
            for j in R.sample(range(64), 5):
                c = a + b * 64 + j
                if not keep(c):
                    col[c] = R.choice(values)


ids = lambda e: [r['ident'] for r in alias[e]]
dense = set(R.sample(['gc', 'sc', 'wb', 'gcb', 'insc', 'bc', 'age', 'blk', 'emoji', 'ccc', 'hst'], 4))
D = lambda k: R.choice([150, 300, 600]) if k in dense else 0
hangul = lambda c: 0xAC00 <= c <= 0xD7AF
for k, e in (('gc', 'Gc'), ('sc', 'Sc'), ('wb', 'Wb'), ('gcb', 'Gcb'), ('insc', 'Insc'), ('age', 'Age'), ('blk', 'Blk')):
    used = sorted(set(cols[k]))
    paint(k, [v for v in ids(e) if v in used or R.random() < .5], 150, dense=D(k))
paint('hst', ['L', 'V', 'T', 'NA'], 60, hangul, D('hst'))
paint('bc', [''] + ids('Bc'), 150, dense=D('bc'))
for k in PROPLIST:
    paint(k, [True, False], R.choice([0, 2, 15, 40]))
for k in EMOJI:
    paint(k, [True, False], R.choice([2, 30, 60]), dense=D(k))
# the very first and last code points, each for itself
DEFAULT = {'gc': 'Cn', 'blk': 'Nb', 'sc': 'Zzzz', 'age': 'NA', 'hst': 'NA', 'gcb': 'XX', 'wb': 'XX', 'insc': 'Other', 'bc': ''}
for k in list(DEFAULT) + EMOJI + PROPLIST:
    if R.random() < .7:
        for a in (0, N - 4):
            pool = [x for x in R.sample(cols[k], 300) if x not in ('LV', 'LVT')]
            v = [R.choice(pool) for _ in range(4)]
            if R.random() < .6:        # the default, and then at once something else
                v[0 if a == 0 else 3] = DEFAULT.get(k, False)
                v[1 if a == 0 else 2] = R.choice([x for x in pool if x != DEFAULT.get(k, False)] or [cols[k][0x41]])
            cols[k][a:a + 4] = v
# missing values of bc: overlapping stretches, the last one that contains a code point counts
missing = [[0, N, 'L']] if R.random() < .7 else []
bcs = ids('Bc')
for _ in range(R.randrange(4, 30)):
    a, z = span()
    z = min(N, z + R.choice([0, 100, 3000]))
    missing.append([a, z, R.choice(bcs)])
cols['bc_missing'] = ['L'] * N
for a, z, v in missing:
    cols['bc_missing'][a:z] = [v] * (z - a)
# ---- decomposition mappings and combining classes
dm = {d['cp']: (d['can'], d['map']) for d in decomp['dm']}
TAGS = {'Com': 'compat', 'Enc': 'circle', 'Fin': 'final', 'Font': 'font', 'Fra': 'fraction', 'Init': 'initial', 'Iso': 'isolated', 'Med': 'medial',
        'Nar': 'narrow', 'Nb': 'noBreak', 'Sml': 'small', 'Sqr': 'square', 'Sub': 'sub', 'Sup': 'super', 'Vert': 'vertical', 'Wide': 'wide'}
dt = {c: cols['dt'][c] for c in dm}
classes = [r['num'] for r in alias['Ccc'] if r['num'] in set(cols['ccc'])]
parts = set(x for _, m in dm.values() for x in m)
for c in R.sample([c for c in dm if c not in parts], 60):
    del dm[c], dt[c]
parts = set(x for _, m in dm.values() for x in m)
jamo = lambda c: 0x1100 <= c <= 0x11FF or 0xAC00 <= c <= 0xD7FF or 0xD800 <= c <= 0xDFFF
free = lambda c: c not in dm and c not in parts and not jamo(c) and c > 0x7F
marks = [c for c in range(N) if cols['ccc'][c] and c not in dm and not jamo(c)]
# classes of marks outside every mapping change; some other characters become marks
for c in R.sample([c for c in marks if c not in parts], 60):
    cols['ccc'][c] = R.choice(classes)
for _ in range(40):
    a, z = span()
    v = R.choice(classes)
    for c in range(a, min(z, a + 70)):
        if free(c):
            cols['ccc'][c] = v
if 'ccc' in dense:
    for b in range(300):
        for j in R.sample(range(64), 3):
            c = 0x60000 + b * 64 + j
            cols['ccc'][c] = R.choice(classes)
marks = [c for c in range(N) if cols['ccc'][c] and c not in dm and not jamo(c)]
pairs = set(tuple(m) for can, m in dm.values() if can)
plain = lambda: R.choice([R.randrange(0x61, 0x7B), R.randrange(0x370, 0x3FF), R.randrange(0x900, 0xDFF), R.randrange(0x10000, 0x12000), R.randrange(0x4E00, 0x9FFF), R.randrange(0x100000, 0x10FFFE)])
for _ in range(150):
    c = R.choice([R.randrange(0x80, 0x3000), R.randrange(0x1E000, 0x20000), R.randrange(0x50000, 0x52000), R.randrange(0x3400, 0xA000)])
    if not free(c):
        continue
    if R.random() < .5:                # canonical: a pair, sometimes on another pair, sometimes one character
        first = R.choice([plain(), R.choice([x for x, (k, m) in dm.items() if k and len(m) == 2])])
        m = [first, R.choice(marks) if R.random() < .8 else plain()] if R.random() < .8 else [plain()]
        if tuple(m) in pairs or c in m or cols['ccc'][c] or any(jamo(x) for x in m) or cols['ccc'][first] or first == 0:
            continue
        if any(x in dm and not dm[x][0] for x in m) or len(m) == 2 and m[1] in dm:
            continue
        pairs.add(tuple(m))
        dm[c], dt[c] = (True, m), 'Can'
    else:
        m = [R.choice([plain(), R.choice(marks), 0x20, R.randrange(0x1100, 0x1113), R.randrange(0xAC00, 0xD7A4), R.choice(list(dm))]) for _ in range(R.choice([1, 1, 2, 3, 5, 18, 19, 24]))]
        if c in m or any(x not in dm and free(x) and cols['ccc'][x] == 0 and 0x80 <= x < 0x3000 and R.random() < .01 for x in m):
            continue
        dm[c], dt[c] = (False, m), R.choice(list(TAGS))
    parts.update(dm[c][1])
    cols['ccc'][c] = 0
# no mapping may lead back to itself
def leads(c, seen=()):
    return c in seen or (c in dm and any(leads(x, seen + (c,)) for x in dm[c][1]))
for c in sorted(dm):
    while c in dm and leads(c):
        del dm[c], dt[c]
cols['dt'] = ['None'] * N
for c in SYL:
    cols['dt'][c] = 'Can'
for c, t in dt.items():
    cols['dt'][c] = t
two = sorted(c for c, (k, m) in dm.items() if k and len(m) == 2)
cols['ce'] = [False] * N
for c in R.sample(two, R.choice([1, 40, 200])):
    cols['ce'][c] = True
# ---- names
named = dict(zip(names['cp'], names['name']))
ranged = lambda c: c in SYL or any(r['lo'] <= c <= r['hi'] for r in names['ranges'])
for c in R.sample(sorted(named), 300):
    if R.random() < .5:
        named[c] = 'CHARACTER %s WITH %s-%d' % (R.choice(['ALPHA', 'BE', 'X']), R.choice(['HOOK', 'DOT BELOW', 'TAIL']), c)
    else:
        del named[c]
for _ in range(300):
    c = span()[0]
    if not ranged(c):
        named[c] = 'NEW SIGN %X' % (c * 7)

# ---------------------------------------------------------------- the specification's form
os.makedirs(SPEC, exist_ok=True)


def spec(name, obj):
    json.dump(obj, open(os.path.join(SPEC, name), 'w'), separators=(',', ':'))


def twostage(a, bs=256):
    s1, s2, seen = [], [], {}
    for b in range(0, N, bs):
        t = tuple(a[b:b + bs])
        if t not in seen:
            s2.append(t)
            seen[t] = len(s2)
        s1.append(seen[t])
    return {'s1': s1, 's2': s2}


vecs, vidx, lo, vi, per, prev = [], {}, [], [], [], None
for c, v in enumerate(zip(*(cols[k] for k in keys))):
    j = vidx.get(v)
    if j is None:
        vecs.append(v)
        j = vidx[v] = len(vecs)
    per.append(j)
    if j != prev:
        lo.append(c)
        vi.append(j)
        prev = j
spec('atoms.json', dict({'lo': lo, 'vi': vi, 'vecs': [dict(zip(keys, v)) for v in vecs]}, **twostage(per)))
idx = [0] * N
rows = []
for c in sorted(dm):
    rows.append({'cp': c, 'can': dm[c][0], 'map': dm[c][1]})
    idx[c] = len(rows)
spec('decomp.json', dict({'dm': rows, 'comp_ex_ranges': [], 'nfd_qc_no': [], 'nfkd_qc_no': []}, **twostage(idx)))
cs = sorted(named)
spec('names.json', {'cp': cs, 'name': [named[c] for c in cs], 'ranges': names['ranges']})
spec('aliases.json', alias)

# ---------------------------------------------------------------- the generator's form
X = lambda c: '%04X' % c


def key(a, z):
    return X(a) if z - a == 1 else X(a) + '..' + X(z - 1)


def runs(col, default, show, explicit=.2):
    """the stretches of a column, cut and mixed: the order of a data file means nothing"""
    got, a, cut = [], 0, R.choice([.02, .05, .3])
    while a < N:
        z = a + 1
        while z < N and col[z] == col[a]:
            z += 1
        if col[a] != default or (default is not None and R.random() < explicit and z - a < 3000):
            p = a
            while p < z:
                q = min(z, p + R.randrange(1, 400)) if R.random() < cut else z
                got.append((key(p, q), show(col[a])))
                p = q
        a = z
    order = R.randrange(4)
    if order == 1:
        R.shuffle(got)
    if order == 2:
        got.reverse()
    if order == 3:                     # groups, as in files that list value by value
        got.sort(key=lambda x: str(x[1]))
    return dict(got)


full = lambda e: {r['ident']: r['full'] for r in alias[e]}
same = lambda v: v


def put(name, obj):
    p = os.path.join(OUT, name)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    json.dump(obj, open(p, 'w'), indent=2)


def block(v):
    s = full('Blk')[v]
    return s.replace('_', ' ') if R.random() < .5 else ''.join(R.choice(' -') if x == '_' else x for x in s)


blocknames = {v: block(v) for v in ids('Blk')}
gcs = full('Gc')
put('extracted/DerivedGeneralCategory.json', runs(cols['gc'], None, same))
put('Blocks.json', runs(cols['blk'], 'Nb', lambda v: blocknames[v]))
put('Scripts.json', runs(cols['sc'], 'Zzzz', lambda v: full('Sc')[v]))
listed = lambda d: {k: v for k, v in d.items() if v}
put('DerivedAge.json', listed(runs(cols['age'], 'NA', lambda v: '' if v == 'NA' else v[1:].replace('_', '.'))))
put('HangulSyllableType.json', runs(cols['hst'], 'NA', same))
put('auxiliary/GraphemeBreakProperty.json', runs(cols['gcb'], 'XX', lambda v: full('Gcb')[v]))
put('auxiliary/WordBreakProperty.json', runs(cols['wb'], 'XX', lambda v: full('Wb')[v]))
put('IndicSyllabicCategory.json', runs(cols['insc'], 'Other', same))
put('extracted/DerivedBidiClass.json', listed(runs(cols['bc'], '', same)))
put('extracted/DerivedBidiClass.missing.json', {})
bcf = full('Bc')
put('extracted/DerivedBidiClass.missing.json', {key(a, z): bcf[v] for a, z, v in missing if z > a})
put('extracted/DerivedCombiningClass.json', runs(cols['ccc'], 0, str))
dtf = full('Dt')
put('extracted/DerivedDecompositionType.json', runs(cols['dt'], 'None', lambda v: dtf[v]))
short = {'emoji': 'Emoji', 'epres': 'EPres', 'emod': 'EMod', 'ebase': 'EBase', 'ecomp': 'EComp', 'ext_pict': 'ExtPict'}
aliases = json.load(open(os.path.join(OUT, 'PropertyAliases.json')))
lower = {k.lower(): v for k, v in aliases.items()}


def groups(ks, name):
    order = list(ks)
    R.shuffle(order)
    got = {}
    for k in order:
        rs = list(runs(cols[k], False, same, 0))
        got[name(k)] = rs
    return got


put('PropList.json', groups(PROPLIST, lambda k: lower[k]))
put('emoji/emoji-data.json', groups(EMOJI, lambda k: aliases[short[k]]))
put('CompositionExclusions.json', R.sample([X(c) for c in range(N) if cols['ce'][c]], sum(cols['ce'])))
ud = {}
for c in sorted(set(dm) | set(range(0x20, 0x300))):
    can, m = dm.get(c, (True, []))
    ud[X(c)] = {'na': named.get(c, ''), 'gc': cols['gc'][c], 'ccc': str(cols['ccc'][c]), 'bc': cols['bc'][c],
                'dm': ('' if can else '<%s> ' % TAGS[dt[c]]) + ' '.join(X(x) for x in m)}
put('UnicodeData.json', ud)
nm = [(X(c), n) for c, n in named.items()] + [(key(r['lo'], r['hi'] + 1), r['prefix'] + '*') for r in names['ranges']]
nm += [(X(c), 'HANGUL SYLLABLE %X' % c) for c in SYL]      # derived: what the file says does not matter
put('extracted/DerivedName.json', dict(sorted(nm, key=lambda x: int(x[0].split('.')[0], 16))))

# ---------------------------------------------------------------- test cases: any rows
H = lambda s: ' '.join(X(c) for c in s)
word = lambda n: [R.choice([R.randrange(0x20, 0x7F), R.choice(marks), R.randrange(0xAC00, 0xD7A4), R.choice([0, 9, 10, 13, 0x22, 0x27, 0x5C, 0x7B, 0x7D, 0x7F, 0x200D]),
                            R.randrange(0x10000, 0x110000), R.choice(list(dm))]) for _ in range(n)]
gb, nt = {}, {}
for _ in range(300):
    s = word(R.randrange(1, 9))
    cl, i = [], 0
    while i < len(s):
        j = i + R.choice([1, 1, 2, 3])
        cl.append(s[i:j])
        i = j
    gb[H(s)] = [H(x) for x in cl]
    nt[H(s)] = {f: H(word(R.randrange(1, 7))) for f in ('NFC', 'NFD', 'NFKC', 'NFKD')}
put('auxiliary/GraphemeBreakTest.json', gb)
put('NormalizationTest.json', nt)
L = lambda s: [int(x, 16) for x in s.split(' ')]
spec('gbtest.json', sorted([L(k), [len(L(x)) for x in v]] for k, v in gb.items()))
spec('normtest.json', sorted([L(k), L(v['NFC']), L(v['NFD']), L(v['NFKC']), L(v['NFKD'])] for k, v in nt.items()))
json.dump({'dense': sorted(dense), 'mappings': len(dm), 'atoms': len(lo), 'vectors': len(vecs), 'names': len(named),
           'missing': len(missing), 'exclusions': sum(cols['ce'])}, open(os.path.join(SPEC, 'summary.json'), 'w'))
