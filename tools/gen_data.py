#!/usr/bin/env python3
"""Format conversion of the Unicode Character Database 15.1.0 into the compact JSON
the TLA+ modules load (spec/data/*.json).

Run ONCE, at the pinned commit:  python3 tools/gen_data.py /repo/tools/ucd-tool/data/15.1.0
The output is committed; no check runs this script, so later edits of /repo cannot
move the oracle.  It only expands ranges, applies the @missing defaults documented in
the UCD files and factors the columns; every *derived* property (Math, Alphabetic,
InCB, full decompositions, Comp_Ex, XID, names of Hangul syllables and ideographs...)
is defined in TLA+ (spec/Ucd.tla, spec/Norm.tla), not here.
"""
import json, os, sys

SRC = sys.argv[1]
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'spec', 'data')
N = 0x110000
L = lambda f: json.load(open(os.path.join(SRC, f)))


def rng(k):
    p = k.split('..')
    return int(p[0], 16), int(p[-1], 16)


def column(f, default):
    t = [default] * N
    for k, v in L(f).items():
        a, b = rng(k)
        for c in range(a, b + 1):
            t[c] = v
    return t


def flags(ranges):
    t = [False] * N
    for r in ranges:
        a, b = rng(r)
        for c in range(a, b + 1):
            t[c] = True
    return t


A = L('PropertyValueAliases.json')
PA = L('PropertyAliases.json')
short = {v: k for k, v in PA.items()}


def inv(prop):
    d = {}
    for k, v in A[prop].items():
        d.setdefault(v, k)
    return d


def dump(name, obj):
    with open(os.path.join(OUT, name), 'w') as f:
        json.dump(obj, f, separators=(',', ':'), ensure_ascii=True)
        f.write('\n')


# ---- enumerated columns: values are the property value *idents* of the public enums ----
def pascal(k):
    return k.lower().title().replace('_', '')


loose = lambda s: s.lower().replace(' ', '').replace('_', '').replace('-', '')
blk_by_loose = {loose(full): ab for ab, full in A['blk'].items()}
cols = {}
cols['gc'] = column('extracted/DerivedGeneralCategory.json', 'Cn')
bcinv = inv('bc')
cols['bc'] = column('extracted/DerivedBidiClass.json', '')
cols['bc_missing'] = [bcinv[v] for v in column('extracted/DerivedBidiClass.missing.json', 'Left_To_Right')]
cols['ccc'] = [int(v) for v in column('extracted/DerivedCombiningClass.json', '0')]
i = inv('dt'); cols['dt'] = [i[v] for v in column('extracted/DerivedDecompositionType.json', 'None')]
i = inv('GCB'); cols['gcb'] = [i[v] for v in column('auxiliary/GraphemeBreakProperty.json', 'Other')]
i = inv('WB'); cols['wb'] = [i[v] for v in column('auxiliary/WordBreakProperty.json', 'Other')]
cols['hst'] = column('HangulSyllableType.json', 'NA')
cols['insc'] = column('IndicSyllabicCategory.json', 'Other')
cols['blk'] = [pascal(blk_by_loose[loose(v)]) for v in column('Blocks.json', 'No_Block')]
i = inv('sc'); cols['sc'] = [i[v] for v in column('Scripts.json', 'Unknown')]
cols['age'] = ['NA' if v == 'NA' else 'V' + v.replace('.', '_') for v in column('DerivedAge.json', 'NA')]
# ---- binary columns ----
for k, r in L('PropList.json').items():
    cols[short[k].lower()] = flags(r)
for k, r in L('emoji/emoji-data.json').items():
    n = short[k]
    cols['ext_pict' if n == 'ExtPict' else n.lower()] = flags(r)
cols['ce'] = flags(L('CompositionExclusions.json'))
names = list(cols)
vecs, vidx, lo, vi, percp = [], {}, [], [], []
prev = None
for c in range(N):
    v = tuple(cols[n][c] for n in names)
    if v not in vidx:
        vidx[v] = len(vecs) + 1
        vecs.append(v)
    j = vidx[v]
    percp.append(j)
    if j != prev:
        lo.append(c); vi.append(j); prev = j


def twostage(a, bs=256):
    s1, s2, seen = [], [], {}
    for b in range(0, N, bs):
        t = tuple(a[b:b + bs])
        if t not in seen:
            s2.append(t); seen[t] = len(s2)
        s1.append(seen[t])
    return {'s1': s1, 's2': s2}


ts = twostage(percp)
dump('atoms.json', {'lo': lo, 'vi': vi, 'vecs': [dict(zip(names, v)) for v in vecs],
                    's1': ts['s1'], 's2': ts['s2']})
print('columns', names); print('atoms', len(lo), 'vecs', len(vecs), 'blocks', len(ts['s2']))

# ---- decomposition mappings (Hangul syllables are NOT listed: algorithmic in TLA+) ----
dm, idx = [], [0] * N
for k, v in sorted(L('UnicodeData.json').items(), key=lambda kv: int(kv[0], 16)):
    d = v['dm']
    if not d:
        continue
    tag = ''
    if d.startswith('<'):
        tag, d = d.split('> '); tag = tag[1:]
    dm.append({'cp': int(k, 16), 'can': tag == '', 'map': [int(x, 16) for x in d.split(' ')]})
    idx[int(k, 16)] = len(dm)
ts = twostage(idx)
dn = L('DerivedNormalizationProps.json')
flat = lambda rs: [list(rng(r)) for r in rs]
dump('decomp.json', {'dm': dm, 's1': ts['s1'], 's2': ts['s2'],
                     'comp_ex_ranges': flat(dn['Full_Composition_Exclusion']),
                     'nfd_qc_no': flat(dn['NFD_QC']), 'nfkd_qc_no': flat(dn['NFKD_QC'])})
# ---- names ----
nm = {'cp': [], 'name': []}; ranges = []
for k, v in L('extracted/DerivedName.json').items():
    a, b = rng(k)
    if v.endswith('*'):
        ranges.append({'lo': a, 'hi': b, 'prefix': v[:-1]})
    elif 0xAC00 <= a <= 0xD7A3:
        continue
    else:
        assert a == b
        nm['cp'].append(a); nm['name'].append(v)
o = sorted(range(len(nm['cp'])), key=lambda j: nm['cp'][j])
ranges.sort(key=lambda r: r['lo'])
dump('names.json', {'cp': [nm['cp'][j] for j in o], 'name': [nm['name'][j] for j in o], 'ranges': ranges})
hn = {int(k, 16): v for k, v in L('extracted/DerivedName.json').items() if '..' not in k and 0xAC00 <= int(k, 16) <= 0xD7A3}
dump('hangul_names_check.json', [hn[c] for c in range(0xAC00, 0xD7A4)])
# ---- property value aliases ----
CCC = {'NR': 'Not_Reordered', 'OV': 'Overlay', 'HANR': 'Han_Reading', 'NK': 'Nukta', 'KV': 'Kana_Voicing',
       'VR': 'Virama', 'ATBL': 'Attached_Below_Left', 'ATB': 'Attached_Below', 'ATA': 'Attached_Above',
       'ATAR': 'Attached_Above_Right', 'BL': 'Below_Left', 'B': 'Below', 'BR': 'Below_Right', 'L': 'Left',
       'R': 'Right', 'AL': 'Above_Left', 'A': 'Above', 'AR': 'Above_Right', 'DB': 'Double_Below',
       'DA': 'Double_Above', 'IS': 'Iota_Subscript'}
al = {}
GROUPS = {'C', 'L', 'LC', 'M', 'N', 'P', 'S', 'Z'}   # gc groupings are not values
ident = {'Gc': lambda a, f: a, 'Gcb': lambda a, f: a, 'Hst': lambda a, f: a, 'Bc': lambda a, f: a,
         'Dt': lambda a, f: a, 'Sc': lambda a, f: a, 'Blk': lambda a, f: pascal(a),
         'Age': lambda a, f: f if a != 'NA' else 'NA', 'Wb': lambda a, f: a, 'Insc': lambda a, f: a,
         'Incb': lambda a, f: a, 'BinaryProperty': lambda a, f: a}
key = {'Gc': 'gc', 'Gcb': 'GCB', 'Hst': 'hst', 'Bc': 'bc', 'Dt': 'dt', 'Blk': 'blk', 'Sc': 'sc', 'Age': 'age',
       'Wb': 'WB', 'Insc': 'InSC', 'Incb': 'InCB', 'BinaryProperty': 'AHex'}
for e, p in key.items():
    al[e] = [{'ident': ident[e](a, f), 'abbr': a, 'full': f} for a, f in A[p].items()
             if not (e == 'Gc' and a in GROUPS)]
al['Ccc'] = [{'ident': a, 'abbr': a, 'full': CCC.get(a, a), 'num': int(n)} for n, a in A['ccc'].items() if n.isdigit()]
dump('aliases.json', al)
# ---- official conformance tests (used to validate the specification itself) ----
sp = lambda s: [int(x, 16) for x in s.split(' ')]
dump('normtest.json', sorted([[sp(k), sp(v['NFC']), sp(v['NFD']), sp(v['NFKC']), sp(v['NFKD'])]
                       for k, v in L('NormalizationTest.json').items()], key=lambda r: r[0]))
dump('gbtest.json', sorted([[sp(k), [len(sp(x)) for x in v]] for k, v in L('auxiliary/GraphemeBreakTest.json').items()], key=lambda r: r[0]))
