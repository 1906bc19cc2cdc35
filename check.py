#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property of seshat-unicode.

Every check follows the same pattern: TLC checks the TLA+ specification (spec/*.tla), and the
specification is bound to the code either by replaying what TLC exports into the real library
(harness/) or by having TLC validate traces recorded from the real library."""
import json, os, random, re, shutil, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import core

PROPS = {}


def TEXTS(path):
    return len(json.load(open(path))['texts'])


def prop(pid):
    def d(f):
        PROPS[pid] = f
        return f
    return d


# ------------------------------------------------------------------ property tables
def sweep(c, cols):
    """All code points, both receivers, run-length encoded; validated by TLC against Ucd.tla."""
    t = c.path('sweep.json')
    if not c.harness('sweep', t, ','.join(cols)):
        return None
    d = json.load(open(t))
    c.tlc('PropSweep', VTRACE=t)
    c.traces += len(d['lo'])
    c.exhaustive = True
    c.notes['code_points'] = 0x110000
    c.notes['queries_observed'] = len(cols) * (0x110000 + 0x110000 - 2048)
    for j in (0, len(d['lo']) // 3, len(d['lo']) // 2, len(d['lo']) - 1):
        c.sample({'first_code_point': '%04X' % d['lo'][j], 'answers': dict(zip(d['cols'], d['vecs'][d['vi'][j] - 1]))})
    c.assumptions += ['spec/data/atoms.json is a faithful conversion of the UCD 15.1.0 files (cross-checked against the '
                      'JSON data, Perl 15.0 and Node tables; see DESIGN.md)']
    return d


PROPLIST = ('wspace bidi_c join_c dash hyphen qmark term omath hex ahex oalpha ideo dia ext olower oupper nchar ogr_ext '
            'idsb idst radical uideo odi dep sd loe oids oidc sterm vs pat_ws pat_syn pcm ri').split()


PROPSWEEP = ('gc bc ccc dt gcb wb hst insc blk sc age incb math alpha lower upper cased ci di gr_ext '
             'emoji epres emod ebase ecomp ext_pict').split() + PROPLIST


@prop('U01')
def u01(c): sweep(c, 'gc bc ccc gcb wb hst insc'.split())


@prop('U02')
def u02(c): sweep(c, 'blk sc age'.split())


@prop('U03')
def u03(c): sweep(c, PROPLIST)


@prop('U04')
def u04(c): sweep(c, 'emoji epres emod ebase ecomp ext_pict'.split())


@prop('U05')
def u05(c): sweep(c, 'math alpha lower upper cased ci di gr_ext'.split())


@prop('U07')
def u07(c): sweep(c, ['incb'])


# ---------------------------------------------------------------------- segmentation
def machine(c):
    """TLC exports the grapheme machine; plain-text form for the harness."""
    j, t = c.path('machine.json'), c.path('machine.txt')
    c.tlc('GraphemeExport', model=True, VOUT=j)
    m = json.load(open(j))
    with open(t, 'w') as f:
        f.write('%d %d %d %d\n' % (len(m['classes']), len(m['delta']), len(m['lo']), m['nfine']))
        for r in m['delta'] + m['brk']:
            f.write(' '.join(map(str, r)) + '\n')
        for a in zip(m['lo'], m['cls'], m['fine']):
            f.write('%d %d %d\n' % a)
    return m, t


@prop('P01')
def p01(c):
    c.tlc('GraphemeMC', model=True, cfg='GraphemeMC5.cfg' if c.thorough else 'GraphemeMC.cfg')
    if c.thorough:
        c.tlaps('GraphemeProof', 'GraphemeAutomaton', 'GraphemeRules')
    m, t = machine(c)
    o = c.path('texts.json')
    if not c.harness('boundaries', o, t):
        return
    d = json.load(open(o))
    c.tlc('GraphemeTrace', VTRACE=o, expect=TEXTS(o))
    if d['mismatches'] and not c.violations:
        # only texts too long for the declarative rules can differ without TLC having seen it
        c.violation({'kind': 'replay-differs-from-machine', 'count': d['mismatches'], 'shortest': d['shortest']})
    c.traces += len(d['texts'])
    c.notes['replayed_texts'] = d['counts']
    c.notes['machine'] = {'states': len(m['delta']), 'classes': len(m['classes'])}
    c.sample(*d['texts'][:6])
    c.assumptions += ['look-behind dependence of the code on more than class, script and position is sampled, not exhausted']


@prop('P02')
def p02(c):
    m, t = machine(c)
    o = c.path('protocol.json')
    if not c.harness('protocol', o, t):
        return
    d = json.load(open(o))
    c.tlc('GraphemeIter', VTRACE=o)
    c.traces += sum(len(x['drives']) for x in d['texts'])
    c.notes['texts'] = len(d['texts'])
    c.notes['iterator_calls'] = sum(len(y) for x in d['texts'] for y in x['drives'])
    c.sample(*[{'text': x['s'][:40], 'pieces': x['pieces'][:8], 'drive': x['drives'][0][:6]} for x in d['texts'][5:400:80] if x['drives']])


@prop('P03')
def p03(c):
    c.tlc('GraphemeMC', model=True, cfg='GraphemeMC5.cfg' if c.thorough else 'GraphemeMC.cfg')
    if c.thorough:
        c.tlaps('GraphemeProof', 'GraphemeAutomaton', 'GraphemeRules')
    m, t = machine(c)
    o = c.path('local.json')
    if not c.harness('locality', o, t):
        return
    d = json.load(open(o))
    c.tlc('GraphemeLocal', VTRACE=o, expect=TEXTS(o))
    c.traces += len(d['texts'])
    c.notes['texts_searched_for_suspects'] = d['scanned']
    c.sample(*d['texts'][3:600:120])


# --------------------------------------------------------------------- normalization
def alphabet(c):
    """TLC exports the character classes normalization distinguishes; plain-text form for the harness."""
    j, t = c.path('norm.json'), c.path('alpha.txt')
    # on other data than Unicode's, pairs need not recompose: the law is about the Unicode data only
    c.tlc('NormExport', model=True, VOUT=j, cfg=None if c.data == core.DATA else 'NormExportAny.cfg')
    m = json.load(open(j))
    with open(t, 'w') as f:
        for k in ('firsts', 'seconds', 'can', 'compat', 'excl', 'inert'):
            f.write('%s %s\n' % (k, ' '.join(map(str, m[k]))))
        for p in m['pairs']:
            f.write('pair %d %d %d\n' % tuple(p))
        for d in m['full']:
            f.write('full %s\n' % ' '.join(map(str, [d['c'], len(d['can'])] + d['can'] + d['com'])))
        for x in m['exclmap']:
            f.write('exclmap %s\n' % ' '.join(map(str, x)))
        by = {}
        for cc, x in m['marks']:
            by.setdefault(cc, []).append(x)
        for cc in sorted(by):
            f.write('ccc %d %s\n' % (cc, ' '.join(map(str, by[cc]))))
    return m, t


def rand_templates(c, m, n, salt):
    """n templates around the character (-1): composing and reordering neighbours drawn from the export."""
    r = random.Random('%d %s' % (c.seed, salt))
    neigh = m['firsts'] + m['seconds'] * 3 + [x[1] for x in m['marks']] + m['can'] + m['compat']
    out = []
    for _ in range(n):
        t = [r.choice(neigh) for _ in range(r.randrange(0, 4))] + [-1] + [r.choice(neigh) for _ in range(r.randrange(0, 4))]
        out.append(','.join('-1' if x < 0 else '%X' % x for x in t))
    return out


TEMPLATES = ['-1', '61,-1,301,327', '1100,-1,11A8', '41,30A,-1,301', '-1,-1', 'AC00,-1', '9C7,-1,9BE', '61,323,-1,307', '20,-1,20', '-1,-1,-1,-1,-1']


def normstrings(c, alpha, forms, fams, ntlc=1):
    o = c.path('nstr-%s.json' % '-'.join(forms))
    if not c.harness('nstr', o, alpha, ','.join(forms), ','.join('%s:%d' % f for f in fams)):
        return
    d = json.load(open(o))
    c.tlc('NormTrace', VTRACE=o, expect=TEXTS(o))
    c.traces += len(d['texts']) * len(forms)
    c.notes.setdefault('texts', {}).update(d['counts'])
    c.sample(*[dict(zip(['text'] + forms, x)) for x in d['texts'][:4]])
    return o


def normform(c, form, mc, fams):
    for cfg in (mc if c.thorough else mc[:1]):
        c.tlc('NormMC', model=True, cfg='NormMC_%s.cfg' % cfg)
    m, alpha = alphabet(c)
    ts = TEMPLATES + rand_templates(c, m, 40 if c.thorough else 4, form)
    per = 12
    for k in range(0, len(ts), per):
        o = c.path('nctx%d.json' % k)
        if not c.harness('nctx', o, form, ';'.join(ts[k:k + per])):
            return
        c.tlc('NormCtx', VTRACE=o)
        os.remove(o)
    c.exhaustive = True
    c.traces += 1112064 * len(ts)
    c.notes['every_scalar_value_in_contexts'] = ts
    mul = 6 if c.thorough else 1
    normstrings(c, alpha, [form], [(f, n if f in FIXED else n * mul) for f, n in fams])


FIXED = {'chains', 'words', 'pairs', 'lvt', 'hsyll', 'jamo3', 'classes', 'empty'}
DFAM = [('empty', 1), ('chains', 1), ('pairs', 6000), ('classes', 1500), ('mixed', 5000), ('runs', 250), ('longruns', 20), ('decomposables', 7000),
        ('words', 4), ('jamo', 1000), ('ascii', 300), ('excluded', 3000), ('padded', 5000), ('longtext', 128), ('block', 6000), ('scout', 4)]
CFAM = [('empty', 1), ('chains', 2), ('pairs', 12000), ('blocked', 7000), ('classes', 1000), ('mixed', 6000), ('runs', 200), ('longruns', 14),
        ('decomposables', 4000), ('words', 4), ('jamo', 1500), ('ascii', 300), ('excluded', 4000), ('padded', 6000), ('longtext', 128), ('block', 6000), ('scout', 4)]


@prop('N01')
def n01(c): normform(c, 'nfd', ['A', 'H', 'I', 'K'], DFAM)


@prop('N02')
def n02(c): normform(c, 'nfkd', ['KK', 'AK', 'HK', 'IK'], DFAM)


@prop('N03')
def n03(c): normform(c, 'nfc', ['I', 'A', 'H', 'K'], CFAM)


@prop('N04')
def n04(c): normform(c, 'nfkc', ['AK', 'IK', 'HK', 'KK'], CFAM)


@prop('N05')
def n05(c):
    m, alpha = alphabet(c)
    k = 8 if c.thorough else 1
    o = c.path('laws.json')
    ts = ['-1', '61,-1,301', '20,-1,20'] + rand_templates(c, m, 12 if c.thorough else 2, 'laws')
    if c.harness('nlaws', o, alpha, ';'.join(ts), 'mixed:%d,blocked:%d,decomposables:%d,runs:%d,words:4,jamo:%d,excluded:3000,longruns:10,longtext:64,block:3000,scout:%d' % (
            5000 * k, 3000 * k, 5000 * k, 100 * k, 1000 * k, k)):
        c.tlc('NormLaws', VTRACE=o, expect=TEXTS(o))
        d = json.load(open(o))
        c.traces += len(d['texts']) * 20
        c.exhaustive = True
        c.notes['every_scalar_value_in_contexts'] = ts
        c.sample(*d['texts'][100:4000:1000])
    # canonical equivalence: TLC explores the rewriting machine, the library must not tell its states apart
    s = c.path('seeds.json')
    if not c.harness('ntexts', s, alpha, 'mixed:%d,decomposables:%d,blocked:%d,excluded:200,jamo:200,canon:200' % (400 * k, 400 * k, 300 * k)):
        return
    out = c.tlc('NormEquiv', model=True, VSEEDS=s)
    pairs = {(a, b) for a, b in re.findall(r'"PAIR <<([^>]*)>>\|<<([^>]*)>>"', out) if a != b}
    f = c.path('pairs.txt')
    with open(f, 'w') as h:
        for a, b in sorted(pairs):
            h.write('%s|%s\n' % (a.replace(',', '').strip(), b.replace(',', '').strip()))
    o = c.path('pairs.json')
    if c.harness('npairs', o, f):
        c.tlc('NormPairs', VTRACE=o, expect=TEXTS(o))
        c.traces += 24 * len(pairs)
        c.notes['canonically_equivalent_pairs_replayed'] = len(pairs)
        c.sample(*sorted(pairs)[::max(1, len(pairs) // 4)][:4])


@prop('N06')
def n06(c):
    m, alpha = alphabet(c)
    k = 6 if c.thorough else 1
    c.tlc('NormMC', model=True, cfg='NormMC_A.cfg')
    normstrings(c, alpha, ['nfd', 'nfkd', 'nfc', 'nfkc'], [('runs', 700 * k), ('longruns', 56 * k), ('hugeruns', 4 * k), ('classes', 4000 * k), ('mixed', 1500 * k), ('block', 3000 * k), ('scoutmarks', k)])
    ts = ['-1,-1,-1', '61,-1,-1,-1,-1,62'] + rand_templates(c, m, 8 if c.thorough else 0, 'order')
    for form in ('nfd', 'nfc', 'nfkd', 'nfkc'):
        o = c.path('nctx-%s.json' % form)
        if c.harness('nctx', o, form, ';'.join(ts)):
            c.tlc('NormCtx', VTRACE=o)
            os.remove(o)
    sweep(c, ['ccc'])


@prop('N07')
def n07(c):
    m, alpha = alphabet(c)
    c.tlc('NormMC', model=True, cfg='NormMC_H.cfg')
    k = 10 if c.thorough else 1
    normstrings(c, alpha, ['nfd', 'nfc', 'nfkd', 'nfkc'],
                [('hsyll', 2), ('lvt', 29), ('jamo3', 1), ('jamo', 5000 * k), ('padded', 600 * k), ('longtext', 64), ('scouthangul', k)])
    o = c.path('names.json')
    if c.harness('names', o):
        c.tlc('NamesTrace', VTRACE=o)
    o = c.path('mappings.json')
    if c.harness('mappings', o):
        c.tlc('MappingTrace', VTRACE=o)
    sweep(c, ['hst', 'dt'])


@prop('N08')
def n08(c):
    m, alpha = alphabet(c)
    t, o = c.path('ce.json'), c.path('n08.json')
    k = 8 if c.thorough else 1
    if not c.harness('sweep', t, 'ce,comp_ex') or not c.harness(
            'nstr', o, alpha, 'nfd,nfc,nfkd,nfkc', 'excluded:%d,pairs:%d,decomposables:%d,mixed:%d,blocked:%d,padded:%d,longtext:64,scout:%d' % (
                6000 * k, 8000 * k, 12000 * k, 6000 * k, 4000 * k, 3000 * k, k)):
        return
    c.tlc('Exclusion', VTRACE=t, VTRACE2=o)
    d = json.load(open(o))
    c.traces += len(d['texts']) * 4
    c.exhaustive = True
    c.notes['excluded_characters'] = len(m['excl'])
    c.notes['primary_composites'] = len(m['pairs'])
    c.notes['texts'] = d['counts']
    c.sample(*d['texts'][:5])


@prop('N09')
def n09(c):
    m, alpha = alphabet(c)
    r = random.Random('%d n09' % c.seed)
    sp = ['61|-1', '1100|-1', '-1|301', '-1|11A8']
    pick = lambda k: ','.join('%X' % r.choice(m[k] if k != 'marks' else [x[1] for x in m['marks']]) for _ in range(r.randrange(1, 3)))
    for _ in range(10 if c.thorough else 2):
        sp += ['%s|-1' % pick(r.choice(['firsts', 'can', 'compat'])), '-1|%s' % pick(r.choice(['seconds', 'marks', 'can']))]
    c.tlc('NormMC', model=True, cfg='NormMC_K.cfg')
    o = c.path('concat.json')
    if not c.harness('nconcat', o, alpha, ';'.join(sp), 160000 if c.thorough else 20000):
        return
    c.tlc('NormConcat', VTRACE=o, expect=TEXTS(o))
    d = json.load(open(o))
    c.traces += len(d['texts']) * 4
    c.exhaustive = True
    c.notes['every_scalar_value_split'] = sp
    c.sample(*d['texts'][10:5000:1200])


# -------------------------------------------------------- more of the property database
@prop('U06')
def u06(c):
    t = c.path('ids.json')
    if c.harness('sweep', t, 'ids,idc,xids,xidc'):
        d = json.load(open(t))
        c.tlc('IdentSweep', VTRACE=t)
        c.traces += len(d['lo'])
        c.exhaustive = True
    m, alpha = alphabet(c)
    o = c.path('closure.json')
    if c.harness('closure', o, alpha, 300000 if c.thorough else 40000):
        c.tlc('IdentClosure', VTRACE=o, expect=TEXTS(o))
        d = json.load(open(o))
        c.traces += len(d['texts'])
        c.sample(*d['texts'][:5000:1000])


@prop('U08')
def u08(c):
    o = c.path('names.json')
    if c.harness('names', o):
        c.tlc('NamesTrace', VTRACE=o)
        d = json.load(open(o))
        rows = d[[k for k in d if isinstance(d[k], list)][0]]
        c.traces += len(rows)
        c.exhaustive = True
        c.sample(*rows[::max(1, len(rows) // 6)][:6])


@prop('U09')
def u09(c):
    o = c.path('mappings.json')
    if c.harness('mappings', o):
        c.tlc('MappingTrace', VTRACE=o)
        d = json.load(open(o))
        c.traces += len(d['rows'])
        c.sample(*d['rows'][100:9000:2000])
    sweep(c, ['dt'])


@prop('U10')
def u10(c):
    t, o = c.path('all.json'), c.path('agree.json')
    if c.harness('sweep', t, 'ALL') and c.harness('agree', o):
        d = json.load(open(t))
        c.tlc('Receivers', VTRACE=t, VTRACE2=o)
        c.traces += len(d['lo'])
        c.exhaustive = True
        c.notes['queries'] = len(d['cols']) + 3
        c.sample(d['cols'], d['vecs'][0])


@prop('U11')
def u11(c):
    o = c.path('aliases.json')
    if c.harness('aliases', o):
        c.tlc('Aliases', VTRACE=o)
        d = json.load(open(o))
        rows = d[[k for k in d if isinstance(d[k], list)][0]]
        c.traces += len(rows)
        c.exhaustive = True
        c.sample(*rows[::max(1, len(rows) // 6)][:6])


@prop('U14')
def u14(c):
    t = c.path('inv.json')
    if c.harness('sweep', t, 'ALL,na_empty,dm_empty,nfd_same,nfkd_same,nfc_same,nfkc_same'):
        d = json.load(open(t))
        c.tlc('Invariants', VTRACE=t, expect=len(d['lo']))
        c.traces += len(d['lo'])
        c.exhaustive = True
        c.notes['laws'] = len(re.findall(r'^  <<"', open(os.path.join(core.SPEC, 'Invariants.tla')).read(), re.M))
        c.sample(d['cols'], d['vecs'][5])


def simple(c, cmd, module):
    o = c.path(cmd + '.json')
    if c.harness(cmd, o):
        c.tlc(module, VTRACE=o)
        d = json.load(open(o))
        rows = max((d[k] for k in d if isinstance(d[k], list)), key=len)
        c.traces += len(rows)
        c.sample(*rows[::max(1, len(rows) // 5)][:5])
        return d


@prop('U12')
def u12(c):
    simple(c, 'codepoints', 'CodePoints')
    c.exhaustive = True


@prop('U13')
def u13(c): simple(c, 'versions', 'Versions')


@prop('T01')
def t01(c): simple(c, 'tables', 'TwoStage')


@prop('T02')
def t02(c):
    c.tlc('TwoStageMC', model=True)
    if c.thorough:
        c.tlc('TwoStageMC', model=True, cfg='TwoStageMC12.cfg')
        c.tlaps('TwoStageProof', 'TwoStageBuilder')
    out = c.path('builder')
    os.makedirs(out)
    c.bin                                        # the library itself compiles
    driver(c, 'table_builder.py', out, c.seed, c.tier)
    cs = json.load(open(os.path.join(out, 'configs.json')))
    for x in cs:
        if x['raised']:
            c.violation({'kind': 'builder-raised', 'case': {k: x[k] for k in ('id', 'style', 'bs', 'default', 'missing')},
                         'data': x['data'][:20], 'detail': x['raised']})
    crate, target = os.path.join(out, 'crate'), os.path.join(core.BUILD, 'builder-target')
    shutil.copy(os.path.join(core.ROOT, 'harness', 'Cargo.lock'), crate)
    env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE='true')
    p = subprocess.run(['cargo', 'build', '--release', '--offline', '--quiet'], cwd=crate, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        if 'error' not in p.stdout or 'error: failed to' in p.stdout:
            raise core.ToolError(p.stdout[-3000:])
        c.violation({'kind': 'emitted-table-does-not-compile', 'detail': p.stdout[:3000]})
        return
    p = subprocess.run([os.path.join(target, 'release', 'tables')], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode != 0:
        c.violation({'kind': 'emitted-table-crashes', 'detail': p.stderr[-2000:]})
        return
    seen = {}
    for line in p.stdout.splitlines():
        i, lo, val = line.split('\t')
        seen[i] = (json.loads(lo), json.loads(val))
    cases = []
    for x in cs:
        for sfx in ('', 'b'):
            i = '%d%s' % (x['id'], sfx)
            if not x['raised'] and (not sfx or x.get('second')):
                bs = 2176 if sfx else x['bs']
                cases.append({'id': i, 'bs': bs, 'digits': x['digits'], 'data': x['data'], 'starts': [r[0] for r in x['data']], 'default': x['default'],
                              'missing': x['missing'] if x['use_missing'] else [], 'bytes': x['bytes2'] if sfx else x['bytes'],
                              'lo': seen.get(i, ([], []))[0], 'val': seen.get(i, ([], []))[1]})
    t = c.path('cases.json')
    json.dump({'cases': cases}, open(t, 'w'), separators=(',', ':'))
    c.tlc('Builder', VTRACE=t)
    c.traces += len(cases)
    c.exhaustive = False
    c.notes['tables_built'] = len(cases)
    c.notes['tables_compiled_and_read'] = len(seen)
    c.notes['block_sizes'] = sorted({x['bs'] for x in cases})
    c.notes['code_points_per_table'] = 0x110000
    c.sample(*[{'case': x['id'], 'block_size': x['bs'], 'ranges': x['data'][:3], 'missing': x['missing'][:2], 'bytes': x['bytes']} for x in cases[:5]])


@prop('T03')
def t03(c):
    o = c.path('ranges.json')
    driver(c, 'collections_trace.py', o, c.seed, 20000 if c.thorough else 2500)
    d = json.load(open(o))
    c.tlc('Ranges', VTRACE=o)
    c.traces += len(d['histories'])
    c.sample(*[h['ops'][:5] for h in d['histories'][:5]])


def driver(c, name, *args, timeout=600):
    """Run a driver of the generator (Python, in tools/ucd-tool)."""
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', VERIF_REPO=core.REPO)
    try:
        p = subprocess.run(['python3', os.path.join(core.ROOT, 'drivers', name)] + [str(a) for a in args], env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise core.ToolError('driver %s timed out' % name)
    if p.returncode != 0:
        c.violation({'kind': 'generator-raised', 'driver': name, 'detail': p.stdout[-1500:]})
        raise core.Stop()
    return p.stdout


# ------------------------------------------------------------------ the whole generator
CASES_RS = '''#[path = "../gb.rs"] mod gb;
#[path = "../nt.rs"] mod nt;
fn cps(s: &str) -> String { format!("[{}]", s.chars().map(|c| (c as u32).to_string()).collect::<Vec<_>>().join(",")) }
fn main() {
    for (s, cl) in gb::TEST_CASES {
        assert!(*s == cl.concat(), "the clusters of a case do not concatenate to its source");
        println!("G [{},[{}]]", cps(s), cl.iter().map(|x| x.chars().count().to_string()).collect::<Vec<_>>().join(","));
    }
    for (a, b, c, d, e) in nt::TEST_CASES { println!("N [{},{},{},{},{}]", cps(a), cps(b), cps(c), cps(d), cps(e)); }
}
'''
CARGO = '[package]\nname = "%s"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[profile.release]\nopt-level = 0\n%s'


def cargo(c, crate, target):
    """Build a crate of generated code.  None: it does not compile."""
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(core.BUILD, target), CARGO_NET_OFFLINE='true')
    env.pop('RUSTFLAGS', None)
    p = subprocess.run(['cargo', 'build', '--release', '--offline', '--quiet'], cwd=crate, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if p.returncode == 0:
        return os.path.join(core.BUILD, target, 'release')
    if 'error' not in p.stdout or 'error: failed to' in p.stdout:
        raise core.ToolError(p.stdout[-3000:])
    c.violation({'kind': 'generated-source-does-not-compile', 'detail': p.stdout[:3000]})
    raise core.Stop()


def mkcrate(path, name, main, extra=''):
    os.makedirs(os.path.join(path, 'src'))
    open(os.path.join(path, 'Cargo.toml'), 'w').write(CARGO % (name, extra))
    open(os.path.join(path, 'src', 'main.rs'), 'w').write(main)


def script(c, tree, name, hashseed, timeout=500):
    """Start a generator script in a scratch copy of the repository."""
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED=str(hashseed))
    return name, subprocess.Popen(['timeout', str(timeout), 'python3', name], cwd=os.path.join(tree, 'tools', 'ucd-tool'), env=env,
                                  stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def reap(c, jobs):
    outs = []
    for name, p in jobs:
        out = p.communicate()[0]
        outs.append(out)
        if p.returncode == 124:
            raise core.ToolError('%s timed out' % name)
        if p.returncode != 0:
            c.violation({'kind': 'generator-raised', 'script': name, 'detail': out[-1500:]})
    if c.violations:
        raise core.Stop()
    return outs


def scratch(c, name):
    tree = c.path(name)
    os.makedirs(tree)
    for x in os.listdir(core.REPO):
        if x in ('src', 'tests', 'tools'):
            shutil.copytree(os.path.join(core.REPO, x), os.path.join(tree, x), symlinks=True,
                            ignore=shutil.ignore_patterns('__pycache__', '13.0.0', '14.0.0', '15.0.0'))
        elif x in ('Cargo.toml', 'build.rs'):
            shutil.copy(os.path.join(core.REPO, x), tree)
    return tree


@prop('T04')
def t04(c):
    c.tlc('NormCases', model=True, cfg='NormCasesSpec.cfg')
    c.tlc('GraphemeCases', model=True, cfg='GraphemeCasesSpec.cfg')
    c.bin                                        # the shipped library compiles
    trees = [scratch(c, 'regen1'), scratch(c, 'regen2')]
    # nothing the generator is to write may survive from the shipped sources: start from stale files
    gen = ['src/unicode/ucd/%s.rs' % x for x in 'gc blk sc age binary_props hst emoji_props gcb bc ccc dt ce wb insc na/na_table dm/dm_map'.split()] + [
        'tests/grapheme_break_test_cases.rs', 'tests/normalization_test_cases.rs']
    for t in trees:
        for f in gen:
            if os.path.exists(os.path.join(t, f)):
                open(os.path.join(t, f), 'w').write('stale, not regenerated\n')
    jobs = [script(c, t, s, 11 + 7 * k) for k, t in enumerate(trees)
            for s in ('ucd-tool.py', 'gen-grapheme-break-test.py', 'gen-normalization-test.py')]
    reap(c, jobs)
    diff = subprocess.run(['diff', '-rq', '--exclude=__pycache__', trees[0], trees[1]], stdout=subprocess.PIPE, text=True).stdout
    if diff:
        c.violation({'kind': 'generation-is-not-deterministic', 'detail': diff.replace(c.dir, '')[:1500]})
    shutil.rmtree(trees[1])
    regenerated(c, trees[0])


def regenerated(c, tree, tag='regen'):
    """The library and the test cases generated in a scratch tree, observed like the shipped ones."""
    h = c.path(tag + '-harness')
    shutil.copytree(os.path.join(core.ROOT, 'harness'), h, ignore=shutil.ignore_patterns('target'))
    t = open(os.path.join(h, 'Cargo.toml')).read().replace('../../repo', tree)
    open(os.path.join(h, 'Cargo.toml'), 'w').write(t)
    c._bin = os.path.join(cargo(c, h, tag + '-target'), 'conform')
    sweep(c, PROPSWEEP)
    simple(c, 'names', 'NamesTrace')
    simple(c, 'mappings', 'MappingTrace')
    m, alpha = alphabet(c)
    a, b = c.path('ce.json'), c.path('strings.json')
    if c.harness('sweep', a, 'ce,comp_ex') and c.harness('nstr', b, alpha, 'nfd,nfc,nfkd,nfkc', 'excluded:3000,pairs:4000,decomposables:6000'):
        if c.data == core.DATA:
            c.tlc('Exclusion', VTRACE=a, VTRACE2=b)
        else:                              # the laws on texts are about the Unicode data; here the definitions decide
            none = c.path('none.json')
            json.dump({'texts': [[[]] * 5]}, open(none, 'w'))
            c.tlc('Exclusion', VTRACE=a, VTRACE2=none)
            c.tlc('NormTrace', VTRACE=b)
    # the regenerated test cases
    x = c.path(tag + '-cases')
    mkcrate(x, 'cases', CASES_RS.replace('../gb.rs', tree + '/tests/grapheme_break_test_cases.rs').replace('../nt.rs', tree + '/tests/normalization_test_cases.rs'))
    p = subprocess.run([os.path.join(cargo(c, x, 'cases-target'), 'cases')], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode != 0:
        c.violation({'kind': 'generated-cases', 'detail': p.stderr[-1500:]})
        return
    for key, mod in (('G', 'GraphemeCases'), ('N', 'NormCases')):
        rows = sorted(json.loads(l[2:]) for l in p.stdout.splitlines() if l.startswith(key))
        o = c.path(mod + '.json')
        json.dump({'texts': rows}, open(o, 'w'))
        c.tlc(mod, VTRACE=o)
        c.traces += len(rows)
        c.notes[mod] = len(rows)


@prop('T07')
def t07(c):
    seeds = [c.seed * 1000 + k for k in range(6 if c.thorough else 1)]
    trees = []
    for k, s in enumerate(seeds):
        t = scratch(c, 'synth%d' % k)
        d = os.path.join(t, 'tools', 'ucd-tool', 'data', '15.1.0')
        p = subprocess.run(['python3', os.path.join(core.ROOT, 'drivers', 'synth_data.py'), core.DATA, d, c.path('spec%d' % k), str(s)],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise core.ToolError(p.stdout[-2000:])
        trees.append(t)
    reap(c, [script(c, t, x, 5 + k) for k, t in enumerate(trees) for x in ('ucd-tool.py', 'gen-grapheme-break-test.py', 'gen-normalization-test.py')])
    for k, t in enumerate(trees):
        c.data = c.path('spec%d' % k)
        c.notes['data_set_%d' % seeds[k]] = json.load(open(os.path.join(c.data, 'summary.json')))
        regenerated(c, t)
        shutil.rmtree(c.path('regen-harness'))
        shutil.rmtree(c.path('regen-cases'))
        if c.violations:
            return


ENUM_RS = '''#![allow(non_camel_case_types, dead_code)]
pub struct PropertyName { pub full: &'static str, pub abbr: &'static str }
mod blk { use super::PropertyName;
#[derive(Clone, Copy, Debug)] %s
%s }
mod sc { use super::PropertyName;
#[derive(Clone, Copy, Debug)] %s
%s }
fn main() {
%s}
'''


@prop('T05')
def t05(c):
    tree = scratch(c, 'helpers')
    c.bin
    names = ['gen-%s-%s.py' % (p, k) for p in ('blk', 'sc') for k in ('enum', 'name')]
    outs = reap(c, [script(c, tree, n, 3 + k) for k, n in enumerate(names)])
    again = reap(c, [script(c, tree, n, 93 + k) for k, n in enumerate(names)])
    if outs != again:
        c.violation({'kind': 'generation-is-not-deterministic'})
    rows, calls = [], ''
    for p, e, n in (('blk', outs[0], outs[1]), ('sc', outs[2], outs[3])):
        body = re.sub(r'//[^\n]*', '', e[e.index('{') + 1:e.rindex('}')])
        for v in [v.strip() for v in body.split(',') if v.strip()]:
            calls += '    { let v = %s::%s::%s; let n = %s::%s_name(v); println!("%s\\t{:?}\\t{}\\t{}", v, n.full, n.abbr); }\n' % (
                p, p.title(), v, p, p, p.title())
    x = c.path('helpers-crate')
    mkcrate(x, 'helpers', ENUM_RS % (tuple(outs) + (calls,)))
    p = subprocess.run([os.path.join(cargo(c, x, 'helpers-target'), 'helpers')], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode != 0:
        raise core.ToolError(p.stderr[-2000:])
    rows = [dict(zip(('enum', 'ident', 'full', 'abbr'), l.split('\t'))) for l in p.stdout.splitlines()]
    o = c.path('helpers.json')
    json.dump({'rows': rows}, open(o, 'w'))
    c.tlc('HelperText', VTRACE=o)
    c.traces += len(rows)
    c.exhaustive = True
    c.sample(*rows[:400:90])


MANY_RS = """#![allow(non_camel_case_types, dead_code, unreachable_code, unused_variables)]
#[derive(Clone, Copy)] pub struct PropertyName { pub full: &'static str, pub abbr: &'static str }
%s
fn main() {
%s}
"""


def alias_data(rng, kind):
    """Alias data of one property: short alias -> long alias.  The identifiers made of them differ."""
    seen, out = {'self'}, {}
    for _ in range(kind['n']):
        for _ in range(200):
            parts = []
            for _ in range(rng.randint(1, kind['parts'])):
                w = ''.join(rng.choice(kind['letters']) for _ in range(rng.randint(1, kind['len'])))
                w = rng.choice([w, w.upper(), w.lower(), w.title()]) + rng.choice(['', '', '', str(rng.randint(0, 30))])
                parts.append(w)
            a = rng.choice(['_', '_', '__'] if kind['odd'] else ['_']).join(parts) + ('_' if kind['odd'] and rng.random() < 0.05 else '')
            if a.replace('_', '').lower() not in seen:
                break
        else:
            break
        seen.add(a.replace('_', '').lower())
        f = rng.choice([a, a.title(), '_'.join(rng.choice(parts + ['Extended', 'A', 'B']) for _ in range(rng.randint(1, 4))),
                        ' '.join(parts), 'long name of ' + a, '-'.join(parts)])
        out[a] = f
    return out


@prop('T08')
def t08(c):
    import random
    rng = random.Random(c.seed * 7919 + 8)
    L, U = 'abcdefghijklmnopqrstuvwxyz', 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'
    base = scratch(c, 'base')
    D = os.path.join('tools', 'ucd-tool', 'data', '15.1.0')
    shipped = json.load(open(os.path.join(base, D, 'PropertyValueAliases.json')))
    sets, jobs = [], []
    for k in range(60 if c.thorough else 14):
        tree = c.path('t%d' % k)
        shutil.copytree(os.path.join(base, 'tools'), os.path.join(tree, 'tools'), symlinks=True, ignore=shutil.ignore_patterns('data'))
        os.makedirs(os.path.join(tree, D))
        for x in os.listdir(os.path.join(base, D)):
            if x != 'PropertyValueAliases.json':
                os.symlink(os.path.join(base, D, x), os.path.join(tree, D, x))
        kind = lambda: {'n': rng.choice([1, 2, 3, 10, 40, 100, 257, 400]), 'parts': rng.choice([1, 2, 4]), 'len': rng.choice([1, 3, 8]),
                        'letters': rng.choice([L + U, 'ab', 'aBZz', L]), 'odd': rng.random() < 0.5}
        pva = dict(shipped)
        if k % 4 == 1:                                   # the other properties first, or the same aliases in both
            pva = {x: shipped[x] for x in sorted(shipped, reverse=True)}
        pva['blk'], pva['sc'] = alias_data(rng, kind()), alias_data(rng, kind())
        if k % 4 == 2:
            pva['sc'] = {a: pva['blk'][b] for a, b in zip(pva['blk'], reversed(list(pva['blk'])))}
        if k % 4 == 3:
            for q in ('blk', 'sc'):
                pva[q] = dict(sorted(shipped[q].items(), key=lambda x: rng.random())[:rng.randint(1, 300)])
        json.dump(pva, open(os.path.join(tree, D, 'PropertyValueAliases.json'), 'w'))
        for p in ('blk', 'sc'):
            jobs.append((p, pva[p], script(c, tree, 'gen-%s-enum.py' % p, k), script(c, tree, 'gen-%s-name.py' % p, k + 1)))
        if len(jobs) >= 6:                               # eight processes at a time are enough
            for j in jobs:
                sets.append((j[0], j[1], reap(c, [j[2], j[3]])))
            jobs = []
    for j in jobs:
        sets.append((j[0], j[1], reap(c, [j[2], j[3]])))
    mods, calls = '', ''
    for n, (p, data, (e, f)) in enumerate(sets):
        mods += 'mod m%d { use super::PropertyName;\n#[derive(Clone, Copy, Debug)] %s\n%s}\n' % (n, e, f)
        body = re.sub(r'//[^\n]*', '', e[e.index('{') + 1:e.rindex('}')])
        for v in [v.strip() for v in body.split(',') if v.strip()]:
            calls += '    { let v = m%d::%s::%s; let n = m%d::%s_name(v); println!("%d\t{:?}\t{}\t{}", v, n.full, n.abbr); }\n' % (
                n, p.title(), v, n, p, n)
    x = c.path('aliases-crate')
    mkcrate(x, 'aliases', MANY_RS % (mods, calls))
    p = subprocess.run([os.path.join(cargo(c, x, 'aliases-target'), 'aliases')], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode != 0:
        raise core.ToolError(p.stderr[-2000:])
    trace = [{'enum': p, 'aliases': [{'chars': list(a), 'abbr': a, 'full': f} for a, f in data.items()], 'rows': []} for p, data, _ in sets]
    for l in p.stdout.splitlines():
        n, ident, full, abbr = l.split('\t')
        trace[int(n)]['rows'].append({'ident': ident, 'full': full, 'abbr': abbr})
    o = c.path('aliases.json')
    json.dump({'sets': trace}, open(o, 'w'))
    c.tlc('HelperAliases', VTRACE=o)
    c.traces += sum(len(t['rows']) for t in trace)
    c.notes['alias_sets'] = len(trace)
    c.sample(*[t['rows'][0] for t in trace if t['rows']][:8])


@prop('T06')
def t06(c):
    c.tlc('DataScriptMC', model=True)
    o = c.path('data.json')
    driver(c, 'data_trace.py', o, c.seed, 500 if c.thorough else 48)
    d = json.load(open(o))
    c.tlc('DataScriptTrace', VTRACE=o)
    c.traces += sum(len(h['runs']) for h in d['histories'])
    c.notes['converter_calls'] = sum(len(r['calls']) for h in d['histories'] for r in h['runs'])
    c.notes['scripts_whose_reads_were_recorded'] = [r[0] for r in d['reads']]
    c.sample(*[{'given': r['given'], 'file': r['file'], 'exit': r['exit'], 'calls': r['calls'][:3]} for h in d['histories'][:5] for r in h['runs']])


@prop('H01')
def h01(c):
    m, alpha = alphabet(c)
    o = c.path('session.json')
    if not c.harness('session', o, alpha, 900 if c.thorough else 160, 900 if c.thorough else 600):
        return
    d = json.load(open(o))
    n = sum(len(x) for x in d['sessions'])
    c.tlc('Session', VTRACE=o, expect=n + len(d['sessions']))
    c.traces += len(d['sessions'])
    c.notes['distinct_calls_with_own_process'] = len(d['refs'])
    c.notes['events'] = n
    c.sample(*[x[:8] for x in d['sessions'][:4]], *d['refs'][:4])


if __name__ == '__main__':
    sys.exit(core.main(PROPS))
