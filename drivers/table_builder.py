"""T02: drive the generator's table builder with random properties, emit the Rust it produces into a
scratch crate whose main prints, run-length encoded, what every emitted table answers for every code
point.   usage: table_builder.py OUTDIR SEED TIER
Writes OUTDIR/configs.json (inputs) and OUTDIR/crate (program to build and run)."""
import json, os, random, sys, traceback
from multiprocessing import Pool
sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(REPO, 'tools', 'ucd-tool'))
from ucd.collections import CodePointRange, Missing, TwoStageTable

MAX = 0x110000
NVAL = 19
# names of the values: most tables use V0, V1, ...; some use names that run together
NAMES = {'plain': ['V%d' % v for v in range(NVAL)],
         'runs': ['A', 'AA', 'AAA', 'B', 'AB', 'BA', 'ABA', 'BB', 'A_', 'A_A', '_A', 'A1', 'A11', 'A1_1', 'a', 'aa', 'b', 'Ab', 'R']}


def ranges(rnd, style, bs, count):
    """ascending disjoint [start, end, value index]"""
    out = []
    if style == 'empty':
        return []
    if style == 'full':
        return [[0, MAX - 1, rnd.randrange(NVAL)]]
    if style == 'distinct':             # that many different blocks
        for b in range(min(count, MAX // bs)):
            x = b
            for d in range(3):
                v = x % 18
                x //= 18
                if v:
                    out.append([b * bs + d * 2, b * bs + d * 2 + (d % 2), v])
        return out
    if style == 'words':                # blocks that read alike when their values are run together
        rnd2 = random.Random(count)
        for b in range(120):
            o = rnd2.randrange(2)
            for d in range(4):
                out.append([b * bs + o + d, b * bs + o + d, rnd2.choice([0, 0, 1, 2, 3, 4, 5, 8, 9, 10])])
        return out
    if style == 'manyblocks':           # about 65536 different blocks
        for b in range(count):
            x = b
            for d in range(5):
                v = x % 18
                x //= 18
                if v:
                    out.append([b * bs + d, b * bs + d, v])
        return out
    pos = rnd.choice([0, 0, 1, bs - 1, bs, rnd.randrange(0x3000)])
    n = rnd.choice([1, 2, 5, 40, 150])
    while len(out) < n and pos < MAX:
        ln = {'dense': rnd.choice([1, 1, 2, 3, bs, bs + 1]),
              'blocks': bs * rnd.choice([1, 2, 17]),
              'sparse': rnd.choice([1, 1, 2, 5, 100, 5000])}[style]
        e = min(pos + ln - 1, MAX - 1)
        out.append([pos, e, rnd.randrange(4) if rnd.random() < .7 else rnd.randrange(NVAL)])
        gap = {'dense': rnd.choice([0, 0, 0, 1, 2, bs - 1, bs]),
               'blocks': bs * rnd.choice([0, 0, 1, 3]),
               'sparse': rnd.choice([0, 1, bs, rnd.randrange(300), rnd.randrange(40000)])}[style]
        pos = e + 1 + gap
    if style != 'blocks' and rnd.random() < .4:
        z = MAX - rnd.choice([1, 2, min(bs, 4096), 999])
        out = [r for r in out if r[1] < z]
        out.append([z, MAX - 1 - rnd.choice([0, 0, 1 if rnd.random() < .5 else 0]), rnd.randrange(NVAL)])
        if out[-1][1] < out[-1][0]:
            out.pop()
    return out


def config(k, seed, tier):
    rnd = random.Random(seed * 100003 + k)
    special = [('empty', 0), ('full', 0), ('distinct', 255), ('distinct', 256), ('distinct', 257), ('distinct', 300),
               ('manyblocks', 65535), ('manyblocks', 65536), ('manyblocks', 65537),
               ('words', 1), ('words', 2)]
    style, count = special[k] if k < len(special) else (rnd.choice(['dense', 'dense', 'blocks', 'sparse', 'sparse']), 0)
    bs = rnd.choice([64, 128, 128, 256, 256, 512, 1024, 17, 34, 4096, 0x8000, 0x110000] if style != 'distinct' else [64, 64, 128, 256][k % 4:k % 4 + 1])
    if style == 'manyblocks':
        bs = 16
    if style == 'words':
        bs = [17, 64][count % 2]
    boolean = style not in ('distinct', 'manyblocks', 'words') and rnd.random() < .25
    data = ranges(rnd, style, bs, count)
    names = 'runs' if style == 'words' or rnd.random() < .2 else 'plain'
    default = 18 if style in ('distinct', 'manyblocks') else rnd.randrange(NVAL)
    missing = []
    if not boolean and style in ('dense', 'sparse', 'empty', 'blocks') and (k == 0 or rnd.random() < .5):
        for _ in range(rnd.randrange(1, 5)):
            a = rnd.randrange(MAX) if rnd.random() < .5 else rnd.randrange(0x4000)
            missing.append([a, min(MAX - 1, a + rnd.choice([0, 5, 127, 128, 3000, 200000])), rnd.randrange(NVAL)])
    if boolean:
        data = [r[:2] + [r[2] % 2] for r in data]
        default %= 2
    return {'id': k, 'style': style, 'names': names, 'bs': bs, 'boolean': boolean, 'data': data, 'default': default, 'missing': missing,
            'use': rnd.random() < .7, 'unbounded': style == 'manyblocks' and count == 65537 and tier == 'thorough',
            'digits': count if style == 'manyblocks' else 0,
            'prefix': boolean or rnd.random() < .3, 'use_missing': bool(missing), 'reuse': rnd.random() < .5}


USE = 'use crate::unicode::props::{};\nuse crate::collections::TwoStageTable;\n\n'


def build(arg):
    k, seed, tier, crate = arg
    c = config(k, seed, tier)
    name = 'P%d' % k
    val = (lambda v: ['false', 'true'][v]) if c['boolean'] else (lambda v: NAMES[c['names']][v])
    try:
        data = [(CodePointRange(a, b), val(v)) for a, b, v in c['data']]
        miss = None
        if c['use_missing']:
            miss = Missing()
            for a, b, v in c['missing']:
                miss.append(CodePointRange(a, b), val(v))
        tables = [TwoStageTable.make(name, data, c['bs'], val(c['default']), miss)]
        if c['reuse'] and len(c['data']) < 60:       # the generator builds several sizes from one data list
            tables.append(TwoStageTable.make(name, data, 2 * 17 * 64, val(c['default']), miss))
        txt = tables[0].to_seshat(prefix=c['prefix'], use=c['use'], boolean=c['boolean'])
        if not c['use']:                             # the caller writes the header, as for several tables in one file
            txt = USE.format('*') + txt
        c['bytes'] = [tables[0].table_bytes(1), tables[0].table_bytes(3)]
        # source too long to compile in the time of a check: only its size is judged
        limit = 10 ** 9 if c['unbounded'] else 60000 if tier == 'thorough' else 36000
        c['compiled'] = (c['bytes'][1] - c['bytes'][0]) // 2 <= limit
        if c['compiled']:
            with open(os.path.join(crate, 'src', 't%d.rs' % k), 'w') as f:
                f.write(txt)
        if len(tables) > 1 and (tables[1].table_bytes(3) - tables[1].table_bytes(1)) // 2 <= limit:
            with open(os.path.join(crate, 'src', 't%db.rs' % k), 'w') as f:
                f.write(tables[1].to_seshat(prefix=c['prefix'], boolean=c['boolean']))
            c['second'] = True
            c['bytes2'] = [tables[1].table_bytes(1), tables[1].table_bytes(3)]
        c['raised'] = ''
        if c['digits'] and not c['compiled']:        # the data follow a rule that the specification knows
            c['data'] = []
    except Exception:
        c['raised'] = traceback.format_exc()[-800:]
    return c


def main():
    outdir, seed, tier = sys.argv[1], int(sys.argv[2]), sys.argv[3]
    crate = os.path.join(outdir, 'crate')
    os.makedirs(os.path.join(crate, 'src'))
    n = 220 if tier == 'thorough' else 48
    with Pool(8) as p:
        cs = p.map(build, [(k, seed, tier, crate) for k in range(n)], chunksize=1)
    mods, props, calls = [], [], []
    for c in cs:
        if c['raised']:
            continue
        k = c['id']
        if not c['boolean']:
            props.append('#[derive(Clone, Copy, PartialEq)] #[allow(dead_code, non_camel_case_types)] pub enum P%d { %s }' % (k, ', '.join(NAMES[c['names']])))
        for sfx in ([''] if c['compiled'] else []) + (['b'] if c.get('second') else []):
            mods.append('#[deny(overflowing_literals)] mod t%d%s;' % (k, sfx))
            calls.append('show("%d%s", |c| t%d%s::p%d(c) as u8 as i64);' % (k, sfx, k, sfx, k))
    with open(os.path.join(crate, 'Cargo.toml'), 'w') as f:
        f.write('[package]\nname = "tables"\nversion = "0.1.0"\nedition = "2018"\n[workspace]\n[dependencies]\n'
                'seshat-unicode = { path = "%s" }\n[profile.release]\nopt-level = 1\ndebug = 0\noverflow-checks = true\n' % REPO)
    with open(os.path.join(crate, 'src', 'main.rs'), 'w') as f:
        f.write('''#![allow(dead_code)]
mod collections { pub use seshat::collections::*; }
mod unicode { pub mod props { %s } }
%s
fn show(id: &str, f: fn(u32) -> i64) {
    let (mut lo, mut v, mut last) = (vec![], vec![], -2i64);
    for c in 0..0x110000u32 {
        let x = std::panic::catch_unwind(|| f(c)).unwrap_or(-1);
        if x != last { lo.push(c); v.push(x); last = x; }
    }
    println!("{}\\t{:?}\\t{:?}", id, lo, v);
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    %s
}
''' % ('\n'.join(props), '\n'.join(mods), '\n    '.join(calls)))
    json.dump(cs, open(os.path.join(outdir, 'configs.json'), 'w'))


main()
