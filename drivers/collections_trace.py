"""T03: drive the generator's CodePointRange and Missing, record what they answer.
usage: collections_trace.py OUT SEED N"""
import itertools, json, os, random, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'tools', 'ucd-tool'))
from ucd.collections import CodePointRange, Missing

out, seed, n = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
rnd = random.Random(seed)
EDGES = [0, 1, 9, 10, 15, 16, 255, 256, 0xFFF, 0x1000, 0xFFFF, 0x10000, 0xFFFFF, 0x100000, 0x10FFFE, 0x10FFFF]


def cp():
    return rnd.choice(EDGES) if rnd.random() < .3 else rnd.randrange(1 << rnd.randrange(1, 21)) if rnd.random() < .8 else rnd.randrange(0x110000)


def near(a, b):
    return sorted({max(0, x) for x in (a - 1, a, a + 1, (a + b) // 2, b - 1, b, b + 1, cp())})


def attempt(f):
    try:
        return f()
    except Exception as e:
        return {'raised': type(e).__name__}


def span(r):
    return [r.start, r.end]


def iterate(r, limit):
    """one complete iteration, run-length encoded as [first, count]; cut off when it goes on too long"""
    runs, k = [], 0
    for c in r:
        k += 1
        if k > limit:
            return [[-1, -1]]
        if runs and runs[-1][0] + runs[-1][1] == c:
            runs[-1][1] += 1
        else:
            runs.append([c, 1])
    return runs


def interleaved(r, limit, k, use):
    """one complete iteration, using the object otherwise after k elements and after every 50th"""
    runs, n, seen = [], 0, []
    for c in r:
        n += 1
        if n > limit:
            return [[-1, -1]]
        if runs and runs[-1][0] + runs[-1][1] == c:
            runs[-1][1] += 1
        else:
            runs.append([c, 1])
        if n == k or n % 50 == 0:
            seen.append(use())
    return runs, seen


def partial(r, k):
    """start an iteration and abandon it after k elements"""
    got = []
    for c in r:
        if len(got) == k:
            break
        got.append(c)
    return got


rec = []


def history(ops):
    a = cp()
    b = a + rnd.choice([0, 0, 1, 2, 3, rnd.randrange(40), rnd.randrange(3000)])

    def op(name, args, f):
        ops.append([name, args, attempt(f)])
    kind = rnd.randrange(5)
    if kind == 0:                      # construction
        x, y = (a, b) if rnd.random() < .5 else (cp(), cp())
        op('new', [x, y], lambda: span(CodePointRange(x, y)))
        op('new1', [x], lambda: span(CodePointRange(x)))
        op('new', [x, max(0, x - 1)], lambda: span(CodePointRange(x, max(0, x - 1))))
    elif kind == 1:                    # parsing and printing
        form = rnd.choice(['{:04X}', '{:X}', '{:x}', '{:06X}', '{:05x}'])
        op('parse1', [a], lambda: span(CodePointRange.parse(form.format(a))))
        op('parse2', [a, b], lambda: span(CodePointRange.parse((form + '..' + form).format(a, b))))
        op('repr', [a, b], lambda: repr(CodePointRange(a, b)))
        op('reparse', [a, b], lambda: span(CodePointRange.parse(repr(CodePointRange(a, b)))))
        if a > 0:
            op('parse2', [a, a - 1], lambda: span(CodePointRange.parse((form + '..' + form).format(a, a - 1))))
    elif kind == 2:                    # one object, several uses in a row
        r = CodePointRange(a, b)
        for _ in range(rnd.randrange(2, 7)):
            k = rnd.randrange(6)
            if k > 3:                      # the object is used while it is being iterated
                m = rnd.randrange(1, 4)
                t = CodePointRange(b + 1, b + 9)
                u, f = rnd.choice([('repr', lambda: repr(r)), ('contains', lambda: b in r), ('ends', lambda: span(r)),
                                   ('lt', lambda: r < t), ('gt', lambda: r > t), ('sort', lambda: [span(x) for x in sorted([t, r])]),
                                   ('other', lambda: iterate(t, 20)), ('copy', lambda: list(CodePointRange(r.start, r.start)))])
                op('interleaved', [a, b, m, u], lambda: interleaved(r, b - a + 5, m, f))
            elif k == 0:
                op('iterate', [a, b], lambda: iterate(r, b - a + 5))
            elif k == 1:
                m = rnd.randrange(4)
                op('partial', [a, b, m], lambda: partial(r, m))
            elif k == 2:
                for x in near(a, b):
                    op('contains', [a, b, x], lambda: x in r)
            else:
                op('ends', [a, b], lambda: span(r))
    elif kind == 3:                    # order of disjoint ranges
        c = b + 1 + rnd.choice([0, 1, rnd.randrange(500)])
        d = c + rnd.choice([0, 1, rnd.randrange(500)])
        p, q = CodePointRange(a, b), CodePointRange(c, d)
        if rnd.random() < .5:
            p, q, (a, b, c, d) = q, p, (c, d, a, b)
        op('lt', [a, b, c, d], lambda: p < q)
        op('gt', [a, b, c, d], lambda: p > q)
        rs = [p, q]
        e = max(b, d) + 1
        for _ in range(rnd.randrange(4)):
            e += rnd.randrange(3)
            f = e + rnd.randrange(5)
            rs.append(CodePointRange(e, f))
            e = f + 1
        rnd.shuffle(rs)
        args = [span(x) for x in rs]
        op('sort', args, lambda: [span(x) for x in sorted(rs)])
    else:                              # a Missing list: a history of appends and queries
        m = Missing()
        lo = rnd.choice([0, 0, rnd.randrange(0x110000 - 300)])
        for _ in range(rnd.randrange(1, 14)):
            if rnd.random() < .5 and len(ops) > 1 and rnd.random() < .4:   # beside or across the last one
                last = [a for o, a, _ in ops if o == 'append'][-1:]
                x = last[0][1] + rnd.choice([0, 1, 1, 2]) if last else lo
                y = x + rnd.choice([0, 1, 30])
                v = rnd.choice([last[0][2] if last else 'A', 'B'])
                op('append', [x, y, v], lambda: m.append(CodePointRange(x, y), v))
                pts = near(x, y)
            elif rnd.random() < .5:
                x = lo + rnd.randrange(200)
                y = x + rnd.choice([0, 1, rnd.randrange(90)])
                v = rnd.choice(['A', 'B', 'C', 'R', 'AL'])
                op('append', [x, y, v], lambda: m.append(CodePointRange(x, y), v))
                pts = near(x, y)
            else:
                pts = [lo + rnd.randrange(300) for _ in range(3)]
            for z in pts:
                if rnd.random() < .6:
                    op('lookup', [z], lambda: m.default_value_for(z))


def small(rs, vs):
    """appends within a few neighbouring points, then every point asked"""
    ops, m = [], Missing()
    base = rnd.choice([0, 0, 0, 7, 0x10FFFB])
    for (x, y), v in zip(rs, vs):
        x, y = x + base, y + base
        ops.append(['append', [x, y, v], attempt(lambda: m.append(CodePointRange(x, y), v))])
    for z in range(base, base + 5):
        ops.append(['lookup', [z], attempt(lambda: m.default_value_for(z))])
    return ops


def stepped(a, b, words):
    """one range, taken step by step; `words` says what is asked of it after each step"""
    r, ops = CodePointRange(a, b), []

    def op(name, args, f):
        ops.append([name, args, attempt(f)])

    def begin():
        nonlocal it
        it = iter(r)
    it = None
    op('begin', [a, b], begin)
    for w in words:
        if w == 'n':
            op('step', [a, b], lambda: next(it, -1))
        elif w == 'i':
            op('begin', [a, b], begin)
        elif w == 'r':
            op('repr', [a, b], lambda: repr(r))
        elif w == 's':
            op('str', [a, b], lambda: str(r))
        elif w == 'e':
            op('ends', [a, b], lambda: span(r))
        elif w == 'l':
            op('lt', [a, b, b + 1, b + 3], lambda: r < CodePointRange(b + 1, b + 3))
        elif w == 'g':
            op('gt', [b + 1, b + 3, a, b], lambda: CodePointRange(b + 1, b + 3) > r)
        else:                          # a point asked, by its distance from the start
            x = max(0, a + w)
            op('contains', [a, b, x], lambda: x in r)
    rec.append({'ops': [[o, a, [] if r is None else [r]] for o, a, r in ops]})


for size in range(1, 10):
    a = rnd.choice(EDGES[:-2]) + rnd.randrange(2)
    b = a + size - 1
    asked = list(range(-1, size + 1)) + list('rselg')
    for x in asked:                    # each question, put again and again on the way and after the end
        stepped(a, b, [w for _ in range(size + 3) for w in ('n', x)])
        stepped(a, b, ['n'] * (size + 1) + [x, 'n', 'n', x, 'i', 'n', x] + ['n'] * (size + 1))
        for m in range(1, size + 1):
            stepped(a, b, ['n'] * m + [x] + ['n'] * (size + 2 - m) + [x, 'n'])
for _ in range(n // 2):
    a = cp()
    b = a + rnd.choice([0, 1, 2, 3, 4, 5, 6, 7, 15, 31, 62, 63, 64, 100, rnd.randrange(300)])
    words = []
    for _ in range(rnd.choice([4, b - a + 3, 2 * (b - a) + 8])):
        k = rnd.random()
        words.append('n' if k < .6 else rnd.choice('rselg') if k < .75 else rnd.randrange(-1, b - a + 2) if k < .98 else 'i')
    stepped(a, b, words)


SMALL = [(x, y) for x in range(4) for y in range(x, 4)]
for rs in itertools.product(SMALL, repeat=3):
    for vs in itertools.product('AB', repeat=3):
        if vs[0] == 'A':            # up to renaming
            ops = small(rs, vs)
            rec.append({'ops': [[o, a, [] if r is None else [r]] for o, a, r in ops]})
for j in range(n):
    ops = []
    try:
        history(ops)
    except Exception as e:
        ops.append(['unexpected exception', [], '%s: %s' % (type(e).__name__, e)])
    rec.append({'ops': [[o, a, [] if r is None else [r]] for o, a, r in ops]})
json.dump({'histories': rec}, open(out, 'w'), separators=(',', ':'))
