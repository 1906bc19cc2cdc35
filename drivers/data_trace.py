"""T06: run the generator's data script against stand-in converters, record what it did.
usage: data_trace.py OUT SEED HISTORIES

Every run happens in a scratch directory, as an unprivileged user where the system allows it: a copy of the
script and of the ucd package, converters that only print, nothing else to reach."""
import concurrent.futures, json, os, random, shutil, subprocess, sys, tempfile
sys.dont_write_bytecode = True
TOOL = os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'tools', 'ucd-tool')
DATA = 'data/15.1.0'
out, seed, n = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
KEY = 'UCD_JSON_DIR'
CONVERTERS = {'a': 1, 'b': 4000, 'c.d-e_f': 30, 'k=v': 3}      # name of the directory: lines printed
STUB = '''#!/bin/sh
here=$(cd "$(dirname "$0")" && pwd)
log=$(mktemp "$here/../../log/XXXXXXXX")
for a in "%(name)s" "$@"; do printf '%%s\\n' "$a" >> "$log"; done
echo "a remark of the converter" >&2
for a in "%(name)s" "$@"; do printf '%%s\\n' "$a"; done
i=0
while [ $i -lt %(lines)d ]; do echo "line $i of %(lines)d"; i=$((i+1)); done
'''
NOBODY = 65534


def demote():
    return {'user': NOBODY, 'group': NOBODY, 'extra_groups': []}


def may_demote():
    try:
        return subprocess.run(['true'], **demote()).returncode == 0
    except (PermissionError, subprocess.SubprocessError):
        return False


AS = demote() if os.geteuid() == 0 and may_demote() else {}


def say(text):
    """what a file holds: the converter and its arguments, or something else"""
    head, rest = [], text.split('\n')
    while rest and not rest[0].startswith('line ') and len(head) < 9:
        head.append(rest.pop(0))
    if head and head[0] in CONVERTERS and rest == ['line %d of %d' % (i, CONVERTERS[head[0]]) for i in range(CONVERTERS[head[0]])] + ['']:
        return head
    return ['?', text[:200]]


def listing(top):
    got = []
    for d, _, fs in os.walk(top):
        for f in fs:
            p = os.path.join(d, f)
            got.append([os.path.relpath(p, top), say(open(p, errors='replace').read())])
    return sorted(got)


def envline(rnd, root, tool):
    """a line of the file and what it means: <<kind, key, converter>>"""
    d = rnd.choice(list(CONVERTERS))
    where = rnd.choice([os.path.join(root, 'conv', d), os.path.join(root, 'conv', d) + '/', os.path.join('..', 'conv', d)])
    k = rnd.randrange(10)
    if k < 4:
        return KEY + '=' + where + rnd.choice(['', '', ' ', '\t', '\r']), ['set', KEY, d]
    if k == 4:
        return rnd.choice(['#', '# ']) + KEY + '=' + where, ['comment', '', '']
    if k == 5:
        return rnd.choice(['# a remark', '#', '# two = signs = here', '#=']), ['comment', '', '']
    if k == 6:
        return rnd.choice(['', '', ' ', '\t', '\r']), ['blank', '', '']
    key = rnd.choice(['OTHER', 'UCD_JSON', 'UCD_JSON_DIRS', 'MY_UCD_JSON_DIR', 'ucd_json_dir'])
    return key + '=' + rnd.choice([where, '1', '', 'x=y']), ['set', key, d]


def history(j):
    rnd = random.Random(seed * 100003 + j)
    root = tempfile.mkdtemp(prefix='verif-data-')
    try:
        tool = os.path.join(root, 'tool')
        os.makedirs(tool)
        for f in os.listdir(TOOL):
            if f.endswith('.py'):
                shutil.copy(os.path.join(TOOL, f), tool)
        shutil.copytree(os.path.join(TOOL, 'ucd'), os.path.join(tool, 'ucd'), ignore=shutil.ignore_patterns('__pycache__'))
        os.makedirs(os.path.join(root, 'log'))
        for name, lines in CONVERTERS.items():
            d = os.path.join(root, 'conv', name)
            os.makedirs(d)
            p = os.path.join(d, 'ucd-json')
            open(p, 'w').write(STUB % {'name': name, 'lines': lines})
            os.chmod(p, 0o755)
        top = os.path.join(tool, DATA)
        if rnd.random() < .5:                     # somebody else's files are there already
            for f in ['README', 'extracted/own.json', 'Blocks.json.bak'][:rnd.randrange(1, 4)]:
                os.makedirs(os.path.dirname(os.path.join(top, f)), exist_ok=True)
                open(os.path.join(top, f), 'w').write('mine\n')
        if AS:
            for d, _, fs in os.walk(root):
                for x in [d] + [os.path.join(d, f) for f in fs]:
                    os.chown(x, NOBODY, NOBODY)
        before, runs = listing(top), []
        for _ in range(rnd.choice([1, 1, 2, 3])):
            env = {k: v for k, v in os.environ.items() if 'UCD_JSON' not in k.upper()}
            env['PYTHONDONTWRITEBYTECODE'] = '1'
            env['HOME'] = env['TMPDIR'] = root
            given = ''
            if rnd.random() < .5:
                given = rnd.choice(list(CONVERTERS))
                env[KEY] = os.path.join(root, 'conv', given)
            dot, lines = os.path.join(tool, '.env'), []
            if os.path.exists(dot):
                os.remove(dot)
            if rnd.random() < .75:
                pairs = [envline(rnd, root, tool) for _ in range(rnd.randrange(0, 6))]
                if rnd.random() < .15:
                    pairs = [p for p in pairs if p[1][1] != KEY]
                lines = [m for _, m in pairs]
                text = '\n'.join(t for t, _ in pairs)
                open(dot, 'w', newline='').write(text + rnd.choice(['\n', '']) if pairs else '')
            try:
                p = subprocess.run(['python3', 'gen-json-data.py'], cwd=tool, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, text=True, timeout=120, **AS)
                code, text = p.returncode, p.stdout
            except subprocess.TimeoutExpired:
                code, text = 124, ''
            calls = []
            for f in os.listdir(os.path.join(root, 'log')):
                f = os.path.join(root, 'log', f)
                calls.append(open(f).read().split('\n')[:-1])
                os.remove(f)
            text = text.replace(root, '')
            runs.append({'given': given, 'file': lines, 'exit': code, 'calls': sorted(calls), 'after': listing(top),
                         'told': KEY in text, 'text': text.replace('a remark of the converter\n', '')[-300:]})
        return {'before': before, 'runs': runs}
    finally:
        shutil.rmtree(root, ignore_errors=True)


HOOK = '''import sys, os
def _hook(event, args):
    if event == 'open' and not isinstance(args[0], int) and not set(args[1] or '') & set('wax+'):
        p = os.path.realpath(os.fsdecode(args[0]))
        if p.startswith(%r):
            os.write(9, (os.path.relpath(p, %r) + '\\n').encode())
sys.addaudithook(_hook)
'''


def reads():
    """the data files the other scripts open"""
    root = tempfile.mkdtemp(prefix='verif-reads-')
    try:
        repo = os.path.dirname(os.path.dirname(TOOL))
        for x in ('src', 'tests', 'tools'):
            shutil.copytree(os.path.join(repo, x), os.path.join(root, x), ignore=shutil.ignore_patterns('__pycache__', '13.0.0', '14.0.0', '15.0.0'))
        tool = os.path.join(root, 'tools', 'ucd-tool')
        top = os.path.realpath(os.path.join(tool, 'data'))
        os.makedirs(os.path.join(root, 'hook'))
        open(os.path.join(root, 'hook', 'sitecustomize.py'), 'w').write(HOOK % (top, top))
        env = dict(os.environ, PYTHONPATH=os.path.join(root, 'hook'), PYTHONDONTWRITEBYTECODE='1')

        def run(s):
            log = os.path.join(root, s + '.log')
            with open(log, 'w') as f:
                p = subprocess.run(['sh', '-c', 'exec python3 %s 9>%s' % (s, log)], cwd=tool, env=env, stdin=subprocess.DEVNULL,
                                   stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, timeout=400)
            return [s, p.returncode, sorted(set(open(log).read().split('\n')) - {''})]
        others = sorted(f for f in os.listdir(tool) if f.endswith('.py') and f != 'gen-json-data.py')
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            return list(ex.map(run, others))
    finally:
        shutil.rmtree(root, ignore_errors=True)


with concurrent.futures.ThreadPoolExecutor(8) as ex:
    r = ex.submit(reads)
    hs = list(ex.map(history, range(n)))
    rd = r.result()
json.dump({'histories': hs, 'reads': rd, 'unprivileged': bool(AS)}, open(out, 'w'), separators=(',', ':'))
