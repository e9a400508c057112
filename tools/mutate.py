#!/usr/bin/env python3
"""mutate.py [-j N] [--scale S] [--sample K] [--seed S] [FILE...]: plants machine-made changes (operators, constants, dropped statements,
memory orders) one at a time into a scratch copy of /repo/src and runs the checks concerned until one objects. Prints the survivors.
Mutants of .cpp files only recompile that file; harnesses are taken from a cache of objects built for the unchanged tree."""
import argparse, glob, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check
ap = argparse.ArgumentParser(); ap.add_argument('-j', type=int, default=4); ap.add_argument('--scale', default='0.1'); ap.add_argument('--sample', type=int, default=0)
ap.add_argument('--seed', type=int, default=1); ap.add_argument('--out', default='/tmp/mutants.json'); ap.add_argument('--list', action='store_true'); ap.add_argument('--only', default=''); ap.add_argument('files', nargs='*')
a = ap.parse_args()
CONCERNED = {
 'Semaphore': 'C24 C01 C02 C03 C04 C05 C20 C22 C07 C25', 'Mutex': 'C21 C23', 'MemoryPoolBase': 'C23 C24 C09 C10 C11 C12 C13 C22 C20 C25', 'MemoryPoolDeleterBase': 'C10 C11 C12 C09',
 'ObjectPool': 'C10 C24 C09 C12 C13 C20', 'ObjectPoolDeleter': 'C10 C09 C12', 'BlockPool': 'C11 C23 C09 C12 C20', 'BlockPoolDeleter': 'C11 C09 C12',
 'MessageQueueBase': 'C23 C24 C14 C15 C16 C17 C18 C19 C09 C20 C22 C25', 'MessageQueue': 'C24 C14 C15 C16 C17 C18 C19 C09 C20 C22 C25',
 'RingBufferSimple': 'C06 C23 C07 C08 C12 C22 C25', 'RingBufferGuarded': 'C07 C08 C20 C22 C06 C23 C24 C25', 'ReiserRT_CoreExceptions': 'C06 C03',
}
def strip(line):                                        # position from which the line is comment
    m = re.search(r'//', line); return line[:m.start()] if m else line
def mutants(path):
    lines = open(path).read().split('\n'); block = False; out = []; skip = []
    for i, l in enumerate(lines):
        s = l.strip()
        if block: block = '*/' not in s; continue
        if s.startswith('/*'): block = '*/' not in s; continue
        if s.startswith('#'):
            if s.startswith('#if'): skip.append(s.startswith('#if 0'))
            elif s.startswith('#else') and skip and not any(skip) : skip[-1] = True
            elif s.startswith('#endif') and skip: skip.pop()
            continue
        if any(skip) or not s or s.startswith('*') or s.startswith('//') or 'static_assert' in s: continue
        code = strip(l)
        if s.startswith('using') or s.startswith('class') or s.startswith('template'): continue
        def add(new, what): 
            if new != code: out.append((i, new, what))
        for rx, subs in [
            (r'(?<![<>=!+\-*/&|^])<(?![<=])', ['<=']), (r'(?<![-<>=])>(?![>=])', ['>=']), (r'<=', ['<']), (r'>=', ['>']), (r'==', ['!=']), (r'!=', ['==']),
            (r'&&', ['||']), (r'\|\|', ['&&']), (r'\+\+', ['--']), (r'--', ['++']), (r'\+=', ['-=']), (r'-=', ['+=']), (r' \+ ', [' - ']), (r' - ', [' + ']), (r'(?<![\w\)])!(?!=)', ['']),
            (r'\b0\b', ['1']), (r'\b1\b', ['0', '2']), (r'\b(?!0\b|1\b)\d+\b', ['0']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']),
            (r'memory_order_(?!relaxed)\w+', ['memory_order_relaxed']), (r'broadcast', ['signal']), (r' & ', [' | ']), (r'<<', ['>>']), (r'>>', ['<<']), (r' \* ', [' / ']), (r' / ', [' * ']), (r' % ', [' / ']),
            (r'size_t\b', ['uint16_t']), (r'uint32_t\b', ['uint8_t']), (r'std::move\b', ['']), (r'compare_exchange_weak', ['compare_exchange_strong']),
            (r'giveConditionVar', ['takeConditionVar']), (r'takeConditionVar', ['giveConditionVar']) ]:
            for m in re.finditer(rx, code):
                for sub in subs: add(code[:m.start()] + sub + code[m.end():], f'{m.group()} -> {sub or "nothing"}')
        if re.match(r'^\s*if\s*\(', code):
            m = re.match(r'^(\s*if\s*\()(.*)(\)[^)]*)$', code)
            if m:
                add(m.group(1) + 'false && ( ' + m.group(2) + ' )' + m.group(3), 'if (false)'); add(m.group(1) + 'true || ( ' + m.group(2) + ' )' + m.group(3), 'if (true)')
        if s.endswith(';') and not re.match(r'^\s*(return|break|using|private|public|protected|explicit|virtual|friend|typedef)\b', code) and code.count('(') == code.count(')') and not re.search(r'=\s*(delete|default|0)\s*;', code):
            add(re.match(r'^\s*', code).group() + ';', 'statement dropped')
            if 'unique_lock' in code or 'lock_guard' in code: pass
        if re.match(r'^\s*break;', code): add(code.replace('break;', ';'), 'break dropped')
        if re.match(r'^\s*return;', code): add(code.replace('return;', ';'), 'return dropped')
    return [(path, i, new, what) for i, new, what in out]

CACHE = '/tmp/mt/cache'
def comp(job): return subprocess.run(job, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
DEFS = lambda src: ["-DREISER_RT_HAS_PTHREADS", "-I" + V + "/engine", "-I" + V + "/engine/include", "-I" + V + "/props", "-I" + src]
def flavours(p): return [(n, f) for n, f in check.FLAVOURS.items() if os.path.exists(f"{V}/props/{p}{f['suffix']}.cpp")]
def prepare(props):
    shutil.rmtree(CACHE, ignore_errors=True); os.makedirs(CACHE); jobs = []
    for n, f in check.FLAVOURS.items():
        for s in glob.glob('/repo/src/*.cpp'): jobs.append(['clang++'] + check.BASE + f['flags'] + DEFS('/repo/src') + ['-c', s, '-o', f'{CACHE}/{n}.{os.path.basename(s)}.o'])
        for s, fl in f['engine']: jobs.append(['clang++'] + check.BASE + fl + DEFS('/repo/src') + ['-c', f'{V}/engine/{s}', '-o', f'{CACHE}/{n}.engine.{s}.o'])
        for p in props:
            h = f"{V}/props/{p}{f['suffix']}.cpp"
            if os.path.exists(h): jobs.append(['clang++'] + check.BASE + f['flags'] + DEFS('/repo/src') + ['-c', h, '-o', f'{CACHE}/{n}.{p}.o'])
    with ThreadPoolExecutor(8) as ex:
        for r in ex.map(comp, jobs):
            if r.returncode: print(r.stdout); sys.exit(1)
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:handle_segv=1:detect_stack_use_after_return=0", UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1")
def judge(mut):
    path, i, new, what = mut
    W = tempfile.mkdtemp(prefix='m.', dir='/tmp/mt'); base = os.path.basename(path); stem = base.split('.')[0]
    try:
        shutil.copytree('/repo/src', W + '/src')
        lines = open(path).read().split('\n'); old = lines[i]; lines[i] = new; open(f'{W}/src/{base}', 'w').write('\n'.join(lines))
        isCpp = base.endswith('.cpp')
        r = comp(['clang++'] + check.BASE + ['-fsyntax-only', '-Werror=return-type'] + DEFS(W + '/src') + ([f'{W}/src/{base}'] if isCpp else [f'{W}/src/{stem}.cpp']))
        if r.returncode: return mut, 'invalid', ''
        libs = {}
        for p in CONCERNED[stem].split():
            for n, f in flavours(p):
                if n not in libs:
                    libs[n] = []
                    for s in sorted(glob.glob(W + '/src/*.cpp')):
                        b = os.path.basename(s)
                        if isCpp and b != base: libs[n].append(f'{CACHE}/{n}.{b}.o'); continue
                        o = f'{W}/{n}.{b}.o'; r = comp(['clang++'] + check.BASE + f['flags'] + DEFS(W + '/src') + ['-c', s, '-o', o])
                        if r.returncode: return mut, 'invalid', r.stdout[-300:]
                        libs[n].append(o)
                h = f'{CACHE}/{n}.{p}.o'
                if not isCpp:
                    h = f'{W}/{n}.{p}.o'; r = comp(['clang++'] + check.BASE + f['flags'] + DEFS(W + '/src') + ['-c', f"{V}/props/{p}{f['suffix']}.cpp", '-o', h])
                    if r.returncode: return mut, 'invalid', r.stdout[-300:]
                exe = f'{W}/{n}.{p}'
                r = comp(['clang++'] + libs[n] + [f'{CACHE}/{n}.engine.{s}.o' for s, _ in f['engine']] + [h] + f['link'] + ['-o', exe])
                if r.returncode: return mut, 'invalid', r.stdout[-300:]
                out = f'{W}/{n}.{p}.json'
                subprocess.run([exe, '--seed', '1', '--workers', '2', '--cap', '150', '--out', out, '--tmp', W, '--replay-dir', W + '/rp', '--shrink', '2', '--scale', a.scale], env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                if not os.path.exists(out): return mut, 'broken ' + p, ''
                for s in json.load(open(out))['suites']:
                    if s['failed']: return mut, 'caught ' + s['name'], s['message'][:150]
        return mut, 'SURVIVED', ''
    finally: shutil.rmtree(W, ignore_errors=True)

if __name__ == '__main__':
    files = [f'/repo/src/{f}' for f in a.files] or sorted(f for f in glob.glob('/repo/src/*.[ch]pp') if os.path.basename(f).split('.')[0] in CONCERNED)
    ms = [m for f in files for m in mutants(f)]
    random.Random(a.seed).shuffle(ms)
    if a.sample: ms = ms[:a.sample]
    if a.only: ms = [m for m in ms if f'{os.path.basename(m[0])}:{m[1]+1}' in a.only.split(',')]
    print(len(ms), 'mutants')
    if a.list:
        for m in sorted(ms): print(f'{os.path.basename(m[0])}:{m[1]+1} {m[3]}: {m[2].strip()}')
        sys.exit()
    prepare(sorted({p for f in files for p in CONCERNED[os.path.basename(f).split('.')[0]].split()}))
    tally = {}; res = []
    with ThreadPoolExecutor(a.j) as ex:
        for m, verdict, msg in ex.map(judge, ms):
            tally[verdict.split()[0]] = tally.get(verdict.split()[0], 0) + 1
            res.append((os.path.basename(m[0]), m[1] + 1, m[3], m[2].strip(), verdict, msg)); json.dump(res, open(a.out, 'w'), indent=0)
            print(f'{os.path.basename(m[0])}:{m[1]+1} [{m[3]}] {m[2].strip()[:90]} => {verdict} {msg[:70]}', flush=True)
    print(tally)
