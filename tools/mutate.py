#!/usr/bin/env python3
"""mutate.py gen N SEED FILE... : writes N random one-line changes as /tmp/mut/c/*.diff
   mutate.py filter W          : worker W of 4 (run inside unshare -m with a private /repo): keeps those that build and pass the tests in /tmp/mut/s/"""
import difflib, glob, os, random, re, subprocess, sys, json
R = '/repo/'
OPS = [(r'==', '!='), (r'!=', '=='), (r'(?<![<\-=])>=', '>'), (r'(?<![<])<=', '<'), (r'(?<![-<>=])>(?![>=:])(?= )', '>='), (r'(?<![<>])<(?![<=])(?= )', '<='),
       (r'&&', '||'), (r'\|\|', '&&'), (r'\band\b', 'or'), (r'\bor\b', 'and'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\bTrue\b', 'False'), (r'\bFalse\b', 'True'),
       (r' \+ ', ' - '), (r' - ', ' + '), (r' \+= ', ' -= '), (r' -= ', ' += '), (r'\bnot ', ''), (r'if \(!', 'if ('), (r'\.enabled\b', '.required'), (r'\.required\b', '.enabled'),
       (r' << ', ' >> '), (r' >> ', ' << '), (r' \* ', ' + '), (r'\bbreak;', ''), (r'&\s', '| '), (r'::NONE', '::UTC'), (r'\.max\(', '.min('), (r'uint32_t', 'uint16_t'), (r'uint64_t', 'uint32_t'), (r'hton', 'ntoh'), (r'long double', 'double'), (r'int32_t', 'int16_t')]


def muts(path):
    L = open(R + path).read().splitlines(1)
    out = []
    doc = False
    for i, l in enumerate(L):
        s = l.strip()
        if s.count('"""') == 1: doc = not doc; continue
        if doc or not s or s.startswith(('#', '//', '*', '/*', '@', 'import', 'from ', '"""', 'namespace', 'name :')): continue
        code = l
        for a, b in OPS:
            for m in re.finditer(a, code): out.append((i, code[:m.start()] + b + code[m.end():]))
        for m in re.finditer(r'(?<![\w.])(\d+)(?![\w.])', code):
            v = int(m.group(1))
            for w in ({v + 1, v - 1} if v else {1}): out.append((i, code[:m.start()] + str(w) + code[m.end():]))
        if re.match(r'\s+[\w.\->\[\]:]+(\(.*\)|\s*[-+|&]?=[^=].*);\s*$', l) and not s.startswith(('return', 'using')): out.append((i, re.match(r'\s*', l).group(0) + ';\n'))
        if path.endswith('.py') and re.match(r'\s+(self[\w.\[\]\']*|packed_tag\w*|raise\b.*|[\w.]+\(.*\)$)', l) and s[-1] not in '([{,:': out.append((i, re.match(r'\s*', l).group(0) + 'pass\n'))
    return L, out


def main():
    if sys.argv[1] == 'gen':
        n, seed, files = int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:]
        random.seed(seed)
        os.makedirs('/tmp/mut/c', exist_ok=True)
        done = 0
        pool = {f: muts(f) for f in files}
        for f in pool: random.shuffle(pool[f][1])
        for k in range(n):
            f = files[k % len(files)]
            L, o = pool[f]
            if not o: continue
            i, new = o.pop()
            M = L[:i] + [new] + L[i + 1:]
            d = 'diff --git a/%s b/%s\n' % (f, f) + ''.join(difflib.unified_diff(L, M, 'a/' + f, 'b/' + f))
            open('/tmp/mut/c/%s_%d_%03d.diff' % (re.sub(r'\W', '-', f.replace('src/vrtgen/', '').replace('include/vrtgen/', '')), seed, k), 'w').write(d); done += 1
        print(done)
    else:
        w = int(sys.argv[2])
        os.makedirs('/tmp/mut/s', exist_ok=True)
        base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        for k, p in enumerate(sorted(glob.glob('/tmp/mut/c/*.diff'))):
            if k % int(sys.argv[3]) != w: continue
            o = '/tmp/mut/s/' + os.path.basename(p)
            if os.path.exists(o) or os.path.exists(p + '.dead'): continue
            subprocess.run('cd /repo && git checkout -q -- . && git apply %s' % p, shell=True, check=True)
            r = subprocess.run('bash /opt/vp/build.sh', shell=True, capture_output=True)
            ok = r.returncode == 0
            if ok:
                subprocess.run('timeout 120 bash /opt/vp/test.sh /tmp/mut/t%d.json' % w, shell=True, capture_output=True)
                try: t = set(json.load(open('/tmp/mut/t%d.json' % w))['passed'])
                except Exception: t = set()
                ok = base <= t if base else len(t) >= 717
            open(o if ok else p + '.dead', 'w').write(open(p).read())
        subprocess.run('cd /repo && git checkout -q -- .', shell=True)


main()
