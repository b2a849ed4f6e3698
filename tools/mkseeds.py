#!/usr/bin/env python3
"""Writes seeded/<id>/ from tools/seeds.d/*.py (run by hand): each S(...) is one planted change with its demonstration."""
import difflib, glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo/'
T = 'src/vrtgen/backend/cpp/templates/'
D = T + 'macros/function_defs/'
P = 'include/vrtgen/packing/'
I = 'include/vrtgen/'
PYM = 'src/vrtgen/parser/'
CPP = '''d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=c++20 -O1 %s -I include -I "$t" "$d/demo.cpp" %s -o "$t/demo" %s || exit 3
(ulimit -c 0; timeout 60 "$t/demo")
'''
GEN = '''/opt/vrtgen-venv/bin/python -W ignore -m vrtgen.main cpp --dir "$t" --namespace ns "$d/defs.yaml" || exit 3
'''


def snake(n):
    import re
    return re.sub(r'(?<!^)(?=[A-Z])', '_', n).lower()


def S(id, prop, edits, needs, breaks, cpp=None, yaml=None, pkts=(), sh=None, flags='-fsanitize=address,undefined -fno-sanitize-recover=all', libs='', py=None):
    if len(sys.argv) > 1 and id not in sys.argv[1:]: return
    diff = ''
    byf = {}
    for f, old, new, *n in edits: byf.setdefault(f, []).append((old, new, n[0] if n else 1))
    for f, es in byf.items():
        a = open(R + f).read(); b = a
        for old, new, n in es:
            if b.count(old) != n: print('!!', id, f, 'matches', b.count(old), 'expected', n, repr(old[:60])); return
            b = b.replace(old, new)
        diff += 'diff --git a/%s b/%s\n' % (f, f) + ''.join(difflib.unified_diff(a.splitlines(1), b.splitlines(1), 'a/' + f, 'b/' + f))
    o = '%s/seeded/%s' % (V, id)
    os.makedirs(o, exist_ok=True)
    open(o + '/patch.diff', 'w').write(diff)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(o + '/meta.json', 'w'), indent=1)
    s = '#!/bin/bash\n# exit 0 on the unchanged tree, non-zero with the planted change; everything is built in a scratch directory\n'
    if sh: s += sh
    elif py: s += 'd=$(cd "$(dirname "$0")" && pwd); exec timeout 120 env PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=src /opt/vrtgen-venv/bin/python -W ignore "$d/demo.py"\n'
    else:
        c = CPP % (flags, ' '.join('"$t/%s.cpp"' % snake(p) for p in pkts), libs)
        if yaml: c = c.split('\n', 1)[0] + '\n' + GEN + c.split('\n', 1)[1]
        s += c
    open(o + '/demo.sh', 'w').write(s); os.chmod(o + '/demo.sh', 0o755)
    if cpp: open(o + '/demo.cpp', 'w').write('#include <cstdio>\n#include <cstring>\n#include <vector>\n#include <array>\n#include <memory>\n#define CHECK(c) do { if (!(c)) { std::printf("FAILED: %s\\n", #c); return 1; } } while (0)\n' + cpp)
    if yaml: open(o + '/defs.yaml', 'w').write(yaml)
    if py: open(o + '/demo.py', 'w').write(py)


for f in sorted(glob.glob(V + '/tools/seeds.d/*.py')):
    exec(compile(open(f).read(), f, 'exec'))
