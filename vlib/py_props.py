"""The definition reader (Python), executed symbolically: engine_py/pysym.py is the executor, engine_py/props.py the assertions."""
import concurrent.futures, json, os, re, subprocess
from .driver import REPO, VERIF, Setup, Broken

PY = '/opt/veriftools/pyvenv/bin/python'
RUN = VERIF + '/engine_py/run.py'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')


def sh(args, limit):
    p = subprocess.run([PY, '-W', 'ignore', RUN, REPO, *args], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=limit, env=ENV)
    try: return json.loads(p.stdout), p.stderr
    except ValueError: return None, p.stderr


def run(chk, prop):
    names = sh(['list', chk.tier], 60)[0]
    if names is None: raise Setup('python executor')
    limit = 500 if chk.tier == 'quick' else 800
    def one(n):
        try: return n, *sh(['run', chk.tier, str(limit), prop, n], limit + 60)
        except subprocess.TimeoutExpired: return n, None, 'time limit'
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for n, r, err in ex.map(one, names[prop]): judge(chk, prop, n, r, err)


def concrete(chk, prop, n, ws):
    f = '%s/%s.json' % (chk.work, n)
    json.dump(ws, open(f, 'w'))
    return sh(['concrete', chk.tier, prop, n, f], 300)


def judge(chk, prop, n, r, err):
    if r is None:
        # the reader itself cannot be loaded, in the executor or without it
        e = subprocess.run(['/opt/vrtgen-venv/bin/python', '-W', 'ignore', '-c', 'import vrtgen.parser.loader, vrtgen.backend.cpp.type_helpers'], capture_output=True, text=True, cwd=REPO, env=dict(ENV, PYTHONPATH=REPO + '/src'))
        if e.returncode: raise Broken(e.stderr[-3000:])
        chk.problems.append('%s: %s' % (n, err[-800:])); return
    chk.results.append(dict(entry=n, violations=[], incomplete={}, reached=r['reached'], paths=r['paths'], instructions=r['steps'], queries=r['queries'], sat=0, unsat=0, unknown=0, cached=0, solver_s=r['solver_s'], max_query_s=0,
                            asserts=r['asserts'], functions=['/vrtgen/' + f for f in r['functions']], lines=['/vrtgen/' + f for f in r['files']], memory_checks=0, forks=r['paths'] - 1, wall_s=r['wall_s'], rc=0, error=None))
    if r['fail']:
        aid, values, tb = r['fail']
        res, e = concrete(chk, prop, n, [values])
        if not res or not res[0]:
            chk.problems.append('%s: counterexample for %s does not reproduce on the plain code: %s %s %s' % (n, aid, values, tb[-500:], e[-500:])); return
        k = chk.known.get((n, aid))
        if k: chk.known_hit.setdefault(id(k), k); return
        d = os.path.join(chk.cexdir, '%02d_%s' % (len(chk.viol), re.sub(r'\W+', '_', n + '_' + aid)[:60]))
        os.makedirs(d, exist_ok=True)
        json.dump([values], open(d + '/values.json', 'w'))
        open(d + '/report.txt', 'w').write('property %s\nentry %s (engine_py/props.py)\nviolated %s\ninputs %s\nreplay: %s %s %s concrete %s %s %s %s/values.json\nplain run: %s\n%s\n%s\n' % (
            prop, n, aid, text(values), PY, RUN, REPO, chk.tier, prop, n, d, res, e[-2000:], tb))
        chk.viol.append((n, aid, 'inputs ' + text(values)[:300], 'plain run: %s' % res[0], d + '/report.txt')); return
    if r['incomplete']: chk.problems.append('%s: not fully explored: %s' % (n, r['incomplete'][-700:])); return
    miss = [x for x in r['expect'] if x not in r['reached']]
    if miss: chk.problems.append('%s: vacuous, %s not reached' % (n, miss))
    res, e = concrete(chk, prop, n, r['witnesses'])
    if res is None or any(res): chk.problems.append('%s: a path of the symbolic run goes differently on the plain code: %s %s %s' % (n, res, e[-500:], [w for w, x in zip(r['witnesses'], res or []) if x][:2]))
    else: chk.validated += len(res)


def text(values):
    return ' '.join('%s=%s' % (a, b) for a, b in values)


def make(prop, bounds):
    def f(chk):
        chk.bounds = bounds; chk.no_runtime = True
        chk.extra['explanation'] = 'states = symbolic paths of the reader explored to their end, transitions = branch conditions decided on them, traces_validated = path models re-run on the plain reader'
        chk.extra['python'] = 'functions and source files are the reader modules executed; every assertion goes to Z3 unless it is a constant after rewriting'
        run(chk, prop)
    return f


Y01 = make('Y01', 'user-defined stream identifiers of up to 4 subfields (thorough 8), each of 1..40 bits; discrete words of up to 3 subfields (thorough 4), integers of 1..word+8 bits, label lists of 2..16; user trailers of up to 4 fields, label lists of 2..17; value types of 1..64 bits')
Y02 = make('Y02', 'texts of printable ASCII up to one character longer than the longest word; numerals up to 10 decimal and 8 hexadecimal digits')
Y03 = make('Y03', 'indicator words with every pair of fields and every field but one; all values of the eight permissions and requests; every combination of timestamps, class identifier, stream identifier, trailer and spectrum or time')
Y04 = make('Y04', 'eight kinds of packets with symbolic codes, widths and requests; every option moved to every place and reversed, every pair of packets in one file with acknowledgements between them, every option shared or written out')
