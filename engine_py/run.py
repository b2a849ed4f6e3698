"""run.py REPO list TIER | run.py REPO run TIER SECONDS PROP ENTRY | run.py REPO concrete TIER PROP ENTRY FILE"""
import json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
repo, what, tier = sys.argv[1:4]
import pysym, props
props.TIER = tier


def main():
    if what == 'list':
        print(json.dumps({p: [n for n, _, _ in l] for p, l in props.ENTRIES.items()})); return 0
    if what == 'run':
        seconds, prop, name = float(sys.argv[4]), sys.argv[5], sys.argv[6]
        loader = pysym.install(repo)
    else:
        prop, name, file = sys.argv[4:7]
        sys.path.insert(0, repo + '/src'); sys.path.append('/opt/vrtgen-venv/lib/python3.12/site-packages')
    fn, reach = next((f, r) for n, f, r in props.ENTRIES[prop] if n == name)
    E = pysym.E
    sys.stdout.flush(); out = os.dup(1); os.dup2(2, 1)      # the reader prints
    props.R = props.Repo()
    if what == 'concrete':
        r = []
        for w in json.load(open(file)):
            E.concrete = [tuple(x) for x in w]
            try: fn(); r.append(None)
            except pysym.Failed as f: r.append(f.aid)
            except Exception as x: traceback.print_exc(); r.append('EXC ' + repr(x)[:300])
        os.write(out, json.dumps(r).encode()); return 0
    t = time.time(); r = dict(error=None, fail=None, incomplete=None, witnesses=[])
    used = set()
    if '--trace' in sys.argv or True:
        def prof(frame, ev, arg):
            c = frame.f_code
            if ev == 'call' and repo in c.co_filename: used.add('%s:%s' % (os.path.relpath(c.co_filename, repo), c.co_qualname))
        E.prof = prof
    try: r['witnesses'] = E.explore(fn, seconds)
    except pysym.Failed as f: r['fail'] = (f.aid, f.values, traceback.format_exc()[-1500:])
    except pysym.Unsupported as x: r['incomplete'] = str(x) + ' ' + traceback.format_exc()[-1500:]
    except Exception as x:
        r['fail'] = ('exception ' + type(x).__name__, E.model_values(), traceback.format_exc()[-1500:])
    r.update(paths=E.paths, steps=E.steps, queries=E.queries, solver_s=E.solver_s, asserts=E.ids, reached=sorted(E.reached), expect=reach, functions=sorted(used), files=[os.path.relpath(f, repo) for f in loader.files], wall_s=time.time() - t)
    os.write(out, json.dumps(r).encode()); return 0


sys.exit(main())
