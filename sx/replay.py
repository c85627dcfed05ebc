"""Replays models of the solver on the plain, uninstrumented code.

usage: replay.py FILE          one counterexample: prints what fails, exit 1 if it reproduces, 0 if not
       replay.py --batch FILE  many: prints one JSON line per entry
"""
import importlib.util
import json
import os
import sys
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('SX_REPO', '/repo')
sys.dont_write_bytecode = True


def load(prop):
    sys.path.insert(0, REPO)
    sys.path.insert(1, VERIF)
    warnings.simplefilter('ignore')
    path = os.path.join(VERIF, 'props', prop.lower() + '.py')
    with open(path) as f:
        if '\nPOINTS = True' in f.read():
            from sx import sched
            sys.meta_path.insert(0, sched.PlainFinder(REPO))
    import oblate
    assert os.path.realpath(oblate.__file__).startswith(os.path.realpath(REPO) + os.sep), oblate.__file__
    sys.path.insert(2, os.path.join(VERIF, 'props'))
    spec = importlib.util.spec_from_file_location('sx_harness', path)
    m = importlib.util.module_from_spec(spec)
    sys.modules['sx_harness'] = m
    spec.loader.exec_module(m)
    return m


def run(mod, entry):
    import contextvars
    from sx.api import ConcH, CheckFailed, AssumeFailed
    H = ConcH(entry['model'], entry.get('tier', 'quick'))
    try:
        contextvars.Context().run(mod.SCENARIOS[entry['scenario']], H)
        res = ('pass', '')
    except CheckFailed as e:
        res = ('fail', str(e))
    except AssumeFailed:
        res = ('assume', traceback.format_exc(limit=-3))
    except Exception as e:
        res = ('fail', 'unexpected %s: %s' % (type(e).__name__, e) + '\n' + traceback.format_exc(limit=-4))
    return dict(result=res[0], message=res[1], outs=H.outs, inputs={k: safe(v) for k, v in H.inputs.items()})


def safe(v):
    try:
        return ascii(v)
    except Exception as e:
        return '<%s>' % type(e).__name__


def isolated(mod, entry):
    """Each replay in its own process: nothing leaks between them."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            out = json.dumps(run(mod, entry)).encode()
            with os.fdopen(w, 'wb') as f:
                f.write(out)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    try:
        return json.loads(data)
    except ValueError:
        return dict(result='error', message='replay process ended without a result', outs=[], inputs={})


def main():
    batch = sys.argv[1] == '--batch'
    with open(sys.argv[-1]) as f:
        entries = json.load(f)
    if not batch:
        entries = [entries]
    mod = load(entries[0]['property'])
    out = [isolated(mod, e) for e in entries]
    if batch:
        for o in out:
            print(json.dumps(o))
        return 0
    o = out[0]
    print('property %s, scenario %s' % (entries[0]['property'], entries[0]['scenario']))
    for k, v in sorted(o['inputs'].items()):
        print('  input %s = %s' % (k, v))
    print('result: %s %s' % (o['result'], ascii(o['message']) if '\n' not in o['message'] else o['message'].encode('ascii', 'backslashreplace').decode()))
    return 1 if o['result'] == 'fail' else 0


if __name__ == '__main__':
    sys.exit(main())
