"""Lines of radvel that a check executes: tools/cov.py OUT.json RNN [RNN ...]   (development aid, nothing depends on it)

Afterwards:  tools/cov.py --show OUT.json ...   prints the lines of the union that were never executed."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


def lines_of(path):
    out = set()

    def walk(co):
        out.update(l for _, _, l in co.co_lines() if l)
        for c in co.co_consts:
            if hasattr(c, 'co_code'):
                walk(c)
    walk(compile(open(path).read(), path, 'exec'))
    return out


def show(files):
    hit = {}
    for f in files:
        try:
            d = json.load(open(f))
        except ValueError:          # a run that was stopped
            continue
        for k, v in d.items():
            hit.setdefault(k, set()).update(v)
    for k in sorted(hit):
        src = open(k).read().split('\n')
        miss = sorted(l for l in lines_of(k) - hit[k] if src[l - 1].strip() and not src[l - 1].strip().startswith(('"""', "'", 'def ', 'class ', '@')))
        print('==', k, '%d of %d' % (len(miss), len(lines_of(k))))
        for l in miss:
            print('%5d %s' % (l, src[l - 1][:120]))


def run(out, check):
    mon = sys.monitoring
    hits = {}
    mon.use_tool_id(3, 'cov')

    def line(code, n):
        if code.co_filename.startswith(REPO + '/radvel'):
            hits.setdefault(code.co_filename, set()).add(n)
        return mon.DISABLE
    mon.register_callback(3, mon.events.LINE, line)
    mon.set_events(3, mon.events.LINE)
    real = os._exit

    def dump(rc=0):
        with open('%s.%s.%d' % (out, check, os.getpid()), 'w') as f:
            json.dump({k: sorted(v) for k, v in hits.items()}, f)
        real(rc)
    os._exit = dump
    sys.path.insert(0, HERE)
    import runpy
    sys.argv = [check]
    try:
        runpy.run_path(os.path.join(HERE, 'checks', check + '.py'), run_name='__main__')
    finally:
        dump()


if __name__ == '__main__':
    if sys.argv[1] == '--show':
        show(sys.argv[2:])
    else:
        for c in sys.argv[2:]:
            pid = os.fork()
            if not pid:
                run(os.path.abspath(sys.argv[1]), c)
            os.waitpid(pid, 0)
