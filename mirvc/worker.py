"""one proof task: worker.py DUMP OUT FUNCTION CLAUSES OPTS(json)
CLAUSES: comma separated clause ids (they share one exploration).  Writes a JSON result."""
import sys, json, time, os, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import z3


def main():
    dump, out, name, ids, opts = sys.argv[1:6]
    opts = json.loads(opts)
    idx = opts.pop('instance', 0)
    mode = opts.pop('mode', 'expr')
    t0 = time.time()
    res = dict(function=name, clauses=ids.split(','), z3=z3.get_version_string())
    try:
        import run1
        e = run1.mk(dump, mode=mode, **opts)
        c = e.contracts.get(name)
        f = e.p.by_norm[name][idx]
        cls = [c1 for c1 in c.clauses if c1.id in res['clauses']]
        r = e.verify(f, cls, ids)
        res.update(obligations=r['obligations'], paths=r['paths'], returns=r['returns'], error=r['error'], instance=f['name'],
                   stats=e.stats, used=e.used_contracts, inlined=sorted(e.inlined), trusted=sorted(map(str, e.trusted)),
                   intrinsics=sorted(getattr(e.intr, 'used', ())))
    except Exception as ex:
        res.update(obligations=[], paths=0, returns=0, error='internal: %s: %s' % (type(ex).__name__, ex), trace=traceback.format_exc()[-2000:])
    res['secs'] = round(time.time() - t0, 2)
    with open(out + '.tmp', 'w') as fo:
        json.dump(res, fo)
    os.rename(out + '.tmp', out)


main()
