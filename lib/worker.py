"""One shard of one check (started by run.py with the right environment)."""
import ast
import faulthandler
import importlib
import json
import os
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.path.insert(0, HERE)


def main():
    cfg = json.loads(sys.argv[1])
    faulthandler.enable()
    warnings.simplefilter('ignore')
    import harness as H
    import tnco
    import tnco_core
    core = os.environ['VERIF_CORE']
    repo = os.environ['VERIF_REPO']
    assert tnco_core.__file__.startswith(core + '/'), tnco_core.__file__
    assert tnco.__file__.startswith(repo + '/'), tnco.__file__

    H.load_known(cfg['property'], os.path.join(HERE, '..', 'KNOWN_FINDINGS'))
    mod = importlib.import_module('checks.' + cfg['property'].lower())
    subs = {s.name: s for s in mod.SUBS}
    assert len(subs) == len(mod.SUBS), 'duplicated sub names'
    jf = open(cfg['journal'], 'w', buffering=1)

    def journal(name, case):
        jf.seek(0)
        jf.write(repr((name, repr(case))) + '\n')
        jf.truncate()
        jf.flush()

    res = dict(subs={}, failures=[])

    def dump():
        res['known'] = {k: H.KNOWN[k] for k in sorted(H.SEEN)}
        with open(cfg['out'] + '.tmp', 'w') as f:
            json.dump(res, f)
        os.rename(cfg['out'] + '.tmp', cfg['out'])

    def failure(name, case, exc):
        tb = ''.join(traceback.format_exception(exc))[-3000:]
        res['failures'].append(
            dict(sub=name,
                 case=repr(case),
                 error=f'{type(exc).__name__}: {exc}'[:1500],
                 traceback=tb))

    # Replay of given cases (replay file, or the committed regressions)
    n_replayed = 0
    for name, case in cfg['cases']:
        if name not in subs:
            raise H.HarnessError(f'unknown sub {name}')
        case = ast.literal_eval(case)
        journal(name, case)
        try:
            subs[name].run(case)
            n_replayed += 1
        except H.hypothesis.errors.UnsatisfiedAssumption:
            pass
        except H.HarnessError:
            raise
        except BaseException as e:
            failure(name, case, e)
    res['replayed'] = n_replayed

    t0 = time.monotonic()
    todo = [
        s for s in mod.SUBS
        if not s.shards or cfg['shard'] < s.shards
    ] if cfg['generate'] else []
    if cfg['only']:
        todo = [s for s in todo if s.name in cfg['only']]
    left = cfg['budget_s']
    wleft = sum(s.weight for s in todo)
    for s in todo:
        t1 = time.monotonic()
        slot = left * s.weight / wleft if wleft else left
        ns = min(s.shards or cfg['nshards'], cfg['nshards'])
        n = -(-getattr(s, cfg['tier']) // ns)
        n = max(1, int(n * cfg['scale']))
        stats = H.Stats()
        bad = H.run_sub(s,
                        n=n,
                        base_seed=(cfg['seed'], cfg['shard']),
                        deadline=t1 + slot,
                        stats=stats,
                        journal=journal,
                        shrink_s=cfg['shrink_s'])
        used = time.monotonic() - t1
        res['subs'][s.name] = dict(evaluations=stats.evaluations,
                                   rejected=stats.rejected,
                                   nontrivial=sorted(stats.nontrivial),
                                   tags=stats.tags,
                                   samples=stats.samples,
                                   planned=n,
                                   rule=s.rule,
                                   wall_s=round(used, 2))
        if bad:
            failure(s.name, *bad)
            dump()
            break
        left -= used
        wleft -= s.weight
        dump()
    res['wall_s'] = time.monotonic() - t0
    res['done'] = True
    dump()
    jf.close()
    sys.stdout.flush()
    sys.stderr.flush()
    # no waiting for stray threads: leaks are judged by the checks themselves
    os._exit(0)


if __name__ == '__main__':
    try:
        main()
    except BaseException:
        traceback.print_exc()
        sys.stderr.flush()
        os._exit(3)
