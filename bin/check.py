#!/usr/bin/env python3
import argparse, importlib.util, json, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import vlib


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--replay', help='re-run the case of a replay file')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    c = vlib.Check(a.property, a.tier, seed)
    try:
        if a.replay:
            r = json.load(open(a.replay))['case']
            try:
                c.drive(r['area'], r['driver'], [r['case']], env=r.get('env'), mods=r.get('mods', False), racy=True)
            except vlib.Decided:
                pass
            for what, path, msg in c.violations:
                print(what, msg)
            return 1 if c.violations else 0
        path = os.path.join(vlib.VERIF, 'checks', a.property + '.py')
        spec = importlib.util.spec_from_file_location('chk', path)
        mod = importlib.util.module_from_spec(spec)
        sys.path.insert(0, os.path.join(vlib.VERIF, 'checks'))
        spec.loader.exec_module(mod)
        mod.run(c)
        return c.finish()
    except vlib.Decided:
        return c.finish()
    except vlib.CheckError as e:
        if c.violations:
            # real behaviour of the code already shows the violation
            print('NOTE later part of the check failed: %s' % e)
            return c.finish()
        print('CHECK-ERROR property=%s: %s' % (a.property, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == '__main__':
    sys.exit(main())
