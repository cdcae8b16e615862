#!/usr/bin/env python3
"""Compile every harness once so that the checks find a warm build cache."""
import os, subprocess, sys, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import vlib


def main():
    env = vlib.goenv()
    d = tempfile.mkdtemp(prefix='verif-setup-')
    try:
        bad = 0
        for area in sorted(os.listdir(os.path.join(vlib.VERIF, 'harness'))):
            if area.startswith('vh') or area.startswith('mod_') or not os.path.isdir(os.path.join(vlib.VERIF, 'harness', area)):
                continue
            mods = os.path.exists(os.path.join(vlib.VERIF, 'harness', area, 'MODS'))
            alt = ['-modfile', vlib.make_modfile(d)] if mods else []
            p = subprocess.run(['go', 'build'] + alt + ['-overlay', vlib.make_overlay(d), '-o', os.path.join(d, 'x'), './cmd/zz_' + area],
                               cwd=vlib.REPO, env=env)
            print('setup: harness %s rc=%d' % (area, p.returncode), flush=True)
            bad |= p.returncode
        p = subprocess.run(['go', 'build', '-o', os.path.join(d, 'x'), './cmd/vdisc'], cwd=vlib.REPO, env=env)
        print('setup: vdisc rc=%d' % p.returncode)
        return 1 if bad or p.returncode else 0
    finally:
        shutil.rmtree(d, True)


if __name__ == '__main__':
    sys.exit(main())
