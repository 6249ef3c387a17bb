#!/usr/bin/env python3
"""python3 replay.py FILE: execute a recorded run again, exactly; exit 1 if the violation shows again."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import run  # noqa


def main():
    path = os.path.abspath(sys.argv[1])
    rep = json.load(open(path, encoding='utf-8'))
    prop = rep['property']
    if rep.get('hashseeds'):
        outs = []
        for h in rep['hashseeds']:
            p = run.spawn(prop, ['replay', path], h)
            outs.append(p.communicate()[0])
            print(outs[-1])
        dig = [[x for x in o.split('\n') if x.startswith('digest')][0].split()[1] for o in outs]
        bad = len(set(dig)) > 1
    else:
        p = run.spawn(prop, ['replay', path])
        print(p.communicate()[0])
        bad = p.returncode == 1
    print(f'VIOLATION property={prop} replay={path}' if bad else f'{prop}: not reproduced')
    sys.exit(1 if bad else 0)


main()
