"""Writes properties.jsonl and MANIFEST.json from tools/props.py and vz/checks.
Run with /opt/venv/bin/python tools/gen.py (needs zounds importable)."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.dont_write_bytecode = True
sys.path[:0] = [HERE, VERIF]
import props

# reasons for properties that are not claimed
NOT = {}


def main():
    P = props.P
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    mods = sorted(m[:-3] for m in os.listdir(os.path.join(VERIF, 'vz', 'checks'))
                  if m[0] == 'c' and m[1:3].isdigit() and m.endswith('.py'))
    checks, claimed = [], set()
    for m in mods:
        c = importlib.import_module('vz.checks.' + m).CHECK
        claimed.add(c.pid)
        assert c.pid in {p['id'] for p in P}, c.pid
        checks.append(dict(
            property=c.pid, quick_cmd='./run.sh %s' % c.pid,
            thorough_cmd='./run.sh %s --tier thorough' % c.pid,
            evidence_file='evidence/%s.json' % c.pid,
            technique=c.technique, level=c.level,
            level_note=c.note or (
                'Held on the executions reported in the evidence file (generated inputs and histories, '
                'all drawn from VERIF_SEED), judged by an oracle independent of the code; nothing is said '
                'about inputs outside the generators. ' + c.rule)))
    na = [dict(property=p['id'], reason=NOT.get(p['id'], 'no check has been built for it yet'))
          for p in P if p['id'] not in claimed]
    man = dict(version=1, setup_cmd='./run.sh setup', checks=checks, not_applicable=na)
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    print('%d properties, %d claimed' % (len(P), len(checks)))


if __name__ == '__main__':
    main()
