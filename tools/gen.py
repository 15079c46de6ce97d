"""Turns behaviours printed by TLC (lines 'BEH <json>') into command files."""
import json


def behaviours(out):
    res = []
    for line in out.splitlines():
        line = line.strip()
        if line.startswith('"BEH '):
            s = json.loads(line) if line.endswith('"') else None
            if s:
                res.append(json.loads(s[4:]))
    # the same behaviour can be printed more than once under simulation
    seen, uniq = set(), []
    for b in res:
        k = json.dumps(b)
        if k not in seen:
            seen.add(k)
            uniq.append(b)
    return uniq


def flat(x):
    """A command record as 'name arg arg ...', arguments in field order a, b, c..."""
    def atom(v):
        if isinstance(v, bool):
            return '1' if v else '0'
        if isinstance(v, list):
            return ','.join(atom(y) for y in v) if v else '-'
        return str(v)
    return ' '.join([x['op']] + [atom(x[k]) for k in sorted(x) if k != 'op'])


def write(fmt, behs, path):
    with open(path, 'w') as f:
        for b in behs:
            f.write('begin\n')
            for c in b:
                f.write(flat(c) + '\n')
    return len(behs)
