"""Constants of the code under check, used by the bounded search as inputs of interest (never as an oracle)."""
import ast
import json
import os
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
REF = os.path.join(HERE, 'consts.json')


def constants(path):
    """{constant: how often it stands in that file}, documentation left out"""
    out = {}
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            tree = ast.parse(open(path, encoding='utf-8').read())
    except (SyntaxError, ValueError, OSError):
        return out
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            docs.add(id(n.value))
    for n in ast.walk(tree):
        if isinstance(n, ast.Constant) and id(n) not in docs and type(n.value) in (str, int) and (type(n.value) is int or 0 < len(n.value) <= 40):
            k = json.dumps(n.value)
            out[k] = out.get(k, 0) + 1
    return out


def files(root):
    for d, ds, fs in sorted(os.walk(root)):
        ds[:] = [x for x in ds if x not in ('tests', '__pycache__')]
        for f in sorted(fs):
            if f.endswith('.py'):
                yield os.path.join(d, f)


def mined(root, anchors):
    """([texts], [numbers]) of the given files, and those which the reference tree does not have"""
    try:
        ref = json.load(open(REF))
    except (OSError, ValueError):
        ref = None
    old, new = set(), set()
    for p in files(root):
        rel = 'pyswagger/' + os.path.relpath(p, root)
        c = constants(p)
        if rel in anchors:
            old.update(c)
        if ref is not None:
            new.update(k for k in c if c[k] > ref.get(rel, {}).get(k, 0))
    a, b = sorted(map(json.loads, old), key=repr), sorted(map(json.loads, new), key=repr)
    pick = lambda t, l: [x for x in l if type(x) is t]
    return pick(str, a), pick(int, a), pick(str, b), pick(int, b)


if __name__ == '__main__':
    import sys
    root = os.path.join(sys.argv[1] if len(sys.argv) > 1 else '/repo', 'pyswagger')
    with open(REF, 'w') as f:
        json.dump({'pyswagger/' + os.path.relpath(p, root): constants(p) for p in files(root)}, f, indent=0, sort_keys=True)
