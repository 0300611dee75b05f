"""second solver for goals z3 leaves open"""
import os
import subprocess
import tempfile


def second(solver, goal, timeout=10):
    return answer(solver, [goal], timeout) == 'unsat'


def answer(solver, goals, timeout):
    solver.push()
    solver.add(*goals)
    txt = solver.to_smt2()
    solver.pop()
    fd, p = tempfile.mkstemp(suffix='.smt2')
    try:
        with os.fdopen(fd, 'w') as f:
            f.write('(set-logic ALL)\n' + txt)
        try:
            r = subprocess.run(['cvc5', '--strings-exp', '--tlimit=%d' % (timeout * 1000), p], capture_output=True, text=True, timeout=timeout + 5)
        except (subprocess.TimeoutExpired, OSError):
            return 'unknown'
        return r.stdout.strip().split('\n')[0]
    finally:
        os.unlink(p)
