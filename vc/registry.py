"""Which proofs decide which property, and what stays outside the verifier's reach."""
from . import tasks_a, tasks_b, tasks_c, tasks_d, tasks_e, tasks_f, tasks_g, tasks_h
from .tasks_a import Task

A = 'index layer'

# property -> groups of proof tasks
GROUPS = {
    'C01': [A, 'arith', 'neg', 'iadd'], 'C02': [A, 'cmp', 'all'], 'C03': [A, 'query', 'factory', 'copy', 'transpose', 'construct'], 'C04': [A], 'C05': [A, 'transpose'], 'C06': [A], 'C07': [A], 'C08': [A, 'sum'], 'C09': [A, 'abs', 'ext'],
    'C10': [A, 'copy', 'query'], 'C11': [A, 'factory', 'construct'], 'C12': [A, 'copy', 'neg', 'abs', 'iadd', 'transpose', 'construct'], 'C13': [A, 'gradarith'], 'C14': [A, 'gradunary', 'sum', 'ext'], 'C15': [A, 'gradview', 'copy', 'transpose'], 'C16': [A],
    'C17': [A, 'query', 'neg', 'flags', 'transpose', 'copy', 'construct', 'sum', 'abs'], 'C18': [A],
}


def all_tasks(p):
    out = []
    for m in (tasks_a, tasks_b, tasks_c, tasks_d, tasks_e, tasks_f, tasks_g, tasks_h):
        for t in m.tasks(p):
            if t.group is None: t.group = A
            out.append(t)
    return out


def tasks_for(p, prop, tier='quick'): return [t for t in all_tasks(p) if t.group in GROUPS[prop] and (t.quick or tier == 'thorough')]

ASSUME = ['element counts of tensors (times 8) are below 2^63', 'signed integer overflow in element arithmetic wraps', 'object lifetimes and reference counts are not modelled (no use after free is checked by proof; the bounded replay runs under AddressSanitizer)',
          'floating-point operations are uninterpreted functions (the same operation on the same operands gives the same result); gradients are proved over the reals', 'operator new either returns a fresh block or throws']
