"""C02: fault enumeration over the calls a tuning run makes to the experiment.

For every step of a run and every experiment call inside the step: the call fails (before or after it took effect), the
step is repeated, the run continues. Compared step by step with the run in which nothing failed.
"""
from mc.setups import HIERARCHIES, LABS, build, difference, observe
from mc.world import LabFault, clone
from mc import setups

TECHNIQUE = 'exhaustive fault injection at every experiment call of tuning runs of the real code, differential oracle'
LEVEL = 'model_checking'
RULE = ('an execution is one set-up x one failing call (quick, thorough) or one pair of failing calls in the same or the '
        'following step (thorough; quick for the small set-ups); each is continued and compared with the fault-free run '
        'after every step, single faults until the end of the run')
BOUNDS = {'quick': '11 set-ups x 3 experiments (curved, with unmeasurable region, far start), runs of up to 40 steps; pairs for runs of '
                   'up to 16 steps',
          'thorough': '11 set-ups x 4 experiments, runs of up to 70 steps, all pairs in the same and the next step'}
ASSUMPTIONS = ['a failing call raises an exception; it took effect completely or not at all',
               'a sensing-dot group may already have recorded its cheap values when the following expensive scan fails']

HORIZON = {'quick': 40, 'thorough': 70}


class LateLab(setups.Lab):
    """like Lab, but a failing write has already been carried out"""
    late = False

    def clone(self):
        new = super().clone()
        new.late = self.late
        return new

    def set_gate_voltages(self, new_gate_voltages):
        if self.late and self.calls in self.faults:
            self.voltages.update({k: float(v) for k, v in new_gate_voltages.items()})
        return super().set_gate_voltages(new_gate_voltages)


def chunks(tier):
    for h in HIERARCHIES:
        for l in (LABS if tier == 'thorough' else ('curved', 'hole', 'far')):
            for part in range(4):
                yield h, l, part, tier


def strip(obs):
    """the parts a failed step must not change"""
    out = {}
    for k, v in obs.items():
        if isinstance(v, dict):
            v = {a: b for a, b in v.items() if a != 'last'}
        out[k] = v
    return out


def touched(log):
    return [c for c in log if c[0] in ('set', 'measure')]


def explore(chunk, rec):
    hierarchy, lab_name, part, tier = chunk
    horizon = HORIZON[tier]
    at, lab = build(hierarchy, lab_name)
    lab.__class__ = LateLab
    worlds, observed, logs, calls = [], [observe(at)], [], []
    while not at.is_tuning_complete() and len(logs) < horizon:
        worlds.append(clone(lab, at))
        lab.log.clear()
        n = lab.calls
        at.iterate()
        logs.append(touched(lab.log))
        calls.append(list(c[0] for c in lab.log))
        observed.append(observe(at))
        rec.state((chunk[:2], observed[-1]))
        rec.transition()
    total = len(logs)
    rec.note('steps of fault free runs', total if part == 0 else 0)
    pairs = tier == 'thorough' or total <= 16

    def fail(w, step, k, late, history):
        """let call k of this step fail; returns False when the world is unusable"""
        lab, at = w
        lab.faults = {lab.calls + k}
        lab.late = late
        lab.log.clear()
        before = observe(at)
        rec.current = (chunk, history)
        rec.transition()
        try:
            at.iterate()
        except LabFault:
            pass
        else:
            rec.violation('the failure of the experiment did not reach the caller')
            return False
        lab.faults = set()
        after = observe(at)
        a, b = strip(before), strip(after)
        if calls[step][k] == 'measure' and a != b:
            # allowed: values of the completed cheap measurement of a sensing dot
            for g, t in enumerate(at.tuning_hierarchy):
                if hasattr(t, 'expensive_evaluators') and lab.log[-1][1] == 'measure' and \
                        lab.log[-1][2] in [m.name for e in t.expensive_evaluators for m in e.measurements]:
                    for key in ('values', 'variances', 'failed'):
                        a['group %d' % g][key] = b['group %d' % g][key]
        rec.require(a == b, lambda: 'a failed step changed the tuner: %s' % '; '.join(difference(a, b)))
        rec.state((chunk[:2], after))
        return True

    def go(w, start, stop):
        lab, at = w
        for j in range(start, stop):
            lab.log.clear()
            at.iterate()
            rec.transition()
            if not rec.require(touched(lab.log) == logs[j], lambda: 'step %d after the repetition: calls %r, without failure %r'
                               % (j, touched(lab.log), logs[j])):
                return
            got = observe(at)
            if not rec.require(got == observed[j + 1], lambda: 'step %d differs from the run without failure: %s'
                               % (j, '; '.join(difference(got, observed[j + 1])))):
                return

    for i in range(part, total, 4):
        for k, what in enumerate(calls[i]):
            for late in (False, True) if what == 'set' else (False,):
                w = clone(*worlds[i])
                history = [('step', i, 'call', k, what, 'late' if late else '')]
                if not fail(w, i, k, late, history):
                    continue
                if pairs:
                    for k2, what2 in enumerate(calls[i]):
                        w2 = clone(*w)
                        h2 = history + [('retry', i, 'call', k2, what2)]
                        if fail(w2, i, k2, False, h2):
                            go(w2, i, min(total, i + 4))
                            rec.execution(key=(chunk[:2], i, k, late, 'retry', k2), outcome=(hierarchy, what, what2))
                    if i + 1 < total:
                        w3 = clone(*w)
                        go(w3, i, i + 1)
                        for k2, what2 in enumerate(calls[i + 1]):
                            w2 = clone(*w3)
                            h2 = history + [('next step', i + 1, 'call', k2, what2)]
                            if fail(w2, i + 1, k2, False, h2):
                                go(w2, i + 1, min(total, i + 5))
                                rec.execution(key=(chunk[:2], i, k, late, 'next', k2), outcome=(hierarchy, what, what2))
                rec.current = (chunk, history)
                go(w, i, total)
                rec.execution(key=(chunk[:2], i, k, late), outcome=(hierarchy, what, late))
                rec.trace()
                rec.sample(repr((chunk, history)))
