"""C29: the objects of the Python modules hold exactly what was put into them."""
import os, subprocess, sys, uuid as pyuuid
sys.path.insert(0, os.environ['KNP_PY'])
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness'))
import pymc
import knp.core as kc
import knp.core._knp_python_framework_core as core
from knp.core import UID
import knp.core.messaging as km
import knp.neuron_traits as nt
import knp.synapse_traits as stt
from knp.synapse_traits import OutputType
from knp.base_framework import Network, Model

LOOKUP = (ValueError, IndexError, RuntimeError, KeyError, TypeError)

def uid(k):
    return UID(list(bytes([k, 0x10 + k]) + bytes(13) + bytes([200 - k])))

def same(c, got, want, what):
    c.check(bool(got == want) and not bool(got != want) and str(got) == str(want), '%s: UID %s, expected %s' % (what, got, want))

# ---------------------------------------------------------------- UIDs
PATTERNS = [bytes(16), bytes(15) + b'\1', b'\1' + bytes(15), b'\xff' * 16, bytes(range(16)), bytes(range(15, -1, -1)), b'\x80' + bytes(15),
            b'\x7f' + b'\xff' * 15, bytes(7) + b'\1' + bytes(8), bytes(8) + b'\1' + bytes(7), b'\xab\xcd\xef' * 5 + b'\1', bytes(8) + b'\xff' * 8]

def uids(c, tier):
    a, b = c.pick(PATTERNS), c.pick(PATTERNS)
    how = [lambda x: UID(list(x)), lambda x: UID(pyuuid.UUID(bytes=x)), lambda x: UID(UID(list(x)))]
    x, y = c.pick(how)(a), c.pick(how)(b)
    c.op('%s and %s' % (a.hex(), b.hex()))
    c.equal(str(x), str(pyuuid.UUID(bytes=a)), 'text of a UID')
    c.equal(bool(x), any(a), 'validity of a UID')
    c.equal(bool(x == y), a == b, '== of %s and %s' % (x, y))
    c.equal(bool(x != y), a != b, '!= of %s and %s' % (x, y))
    c.check((bool(x < y), bool(y < x)) in ([(False, False)] if a == b else [(True, False), (False, True)]), 'order of %s and %s' % (x, y))
    if a == b:
        c.equal(hash(x), hash(y), 'hash of equal UIDs')
        c.equal(hash(x), hash(UID(x)), 'hash of a copy')
    d = {x: 'x'}
    c.equal(y in d, a == b, 'membership in a dictionary')
    t = x.tag
    c.equal(t.is_nil() if callable(t.is_nil) else t.is_nil, not any(a), 'is_nil')
    same(c, UID(t), x, 'UID of a tag')
    c.state((a, b))

def uids_new(c, tier):
    made = [UID(), UID(True), UID(random=True), UID(), UID(True)]
    c.op('five random UIDs')
    c.equal(len(set(made)), 5, 'number of distinct random UIDs')
    c.check(all(made), 'a random UID is not valid')
    c.check(not UID(False) and str(UID(False)) == str(pyuuid.UUID(int=0)), 'UID(False) is not nil')
    n = c.choose(20)
    if n != 16:
        c.raises(ValueError, lambda: UID([1] * n), 'UID of %d bytes' % n)
    else:
        c.equal(str(UID([1] * n)), str(pyuuid.UUID(bytes=b'\1' * 16)), 'UID of 16 bytes')
    for bad in ([256] + [0] * 15, [-1] + [0] * 15, ['a'] * 16, [None] * 16):
        c.raises((ValueError, TypeError, OverflowError), lambda: UID(bad), 'UID of %r' % bad)
    c.state(n)

# ---------------------------------------------------------------- parameters of neurons and synapses
MAX64 = 2 ** 64 - 1
FMAX = 3.4028234663852886e38
BLIFAT = dict(n_time_steps_since_last_firing=MAX64, activation_threshold=1.0, dynamic_threshold=0.0, threshold_decay=0.0, threshold_increment=0.0,
              postsynaptic_trace=0.0, postsynaptic_trace_decay=0.0, postsynaptic_trace_increment=0.0, inhibitory_conductance=0.0,
              inhibitory_conductance_decay=0.0, potential=0.0, pre_impact_potential=0.0, potential_decay=0.0, bursting_phase=0, bursting_period=0,
              reflexive_weight=0.0, reversal_inhibitory_potential=-0.3, absolute_refractory_period=0, potential_reset_value=0.0,
              min_potential=-1e9, total_blocking_period=2 ** 63 - 1, dopamine_value=0.0)
STDP = dict(dopamine_plasticity_time=1, free_synaptic_resource=1.0, synaptic_resource_threshold=FMAX, resource_drain_coefficient=0, stability=0.0,
            stability_change_parameter=0.0, stability_change_at_isi=0.0, isi_max=1, d_h=1.0, isi_status=nt.ISIPeriodType.NOT_IN_PERIOD,
            last_step=0, first_isi_spike=0, is_being_forced=False)
VALUES = dict(dopamine_plasticity_time=[0, 7, 2 ** 32 - 1], free_synaptic_resource=[0.0, -2.5, 1e30], synaptic_resource_threshold=[0.0, -1.5, 3.0],
              resource_drain_coefficient=[0, 5, 2 ** 32 - 1], stability=[0.5, -0.25, 100.0], stability_change_parameter=[0.125, -8.0, 3.0],
              stability_change_at_isi=[0.75, -4.0, 9.0], isi_max=[0, 11, 2 ** 32 - 1], d_h=[0.0, -1.75, 6.0],
              isi_status=[nt.ISIPeriodType.IS_FORCED, nt.ISIPeriodType.PERIOD_STARTED, nt.ISIPeriodType.PERIOD_CONTINUED],
              last_step=[3, MAX64, 2 ** 32], first_isi_spike=[4, MAX64, 2 ** 33], is_being_forced=[True, False, True])
ALTAI = dict(is_diff=False, is_reset=True, leak_rev=True, saturate=True, do_not_save=False, potential=0.0, activation_threshold=1,
             negative_activation_threshold=30000, potential_leak=0, potential_reset_value=0)
DELTA = dict(weight=0.0, delay=1, output_type=OutputType.EXCITATORY)
RULE = dict(synaptic_resource=0.0, min_weight=0.0, max_weight=1.0, d_u=0.0, dopamine_plasticity_period=0, last_spike_step=0, had_hebbian_update=False, had_contributed=False)

def near(a, b):
    return a == b or (isinstance(a, float) and isinstance(b, float) and abs(a - b) <= 1e-6 * max(abs(a), abs(b)))

def fields(c, obj, want, what):
    for k, v in want.items():
        got = getattr(obj, k)
        c.check(near(got, v) and type(got) is type(v), '%s: %s is %r, expected %r' % (what, k, got, v))

def defaults(c, tier):
    cls, want = c.pick([(nt.BLIFATNeuronParameters, BLIFAT), (nt.AltAILIFNeuronParameters, ALTAI),
                        (nt.SynapticResourceSTDPBLIFATNeuronParameters, dict(BLIFAT, **STDP)), (stt.DeltaSynapseParameters, DELTA),
                        (stt.SynapticResourceSTDPDeltaSynapseParameters, DELTA), (stt.SynapticResourceSTDPDeltaSynapseRule, RULE)])
    c.op('default ' + cls.__name__)
    fields(c, cls(), want, cls.__name__)
    if cls is stt.SynapticResourceSTDPDeltaSynapseParameters:
        fields(c, cls().rule, RULE, 'rule of ' + cls.__name__)
    c.state(cls.__name__)

def assignments(c, tier):
    p, q = nt.SynapticResourceSTDPBLIFATNeuronParameters(), nt.SynapticResourceSTDPBLIFATNeuronParameters()
    want = dict(BLIFAT, **STDP)
    for i in range(2 if tier == 'quick' else 3):
        k = c.pick(sorted(VALUES))
        v = VALUES[k][c.choose(3) if i == 0 or tier != 'quick' else 0]
        c.op('%s = %r' % (k, v))
        setattr(p, k, v)
        want[k] = v
        fields(c, p, want, 'after assignments')
        c.state(sorted((k, str(v)) for k, v in want.items()))
    fields(c, q, dict(BLIFAT, **STDP), 'another object')

def delta(c, tier):
    w = c.pick([0.0, 1.0, -2.5, 1e-30, 3e30])
    d = c.pick([0, 1, 2, 1000, 2 ** 32 - 1])
    t = c.pick([OutputType.EXCITATORY, OutputType.INHIBITORY_CURRENT, OutputType.INHIBITORY_CONDUCTANCE, OutputType.DOPAMINE, OutputType.BLOCKING])
    c.op('DeltaSynapseParameters(%r, %r, %s)' % (w, d, t))
    fields(c, stt.DeltaSynapseParameters(w, d, t), dict(weight=w, delay=d, output_type=t), 'delta synapse')
    s = (stt.DeltaSynapseParameters(w, d, t), 3, 4)
    p = kc.DeltaSynapseProjection(uid(1), uid(2), lambda i: s, 1)
    fields(c, p[0][0], dict(weight=w, delay=d, output_type=t), 'delta synapse of a projection')
    c.state((w, d, str(t)))

# ---------------------------------------------------------------- populations
class Stop(Exception):
    pass

def neuron(k):
    p = nt.SynapticResourceSTDPBLIFATNeuronParameters()
    p.free_synaptic_resource, p.last_step, p.is_being_forced, p.isi_max = float(k), 10 + k, bool(k & 1), k
    return p

def key_of(p):
    return (p.free_synaptic_resource, p.last_step, p.is_being_forced, p.isi_max)

def key(k):
    return (float(k), 10 + k, bool(k & 1), k)

def masked(make, mask, first, seen):
    def g(i):
        seen.append(i)
        return make(first + i) if mask >> i & 1 else None
    return g

def expect(first, n, mask):
    return [first + i for i in range(n) if mask >> i & 1]

def population_is(c, p, model, u):
    c.equal(len(p), len(model), 'length')
    c.equal([key_of(x) for x in p], [key(k) for k in model], 'neurons by iteration')
    c.equal([key_of(p[i]) for i in range(len(model))], [key(k) for k in model], 'neurons by index')
    for i in (len(model), len(model) + 1, 2 ** 40, -1):
        c.raises((IndexError, OverflowError), lambda: p[i], 'index %d of %d' % (i, len(model)))
    if u is not None:
        same(c, p.uid, u, 'UID of the population')

def populations(c, tier):
    cls = kc.SynapticResourceSTDPBLIFATNeuronPopulation
    n = c.choose(4)
    mask = c.choose(1 << n)
    seen = []
    if c.choose(2):
        u = uid(5)
        p = cls(u, masked(neuron, mask, 0, seen), n)
    else:
        p = cls(masked(neuron, mask, 0, seen), n)
        u = p.uid
        c.check(bool(u), 'the UID of a population is not valid')
    c.op('population of %d neurons, mask %d' % (n, mask))
    c.equal(seen, list(range(n)), 'indexes given to the generator')
    model, nxt = expect(0, n, mask), 10
    population_is(c, p, model, u)
    c.state(model)
    for depth in range(2 if tier == 'quick' else 3):
        kind = c.choose(4)
        if kind == 0:
            n = c.choose(3)
            mask = c.choose(1 << n)
            seen = []
            p.add_neurons(masked(neuron, mask, nxt, seen), n)
            c.op('add %d neurons, mask %d' % (n, mask))
            c.equal(seen, list(range(n)), 'indexes given to the generator')
            model += expect(nxt, n, mask)
            nxt += 10
        elif kind == 1:
            if not model:
                return
            i = c.choose(len(model))
            c.op('remove neuron %d' % i)
            p.remove_neuron(i)
            del model[i]
        elif kind == 2:
            mask = c.choose(1 << len(model))
            idx = [i for i in range(len(model)) if mask >> i & 1]
            order = c.choose(3)
            given = [idx, idx[::-1], tuple(idx[1:] + idx[:1])][order]
            c.op('remove neurons %r' % (given,))
            p.remove_neurons(given)
            model = [k for i, k in enumerate(model) if i not in idx]
        else:
            if not model:
                return
            i = c.choose(len(model))
            c.op('change neuron %d' % i)
            x = p[i]
            k = nxt
            nxt += 10
            x.free_synaptic_resource, x.last_step, x.is_being_forced, x.isi_max = key(k)
            # A neuron that was got by its index is the neuron of the population.
            model[i] = k
        population_is(c, p, model, u)
        c.state(model)

def population_types(c, tier):
    kind = c.pick([('BLIFATNeuronPopulation', nt.BLIFATNeuronParameters, BLIFAT), ('AltAILIFPopulation', nt.AltAILIFNeuronParameters, ALTAI),
                   ('SynapticResourceSTDPBLIFATNeuronPopulation', nt.SynapticResourceSTDPBLIFATNeuronParameters, dict(BLIFAT, **STDP)),
                   ('LIFNeuronPopulation', None, None), ('SynapticResourceSTDPAltAILIFNeuronPopulation', None, None)])
    cls = getattr(core, kind[0])
    n = c.choose(4)
    mask = c.choose(1 << n) if kind[1] else 0
    u = uid(7)
    p = cls(u, masked(lambda k: kind[1](), mask, 0, []), n)
    c.op('%s of %d, mask %d' % (kind[0], n, mask))
    c.equal(len(p), bin(mask).count('1'), 'length')
    same(c, p.uid, u, 'UID')
    for x in p:
        fields(c, x, kind[2], 'neuron of a ' + kind[0])
    net = Network()
    net.add_population(p)
    q = net.get_population(u)
    c.check(type(q) is cls and len(q) == len(p), 'the network returns a %s' % type(q).__name__)
    c.raises(TypeError, lambda: cls(u, 5, 1), 'a population of a generator that is not callable')
    others = [x() for x in (nt.BLIFATNeuronParameters, nt.AltAILIFNeuronParameters, stt.DeltaSynapseParameters)
              if x is not kind[1] and not (kind[1] and issubclass(kind[1], x)) and 'BLIFAT' not in kind[0]]
    for bad in ['x', 0, False, (), [], {}, '', (1,), uid(1)] + others + ([(kind[1](),), [kind[1]()]] if kind[1] else []):
        c.raises(TypeError, lambda: cls(u, lambda i: bad, 1), 'a population of %r' % (bad,))
        if kind[1]:
            q = cls(u, lambda i: kind[1](), 2)
            c.raises(TypeError, lambda: q.add_neurons(lambda i: bad if i else kind[1](), 2), 'neurons %r' % (bad,))
            c.check(len(q) >= 2, 'neurons were lost')
    c.raises(Stop, lambda: cls(u, raising(1), 2), 'a population of a failing generator')
    c.state((kind[0], n, mask))

def raising(at):
    def g(i):
        if i == at:
            raise Stop()
        return None
    return g

# ---------------------------------------------------------------- projections
def synapse(k):
    return (stt.DeltaSynapseParameters(float(k) / 4, k + 1, [OutputType.EXCITATORY, OutputType.DOPAMINE, OutputType.BLOCKING][k % 3]), k % 5, 7 - k % 4)

def skey_of(s):
    return (s[0].weight, s[0].delay, s[0].output_type, s[1], s[2])

def skey(k):
    return skey_of(synapse(k))

def projection_is(c, p, model, u):
    c.equal(len(p), len(model), 'length')
    c.equal([skey_of(x) for x in p], [skey(k) for k in model], 'synapses by iteration')
    c.equal([skey_of(p[i]) for i in range(len(model))], [skey(k) for k in model], 'synapses by index')
    for i in (len(model), len(model) + 1, 2 ** 40, -1):
        c.raises((IndexError, OverflowError), lambda: p[i], 'index %d of %d' % (i, len(model)))
    if u is not None:
        same(c, p.uid, u, 'UID of the projection')

def projections(c, tier):
    cls = kc.DeltaSynapseProjection
    n = c.choose(4)
    mask = c.choose(1 << n)
    make = c.pick([lambda k: synapse(k), lambda k: list(synapse(k))])
    seen, how, u = [], c.choose(4), uid(9)
    g = masked(make, mask, 0, seen)
    if how == 0:
        p = cls(u, uid(1), uid(2), g, n)
    elif how == 1:
        p, u = cls(uid(1), uid(2), g, n), None
    else:
        p = cls(u, uid(1), uid(2)) if how == 2 else cls(uid(1), uid(2))
        u = u if how == 2 else None
        projection_is(c, p, [], u)
        p.add_synapses(g, n)
    u = u if u is not None else p.uid
    c.check(bool(u), 'the UID of a projection is not valid')
    c.op('projection of %d synapses, mask %d, constructor %d' % (n, mask, how))
    c.equal(seen, list(range(n)), 'indexes given to the generator')
    model, nxt = expect(0, n, mask), 10
    projection_is(c, p, model, u)
    c.state(model)
    for depth in range(2):
        n = c.choose(3 if tier == 'quick' else 4)
        mask = c.choose(1 << n)
        seen = []
        p.add_synapses(masked(make, mask, nxt, seen), n)
        c.op('add %d synapses, mask %d' % (n, mask))
        c.equal(seen, list(range(n)), 'indexes given to the generator')
        model += expect(nxt, n, mask)
        nxt += 10
        projection_is(c, p, model, u)
        c.state(model)

def projection_types(c, tier):
    name, params = c.pick([('DeltaSynapseProjection', stt.DeltaSynapseParameters), ('AdditiveSTDPDeltaSynapseProjection', None),
                           ('SynapticResourceSTDPDeltaSynapseProjection', stt.SynapticResourceSTDPDeltaSynapseParameters)])
    cls = getattr(core, name)
    n = c.choose(4)
    mask = c.choose(1 << n) if params else 0
    u = uid(11)
    p = cls(u, uid(1), uid(2), masked(lambda k: (params(), k, k + 1), mask, 0, []), n)
    c.op('%s of %d, mask %d' % (name, n, mask))
    c.equal([(s[1], s[2]) for s in p], [(k, k + 1) for k in expect(0, n, mask)], 'connections')
    for s in p:
        fields(c, s[0], DELTA, 'synapse of a ' + name)
        if params is stt.SynapticResourceSTDPDeltaSynapseParameters:
            fields(c, s[0].rule, RULE, 'rule of a ' + name)
    same(c, p.uid, u, 'UID')
    net = Network()
    net.add_projection(p)
    q = net.get_projection(u)
    c.check(type(q) is cls and [(s[1], s[2]) for s in q] == [(s[1], s[2]) for s in p], 'the network returns another projection')
    c.raises(TypeError, lambda: cls(u, uid(1), uid(2), 5, 1), 'a projection of a generator that is not callable')
    for bad in ('x', 5, (1, 2), (1, 2, 3), (stt.DeltaSynapseParameters(), 1), (stt.DeltaSynapseParameters(), 'a', 1), (stt.DeltaSynapseParameters(), 1, 2, 3), (), [], {}, '', 0, False,
                [stt.DeltaSynapseParameters()], (None, 1, 2), (stt.DeltaSynapseParameters(), -1, 2), (stt.DeltaSynapseParameters(), 1, None)):
        c.raises((TypeError, OverflowError), lambda: cls(u, uid(1), uid(2), lambda i: bad, 1), 'a projection of %r' % (bad,))
        if params:
            q = cls(u, uid(1), uid(2), lambda i: (params(), i, 0), 2)
            c.raises((TypeError, OverflowError), lambda: q.add_synapses(lambda i: bad if i else (params(), 7, 7), 2), 'synapses of %r' % (bad,))
            c.equal([(s[1], s[2]) for s in q][:2], [(0, 0), (1, 0)], 'synapses before the failure')
    c.raises(Stop, lambda: cls(u, uid(1), uid(2), raising(1), 2), 'a projection of a failing generator')
    c.state((name, n, mask))

# ---------------------------------------------------------------- networks and models
def pop_of(k, n, u):
    return kc.SynapticResourceSTDPBLIFATNeuronPopulation(u, lambda i: neuron(10 * k + i), n)

def proj_of(k, n, u):
    return kc.DeltaSynapseProjection(u, uid(1), uid(2), lambda i: synapse(10 * k + i), n)

def network_is(c, net, pops, projs):
    c.equal(net.populations_count, len(pops), 'number of populations')
    c.equal(net.projections_count, len(projs), 'number of projections')
    c.equal([(str(p.uid), [key_of(x) for x in p]) for p in net.populations_range()], [(str(uid(u)), [key(k) for k in m]) for u, m in pops], 'populations')
    c.equal([(str(p.uid), [skey_of(x) for x in p]) for p in net.projections_range()], [(str(uid(u)), [skey(k) for k in m]) for u, m in projs], 'projections')
    for u in (21, 22, 23):
        m = [m for v, m in pops if v == u]
        if m:
            p = net.get_population(uid(u))
            c.equal(([key_of(x) for x in p], str(p.uid)), ([key(k) for k in m[0]], str(uid(u))), 'population %d' % u)
        else:
            c.raises(LOOKUP, lambda: net.get_population(uid(u)), 'population %d that was not added' % u)
    for u in (31, 32, 33):
        m = [m for v, m in projs if v == u]
        if m:
            p = net.get_projection(uid(u))
            c.equal(([skey_of(x) for x in p], str(p.uid)), ([skey(k) for k in m[0]], str(uid(u))), 'projection %d' % u)
        else:
            c.raises(LOOKUP, lambda: net.get_projection(uid(u)), 'projection %d that was not added' % u)

def network_op(c, net, pops, projs):
    kind, i = c.choose(5), c.choose(3)
    if kind == 0:
        u = 21 + i
        p = pop_of(i, i, uid(u))
        if [1 for v, _ in pops if v == u]:
            c.op('add population %d again' % u)
            c.raises(LOOKUP, lambda: net.add_population(p), 'adding a population twice')
        else:
            c.op('add population %d' % u)
            net.add_population(p)
            pops.append((u, [10 * i + j for j in range(i)]))
            # The network has its own copy.
            p.add_neurons(lambda j: neuron(77), 1)
    elif kind == 1:
        u = 31 + i
        p = proj_of(i, i, uid(u))
        if [1 for v, _ in projs if v == u]:
            c.op('add projection %d again' % u)
            c.raises(LOOKUP, lambda: net.add_projection(p), 'adding a projection twice')
        else:
            c.op('add projection %d' % u)
            net.add_projection(p)
            projs.append((u, [10 * i + j for j in range(i)]))
            p.add_synapses(lambda j: synapse(77), 1)
    elif kind == 2:
        u = 21 + i
        c.op('remove population %d' % u)
        if [1 for v, _ in pops if v == u]:
            net.remove_population(uid(u))
            pops[:] = [e for e in pops if e[0] != u]
        else:
            c.raises(LOOKUP, lambda: net.remove_population(uid(u)), 'removing a population that was not added')
    elif kind == 3:
        u = 31 + i
        c.op('remove projection %d' % u)
        if [1 for v, _ in projs if v == u]:
            net.remove_projection(uid(u))
            projs[:] = [e for e in projs if e[0] != u]
        else:
            c.raises(LOOKUP, lambda: net.remove_projection(uid(u)), 'removing a projection that was not added')
    else:
        c.op('change copies %d' % i)
        if [1 for v, _ in pops if v == 21 + i]:
            net.get_population(uid(21 + i)).add_neurons(lambda j: neuron(78), 2)
        if [1 for v, _ in projs if v == 31 + i]:
            net.get_projection(uid(31 + i)).add_synapses(lambda j: synapse(78), 2)

def networks(c, tier):
    net = Network(uid(3)) if c.choose(2) else Network()
    nu = str(net.get_uid())
    c.check(nu != str(UID(False)), 'the UID of a network is not valid')
    pops, projs = [], []
    for d in range(3 if tier == 'quick' else 4):
        network_op(c, net, pops, projs)
        # Populations and projections may be listed in any order: the order of the range is not promised.
        network_is(c, net, pops, projs)
        c.equal(str(net.get_uid()), nu, 'UID of the network')
        c.state((pops, projs))

def network_uid(c, tier):
    k = c.choose(9)
    c.op('network with UID %d' % k)
    same(c, Network(uid(k)).get_uid(), uid(k), 'UID of the network')
    c.check(str(Network().get_uid()) != str(Network().get_uid()), 'two networks have one UID')
    c.state(k)

def models(c, tier):
    net, pops, projs = Network(uid(4)), [], []
    for d in range(2):
        network_op(c, net, pops, projs)
    m = Model(net)
    c.op('model of the network')
    network_is(c, m.network, pops, projs)
    same(c, m.network.get_uid(), uid(4), 'UID of the network of the model')
    mu = str(m.get_uid())
    c.check(mu != str(UID(False)), 'the UID of the model is not valid')
    ins, outs = [], []
    for d in range(2 if tier == 'quick' else 3):
        kind = c.choose(4)
        if kind == 0:
            network_op(c, m.network, pops, projs)
        elif kind == 3:
            other, opops, oprojs = Network(uid(6)), [], []
            other.add_population(pop_of(2, 2, uid(22)))
            m.network = other
            c.op('another network')
            pops, projs = [(22, [20, 21])], []
        else:
            i, j = c.choose(2), c.choose(2)
            if kind == 1:
                u = projs[j % len(projs)][0] if projs else 31
                c.op('input channel %d of %d' % (i, u))
                if not projs:
                    c.raises(LOOKUP, lambda: m.add_input_channel(uid(41 + i), uid(u)), 'a channel of a projection that was not added')
                    continue
                m.add_input_channel(uid(41 + i), uid(u))
                ins.append((str(uid(41 + i)), str(uid(u))))
            else:
                u = pops[j % len(pops)][0] if pops else 21
                c.op('output channel %d of %d' % (i, u))
                if not pops:
                    c.raises(LOOKUP, lambda: m.add_output_channel(uid(51 + i), uid(u)), 'a channel of a population that was not added')
                    continue
                m.add_output_channel(uid(51 + i), uid(u))
                outs.append((str(uid(51 + i)), str(uid(u))))
        network_is(c, m.network, pops, projs)
        c.equal(sorted((str(a), str(b)) for a, b in m.input_channels), sorted(ins), 'input channels')
        c.equal(sorted((str(a), str(b)) for a, b in m.output_channels), sorted(outs), 'output channels')
        c.equal(str(m.get_uid()), mu, 'UID of the model')
        c.state((pops, projs, ins, outs))
    n = m.network
    del m
    network_is(c, n, pops, projs)

# ---------------------------------------------------------------- import order
PROGRAM = """
import sys, importlib
sys.path.insert(0, sys.argv[1])
for m in sys.argv[2:]:
    importlib.import_module('knp.' + m)
import knp.core as kc, knp.neuron_traits as nt, knp.synapse_traits as st, knp.base_framework as bf
u = kc.UID([7] * 16)
def g(i):
    p = nt.SynapticResourceSTDPBLIFATNeuronParameters()
    p.isi_max = 5 + i
    return p
net = bf.Network()
net.add_population(kc.SynapticResourceSTDPBLIFATNeuronPopulation(u, g, 2))
net.add_projection(kc.DeltaSynapseProjection(u, u, u, lambda i: (st.DeltaSynapseParameters(2.0, 3 + i, st.OutputType.DOPAMINE), 1, i), 2))
print([(p.isi_max, p.activation_threshold) for p in net.get_population(u)], [(s[0].weight, s[0].delay, str(s[0].output_type), s[1], s[2]) for s in net.get_projection(u)])
try:
    kc.BLIFATNeuronPopulation(lambda i: 'x', 1)
except TypeError:
    print('TypeError')
"""

def imports(c, tier):
    mods = ['core', 'neuron_traits', 'synapse_traits', 'base_framework']
    order = []
    while mods:
        order.append(mods.pop(c.choose(len(mods))))
    c.op('import ' + ', '.join(order))
    r = subprocess.run([sys.executable, '-c', PROGRAM, os.environ['KNP_PY']] + order, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    c.equal((r.returncode, r.stdout), (0, "[(5, 1.0), (6, 1.0)] [(2.0, 3, 'DOPAMINE', 1, 0), (2.0, 4, 'DOPAMINE', 1, 1)]\nTypeError\n"), 'result (%s)' % r.stderr[-300:])
    c.state(order)

# ---------------------------------------------------------------- messages
def messages(c, tier):
    u, t = c.pick([UID(False), uid(1), uid(2)]), c.pick([0, 1, 2 ** 32 + 1, MAX64])
    idx = c.pick([[], [0], [3, 1, 2], [2 ** 32 - 1, 0], list(range(40))])
    m = km.SpikeMessage((u, t), idx)
    c.op('spike message of %s at %d: %r' % (u, t, idx))
    same(c, m.header.sender_uid, u, 'sender')
    c.equal(m.header.send_time, t, 'time')
    c.equal(list(m.neuron_indexes), idx, 'indexes')
    c.equal(len(m.neuron_indexes), len(idx), 'number of indexes')
    c.check(str(u) in str(m), 'text of the message: %s' % m)
    kind = c.choose(4)
    if kind == 0:
        m.header.sender_uid, u = uid(8), uid(8)
    elif kind == 1:
        m.header.send_time, t = 5, 5
    elif kind == 2:
        m.neuron_indexes.append(9)
        idx = idx + [9]
    else:
        d = km.SpikeData()
        for i in (4, 5):
            d.append(i)
        m.neuron_indexes, idx = d, [4, 5]
        d.append(6)
    same(c, m.header.sender_uid, u, 'sender')
    c.equal((m.header.send_time, list(m.neuron_indexes)), (t, idx), 'message after a change')
    c.state((str(u), t, idx))

IMPACT = ['connection_index', 'impact_value', 'synapse_type', 'presynaptic_neuron_index', 'postsynaptic_neuron_index']
IMPACT_VALUES = dict(connection_index=[3, MAX64], impact_value=[-1.5, 2.25], synapse_type=[OutputType.BLOCKING, OutputType.DOPAMINE],
                     presynaptic_neuron_index=[1, 2 ** 32 - 1], postsynaptic_neuron_index=[2, 2 ** 32 - 2])

def impact(k):
    i = km.SynapticImpact()
    i.connection_index, i.impact_value, i.synapse_type, i.presynaptic_neuron_index, i.postsynaptic_neuron_index = ikey(k)
    return i

def ikey(k):
    return (k, k / 2.0, [OutputType.EXCITATORY, OutputType.INHIBITORY_CURRENT, OutputType.BLOCKING][k % 3], k + 1, 2 * k + 1)

def impacts(c, tier):
    want = list(ikey(4))
    i = impact(4)
    for d in range(2):
        k = c.choose(5)
        v = IMPACT_VALUES[IMPACT[k]][c.choose(2)]
        c.op('%s = %s' % (IMPACT[k], v))
        setattr(i, IMPACT[k], v)
        want[k] = v
        c.equal([getattr(i, n) for n in IMPACT], want, 'impact')
    m = km.SynapticImpactMessage()
    model = []
    v = km.SynapticImpacts()
    for j in range(c.choose(4)):
        v.append(impact(j))
        model.append(list(ikey(j)))
    v.append(i)
    model.append(want)
    h = km.MessageHeader()
    h.sender_uid, h.send_time = uid(1), 6
    m.impacts, m.header, m.is_forcing = v, h, bool(c.choose(2))
    f = m.is_forcing
    m.presynaptic_population_uid, m.postsynaptic_population_uid = uid(2), uid(3)
    c.equal([[getattr(x, n) for n in IMPACT] for x in m.impacts], model, 'impacts of a message')
    c.equal((len(m.impacts), str(m.header.sender_uid), m.header.send_time, m.is_forcing, str(m.presynaptic_population_uid), str(m.postsynaptic_population_uid)),
            (len(model), str(uid(1)), 6, f, str(uid(2)), str(uid(3))), 'impact message')
    m.impacts[0].impact_value = 77.0
    c.equal(m.impacts[0].impact_value, 77.0, 'changed impact of a message')
    m.is_forcing = not f
    c.equal((m.is_forcing, str(m.presynaptic_population_uid)), (not f, str(uid(2))), 'changed flag')
    c.state(model)

SCENARIOS = [
    ('uids', uids, '12 byte patterns, all pairs, three ways to make each', 2),
    ('new uids', uids_new, 'random UIDs, lists of 0 to 19 bytes', 0),
    ('defaults', defaults, 'all parameter classes, all fields', 0),
    ('assignments', assignments, 'two assignments to any of 13 fields (thorough: three)', 2),
    ('delta synapses', delta, '5 weights, 5 delays, 5 types', 2),
    ('populations', populations, 'up to 3 neurons, any generator mask, two operations (thorough: three)', 4),
    ('population types', population_types, '5 types, up to 3 neurons, any generator mask', 2),
    ('projections', projections, 'up to 3 synapses, any generator mask, four constructors, two additions', 4),
    ('projection types', projection_types, '3 types, up to 3 synapses, any generator mask', 2),
    ('networks', networks, '15 operations, depth 3 (thorough: 4)', 4),
    ('network uid', network_uid, '9 UIDs', 0),
    ('models', models, 'two operations before, two operations on the model (thorough: three)', 4),
    ('imports', imports, 'all orders in which the four modules can be imported', 2),
    ('messages', messages, 'spike messages of 3 senders, 4 times, 5 lists, one change', 2),
    ('impacts', impacts, 'two assignments, up to 4 impacts', 2),
]

if __name__ == '__main__':
    sys.exit(pymc.main('C29', SCENARIOS,
        'Every sequence of operations up to the stated depth is executed on the Python modules built from the sources and compared with a model written in Python after each operation.',
        ['the values a generator gets and returns pass through boost.python as installed'], sys.argv[1:]))
