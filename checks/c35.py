"""C35: messages, buses, backends and executors do in Python what they do in C++."""
import os, sys
sys.path.insert(0, os.environ['KNP_PY'])
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness'))
import pymc
import knp.core as kc
from knp.core import UID
import knp.core.messaging as km
from knp.core.messaging import SpikeMessage, SynapticImpactMessage
import knp.neuron_traits as nt
import knp.synapse_traits as stt
from knp.synapse_traits import OutputType
from knp.base_framework import Network, Model, ModelExecutor, BackendLoader

ST = os.environ['KNP_PY'] + '/bin/knp-cpu-single-threaded-backend'
MT = os.environ['KNP_PY'] + '/bin/knp-cpu-multi-threaded-backend'
KEEP = []  # one backend of each kind, loaded once: lifetimes are C36

def uid(k):
    return UID([k] * 16)

# ---------------------------------------------------------------- messaging
TYPES = [SpikeMessage, SynapticImpactMessage]

def make_message(t, sender, k):
    if t == 0:
        return SpikeMessage((sender, k), [k, k + 1])
    m = SynapticImpactMessage()
    h = km.MessageHeader()
    h.sender_uid, h.send_time = sender, k
    i = km.SynapticImpact()
    i.connection_index, i.impact_value, i.synapse_type = k, k / 2.0, OutputType.DOPAMINE
    v = km.SynapticImpacts()
    v.append(i)
    m.header, m.impacts, m.is_forcing = h, v, bool(k & 1)
    m.presynaptic_population_uid, m.postsynaptic_population_uid = uid(101), uid(102)
    return m

def message_key(t, m):
    if t == 0:
        return (str(m.header.sender_uid), m.header.send_time, tuple(m.neuron_indexes))
    return (str(m.header.sender_uid), m.header.send_time, m.is_forcing, str(m.presynaptic_population_uid), str(m.postsynaptic_population_uid),
            tuple((i.connection_index, i.impact_value, str(i.synapse_type), i.presynaptic_neuron_index, i.postsynaptic_neuron_index) for i in m.impacts))

class Sent:
    def __init__(self, t, s, k, now, by):
        self.t, self.s, self.k, self.at, self.routed, self.by = t, s, k, now, None, by

class Ep:
    """An endpoint and what it may and must deliver."""
    def __init__(self, bus, now):
        self.e, self.subs, self.born, self.got = bus.create_endpoint(), {}, now, set()

def bus_history(c, depth, types, preload, receivers):
    backend = KEEP[c.choose(2)]
    bus = backend.message_bus
    bus.route_messages()
    now, sent, eps, step = 0, [], [Ep(bus, 0), Ep(bus, 0)], 0
    S, R = [uid(1), uid(2)], [uid(11), uid(12)]
    for t in range(preload):
        eps[t].e.subscribe(TYPES[0], R[0], [S[0], S[1]])
        eps[t].subs[(0, 0)] = {0: 0, 1: 0}, []
    for d in range(depth):
        now += 1
        kind = c.choose(7)
        e = eps[c.choose(2)] if kind not in (3, 6) else None
        n = eps.index(e) if e else 0
        if kind == 0:
            t, r, senders = c.choose(types), c.choose(receivers), c.pick([[0], [0, 1]] if types == 1 else [[0], [1], [0, 1], []])
            c.op('endpoint %d subscribes receiver %d to %s of senders %r' % (n, r, TYPES[t].__name__, senders))
            e.e.subscribe(TYPES[t], R[r], [S[s] for s in senders])
            since, box = e.subs.setdefault((t, r), ({}, []))
            for s in senders:
                since.setdefault(s, now)
        elif kind == 1:
            t, r = c.choose(types), c.choose(receivers)
            c.op('endpoint %d unsubscribes receiver %d from %s' % (n, r, TYPES[t].__name__))
            c.equal(e.e.unsubscribe(TYPES[t], R[r]), (t, r) in e.subs, 'result of unsubscribe')
            e.subs.pop((t, r), None)
        elif kind == 2:
            t, s = c.choose(types), c.choose(2)
            c.op('endpoint %d sends a %s of sender %d' % (n, TYPES[t].__name__, s))
            e.e.send_message(make_message(t, S[s], now))
            sent.append(Sent(t, s, now, now, n))
        elif kind == 3:
            c.op('route')
            c.equal(bus.route_messages(), len([m for m in sent if not m.routed]), 'number of routed messages')
            c.equal(bus.step(), 0, 'number of messages routed after that')
            for m in sent:
                m.routed = m.routed or now
        elif kind == 4:
            c.op('endpoint %d receives' % n)
            count = e.e.receive_all_messages()
            low = high = 0
            for i, m in enumerate(sent):
                if m.routed and i not in e.got:
                    e.got.add(i)
                    must = False
                    for (t, r), (since, box) in e.subs.items():
                        if t == m.t and m.s in since:
                            certain = since[m.s] < m.at
                            box.append((m, certain))
                            must = must or certain
                    low += must
                    high += 1
            c.check(low <= count <= high, 'receive_all_messages returns %r, expected %d to %d' % (count, low, high))
        elif kind == 5:
            t, r = c.choose(types), c.choose(receivers)
            c.op('endpoint %d unloads %s of receiver %d' % (n, TYPES[t].__name__, r))
            got = [message_key(t, m) for m in e.e.unload_messages(TYPES[t], R[r])]
            unload_is(c, e, t, r, got, S)
        else:
            n, r = c.choose(2), c.choose(receivers)
            c.op('endpoint %d removes receiver %d' % (n, r))
            eps[n].e.remove_receiver(R[r])
            for t in range(2):
                eps[n].subs.pop((t, r), None)
        c.state((step, [(sorted((k, sorted(v[0]), len(v[1])) for k, v in e.subs.items()), len(e.got)) for e in eps], [(m.t, m.s, bool(m.routed)) for m in sent]))
    # Whatever was delivered is still there.
    for e in eps:
        for t, r in sorted(e.subs):
            unload_is(c, e, t, r, [message_key(t, m) for m in e.e.unload_messages(TYPES[t], R[r])], S)
    c.raises(TypeError, lambda: eps[0].e.subscribe(km.MessageHeader, R[0], []), 'subscription to a class that is no message')
    c.raises(TypeError, lambda: eps[0].e.unload_messages(km.MessageHeader, R[0]), 'unloading messages of a class that is no message')
    c.raises(TypeError, lambda: eps[0].e.unsubscribe(5, R[0]), 'unsubscribing from a number')

def unload_is(c, e, t, r, got, S):
    since, box = e.subs.get((t, r), ({}, []))
    want = [(message_key(t, make_message(t, S[m.s], m.k)), m.by, certain) for m, certain in box]
    for k, _, certain in want:
        c.check(not certain or k in got, 'message %r is missing in %r' % (k, got))
    c.check(len(set(got)) == len(got) and set(got) <= {k for k, _, _ in want}, 'there are messages that should not be there: %r, expected %r' % (got, want))
    for by in range(2):
        # Messages sent through one endpoint keep their order.
        mine = [k for k, b, _ in want if b == by and k in got]
        c.equal([k for k in got if k in mine], mine, 'order of the messages')
    box.clear()

def messaging(c, tier):
    bus_history(c, 4, 1, 1, 2) if tier == 'quick' else bus_history(c, 5, 1, 1, 1)

def messaging_types(c, tier):
    bus_history(c, 3, 2, 2, 2) if tier == 'quick' else bus_history(c, 4, 2, 1, 1)

# ---------------------------------------------------------------- runs
class Net:
    """Populations of BLIFAT neurons with default parameters: a neuron emits a spike when the impacts of a step sum up to 1 or more."""
    def __init__(self, sizes, projs):
        self.sizes, self.projs = sizes, projs  # projs: (uid number, source population or None, target, [(weight, delay, type, from, to)])

    def run(self, inputs, steps):
        spikes, impacts, due = [], [], {}
        for s in range(steps):
            out = []
            for p, n in enumerate(self.sizes):
                v = due.get((s, p), {})
                out.append([j for j in range(n) if v.get(j, 0.0) >= 1.0])
            spikes.append(out)
            for k, (u, src, dst, syn) in enumerate(self.projs):
                fired = inputs.get(s, []) if src is None else out[src]
                for x, (w, d, t, i, j) in enumerate(syn):
                    for f in fired:
                        if f == i:
                            v = due.setdefault((s + d, dst), {})
                            v[j] = v.get(j, 0.0) + (w if t == OutputType.EXCITATORY else -w)
                            impacts.append((s + d - 1, k, x, w, str(t), i, j))  # the step they are sent in
        return spikes, sorted(i for i in impacts if i[0] < steps)

def pop_uid(p):
    return uid(61 + p)

def objects(net):
    pops = [kc.BLIFATNeuronPopulation(pop_uid(p), lambda i: nt.BLIFATNeuronParameters(), n) for p, n in enumerate(net.sizes)]
    projs = []
    for u, src, dst, syn in net.projs:
        projs.append(kc.DeltaSynapseProjection(uid(u), UID(False) if src is None else pop_uid(src), pop_uid(dst),
                                               lambda i, syn=syn: (stt.DeltaSynapseParameters(*syn[i][:3]), syn[i][3], syn[i][4]), len(syn)))
    return pops, projs

def trains(net, messages):
    """messages: (population or channel, step, indexes) in order of arrival -> trains per step and population."""
    return sorted((m.header.send_time, str(m.header.sender_uid), tuple(m.neuron_indexes)) for m in messages)

def want_trains(net, spikes, pops=None):
    return sorted((s, str(pop_uid(p)), tuple(x)) for s, out in enumerate(spikes) for p, x in enumerate(out) if x and (pops is None or p in pops))

def impact_list(messages, by_uid):
    """messages: (step of arrival, message)."""
    out = []
    for s, m in messages:
        k = by_uid[str(m.header.sender_uid)]
        for i in m.impacts:
            out.append((s, k, i.connection_index, i.impact_value, str(i.synapse_type), i.presynaptic_neuron_index, i.postsynaptic_neuron_index))
    return sorted(out)

def choose_net(c, rich):
    E, I = OutputType.EXCITATORY, OutputType.INHIBITORY_CURRENT
    first = c.pick([[(1.0, 1, E, 0, 0), (1.0, 1, E, 1, 1)], [(0.5, 1, E, 0, 0), (0.5, 1, E, 1, 0), (1.0, 2, E, 1, 1)]] +
                   ([[(2.0, 3, E, 1, 0), (1.0, 1, I, 0, 0), (1.5, 2, E, 0, 1)]] if rich else []))
    second = c.pick([[(1.0, 2, E, 0, 0)], [(1.0, 1, E, 0, 1), (1.0, 1, I, 1, 1), (1.0, 3, E, 1, 0)]])
    loop = c.pick([None, [(1.0, 2, E, 0, 1)]] + ([[(1.0, 1, I, 0, 0), (1.0, 4, E, 1, 0)]] if rich else []))
    projs = [(71, None, 0, first), (72, 0, 1, second)]
    if loop:
        projs.append((73, 1, 0, loop))
    return Net([2, 2], projs)

def choose_inputs(c, steps, busy):
    return {s: c.pick([[], [0], [0, 1], [1]][:busy if s < 2 else 2]) for s in range(steps)}

def choose_backend(c, tier):
    return BackendLoader().load(ST if c.choose(2) == 0 else MT)

def by_steps(c, tier):
    """Loaded into a backend by hand, one step after the other, with messages of an endpoint as input."""
    net = choose_net(c, tier != 'quick')
    late = c.choose(2)
    inputs = choose_inputs(c, 4 if tier == 'quick' else 5, 4)
    b = choose_backend(c, tier)
    steps = 9
    c.op('network of %r, inputs %r' % (net.projs, inputs))
    pops, projs = objects(net)
    b.load_all_populations(pops)
    b.load_all_projections(projs)
    b._init()
    e = b.message_bus.create_endpoint()
    channel = uid(81)
    b.subscribe(SpikeMessage, uid(71), [channel])
    e.subscribe(SpikeMessage, uid(82), [pop_uid(0), pop_uid(1)])
    e.subscribe(SynapticImpactMessage, uid(82), [uid(u) for u, _, _, _ in net.projs])
    got, imp = [], []
    for s in range(steps):
        c.equal(b.get_step(), s, 'step')
        if inputs.get(s):
            e.send_message(SpikeMessage((channel, s), inputs[s]))
        b._step()
        if late and s % 3 != 2 and s + 1 < steps:
            continue
        e.receive_all_messages()
        got += [(m.header.send_time, str(m.header.sender_uid), tuple(m.neuron_indexes)) for m in e.unload_messages(SpikeMessage, uid(82))]
        imp += [(0 if late else s, m) for m in e.unload_messages(SynapticImpactMessage, uid(82))]
    spikes, impacts = net.run(inputs, steps)
    c.equal(sorted(got), want_trains(net, spikes), 'spikes')
    index = {str(uid(p[0])): k for k, p in enumerate(net.projs)}
    c.equal(impact_list(imp, index), sorted((0,) + i[1:] for i in impacts) if late else impacts, 'impacts')
    for _, m in imp:
        u, src, dst, _ = net.projs[index[str(m.header.sender_uid)]]
        c.equal((str(m.presynaptic_population_uid), str(m.postsynaptic_population_uid), m.is_forcing),
                (str(UID(False) if src is None else pop_uid(src)), str(pop_uid(dst)), True), 'ends of an impact message')
    c.equal(b.get_step(), steps, 'step')
    c.state((net.projs, sorted(inputs.items())))

class Stop(Exception):
    pass

def runs(c, tier):
    """Run by Backend.start with one or two predicates, ended by either of them, by stop() or by an exception; then run again."""
    net = choose_net(c, False)
    inputs = choose_inputs(c, 3 if tier == 'quick' else 4, 2)
    b = choose_backend(c, tier)
    pops, projs = objects(net)
    b.load_all_projections(projs)
    b.load_all_populations(pops)
    channel = uid(81)
    b.subscribe(SpikeMessage, uid(71), [channel])
    e = b.message_bus.create_endpoint()
    e.subscribe(SpikeMessage, uid(82), [pop_uid(0), pop_uid(1)])
    c.check(not b.running, 'a backend runs before it is started')
    done, fed = 0, {}
    for part in range(2):
        kind, limit = c.choose(6), c.pick([0, 1, 4])
        end = done + limit
        calls, posts = [], []
        def feed(s):
            calls.append(s)
            c.check(b.running, 'the backend does not run in step %d' % s)
            if kind == 3 and s == end:
                raise Stop()
            go = s < end or kind in (2, 4, 5)
            if go and inputs.get(s):
                fed[s] = inputs[s]
                e.send_message(SpikeMessage((channel, s), inputs[s]))
            if kind in (2, 5) and s == end:
                b.stop()
            return go
        def post(s):
            posts.append(s)
            return kind != 4 or s <= end
        c.op('run %d: %s, until step %d' % (part, ['predicate', 'two predicates', 'stop', 'exception', 'second predicate', 'stop with two predicates'][kind], end))
        if kind in (0, 2):
            b.start(feed)
        elif kind == 3:
            c.raises(Stop, lambda: b.start(feed), 'a run of a failing predicate')
        else:
            b.start(feed, post)
        last = end + 1 if kind in (2, 4, 5) else end
        c.equal(calls, list(range(done, end + 1)), 'steps the predicate was called for')
        if kind in (1, 4, 5):
            c.equal(posts, list(range(done + 1, last + 1)), 'steps the second predicate was called for')
        c.check(not b.running, 'the backend runs after the end of start')
        c.equal(b.get_step(), last, 'number of steps')
        done = last
    e.receive_all_messages()
    spikes, _ = net.run(fed, done)
    c.equal(trains(net, e.unload_messages(SpikeMessage, uid(82))), want_trains(net, spikes), 'spikes')
    c.state((net.projs, sorted(fed.items()), done))

def executors(c, tier):
    """A model with input and output channels and observers, run by an executor."""
    net = choose_net(c, tier != 'quick')
    inputs = choose_inputs(c, 3 if tier == 'quick' else 4, 4)
    as_tuple = c.choose(2)
    b = choose_backend(c, tier)
    pops, projs = objects(net)
    n = Network()
    for p in pops:
        n.add_population(p)
    for p in projs:
        n.add_projection(p)
    m = Model(n)
    channel, outs = uid(81), [uid(91), uid(92)]
    m.add_input_channel(channel, uid(71))
    for p, o in enumerate(outs):
        m.add_output_channel(o, pop_uid(p))
    asked = []
    one = []
    def gen(s):
        asked.append(s)
        if as_tuple:  # a new list each time, or one that is changed
            return list(inputs.get(s, []))
        one[:] = inputs.get(s, [])
        return one
    x = ModelExecutor(m, b, {channel: gen})
    index = {str(uid(p[0])): k for k, p in enumerate(net.projs)}
    seen, imp = [], []
    watched = [[pop_uid(0)], (pop_uid(1), pop_uid(0))][as_tuple]
    x.add_spike_observer(lambda ms: seen.extend((k.header.send_time, str(k.header.sender_uid), tuple(k.neuron_indexes)) for k in ms), watched)
    x.add_impact_observer(lambda ms: imp.extend(impact_list([(0, k) for k in ms], index)), [uid(72)])
    c.op('network of %r, inputs %r' % (net.projs, inputs))
    if as_tuple:
        x.stop_learning()
    x.start(lambda s: s < 3)
    if as_tuple:
        x.start_learning()
    x.start(lambda s: s < 8)
    spikes, impacts = net.run(inputs, 8)
    c.equal(asked, list(range(8)), 'steps the generator was asked for')
    c.equal(sorted(seen), want_trains(net, spikes, [0, 1] if as_tuple else [0]), 'spikes seen by the observer')
    c.equal(sorted(imp), sorted((0,) + i[1:] for i in impacts if i[1] == 1), 'impacts seen by the observer')
    c.equal((x.get_backend().get_step(), str(x.get_backend().uid)), (8, str(b.uid)), 'backend of the executor')
    lo, hi = c.pick([(0, 8), (0, 3), (2, 5), (4, 4), (7, 20)])
    for p, o in enumerate(outs):
        ch = x.get_output_channel(o)
        c.equal(str(ch.get_uid()), str(o), 'UID of the channel')
        ch.update()
        got = [(k.header.send_time, tuple(k.neuron_indexes)) for k in ch.read_some_from_buffer(lo, hi)]
        c.equal(got, [(s, tuple(out[p])) for s, out in enumerate(spikes) if out[p] and lo <= s <= hi], 'messages of the output channel in [%d, %d]' % (lo, hi))
    c.raises((RuntimeError, IndexError, KeyError, ValueError), lambda: x.get_output_channel(uid(93)), 'an unknown output channel')
    c.state((net.projs, sorted(inputs.items()), lo))

def removals(c, tier):
    """Populations and projections are removed from a backend by lists of UIDs between two runs."""
    net = choose_net(c, False)
    b = choose_backend(c, tier)
    pops, projs = objects(net)
    b.load_all_populations(pops)
    b.load_all_projections(projs)
    drop = [k for k in range(len(net.projs)) if c.choose(2)]
    container = c.pick([list, tuple])
    c.op('remove projections %r' % drop)
    b.remove_projections(container(uid(net.projs[k][0]) for k in drop))
    rest = Net(net.sizes, [p for k, p in enumerate(net.projs) if k not in drop])
    b._init()
    channel = uid(81)
    if 0 not in drop:
        b.subscribe(SpikeMessage, uid(71), [channel])
    e = b.message_bus.create_endpoint()
    e.subscribe(SpikeMessage, uid(82), [pop_uid(0), pop_uid(1)])
    inputs = {0: [0, 1], 2: [0]}
    for s in range(6):
        if s in inputs:
            e.send_message(SpikeMessage((channel, s), inputs[s]))
        b._step()
    e.receive_all_messages()
    c.equal(trains(net, e.unload_messages(SpikeMessage, uid(82))), want_trains(rest, rest.run(inputs, 6)[0]), 'spikes')
    b._uninit()
    b.remove_projections([uid(p[0]) for k, p in enumerate(net.projs) if k not in drop])
    b.remove_populations([pop_uid(0), pop_uid(1)])
    b._init()
    e.send_message(SpikeMessage((channel, 6), [0, 1]))
    b._step()
    b._step()
    e.receive_all_messages()
    c.equal(len(e.unload_messages(SpikeMessage, uid(82))), 0, 'number of spike messages of a backend without populations')
    c.state((net.projs, drop))

def backends(c, tier):
    k = c.choose(2)
    path = [ST, MT][k]
    c.op('two backends of ' + path[-24:])
    a, b = BackendLoader().load(path), BackendLoader().load(path)
    c.check(str(a.uid) != str(b.uid) and bool(a.uid), 'UIDs of two backends')
    c.equal(BackendLoader.is_backend(path), True, 'is_backend of a backend')
    c.equal(BackendLoader.is_backend(os.environ['KNP_PY'] + '/bin/libknp-base-framework-core.so'), False, 'is_backend of another library')
    for wrong in ('/nonexistent/libx', '', __file__):
        c.raises(RuntimeError, lambda: BackendLoader.is_backend(wrong), 'is_backend of %r' % wrong)
        c.raises(RuntimeError, lambda: BackendLoader().load(wrong), 'loading %r' % wrong)
    c.raises(RuntimeError, lambda: BackendLoader().load(os.environ['KNP_PY'] + '/bin/libknp-base-framework-core.so'), 'loading a library that is no backend')
    # A loader is a context manager that does not hide what is raised inside of it.
    class Inside(Exception):
        pass
    def raising():
        with BackendLoader() as loader:
            loaded.append(loader.load(path))
            raise Inside()
    loaded = []
    c.raises(Inside, raising, 'what is raised in the context of a loader')
    with BackendLoader() as loader:
        loaded.append(loader.load(path))
    c.check(len(loaded) == 2 and str(loaded[0].uid) != str(loaded[1].uid), 'backends loaded in a context')
    # Buses of two backends are not connected.
    e, f = a.message_bus.create_endpoint(), b.message_bus.create_endpoint()
    f.subscribe(SpikeMessage, uid(11), [uid(1)])
    e.send_message(SpikeMessage((uid(1), 0), [0]))
    a.message_bus.route_messages()
    b.message_bus.route_messages()
    f.receive_all_messages()
    c.equal(len(f.unload_messages(SpikeMessage, uid(11))), 0, 'messages of the bus of another backend')
    # The endpoint of a backend is a part of its bus.
    ep = a.message_endpoint
    ep.send_message(SpikeMessage((uid(1), 4), [2]))
    e.subscribe(SpikeMessage, uid(11), [uid(1)])
    a.message_bus.route_messages()
    e.receive_all_messages()
    c.check((str(uid(1)), 4, (2,)) in [message_key(0, m) for m in e.unload_messages(SpikeMessage, uid(11))], 'a message of the endpoint of the backend')
    c.state(k)

SCENARIOS = [
    ('messaging', messaging, 'two endpoints, one message type, two receivers, depth 4 (thorough: one receiver, depth 5)', 4),
    ('messaging types', messaging_types, 'two endpoints, two message types, two receivers, depth 3 (thorough: one receiver, depth 4)', 4),
    ('steps', by_steps, 'networks of two populations, 4 (thorough: 5) input steps, both backends', 5),
    ('runs', runs, 'two runs of 6 kinds and 3 lengths, 8 input patterns, both backends', 5),
    ('executors', executors, 'networks of two populations, 3 (thorough: 4) input steps, both backends', 5),
    ('removals', removals, 'any subset of the projections is removed', 3),
    ('backends', backends, 'both backends', 0),
]

if __name__ == '__main__':
    KEEP += [BackendLoader().load(ST), BackendLoader().load(MT)]
    sys.exit(pymc.main('C35', SCENARIOS,
        'Every history of messaging operations and every run of the enumerated networks, inputs and ways to run them is executed through the Python modules and compared with a model written in Python.',
        ['schedules of the threads of the multi-threaded backend are the subject of C10; here its results have to be the same in any schedule'], sys.argv[1:]))
