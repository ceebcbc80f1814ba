"""C36: an object that Python can reach stays usable, whatever else is dropped, in which order, and until the process ends."""
import gc, itertools, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from c35 import *
from c35 import Net, objects, pop_uid, uid, want_trains, trains, ST, MT
import pymc

E, I = OutputType.EXCITATORY, OutputType.INHIBITORY_CURRENT
NET = Net([2, 2], [(71, None, 0, [(1.0, 1, E, 0, 0), (1.0, 1, E, 1, 1)]), (72, 0, 1, [(1.0, 2, E, 0, 0), (1.0, 1, E, 1, 1)]), (73, 1, 0, [(1.0, 1, E, 0, 1)])])
CHANNEL = uid(81)

def drop_order(c, held, least):
    """Yields after each of the drops; every order of dropping is chosen, until `least` objects are left."""
    while len(held) > least:
        names = sorted(held)
        name = names[c.choose(len(names))]
        c.op('drop ' + name)
        del held[name]
        if name == 'backend' or len(held) == least:
            gc.collect()
        yield name

def backends(c, tier):
    """What one backend consists of; it is run as long as something reaches it, and endpoints work as long as they are there."""
    path = [ST, MT][c.choose(2)]
    held, fed = {}, {}
    held['loader'] = BackendLoader()
    held['backend'] = held['loader'].load(path)
    pops, projs = objects(NET)
    held['backend'].load_all_populations(pops)
    held['backend'].load_all_projections(projs)
    held['backend']._init()
    held['backend'].subscribe(SpikeMessage, uid(71), [CHANNEL])
    held['bus'] = held['backend'].message_bus
    held['sender'] = held['bus'].create_endpoint()
    held['listener'] = held['backend'].message_bus.create_endpoint()
    held['own endpoint'] = held['backend'].message_endpoint
    held['other backend'] = held['loader'].load(MT if path == ST else ST)
    del pops, projs
    held['listener'].subscribe(SpikeMessage, uid(82), [pop_uid(0), pop_uid(1)])
    c.op('a backend of ' + os.path.basename(path))
    now, routed = [0], [0]
    def use():
        s = now[0]
        if 'loader' in held:
            b = held['loader'].load(path)
            c.equal((b.get_step(), b.running), (0, False), 'a backend of the same loader')
            b._step()
            del b
        if 'sender' in held and s % 2 == 0:
            fed[s] = [0, 1] if s % 4 else [1]
            held['sender'].send_message(SpikeMessage((CHANNEL, s), fed[s]))
        if 'own endpoint' in held:
            held['own endpoint'].send_message(SpikeMessage((uid(83), s), [s]))
        if 'backend' in held:
            c.equal(held['backend'].get_step(), s, 'step')
            held['backend']._step()
            now[0] += 1
        elif 'bus' in held:
            held['bus'].route_messages()
        if 'listener' in held:
            held['listener'].receive_all_messages()
            got = trains(NET, held['listener'].unload_messages(SpikeMessage, uid(82)))
            if 'backend' in held:
                c.equal(got, [t for t in want_trains(NET, NET.run(fed, s + 1)[0]) if t[0] == s], 'spikes of step %d' % s)
            else:
                c.equal(got, [], 'spikes of a backend that is not run')
        if 'bus' in held:
            e = held['bus'].create_endpoint()
            f = held['bus'].create_endpoint()
            f.subscribe(SpikeMessage, uid(84), [uid(85)])
            e.send_message(SpikeMessage((uid(85), s), [7]))
            c.check(held['bus'].route_messages() >= 1, 'no message was routed')
            f.receive_all_messages()
            c.equal([(m.header.send_time, tuple(m.neuron_indexes)) for m in f.unload_messages(SpikeMessage, uid(84))], [(s, (7,))], 'a message of a new endpoint')
        if 'other backend' in held:
            held['other backend']._step()
    use()
    use()
    for name in drop_order(c, held, 1 if tier == 'quick' else 0):
        use()
        c.state((path, sorted(held), name))
    held.clear()
    gc.collect()

def executors(c, tier):
    """A model, its executor and what they give out."""
    path = [ST, MT][c.choose(2)]
    held, fed, seen = {}, {}, []
    n = Network()
    pops, projs = objects(NET)
    for p in pops:
        n.add_population(p)
    for p in projs:
        n.add_projection(p)
    held['model'] = Model(n)
    held['model'].add_input_channel(CHANNEL, uid(71))
    held['model'].add_output_channel(uid(91), pop_uid(0))
    held['model'].add_output_channel(uid(92), pop_uid(1))
    held['network'] = held['model'].network
    held['backend'] = BackendLoader().load(path)
    def gen(s, fed=fed):
        fed[s] = [[1], [], [0, 1]][s % 3]
        return fed[s]
    held['executor'] = ModelExecutor(held['model'], held['backend'], {CHANNEL: gen})
    held['executor'].add_spike_observer(lambda ms, seen=seen: seen.extend((m.header.send_time, str(m.header.sender_uid), tuple(m.neuron_indexes)) for m in ms),
                                        [pop_uid(0), pop_uid(1)])
    held['channel'] = held['executor'].get_output_channel(uid(91))
    held['same backend'] = held['executor'].get_backend()
    held['bus'] = held['executor'].get_backend().message_bus
    del n, pops, projs, p, gen
    c.op('an executor of ' + os.path.basename(path))
    now, read = [0], [0]
    def use():
        if 'executor' in held:
            end = now[0] + 2
            held['executor'].start(lambda s: s < end)
            now[0] = end
            c.equal(sorted(seen), want_trains(NET, NET.run(fed, now[0])[0]), 'spikes seen by the observer')
        if 'model' in held:
            c.equal(sorted((str(a), str(b)) for a, b in held['model'].output_channels), [(str(uid(91)), str(pop_uid(0))), (str(uid(92)), str(pop_uid(1)))], 'output channels')
            c.equal(held['model'].network.populations_count, 2, 'number of populations')
        if 'network' in held:
            c.equal(sorted(str(p.uid) for p in held['network'].populations_range()), [str(pop_uid(0)), str(pop_uid(1))], 'populations')
            c.equal(len(held['network'].get_projection(uid(72))), 2, 'size of a projection')
        for b in ('backend', 'same backend'):
            if b in held:
                c.equal(held[b].get_step(), now[0], 'step')
        if 'channel' in held:
            held['channel'].update()
            got = [(m.header.send_time, tuple(m.neuron_indexes)) for m in held['channel'].read_some_from_buffer(0, 1000)]
            want = [(s, tuple(out[0])) for s, out in enumerate(NET.run(fed, now[0])[0]) if out[0] and s >= read[0]]
            c.equal(got, want, 'messages of the output channel')
            read[0] = now[0]
        if 'bus' in held:
            e = held['bus'].create_endpoint()
            e.send_message(SpikeMessage((uid(85), 0), [7]))
            c.check(held['bus'].route_messages() >= 1, 'no message was routed')
    use()
    for name in drop_order(c, held, 1 if tier == 'quick' else 0):
        use()
        c.state((path, sorted(held), name))
    held.clear()
    gc.collect()

def parts(c, tier):
    """Objects that are parts of others."""
    held = {}
    n = Network(uid(5))
    pops, projs = objects(NET)
    for p in pops:
        n.add_population(p)
    for p in projs:
        n.add_projection(p)
    del pops, projs, p
    held['network'] = n
    held['populations'] = n.populations_range() if c.choose(2) else iter(n.populations_range())
    held['projections'] = iter(n.projections_range())
    held['population'] = n.get_population(pop_uid(1))
    held['neuron'] = held['population'][1]
    held['neurons'] = iter(held['population'])
    held['projection'] = n.get_projection(uid(72))
    held['synapse'] = held['projection'][1]
    del n
    c.op('a network and its parts')
    def use():
        if 'network' in held:
            c.equal((held['network'].populations_count, held['network'].projections_count, str(held['network'].get_uid())), (2, 3, str(uid(5))), 'network')
        if 'population' in held:
            c.equal((len(held['population']), held['population'][1].potential, str(held['population'].uid)), (2, 0.0, str(pop_uid(1))), 'population')
        if 'neuron' in held:
            c.equal((held['neuron'].potential, held['neuron'].activation_threshold), (0.0, 1.0), 'neuron')
        if 'projection' in held:
            c.equal((len(held['projection']), str(held['projection'].postsynaptic_uid) if hasattr(held['projection'], 'postsynaptic_uid') else ''),
                    (2, str(pop_uid(1)) if hasattr(held['projection'], 'postsynaptic_uid') else ''), 'projection')
        if 'synapse' in held:
            c.equal((held['synapse'][0].weight, held['synapse'][0].delay) + tuple(held['synapse'][1:]), (1.0, 1, 1, 1), 'synapse')
    def finish(name):
        """Iterators are used up at last: what they give has to be there."""
        x = held[name]
        if name == 'populations':
            c.equal(sorted(str(p.uid) for p in x), [str(pop_uid(0)), str(pop_uid(1))], 'populations of a range')
        elif name == 'projections':
            c.equal(sorted(len(p) for p in x), [1, 2, 2], 'projections of a range')
        elif name == 'neurons':
            c.equal([p.potential for p in x], [0.0, 0.0], 'neurons of an iterator')
    use()
    while held:
        names = sorted(held)
        name = names[c.choose(len(names))]
        c.op('drop ' + name)
        if name in ('populations', 'projections', 'neurons'):
            finish(name)
        del held[name]
        gc.collect(0)
        use()
        c.state((sorted(held), name))

def temporaries(c, tier):
    """Parts taken of objects that nothing else holds."""
    def bus():
        b = BackendLoader().load([ST, MT][k])
        return b.message_bus
    def endpoint_with(t):
        e = bus().create_endpoint()
        return e
    def impact_message():
        m = make_message(1, uid(9), 3)
        return m
    def vector_of_messages():
        b = BackendLoader().load([ST, MT][k])
        e = b.message_bus.create_endpoint()
        e.subscribe(SpikeMessage, uid(2), [uid(9)])
        e.send_message(make_message(0, uid(9), 4))
        e.send_message(make_message(0, uid(9), 6))
        b.message_bus.route_messages()
        e.receive_all_messages()
        return e.unload_messages(SpikeMessage, uid(2))
    def impacts_of_messages():
        b = BackendLoader().load([ST, MT][k])
        e = b.message_bus.create_endpoint()
        e.subscribe(SynapticImpactMessage, uid(2), [uid(9)])
        e.send_message(make_message(1, uid(9), 4))
        b.message_bus.route_messages()
        e.receive_all_messages()
        return e.unload_messages(SynapticImpactMessage, uid(2))
    def model():
        n = Network()
        for p in objects(NET)[0]:
            n.add_population(p)
        return Model(n)
    def executor():
        m = model()
        m.add_output_channel(uid(91), pop_uid(0))
        return ModelExecutor(m, BackendLoader().load([ST, MT][k]), {})
    k = c.choose(2)
    exprs = [
        ('header of a message', lambda: make_message(0, uid(9), 3).header, lambda x: (str(x.sender_uid), x.send_time), (str(uid(9)), 3)),
        ('sender of the header of a message', lambda: make_message(0, uid(9), 3).header.sender_uid, str, str(uid(9))),
        ('tag of the sender', lambda: make_message(0, uid(9), 3).header.sender_uid.tag, lambda x: str(UID(x)), str(uid(9))),
        ('spikes of a message', lambda: make_message(0, uid(9), 3).neuron_indexes, list, [3, 4]),
        ('impacts of a message', lambda: impact_message().impacts, lambda x: [i.impact_value for i in x], [1.5]),
        ('one impact', lambda: impact_message().impacts[0], lambda x: (x.connection_index, x.impact_value), (3, 1.5)),
        ('UID of a message', lambda: impact_message().postsynaptic_population_uid, str, str(uid(102))),
        ('messages of an endpoint', vector_of_messages, lambda x: [list(m.neuron_indexes) for m in x], [[4, 5], [6, 7]]),
        ('one message of an endpoint', lambda: vector_of_messages()[1], lambda m: (list(m.neuron_indexes), m.header.send_time), ([6, 7], 6)),
        ('the header of a message of an endpoint', lambda: vector_of_messages()[0].header, lambda h: (h.send_time, str(h.sender_uid)), (4, str(uid(9)))),
        ('iterator over the messages of an endpoint', lambda: iter(vector_of_messages()), lambda x: [m.header.send_time for m in x], [4, 6]),
        ('impacts of a message of an endpoint', lambda: impacts_of_messages()[0].impacts, lambda x: [i.impact_value for i in x], [2.0]),
        ('one impact of a message of an endpoint', lambda: impacts_of_messages()[0].impacts[0], lambda x: x.impact_value, 2.0),
        ('bus of a backend', bus, lambda x: x.route_messages(), 0),
        ('endpoint of a bus', lambda: bus().create_endpoint(), lambda x: (x.send_message(make_message(0, uid(9), 3)), x.receive_all_messages()), (None, 0)),
        ('endpoint of a backend', lambda: BackendLoader().load([ST, MT][k]).message_endpoint, lambda x: x.send_message(make_message(0, uid(9), 3)), None),
        ('UID of a backend', lambda: BackendLoader().load([ST, MT][k]).uid, bool, True),
        ('network of a model', lambda: model().network, lambda x: x.populations_count, 2),
        ('populations of the network of a model', lambda: model().network.populations_range(), lambda x: len([p.uid for p in x]), 2),
        ('a neuron of the network of a model', lambda: model().network.get_population(pop_uid(0))[1], lambda x: x.activation_threshold, 1.0),
        ('neurons of the network of a model', lambda: iter(model().network.get_population(pop_uid(0))), lambda x: [y.activation_threshold for y in x], [1.0, 1.0]),
        ('backend of an executor', lambda: executor().get_backend(), lambda x: (x._step(), x.get_step()), (None, 1)),
        ('bus of an executor', lambda: executor().get_backend().message_bus, lambda x: x.route_messages(), 0),
        ('channel of an executor', lambda: executor().get_output_channel(uid(91)), lambda x: (len(x.update()), len(x.read_some_from_buffer(0, 9)), str(x.get_uid())), (0, 0, str(uid(91)))),
        ('a synapse of a temporary projection', lambda: objects(NET)[1][1][1], lambda x: (x[0].weight, x[1], x[2]), (1.0, 1, 1)),
        ('the parameters of a synapse of a temporary projection', lambda: objects(NET)[1][1][0][0], lambda x: x.delay, 2),
    ]
    first = exprs[c.choose(len(exprs))]
    second = exprs[c.choose(len(exprs))]
    c.op('%s, then %s' % (first[0], second[0]))
    x = first[1]()
    gc.collect(0)
    y = second[1]()
    gc.collect(0)
    junk = [SpikeMessage((uid(99), 99), list(range(20))) for _ in range(4)]
    c.equal(second[2](y), second[3], second[0])
    c.equal(first[2](x), first[3], first[0])
    del x
    if 'iterator' not in second[0] and 'neurons of' not in second[0] and 'populations of' not in second[0] and 'backend of' not in second[0]:
        c.equal(second[2](y), second[3], second[0] + ' again')
    c.state((first[0], second[0], k))

EXIT = r'''
import sys, os
sys.path.insert(0, os.environ['KNP_PY'])
sys.path.insert(0, sys.argv[1])
import c35
def build(path):
    net = c35.Net([1], [(71, None, 0, [(1.0, 1, c35.OutputType.EXCITATORY, 0, 0)])])
    n = c35.Network()
    pops, projs = c35.objects(net)
    n.add_population(pops[0])
    n.add_projection(projs[0])
    loader = c35.BackendLoader()
    model = c35.Model(n)
    model.add_input_channel(c35.uid(81), c35.uid(71))
    model.add_output_channel(c35.uid(91), c35.pop_uid(0))
    network = model.network
    backend = loader.load(path)
    executor = c35.ModelExecutor(model, backend, {c35.uid(81): lambda s: [0]})
    seen = []
    executor.add_spike_observer(lambda ms: seen.extend(ms), [c35.pop_uid(0)])
    executor.start(lambda s: s < 4)
    assert [m.header.send_time for m in seen] == [1, 2, 3], seen
    channel = executor.get_output_channel(c35.uid(91))
    bus = backend.message_bus
    endpoint = bus.create_endpoint()
    return dict(loader=loader, backend=backend, bus=bus, endpoint=endpoint, model=model, network=network, executor=executor, channel=channel, messages=seen)
objs = build(sys.argv[2])
for name in sys.argv[4].split(','):
    if name:
        if sys.argv[3] == 'globals':
            globals()['held_' + name] = objs[name]
        elif sys.argv[3] == 'modules':
            import types
            m = sys.modules.setdefault('zz_' + name, types.ModuleType('zz_' + name))
            m.held = objs[name]
        else:
            class Cycle: pass
            x = Cycle()
            x.me, x.held = x, objs[name]
del objs
sys.stdout.write('done')
sys.stdout.flush()
'''

def exits(c, tier):
    """The process ends while some of the objects are still held, by globals, by modules or by unreachable cycles."""
    path = [ST, MT][c.choose(2)]
    names = ['loader', 'backend', 'bus', 'endpoint', 'model', 'network', 'executor', 'channel', 'messages']
    how = c.pick(['globals', 'modules', 'cycles'])
    if tier == 'quick':
        # Pairs in both orders, and everything.
        a, b = c.choose(len(names) + 1), c.choose(len(names))
        held = ([names[b]] if a == b else [names[a], names[b]]) if a < len(names) else names[b:] + names[:b]
    else:
        a, b, d = c.choose(len(names) + 1), c.choose(len(names)), c.choose(len(names))
        if a < len(names):
            held = [names[i] for i in dict.fromkeys((a, b, d))]
        else:
            held = names[b:] + names[:b]
            if d & 1:
                held.reverse()
    c.op('exit while %s of %s hold %s' % (how, os.path.basename(path), ', '.join(held)))
    r = subprocess.run([sys.executable, '-c', EXIT, os.path.dirname(os.path.abspath(__file__)), path, how, ','.join(held)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=50)
    c.equal((r.returncode, r.stdout), (0, b'done'), 'exit status and output (%s)' % r.stderr.decode()[-300:])
    c.state((path, how, held))

SCENARIOS = [
    ('backends', backends, 'every order of dropping a loader, a backend, its bus and endpoints and another backend', 4),
    ('executors', executors, 'every order of dropping a model, its network, an executor, its backend, channel and bus', 4),
    ('parts', parts, 'every order of dropping a network, its parts and iterators over them', 4),
    ('temporaries', temporaries, 'all pairs of 26 parts of objects nothing else holds', 2),
    ('exits', exits, 'the process ends while any pair (thorough: three) of 9 objects is held, or all', 3),
]

if __name__ == '__main__':
    sys.exit(pymc.main('C36', SCENARIOS,
        'Every order of dropping references is executed in a process of its own; after each drop everything that is left is used and compared with a model. Freed memory is overwritten (MALLOC_PERTURB_), a crash is a violation.',
        ['an element that refers into a population is not used after the population itself has been changed'], sys.argv[1:]))
