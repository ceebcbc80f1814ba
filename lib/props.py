# Source of properties.jsonl and MANIFEST.json (run lib/gen.py).
P = {}

def prop(id, title, statement, over, quant, why, files, mech, note, state=(), observe=(), technique=None, na=None):
    P[id] = dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                 note=note, state=state, observe=observe,
                 technique=technique or 'exhaustive bounded enumeration of executions of the real code against a reference model',
                 na=na)

CORE = 'knp/core-library/'
prop('C01', 'A message reaches every subscribed receiver exactly once and nobody else',
     'On either message bus, a message sent through an endpoint and routed is delivered, with its content and header unchanged, exactly once to every receiver (on any endpoint, including the sending one, and whether or not the endpoint object has been moved) that was subscribed to that message type and that sender from the send until the endpoint read its incoming messages. A receiver that is not subscribed to the sender and type when the endpoint reads its messages never gets it, and nobody gets a message that was not sent or not routed. Creating, moving or destroying other endpoints changes none of this, and neither do the number of messages waiting and their lengths.',
     ['histories'], 'all histories of send, route, receive one/all, unload, create, move and destroy over two to three endpoints, three senders, three receivers and both message types; up to 2600 messages waiting to be routed or received',
     'Tests send one or two messages in one order; loss and duplication depend on the interleaving of sends, routings, partial reads and endpoint lifetimes, i.e. on the history.',
     [CORE + 'impl/message_bus.cpp', CORE + 'impl/message_endpoint.cpp', CORE + 'impl/message_bus_cpu_impl/', CORE + 'impl/message_bus_zmq_impl/'],
     [('routing cycle', CORE + 'impl/message_bus.cpp: route_messages'), ('endpoint reception', CORE + 'impl/message_endpoint.cpp: receive_message, unload_messages')],
     'Every history within the bound is executed on both real bus implementations and each unloaded mailbox is compared with a reference model; single-threaded. Messages still unrouted when their endpoint dies are outside the claim.',
     observe=['MessageEndpoint::unload_messages'])
prop('C02', 'Messages of one sender are received in the order they were sent',
     'For every receiver, the messages of one sender that were sent through one endpoint are handed over in the order of sending, within one unload and across successive unloads, no matter how sends, routings and (partial) reads were interleaved and which of the two buses is used.',
     ['histories'], 'all interleavings of sends (two senders, two endpoints, two types), routings, partial and full reads and unloads',
     'The order only breaks when several routing cycles or partial reads fall between sends and unloads; tests use a single batch.',
     [CORE + 'impl/message_bus_cpu_impl/', CORE + 'impl/message_bus_zmq_impl/', CORE + 'impl/message_endpoint.cpp', CORE + 'include/knp/core/subscription.h'],
     [('queues between endpoint and bus', CORE + 'impl/message_bus_cpu_impl/message_bus_cpu_impl.cpp: update, step'), ('endpoint queue', CORE + 'impl/message_bus_cpu_impl/message_endpoint_cpu_impl.h: receive_message')],
     'Exhaustive within the stated depth on the real buses, single-threaded.')
prop('C03', 'Subscriptions can be added, extended and removed at any time',
     'Subscribing creates one subscription per message type and receiver, subscribing again only adds the new senders, unsubscribing reports whether there was such a subscription and removes exactly it, and removing a receiver removes its subscriptions for all message types and nothing else. Messages follow the subscriptions in force: none reaches a removed subscription, a removed and renewed subscription never gets a message twice, and the other receivers keep getting theirs. Senders can also be removed from and added to a subscription through the subscription object, with the number of changes reported correctly.',
     ['histories'], 'all histories of subscribe/unsubscribe/remove receiver/add and remove sender interleaved with sends, routings, reads and unloads',
     'Tests subscribe once and never unsubscribe with messages in flight; the failures need a particular order of subscription changes and message motion.',
     [CORE + 'impl/message_endpoint.cpp', CORE + 'include/knp/core/subscription.h', CORE + 'impl/message_bus_cpu_impl/message_bus_cpu_impl.cpp'],
     [('subscription map', CORE + 'impl/message_endpoint.cpp: subscribe, unsubscribe, remove_receiver')],
     'Exhaustive within the stated depth on both real buses, single-threaded; one listed known finding (sender added through the object on the CPU bus).')
prop('C07', 'A projection holds exactly its synapses and finds them by neuron',
     'After any history of adding, removing (by index, by predicate, by presynaptic or postsynaptic neuron), clearing, copying and searching, a projection contains exactly the synapses added and not removed, in the order of addition, with their parameters unchanged, and the counts returned are the numbers really added or removed. Searching by presynaptic or postsynaptic neuron returns exactly the current positions of the synapses of that neuron, at any moment of the history.',
     ['histories'], 'all sequences of projection operations up to depth 4-5, for every synapse type, from three kinds of initial projection',
     'The search index is rebuilt lazily, so a failure needs a search before and after particular modifications; tests do one modification at a time.',
     [CORE + 'include/knp/core/projection.h', CORE + 'impl/projection.cpp'],
     [('lazy index', CORE + 'impl/projection.cpp: reindex')],
     'Exhaustive within the bound for the three synapse types against a plain list.',
     state=[('synapses and lazily rebuilt index', 'synapse list, index and its validity flag', CORE + 'include/knp/core/projection.h')])
prop('C08', 'A population holds exactly its neurons in order',
     'After any history of adding neurons through generators (which may skip neurons), removing one neuron or a list of neurons given in any order, replacing parameters and copying, a population of any neuron type contains exactly the neurons added and not removed, in the order of addition, each with its latest parameters; all accessors agree and the UID never changes.',
     ['histories'], 'all sequences of population operations up to depth 3-5 for all five neuron types, all removal lists over four indexes up to length three',
     'Tests remove one ascending list once; wrong neurons are removed only for other orders, repeated indexes or combinations of operations.',
     [CORE + 'include/knp/core/population.h', CORE + 'impl/population.cpp'],
     [('removal with index shift', CORE + 'include/knp/core/population.h: remove_neurons')],
     'Exhaustive within the bound for the five neuron types against a plain list.')

FW = 'knp/base-framework/'
ST = 'knp/backends/cpu/cpu-single-threaded-backend/'
MT = 'knp/backends/cpu/cpu-multi-threaded-backend/'
LIB = 'knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/'
NT = 'knp/neuron-traits-library/include/knp/neuron-traits/'
SY = 'knp/synapse-traits-library/include/knp/synapse-traits/'

prop('C05', 'Binary messages survive packing, and equality means equal contents',
     'Packing a spike or synaptic impact message into the binary envelope of the bus and extracting it gives a message with the same header, the same elements in the same order and bit-identical values, for every value of every field, any number of elements and any sequence of messages. Two messages compare equal exactly when all their fields are equal.',
     ['inputs'], 'all messages over boundary values of every field, up to 3-5 elements, and long messages; all sequences of three messages; all pairs for equality',
     'Tests pack two hand-written messages; the field swapped, truncated or ignored shows only for other values.',
     [CORE + 'impl/messaging/', CORE + 'include/knp/core/messaging/'],
     [('packing', CORE + 'impl/messaging/message_envelope.cpp'), ('equality', CORE + 'impl/messaging/synaptic_impact_message.cpp: operator==')],
     'Exhaustive over a boundary value alphabet for each field; not over all 2^64 values.')
prop('C06', 'Messages written as text read back equal',
     'Writing spike or synaptic impact messages with operator<< and reading them with operator>> gives the same messages, whether they are read into new messages or ones used before, for every finite value and every number of elements including none.',
     ['inputs'], 'all messages over boundary values up to 3-5 elements, sequences of three messages read into the same object',
     'Tests read one message into a fresh object; precision and left-overs need particular values and reuse.',
     [CORE + 'impl/messaging/', CORE + 'include/knp/core/messaging/'],
     [('text format', CORE + 'impl/messaging/synaptic_impact_message.cpp: operator<<, operator>>'), ('text format', CORE + 'impl/messaging/spike_message.cpp: operator<<, operator>>')],
     'Exhaustive over the boundary value alphabet; NaN and infinities are not claimed.')
POOL = 'knp/backends/cpu/thread_pool/'
prop('C04', 'Threads can send, route and receive at the same time',
     'On the CPU message bus, endpoints used by different threads while other threads route messages and create or destroy other endpoints work without data races, deadlocks or crashes: every message sent and finally routed reaches each subscribed receiver exactly once, undamaged, and in the order in which its sender sent it. The bus may be destroyed before its endpoints. Identifiers generated by several threads at the same time are all different.',
     ['schedules'], 'all interleavings with at most 4-6 preemptions of up to two senders, two routers and a receiver, of a dialogue, of endpoint and bus destruction and of identifier generation',
     'A race shows only in particular interleavings of the locks of the bus and its endpoints; the tests are single-threaded.',
     [CORE + 'impl/message_bus_cpu_impl/', CORE + 'impl/message_bus.cpp', CORE + 'impl/message_endpoint.cpp', CORE + 'impl/uid.cpp'],
     [('locking between bus and endpoints', CORE + 'impl/message_bus_cpu_impl/message_bus_cpu_impl.cpp'), ('endpoint buffers', CORE + 'impl/message_bus_cpu_impl/message_endpoint_cpu_impl.h')],
     'The real bus runs under a controlled scheduler with a happens-before race detector; exhaustive up to the preemption bound. One thread at a time per endpoint, subscriptions made before the concurrent phase; the ZeroMQ bus is not covered.',
     technique='stateless model checking of the real code under a controlled scheduler (preemption bounded) with data race detection')
prop('C09', 'The thread pool runs each task exactly once and join waits for all',
     'Every task posted to the thread pool is executed exactly once by the time of the next return of join or of the destructor, posting does not wait for earlier tasks and idle threads take waiting tasks, and the pool can be used again after join any number of times. It neither deadlocks nor touches its own or the memory of the tasks without synchronisation: what a task wrote is visible after join.',
     ['schedules'], 'all interleavings with at most 2-3 preemptions and one spurious wakeup of one or two workers, up to three rounds of up to two or three tasks, independent, locking and waiting for each other',
     'Lost wakeups and early returns of join need particular interleavings of notification and waiting; the test of the pool runs one schedule per execution.',
     [POOL],
     [('task counting and waiting', POOL + 'include/knp/backends/thread_pool/thread_pool.h'), ('execution context', POOL + 'impl/thread_pool_context.cpp')],
     'The real pool on the real boost::asio runs under a controlled scheduler with a happens-before race detector; exhaustive up to the preemption bound. Tasks that throw are outside the claim.',
     technique='stateless model checking of the real code under a controlled scheduler (preemption bounded) with data race detection')
prop('C10', 'A multi-threaded step is free of races and independent of the schedule',
     'For every schedule of its threads a step of the multi-threaded backend finishes without deadlock and without a data race, whatever its part sizes are, and all messages sent and all states of neurons, synapses and projections after it are those of the sequential computation.',
     ['schedules'], 'all interleavings with at most 1-3 preemptions of two steps of recurrent, branching and learning networks with one or two workers and parts of one element',
     'Two tasks of a step collide only when both are preempted at the right instructions; the tests compare one run.',
     [MT + 'impl/backend.cpp', LIB + 'impl/', POOL],
     [('partition of a step into tasks', MT + 'impl/backend.cpp: calculate_populations, calculate_projections')],
     'The real backend with its real thread pool runs under a controlled scheduler with a happens-before race detector; exhaustive up to the preemption bound for small networks.',
     technique='stateless model checking of the real code under a controlled scheduler (preemption bounded) with data race detection')
prop('C11', 'The multi-threaded backend computes the same as the network defines',
     'For every history of inputs and every division of populations and projections into parts executed in any order, the multi-threaded backend sends in each step the same messages with the same contents (up to the order of their elements) and reaches the same states of neurons and synapses as the definition of the network that the single-threaded backend follows, including delays, recurrent connections, learning and locking.',
     ['histories', 'schedules'], 'all spike sequences of depth 3-5 into the projections and networks of C12 and C17, for four orders of task execution and four part sizes; every order of tasks for short histories',
     'Parts of different sizes split spikes, impacts and training differently and messages pile up over several steps; the tests run a two-neuron loop.',
     [MT, LIB + 'impl/'],
     [('partition of a step into tasks', MT + 'impl/backend.cpp: _step, calculate_populations, calculate_projections')],
     'The real backend runs on a pool stand-in that executes the tasks one after another in the enumerated orders; races between tasks are decided by C10. Spikes repeated within one step are outside the claim.')
prop('C12', 'A spike gives one impact per synapse, exactly its delay later',
     'On the single-threaded backend a spike received by a projection at step t causes, for each synapse leaving that neuron and for nothing else, exactly one impact with the weight, type and indexes of that synapse, sent so that it reaches the postsynaptic population after the delay of the synapse: the message is sent at step t + delay - 1 and the population uses it one step later. All impacts of one step come in one message naming the populations of the projection and forcing only for delta synapses. Populations and projections exchange messages with exactly those they are connected to, also in recurrent networks, and the step counter counts steps.',
     ['histories'], 'all spike sequences of depth 5-7 into projections of the three synapse types with delays up to 1000; all pairs of synapses; feed-forward, recurrent and parallel networks',
     'Overlapping deliveries of different delays, repeated spikes and recurrent loops need multi-step histories; the tests run one loop with one period.',
     [LIB + 'impl/projections/', LIB + 'projections.h', ST],
     [('delay queue', LIB + 'impl/projections/delta/delta_impl.h'), ('step order', ST + 'impl/backend.cpp: _step')],
     'Every message, neuron field and synapse field is compared with a reference network after each step. Delays are at least 1.',
     observe=['messages on the bus', 'population and projection iterators of the backend'])
prop('C13', 'Locked projections keep their weights; learning can be toggled any time',
     'While a projection is locked, a step of the single-threaded backend never changes the weights or resources of its synapses, whatever spikes, rewards or forcing occur; stop_learning locks all projections and start_learning unlocks all, at any moment and any number of times, and training then continues exactly from the state it has. Delta projections never change.',
     ['histories'], 'all sequences of steps (with all kinds of input), start_learning, stop_learning, lock and unlock of single projections up to depth 5-7',
     'Tests lock before a run; what happens when the lock changes inside a training period depends on the history.',
     [CORE + 'include/knp/core/projection.h', LIB + 'impl/populations/training/', ST],
     [('lock test in training', LIB + 'impl/populations/training/stdp.h'), ('start and stop of learning', CORE + 'impl/backend.cpp')],
     'Exhaustive within the bound on the single-threaded backend; one listed known finding (additive STDP ignores the lock).')
prop('C14', 'LIF neurons compute the documented dynamics',
     'For every combination of parameters, state and inputs a population of LIF neurons on the single-threaded backend computes in each step exactly the leaky integrate-and-fire update (leak, sum of excitatory and inhibitory impacts by their type, threshold, reset, refractory period, blocking) for each neuron independently, changes no other field, and sends one spike message listing exactly the neurons that fired, in index order, or none when nobody fired.',
     ['inputs', 'histories'], 'products of parameter and state grids times all sequences of input messages from an alphabet',
     'The tests check one neuron with one parameter set; branches interact (refractory, blocking, several impacts in one step).',
     [NT + 'lif.h', LIB + 'impl/populations/lif/', LIB + 'populations.h'],
     [('neuron update', LIB + 'impl/populations/lif/lif_impl.h')],
     'Executed on the real single-threaded backend against an independent reference; the formulas of the current code are taken as the specification where documentation is silent.')
prop('C15', 'BLIFAT neurons compute the documented dynamics',
     'On the single-threaded backend BLIFAT neurons follow their update for every combination of parameters, state and inputs: decays, dynamic and additional thresholds, reflexive weight, total and absolute refractory periods, bursting after a spike, blocking, inhibitory current and conductance, minimal potential and forced spikes are updated per neuron exactly as defined, and exactly the neurons that reach the threshold spike.',
     ['inputs', 'histories'], 'products of parameter and state grids times all sequences of input messages from an alphabet, and sequences of up to 7 steps for bursting and refractoriness',
     'The neuron has more than ten interacting parameters and state fields; tests use the default ones.',
     [NT + 'blifat.h', LIB + 'impl/populations/blifat/'],
     [('neuron update', LIB + 'impl/populations/blifat/blifat_impl.h')],
     'Executed on the real single-threaded backend against an independent reference.')
prop('C16', 'AltAI LIF neurons compute the documented dynamics',
     'On the single-threaded backend AltAI LIF neurons follow their update for every combination of parameters, state and inputs: leak and its reversal, saturation, the two thresholds, differential mode, reset, refractoriness, do-not-save flag and blocking are updated per neuron exactly as defined, and exactly the neurons that reach the threshold spike.',
     ['inputs', 'histories'], 'products of parameter and state grids times all sequences of input messages from an alphabet',
     'The flags of the neuron switch branches of the update; tests exercise few combinations.',
     [NT + 'altai_lif.h', LIB + 'impl/populations/altai/'],
     [('neuron update', LIB + 'impl/populations/altai/altai_impl.h')],
     'Executed on the real single-threaded backend against an independent reference (the implemented update where the documentation differs).')
prop('C17', 'Resource STDP training follows its rule for every history',
     'On the single-threaded backend, for populations of resource-STDP BLIFAT and AltAI neurons, any history of presynaptic spikes, forced and own spikes, rewards and punishments changes synaptic resources, weights, free resource, stability, inter-spike-interval state and dopamine periods exactly as the rule defines, for the synapses of each neuron in all unlocked resource projections of that population and for no other synapse; weights always follow from the resources.',
     ['histories'], 'all sequences of 20 input combinations up to depth 3-6 over 24 neuron and 48 synapse configurations in two variants',
     'The rule keeps state over many steps (periods, ISI status, contributed flags); a failure needs a particular sequence of spikes and rewards.',
     [LIB + 'impl/populations/training/stdp.h', LIB + 'impl/populations/blifat/blifat_stdp.h', LIB + 'impl/populations/altai/altai_stdp.h', SY, NT + 'stdp_synaptic_resource_rule.h'],
     [('ISI state', LIB + 'impl/populations/training/stdp.h'), ('training', LIB + 'impl/populations/blifat/blifat_stdp.h')],
     'Exhaustive within the bound against an independent reference with a tolerance of 1e-5 for single-precision values.')
prop('C18', 'Additive STDP records spikes and changes weights as its rule says',
     'On the single-threaded backend an additive STDP projection records the spikes of the populations it was told to, with their times, at the synapses of the neurons that fired (presynaptic and postsynaptic ones apart), propagates the spikes of STDPAndSpike populations and only records those of STDPOnly ones, and once a synapse has collected its window of both kinds changes its weight by the sum of the exponential terms over all pairs and forgets them.',
     ['histories'], 'all spike histories of two populations up to depth 5-6 for six ways of recording and eight synapses with different time constants',
     'Windows fill differently for each spike history; the test repeats one pattern.',
     [LIB + 'impl/projections/training/stdp/additive_stdp.h', SY],
     [('recording and window', LIB + 'impl/projections/training/stdp/additive_stdp.h')],
     'Exhaustive within the bound on the single-threaded backend.')
prop('C19', 'A network and a model hold exactly what was put in, once each',
     'After any history of adding populations and projections (as objects, as variants, with generators), removing, connecting and changing them, copying and moving, a network contains exactly the entities added and not removed, in order; adding an entity with a UID already present is refused and leaves everything as it was, asking for a missing one throws, copies are independent, and the counts, lookups and iterators agree. A model keeps the channel UIDs it was given with their senders and receivers.',
     ['histories'], 'all sequences of operations up to depth 3-4 with duplicates and missing UIDs',
     'Tests add one of each kind; failures need duplicates, removals and copies in particular orders.',
     [FW + 'impl/network.cpp', FW + 'include/knp/framework/network.h', FW + 'impl/model.cpp', FW + 'include/knp/framework/model.h'],
     [('containers', FW + 'impl/network.cpp')], 'Exhaustive within the bound against plain lists.')
prop('C26', 'Creators make exactly the connections and neurons they document',
     'Each projection creator makes exactly the set of connections that defines it (all-to-all, one-to-one, index based, aligned, from container, fixed probability, fixed number of post- or presynaptic connections, cloned) for any pair of population sizes, never outside the populations, with the given synapse parameters, and names the given populations; each population creator makes exactly the requested number of neurons with the requested parameters.',
     ['inputs'], 'all creators with all pairs of sizes up to 9-24, own and default parameters, and all seeds of an enumerated random source',
     'Tests try one pair of sizes per creator; unequal and degenerate sizes break connection arithmetic.',
     [FW + 'include/knp/framework/projection/', FW + 'include/knp/framework/population/'],
     [('generators', FW + 'include/knp/framework/projection/synapse_generators.h')],
     'Exhaustive within the bound; randomness is replaced by an enumerated seed.')
prop('C28', 'UIDs, tags, names and coordinates identify things consistently',
     'UIDs compare, order, hash, print and convert consistently with their bytes; the sequential generator never repeats and can be restarted anywhere; tag maps return what was stored under a name with its type and report missing or wrongly typed ones; names are tags; Cartesian and polar coordinates keep and convert their values.',
     ['inputs', 'histories'], 'all pairs and triples of 67 boundary UIDs, all short tag and name histories, restarts around each byte boundary of the generator',
     'Carries, orderings and type mismatches appear for particular values only.',
     [CORE + 'include/knp/core/uid.h', CORE + 'include/knp/core/tag.h', FW + 'include/knp/framework/tags/', FW + 'include/knp/framework/coordinates/'],
     [('UID', CORE + 'include/knp/core/uid.h'), ('tags', CORE + 'include/knp/core/tag.h')],
     'Exhaustive over boundary values; uniqueness of random UIDs rests on boost.')
prop('C30', 'Normalisation rescales every selected value exactly once',
     'Rescaling maps one interval onto the other affinely for all interval ends, and the synapse and neuron normalisers apply the given correction exactly once to the selected parameter of every synapse or neuron of the selected kind in the network, in place or in a copy (leaving the original untouched), and to nothing else.',
     ['inputs'], 'interval ends from grids, all networks of up to three populations and projections of different types with up to three elements',
     'Tests normalise one projection; double application or missed elements need several entities of mixed types.',
     [FW + 'include/knp/framework/normalization/'],
     [('normalisers', FW + 'include/knp/framework/normalization/synapse_normalizer.h')], 'Exhaustive within the bound.')
prop('C23', 'A backend runs step by step exactly as its predicates say',
     'However a run is started (with a predicate before the steps, after them, both or none) and however predicates and steps behave (going on, ending the run, stopping the backend, throwing), a backend is initialised once before its first run, makes exactly the steps the predicates allow with each predicate called once per step in order and with consecutive step numbers that continue across runs, is running during the run and not after it. Selecting devices makes exactly the named devices current or is refused and changes nothing, and a device keeps its UID when it is listed again.',
     ['histories'], 'all sequences of up to 5 runs, stops, single steps and un-initialisations with every behaviour of each predicate call and step; all device subsets and repeated selections',
     'Tests run for a fixed number of steps with one predicate; the state left behind shows only after an aborted, stopped or throwing run followed by another one.',
     [CORE + 'include/knp/core/backend.h', CORE + 'impl/backend.cpp', ST + 'impl/backend.cpp', MT + 'impl/backend.cpp', 'knp/backends/cpu/cpu-devices/'],
     [('run loop', CORE + 'impl/backend.cpp: start, stop, running'), ('device selection', CORE + 'impl/backend.cpp: select_devices')],
     'Exhaustive within the bound on the base class with enumerated predicates and on both CPU backends.',
     state=[('run state', 'initialised and started flags, step counter', CORE + 'include/knp/core/backend.h')])
prop('C24', 'What is loaded into a backend can be read back and removed',
     'A CPU backend accepts exactly the populations and projections whose types it lists as supported, and holds them as loaded (loading again replaces them); a network read back from it has the same entities, in order, with the current state of every neuron and synapse, and is independent of the backend. Removing populations or projections at any moment of a run removes exactly the existing ones named, and the rest goes on as a network without them.',
     ['histories', 'inputs'], 'all networks of up to 2 populations of 5 types and 2 projections of 3 types; all histories of steps, inputs, removals and copies up to depth 5-6',
     'Tests load one network and never remove anything or read a plastic network back in the middle of a run.',
     [ST + 'impl/backend.cpp', MT + 'impl/backend.cpp', FW + 'impl/synchronization.cpp', 'knp/meta-library/include/knp/meta/stringify.h'],
     [('containers', ST + 'impl/backend.cpp: load_all_populations, remove_populations'), ('reading back', FW + 'impl/synchronization.cpp')],
     'Exhaustive within the bound on both CPU backends; the multi-threaded one with a serial pool.')
IO = FW + 'include/knp/framework/io/'
prop('C20', 'Loading a model connects exactly its channels',
     'After a model is loaded there is exactly one input channel for each input channel UID and one output channel for each output channel UID of the model; an input channel sends what its own generator makes to exactly its projections, an output channel collects the spikes of exactly its populations. The whole network is loaded into the backend once and unchanged, connected projections and populations are tagged, a channel can be looked up by its UID and no other, and a model with an input channel without a generator is refused.',
     ['inputs'], 'all sequences of up to 4-5 links between 5-9 channels and 3 projections or populations, including repeated links and UIDs that collide in hash tables',
     'Tests load one input and one output channel; channels are mixed up only for several UIDs with particular hashes.',
     [FW + 'impl/model_loader.cpp', FW + 'include/knp/framework/model_loader.h', FW + 'impl/model.cpp'],
     [('channel creation', FW + 'impl/model_loader.cpp: init_channels')], 'Exhaustive within the bound on both buses with a recording backend.')
prop('C21', 'Channels send and collect spikes without loss or repetition',
     'An input channel asks its generator exactly once per send and sends a message with its own UID, the step and the spikes to exactly the connected receivers, or nothing when there are no spikes, and reports which. An output channel buffers every message of its populations once; reading an interval of steps returns exactly the buffered messages of that interval, in order, and removes only them, for any interval, also through a converter; moved channels go on working.',
     ['histories'], 'all sequences of spikes, steps, updates, reads of 3-9 kinds of intervals, conversions and moves up to depth 4-6',
     'Tests read one interval once; boundaries, empty and huge intervals and repeated reads need histories.',
     [FW + 'impl/output_channel.cpp', IO + 'output_channel.h', IO + 'input_channel.h'],
     [('buffer', FW + 'impl/output_channel.cpp: read_some_from_buffer')], 'Exhaustive within the bound on both buses; messages are sent in the order of their steps.')
prop('C22', 'A model executor makes each step once, with its inputs, handlers, observers',
     'However a model is executed (in runs of any lengths, ended by the predicate, by an exception or by stopping), the executor asks every input channel exactly once for each step that is made and for no other, and populations, projections, output channels, message handlers and observers see exactly the spikes and impacts of that step, each once and as if the run had not been split. What a handler returns reaches its receivers in the next step; WTA handlers limit winners in each group.',
     ['histories'], 'all sequences of 2-4 runs of 0 to 2-4 steps ended in four ways with all inputs from 2-4 kinds',
     'Tests make one run with one predicate; lost or repeated inputs show only when runs are split or inputs change.',
     [FW + 'impl/model_executor.cpp', FW + 'include/knp/framework/model_executor.h', FW + 'include/knp/framework/monitoring/observer.h', FW + 'impl/projection/wta.cpp'],
     [('run loop', FW + 'impl/model_executor.cpp: start'), ('handlers', FW + 'impl/model_executor.cpp: SpikeMessageHandler')],
     'Exhaustive within the bound on both CPU backends (the multi-threaded one with a serial pool) against a reference network.')
prop('C25', 'Winner-take-all handlers pass exactly the allowed spikes',
     'For every message and any seed, the k-winners handler passes min(k, number) of the spikes of the first message, the per-group handler min(k, number) of each group, the group handler all spikes of at most k groups such that no group with more spikes loses, and the union handler every neuron that spiked in any message once; none passes a spike that did not occur. The same seed gives the same choice, and every possible choice occurs for some seed.',
     ['inputs'], 'all sets of spikes of 4-5 neurons, all groups with up to 3 borders in any order, all numbers of winners, several seeds, consecutive messages',
     'Tests check one message with one seed; borders, ties and degenerate numbers of winners are never combined.',
     [FW + 'impl/message_handlers.cpp', FW + 'include/knp/framework/message_handlers.h'],
     [('selection', FW + 'impl/message_handlers.cpp: select_random_n')], 'Exhaustive within the bound; seeds are enumerated.')
prop('C27', 'Converters lose and invent nothing',
     'The sequence converter makes of each call the positions, among the next values of the stream, of those interpreted as spikes, for any size and also when the stream ends or cannot be read; the index converter makes of each call the numbers of the next line. The bitwise, count and set converters give, for any list of messages and any output size, exactly which neurons below the size spiked and how often.',
     ['inputs'], 'all streams of up to 4-6 values or 2-3 lines with calls beyond their end, all lists of up to 2-3 messages with boundary indexes',
     'Tests read one complete stream; exhausted streams and indexes at the size boundary are not tried.',
     [IO + 'in_converters/', IO + 'out_converters/', IO + 'input_interpreters.h', FW + 'impl/input_converter.cpp'],
     [('stream reading', IO + 'in_converters/sequence_converter.h')], 'Exhaustive within the bound; lines are well formed.')
prop('C31', 'Loggers write what happened, once',
     'During any run the spikes logger writes every message of the named senders once with its step, sender and spikes; the aggregated logger writes at each multiple of its period one row, with the columns of its header, in which every spike counted since the last row is added to the column of its sender once; the status logger writes at each multiple of its period the number of spike messages since it wrote last; the weights logger writes at each multiple of its period the resource and the last spike step of every synapse of the projection, ordered by neurons.',
     ['histories'], 'all inputs of 3-7 steps for periods 1 to 3, all sets of senders with equal and different names',
     'Tests use period 1 and one sender; sums over periods and shared names depend on the history.',
     [FW + 'impl/monitoring/model.cpp', FW + 'include/knp/framework/monitoring/model.h'],
     [('aggregation', FW + 'impl/monitoring/model.cpp: make_aggregated_spikes_observer_function')], 'Exhaustive within the bound on the single-threaded backend.')
prop('C32', 'Network validation reports exactly the problems there are',
     'The connectivity validator reports an error for exactly the populations without projections and the projections without populations, for any network. A validation executor calls each added validator once for every population, projection or network of its kind in every run and returns each of its reports unchanged with its UID and name.',
     ['inputs', 'histories'], 'all networks of up to 3 populations and 3-4 projections with every choice of ends; all sequences of additions and runs up to depth 5-6',
     'Tests validate a few networks once; one wrong flag shows only for particular connections.',
     [FW + 'impl/network_validation/', FW + 'include/knp/framework/network_validation/'],
     [('connectivity', FW + 'impl/network_validation/validators/connectivity.cpp')], 'Exhaustive within the bound; projections name populations of the network.')
prop('C33', 'Classification results count each frame once for its class',
     'For any spikes of an inference, each frame is counted exactly once, for the class of its label: as true positive when its class has the most votes (the lowest class among equals), as false positive when another class has, as false negative when nothing voted, and as true negative for all other classes; votes come from all spikes in the steps of the frame, modulo the number of classes. Precision, recall, prevalence, accuracy and F-score follow their definitions for all counts, and the table contains these values (one known finding: the recall column).',
     ['histories', 'inputs'], 'all histories of up to 3-4 frames with 6 ways to vote for 1 to 3 classes, 1-2 steps per frame, whole or split messages; all counts from boundary values',
     'The test evaluates one history of four frames of one step.',
     [FW + 'impl/inference_evaluation/', FW + 'include/knp/framework/inference_evaluation/'],
     [('votes', FW + 'impl/inference_evaluation/classification/processor.cpp: process_spikes')], 'Exhaustive within the bound.')
prop('C34', 'A data set gives every image and label at its steps',
     'Reading images and labels from streams makes one frame for each complete image with its label, in order and up to the limit, however the streams end. After a split (refused exactly when there are too few frames) the training and inference parts are disjoint consecutive frames, and the generators give for any step, in any order, the spikes and label of the frame and moment that step belongs to, looping over their part; the incrementing converter carries the state of each pixel on from image to image.',
     ['inputs'], 'up to 4-5 images of 1-2 bytes and 1-2 steps, streams ending in 5 ways, all limits, all splits, all steps of several rounds',
     'The test uses three one-byte images with complete streams and one round.',
     [FW + 'impl/data_processing/', FW + 'include/knp/framework/data_processing/'],
     [('reading', FW + 'impl/data_processing/classification/image.cpp: process_labels_and_images')], 'Exhaustive within the bound.')

PY = 'knp/python-framework/impl/'
prop('C29', 'Python objects hold exactly what was put into them',
     'For any sequence of operations, the objects of the Python modules (UIDs, neuron and synapse parameters, populations, projections, networks, models, headers and messages) read back exactly the values, elements and UIDs put into them, in order: each property is the field it names and setting one changes no other; generators are asked once for every index in order and their None results are skipped; counts and iterations agree; an index, UID or object of the wrong kind raises an exception and changes nothing. The modules can be imported in any order.',
     ['inputs', 'histories'], 'all fields of all parameter classes, all sequences of 2-4 operations on populations, projections, networks and models of up to 3 elements, all generator masks, all import orders',
     'The Python tests make one object of a kind; a wrong member, a wrong index or a missing converter shows only for that field, type or order of operations.',
     [PY + 'core/', PY + 'neuron_traits/', PY + 'synapse_traits/', PY + 'base_framework/'],
     [('bindings of populations', PY + 'core/cpp/population.h'), ('bindings of projections', PY + 'core/cpp/projection.h'), ('bindings of networks', PY + 'base_framework/cpp/network_utility.h')],
     'Exhaustive within the bound on modules built from the sources with Python 3.12 and the installed Boost.Python; storage of networks is not built (its libraries are missing).',
     technique='exhaustive bounded enumeration of operation sequences on the real Python modules against a Python model')
prop('C35', 'Messaging, backends and executors do in Python what they do in C++',
     'For any history of operations through the Python modules: endpoints deliver every message of either type, unchanged, to exactly the receivers subscribed to its sender; a backend loaded with a network and run step by step, by start with one or two predicates, until stop or an exception, or by a model executor with input generators, emits exactly the spikes and impacts of the reference network, calls predicates and generators once per step with the step number, and passes exceptions of callbacks on; observers, output channels, removals by lists of UIDs and is_backend give exactly what was asked for.',
     ['histories', 'inputs'], 'all messaging histories of depth 3-5 on two endpoints, all inputs of 3-5 steps to networks of two populations on both backends, all pairs of runs of five kinds',
     'The Python tests run one network once; conversions of messages, UIDs and callbacks matter for particular types, empty lists, repeated runs and failing callbacks.',
     [PY + 'core/cpp/backend_wrapper.h', PY + 'core/cpp/message_endpoint.cpp', PY + 'core/cpp/message_bus.cpp', PY + 'base_framework/cpp/'],
     [('callbacks', PY + 'base_framework/cpp/model_executor_utility.h: BinaryFunction'), ('backend bindings', PY + 'core/cpp/backend_wrapper.h'), ('endpoint bindings', PY + 'core/cpp/message_endpoint.cpp')],
     'Exhaustive within the bound; the threads of the multi-threaded backend run freely (their schedules are C10 and C11).',
     technique='exhaustive bounded enumeration of operation sequences on the real Python modules against a Python model')
prop('C36', 'What Python can reach stays usable, whatever else is dropped',
     'A backend, bus, endpoint, executor, output channel, model, network, population, projection, iterator, neuron, synapse, message or part of a message that Python still refers to works as before, after the loader, backend, executor or container it came from has been dropped, in any order, also when the garbage collector finds them in a cycle or the process ends: no crash, no use of freed memory, no unloaded code, no changed result.',
     ['histories'], 'all orders of dropping 7-8 related objects with uses of all the others after each drop, all pairs of 26 parts of temporaries, process exits with any two or three of nine objects held in three ways',
     'Tests keep everything in local variables to the end; whether a dropped owner breaks a part depends on the order of drops and collections.',
     [PY + 'core/cpp/message_bus.cpp', PY + 'core/cpp/core.cpp', PY + 'base_framework/cpp/model.cpp', PY + 'base_framework/cpp/model_executor.cpp', FW + 'impl/backend_loader.cpp'],
     [('lifetime of libraries', FW + 'impl/backend_loader.cpp: load'), ('lifetime of endpoints', PY + 'core/cpp/message_bus.cpp: create_endpoint')],
     'Exhaustive within the bound; freed memory is overwritten, crashes are caught by running in child processes.',
     technique='exhaustive bounded enumeration of orders of dropping references on the real Python modules')
prop('C38', 'A saved network is loaded back as it was',
     'A network saved in the SONATA format and loaded again has the same UID, the same populations (UID, type, number of neurons, every parameter and state variable of each) and the same projections (UID, type, connected populations, lock, synapses in their order with both ends and every parameter of each), for all neuron types and for delta and synaptic-resource synapses, also when it has no or empty populations or projections, when it is saved over another network, and when what was loaded is saved again. The configuration files are valid JSON that lists exactly the populations and projections of the network; the tables of types list each type of the network once.',
     ['inputs', 'histories'], 'all types of neurons and synapses, every parameter alone and all together with default, small, least, greatest and fractional values, all networks of up to 2 populations and 1-2 projections, and pairs of networks saved over each other',
     'The repository tests save a network of one neuron with default values and compare only numbers of elements; a parameter that is not saved, not loaded or mixed up with another shows only with values of its own.',
     [FW + 'impl/sonata/', FW + 'include/knp/framework/sonata/network_io.h'],
     [('saving', FW + 'impl/sonata/save_network.cpp'), ('loading', FW + 'impl/sonata/load_network.cpp'), ('parameters of each type', FW + 'impl/sonata/types/'), ('tables of types', FW + 'impl/sonata/types/type_id_defines.h')],
     'Exhaustive within the bound. HighFive (HDF5) and csv2, which the sandbox lacks, are replaced by stand-ins that keep the data sets in memory. Order of populations and projections, tags, and additive STDP synapses (declared unimplemented) are outside the claim.')
prop('C39', 'Saved spike messages are loaded back, files of another format are refused',
     'Spike messages saved to a JSON or HDF5 file and loaded again are one message for each step that had spikes, in the order of steps, with the given sender, exactly these steps and exactly the indexes that were sent at that step (those of one message in their order), for every time per step, every step below 2^40 and every index; saving does not change the messages. A strict load refuses a file without the right format number; a file without spikes, node numbers or timestamps, with different numbers of them or with values of other types is refused by an exception or read, and never crashes; descriptions and the version are not binding.',
     ['inputs'], 'all lists of up to 2-3 messages over 5 steps and 4 lists of indexes; all steps below 32768 (2 million) for 7 times per step; all combinations of parts of HDF5 files; every value of a JSON file replaced by 18 others, left out or doubled, and every prefix of it',
     'The repository tests use one random recording of 200 steps with time per step 1, for which all roundings are exact, and one altered format number.',
     [FW + 'impl/storage/native/', FW + 'include/knp/framework/io/storage/native/'],
     [('steps from timestamps', FW + 'impl/storage/native/data_storage_common.cpp'), ('JSON', FW + 'impl/storage/native/data_storage_json.cpp'), ('HDF5', FW + 'impl/storage/native/data_storage_hdf5.cpp')],
     'Exhaustive within the bound. rapidjson is the installed one, with its assertions on; HighFive is replaced by a stand-in that keeps data sets in memory.')
prop('C37', 'The visualizer shows the network as it is',
     'The graph of a network has a node for every population and an edge for every projection, in the order of the network, with their sizes, UIDs, names (the name tag or, without a usable one, the beginning of the UID), types and the positions of the populations they connect (-1 for one that is not in the network). It is divided into exactly the weakly connected groups of populations; the printed description names each population once, in its group, with exactly its sources and targets. A layout has one point for each node of a subset, in its order, within the screen and its margins, and depends on nothing but the projections within the subset; a drawing shows each node of it with its own name inside of the image and exactly the arrows, loops and inputs of the projections between these nodes. This holds for every network, also with projections whose ends are not in it.',
     ['inputs'], 'all networks of up to 3-4 populations and 2-5 projections with ends inside and outside of the network, all subsets in two orders, several screen sizes, margins and numbers of iterations',
     'The test divides and prints one network; missing ends, proper subsets and other orders are needed to see wrong indexes.',
     [FW + 'impl/visualizer/', FW + 'include/knp/framework/visualizer/'],
     [('graph and parts', FW + 'impl/visualizer/visualize_network.cpp: divide_graph_by_connectivity'), ('drawing', FW + 'impl/visualizer/visualize_network.cpp: draw_annotated_subgraph'), ('layout', FW + 'impl/visualizer/graph_physics.cpp')],
     'Exhaustive within the bound; drawing and window functions of OpenCV are replaced by recording ones.')
