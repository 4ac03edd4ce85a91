NOTES = 'One driver dumps the typed program (monomorphic MIR) of /repo\'s current source; every check is a query or dataflow over that dump. See DESIGN.md.'
PROPS = []
NOT_APPLICABLE = []


def P(**k):
    PROPS.append(k)


def NA(**k):
    NOT_APPLICABLE.append(k)


P(id='R01', title='Audio callback never blocks',
  statement='Rendering a block of audio never waits: nothing reachable from the audio callback acquires a lock, sleeps, joins or parks, '
            'performs a blocking channel operation (a receive that waits, or a send that waits for room), does input or output, or spins '
            'until another thread acts. This covers every node type, every command and every event the callback can handle.',
  over=['schedules', 'inputs', 'histories'],
  quant='every thread schedule, every history of commands and events, every graph of every node type, every host block',
  why='Whether a blocking call waits depends on what other threads hold or have filled at that instant; tests run the processor '
      'alone with near-empty queues, so a blocking primitive returns at once.',
  files=['src/realtime/processor.rs', 'src/realtime/dsp_graph.rs', 'src/realtime/garbage_collector.rs', 'src/effects', 'src/graph/dsp.rs'],
  mech=[('non-blocking channel operations throughout the audio path', 'src/realtime, src/effects'),
        ('objects handed to a collector thread instead of destroyed', 'src/realtime/garbage_collector.rs')],
  observe=['AudioProcess::process'], technique='interprocedural effect analysis over the monomorphic MIR call graph',
  note='Every call site reachable from the audio callback in the dumped program is classified (virtual calls resolved through all vtables). '
       'Trusts the classification of crossbeam and std entry points and ignores panicking paths.')
P(id='R02', title='Audio callback neither allocates nor frees memory',
  statement='Rendering a block of audio neither allocates heap memory nor releases it, whatever commands and events arrive: removed nodes, '
            'cancelled changes and replaced objects are handed to a collector running on another thread. The only growth allowed is of '
            'containers that reserved their capacity when they were constructed.',
  over=['inputs', 'histories'], quant='every history of commands, events and parameter changes over every graph of every node type',
  why='Allocation leaves no trace in the output, and tests sample a handful of short histories without watching the allocator.',
  files=['src/realtime', 'src/effects', 'src/graph', 'src/parameter', 'src/buffer/buffer_pool.rs'],
  mech=[('pre-reserved containers', 'src/realtime/dsp_graph.rs, src/effects'), ('garbage channel', 'src/realtime/garbage_collector.rs')],
  observe=['AudioProcess::process'], technique='interprocedural effect analysis over the monomorphic MIR call graph (allocation, release and drop-glue effects; growth traced to constructors)',
  note='Every call and drop reachable from the callback is classified by the type it destroys or the allocator entry it reaches. Assumes the '
       'documented capacities are not exceeded; the block list inside crossbeam\'s unbounded channel is outside the property.')
P(id='R03', title='Control calls never wait for the audio thread',
  statement='No public control call (building or destroying nodes, connecting, scheduling parameter changes, sending events, starting, '
            'stopping, reading the time or results) waits for the audio thread to run: none of them locks, sleeps, or performs a channel '
            'operation that can wait for room or for a message, so an application keeps working while the audio callback is stopped.',
  over=['schedules', 'histories'], quant='every public function, every schedule in which the audio thread is stopped or slow, every number of calls made meanwhile',
  why='A bounded queue only blocks after its capacity is used up while nobody renders; tests render promptly and send few events.',
  files=['src/engine', 'src/graph', 'src/effects', 'src/parameter'],
  mech=[('unbounded command channel', 'src/engine/engine.rs'), ('event channels', 'src/effects')],
  observe=['public API'], technique='interprocedural effect analysis over the monomorphic MIR call graph, bounded channels traced to their constructors',
  note='Reachability from every externally reachable function not itself run by the callback. One known finding: the sampler\'s '
       'event sender waits once its documented queue is full.')
P(id='R04', title='A stopped engine is silent and its clock stands still',
  statement='The engine is created stopped; only the start command starts it and only the stop command stops it. In every callback made while it is '
            'stopped no node is rendered, the position and the published time do not move, and the output handed to the host is silence. While it '
            'runs, the output is cleared before anything is rendered into it.',
  over=['histories', 'inputs'],
  quant='every sequence of commands and callbacks, every host buffer',
  why='Tests look at one start; whether some later sequence of start, stop and other commands lets audio through or moves the clock depends on the history.',
  files=['src/realtime/processor.rs', 'src/engine/root.rs'],
  state=[('Processor::started', 'running or not', 'src/realtime/processor.rs'), ('Processor::frame_position', 'frames rendered so far', 'src/realtime/processor.rs'), ('Processor::current_time', 'published time', 'src/realtime/processor.rs')],
  mech=[('started flag gates rendering', 'src/realtime/processor.rs')], observe=['AudioProcess::process', 'Context::start', 'Context::stop'],
  technique='gated value analysis of the audio callback over MIR: the state the start/stop commands set and clear must gate every render, clock and output event',
  note='Abstract interpretation with symbolic state of Processor::process with everything it calls inlined; obligations are per command and per event.')
P(id='R05', title='The published time is the frames rendered divided by the sample rate',
  statement='The time a control thread reads is always the number of frames rendered by completed callbacks divided by the sample rate the context '
            'reports: it starts at zero, is published once per callback after the whole block has been rendered, with release ordering, by the audio '
            'callback alone, and every read is one acquire load of that cell returned unchanged. The position advances by exactly the frames of the block.',
  over=['schedules', 'histories'],
  quant='every interleaving of readers with the callback, every block length and every sequence of callbacks',
  why='A read in the middle of a callback, or after an unusual sequence of block lengths, sees an intermediate or drifting value only under particular timing.',
  files=['src/realtime/processor.rs', 'src/engine/root.rs', 'src/timestamp.rs'],
  state=[('Processor::frame_position', 'frames rendered so far', 'src/realtime/processor.rs'), ('Processor::current_time', 'published time', 'src/realtime/processor.rs')],
  mech=[('atomic clock cell', 'src/realtime/processor.rs')], observe=['Context::current_time'],
  technique='gated value analysis over MIR, atomic-ordering and single-writer query over all call sites',
  note='The stored term is compared with the position carried to the next block; writers are searched in the whole crate.')
P(id='R06', title='A block of any length is rendered whole, in contiguous exact sub-blocks',
  statement='Whatever length of block the host asks for, it is rendered in consecutive sub-blocks no longer than the maximum frame count, without gap '
            'or overlap, until the output is full; each sub-block reads the input at the offset its output is written at, gives every node exactly its '
            'frames, and its start time is the block time plus its offset in frames divided by the sample rate.',
  over=['inputs'], quant='every block length, every maximum frame count, every buffer content',
  why='Tests use one or two block lengths; splitting errors need lengths that are no multiple of the maximum or exceed it.',
  files=['src/realtime/processor.rs', 'src/realtime/dsp_graph.rs'],
  mech=[('sub-block loop', 'src/realtime/processor.rs')], observe=['AudioProcess::process'],
  technique='induction over the sub-block loop with linear-arithmetic value analysis over MIR',
  note='Offsets, lengths and times are terms over the loop state; entry, step and exit obligations are discharged by linear arithmetic over the terms.')
P(id='R07', title='Every command takes effect in order, once, before the audio of the next callback',
  statement='Every command a control call sends goes once into the one queue the audio callback reads. In every callback the queue is emptied before '
            'anything is rendered, each command is handled in the order received, none is skipped, and every kind of command has its effect.',
  over=['histories', 'schedules'], quant='every sequence and number of commands, every moment at which they are sent',
  why='Losing, reordering or postponing a command shows only with several waiting commands or particular timing.',
  files=['src/engine/root.rs', 'src/realtime/processor.rs', 'src/graph/node.rs', 'src/parameter'],
  mech=[('command queue drained per callback', 'src/realtime/processor.rs')], observe=['AudioProcess::process', 'CommandQueue::send'],
  technique='gated value analysis over MIR: loop-exit facts of the command loop, effect of each command variant, identity of the channel on both sides',
  note='The exit condition of the command loop must be the empty queue; the variants are enumerated from the command type.')
P(id='R08', title='Nodes are rendered in dependency order, each exactly once',
  statement='In every sub-block each node whose sources can all be rendered is rendered exactly once, after every node connected into it, whatever the '
            'shape of the graph and however it was built: every command that changes nodes or connections causes a new order to be computed before '
            'the next node is rendered, and the order is computed by taking nodes whose incoming connections have all been accounted for, until none is left.',
  over=['histories', 'inputs'], quant='every directed graph (diamonds, parallel edges, several roots) and every history of edits',
  why='An order that is right for the chain or diamond of a test can be wrong for another graph or after another edit.',
  files=['src/realtime/dsp_graph.rs', 'src/realtime/topological_sort.rs', 'src/realtime/graph.rs'],
  state=[('DspGraph::graph_needs_sort', 'a new order is wanted', 'src/realtime/dsp_graph.rs'), ('TopologicalSort', 'the order', 'src/realtime/topological_sort.rs')],
  mech=[('Kahn sort on demand', 'src/realtime/topological_sort.rs')], observe=['AudioProcess::process'],
  technique='gated value analysis and loop-invariant matching over MIR (Kahn-style sort recognised by its state, not its text)',
  note='Obligations: initial counts, ready condition, lowering, completeness, render loop over the sorted list, and a sort request per structural command.')
P(id='R09', title='The graph holds exactly the connections that were made and not removed',
  statement='After any history of connects, disconnects and node removals, the edges found by walking a node\'s incoming or outgoing list are exactly the '
            'connections made and not since removed, each once, with the endpoints, channels and counts they were made with. Disconnecting two nodes '
            'removes all connections between them and no other; removing a node removes every connection into or out of it, and all other edges stay reachable.',
  over=['histories'], quant='every history of connect, disconnect and remove operations, parallel edges and shared endpoints included',
  why='Linked-list repairs go wrong for particular positions and orders of removal that a few test graphs do not produce.',
  files=['src/realtime/graph.rs', 'src/realtime/dsp_graph.rs'], state=[('Graph::nodes', 'nodes with the heads of their edge lists', 'src/realtime/graph.rs'), ('Graph::edges', 'edges with their followers', 'src/realtime/graph.rs')],
  mech=[('intrusive edge lists', 'src/realtime/graph.rs')], observe=['AudioProcess::process'],
  technique='shape analysis of the edge lists over MIR: append, unlink and iteration obligations per list',
  note='The lists and their fields are identified from what connecting does; each unlink case (head, middle, both lists) is an obligation.')
P(id='R10', title='A node hears exactly the sum of its incoming connections',
  statement='What a node hears is the sum, over its incoming connections, of the connected channels of the source node\'s output in the same sub-block, '
            'each once and for all its frames, with the source and destination channels and channel count it was connected with, plus the system input if it '
            'is the node connected to it. What it renders stands as its output for all nodes after it, and the block output is that of the node last connected to the '
            'system output, from the first channel on.',
  over=['inputs', 'histories'], quant='every graph and channel mapping, every block',
  why='Shortcuts that avoid mixing are right for most channel layouts; tests sample few mappings.',
  files=['src/realtime/dsp_graph.rs', 'src/graph/dsp.rs', 'src/graph/assigned_buffer_pool.rs'],
  mech=[('pooled buffers standing for endpoints', 'src/realtime/dsp_graph.rs')], observe=['AudioProcess::process'],
  technique='gated value analysis over MIR: decision tree of the input buffer of every render, traced to pool entries and mixing loops',
  note='Each leaf is the sum loop over the incoming list or satisfies the conditions under which reading the single source is equal to it.')
P(id='R11', title='No audio leaks from one node or block to another through pooled buffers',
  statement='A buffer a node is given to mix into or render into contains no audio of another node, of another sub-block or of an earlier block, unless it stands for that '
            'node\'s own endpoint: every buffer is silent when the engine is created and silenced before it returns to the pool, and after every sub-block '
            'every buffer standing for an output has returned.',
  over=['histories', 'inputs'], quant='every graph, every number of blocks, every node removed or disconnected between them',
  why='Stale audio appears only when a particular buffer is reused by a node that does not overwrite all of it.',
  files=['src/buffer/buffer_pool.rs', 'src/graph/assigned_buffer_pool.rs', 'src/realtime/dsp_graph.rs'],
  mech=[('clear on return to the pool', 'src/buffer/buffer_pool.rs')], observe=['AudioProcess::process'],
  technique='typestate analysis of pool buffers over MIR events of the audio callback',
  note='Every push into the pool must be preceded by a clear of the same buffer with nothing written between; the map must be drained per sub-block.')
P(id='R12', title='Every parameter call sends exactly the change that was asked for',
  statement='Each call on a parameter handle that sets or ramps its value sends exactly one request, for that parameter of that node, with the value limited to the '
            'range the parameter was declared with and with the time or times given to the call unchanged; each cancel call sends exactly one request to cancel, with its time if '
            'it has one. A parameter starts at the default of its range, its handle shows the value the callback keeps, and a range that does not contain its default is refused.',
  over=['inputs', 'histories'], quant='every value, time, range and parameter, every sequence of calls',
  why='A wrong limit, time or address shows only for values outside the range, or with several parameters or ramps.',
  files=['src/parameter'], state=[('AudioParameter', 'handle: node, name, range, published value', 'src/parameter')],
  mech=[('values clamped to the range before they are sent', 'src/parameter')], observe=['AudioParameter', 'CommandQueue::send'],
  technique='gated value analysis over MIR: each call reduced to the command term it sends and compared component by component',
  note='The methods are looked up by their public names; which field is which is derived from the constructor.')
P(id='R13', title='Parameter changes are applied in order, on time, and reach their targets exactly',
  statement='Scheduled changes of a parameter wait in order of their end times, and of arrival where these are equal. No change is taken before the frame at which it is due '
            '(an immediate change at its time, a ramp at its start), and the first waiting change is taken as soon as it is due, once. A ramp moves from the present value by the step that '
            'reaches its target at its end, never passes the target, and from its end on the value is exactly the target. A block is held constant only when no change waits and no ramp '
            'runs; it continues from the last value of the block before, and gives one value per frame. Cancelling removes all waiting changes, or exactly those ending later than its time.',
  over=['inputs', 'histories'], quant='every list of changes and their times, every split of time into blocks, every sample rate',
  why='Order, edges of ramps and block boundaries interact: an error shows only when a change is due in a certain frame of a certain block.',
  files=['src/parameter'], state=[('RealtimeAudioParameter::parameter_changes', 'changes that wait', 'src/parameter'),
                                  ('RealtimeAudioParameter::current_change', 'change in progress', 'src/parameter')],
  mech=[('one frame at a time through the waiting list', 'src/parameter')], observe=['RealtimeAudioParameter::process', 'AudioParameter::get_value'],
  technique='gated value analysis over MIR: the frame loop decided by cases on kind and due time of the first waiting change',
  note='Values are compared as terms of real arithmetic; floating-point rounding is not considered. At most one waiting change is taken per frame.')
P(id='R14', title='A change requested on a handle reaches that parameter of that node, and it alone',
  statement='Every parameter a node declares exists once on the control side and once on the real-time side, under one name, and the accessor of that name hands out that one. While '
            'the node is in the graph, a request made on the handle is carried out on exactly the parameter and node it was made for. Before a node renders a sub-block, every parameter of it is '
            'advanced from the start time of the sub-block for exactly its frames; the node reads only parameters it declares, for exactly those frames, and every declared parameter is read.',
  over=['inputs', 'histories'], quant='every node type, every parameter, every request and graph',
  why='A misdirected or dropped request, or a parameter not advanced, shows only for particular nodes with several parameters.',
  files=['src/graph/dsp.rs', 'src/graph/dsp_parameters.rs', 'src/utility/create_parameters.rs', 'src/effects', 'src/realtime/dsp_graph.rs'],
  mech=[('parameters kept under their own names on both sides', 'src/utility/create_parameters.rs'), ('parameters advanced before the processor', 'src/graph/dsp.rs')],
  observe=['DspProcessor::process_audio', 'AudioParameter'],
  technique='gated value analysis over MIR, over every node constructor, accessor and processor found in the program',
  note='Constructors are found as the functions that call GraphNode::new; processors from the type of the value boxed there.')
P(id='R15', title='A node is in the graph from its creation to its drop, under its own identity',
  statement='Creating a node sends exactly one request that puts it, with the identity, channel counts, processor and parameters it was made with, into the graph under that identity; '
            'dropping its handle sends exactly one request that takes exactly this node out; nothing else adds or removes a node. Every handle owns its node. No two nodes, made on whatever threads, share an identity.',
  over=['histories', 'schedules'], quant='every sequence of creations and drops on any number of threads',
  why='Duplicate identities need concurrent creation; a missing or misdirected removal shows only after particular sequences of drops.',
  files=['src/graph/graph_node.rs', 'src/commands/id.rs', 'src/realtime/processor.rs', 'src/realtime/graph.rs', 'src/effects'],
  state=[('Id::generate::NEXT', 'counter of identities', 'src/commands/id.rs'), ('Graph::nodes', 'nodes in the graph', 'src/realtime/graph.rs')],
  mech=[('request on creation and on drop', 'src/graph/graph_node.rs')], observe=['CommandQueue::send', 'AudioProcess::process'],
  technique='ownership and value analysis over MIR: creation and drop reduced to their commands, who-may-send query, atomicity of the identity counter',
  note='The only makers of add and remove requests are found by searching all functions for the construction of these commands.')
P(id='R16', title='Connecting and disconnecting ask for exactly what the call says',
  statement='Each call that connects or disconnects nodes, or connects one to the system input or output, sends exactly one request, from the output of the node it is called on to the input '
            'of the other node, with the channels and count it was given, or from channel zero to channel zero with all output channels of the node where it was given none.',
  over=['inputs'], quant='every pair of nodes and all channel arguments',
  why='Wrong channels or counts are invisible when all nodes have equal channel counts and every channel carries the same signal.',
  files=['src/graph/graph_node.rs', 'src/graph/connection.rs', 'src/graph/endpoint.rs'],
  mech=[('connection requests', 'src/graph/graph_node.rs')], observe=['CommandQueue::send'],
  technique='gated value analysis over MIR: each call reduced to the command term it sends and compared component by component',
  note='R09 and R10 decide what the callback does with the requests.')
P(id='R17', title='Events of a node take effect once each, in time order, at their frame',
  statement='Every event sent to a node waits on the real-time side until the block that contains its time; a block takes all events due before its end, in order of their times, and of the calls '
            'where these are equal. Each is removed as it is taken and handled exactly once, after the frames before it were rendered and before the frame that contains its time; one whose time has '
            'passed takes effect at the frame about to be rendered. The segments between events cover the block without gap or overlap. Only an event that cancels everything drops waiting ones.',
  over=['inputs', 'histories', 'schedules'], quant='every list of events and their times, every arrival order, every split of time into blocks',
  why='Order, ties and block edges interact; tests use a few events, far apart and in order.',
  files=['src/effects/utility/event_processor.rs', 'src/effects/adsr', 'src/effects/sampler', 'src/effects/recorder'],
  state=[('EventProcessor::pending_events', 'events that wait', 'src/effects/utility/event_processor.rs')],
  mech=[('sorted waiting list', 'src/effects/utility/event_processor.rs'), ('segment loops of the processors', 'src/effects')], observe=['DspProcessor::process_audio'],
  technique='gated value analysis over MIR, for every event type in the program and every segment loop that takes its events',
  note='Ordering functions are decided by cases on the two comparisons. Rounding of fixed-point times to frames is taken as the code does it (floor).')
P(id='R18', title='A call that controls a node sends exactly the event it asks for',
  statement='Each public call of the adsr, the sampler and the recorder that asks for something sends exactly one event of that kind, for the time and with the values it was given, or for at once '
            'where it was given no time, over the channel that leads to the processor of that very node; every event carries a later number than those of earlier calls.',
  over=['inputs', 'histories'], quant='every call, argument and order of calls',
  why='An exchanged argument, a lost time or a repeated number shows only for unusual arguments or equal times.',
  files=['src/effects/adsr', 'src/effects/sampler', 'src/effects/recorder'],
  mech=[('constructors of events', 'src/effects'), ('channel made with the node', 'src/effects')], observe=['Adsr', 'Sampler', 'Recorder'],
  technique='gated value analysis over MIR: each call reduced to the event term it sends; provenance of both channel ends in the node constructors',
  note='The expected kind and arguments per public call name are a table of the rule; a new public call that sends an event without an entry is reported as not decided.')
P(id='R19', title='The adsr follows its notes and settings and its level never leaves its bounds',
  statement='A note on starts the attack from the level of the moment, a note off starts the release unless the envelope is idle; the phases follow in order, each exactly when the level gets to its '
            'end, which the level never passes: 1 for the attack, the sustain level for the decay, 0 for the release. Idle is silent, sustain stays at the sustain level. Each frame gets one step of the '
            'envelope. A setting changes that setting only, and every coefficient is always the one of the present settings.',
  over=['inputs', 'histories'], quant='every sequence of notes and settings at any time, in any phase',
  why='Events in unusual phases (a setting changed during release, a note during decay) are not sampled by tests.',
  files=['src/effects/adsr'], state=[('AdsrEnvelope', 'phase, level, coefficients, settings', 'src/effects/adsr/adsr_envelope.rs')],
  mech=[('one step per frame', 'src/effects/adsr/adsr_envelope.rs')], observe=['Adsr'],
  technique='gated value analysis over MIR: transition relation of the envelope by cases of phase and event, matched against the constructor',
  note='Values are compared as terms of real arithmetic. That the constants make the phases last as long as asked is numeric and not claimed.')
P(id='R20', title='The sampler plays, stops and loops exactly as its events ask',
  statement='A start plays the sample from the place asked for, further by as much as the event is late; what played before is faded out, and a voice that has stopped is used for it if there is one. '
            'A stop fades out every voice that plays and nothing plays again until the next start, with or without a loop. Setting or cancelling a loop changes nothing but where playing goes next; a loop '
            'shorter than one frame is no loop. While a block is filled, spans follow each other without gap or overlap, each ending at the end of the loop (or of the sample), and there the place goes back to '
            'the start of the loop with the fraction of a frame that was past its end.',
  over=['inputs', 'histories'], quant='every sequence of events at any time, every loop, every block size and sample length',
  why='Which voices are still fading, where in the sample it is and whether there is a loop multiply; tests try a few sequences with a bypassed fade.',
  files=['src/effects/sampler'], state=[('SamplerDspProcess', 'voices, the playing voice, loop points, place in the sample', 'src/effects/sampler/sampler_processor.rs')],
  mech=[('events', 'src/effects/sampler/sampler_processor.rs'), ('choice of voice', 'src/effects/sampler/sampler_voice.rs')], observe=['Sampler'],
  technique='gated value analysis over MIR: state after each kind of event and after each span, by cases, matched against its specification',
  note='Times are compared as exact integers and frame counts as the rounding of them; that rounding itself is not claimed. A start past the end of a loop plays from the start of the loop.')
P(id='R21', title='A voice of the sampler renders consecutive frames, each once and at its gain',
  statement='In whatever parts a block is rendered, the frames a voice adds to the output are consecutive frames of the sample, each once, in its place and in every channel, none past the end of the sample: '
            'unchanged while it plays, at the values of the fade in order while it fades in, and in the reverse order while it fades out. A fade-in is followed by playing, a fade-out by silence, '
            'and the place of the voice moves on by exactly what was rendered.',
  over=['inputs', 'histories'], quant='every place in the sample, phase, fade, block size and number of channels',
  why='A fade that spans blocks, or ends within one, or meets the end of the sample, is one of very many cases.',
  files=['src/effects/sampler'], state=[('Voice', 'position, phase', 'src/effects/sampler/sampler_voice.rs')],
  mech=[('parts of a span', 'src/effects/sampler/sampler_voice.rs')], observe=['Sampler'],
  technique='gated value analysis over MIR: one frame and channel of one pass of the render loop in each phase; affine frame indices; coverage of the loops',
  note='The values of the fade themselves are numeric and not claimed. What add_from, get_sample and set_sample do is R23.')
P(id='R22', title='The recorder records what it hears while asked to, whole and in order',
  statement='From a start to the next stop, every frame and channel the recorder hears is recorded, each once and in order; outside that, nothing is. A buffer is given to the control thread when it is full or recording '
            'stops, with exactly as many frames as were recorded; recording then goes on at the start of another buffer from the pool, or of the same when there is none, and a buffer that cannot be given away goes back '
            'to the pool. The control thread keeps what it is given in order, returns the buffer, and says that it records exactly when it was told so last; it is told at the start of the next block if not at once, and '
            'that recording stopped only after all of it was given away. Taking the recording takes all of it and begins a new one.',
  over=['inputs', 'histories'], quant='every sequence of events at any time, every block and buffer size, every state of the pool and channels',
  why='Where in a block recording starts and stops, where a buffer is full, and how far the control thread is behind multiply.',
  files=['src/effects/recorder', 'src/buffer/buffer_pool.rs'], state=[('RecorderProcessor', 'buffer, pool, place in the buffer, recording, what was told', 'src/effects/recorder/recorder_processor.rs'),
         ('Recorder', 'recording so far, whether it records', 'src/effects/recorder/recorder_node.rs')],
  mech=[('segments', 'src/effects/recorder/recorder_processor.rs'), ('notifications', 'src/effects/recorder/recorder_node.rs')], observe=['Recorder'],
  technique='gated value analysis over MIR: transition relation of both sides by kind of event and notification; coverage of the copying loop',
  note='What was recorded is lost when the control thread is behind by more than the channel and the pool hold; that is by design and not claimed. What copy_from does is R23.')
P(id='R23', title='Operations on buffers change exactly the samples they say, at any alignment',
  statement='Filling, clearing, mixing, copying, gain and interleaving leave in every channel and frame exactly the value asked for (sums and products of the samples at the same place, '
            'the sample of the source at the place that corresponds) and nothing changes outside of the region asked for, or in another buffer; the vector kernels do the same whatever the lengths and '
            'the memory alignment of their arguments. A change of sample rate interpolates linearly between the two neighbours. Interleaving and its inverse use the channel count of the interleaved data. '
            'No check fails for a region inside the buffers, and the question whether a range is inside is answered exactly. A walk over the samples visits every channel and frame once.',
  over=['inputs'], quant='every buffer shape, region, gain and slice alignment',
  why='Vector code takes another path for each alignment and length; tests use a few shapes that allocate alike.',
  files=['src/buffer/audio_buffer.rs', 'src/dsp/mod.rs'], mech=[('AudioBuffer operations', 'src/buffer/audio_buffer.rs'), ('vector kernels', 'src/dsp/mod.rs')],
  observe=['AudioBuffer'],
  technique='gated value analysis over MIR: every loop that writes is solved for the iteration that writes a symbolic channel and frame; the result is compared with its specification by cases',
  note='Samples are real numbers here: rounding, overflow and NaN are not claimed, and a gain that is approximately 0 or 1 counts as 0 or 1.')
P(id='R24', title='A row, window or copy of a buffer holds the samples it stands for and no others',
  statement='A row of an owned buffer is the samples of that channel from the frame asked for to its last, never another channel\'s. A window is made only of a range inside the buffer, and can be made of each; '
            'it shows exactly the channels and frames of that range, never reaches outside of it, and accepts every place inside. The ways to make a window use the counts they are named for. A new buffer is silent and '
            'has the shape it was made with. A buffer made of a slice, another buffer, two buffers, a longer length, a step or a sine holds that and only that, in every channel. '
            'Places and ranges move by what they are moved by.',
  over=['inputs'], quant='every shape, window, window of a window, place and channel',
  why='A stride or an offset of the wrong axis is right for square or first-channel cases, which is what tests use.',
  files=['src/buffer'], state=[('OwnedAudioBuffer', 'samples and shape', 'src/buffer/owned_audio_buffer.rs'), ('BorrowedAudioBuffer', 'buffer and range', 'src/buffer/borrowed_audio_buffer.rs')],
  mech=[('row addressing', 'src/buffer/owned_audio_buffer.rs'), ('windows', 'src/buffer/borrowed_audio_buffer.rs'), ('places', 'src/buffer/sample_location.rs')], observe=['AudioBuffer', 'OwnedAudioBuffer', 'BorrowedAudioBuffer'],
  technique='gated value analysis over MIR: provenance and affine bounds of every slice handed out; contents of copies as functions of channel and frame',
  note='White noise is random and not claimed.')
P(id='R25', title='Gain, pan, mixer, envelope, oscillator and shaper compute their formula',
  statement='In every channel and frame that comes out of the node: gain is the sample times the gain of that frame; pan multiplies left by the smaller of 1 and 1 - pan and right by the smaller of 1 and 1 + pan, '
            'a mono input being both; the ADSR puts its level on every channel that comes in; the mixer gives each output the sum of every input times the level between the two that was asked for; '
            'the oscillator plays its table at the phase of the frame, joined at the wrap, advanced by frequency over sample rate from each frame to the next across blocks, and never reads beyond the table; '
            'the shaper gives the shape of the sample at a higher rate, mixed with the sample by the mix of that frame. Parameter values of a frame are those of that frame. None fails for a block and '
            'channel count the engine can hand it.',
  over=['inputs', 'histories'], quant='every block, channel count, parameter curve and history of blocks',
  why='A value of another frame or channel, a table read at its end or a state not kept to the next block shows in few blocks only.',
  files=['src/effects/gain', 'src/effects/pan', 'src/effects/mixer', 'src/effects/oscillator', 'src/effects/adsr', 'src/effects/waveshaper'],
  state=[('OscillatorProcessor', 'phase', 'src/effects/oscillator/oscillator_processor.rs')],
  mech=[('process of each', 'src/effects')], observe=['Gain', 'Pan', 'Mixer', 'Oscillator', 'Adsr', 'Waveshaper'],
  technique='gated value analysis over MIR: the value of a symbolic channel and frame of what comes out, compared with the formula by cases over the reals; bounds of table reads by inductive invariant of the phase',
  note='Samples are real numbers here: rounding is not claimed, nor how good the shape of a resampled or looked-up function is.')
P(id='R26', title='Every biquad filters each channel by the coefficients of the frame',
  statement='In every channel, each frame that comes out of a biquad is b0 x + b1 x1 + b2 x2 - a1 y1 - a2 y2 times the gain of that frame, where x1, x2, y1, y2 are the two frames before it of the same channel, in and out, '
            'also across blocks and starting from silence, and values next to nothing may become nothing; b and a are those of a second order section of the type of the filter, at the sample rate of the engine, for the '
            'frequency, q and shelf gain that hold in that very frame, however they move.',
  over=['inputs', 'histories'], quant='every type, block, channel count, parameter curve and history of blocks',
  why='A delay of another channel, a coefficient kept although one parameter moved, or a frame lost between two blocks shows only for a curve or a block size a test happens to pick.',
  files=['src/effects/biquad'],
  state=[('BiquadProcessor', 'delays, coefficients, last parameters', 'src/effects/biquad/biquad_processor.rs')],
  mech=[('recurrence', 'src/effects/biquad/biquad_processor.rs'), ('coefficients', 'src/effects/biquad/biquad_coefficients.rs')], observe=['Biquad'],
  technique='gated value analysis over MIR: the recurrence and its coefficients as polynomials in the state of a symbolic channel, compared with the section of each type; what is kept between frames by induction',
  note='Samples are real numbers here: rounding and stability near the ends of the ranges are not claimed.')
P(id='R27', title='The compressor follows every channel and reduces by the gain of the frame',
  statement='Every channel of a compressor has a level of its own, which starts at nothing and in each frame moves towards the size of the input by exp(-1 / (sample rate * attack)) when it rises and by release when it falls, '
            'with the attack and release that hold in that frame, across blocks; the gain of a frame is that of a soft knee of the threshold, ratio and knee of the frame for the mean of the levels of all channels; what comes out '
            'is the input times dry plus the input times wet and that gain, in every channel and frame, and there is room for a gain at every frame of the longest block.',
  over=['inputs', 'histories'], quant='every block, channel count, parameter curve and history of blocks',
  why='A coefficient kept although its time moved, a level of another channel or a part of the knee shows only when parameters move within a block or a level falls into the knee.',
  files=['src/effects/compressor', 'src/effects/utility/envelope_follower.rs'],
  state=[('CompressorProcessor', 'followers, gains', 'src/effects/compressor/compressor_processor.rs'), ('EnvelopeFollower', 'level, times, coefficients', 'src/effects/utility/envelope_follower.rs')],
  mech=[('gain', 'src/effects/compressor/compressor_processor.rs'), ('follower', 'src/effects/utility/envelope_follower.rs')], observe=['Compressor'],
  technique='gated value analysis over MIR: the state of the follower of a symbolic channel after a symbolic frame by induction, the sum over channels as one term of a loop, gain and output compared with the formula by cases over the reals',
  note='Samples are real numbers here: rounding is not claimed; a duration is taken to keep its seconds exactly. Input and output have as many channels, as the code asserts.')

P(id='R28', title='The envelope meter tells the greatest level of every channel since the last time',
  statement='Every channel of an envelope meter has a follower of its own, at rest at first and kept across blocks, which moves towards the size of the input by exp(-1 / (sample rate * attack)) when it rises and by release when it '
            'falls, with the times asked for; it takes every frame of every block once and in order. Whenever sample rate / notification frequency more frames have passed, the meter tells, for every channel in order, the greatest level '
            'since it last told, with no later frame counted in, and begins anew exactly then; the next time is whole intervals further. What is told is lost only when the queue to the control thread is full.',
  over=['inputs', 'histories'], quant='every block length and history of blocks, interval, channel count and state of the queue',
  why='An off-by-one in the moment, a peak that is not begun anew or frames that are skipped shows only when intervals fall inside blocks, or several fall in one.',
  files=['src/effects/envelope', 'src/effects/utility/envelope_follower.rs', 'src/effects/utility/periodic_notification.rs'],
  state=[('EnvelopeProcessor', 'envelopes, peaks, notification', 'src/effects/envelope/envelope_processor.rs'), ('PeriodicNotification', 'interval, next', 'src/effects/utility/periodic_notification.rs')],
  mech=[('process_audio', 'src/effects/envelope/envelope_processor.rs'), ('periodic notification', 'src/effects/utility/periodic_notification.rs')], observe=['Envelope', 'EnvelopeNotification'],
  technique='gated value analysis over MIR: the peak and follower of a symbolic channel after a symbolic frame by induction over the frame loop, told values and the moments they are told by linear facts, constructor values compared with the formula',
  note='Samples are real numbers here: rounding of an interval that is not a whole number of frames is not claimed.')

P(id='R29', title='Everything nodes report reaches them, in order, while they are there',
  statement='Each time notifications are processed every notifier is asked once, in the order they were added, and stays exactly while it says so; one that is added loses none of the others. The notifier of a node is for that node '
            'and does not keep it alive, stays exactly while the node is there, listens to the processor of that node, and takes all that waits in its queue, in order. An envelope keeps all it was told, whole and in order, until '
            'it is taken; taking it takes all and leaves none.',
  over=['inputs', 'histories'], quant='every number of notifiers and of waiting messages, and every order of dropping nodes and processing',
  why='A notifier lost or asked out of turn, or a queue left with messages in it, shows only with several nodes of which some are dropped, or several messages waiting at once.',
  files=['src/engine/root.rs', 'src/engine/context.rs', 'src/effects/envelope/envelope_node.rs', 'src/effects/recorder/recorder_node.rs'],
  state=[('Root', 'notifiers', 'src/engine/root.rs'), ('Envelope', 'notifications, event_receiver', 'src/effects/envelope/envelope_node.rs')],
  mech=[('process_notifications', 'src/engine/root.rs')], observe=['Context::process_notifications', 'Envelope::take_notifications', 'Recorder'],
  technique='gated value analysis over MIR: loops over notifiers and queues by their exit conditions, the registered closures with what they capture, contents of lists before and after as terms',
  note='What a recorder makes of what it receives is R22.')

P(id='R30', title='Times and levels mean the same in every unit they are given or asked for in',
  statement='A time made from seconds, samples at a rate, beats at a tempo, or a duration is that long, and gives the seconds, samples and beats it lasts; a buffer lasts as long as its frames at its rate; sums, differences and increments of times are those; times compare as their '
            'lengths, and a time handed between threads is the same after. A level made from a gain or from decibels is that gain, silence from -128 dB down, and gives its gain and decibels; clamping leaves a level that is '
            'between the bounds and else gives the bound; unity and zero are recognised; levels compare as their gains.',
  over=['inputs'], quant='every time, rate, tempo, duration and level, up to rounding',
  why='A conversion that is right for round numbers, or a comparison by something other than the length, shows only for values no test uses; every time in the engine passes through these.',
  files=['src/utility/timestamp.rs', 'src/utility/level.rs'],
  state=[('Timestamp', 'seconds', 'src/utility/timestamp.rs'), ('Level', 'linear', 'src/utility/level.rs')],
  mech=[('conversions', 'src/utility/timestamp.rs'), ('conversions', 'src/utility/level.rs')], observe=['Timestamp', 'Level'],
  technique='value analysis over MIR: each conversion as a term over its arguments, compared with the definition over the reals; comparisons by cases on the order of two symbolic values; casts to fewer digits looked for',
  note='Up to rounding to the grid of 2^-32 seconds and of floating point. Below -87 dB the decibels reported for a level are not claimed.')

P(id='R31', title='A convolution is right for every length of block and impulse',
  statement='Every channel of a convolution keeps the newest samples of its input, as many as a transform is long, across chunks and blocks of any length; each chunk is moved in at the end of what was kept, in whole and in order. '
            'That row is transformed, multiplied place by place with the transformed impulse of the same channel, which has silence behind it, transformed back and scaled by one over the length; its newest part, which a row at least as '
            'long as impulse and longest block together less one keeps free of wrapping, is added with the wet gain of each frame to the input with the dry gain. A channel that the input does not have stays silent, and nothing fails '
            'for any number of input channels.',
  over=['inputs', 'histories'], quant='every impulse length, number of channels, block length and history of blocks, every curve of wet and dry',
  why='History that is dropped, moved by the wrong count or of another channel, and a row too short for some impulse, show only with blocks of changing length, more channels or certain impulse lengths; the tests use one channel.',
  files=['src/effects/convolution'],
  state=[('ConvolutionProcessor', 'complex_input, input_fft, complex_output, impulse_fft', 'src/effects/convolution/convolution_processor.rs')],
  mech=[('overlap-save chunks', 'src/effects/convolution/convolution_processor.rs'), ('transform of the impulse', 'src/effects/convolution/convolution_processor.rs')], observe=['Convolution'],
  technique='gated value analysis over MIR: one pass over a symbolic chunk, the loops over channels composed into the content of a symbolic row and place with transforms as named functions; compared with overlap-save by cases; lengths by linear facts',
  note='The FFT library is taken to compute discrete Fourier transforms, over the reals; rounding is not claimed.')

P(id='R32', title='The engine and every node are set up as they were asked to be',
  statement='Each engine option changes what it names and nothing else, and the engine reports, and has buffers with room for, exactly the sample rate, '
            'number of channels and longest block it was asked for, or the default ones where nothing was. Every node, however it is made, hears and gives as many channels as its constructor was '
            'told, connects with as many, and its processor is always called with input and output buffers of exactly those channels.',
  over=['configurations', 'inputs'], quant='every combination of engine options, every way of making a node, every channel count',
  why='Tests use the default options, one or two channels and one constructor of most nodes; a count that is limited, swapped or fixed only '
      'shows in configurations they never build.',
  files=['src/engine/root.rs', 'src/realtime/processor.rs', 'src/realtime/dsp_graph.rs', 'src/graph/graph_node.rs', 'src/graph/dsp.rs', 'src/effects'],
  mech=[('EngineOptions', 'src/engine/root.rs'), ('node constructors', 'src/effects/*/*_node.rs'), ('Dsp', 'src/graph/dsp.rs')],
  observe=['EngineOptions', 'create_engine_with_options', 'Context::get_sample_rate', 'Context::maximum_frame_count', 'node constructors'],
  technique='gated value analysis over MIR: every option, constructor and the engine constructor evaluated for all arguments; stored values compared with the arguments by linear facts',
  note='Which argument of a constructor is its channel count is taken from its public signature. That counts fit into the engine (at most its maximum) is up to the caller.')

P(id='R33', title='The ready-made nodes are what they are named for',
  statement='A sine oscillator plays one period of a sine; one made of harmonics plays the sum over the levels it was given of each times the '
            'partial of its place, however many there are. A shaper named tanh shapes by c tanh(x / c) for one positive c; one that clips makes what is beyond the '
            'threshold, on either side, the threshold and changes nothing else; the saturator leaves what is below the threshold t and makes x above it '
            't + (x - t) / (1 + ((x - t) / (1 - t))^2). A splitter passes its one input to both outputs, and a unity mixer passes each channel to its own and no other, at a gain of one.',
  over=['inputs', 'configurations'], quant='every sample, threshold, list of levels and number of channels',
  why='Tests hear a few samples of a sine and never build most of these nodes; a wrong partial, a missing channel or one side of a threshold only shows for '
      'certain lists, counts and signals.',
  files=['src/effects/oscillator/oscillator_node.rs', 'src/effects/waveshaper/waveshaper_node.rs', 'src/effects/mixer/mixer_node.rs'],
  mech=[('make_sine_wavetable', 'src/effects/oscillator/oscillator_node.rs'), ('shapers', 'src/effects/waveshaper/waveshaper_node.rs'), ('Mixer::unity', 'src/effects/mixer/mixer_node.rs')],
  observe=['Oscillator::sine', 'Oscillator::with_harmonics', 'Waveshaper::tanh', 'Waveshaper::hard_clip', 'Waveshaper::soft_saturator', 'Mixer::unity', 'Mixer::mono_to_stereo_splitter'],
  technique='value analysis over MIR: the arguments of the general constructor (tables, closures, levels) as terms, compared with the definition over the reals in each order of sample and threshold',
  note='That the tables, shapes and levels are then played as they are is R25; rounding is left out.')

NA(id='R81', title='The audio callback finishes within the time of its block',
  statement='On the hardware it runs on, every audio callback returns before its block has to be played, for any graph the user builds.',
  over=['programs', 'inputs'], quant='every graph and block length on every machine',
  why='Tests do not measure time and use small graphs.',
  files=['src/realtime/processor.rs', 'src/realtime/dsp_graph.rs'], mech=[('preallocated buffers and order', 'src/realtime')], observe=['AudioProcess::process'],
  reason='Needs a bound on wall-clock time, which depends on the machine and on the number of nodes the user builds; no static argument in reach bounds it. What is static about it (no blocking, no allocation) is R01 and R02.')
NA(id='R82', title='Rounding never becomes audible',
  statement='The difference between the samples rendered and those of the ideal formulas stays below the noise floor of 24 bit audio for every input and any running time.',
  over=['inputs', 'histories'], quant='every input signal and parameter history',
  why='Tests compare a few samples with a tolerance.',
  files=['src/effects'], mech=[('f64 state in filters and envelopes', 'src/effects')], observe=['AudioProcess::process'],
  reason='A bound on accumulated floating point error of recursive filters depends on runtime coefficients and inputs; the analyses here decide over the reals and say so.')
NA(id='R83', title='Sample rate conversion and waveshaping add no audible aliasing',
  statement='What sample rate conversion and oversampled waveshaping add outside of the spectrum of the input stays inaudible.',
  over=['inputs'], quant='every input signal',
  why='Tests look at constant or short signals only.',
  files=['src/buffer/audio_buffer.rs', 'src/effects/waveshaper'], mech=[('linear interpolation', 'src/buffer/audio_buffer.rs'), ('oversampling', 'src/effects/waveshaper')], observe=['sample_rate_convert_from', 'Waveshaper'],
  reason='A property of spectra, a perceptual measure over all signals; not a property of the source that dataflow can decide. The formulas themselves are R23 and R25.')
NA(id='R84', title='Nothing an application does makes the audio callback panic',
  statement='No sequence of public calls with any arguments makes the audio callback panic.',
  over=['inputs', 'histories', 'programs'], quant='every program using the API',
  why='Tests use valid arguments in short histories.',
  files=['src/realtime', 'src/effects', 'src/graph'], mech=[('assertions on counts and ranges', 'src/graph/dsp.rs')], observe=['AudioProcess::process'],
  reason='The callback asserts preconditions (channel counts that fit the engine, samples at its sample rate) that only the application can guarantee, and hundreds of bounds checks depend on runtime lengths. Where a rule needs an index in range for its own property (buffers, effects, graph, convolution) it decides it there.')
