"""The properties, in one place.  `python3 tools/props.py` writes properties.jsonl and MANIFEST.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'pa'))
P, NA = [], []


def prop(id, title, statement, over, text, tests, files, mech, technique, note, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=tests,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        d['anchors']['observe_at'] = observe
    P.append((d, technique, note))


def na(id, title, statement, over, text, tests, files, mech, reason):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=tests,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    NA.append((d, reason))


AI = 'path-sensitive abstract interpretation of the MIR to a fixpoint, with a typestate monitor'
TRUST = ' Trusted: the abstract models of std/async-std calls, rustc\'s MIR, and that one symbolic message stands for all. Paths through code the models do not cover are reported as undecided in the evidence and raise no alarm.'

prop('C01', 'A message reaches every connected output once and unchanged',
     'Every message that a regulator, buffer or junction takes from one of its inputs is sent, unchanged and exactly once, to each output connected to it before it takes the next message from that input or finishes successfully. A full output makes the component wait; it never makes it drop the message. Only outputs whose reader has gone may miss messages.',
     ['schedules', 'inputs', 'fault_sequences'], 'for every sequence of messages, every interleaving of ready/not-ready inputs, every output count and position, and every pattern of closed outputs',
     'The unit tests push a handful of messages through one component on one schedule; they reach neither closed outputs in every position nor long sequences nor a full output.',
     ['src/motion.rs', 'src/junction.rs', 'src/regulator.rs', 'src/buffer.rs'],
     [('copying one message to all outputs', 'src/motion.rs motion_worker'), ('moving until the input ends', 'src/motion.rs motion'), ('reading from several inputs', 'src/junction.rs junction_motion_worker, iteration'), ('unbounded middle channel', 'src/buffer.rs start')],
     AI, 'For the real component code, with 1-3 outputs and 1-2 inputs and any number of messages, all send/receive outcomes are explored symbolically up to a fixpoint.' + TRUST,
     observe=['the receivers returned when connecting an output'])
prop('C02', 'What arrives at a sink is written out once, whole and in order',
     'Every message that arrives at a drain (standard output, standard error or a file) or at the standard input of a program is written there exactly once, completely, unchanged and in arrival order. A failed write is never followed by a successful finish of a drain, and nothing more is written after it. A drain without a destination, or /dev/null, discards everything and writes nothing anywhere.',
     ['inputs', 'fault_sequences'], 'for every message sequence and every position at which a write fails',
     'Tests write a few small messages to sinks that never fail; short writes and write errors are not produced.',
     ['src/motion.rs', 'src/drain.rs', 'src/launch.rs'], [('writing one message', 'src/motion.rs motion_write'), ('moving until the input ends', 'src/motion.rs motion'), ('choosing the sink', 'src/drain.rs start'), ('standard input of a program', 'src/launch.rs start')],
     AI, 'All outcomes of every read, write and flush are explored symbolically for each kind of sink up to a fixpoint.' + TRUST)
prop('C03', 'Every byte read is passed on in order, cut only at line ends',
     'A faucet, and the standard output and standard error of a program, pass on every byte that was read, in the order read, none added, lost or repeated. The bytes are cut into messages only directly after a line end (a newline, with or without a carriage return before it); only the last message of a stream may lack one. The bytes left at the end of the stream are passed on too.',
     ['inputs', 'schedules'], 'for every content of the stream and every way the operating system splits it into reads (including reads that end in the middle of a line or of a CR LF pair)',
     'One test feeds one sentence with one read size.',
     ['src/motion.rs', 'src/faucet.rs', 'src/launch.rs'], [('cutting at separators with carried-over bytes', 'src/motion.rs motion_read_buffer, is_split'), ('carried-over bytes', 'src/motion.rs ReadSplitControl')],
     AI + ' over a symbolic byte-string domain', 'Reads of unknown length and content are followed as symbolic byte strings (slices of what was read); every message sent is compared with the next unsent bytes, across any number of reads.' + TRUST,
     state=[('overflow', 'bytes read but not yet passed on', 'src/motion.rs ReadSplitControl')])
prop('C04', 'Written data is flushed before a sink reports success',
     'A drain, and the writer of a program\'s standard input, finish successfully only after everything written has been flushed, so that no byte is left behind in an internal buffer at the end of input. A flush that fails is reported as an error.',
     ['inputs', 'fault_sequences'], 'for every message sequence, every kind of sink and every flush outcome',
     'Tests read the file only after the process ended and never make flush fail; a missing flush can stay invisible when the buffer is flushed by chance.',
     ['src/motion.rs', 'src/drain.rs', 'src/launch.rs'], [('flushing when the input ends', 'src/motion.rs motion_close, motion')],
     AI, 'Every path from the first write to a successful return is checked to pass a successful flush of the same sink.' + TRUST)
prop('C05', 'A component that stops lets go of its outputs and its control',
     'However a faucet, launch, buffer, junction or regulator stops - end of input, an error, a closed output, a program or file that cannot be started or opened - every output it had is closed once it has stopped, so whoever reads from it sees the end of the stream. Likewise the control of a faucet or regulator that has stopped is closed, so whoever pauses or resumes it is not left waiting.',
     ['fault_sequences', 'schedules'], 'for every way of stopping: every failing read, write, open, spawn or send at every point',
     'Tests stop components at the end of input; error exits, where the outputs were held open and downstream components waited for ever, are not exercised.',
     ['src/motion.rs', 'src/faucet.rs', 'src/launch.rs', 'src/junction.rs', 'src/regulator.rs', 'src/buffer.rs'], [('closing outputs', 'src/motion.rs motion_close'), ('start of each component', 'start / start_secret in each file')],
     AI + ' and an ownership (what is still reachable) analysis', 'At every return of the component, the value graph of the component is searched for an output that is neither closed, dropped nor known to be dead.' + TRUST)
prop('C06', 'A closed output means terminate, finish or consume, as configured',
     'When the reader of a component\'s only output has gone, the component stops with an error if that output is "terminate", stops successfully without taking further messages if it is "finish", and keeps taking (and discarding) messages until its input ends if it is "consume". It never stops successfully before its input has ended for any other reason.',
     ['schedules', 'fault_sequences', 'configurations'], 'for every component kind and output type, at every point of the message sequence at which the reader may go away',
     'One test covers one write function with two outputs; the per-component handling (faucet, launch, buffer, junction, regulator) is not tested.',
     ['src/motion.rs', 'src/faucet.rs', 'src/regulator.rs', 'src/junction.rs', 'src/buffer.rs', 'src/launch.rs', 'src/connectable.rs'], [('what a closed output means', 'src/motion.rs motion_worker'), ('per-component reaction', 'start_secret of faucet and regulator, start of the others')],
     AI, 'Each component is analysed with one output of each type; a send may fail at any message.' + TRUST)

prop('C09', 'A launched program\'s streams go where they are connected',
     'A launch starts its program exactly once, with each of standard input, output and error output piped if it is connected and closed off from our own streams if it is not; what the program writes to standard output (error output) goes to whatever is connected as its output (error output) and nowhere else. If the exit status is connected, exactly one message is sent to it, after the program and its connected outputs have ended: the exit code in decimal, or "_" if the program was killed. A launch whose program cannot be started fails.',
     ['configurations', 'inputs', 'fault_sequences'], 'for every combination of connected streams, everything the program may write and every way it may end',
     'Tests connect a few combinations and run only programs that exit with a code.',
     ['src/launch.rs'], [('connecting the streams, exit status', 'src/launch.rs start')],
     AI, 'All 16 combinations of connected streams are explored; stream contents, read sizes and the outcome of every operation are symbolic.' + TRUST)
prop('C10', 'A port is connected at most once, unless the component says otherwise',
     'Connecting an output a component does not have, or one that is already connected (other than on a junction, which takes any number), is refused with an error and leaves the existing connection as it was; the same goes for a second input (other than on a junction) and an input with a priority on a component that cannot respect it. An accepted connection is the other end of what the component writes to (reads from), and different outputs of a program are independent of each other.',
     ['configurations', 'histories'], 'for every component, port, priority and order of two connections',
     'Tests only make valid connections, most components in one way.',
     ['src/faucet.rs', 'src/launch.rs', 'src/drain.rs', 'src/junction.rs', 'src/buffer.rs', 'src/regulator.rs', 'src/connectable.rs'], [('connecting', 'add_output / add_input in each file')],
     AI, 'Each pair of connections is explored from a new component; the value graph is searched for both ends of the channel.' + TRUST)
prop('C11', 'Sources and destinations mean what the help says',
     'A faucet reads standard input if its source is "-", nothing if it is empty, and otherwise exactly the file of that name. A drain writes to standard output if its destination is "-", to standard error if it is "_", nowhere if it is empty or "/dev/null", and otherwise to exactly the file of that name, replacing its content.',
     ['inputs', 'configurations'], 'for every source and destination text',
     'Tests use one file each way and a few of the special names.',
     ['src/faucet.rs', 'src/drain.rs'], [('choosing the source', 'src/faucet.rs get_pull, start'), ('choosing the destination', 'src/drain.rs start')],
     AI, 'Each special text and one symbolic text standing for all others are explored.' + TRUST)

prop('C22', 'A junction prefers smaller priority numbers and takes turns',
     'A junction takes a message from one of its inputs only after every input that is still open and has a smaller priority number was found empty since the last message from the first one. Inputs of the same priority take turns: two messages in a row come from one of them only if the junction looked at each other one in between. A junction finishes only after all inputs have ended.',
     ['schedules', 'configurations'], 'for every assignment of priorities to inputs, every pattern of ready, waiting and ended inputs, at any length',
     'The unit tests fill a few inputs beforehand and check one order; inputs that become ready or end in between, and the bookkeeping when several end together, depend on the schedule.',
     ['src/junction.rs'], [('priorities and groups', 'src/junction.rs start'), ('one round over the groups', 'src/junction.rs iteration, junction_motion_worker')],
     AI, 'Ten assignments of priorities to one, two or three inputs (more in thorough); each poll of each input may find a message, nothing, or the end, any number of times.' + TRUST)
prop('C23', 'A regulator pauses at its high mark and resumes at its low mark',
     'Each time the reported levels of the buffers that a regulator monitors have been looked at, the regulator is told to pause if it is running and their sum is at or above the high mark, and to resume if it is paused and the sum is at or below the low mark; it is told nothing else at any other time. Every monitored buffer is looked at each time, buffers that have ended count as empty, and a regulator is not left paused when all have ended.',
     ['schedules', 'inputs', 'configurations'], 'for every sequence of reported levels, every pair of marks (symbolic) and every order in which the buffers report and end',
     'One example runs with one pair of marks; which levels are reported and when depends on the schedule.',
     ['src/waiter.rs'], [('deciding', 'src/waiter.rs manage_regulator_from_buffers'), ('which buffers and marks', 'src/waiter.rs configure_regulator, start')],
     AI, 'One and two monitored buffers (three in thorough) with symbolic levels and symbolic marks, from configure_regulator through start; sums are compared as linear terms.' + TRUST)
prop('C24', 'A paused faucet or regulator moves nothing until resumed',
     'Between being told to pause and being told to resume (or its control going away) a faucet or regulator neither takes nor sends data. It looks at its control at least once between any two messages it moves. Pausing twice, or resuming twice, has the effect of doing it once.',
     ['schedules', 'histories'], 'for every sequence of pauses and resumes at every point of the message sequence',
     'Tests pause once at one moment; that a pause arriving between two messages, or the second of two pauses, is handled right depends on the schedule.',
     ['src/regulator.rs', 'src/faucet.rs', 'src/connectable.rs'], [('waiting while paused', 'src/regulator.rs control, src/faucet.rs control'), ('remembering the state', 'RegulatorControl / FaucetControl pause and resume')],
     AI, 'A control signal may arrive at any poll; the control itself is called any number of times in any order.' + TRUST)
prop('C29', 'A buffer reports how many messages it holds',
     'Every level that a monitored buffer reports is the number of messages that have entered it minus the number that have left it, as far as its two halves have announced them; each message is announced exactly once when it enters and once when it leaves, and the buffer does not wait without having reported the current level.',
     ['schedules', 'inputs'], 'for every interleaving of messages entering and leaving',
     'The level depends on the schedule; the tests look at the final one only.',
     ['src/buffer.rs', 'src/motion.rs'], [('counting', 'src/buffer.rs start'), ('announcing', 'src/motion.rs motion (MotionNotifications)')],
     AI, 'A first pass learns what each channel inside the buffer carries; the second follows the level as a linear term over any number of messages.' + TRUST)

prop('C20', 'What a component holds back is bounded, except in a buffer',
     'Every queue that a faucet, launch, junction or regulator sends into, and every other queue a component creates for itself, has a fixed size (the one the component was given), so that a component whose output is not taken waits and makes what comes before it wait. A buffer is the exception: the queue inside it is unbounded, so that a buffer goes on taking its input however little of its output is taken.',
     ['inputs', 'schedules', 'configurations'], 'for every amount of data and every relative speed of the components',
     'Bounded and unbounded queues behave alike until more data is waiting than a test ever sends.',
     ['src/buffer.rs', 'src/launch.rs', 'src/junction.rs', 'src/faucet.rs', 'src/regulator.rs'], [('outputs', 'add_output of every component'), ('inside a buffer', 'src/buffer.rs start'), ('queue sizes', 'set_stdout_size')],
     'effect analysis by path-sensitive abstract interpretation of the MIR: the size of every queue created', 'Every channel a component creates between its construction and its end is checked, for every kind of component; a first pass over the buffer finds which of its channels carries the messages.' + TRUST)
prop('C21', 'Components run side by side and never hold each other up',
     'All components of a running pipeline, and the managers of its regulators, are started together: none has to finish before another is started. Feeding a program and reading its output and error output happen side by side, as do the two halves of a buffer. A running component never makes a call that blocks the thread all components share, and one that finds nothing to do gives the others a turn before it looks again.',
     ['schedules', 'configurations', 'inputs'], 'for every pipeline, every amount of data and every schedule',
     'With the small amounts of data that tests use, components that run one after the other give the same result, and a blocked thread only makes them slower; the deadlock needs full pipes or two components that depend on each other.',
     ['src/waiter.rs', 'src/launch.rs', 'src/buffer.rs', 'src/junction.rs', 'src/back_off.rs', 'src/drain.rs', 'src/faucet.rs'], [('starting everything', 'src/waiter.rs start'), ('streams of a program', 'src/launch.rs start'), ('halves of a buffer', 'src/buffer.rs start'), ('waiting for work', 'src/back_off.rs wait')],
     'call-graph effect analysis (blocking calls) and abstract interpretation of the MIR with a fork/join monitor', 'Two components of each kind and a managed regulator; all functions reachable from start are searched for blocking calls, through trait objects and closures too.' + TRUST)
prop('C31', 'A running component never panics',
     'Whatever messages, ends, errors, closed outputs and control signals a component meets after it has been started, it does not panic: no index is out of range, nothing that is absent is unwrapped, no counter underflows.',
     ['schedules', 'inputs', 'fault_sequences'], 'for every sequence of messages, ends, read and write errors, closed outputs, and control signals',
     'The tests meet no errors while running and only a few orders of ends.',
     ['src/motion.rs', 'src/junction.rs', 'src/regulator.rs', 'src/buffer.rs', 'src/faucet.rs', 'src/drain.rs', 'src/launch.rs', 'src/waiter.rs'], [('bookkeeping of inputs', 'src/junction.rs iteration'), ('counting', 'src/buffer.rs total_in_buffer'), ('cutting at line ends', 'src/motion.rs motion_read_buffer'), ('managing a regulator', 'src/waiter.rs manage_regulator_from_buffers')],
     'path-sensitive abstract interpretation of the MIR to a fixpoint, looking for reachable panics', 'The scenarios of C01-C06, C09, C22-C24 and C29 again, with every outcome of every read, write, send and receive; a panic counts when the path to it is exact.' + TRUST)

prop('C07', 'The pipeline that is built is the one described',
     'For a description without faults, the pipeline consists of exactly one component for every kind and name that its connections mention, set up with the source, destination, command, marks and monitored buffers configured under that name. Two components are connected exactly where one follows another in a connection set, on the output port, with the input priority and with the way of closing that the description gives for that place, and the names later used in error messages are those of the two. A description for which this cannot be done (a launch without a configuration or command, a port that the component refuses, a buffer monitored by two regulators) gives an error and no pipeline.',
     ['configurations', 'inputs'], 'for every connection set shape (all chains of the component kinds, shared and repeated names, loops, forks), with every port, priority, way of closing and setting symbolic',
     'The tests build a handful of pipelines; a port, priority or name that gets mixed up for one combination of kinds is not met.',
     ['src/waiter.rs', 'src/config.rs'], [('building', 'src/waiter.rs get_waiter'), ('joining two components', 'src/waiter.rs Waiter::join'), ('names of numbers', 'src/waiter.rs get_id_to_component_type_name')],
     'abstract interpretation of the MIR: the component operations performed by get_waiter are compared with the described graph', 'All chains of up to four components (five in thorough), pairs of sets that share a component, and six larger graphs, 700 in all; ports, priorities, ways of closing and settings are symbolic, names are representatives (the code only compares and copies them).' + TRUST)
prop('C08', 'A launch runs exactly the program configured',
     'Starting the pipeline starts, for every launch, one program: the configured command, with exactly the configured arguments in order, with exactly the configured variables set on top of those inherited, in the configured directory when there is one and in the current directory otherwise. What is configured for one launch never reaches another.',
     ['configurations', 'inputs'], 'for every command, directory, list of arguments and set of variables (the texts are symbolic)',
     'The tests launch a few programs with the arguments at hand.',
     ['src/launch.rs', 'src/waiter.rs'], [('starting a program', 'src/launch.rs start'), ('taking over the settings', 'src/waiter.rs get_waiter, add_launch')],
     'abstract interpretation of the MIR from get_waiter through start; the process-builder calls are collected and compared', 'Up to three arguments and two variables (four and three in thorough), with and without a directory, one and two launches.' + TRUST)
prop('C13', 'Every failure is reported by name and makes the exit status non-zero',
     'If any components fail while a pipeline runs, every one of their errors is printed to standard error exactly once, with the name of a component it concerns and what went wrong, and pipeawesome exits with a non-zero status; so it does when the request is bad or the pipeline cannot be built. If nothing fails, nothing is printed there and the exit status is zero. Different failures have different texts.',
     ['fault_sequences', 'schedules', 'configurations'], 'for every subset of failing components and every kind of error',
     'The tests make at most one thing fail; that a second error, or one of a kind never met, is reported under the right name is not exercised.',
     ['src/waiter.rs', 'src/bin/pa2.rs', 'src/bin_support.rs'], [('collecting errors', 'src/waiter.rs start'), ('texts', 'src/bin_support.rs waiter_error_to_string'), ('the outcome', 'src/bin/pa2.rs main')],
     'abstract interpretation of the MIR with every combination of failing components; taint-like tracking of each error value to the message', 'Pipelines with every component kind, two of each, any subset failing; every variant of the error types; main with none to three errors.' + TRUST)
prop('C14', 'Faulty descriptions are refused with their faults, sound ones are answered',
     'A request to process, draw, check or rewrite a description never panics. If the description has a fault that matters for the request (a connection text that cannot be parsed, a component in the connections that has no configuration, a monitored buffer that is in no connection, for rewriting and processing a connection set that is not a sequence from a start to an end, for checking also a configured component that is in no connection), the request is refused with an error that names everything at fault. Otherwise the answer holds the description with all connection texts parsed.',
     ['configurations', 'inputs'], 'for every combination of faults in every kind of component and of connection set',
     'The tests have one faulty file.',
     ['src/bin/pa2.rs', 'src/config.rs', 'src/config_manip.rs'], [('deciding', 'src/bin/pa2.rs process_user_config_action'), ('finding faults', 'src/config.rs lint, convert_connections'), ('faulty sets', 'src/config_manip.rs broken_connection_sets')],
     'abstract interpretation of the MIR of the request handling, compared with an independent statement of the faults', '317 descriptions and their repaired variants (every combination of configured / used / both / neither for four kinds, monitored buffers present or not, the same name for several kinds, connections as text or as lists, unparsable texts); names are representatives, everything else is symbolic. The grammar of connection texts itself is stood in for (see C28).' + TRUST)
prop('C15', 'The lint finds exactly the faults of a description',
     'The lint reports a component that is configured but is in no connection, a faucet, drain, launch or regulator that is in a connection but not configured, a buffer that a regulator monitors but that is in no connection, and a connection text that cannot be parsed: each with its kind and name, every one, and nothing else.',
     ['configurations'], 'for every combination of configured and connected components of every kind',
     'The tests have two descriptions.',
     ['src/config.rs'], [('finding faults', 'src/config.rs lint')],
     'abstract interpretation of the MIR, compared with an independent statement of the faults', '317 descriptions: every combination of configured / used / both / neither for the four kinds that need configuration, names shared between kinds, monitored buffers, connections as text or lists.' + TRUST)
prop('C16', 'Editing a configuration changes the named setting and nothing else',
     'A request to set the command, directory, arguments or variables of a launch, the source of a faucet, the destination of a drain, the watermarks of a regulator or a connection changes exactly that setting of exactly that component to exactly the value given, adding the component if it is not there; every other component, setting and section comes out as it went in. Nothing but the resulting configuration is written to standard output. If the configuration cannot be read, that is the error and nothing is written.',
     ['inputs', 'configurations', 'histories'], 'for every configuration (all other settings symbolic), every name and every value',
     'The tests do not edit; any loss of another setting shows only with particular configurations.',
     ['src/bin/pa2.rs', 'src/config.rs'], [('changing', 'src/bin/pa2.rs process_user_config_action'), ('printing', 'src/bin/pa2.rs main')],
     'abstract interpretation of the MIR of the request handling over a symbolic configuration; frame condition on the result', 'Each of the eight requests, for a component that exists and for one that does not, between two others; every setting is its own symbol.' + TRUST)
prop('C26', 'Rewriting a description keeps what it connects',
     'When a description is processed, junctions are put in where several connections leave one output or enter one input, and a drain that throws everything away takes the exit status of each launch that connects its own nowhere. Apart from that the result connects exactly what was described: data from an output of a component reaches the components that the description connects it to, each once per described connection and no other ones; the priority and the way of closing of a connection stay where its data meets other data; the added links that several connections share finish quietly. Every output, and every input of anything but a junction, is then connected once. No setting is lost. Names that are added never collide with names in the description. The rewritten form that is printed on request connects the same, without additions.',
     ['configurations'], 'for every description: every shape of sharing of outputs and inputs between all kinds of component, with symbolic priorities and ways of closing',
     'The tests rewrite a few small descriptions; sharing of an output and an input by the same connection, cycles, exits that are connected, and names like those the rewriting chooses are not met.',
     ['src/config_manip.rs', 'src/bin/pa2.rs'], [('pairs', 'src/config_manip.rs rebuild_pair_up_connections_folder'), ('junctions', 'src/config_manip.rs add_junctions'), ('exit statuses', 'src/config_manip.rs identify_required_spies_for_launch_exits, add_launch_exit_spies')],
     'abstract interpretation of the MIR of the rewriting; the resulting graph is compared with the described one route by route', 'About 920 descriptions: every pair of connections (among 49) that share a component, triples among 12, sets of up to four components that share, colliding names. Hash maps are walked in one order.' + TRUST)

prop('C30', 'A command line is taken as what it says',
     'Every command that the command line offers does something, and is taken as exactly that: process, graph, config lint, config manipulate, and the changes of a faucet, drain, regulator, connection or launch. What it works on is what was given: the component named by --id, the value or all the values of the command in the order given, the variables NAME=VALUE split at the first =, the last of two of the same name, whole numbers for watermarks, the kind of drawing asked for. The description is read from the file named with --config, from standard input for - or when none is named, in the format given, otherwise in YAML or what the name says. What is missing, unknown, no number, no NAME=VALUE or cannot be read is an error and not something else; an error about a file names it. No command line ends in a panic.',
     ['inputs', 'configurations'], 'for every command with every combination of options and for every value',
     'No test goes through the command line of the manipulating commands.',
     ['src/bin/pa2.rs', 'src/config_io.rs'], [('what is offered', 'src/bin/pa2.rs get_clap_app'), ('what is made of it', 'src/bin/pa2.rs get_user_config_action'), ('reading', 'src/config_io.rs read_config')],
     'abstract interpretation of the MIR of the code that declares the command line (the declaration is the value it builds) and of the code that reads what was given; compared with an independent table of commands', 'About 620 command lines: every command, every option given or not, symbolic and awkward values; clap is modelled by what it documents (declared values, defaults, counts, positions). Two commands that are offered but not handled are known findings.' + TRUST)

prop('C28', 'A connection text means the components, ports and ways of closing that are written in it',
     'A connection written as text, such as "faucet:a | [5]launch:b[E] |C| junction:c | drain:d", is read as exactly the components written, in that order: of the kind written in full or as its first letter; with the name written, of letters, digits and underscores; with the priority in front in brackets, negative ones too, and 0 when there is none; with the output O, E or X behind in brackets and the normal output when there is none; and each closing its input as the pipe in front of it says, |T|, |C| or |F|, and terminating for a plain pipe. Spaces around pipes do not matter and any number of components may follow one another. A text that is not of this form is refused as a whole, none of it being used.',
     ['inputs', 'configurations'], 'for every text of that form and every other text',
     'The tests read a handful of texts.',
     ['src/config.rs'], [('reading a text', 'src/config.rs load_connection_from_string'), ('ways of closing', 'src/config.rs convert_to_input_breakable')],
     'abstract interpretation of the MIR of the generated parser and of what uses it; compared with an independent statement of what each text says', '2800 texts: every kind, priority, output and pipe together at the first, middle and last place, every ASCII character at every place where one decides, names that are words of the grammar, spaces, up to 12 components, malformed texts. Texts are exact, not symbolic: the parser compares characters with constants and copies names, so the texts stand for the classes they are taken from; longer texts only repeat rules.' + TRUST)

prop('C27', 'A drawing shows the pipeline that is configured, in a form Graphviz can read',
     'The graph command prints one drawing that Graphviz can read, whatever the names of components and connection sets are. The drawing of the pipeline has exactly one node for every component that takes part in a connection, named like it and looking the way the legend gives for its kind, also if components of different kinds share a name; exactly one arrow for every connection described, in its direction, whose label tells which output it leaves (none for the normal one), even if several connections join the same two components; and every component stands in the box of a connection set it takes part in, one box for each set, except that a junction at the beginning or end of its set may stand outside. The legend shows each of the six kinds, no two alike, with or without a border as asked; and each of legend and pipeline is drawn exactly when it was asked for.',
     ['configurations', 'inputs'], 'for every configuration and way of asking for a drawing',
     'Drawing is not tested at all.',
     ['src/graph.rs', 'src/bin/pa2.rs', 'src/config.rs'], [('what is drawn', 'src/graph.rs get_diagram'), ('connections', 'src/graph.rs convert_connection_to_graph_connection'), ('the legend', 'src/graph.rs get_legend'), ('which parts', 'src/bin/pa2.rs main')],
     'abstract interpretation of the MIR from the answer to the request for a drawing to the DOT printer; the value handed to the printer is read by the rules of the DOT language and compared with the configuration', '160 configurations: every two kinds and output, chains of all kinds cut into connection sets at every place, loops, joins, several connections between the same two, equal names, up to 14 components or 12 sets, and names that mean something to Graphviz. The configurations are exact. The DOT printer is trusted to write what it is given.' + TRUST)

prop('C32', 'Whoever watches a pipeline is told of everything that is passed on, and changes nothing',
     'When a pipeline is started with a watcher (a sender of spy messages), every faucet, launch, junction, buffer and regulator in it tells the watcher of each message it passes to one of its outputs: once, after it has been passed and before the next one is, with the source, destination and output of that connection and the message itself; nothing is left out because the watcher is slow. Nothing is told of that was not passed on there, except a message thrown away because an output that is to finish or consume was closed. That a connection has finished is told only once an input of its component has ended, and for every connection still open when its component finishes normally. What is passed on is the same as without a watcher.',
     ['schedules', 'faults', 'inputs'], 'for every schedule, every failure of the surroundings and every input',
     'The tests look at the spy messages of two or three short fixed runs.',
     ['src/motion.rs', 'src/junction.rs', 'src/launch.rs', 'src/waiter.rs'], [('telling', 'src/motion.rs motion_worker'), ('exit status', 'src/launch.rs start'), ('handing on the watcher', 'src/waiter.rs start')],
     'abstract interpretation of the MIR of each component with a watcher, over all outcomes of its channels and I/O; every message to the watcher is compared with what was passed on just before, and the rules of C01, C03 and C06 are checked again', 'Junctions with up to 2 inputs or 2 outputs (they are alike). What happens to a pipeline whose watcher goes away is not stated.' + TRUST)

prop('C17', 'A description that is written out and read back is the same, and settings go by their names',
     'A description that is written out (by processing or by changing a configuration) can be read again and is then the same description: every section, component, setting and connection, with the order of arguments and connections, priorities, outputs, ways of closing, sets and texts. A setting is read under its name (cmd, path, env, arg; source; destination; buffered, monitored_buffers; connection as a text or as a list of component_type, component_name, priority, breakable, output_port, connection_set; kinds, outputs and ways of closing in small letters). What is left out stands for nothing: no component, no arguments, no variables, the current directory, nothing monitored; a drain without a destination writes to standard output and a connection that does not say how it is closed ends by "terminate". What is needed and missing, or of another kind, is refused and not taken as something else.',
     ['inputs', 'configurations'], 'for every description',
     'One test reads two fixed descriptions; none reads back what was written.',
     ['src/config.rs', 'src/connectable.rs'], [('sections and components', 'src/config.rs Config, LaunchConfig, FaucetConfig, RegulatorConfig, DrainConfig'), ('connections', 'src/config.rs Connection, DeserializedConnection; src/connectable.rs InputPort, OutputPort, Breakable')],
     'abstract interpretation of the MIR that serde generates for each type of the description (or that is written by hand), instantiated for a tree of values: what writes and what reads are run after each other on descriptions with unknown texts, and the result must be what was written; trees under the stated names must be read as what they stand for', 'The texts are unknown values; numbers, and how many components, arguments or connections there are, are taken from small ranges (each is treated like the others). The step between the tree of values and characters is that of serde_json and serde_yaml, and is trusted.' + TRUST)

na('C90', 'A pipeline with finite input always ends', 'Whenever all outside inputs end and every program ends when its input ends, the whole run ends.',
   ['schedules', 'configurations', 'inputs'], 'for every configuration and schedule', 'The tests run a few acyclic pipelines.', ['src/waiter.rs'], [('running everything', 'src/waiter.rs start')],
   'Liveness: with loops and bounded channels it depends on how much data the user\'s programs produce for what they read, which no static argument over this source bounds (a loop of programs can genuinely fill all channels). The parts that are safety properties are claimed separately (C05, C20, C21).')
na('C91', 'Order of messages arriving over different branches', 'Messages that left a component over two branches and meet again arrive in a deterministic order.',
   ['schedules'], 'for every schedule', 'Tests compare sorted output.', ['src/junction.rs'], [('polling inputs', 'src/junction.rs')],
   'Not guaranteed by the design: it depends on scheduling and on the user\'s programs.')
na('C92', 'Waiting times stay short', 'A junction or buffer that has nothing to do looks again within a bounded time and uses little processor time while idle.',
   ['schedules'], 'for every history of idle and busy periods', 'Not measured.', ['src/back_off.rs'], [('increasing sleeps', 'src/back_off.rs')],
   'A quantitative timing property of the runtime and the machine; nothing in the source bounds it soundly.')


def main():
    import importlib
    import main as M
    T = M.table()
    claimed = [x for x in P if x[0]['id'] in T]
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for d, _, _ in claimed:
            f.write(json.dumps(d) + '\n')
        for d, _ in NA:
            f.write(json.dumps(d) + '\n')
    man = dict(version=1, setup_cmd='python3 pa/dump.py',
               checks=[dict(property=d['id'], quick_cmd='./check %s quick' % d['id'], thorough_cmd='./check %s thorough' % d['id'],
                            evidence_file='evidence/%s.json' % d['id'], technique=t, level='other', level_note=n) for d, t, n in claimed],
               not_applicable=[dict(property=d['id'], reason=r) for d, r in NA],
               notes='All checks share one extractor (driver/, a rustc driver that writes the type-checked MIR of the current /repo source) and one abstract interpreter (pa/). No hooks are needed in /repo. Nothing of /repo is executed.')
    json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    print('claimed', [d['id'] for d, _, _ in claimed], 'not built', [d['id'] for d, _, _ in P if d['id'] not in T])


if __name__ == '__main__':
    main()
