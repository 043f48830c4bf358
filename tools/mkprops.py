#!/usr/bin/env python3
"""Writes properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=False, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": r} for n, r in mech], "observe_at": [observe], "hook_needed": ("set the identifier counter near the wrap" if hook else None)}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("N01", "Network output is the dataflow of its current wiring",
  "At every sample, what a network outputs is what its current wiring says: each node reads exactly the sources wired to its inputs (another node's output, a network input, or zero), runs exactly once per sample after everything it reads from, and the network outputs read the sources wired to them. This holds after any sequence of edits and for any way of splitting the stream into single samples and blocks.",
  ["histories", "inputs", "configurations"],
  "Every acyclic graph reachable by any edit sequence, every input signal, every split of the stream into ticks and blocks.",
  "The tests build a dozen fixed graphs; the result depends on the whole edit history (evaluation order, cached source vertices, index rewrites).",
  ["src/net.rs", "src/vertex.rs"],
  [("Net::determine_order", "topological order"), ("Net::tick_2/process_2", "evaluation"), ("Vertex::update_source_vertex", "fast path for single source")],
  "Net as AudioUnit: tick/process output", state=[("vertex", "nodes with unit, sources and output buffer", "src/net.rs Net"), ("output_edge", "sources of global outputs", "src/net.rs Net")])
p("N02", "Network edits change exactly what they say; node ids stay valid",
  "Each network edit (adding, removing, replacing, connecting, disconnecting, piping, chaining, passing through, removing with linking) has exactly its documented effect on the wiring and leaves every other connection, node and node state alone. Node identifiers stay valid until their node is removed, are never reused, and queries about nodes, sources, sizes and arities always agree with the edits made so far.",
  ["histories", "programs"],
  "Every sequence of edits and queries on a network.",
  "Tests check a few hand-written edit sequences; index rewriting on removal depends on the position of the removed node and on the rest of the graph.",
  ["src/net.rs"],
  [("Net::remove_2", "removal and index rewrite"), ("Net::connect/pipe_*/chain", "wiring edits"), ("node_index map", "id to index")],
  "Net public query methods (source, output_source, contains, ids, size, inputs_in, outputs_in, node, vertex) and audio output")
p("N03", "A cycle is reported exactly while it exists",
  "After any sequence of edits a network reports the cycle error if and only if its wiring currently contains a directed cycle among its nodes. Breaking the cycle clears the error and makes the network play according to its wiring again, with all node state retained.",
  ["histories", "programs"],
  "Every edit sequence that creates and breaks cycles, in any order, including through removal and output wiring.",
  "Tests check one cycle in one graph; detection depends on order of edits, laziness of recomputation and leftovers from the failed order.",
  ["src/net.rs"],
  [("Net::determine_order", "depth-first order with cycle detection"), ("Net::error", "error query"), ("NetError::Cycle", "reported error")],
  "Net::error() and audio after the cycle is broken")
p("N04", "Graph operators mean the same in static, dynamic and mixed form",
  "For any expression built from units with the graph operators (pipe, stack, branch, bus, sum, difference, product, thru, negation and the scalar forms), the network form computes the same channels in the same order, has the same numbers of inputs and outputs, and delivers the same samples as the algebraic meaning of the operator and as the statically typed form. Combining two networks keeps both operands' node identifiers valid in the result.",
  ["programs", "inputs"],
  "Every operator expression up to bounded depth over generators, filters and mixers of various arities, every input.",
  "Tests compare a dozen expressions; rewiring on combination depends on arities, pass-through outputs and shared sources of both operands.",
  ["src/net.rs", "src/audionode.rs", "src/combinator.rs", "src/audiounit.rs"],
  [("Net::bin_op/pipe/stack/bus/branch", "network operators"), ("Binop, Unop, Pipe, Stack, Branch, Bus, Thru", "static operators")],
  "tick/process output, inputs(), outputs() of both forms")
p("N05", "Commits move the backend to the frontend's graph without losing state",
  "Whatever the interleaving of frontend edits, settings and commits with backend rendering, the backend renders, from the first sample after a commit was sent, exactly the frontend's graph at that commit, and before it exactly the previously committed graph. Units that survive an edit keep their state and position, replaced units start from their own state, and several commits or settings delivered together have the same effect as if delivered one by one in the order sent.",
  ["schedules", "histories"],
  "Every interleaving of edit/setting/commit calls with rendering calls, any number of pending commits up to channel capacity.",
  "Tests commit a few times from one schedule; correctness depends on what is pending, what was rendered in between and which revision each node was changed in.",
  ["src/net.rs", "src/realnet.rs", "src/vertex.rs"],
  [("Net::commit", "sends a version"), ("NetBackend::handle_messages", "adopts versions and settings"), ("Net::migrate", "carries units over")],
  "NetBackend output", state=[("revision", "commit counter used to decide migration", "src/net.rs Net"), ("changed", "revision in which a vertex was last replaced", "src/vertex.rs Vertex")])
p("N06", "Crossfades go from old to new unit over the stated time; last update wins",
  "Replacing a unit with a crossfade in a network node or in a slot mixes the old unit (faded out) with the new (faded in) sample by sample along the chosen fade curve for the stated time and then plays the new unit alone. While a fade is under way only the most recent further replacement is kept and it starts at the first rendering call after the fade ended; a reset of a slot jumps straight to the newest unit, while a reset of a network restarts all units involved and lets the fade go on.",
  ["schedules", "histories", "inputs"],
  "Every sequence of replacements with any fade shapes and times, at any moment of a running fade, every block split.",
  "Tests crossfade once between two constants; the queueing of updates depends on when they arrive relative to running fades and block boundaries.",
  ["src/slot.rs", "src/vertex.rs", "src/net.rs"],
  [("SlotBackend::handle_messages/next_phase", "slot fade queue"), ("Vertex::enqueue/next_phase", "node fade queue")],
  "SlotBackend, Net and NetBackend output")
p("S01", "Sequencer events sound exactly in their time window",
  "The sequencer's output is at each sample the sum over events of the event's own stream, started from its first sample at the (rounded) start time, multiplied by its fade-in and fade-out curves, and ended at the (rounded) end time; outside its window an event contributes nothing and is not run. This holds for absolute and relative start times, and for every split of the stream into ticks and blocks.",
  ["histories", "inputs", "configurations"],
  "Every set of events (start, end, fades, shapes) pushed at any time, every block split, several sample rates.",
  "Tests compare a handful of random sequences with coarse tolerance and only whole-block rendering; off-by-one sample windows and fades that straddle block edges are not sampled.",
  ["src/sequencer.rs"],
  [("Sequencer::process/tick", "activation, mixing, expiry"), ("fade_in/fade_out", "envelopes"), ("Sequencer::push*", "scheduling")],
  "Sequencer output", state=[("time", "stream time", "src/sequencer.rs Sequencer"), ("ready/active/past", "event life cycle", "src/sequencer.rs Sequencer")])
p("S02", "Sequencer edits, reset and rate changes act on exactly the named events",
  "Editing an event (absolute or relative) moves the end and fade-out of that event and no other, whether it has not started yet, is sounding or has ended. Reset rewinds to time zero: with replay every event ever pushed plays again as currently edited, without replay all events are gone; time queries always tell the samples rendered since.",
  ["histories"],
  "Every sequence of pushes, edits, resets and rendering.",
  "Tests edit one event once; the effect depends on the life-cycle stage of the event when the edit arrives and when it is applied.",
  ["src/sequencer.rs"],
  [("Sequencer::edit/edit_relative", "edit map and active edits"), ("Sequencer::reset", "replay")],
  "Sequencer output and time()")
p("S03", "Sequencer backend behaves as the direct sequencer would",
  "A sequencer controlled through its frontend while the backend renders produces the same audio as the plain sequencer given the same calls in the same order, each call taking effect at the first rendering call that follows it. Calls that arrive together take effect in the order they were made, including resets.",
  ["schedules", "histories"],
  "Every interleaving of frontend calls (push, relative push, edit, reset) with backend rendering, any number pending.",
  "The tests have one straight-line use of the backend; ordering of pending messages around reset and relative times is never exercised.",
  ["src/sequencer.rs", "src/realseq.rs"],
  [("SequencerBackend::handle_messages", "applies pending calls"), ("Message", "call encoding")],
  "SequencerBackend output")
p("R01", "The audio side never frees units; each is freed exactly once by the frontend",
  "Within the documented queue capacities, no call on a network backend, sequencer backend or slot backend drops an audio unit or network handed to it; units that are replaced, expired or superseded travel back and are freed on the frontend. Every unit is freed exactly once and none is leaked when both halves are dropped.",
  ["schedules", "histories"],
  "Every interleaving of frontend and backend calls with fewer pending messages than the queues hold.",
  "No test observes where or how often a unit is dropped.",
  ["src/realnet.rs", "src/realseq.rs", "src/slot.rs", "src/net.rs", "src/vertex.rs", "src/sequencer.rs"],
  [("NetReturn/SlotMessage::Return/Option<Event> channels", "return path")],
  "Drop of instrumented units supplied by the caller")
p("A01", "Rendering allocates and frees no memory once it is allocated in advance",
  "Once `allocate` has been called on a unit or graph of any shape, rendering it (sample by sample or in blocks, for however long) and resetting it neither allocate nor free heap memory, until its sample rate or a setting is changed or it is copied. The backends of networks, sequencers and slots are real-time safe the same way: whatever the frontend sends over (commits, crossfades, events, edits, slot updates at the current sample rate) within the documented capacities, rendering and resetting the backend neither allocate nor free memory; what is sent over has been allocated by the frontend.",
  ["histories", "schedules", "configurations"],
  "Every unit constructor of the preludes, every combinator over them, every history of rendering, allocation and reset, and every interleaving of frontend and backend calls.",
  "No test observes memory allocation; a missing call in one combinator shows as an occasional dropout, never as a wrong sample.",
  ["src/audionode.rs", "src/audiounit.rs", "src/dynamics.rs", "src/feedback.rs", "src/net.rs", "src/vertex.rs", "src/realnet.rs", "src/sequencer.rs", "src/realseq.rs", "src/slot.rs", "src/oscillator.rs"],
  [("AudioUnit::allocate / AudioNode::allocate", "preallocation"), ("Net::commit, Sequencer::push*, Slot::set", "allocation before sending")],
  "a counting global allocator, on the rendering thread, during rendering calls")
p("B01", "Block and sample-by-sample processing agree for every unit",
  "For every unit in the library, rendering a stream gives the same samples whether it is rendered one sample at a time, in blocks of any sizes up to the maximum, or in any mixture of the two, and through any of the processing adapters. A block of a given size writes exactly that many samples' worth of result on each output and consumes exactly that many from each input. (Agreement is up to rounding; wavetable oscillators may choose their bandwidth once per eight samples, so their frequency input is taken constant over a few samples, sampled controls read their input at the start of a segment, and the `update` system is stepped per block by design.)",
  ["schedules", "inputs", "configurations"],
  "Every unit constructor of the public prelude and the combinators over them, every partition of the stream.",
  "The tests compare one fixed partition scheme per unit for about a hundred fixed expressions with loose tolerance; most sizes that are not a multiple of the vector width, and mixtures, are not reached.",
  ["src/audionode.rs", "src/audiounit.rs", "src/oscillator.rs", "src/svf.rs", "src/biquad.rs", "src/filter.rs", "src/delay.rs", "src/envelope.rs", "src/dynamics.rs", "src/feedback.rs", "src/noise.rs", "src/wavetable.rs"],
  [("AudioNode::process implementations", "block paths"), ("BlockRateAdapter, BigBlockAdapter", "adapters")],
  "AudioUnit::tick and AudioUnit::process outputs")
p("B02", "Reset restores the initial state; clones are equal and independent",
  "For every unit in the library, after a reset the unit reproduces exactly the stream it produced when new at that sample rate, whatever it processed before. A clone continues exactly as the original would have, and from then on neither influences the other; allocation in advance changes nothing audible.",
  ["histories", "inputs", "configurations"],
  "Every unit constructor of the public prelude, every history of processing, reset, cloning and rate changes.",
  "The tests reset each of their fixed expressions once after one fixed history.",
  ["src/audionode.rs", "src/audiounit.rs", "src/net.rs", "src/sequencer.rs", "src/oscillator.rs", "src/noise.rs", "src/envelope.rs", "src/delay.rs", "src/reverb.rs"],
  [("AudioNode::reset implementations", "state reset"), ("Clone implementations", "state copy"), ("ping/set_hash", "deterministic phases")],
  "AudioUnit outputs")
p("D01", "Delays and feedback loops delay by exactly their stated time",
  "The fixed delays output their input exactly the stated number of samples (rounded to the nearest) later and zero before; taps read the input at the requested, clamped, possibly fractional delay; feedback loops add the loop's output of exactly one sample, or the stated delay plus nothing else, ago. This holds for every history, block split, delay length and sample rate, and resets clear everything in flight.",
  ["inputs", "histories", "configurations"],
  "Every delay length (including zero, one and lengths around the block size), every input and block split, several sample rates.",
  "Tests check one or two delay lengths; ring buffer wrap-around and the switch between block and sample paths depend on length, rate and partition.",
  ["src/delay.rs", "src/feedback.rs", "src/audionode.rs"],
  [("Delay/Tap/TapLinear/Tick", "ring buffers"), ("Feedback/Feedback2/FeedbackUnit", "loop state")],
  "Unit outputs")
p("D02", "The limiter delays by its look-ahead, never amplifies and never overshoots",
  "The look-ahead limiter outputs its input delayed by exactly its attack time, scaled by one gain common to all channels that is never above one; signals that stay below the threshold pass unchanged. Its output never exceeds full scale (for a look-ahead of at least 16 samples and a release no shorter than the attack), and the reported latency equals the actual delay.",
  ["inputs", "histories", "configurations"],
  "Every input signal (silence, bursts, steps, alternating peaks), attack and release times, channel counts, histories with resets and rate changes.",
  "A test renders one wave and checks its peak; start-up from silence and window wrap-around are not sampled.",
  ["src/dynamics.rs", "src/follow.rs"],
  [("ReduceBuffer", "windowed maximum"), ("Limiter::tick", "delay and gain")],
  "Limiter output, ReduceBuffer::total, latency()")
p("M01", "Shared controls, timers and monitors show the right value at the right sample",
  "A shared variable reads the last value set, and every node outputting it gives that value for every sample rendered until it changes; shared tables likewise. A timer shows the rendered stream time, and monitors and meters pass audio through unchanged while showing the summary of exactly the samples rendered so far since reset.",
  ["histories", "schedules", "inputs"],
  "Every sequence of sets, reads, renderings, resets and clones; every block split.",
  "Tests set a variable once and read it once.",
  ["src/shared.rs", "src/dynamics.rs"],
  [("Shared/Var/VarFn", "atomic cell"), ("Timer", "time counter"), ("Monitor/MeterNode", "level summary")],
  "Shared::value and unit outputs")
p("F01", "Snoops and ring buffers deliver the stream in order, whole and once",
  "The snooping frontend receives the backend's input in order, in full buffers, each sample at most once and none lost while the queue has room, with the reverse index always giving the latest samples first and the counter telling how many were received; the snooped audio itself passes unchanged. A ring buffer source plays frames in the order sent, each once, and zeros while empty.",
  ["schedules", "histories", "inputs"],
  "Every interleaving of producing and consuming, any block split, capacity and overflow.",
  "Tests poll once after one rendering.",
  ["src/snoop.rs", "src/ring.rs"],
  [("SnoopBackend", "buffer and send"), ("Snoop::get/at", "reverse ring"), ("Ring::tick", "receive or zero")],
  "Snoop::at/total/get, Ring output")
p("G01", "A setting reaches exactly the addressed node, in order",
  "A setting sent to a composite (operators, stacks, buses, chains, networks, listeners) changes the parameter of exactly the node its address names, or nothing if the address names none. Settings sent to a listener take effect in the order sent, before the next rendered sample.",
  ["programs", "histories"],
  "Every nesting of operators up to the supported address depth, every address, every sequence of settings.",
  "The tests send a handful of settings to a handful of expressions.",
  ["src/setting.rs", "src/audionode.rs", "src/combinator.rs", "src/net.rs", "src/realnet.rs"],
  [("Setting::peel/direction", "addressing"), ("AudioNode::set implementations", "routing"), ("SettingListener", "queue")],
  "Unit outputs after settings")
p("I01", "Identifiers are never handed out twice",
  "Node and event identifiers generated in one process are all different, no matter how many threads create them or how their steps interleave, and also when the generator's low part wraps around, provided no single request stays suspended while (nearly) a whole cycle of the low part is handed out to others.",
  ["schedules"],
  "Every interleaving of identifier creation in several threads, including around the wrap of the low word.",
  "No test creates identifiers from several threads or near the wrap.",
  ["src/shared.rs", "src/net.rs", "src/sequencer.rs"],
  [("IdGenerator::get_id", "two-word atomic counter")],
  "NodeId::new, EventId::new", hook=True)
p("U01", "Sample buffers behave as plain channel-by-sample memory",
  "Every view of a sample buffer (owned, array, mutable, immutable, subset, vector or scalar access) reads what was last written at that channel and sample and writes nothing else. Resizing and clearing keep or zero exactly the documented samples.",
  ["histories", "inputs"],
  "Every sequence of reads and writes through every kind of view, subset and access width.",
  "Tests use buffers only indirectly.",
  ["src/buffer.rs"],
  [("BufferVec/BufferArray/BufferMut/BufferRef", "views with index arithmetic")],
  "Buffer accessors")
p("L01", "Reported latency is the real latency of the signal path",
  "The latency reported for a graph is, along its fastest path, the number of samples by which the graph actually delays its input (fixed look-ahead and block delays counted, tuned delays not), adding up in series and taking the minimum in parallel (constants have none), identically for static and network forms. Rendering with latency compensation removes exactly that many samples, at the rate being rendered.",
  ["programs", "configurations"],
  "Every composition of latency-bearing and latency-free units, several sample rates.",
  "Tests check about ten fixed expressions at one sample rate.",
  ["src/signal.rs", "src/audiounit.rs", "src/wave.rs", "src/net.rs", "src/audionode.rs"],
  [("Signal::combine_linear/delay/filter", "latency algebra"), ("AudioUnit::latency", "query"), ("Wave::render_latency", "compensation")],
  "latency(), render_latency/filter_latency results")
p("Q01", "Reported frequency response is the actual response of the graph",
  "The frequency response a graph reports for an output, where it is linear, equals the spectrum of what that output makes of an impulse on all inputs: filters at their current parameters, settings and sample rate, multiplied in series and added in parallel through every operator, identically for static and network forms. Graphs in which an input passes through a nonlinearity report none. (Filters with parameter inputs know their parameters from the first sample played on; limiters, resynthesis, oversampling and resonators of the rez kind may report anything or nothing.)",
  ["programs", "configurations"],
  "Every composition of linear filters and operators, every frequency, several sample rates, after settings and after being played.",
  "Tests compare single filters and a few compositions at the default sample rate.",
  ["src/signal.rs", "src/audiounit.rs", "src/filter.rs", "src/svf.rs", "src/biquad.rs", "src/fir.rs", "src/follow.rs", "src/delay.rs", "src/net.rs", "src/audionode.rs"],
  [("AudioNode::route", "per-node response"), ("Signal::combine_linear/filter", "response algebra"), ("Net::route", "propagation in evaluation order")],
  "response(), response_db()")
p("E01", "Envelopes follow their function; live ADSR follows its gate",
  "A sampled envelope equals its control function at its sampling points and is linear in between, advancing with stream time at any sample rate. The live ADSR rises, decays, sustains, releases and restarts exactly in response to its gate input, each instance independently, and its output stays between zero and one.",
  ["histories", "inputs", "configurations"],
  "Every gate sequence (including retrigger during release, release during attack), parameters, sample rates and block splits.",
  "Tests only check that an ADSR compiles and one envelope's endpoints.",
  ["src/envelope.rs", "src/adsr.rs"],
  [("Envelope/EnvelopeIn::next_segment", "segment sampling"), ("adsr_live", "gate state machine")],
  "Unit outputs")
p("W01", "Wave editing is plain editing of sample arrays",
  "Every wave operation (adding, inserting, removing and mixing channels, appending, resizing, retaining a span, pushing frames, amplifying, normalizing, fading) changes exactly the documented samples; all channels always have the wave's length. Rendering and filtering produce exactly the unit's stream for the rounded number of samples.",
  ["histories", "inputs"],
  "Every sequence of operations with every offset, span and length, including empty waves and spans outside the wave.",
  "Tests use a few operations on one wave each.",
  ["src/wave.rs"],
  [("Wave methods", "array edits"), ("Wave::render/filter", "rendering loop")],
  "Wave accessors")
p("W02", "Wave playback and resampling read the wave in order",
  "A wave player plays the samples from its start to its end point in order, then either silence or, with a loop point, the span from loop point to end forever; reset restarts it. A resampler reads its source from the second sample on, moving by its speed input (never backwards) before each output: at unit speed it reproduces its source, at integer speed it decimates it, and in between it is the cubic interpolation of the four nearest source samples; each source sample is generated once.",
  ["histories", "configurations"],
  "Every start, end and loop point, every history of resets and block splits, several speeds.",
  "Tests do not cover looping or wrap-around.",
  ["src/wave.rs", "src/resample.rs"],
  [("WavePlayer::tick", "index and loop"), ("Resampler::tick", "interpolation buffer")],
  "Unit outputs")

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
for x in P:
    assert len(x["title"]) <= 80, x["id"]
print(len(P))
