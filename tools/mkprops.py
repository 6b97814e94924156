import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    assert len(title)<=80,title
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],observe_at=observe or ["host output buffer of AudioProcess::process"],hook_needed=hook))
    P.append(d)
G="src/realtime/"
p("C01","The running engine computes exactly the graph the program has wired up",
 "While the engine is started, every sample a host callback produces equals evaluating the node graph currently in force: each node input channel is the sum of every source channel mapped onto it by a current connection (each connection honouring its own source channel, destination channel and channel count), the system input is added to the inputs of the node last connected to it, and the output is what the node last connected to the output produces. Anything nothing feeds is silent, and channels, frames or nodes outside a connection never leak into it. This holds for every acyclic graph, for parallel connections with different channel mappings, and after any history of connecting, disconnecting, re-connecting, re-routing and dropping nodes, whatever internal processing order the engine happens to pick.",
 ["programs","schedules","histories","configurations"],"all acyclic wiring histories over all node kinds, channel mappings, host channel counts, block sizes, hash seeds and control/audio interleavings",
 "the tests wire at most a handful of nodes once, before audio runs, with one hash seed, and never re-wire a running graph or use parallel/partial connections",
 [G+"dsp_graph.rs",G+"graph.rs",G+"topological_sort.rs","src/graph/graph_node.rs","src/graph/assigned_buffer_pool.rs","src/buffer/buffer_pool.rs"],
 [("dependency-ordered evaluation",G+"topological_sort.rs sort"),("input mixing per edge",G+"dsp_graph.rs prepare_input/copy_output_from_dependencies"),("edge bookkeeping",G+"graph.rs add_edge/remove_edge"),("buffer hand-out and zeroing","src/buffer/buffer_pool.rs")],
 [("nodes, edges","the graph in force",G+"graph.rs"),("input/output endpoint","system I/O attachment",G+"dsp_graph.rs")])
p("C02","Dropping any node at any moment is safe and only removes that node",
 "A node may be dropped at any point of a program, in any order, while connected to other nodes, to the system input or output, while events or parameter changes are pending for it, and before, while or after the engine runs: no callback or control call panics because of it. From the first callback that begins after the drop the node contributes nothing, its connections are gone, and every other node and connection continues bit-for-bit as a graph without it would. Operations that name the dropped node through surviving handles (such as disconnecting from it) have no effect on anything else.",
 ["programs","schedules","histories","fault_sequences"],"all drop orders and drop points relative to connects, events, pending automation and callbacks",
 "no test drops a node while the engine is running or while it is connected; an assertion in the graph only fires then",
 [G+"graph.rs",G+"dsp_graph.rs","src/graph/graph_node.rs"],
 [("Drop sends a remove command","src/graph/graph_node.rs"),("node removal",G+"graph.rs remove_node"),("commands for unknown ids are ignored",G+"dsp_graph.rs")])
p("C03","The engine clock is exact and monotone, and start/stop gate everything",
 "The engine time read by the control side starts at zero, never decreases, only changes at callback completion and after each callback equals (frames processed while started) / sample rate. A callback that begins while the engine is not started (before the first start, or after a stop) writes silence, advances neither the clock nor any node's state, consumes no input and raises no notification; control calls made meanwhile are still applied. Starting again resumes every node and scheduled change exactly where processing left off, as if the stopped callbacks had not happened.",
 ["schedules","histories","fault_sequences"],"all interleavings of start/stop/time reads with callbacks of any size, stalls and device-loss gaps",
 "tests start once and never stop; none reads the clock concurrently with callbacks",
 [G+"processor.rs","src/engine/root.rs","src/utility/timestamp.rs"],
 [("started flag and clock update",G+"processor.rs process/update_position"),("shared atomic time","src/engine/root.rs current_time")],
 [("timestamp","shared engine time","src/engine/root.rs"),("frame_position","frames processed",G+"processor.rs")],
 ["Context::current_time from the control thread","host output buffer"])
p("C04","Output does not depend on how the host slices time into callbacks",
 "For a fixed program whose control actions carry explicit times (or are issued before processing starts), the samples produced, the recordings taken and the envelope notifications raised depend only on the input stream: splitting the same stream into different host callback sizes (single frames, odd sizes, sizes above the engine's maximum block) or configuring a different maximum block size changes nothing beyond floating-point rounding. No frame is skipped, repeated or processed late at a callback or internal block boundary.",
 ["schedules","programs","configurations","inputs"],"all partitions of a stream into callbacks x maximum frame counts x programs over every node kind",
 "unit tests drive one processor with one or two fixed block sizes; nothing compares partitions of a whole graph",
 [G+"processor.rs",G+"dsp_graph.rs","src/effects","src/parameter/realtime_parameter.rs"],
 [("sub-block splitting",G+"processor.rs process_graph"),("event splitting within a block","src/effects/utility/event_processor.rs"),("per-frame parameter values","src/parameter/realtime_parameter.rs")],None,["output of two or more simulated executions of the same program with different callback schedules"])
p("C05","Every control call takes effect exactly once, in order, at the promised callback",
 "Every control call that returns before a host callback begins is in force from the first frame that callback processes, a call made while a callback is running takes effect within that callback or at the start of the next one, and never partly in one and partly in the other. No call is lost, duplicated or applied out of issue order with respect to other calls on the same node, parameter or wiring, no matter how many calls are outstanding, whether the engine is started, or how control and audio threads interleave. Untimed calls issued in a sequence before a callback leave the engine in the state the last of them asked for, from that callback's first frame.",
 ["schedules","histories","fault_sequences"],"all interleavings of control-call sequences (including long bursts) with callback boundaries and stalls of either side",
 "tests issue a few calls before processing on one thread; ordering under load and mid-callback arrival is never exercised",
 [G+"processor.rs","src/engine/root.rs","src/effects/utility/event_processor.rs","src/parameter/realtime_parameter.rs","src/effects/mixer/mixer_processor.rs"],
 [("unbounded FIFO drained at callback start",G+"processor.rs process_commands"),("event sequence numbers","src/effects/*/*_event.rs"),("change list kept sorted","src/parameter/realtime_parameter.rs add_parameter_change")])
p("C06","Parameter automation follows its schedule, range and path exactly",
 "A parameter change scheduled at time t takes effect at the first frame whose time is not before t; a linear or exponential ramp follows the straight (respectively geometric) path from the value in force at its start to its target, reaches the target by its end time and then holds it; a change arriving after its time applies immediately. At every frame the value lies within the parameter's declared range (requested values are clamped to it) and, during a ramp, between the value the ramp started from and its target - it never overshoots - even when the change arrives late, in the middle of the ramp, or when start or end do not fall on a frame. The value the control side reads back is always a value the parameter actually had at the end of some processed block (or its default), and once processing passes all scheduled changes it equals the final target.",
 ["schedules","inputs","histories","fault_sequences"],"all schedules of immediate/linear/exponential changes, delivered early or late, over all block partitions and sample rates",
 "tests check a few on-time changes aligned to frames in one block; lateness, fractional frames, several simultaneous changes and cross-thread reads are not sampled",
 ["src/parameter/realtime_parameter.rs","src/parameter/audio_parameter.rs","src/parameter/parameter_range.rs"],
 [("per-frame evaluation","src/parameter/realtime_parameter.rs value_at_time"),("clamping on the control side","src/parameter/audio_parameter.rs"),("shared atomic value","src/parameter/parameter_value.rs")],
 [("value","shared current value","src/parameter/parameter_value.rs"),("parameter_changes","pending changes","src/parameter/realtime_parameter.rs")],["output of a gain node fed with a constant","AudioParameter::get_value from the control thread"])
p("C07","The audio callback never waits for, or is broken by, any other thread",
 "Once a host callback begins it completes without waiting for any other thread, however long the control thread, the notification consumer or the garbage collector is stalled or gone, and however many commands, events, notifications or discarded nodes are queued in any direction. It terminates within an amount of work bounded by the queued commands and the frames requested, for every combination of legal control calls, and never panics. A backlog in one direction never corrupts or halts audio for other nodes.",
 ["schedules","fault_sequences","histories","configurations"],"all stall/starvation patterns of the other threads and all backlog sizes, including backlogs larger than any internal queue",
 "tests run control and audio on one thread and drain queues after every call, so no queue is ever full and no thread ever stalls",
 [G+"processor.rs",G+"dsp_graph.rs",G+"garbage_collector.rs","src/effects/recorder","src/effects/envelope","src/effects/sampler"],
 [("channels between threads","src/engine/root.rs, src/effects/mod.rs"),("garbage hand-off",G+"dsp_graph.rs remove_dsp"),("notification hand-off","src/effects/recorder/recorder_processor.rs, src/effects/envelope/envelope_processor.rs")],None,["scheduler: blocking operations attempted by the audio thread inside a callback","basic-block budget per callback"])
p("C08","Control calls never block or fail because audio is not running",
 "Every control call (creating, wiring, dropping nodes, setting levels, scheduling events and automation, recording, reading values, processing notifications) returns without waiting for the audio side, whether the engine is not started, stopped, running slowly, stalled inside a callback, or its process object has been dropped. No number of outstanding calls makes a later call block, panic or silently discard an earlier one; the effects appear as soon as audio runs (a sampler is limited to the event capacity it was created with between callbacks).",
 ["schedules","fault_sequences","histories"],"all stall patterns and absence of the audio side x long call sequences over every public control API",
 "no test issues more calls than fit the internal queues without processing, or keeps using nodes after the process is gone",
 ["src/engine/root.rs","src/effects/adsr/adsr_node.rs","src/effects/mixer/mixer_node.rs","src/effects/recorder/recorder_node.rs","src/effects/sampler/sampler_node.rs"],
 [("event channels","src/effects/*/*_node.rs"),("command channel","src/engine/root.rs")],None,["scheduler: blocking operations attempted inside a control call","output after audio resumes"])
p("C09","A recording is exactly what entered the recorder between start and stop",
 "The audio a recorder hands back is, sample for sample and channel for channel, the signal that arrived at its input from the callback in which the start takes effect up to the frame of the stop (the exact stop frame for a timed stop), with nothing lost, repeated, reordered or inserted. This holds for any length, any number of start/stop cycles, any block sizes and however late or rarely notifications are processed; taking a recording in pieces yields consecutive pieces. The recording flag follows start and stop notifications in order.",
 ["schedules","histories","fault_sequences","inputs"],"all lengths and cycles x block partitions x notification-processing schedules, including a consumer that stalls for the whole recording",
 "tests record one short buffer on one thread with prompt notification processing",
 ["src/effects/recorder/recorder_processor.rs","src/effects/recorder/recorder_node.rs"],
 [("buffer rotation and hand-off","src/effects/recorder/recorder_processor.rs next_buffer/process"),("reassembly","src/effects/recorder/recorder_node.rs process_notifications")],None,["Recorder::take_recording","Recorder::is_recording"])
p("C10","Envelope notifications report every interval's level, in order",
 "An envelope node reports, for every notification interval of processed audio, one level per input channel, in channel order and interval order, at the configured rate (k-th report due when k/frequency seconds of audio have been processed). Each reported level is the maximum of that channel's envelope over exactly the frames of its interval - no frame is skipped, counted twice or mixed between channels - where the envelope is the attack/release follower of the input magnitude. When the consumer stalls, reports may be discarded once the queue is full but those delivered remain correct and ordered, and audio is unaffected.",
 ["schedules","inputs","configurations","fault_sequences"],"all notification rates (faster and slower than the callback), channel counts, block partitions and consumer schedules",
 "no test covers the envelope node at all; its follower is unit-tested alone",
 ["src/effects/envelope/envelope_processor.rs","src/effects/utility/periodic_notification.rs","src/effects/utility/envelope_follower.rs","src/effects/envelope/envelope_node.rs"],
 [("interval splitting","src/effects/envelope/envelope_processor.rs process_audio"),("rate accumulator","src/effects/utility/periodic_notification.rs")],None,["Envelope::take_notifications"])
p("C11","The sampler plays the right samples at the right frames",
 "Outside the short fades at jumps, a sampler's output at every frame is exactly the sample frame its start, stop and loop events dictate: playback begins at the frame of the start event from the requested position (advanced by the delay if the event arrives late), loops jump from loop end to loop start without drifting, a cancelled loop plays on to the end of the sample, and a stopped or finished sampler is silent once the fade is over. Within a fade the output is a combination of the outgoing and incoming material with weights between 0 and 1, and the fade never lasts longer than 50 ms. Every start is honoured however soon it follows another start, stop or loop jump, and no event combination makes the sampler stall, go silent wrongly or read outside the sample.",
 ["schedules","histories","inputs","fault_sequences"],"all sequences of start/stop/loop/cancel events, on time or late, over block partitions, sample lengths and loop points",
 "unit tests cover a few single-loop scenarios with fades disabled; rapid retriggering, loop changes, short loops and late events are not sampled",
 ["src/effects/sampler/sampler_processor.rs","src/effects/sampler/sampler_voice.rs","src/effects/sampler/sampler_fade.rs","src/effects/sampler/sampler_event.rs"],
 [("position and loop arithmetic","src/effects/sampler/sampler_processor.rs get_render_interval/next_loop_position"),("two-voice crossfade","src/effects/sampler/sampler_processor.rs assign_voice, sampler_voice.rs")])
p("C12","The ADSR envelope keeps its times and levels and always returns to zero",
 "An ADSR node multiplies its input by an envelope that is 0 until a note-on, rises monotonically to 1 within the attack time, falls monotonically to the sustain level within the decay time, holds it exactly, and after a note-off falls monotonically to exactly 0 within the release time, wherever in the envelope the note-off falls; note events act at their scheduled frame or at once if late. The envelope always lies in [0,1] and is applied identically to all channels. Every note-on followed by a note-off ends in silence, and a note-on during a release rises again from the current level.",
 ["schedules","histories","inputs"],"all sequences of note and setter events, early, on time and late, and all attack/decay/sustain/release settings including zero",
 "unit tests check three canned envelopes; note-offs during attack/decay, zero sustain, retriggering and setter timing are not sampled",
 ["src/effects/adsr/adsr_envelope.rs","src/effects/adsr/adsr_processor.rs","src/effects/adsr/adsr_node.rs"],
 [("phase machine","src/effects/adsr/adsr_envelope.rs process"),("event splitting","src/effects/adsr/adsr_processor.rs prepare_envelope")])
p("C13","Mixer levels: last set wins, whole matrix at once, per callback block",
 "A mixer's output channel is at every frame the sum of its input channels weighted by the level matrix in force for that processing block, and the matrix in force is the one left by the last level call that had returned when the block began (or one arriving during it), never a mixture of two different states inside a block nor an older matrix after a newer one. Pairs that were never set contribute nothing; input and output counts may differ freely up to eight. Any number of level calls between two callbacks is equivalent to the last state.",
 ["schedules","histories","configurations"],"all bursts and interleavings of level calls with callbacks x matrix shapes",
 "tests set each level once before processing",
 ["src/effects/mixer/mixer_processor.rs","src/effects/mixer/mixer_matrix.rs","src/effects/mixer/mixer_node.rs"],
 [("matrix snapshot messages","src/effects/mixer/mixer_node.rs set_level"),("drain to the latest","src/effects/mixer/mixer_processor.rs process_events")])
p("C14","Discarded nodes are destroyed exactly once, later, off the audio thread",
 "When a node is dropped, its audio-side state is destroyed exactly once, never while a host callback is executing, and within a bounded time once the background collector gets to run (or when the engine is torn down). Dropping the context, the remaining nodes and the process in any order, at any moment and with garbage still queued, releases everything, lets the background thread terminate, and neither blocks, leaks nor panics; several engines created and destroyed one after another leave no thread or node state behind.",
 ["schedules","crash_points","fault_sequences","histories"],"all interleavings of drops, callbacks, collector wake-ups and teardown orders, including collector starvation",
 "tests never look at the collector; destruction thread and teardown order are invisible to them",
 [G+"garbage_collector.rs",G+"dsp_graph.rs","src/graph/graph_node.rs"],
 [("hand-off channel",G+"dsp_graph.rs remove_dsp"),("collector loop",G+"garbage_collector.rs run_garbage_collector")],None,["allocator events (address, thread, inside/outside callback)","simulated thread table"])
p("C15","Engines in one process do not influence each other",
 "Several engines may exist in one process, with different sample rates, block sizes and programs, their callbacks and control calls interleaved in any order and on different threads: each produces exactly the output, clock, recordings and notifications it produces when it is alone. Starting, stopping, stalling, flooding or destroying one has no effect on another.",
 ["schedules","programs","configurations"],"all interleavings of two engines' callbacks, control calls and teardown",
 "tests use one engine at a time per assertion",
 ["src/engine/root.rs","src/commands/id.rs",G+"processor.rs",G+"dsp_graph.rs"],
 [("no shared mutable state but id counters","src/commands/id.rs, src/effects/*/*_event.rs")])
p("C16","The callback fills exactly the host block it was given, whatever its shape",
 "For any host input and output buffer shape (any channel counts, fewer or more than the engine's or the program's, zero channels, any frame count including zero and more than the maximum block, any AudioBuffer implementation including borrowed sub-slices of larger buffers) a callback overwrites every sample of the output it was given, whatever it contained, touches nothing outside it, reads nothing outside the input, and does not modify the input. Channels the program does not drive are silent, and host channel counts may change between callbacks.",
 ["inputs","configurations","schedules","fault_sequences"],"all host buffer shapes and contents, changing between callbacks (device change faults), including garbage-filled and sub-sliced buffers",
 "tests always pass freshly zeroed owned buffers of the engine's own shape",
 [G+"processor.rs",G+"dsp_graph.rs","src/buffer/borrowed_audio_buffer.rs","src/buffer/mutable_borrowed_audio_buffer.rs","src/buffer/audio_buffer.rs"],
 [("clear before processing",G+"processor.rs process"),("clamped channel counts",G+"dsp_graph.rs process"),("range-checked slices","src/buffer/*borrowed_audio_buffer.rs")])
p("C17","Every effect is one continuous stream, whatever blocks and automation arrive",
 "Gain, pan, oscillator, biquad, compressor, waveshaper and convolution nodes compute, over the whole processed stream, the recurrence they document: per-frame parameter values are applied at their own frame, filter memories, oscillator phase, envelope followers and convolution tails carry over every block, callback and stop/start boundary, and every channel keeps its own state. Oscillators accept every frequency in range without phase jumps or out-of-range reads, the compressor's static curve is continuous and never amplifies, and the convolution tail is complete. No legal parameter automation, however it arrives, produces a non-finite sample from finite input or a panic.",
 ["schedules","inputs","programs","configurations"],"all block partitions, automation schedules (late or on time), frequencies, channel counts and impulse lengths",
 "unit tests check each effect with constant parameters and one block size; boundary and automation behaviour and exact-phase frequencies are not sampled",
 ["src/effects/oscillator/oscillator_processor.rs","src/effects/biquad/biquad_processor.rs","src/effects/compressor/compressor_processor.rs","src/effects/convolution/convolution_processor.rs","src/effects/waveshaper/waveshaper_processor.rs","src/effects/gain/gain_processor.rs","src/effects/pan/pan_processor.rs","src/dsp/mod.rs"],
 [("carried state","src/effects/*/*_processor.rs"),("per-frame parameter slices","src/graph/dsp_parameters.rs")])
p("C18","The same program and schedule always give the same audio",
 "Two executions of the same program against the same sequence of callbacks, inputs and call arrival points give the same output samples (up to rounding of sums), the same recordings, notifications and clock, independently of hash seeds, of how many nodes or engines were created before, of memory placement and alignment, and of how the threads interleave between the arrival points. In particular neither the processing order among independent nodes nor the order of identical-time events across nodes can be observed.",
 ["schedules","configurations","programs"],"all hash seeds, id offsets, buffer alignments and equivalent interleavings",
 "each test process runs with one random hash seed and compares nothing across seeds",
 [G+"topological_sort.rs",G+"graph.rs","src/graph/assigned_buffer_pool.rs","src/dsp/mod.rs","src/commands/id.rs"],
 [("topological order only by edges",G+"topological_sort.rs"),("SIMD paths equal scalar paths","src/dsp/mod.rs"),("sequence numbers","src/effects/*/*_event.rs")],None,["outputs of paired simulated executions"])
p("C19","Cancelling removes exactly the changes it names, and nothing else",
 "Cancelling a parameter's scheduled changes removes every change that has not begun; cancelling those ending after a time removes exactly the not-yet-begun changes whose end is later than that time and keeps the others; other parameters and nodes, the current value, a ramp in progress and changes scheduled after the cancel call are untouched. Cancelling all sampler events removes every sampler event issued before it that has not occurred and stops playback, without affecting events issued afterwards. This holds whenever the cancel call arrives relative to the changes it names.",
 ["schedules","histories"],"all histories of scheduling and cancelling, all arrival points relative to the due times",
 "no test calls the cancel functions through the engine",
 ["src/parameter/realtime_parameter.rs","src/parameter/audio_parameter.rs","src/graph/dsp.rs","src/effects/sampler/sampler_event.rs","src/effects/utility/event_processor.rs"],
 [("retain on the pending list","src/parameter/realtime_parameter.rs cancel_scheduled_changes*"),("queue clearing events","src/effects/utility/event_processor.rs receive_events")])
p("C20","Nothing is used up by history: the engine never degrades or leaks",
 "An engine that has processed any number of callbacks and seen any number of nodes, connections, events, automation, recordings and notifications come and go behaves as a fresh one wired to the same final state: internal pools never run dry, no stale connection, event or buffer content survives its owner, and later operations do not depend on how much happened before. Memory held does not grow with the number of completed create/use/drop cycles or callbacks.",
 ["histories","schedules","fault_sequences"],"all long histories of churn (nodes, edges, events, recordings) over all interleavings",
 "tests run a few blocks on a graph built once",
 [G+"dsp_graph.rs","src/buffer/buffer_pool.rs","src/graph/assigned_buffer_pool.rs",G+"graph.rs","src/effects/recorder/recorder_processor.rs"],
 [("buffers returned to the pool each block",G+"dsp_graph.rs process"),("edge removal unlinks lists",G+"graph.rs replace_connections")],None,["allocator live bytes after identical cycles","output against the model after churn"])
p("C21","Interleaved and de-interleaved sample transfer is faithful for any shape",
 "Moving audio between a host's interleaved callback data and the engine's buffers keeps every sample at its frame and channel for any combination of interleaved channel count, buffer channel count and frame counts: only the common channels and frames are transferred, with the interleaved data's own channel count as its stride, and samples outside the common part are left alone. Borrowed views of a buffer (frame range, channel range or both) read and write exactly the named part of the underlying buffer, nested arbitrarily. Copying, mixing, scaling, clearing and writing samples between such buffers changes exactly the named samples, by exactly the named amounts; converting to another sample rate interpolates on a straight line between neighbouring frames.",
 ["inputs","configurations","fault_sequences"],"all shapes and nested views a host can present, as the device's shape changes between callbacks",
 "tests use equal channel counts and single-level frame slices",
 ["src/buffer/audio_buffer.rs","src/buffer/borrowed_audio_buffer.rs","src/buffer/mutable_borrowed_audio_buffer.rs","src/buffer/owned_audio_buffer.rs"],
 [("interleave conversions","src/buffer/audio_buffer.rs fill_from_interleaved/copy_to_interleaved"),("views","src/buffer/borrowed_audio_buffer.rs slice*")],None,["host-side adapter driving process() from interleaved device data"])
p("C90","Unit conversions are exact and invertible",
 "Converting levels between decibels and linear gain, and timestamps between seconds, samples and beats, is correct over the whole range.",
 ["inputs"],"all numeric inputs","a pure function of its input; tests sample a few values",
 ["src/utility/level.rs","src/utility/timestamp.rs"],[("conversion functions","src/utility")],None,["return values"])
p("C91","Filter coefficients realise the documented frequency response",
 "For every filter type, frequency, Q and gain the biquad coefficients give a stable filter with the documented response.",
 ["inputs"],"all filter parameters","a pure function of its input; tests sample a few values",
 ["src/effects/biquad/biquad_coefficients.rs"],[("coefficient formulas","src/effects/biquad/biquad_coefficients.rs")],None,["frequency response"])
p("C92","Cross-thread atomics are correctly ordered on weakly ordered hardware",
 "Values and engine time published by the audio thread are seen by the control thread with the ordering the code asks for on every supported processor's memory model.",
 ["schedules"],"all weak-memory executions of the atomics","needs executions that are not sequentially consistent",
 ["src/engine/root.rs","src/parameter/parameter_value.rs"],[("Acquire/Release orderings","src/engine/root.rs, src/realtime/processor.rs")],None,["values read by the control thread"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(d)+'\n' for d in P))
