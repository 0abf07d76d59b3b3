#!/usr/bin/env python3
"""Single source of properties.jsonl (run by hand, output is committed)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

p("C01", "Every input hears exactly its connected source, in dependency order",
  "In every accepted graph each placed node runs exactly once per audio block and after all nodes that feed it: a connected input sees, in the same block, its source output (scaled and offset only as the documented modulation amount says), and an unconnected input sees its own parameter value. This also holds in the first block after any accepted edit.",
  ["programs","histories"], "all acyclic graphs that fit on the grid (including one node spread over several cells and fan-out) and all sequences of accepted edits",
  "Tests build a few dozen fixed small graphs; the ordering and the buffer wiring depend on the whole shape of the graph and on the previous program.",
  ["src/matrix.rs","src/nodes/node_graph_ordering.rs","src/nodes/node_prog.rs","src/nodes/node_conf.rs","src/nodes/node_exec.rs"],
  [("topological order","NodeGraphOrdering::calculate_order"),("buffer wiring","NodeConfigurator::set_prog_node_exec_connection, NodeProg::append_edge/assign_outputs"),("execution loop","NodeExecutor::process")],
  ["inputs/outputs seen by user supplied nodes placed in the graph", "audio output"])

p("C02", "Illegal graph edits are refused and leave no trace; legal ones are accepted",
  "A transactional graph edit is refused exactly when it would close a feedback cycle, feed one input from two sources, or place onto an occupied or non-existing cell. After a refusal the cells, parameters, the answer to which inputs are in use, saved patch and produced audio are exactly as if the edit had never been attempted, and editing can go on.",
  ["programs","histories","inputs"], "all grid states, all candidate edits, legal or not, in any order",
  "Tests try a handful of hand made cycles and duplicate inputs; legality depends on the global shape of the graph.",
  ["src/matrix.rs","src/nodes/node_graph_ordering.rs"],
  [("save/check/restore","Matrix::change_matrix, change_matrix_err, place_multiple, check, restore_matrix"),("cycle detection","NodeGraphOrdering")],
  ["Matrix::check/change_matrix results", "Matrix::get, param_input_is_used, save_patch_to_mem", "audio output"])

p("C03", "Saving and loading a patch loses nothing",
  "Loading the bytes produced by saving any patch, into a fresh instance or one that had other content before, reproduces every cell, connection, parameter, modulation amount, setting, sample reference, property, tracker pattern and block function, and nothing else; saving again gives the same content, and the loaded patch sounds the same whatever the instance held before. A save that fails leaves the previous patch file as it was.",
  ["inputs","histories"], "all patches reachable through the API, all prior contents of the loading instance, all supported node types and parameter values",
  "Tests save and load a few small patches into fresh instances; field/type combinations and leftovers of the prior content are not sampled.",
  ["src/matrix_repr.rs","src/matrix.rs","src/dsp/tracker/pattern.rs","src/wblockdsp/language.rs"],
  [("serialisation","MatrixRepr::serialize/deserialize, CellRepr, PatternRepr, BlockFunSnapshot"),("load","Matrix::from_repr, load_patch_from_mem/file")],
  ["save_patch_to_mem/file", "load_patch_from_mem/file", "Matrix getters"])

p("C04", "Loading arbitrary patch data never crashes, hangs or corrupts the engine",
  "For any byte string, loading it as a patch returns success or an error in bounded time and memory without panicking, and afterwards audio processing, editing and saving keep working. Cells that name unknown nodes or positions outside the grid never overwrite other cells.",
  ["inputs","fault_sequences"], "all byte strings, in particular truncations, type confusions, out-of-range numbers and structural mutations of valid patches",
  "Tests load valid patches and a few old versions; the space of malformed patches is unbounded.",
  ["src/matrix_repr.rs","src/matrix.rs","src/dsp/tracker/pattern.rs","src/wblockdsp/language.rs"],
  [("deserialisers","MatrixRepr::deserialize and friends"),("application of the loaded data","Matrix::from_repr, PatternData::from_repr, BlockFun::load_snapshot")],
  ["load_patch_from_mem result", "subsequent process/save calls"])

p("C05", "Parameter changes always arrive, smoothly, and the last one wins",
  "After any sequence of parameter, modulation amount and setting changes, mixed with graph changes and block processing, the values the nodes see become exactly the last values set once the smoothing time has passed; reading a parameter back returns what was set. While smoothing, the value moves monotonically from the old to the new value within about ten milliseconds, without overshoot and without touching any other parameter. (Within the capacity of the message queue, 512 messages between two blocks; gradual while at most about forty parameters move at once.)",
  ["histories","inputs","schedules"], "all interleavings of parameter/atom/modulation changes, graph edits, clears and audio blocks of any size, including very many changes between two blocks",
  "Tests change one or two parameters of one node; the smoother pool, index remapping across graph changes and bursts are never exercised.",
  ["src/nodes/node_exec.rs","src/nodes/node_conf.rs","src/util.rs","src/matrix.rs"],
  [("smoothers","NodeExecutor::set_param/process_smoothers, util::Smoother"),("carry over on graph change","NodeProg::swap_previous_outputs, NodeConfigurator::rebuild_node_ports/upload_prog"),("message ring","GraphMessage")],
  ["parameter slices seen by user supplied nodes", "Matrix::get_param"])

p("C06", "The audio thread never allocates, frees, blocks or does I/O",
  "Processing audio blocks, including receiving graph, parameter, setting, tracker, code, sample and MIDI updates, performs no heap allocation or deallocation, does not print, and never waits for the front end, in every node and every reachable graph change. Memory that the audio thread no longer needs is released elsewhere. (Within a rate of some hundred discarded objects per quarter second, and after the log channel of the thread was set up in its first block.)",
  ["histories","schedules","programs"], "all nodes, all kinds of updates and their interleavings with audio blocks, after thread start-up and within the documented update rates",
  "The tests never look at allocations, locks or output made while processing.",
  ["src/nodes/node_exec.rs","src/nodes/drop_thread.rs","src/dsp/mod.rs","src/dsp/tracker/mod.rs","src/log.rs"],
  [("drop ring and drop thread","graph_drop_prod, DropThread"),("lock-free rings","ringbuf, triple_buffer"),("pre-allocated buffers","NodeProg, NodeExecContext::new")],
  ["global allocator of the process, per thread", "write calls of the process"])

p("C07", "No memory errors and no leaks under arbitrary graph churn",
  "Creating, editing, clearing, loading and dropping instances while audio is processed never reads or writes freed or out-of-bounds memory, and everything allocated is freed again once both halves of the engine are gone, or bounded while they live.",
  ["histories","schedules"], "all sequences of API calls and audio blocks, all teardown orders of front end and audio end",
  "The code uses raw buffer pointers shared between programs; ordinary tests do not see invalid accesses or leaks.",
  ["src/dsp/mod.rs","src/nodes/node_prog.rs","src/nodes/drop_thread.rs","src/nodes/node_exec.rs","src/shared_feedback.rs"],
  [("manual buffers","ProcBuf, NodeProg::drop"),("node sharing","dsp::Node, Arc"),("drop thread","nodes/drop_thread.rs")],
  ["AddressSanitizer / LeakSanitizer reports", "allocation balance"])

p("C08", "Front end and audio thread never race",
  "For every interleaving of a front end thread using the public API and an audio thread processing blocks there is no data race, and every value read across the threads is one that was written whole.",
  ["schedules"], "all interleavings of front end calls with audio processing on another thread",
  "Tests run front end and audio end on one thread, or with sleeps.",
  ["src/nodes/node_exec.rs","src/nodes/node_conf.rs","src/dsp/mod.rs","src/monitor.rs","src/scope_handle.rs","src/shared_feedback.rs","src/log.rs"],
  [("lock-free exchange","ringbuf, triple_buffer, AtomicFloat"),("node cells","dsp::Node unsafe Sync"),("scope","ScopeHandle")],
  ["ThreadSanitizer reports (std rebuilt instrumented)"])

p("C09", "Every node yields finite audio for every in-range parameter, block and rate",
  "For every node type, any combination of in-range parameters and settings, any block length up to the maximum and any usual sample rate (44.1 to 192 kHz), processing neither panics nor hangs for any finite input signals, and every output sample is a finite number as long as the input signals are within their documented ranges (the coefficients of filters, reverbs and the bowed string being turned like knobs, not modulated at audio rate).",
  ["inputs","configurations","programs"], "all node types x parameter corners and random values x block lengths x sample rates x input signals",
  "Tests run most nodes with a few settings at 44.1 kHz in blocks of 128.",
  ["src/dsp"],
  [("node implementations","src/dsp/node_*.rs"),("parameter rounding/ranges","src/dsp/mod.rs")],
  ["node outputs through the graph"])

p("C10", "Rendering is deterministic and independent of block partitioning",
  "Rendering the same patch with the same input, MIDI events and parameters gives sample for sample the same audio in every fresh instance, and the audio does not depend on how the stream is cut into blocks, for all nodes except the biquad filter and the sample player, which read some inputs once per block (oscillator instances from the fourth on deliberately start at a random phase).",
  ["inputs","configurations","programs"], "all patches, all partitions of the stream into blocks of 1 to the maximum size",
  "Tests always use one block partitioning and seldom compare two renderings.",
  ["src/nodes/node_exec.rs","src/dsp"],
  [("per frame processing","src/dsp/node_*.rs"),("event timing","MidiEventPointer, EventWindowing")],
  ["audio output"])

p("C11", "MIDI notes reach the pitch node exactly once, in order, at their frame",
  "Every note event fed or injected is acted on exactly once, at its frame, in the order given, by every pitch node listening on its channel and by no other: gate, velocity, pitch, after-events and one-frame retrigger follow the monophonic note logic documented for the node (a note played while the gate is open closes it for one frame; releasing the current note closes the gate on the next frame; trigger and fixed gate lengths are kept), for up to 512 note events per block. Each event is also echoed to the front end observer once, in order.",
  ["inputs","histories","configurations"], "all event streams (overlapping notes, many events on one frame, all channels, block boundaries) and all gate modes and block sizes",
  "Tests play a few notes on fixed frames.",
  ["src/nodes/midi.rs","src/nodes/node_exec.rs","src/dsp/node_midip.rs","src/matrix.rs"],
  [("event pointers","MidiEventPointer::next_at, EventWindowing"),("note logic","MidiP::process"),("echo","graph_event_prod, Matrix::handle_graph_events")],
  ["MidiP outputs", "MatrixObserver::midi_event"])

p("C12", "Signal monitors report the true minimum and maximum",
  "While a cell is monitored and the front end keeps up, each min/max entry it reads for a connected port is the true minimum and maximum of one consecutive stretch (of fixed length) of that signal, the stretches tile the monitored signal without gap or overlap in order, also across graph changes and re-targeting, and ports that are not in use stay silent.",
  ["inputs","configurations","histories"], "all signals, block sizes, monitored cells and re-targeting histories",
  "Tests check a few fixed signals.",
  ["src/monitor.rs","src/nodes/node_exec.rs","src/matrix.rs"],
  [("buffer recycling","MonitorBackend"),("reduction","MonitorMinMax::process"),("targeting","Matrix::monitor_cell, NodeConfigurator::monitor")],
  ["Matrix::get_minmax_monitor_samples"])

p("C13", "The tracker plays exactly the pattern that was edited",
  "For every pattern, column type and sequence of edits, once edits are published the sequencer outputs at each row and phase exactly what the pattern says (held notes and steps, interpolated values, gate lengths, counts and probabilities, and the documented gate outputs), following its clock, phase and reset inputs, and every published edit eventually reaches the audio side in full, also if it was published in a burst, before the sequencer existed or before the matrix was cleared.",
  ["inputs","histories","schedules"], "all patterns up to the maximum length, all column types, all phases, all edit/publish/process interleavings",
  "Tests cover a few patterns and phases.",
  ["src/dsp/tracker/pattern.rs","src/dsp/tracker/sequencer.rs","src/dsp/tracker/mod.rs","src/dsp/node_tseq.rs"],
  [("pattern to sequence","PatternData::sync_out_data"),("sequencer","PatternSequencer"),("update ring","Tracker::send_one_update, TrackerBackend::check_updates")],
  ["TSeq outputs in a graph", "TrackerBackend::get_col_at_phase"])

p("C14", "Block programs compute what the diagram says",
  "Every well-formed visual block program compiles, and the running program yields for all inputs the values the diagram denotes: data flows along touching ports, missing inputs are zero, variables are set before later statements read them and execution order is top-left to bottom-right. Ill-formed programs give an error, never a panic, and the previous program keeps running.",
  ["programs","inputs"], "all block programs over the arithmetic, variable, conditional-free and stateful blocks that fit an area, all inputs",
  "Tests compile about twenty hand-written diagrams.",
  ["src/wblockdsp/language.rs","src/wblockdsp/compiler.rs","src/wblockdsp/definition.rs","src/global.rs","src/dsp/node_code.rs"],
  [("tree generation","BlockFun::generate_tree"),("compiler","Block2JITCompiler"),("upload","NodeGlobalData::check_code")],
  ["Code node output", "Matrix::check_block_function result"])

p("C15", "Block editor operations are atomic and never overlap or lose blocks",
  "Every block editing operation either succeeds, keeping every block it does not explicitly remove, unchanged apart from position and without overlaps, or fails leaving the function exactly as before. Saving and loading a snapshot reproduces the function.",
  ["programs","histories","inputs"], "all block functions and all sequences of place, move, chain move, clone, split, shift and remove operations with arbitrary coordinates",
  "Tests try a few moves and clones.",
  ["src/wblockdsp/language.rs"],
  [("edit operations","BlockFun::instanciate_at/move_*/clone_*/split_*/remove_at"),("space search","BlockChain::try_fit_load_into_space, BlockArea::check_space_at"),("areas","BlockFun::recalculate_area_sizes")],
  ["BlockFun::block_at/origin_at/area_size, save_snapshot"])

p("C16", "Parameter conversions and names are consistent for every parameter",
  "For every parameter of every node, converting a display value to the stored value and back returns it up to float precision over the whole range, the conversion is monotone and maps the documented minimum, default and maximum to themselves, rounding is idempotent and stays in range, and names, indices and node identifiers map one to one in both directions. Formatting any value never fails.",
  ["inputs","configurations"], "all nodes, all parameters, all values in the range, all instances",
  "Tests check the conversions of a few parameters at a few points.",
  ["src/dsp/mod.rs"],
  [("range macros","n_pit, d_pit, n_exp, ... in src/dsp/mod.rs"),("parameter tables","node_list!, NodeId/ParamId")],
  ["NodeId, ParamId, NodeInfo API"])

p("C17", "Grid geometry is consistent: neighbours, directions, paths and free cells",
  "On every grid, stepping from a cell in a direction and back returns to it, two cells are adjacent exactly if one step leads from one to the other, a path between two cells consists of single steps that really lead there, and queries for neighbours, connected ports and free neighbours agree with those steps and with the cells on the grid.",
  ["inputs","configurations"], "all grid sizes, positions, directions and cell contents",
  "Tests use a few positions in small grids.",
  ["src/cell_dir.rs","src/matrix.rs"],
  [("directions","CellDir::offs_pos/as_offs/path_from_to/are_adjacent/flip"),("grid queries","Matrix::get_adjacent*, get_connections, Cell::find_*")],
  ["CellDir, Matrix and Cell query results"])

p("C18", "Graphs built by constructor, chain builder or by hand sound the same",
  "A synth described with the constructor API, or a chain placed by the chain builder, renders the same audio as the same nodes, connections and parameters placed by hand on a grid, including after parameter updates and re-uploads; chains that fit on the grid are placed on the requested path, with node instances not in use so far and with the parameters given to exactly the nodes placed, chains with unknown names are refused without an effect, and constructor graphs with cycles are refused without affecting the running graph or later uploads.",
  ["programs","histories"], "all constructor graphs and chains over the node set, all parameter updates and placement positions",
  "Tests build a few small examples.",
  ["src/synth_constructor.rs","src/build.rs","src/chain_builder.rs"],
  [("constructor","SynthConstructor::upload/update_params"),("chains","MatrixCellChain::place")],
  ["audio output", "Matrix cells"])

p("C19", "Feedback values shown to the front end are the node's latest values",
  "After the front end polls, the feedback value of an output is the last sample that output produced in the most recent published block, it belongs to the very node and port asked for, filtered values bracket the samples seen, and the LED and phase values a node publishes are readable for that node only.",
  ["inputs","histories","configurations"], "all graphs, outputs, block sizes and poll patterns",
  "Tests check one or two nodes.",
  ["src/nodes/node_exec.rs","src/nodes/node_conf.rs","src/nodes/feedback_filter.rs"],
  [("triple buffer","NodeProg::out_feedback"),("ctx values","node_ctx_values"),("filters","FeedbackFilter")],
  ["Matrix::out_fb_for, led_value_for, phase_value_for, filtered_*"])

p("C20", "Feedback delay lines return the written signal after the fixed delay",
  "Each sample written to a feedback channel is read by the reader of the same channel exactly once, unchanged (apart from the volume knob), after the same fixed delay of 3.14 milliseconds (at least one block of the largest size), independent of block sizes, node order, sample rate, the time the nodes were added and other channels; while nothing is written, silence is read after the delay.",
  ["inputs","configurations","schedules"], "all signals, block partitions and channel instances",
  "Tests look at one signal and one block size.",
  ["src/shared_feedback.rs","src/dsp/node_fbwr_fbrd.rs","src/global.rs"],
  [("shared ring","SharedFeedback"),("nodes","FbWr, FbRd")],
  ["FbRd output"])

p("C21", "Scopes capture the signal they are connected to",
  "When triggered or free running, the scope shows for each active input the signal of that input, in order, as the minimum and maximum of equal consecutive stretches (to within two samples, without gaps) covering the chosen time span starting at the trigger (for time spans of fewer samples than entries every sample fills the same whole number of entries), a completed capture stays until the next trigger, and inputs that are not connected are reported as inactive.",
  ["inputs","configurations"], "all signals, time spans, trigger settings, thresholds, sample rates and block sizes",
  "Tests check a few settings.",
  ["src/dsp/node_scope.rs","src/scope_handle.rs"],
  [("capture","Scope::process"),("handle","ScopeHandle")],
  ["ScopeHandle::read/is_active/get_offs_gain/get_threshold"])

p("C22", "Custom Rust nodes can be swapped any time; the newest one runs",
  "A custom node given before its graph position first exists is the one that runs when it appears, one given later replaces the former from the next block on and runs alone, it sees exactly the block's input and parameter samples and its output is exactly what is played; it is told the current sample rate before it runs; each given node is destroyed exactly once and never on the audio thread while newer ones are being swapped in.",
  ["histories","schedules"], "all sequences of swaps, graph edits and blocks",
  "Tests swap once.",
  ["src/dsp/node_rust.rs","src/global.rs"],
  [("triple buffer","DynNodeHandle, DynNodeBuffer"),("context","DynNode1x1Context")],
  ["calls made to user supplied nodes, their drops"])

p("C23", "Modulation adds the scaled source to the parameter value",
  "For a connected input with a modulation amount set, the node sees its own (smoothed) parameter value plus the amount times the source signal in every sample; without an amount it sees the source signal only, after disconnecting it sees the parameter again, and setting, changing or removing amounts takes effect on that input only.",
  ["inputs","histories","programs"], "all inputs of all nodes, amounts, sources and orders of setting amounts and connections",
  "Tests check one node with two amounts.",
  ["src/nodes/node_prog.rs","src/nodes/node_conf.rs","src/nodes/node_exec.rs"],
  [("mod ops","ModOp::process, NodeProg::append_with_inputs"),("amount updates","NodeConfigurator::set_param_modamt")],
  ["input slices seen by user supplied nodes"])

p("C24", "Mixing, mapping and routing nodes compute their documented function",
  "The amplifier, mixer, mapping, range-mapping, multiplexer, audio input/output and external parameter nodes output for every sample exactly the documented function of their inputs and settings, up to float rounding.",
  ["inputs","configurations"], "all inputs, parameter values, settings and block partitions",
  "Tests sample a few values and settings.",
  ["src/dsp/node_amp.rs","src/dsp/node_mix3.rs","src/dsp/node_map.rs","src/dsp/node_smap.rs","src/dsp/node_mux9.rs","src/dsp/node_out.rs","src/dsp/node_inp.rs","src/dsp/node_ext.rs"],
  [("node implementations","DspNode::process of the named nodes")],
  ["node outputs"])

p("C25", "Observers and getters track every change",
  "Every parameter, modulation amount, property, graph and monitor change made through the front end is reported to the registered observer with the right parameter, and generation counters, getters and listings reflect the change at once.",
  ["histories"], "all sequences of front end calls",
  "Tests use an observer in one or two scenarios.",
  ["src/matrix.rs","src/nodes/node_conf.rs"],
  [("observer calls","Matrix::set_param/set_param_modamt/sync/clear/...")],
  ["MatrixObserver callbacks", "Matrix::get_generation, for_each_atom"])

p("C26", "Quantised, random and control nodes stay inside their promised range",
  "Quantizers output only notes whose keys are selected, nearest as documented; random walks stay between their bounds; envelopes, LFOs and gate or trigger outputs stay between their documented limits, envelopes reach their end and trigger outputs fire exactly once per event, for all parameters and inputs.",
  ["inputs","configurations"], "all parameters, settings, key selections and input signals",
  "Tests check a few settings.",
  ["src/dsp/node_quant.rs","src/dsp/node_cqnt.rs","src/dsp/node_rndwk.rs","src/dsp/node_ad.rs","src/dsp/node_adsr.rs","src/dsp/node_tslfo.rs","src/dsp/node_noise.rs"],
  [("node implementations","DspNode::process of the named nodes")],
  ["node outputs"])

p("C27", "Samples load and play back as recorded",
  "Loading any supported sound file yields exactly its first channel's samples scaled to -1..1 and its sample rate, unsupported or damaged files give an error, never a panic, and the sample player at original speed reproduces the sample one to one, respecting start, length, direction, loop and trigger settings.",
  ["inputs","fault_sequences","configurations"], "all WAV encodings, lengths and truncations, and player settings",
  "Tests load one or two files.",
  ["src/sample_lib.rs","src/dsp/node_sampl.rs","src/dsp/satom.rs"],
  [("decoder","SampleLibrary::load"),("player","Sampl::process")],
  ["SampleLibrary::load result", "Sampl output"])

p("C28", "MIDI controllers follow the assigned CC on the assigned channel",
  "Each controller output follows, at the event's frame and in order, the values of its own controller number on its own channel and nothing else, reaching the last value after the set slew time; injected events behave like fed ones.",
  ["inputs","histories","configurations"], "all event streams, channel/controller assignments, slew times and block sizes",
  "Tests send a few controllers.",
  ["src/dsp/node_midicc.rs","src/nodes/node_exec.rs","src/nodes/midi.rs"],
  [("CC node","MidiCC::process"),("event feeding","NodeExecutor::feed_midi_events_from")],
  ["MidiCC outputs"])

p("C29", "Delay based nodes keep time at every sample rate",
  "Delay, all-pass and comb nodes delay their signal by the set time (interpolated, within one sample) at every sample rate, for constant and modulated times and feedbacks, independent of block sizes; a clocked delay follows the last measured clock period, slow clocks never make it fail, and the mix is exact between dry and wet.",
  ["inputs","configurations"], "all delay times, feedbacks, signals and sample rates",
  "Tests check a few delay times at 44.1 kHz.",
  ["src/dsp/node_delay.rs","src/dsp/node_allp.rs","src/dsp/node_comb.rs"],
  [("delay lines","DspNode::process of the named nodes")],
  ["node outputs"])

p("C30", "Log messages arrive whole, once and in order",
  "Every message logged on any thread, within the documented size and rate, is delivered to the reader exactly once, whole, in the thread's order, under its thread's name; oversized or excess messages never corrupt others or crash.",
  ["schedules","inputs"], "all message contents, sizes, threads and retrieval interleavings",
  "Tests log a few short messages.",
  ["src/log.rs"],
  [("log rings","Log::log, LogReceiver::retrieve_messages")],
  ["log::retrieve_log_messages"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
