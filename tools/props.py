"""Single source of properties.jsonl and MANIFEST.json: `python3 tools/props.py` rewrites both.

P(id, title, statement, over, text, why, files, mech, observe, technique, level, note)
A property is claimed when a check module checks/<id>_*.py exists.
"""
import glob
import json
import re
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def P(id, title, statement, over, text, why, files, mech, observe, technique, level, note, na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                      observe=observe, technique=technique, level=level, note=note, na=na))


ED = 'spicelib/editor/'
P('C01', 'Netlist read/save fidelity',
  'Loading a SPICE netlist and saving it without edits keeps every statement: the same title, comments, directives, '
  'control sections, subcircuit definitions and elements, in the same order, and each element with the same nodes, '
  'value/model and parameters. Loading the saved file gives the same circuit, and saving that again gives the same '
  'bytes. What the reading functions report for a well-formed element line (reference, nodes, value, parameters) is '
  'what the line says. (Included files are written as part of the circuit they were included in; text after .end other than '
  'comments is not kept; a netlist without .end, or with an include that is not found, is refused.)',
  ['inputs', 'programs'],
  'every netlist composed of the covered element forms, decorations (parameters, comments, continuation lines, '
  'letter case, tabs) and directives, up to a small size',
  'The tests compare a handful of golden files; the guarantee is over every combination of element kind, value form, '
  'parameter list, comment and continuation, each of which goes through its own regular expression.',
  [ED + 'spice_subcircuit.py', ED + 'spice_components.py', ED + 'spice_utils.py', ED + 'spice_file.py', ED + 'spice_editor.py'],
  [('line separation and statement classification', ED + 'spice_subcircuit.py: separate_lines, get_line_command, SpiceCircuit._add_lines'),
   ('element parsing by per-prefix regular expressions', ED + 'spice_components.py: SpiceComponent.reset_attributes, _parse_params, tokenize_params'),
   ('writing back', ED + 'spice_subcircuit.py: SpiceCircuit.write_lines; ' + ED + 'spice_components.py: write_lines, rewrite_lines')],
  ['SpiceEditor.save_netlist output', 'SpiceEditor.get_component_*'],
  'exhaustive bounded input enumeration on the real editor against a reference reader (round trip, idempotence)',
  'exploration', 'All element forms x decorations up to the stated bound are executed on the real code; nothing is sampled.')

P('C02', 'Netlist edits: read back exactly, frame preserved',
  'After any sequence of edits on a netlist (component values, models, component parameters, circuit parameters, '
  'adding and removing components) every item reads back the last value given to it, items removed are gone, and '
  'everything not addressed is unchanged. The saved file, loaded again, reads back the same values. This does not '
  'depend on names that are prefixes of other names, on the order of the edits, or on saves made in between.',
  ['histories', 'inputs'],
  'all edit sequences up to a bounded depth over netlists with colliding names, several parameters per line, comments and continuations',
  'Tests apply a few edits and compare one golden file; interactions of two or three edits on the same line or on prefix-colliding names are never sampled.',
  [ED + 'spice_components.py', ED + 'spice_subcircuit.py', ED + 'primitives.py', ED + 'base_editor.py'],
  [('deferred rewriting of element lines', ED + 'spice_components.py: SpiceComponent.rewrite_lines, _insert_section'),
   ('parameter lookup and replacement', ED + 'spice_subcircuit.py: SpiceCircuit._get_parameter_named, set_parameter'),
   ('component set', ED + 'spice_subcircuit.py: add_component, remove_component')],
  ['getters after each edit', 'save_netlist + fresh SpiceEditor'],
  'breadth-first exploration of edit sequences on the real editor against a reference model, state by state',
  'model_checking', 'Every edit sequence up to the depth bound over the operation alphabet is executed on the real SpiceEditor; states are deduplicated on model state.')

P('C03', 'Editing one subcircuit instance affects only that instance',
  'A change made to a component or parameter inside one subcircuit instance (at any nesting level) is visible only '
  'through that instance: other instances of the same subcircuit, the shared definition and library definitions keep '
  'their contents. In the saved netlist the flattened circuit is the original one with exactly the addressed '
  'elements changed, every instance refers to a definition that is present, and untouched definitions are unchanged. '
  'Edits of things an instance does not have raise and change nothing; an instance keeps its edits until another '
  'subcircuit is given to it or the netlist is reset. (The names of the definitions made for edited instances are '
  'up to the library, as long as no other definition has them.) An edit of a definition itself (get_subcircuit_named) reaches '
  'every instance of it that has no edits of its own, whether or not it was read before, and no other definition.',
  ['histories', 'programs'],
  'all edit sequences up to a bounded depth over circuits with shared, nested and locally defined subcircuits',
  'The tests modify one or two instances of one fixture; aliasing between instances shows only in histories that mix instances, levels and reads.',
  [ED + 'spice_subcircuit_instance.py', ED + 'spice_subcircuit.py', ED + 'spice_components.py'],
  [('copy on write of the definition', ED + 'spice_subcircuit_instance.py: SpiceCircuitInstance.subcircuit, begin_update, end_update'),
   ('emission of modified definitions', ED + 'spice_subcircuit.py: SpiceCircuit.write_lines, modified_subcircuits, clone')],
  ['getters through X1:R1 paths', 'flattened saved netlist'],
  'exhaustive exploration of hierarchical edit sequences on the real editor against a flattened reference circuit',
  'model_checking', 'Flattening of the saved file is done by an independent reader in the harness.')

P('C04', 'Reset restores the original circuit',
  'After any sequence of edits, resetting a circuit (netlist, LTspice schematic or QSPICE schematic) makes it '
  'indistinguishable from a freshly loaded one: same reads, same saved output, empty list of pending updates. '
  'Edits made after a reset behave as on a freshly loaded circuit. Saving a circuit writes its current state to the file named, and to that '
  'file only; after save_as that file is the one that a reset goes back to.',
  ['histories'],
  'all edit sequences up to a bounded depth, followed by a reset and by every single edit, for the three editors',
  'Tests reset once after a fixed list of edits; what survives a reset depends on which caches the history touched.',
  [ED + 'spice_file.py', ED + 'base_schematic.py', ED + 'asc_editor.py', ED + 'qsch_editor.py', ED + 'base_editor.py', ED + 'spice_subcircuit.py'],
  [('reload from file', ED + 'spice_file.py: SpiceFile.reset_netlist'),
   ('schematic reset', ED + 'base_schematic.py: BaseSchematic.reset_netlist; ' + ED + 'asc_editor.py, ' + ED + 'qsch_editor.py: reset_netlist')],
  ['getters', 'save_netlist'],
  'breadth-first exploration of edit histories; differential oracle against a freshly loaded editor',
  'model_checking', 'Differential: the reset editor and a fresh editor must agree on all observations.')

P('C05', 'The update record tells what was changed',
  'The list of updates recorded by an editor names every parameter, component value, component parameter, '
  'instruction and component changed, added or deleted since it was loaded, with the last value given to it, and '
  'names nothing else. Reading, saving and failed edits record nothing, and the record attached to a launched '
  'simulation is not altered by edits made afterwards.',
  ['histories'],
  'all sequences of edits, reads, saves and failing edits up to a bounded depth for the three editors',
  'Tests check the record after single edits; staleness and aliasing need repeated and mixed edits.',
  [ED + 'updates.py', ED + 'base_subcircuit.py', ED + 'base_schematic.py', ED + 'spice_components.py', ED + 'spice_subcircuit.py',
   ED + 'asc_editor.py', ED + 'qsch_editor.py'],
  [('recording', ED + 'updates.py: Updates.add_update; ' + ED + 'base_subcircuit.py: end_update'),
   ('classification add/update/delete', ED + 'spice_subcircuit.py: set_parameter; ' + ED + 'spice_components.py: set_value, set_parameter')],
  ['editor.netlist_updates', 'RunTask.edits'],
  'breadth-first exploration of edit sequences against a reference log', 'model_checking',
  'Reference log is a dictionary keyed by item.')

P('C06', 'Simulation instructions behave as a set with one analysis',
  'In each editor, adding an instruction makes it present exactly once, adding it again changes nothing, removing it '
  '(by text or by pattern) removes what matches and nothing else, and the answer tells whether something was '
  'removed. At most one analysis directive is active at any time: adding another analysis replaces the previous one. '
  'The instructions in the saved file are those present in the editor.',
  ['histories'],
  'all sequences of instruction additions and removals up to a bounded depth for the three editors',
  'Tests add two or three instructions in one order.',
  [ED + 'spice_file.py', ED + 'spice_subcircuit.py', ED + 'asc_editor.py', ED + 'qsch_editor.py', ED + 'spice_utils.py'],
  [('netlist instructions', ED + 'spice_file.py: add_instruction, remove_instruction, remove_Xinstruction'),
   ('schematic instructions', ED + 'asc_editor.py, ' + ED + 'qsch_editor.py: add_instruction, remove_instruction, remove_Xinstruction')],
  ['saved file'], 'breadth-first exploration of add/remove sequences on the real editors against a set model',
  'model_checking', 'Three editors, common alphabet.')

P('C07', 'LTspice schematic edits: read back, saved, rest untouched',
  'Loading an LTspice schematic and saving it keeps all its drawing and electrical content; after any sequence of '
  'edits (values, parameters, attributes, positions, components, circuit parameters) reads return the last value '
  'given, the saved schematic loaded again gives the same answers, and everything not addressed is unchanged. An edit of a '
  'component inside a hierarchical block is written to the schematic of that block, for all levels and for all blocks that '
  'share it, and components of libraries are refused.',
  ['histories', 'inputs'],
  'all edit sequences up to a bounded depth over small schematics, flat and hierarchical, and all text/orientation forms up to a bound for the round trip',
  'The tests compare golden files for one fixture and single edits.',
  [ED + 'asc_editor.py', ED + 'ltspice_utils.py', ED + 'base_schematic.py'],
  [('parse', ED + 'asc_editor.py: AscEditor.reset_netlist'), ('write', ED + 'asc_editor.py: AscEditor.save_netlist')],
  ['getters', 'saved .asc'], 'breadth-first exploration of edit sequences + exhaustive record forms, against a reference model',
  'model_checking', 'Round trip is judged on a canonical form of the file computed by an independent reader in the harness.')

P('C08', 'QSPICE schematic edits: read back, saved, rest untouched',
  'Loading a QSPICE schematic and saving it reproduces the file; after any sequence of edits (values, models, component '
  'parameters, positions, removal of components, circuit parameters) reads return the last value given, the saved schematic '
  'loaded again gives the same answers, and everything not addressed is unchanged. The netlist written from a schematic has '
  'its enabled components with the nets their pins are connected to, their values and parameters in the form of their kind '
  '(models, embedded definitions and unused pins included), and its directives. An edit '
  'of a component inside a hierarchical block is written to the schematic of that block and to the netlist.',
  ['histories', 'inputs'],
  'all edit sequences up to a bounded depth, all token texts up to a bounded length for the record syntax',
  'The tests compare golden files for one fixture and single edits.',
  [ED + 'qsch_editor.py', ED + 'base_schematic.py'],
  [('record syntax', ED + 'qsch_editor.py: QschTag.parse, QschTag.out'), ('edits', ED + 'qsch_editor.py: QschEditor.set_component_value, set_parameter')],
  ['getters', 'saved .qsch'], 'breadth-first exploration of edit sequences + exhaustive record texts, against a reference model',
  'model_checking', 'Token alphabet and depth are stated in the evidence.')

P('C09', 'Engineering notation is parsed and written consistently',
  'A number written in engineering notation by the library reads back as the same number to the printed precision, '
  'for every magnitude and sign the suffixes cover; reading a text consisting of a number, an optional suffix and '
  'optional unit letters gives the number times the SPICE meaning of the suffix, independent of letter case (m and M are '
  'milli, MEG is mega, F is femto); texts that do not start with a number are reported as such and never turned into one. '
  'A number with a unit computes and compares as the float it is.',
  ['inputs'], 'all mantissas of a bounded number of digits, all decades, signs and suffix spellings; all short texts over a token alphabet',
  'Tests check about twenty values; wrong rounding and suffix boundaries appear only at particular mantissa/decade pairs.',
  ['spicelib/utils/float_unit.py', ED + 'primitives.py'],
  [('parse', 'spicelib/utils/float_unit.py: scan_eng, to_float'), ('format', 'spicelib/utils/float_unit.py: format_eng, float_unit')],
  ['return values'], 'exhaustive enumeration of bounded numerals and texts against an exact decimal reference',
  'exploration', 'Exact rational arithmetic reference.')

P('C10', 'Sweeps yield exactly the requested points',
  'A linear, logarithmic or counted sweep yields the requested start, every step or the requested number of points '
  'in order, stops at the stop value inclusive and never beyond it, in both directions; a sweep that cannot reach '
  'its end is empty or refused instead of endless. Restarting the iteration yields the same points.',
  ['inputs'], 'all combinations of start, stop, step/count over a small grid of values including zero, negative and non-representable steps',
  'Tests check some ten sweeps; off-by-one and rounding at the stop value depend on the combination.',
  ['spicelib/utils/sweep_iterators.py'],
  [('iteration', 'spicelib/utils/sweep_iterators.py: sweep, sweep_n, sweep_log, sweep_log_n')],
  ['list(sweep(...))'], 'exhaustive enumeration of sweep arguments against an exact rational reference', 'exploration',
  'Grid of arguments is finite and stated.')

P('C11', 'Stepped simulations cover the whole product of sweeps',
  'Running a stepping plan launches one simulation for every combination of the values of all the added sweeps, each '
  'exactly once, and the circuit given to each launch holds precisely that combination. The total announced '
  'before the run equals the number of launches, the step information recorded for a launch names the values it was '
  'given, and running the plan again repeats it.',
  ['programs', 'histories'], 'all plans of up to three sweep dimensions of every kind and size, and all call orders up to a bound',
  'No test covers the stepping engine.',
  ['spicelib/sim/sim_stepping.py'],
  [('nested iteration', 'spicelib/sim/sim_stepping.py: SimStepper.run_all, total_number_of_simulations')],
  ['netlists given to the runner'], 'exhaustive enumeration of stepping plans on the real engine against the Cartesian product',
  'exploration', 'Recording runner instead of a simulator.')

S = 'spicelib/sim/'
P('C12', 'No more simulations in parallel than allowed, and none waits forever',
  'Under every schedule, the number of simulations running at the same time never exceeds the configured number of '
  'parallel simulations for launches that wait for resources (run_now and wait_resource=False launches are not limited); a launch that must wait proceeds as soon as a slot is free, and waiting for completion '
  'returns after the last simulation ends (or after the given timeout), whatever the order in which they finish.',
  ['schedules'], 'all thread interleavings up to a preemption bound of 2-4 simulations with 1-2 slots and all completion orders',
  'No test covers the runner; the failing schedules need a preemption between a check and the action it guards.',
  [S + 'sim_runner.py', S + 'run_task.py'],
  [('slot accounting', S + 'sim_runner.py: SimRunner.active_threads, run, wait_completion, update_completed'), ('task life cycle', S + 'run_task.py: RunTask.run')],
  ['start/stop of the simulator stand-in'], 'stateless exploration of thread interleavings of the real runner under a controlled scheduler (preemption bounded)',
  'model_checking', 'Virtual time; scheduling points at every line of the runner code.')

P('C13', 'Every launched simulation is accounted for exactly once',
  'Every launch that is accepted runs its simulator exactly once on its own uniquely named netlist, and appears '
  'exactly once among the results, whether they are collected by iteration, by waiting or by handle; the success '
  'and failure counters add up to the launches when everything has completed, and a result is handed out only '
  'after its files are complete. A launch has the switches, the time limit, the simulator and the callback arguments that were '
  'in force when it was launched.',
  ['schedules', 'histories'], 'all interleavings up to a preemption bound, all mixes of outcomes and collection methods up to a bound',
  'No test covers the runner.',
  [S + 'sim_runner.py', S + 'run_task.py'],
  [('accounting', S + 'sim_runner.py: SimRunner.update_completed, __iter__, __next__, _run_file_name'), ('result', S + 'run_task.py: RunTask.run, get_results, wait_results')],
  ['runner.okSim, failSim, runno, iteration'], 'stateless exploration of thread interleavings and outcome mixes on the real runner', 'model_checking', 'As C12.')

P('C14', 'A failing simulation or callback stays contained',
  'A simulation that fails (non-zero exit, crash of the launcher, missing outputs, timeout, failing callback) is '
  'reported as failed, keeps its log in a recognisable failure file when there is one, never calls the callback with '
  'missing outputs, and neither stops nor alters '
  'the other simulations, which still deliver their results and callbacks exactly once with their own files.',
  ['fault_sequences', 'schedules'], 'all assignments of failure kinds to up to three simulations, all callback kinds, sequential and parallel',
  'No test covers failures of a simulation.',
  [S + 'run_task.py', S + 'sim_runner.py', S + 'process_callback.py'],
  [('error containment', S + 'run_task.py: RunTask.run'), ('callback dispatch', S + 'run_task.py: RunTask.run; ' + S + 'process_callback.py')],
  ['RunTask.retcode, get_results, .fail files'], 'exhaustive fault assignment over bounded launch histories on the real runner', 'fault_enumeration',
  'Faults injected in a simulator stand-in.')

P('C15', 'Clean-up removes exactly the files the runner created',
  'Asking the runner to clean up removes the netlists, logs, raw files and operating point files of the simulations '
  'it launched, and never a file it did not create: the source circuit, other files in the output folder, outputs of '
  'simulations still running and files whose names merely resemble them stay.',
  ['histories', 'configurations'], 'all launch histories up to a bound crossed with all populations of bystander files and output folder settings',
  'No test covers the clean-up.',
  [S + 'sim_runner.py'],
  [('deletion', S + 'sim_runner.py: SimRunner.cleanup_files, file_cleanup'), ('naming', S + 'sim_runner.py: _run_file_name, _to_output_folder')],
  ['directory contents'], 'exhaustive enumeration of launch histories and directory populations on the real runner in scratch', 'exploration',
  'Scratch directories only.')

P('C16', 'Remote simulation: each job is delivered once, to its own session',
  'Every simulation accepted by the server is executed once and its results are delivered to the session that asked '
  'for it, once, under the identifier it was given, with the files that this simulation produced; status enquiries '
  'list exactly the jobs of the session. Closing a session or stopping the server removes their files and never '
  'affects other sessions. The files sent with a circuit or before it are on the server with their content when the request ends; '
  'requests of a closed session and circuits that do not exist are refused.',
  ['histories', 'schedules'], 'all sequences of requests by up to two sessions up to a bounded depth, with completions at every point',
  'No test covers client or server.',
  ['spicelib/client_server/sim_server.py', 'spicelib/client_server/srv_sim_runner.py', 'spicelib/client_server/sim_client.py'],
  [('sessions', 'spicelib/client_server/sim_server.py: SimServer'), ('execution', 'spicelib/client_server/srv_sim_runner.py: ServerSimRunner'), ('collection', 'spicelib/client_server/sim_client.py: SimClient.__next__')],
  ['server API answers', 'output folder'], 'exhaustive exploration of request/completion sequences on the real server and client objects', 'model_checking',
  'Transport replaced by direct calls; completions are scheduled by the harness.')

R = 'spicelib/raw/'
P('C17', 'RAW files written are read back unchanged',
  'A waveform file written by the library and read back has the same plot properties, traces, axis and sample '
  'values to the precision of the numerical type of each trace, for every combination of data type, storage format, '
  'encoding, number of traces and number of points the writer accepts. Complex samples in a file that is not complex '
  'are refused. (Time samples are not negative.)',
  ['inputs', 'configurations'], 'all combinations of plot type, numeric type, trace count, point count, stepping and storage option up to a bound, with special values',
  'Tests write a few files; a wrong offset shows only for particular type/size combinations.',
  [R + 'raw_write.py', R + 'raw_read.py', R + 'plot_data.py', R + 'raw_classes.py', R + 'plot_interface.py'],
  [('write', R + 'raw_write.py: RawWrite.save'), ('read', R + 'raw_read.py: RawRead; ' + R + 'plot_data.py: PlotData.read_trace_data')],
  ['RawRead accessors'], 'exhaustive enumeration of bounded file shapes: write, read back, compare with an independent decoder', 'exploration', 'Independent encoder/decoder in the harness.')

P('C18', 'RAW content does not depend on how it is loaded',
  'The values of a trace are the same whatever subset of traces is requested, in whatever order or case, loaded '
  'eagerly, lazily or header first, in one call or several, and for every binary layout (normal or fast access, '
  'ASCII, single, double or complex); requesting a trace never changes another one. The properties, flags, sizes, '
  'aliases and backannotations answered are those of the header of each plot.',
  ['histories', 'configurations'], 'all subsets and request orders of up to four traces, for every layout',
  'Tests load everything or one trace.',
  [R + 'raw_read.py', R + 'plot_data.py'],
  [('selection and skipping', R + 'plot_data.py: PlotData.read_trace_data and the skip functions'), ('lazy reading', R + 'raw_read.py: RawRead.read_trace_data')],
  ['get_trace/get_wave'], 'exhaustive enumeration of load histories over independently encoded files', 'model_checking', 'Files are encoded by the harness, not by the library under test.')

P('C19', 'Steps partition the data of a RAW file',
  'In a stepped file the steps are disjoint, in order and together make up exactly all the points; what is read for '
  'one step (axis, traces, length, point access, exports) is what that step wrote, and step selection by parameter '
  'values returns exactly the steps whose values match. A file without step information whose axis does not tell the '
  'steps apart may be refused.',
  ['inputs'], 'all partitions of up to a bounded number of points into steps of varying length, for every axis shape',
  'Tests read a few stepped files with regular steps.',
  [R + 'plot_data.py', R + 'raw_read.py', R + 'raw_classes.py'],
  [('step boundaries', R + 'raw_classes.py: Axis.set_steps, step_offset, get_len'), ('selection', R + 'plot_data.py: get_steps')],
  ['get_wave(step), get_len(step), get_steps(...)'], 'exhaustive enumeration of step partitions against a list-of-lists model', 'exploration', 'Files encoded by the harness.')

P('C20', 'A truncated RAW file is never read as wrong data',
  'If a waveform file is cut short at any byte, opening or reading it either reports an error or returns only '
  'values that were actually written, never invented, shifted or silently missing samples presented as a complete file. '
  'A file cut between two plots, or inside the header of a later plot, is a readable file of the earlier plots.',
  ['crash_points'], 'every truncation length of files of every layout',
  'No test reads a damaged file.',
  [R + 'raw_read.py', R + 'plot_data.py'],
  [('size check', R + 'plot_data.py, ' + R + 'raw_read.py: header and data block reading')],
  ['RawRead outcome'], 'exhaustive crash-point enumeration: every prefix of every layout', 'fault_enumeration', 'Every byte position.')

P('C21', 'Exports of waveforms contain what was read',
  'Exporting a waveform file (dictionary, CSV, spreadsheet-like table, conversion between formats) yields for each '
  'requested trace and step exactly the values read, in order, under the right column names, and does not change '
  'the loaded data. (The spreadsheet export needs pandas, which is not available here, and is not checked.)',
  ['inputs', 'configurations'], 'all column selections, step selections and formats over small files',
  'Tests export one file.',
  [R + 'raw_read.py', R + 'plot_data.py', 'spicelib/scripts/raw_convert.py'],
  [('export', R + 'raw_read.py, ' + R + 'plot_data.py: export, to_csv'), ('conversion', 'spicelib/scripts/raw_convert.py')],
  ['exported structures and files'], 'exhaustive enumeration of export requests against the decoded data', 'exploration', 'CSV parsed by the harness.')

P('C22', 'Measurements of a log belong to the right step and name',
  'For every log file the number of steps, the values of the step variables and each measurement value read are '
  'those printed for that step and that name, and nothing else is taken for a measurement; filtering by step variables '
  'returns exactly the matching rows, and failed or missing measurements never shift the values of other steps. The '
  'same holds for Fourier components (signal, step, harmonic) and for operating points of semiconductor devices.',
  ['inputs'], 'all generated logs up to a bounded number of steps, step variables and measurements including failed ones and every value form',
  'Tests read a dozen fixed logs.',
  ['spicelib/log/ltsteps.py', 'spicelib/log/logfile_data.py', 'spicelib/log/qspice_log_reader.py'],
  [('parsing', 'spicelib/log/ltsteps.py: LTSpiceLogReader; spicelib/log/qspice_log_reader.py: QspiceLogReader'), ('selection', 'spicelib/log/logfile_data.py: LogfileData.steps_with_conditions, get_measure_value')],
  ['LogfileData accessors'], 'exhaustive enumeration of bounded logs printed from a model and read back', 'exploration', 'Logs printed by the harness in the LTspice/QSPICE layouts.')

P('C23', 'Tables exported from logs match the log',
  'Exporting measurements and step variables to a table gives one row per step with each value in the column of its '
  'name, complex values split or kept as documented, values that need it quoted, and reading the exported text back '
  'gives the values of the log. This includes the Fourier tables, the ltsteps script on .log, .mout and .txt files, and '
  'waveform text exports, where each line is related to its run and to the values of the stepped parameters.',
  ['inputs', 'configurations'], 'all generated logs up to a bound crossed with the export options',
  'Tests compare one or two exports.',
  ['spicelib/log/logfile_data.py', 'spicelib/log/ltsteps.py', 'spicelib/scripts/ltsteps.py'],
  [('export', 'spicelib/log/logfile_data.py: LogfileData.export_data, split_complex_values_on_datasets'), ('waveform text exports', 'spicelib/log/ltsteps.py: LTSpiceExport, reformat_LTSpice_export')],
  ['exported file'], 'exhaustive enumeration of bounded logs and options, re-reading the export', 'exploration', '')

T = 'spicelib/sim/tookit/'
P('C24', 'Worst-case analysis visits every corner',
  'A worst-case analysis simulates the nominal circuit and every combination of minimum and maximum of all the '
  'components with a tolerance, each exactly once, using for each component the tolerance that applies to it '
  '(its own, else that of its kind), and reports the extreme values over what was simulated; it starts from the original circuit '
  'with the user\'s instructions whatever was done before, and leaves nothing else changed. The fast analysis reports values its settings '
  'really give, that no change of one element improves, and the true extremes of monotonic circuits.',
  ['inputs', 'configurations', 'histories'], 'all mixes of tolerance definitions on a circuit of up to seven toleranced elements, histories of up to five operations',
  'No test covers the toolkit.',
  [T + 'worst_case.py', T + 'tolerance_deviations.py', T + 'fast_worst_case.py', T + 'sim_analysis.py'],
  [('corner enumeration', T + 'worst_case.py: WorstCaseAnalysis.run_analysis, prepare_testbench'), ('tolerance resolution', T + 'tolerance_deviations.py: ToleranceDeviations.get_components, component_tolerances')],
  ['netlists launched'], 'exhaustive enumeration of tolerance definitions and operation histories; every circuit launched is evaluated separately and compared with the Cartesian product of the limits', 'model_checking', 'Recording runner.')

P('C25', 'Tolerance analyses change only toleranced elements, within bounds',
  'Sensitivity and Monte Carlo analyses launch the announced number of circuits; in each of them every component '
  'with a tolerance stays within its tolerance (Monte Carlo draws span it, sensitivity deviates exactly one element at a time '
  'to one of its limits) and every other element is as in the original circuit with the user\'s instructions; '
  'splitting the analysis in batches of any size covers each run exactly once, the measurements returned are those simulated, in order, '
  'and no analysis affects what a later one, or a saved netlist, starts from.',
  ['inputs', 'configurations'], 'all small toleranced circuits, run counts and batch sizes, with the random source enumerated at its extreme and central values',
  'No test covers the toolkit.',
  [T + 'montecarlo.py', T + 'quick_sensitivity_analysis.py', T + 'sim_analysis.py', T + 'tolerance_deviations.py'],
  [('deviation', T + 'montecarlo.py: Montecarlo'), ('batches', T + 'sim_analysis.py: SimAnalysis')],
  ['netlists launched'], 'exhaustive enumeration of tolerance definitions, run counts, batch sizes, random answers and operation histories; every circuit launched is evaluated separately', 'model_checking', 'Random source owned by the harness.')

P('C26', 'Text encoding and library files are found correctly',
  'A text file is opened with an encoding that decodes it to the text that was written, for the encodings simulators '
  'produce; searching for a library or include file returns the file at the first location, in the given order, '
  'that has it, inside folders or zip archives alike, regardless of the letter case of its name, and nothing when no '
  'location has it; the subcircuit taken from a library is the one with exactly the name asked for. An editor takes a '
  'file (library, include, symbol, schematic of a block) from the folder of the circuit, else from the current folder, else '
  'from the library paths of simulator and user, whichever come first for that kind of file; files that are included are '
  'read in their own encoding; a symbol of LTspice gets the model it names from the library it names. The library folders of a simulator are those of its default ones that exist, for the user or, '
  'under wine, in the drive of its executable.',
  ['inputs', 'configurations'], 'all encodings crossed with text shapes; all placements of up to three files over up to three locations',
  'Tests use fixed files in at most two encodings.',
  ['spicelib/utils/detect_encoding.py', 'spicelib/utils/file_search.py', 'spicelib/editor'],
  [('library folders', S + 'simulator.py: get_default_library_paths'), ('detection', 'spicelib/utils/detect_encoding.py: detect_encoding'), ('search', 'spicelib/utils/file_search.py: search_file_in_containers')],
  ['return values'], 'exhaustive enumeration of encodings, contents and placements', 'exploration', '')

P('C27', 'Merging waveform files keeps samples aligned',
  'Adding the traces of one waveform file to another yields traces of the right length whose samples belong to the '
  'same axis position as in the source; when the axes differ, samples are interpolated or refused as requested and '
  'never silently attached to other axis positions. Points outside the range common to the axes are left out; axes '
  'without common range are refused, and the source is never changed. A waveform file made of the traces of several runs has '
  'those of each run that meets the conditions, named after the run, and the answer tells whether all the runs are there.',
  ['inputs'], 'all pairs of small axes over a grid, with every merge option',
  'One test merges one pair.',
  [R + 'raw_write.py'], [('merge', R + 'raw_write.py: RawWrite.add_traces_from_raw')],
  ['saved file'], 'exhaustive enumeration of axis pairs against a dictionary model', 'model_checking', '')

P('C28', 'Simulator command lines are composed as requested',
  'For each supported simulator the launched command has the executable, the netlist, the output options and every '
  'user switch exactly as given, in the order the simulator needs; switches the simulator does not have, or that '
  'the library sets itself, are refused, and the simulation is given the requested timeout.',
  ['inputs', 'configurations'], 'all switch combinations up to a bound for the four simulators',
  'No test covers command composition.',
  ['spicelib/simulators/ltspice_simulator.py', 'spicelib/simulators/ngspice_simulator.py', 'spicelib/simulators/qspice_simulator.py', 'spicelib/simulators/xyce_simulator.py', S + 'simulator.py'],
  [('composition', 'spicelib/simulators/*: run, valid_switch'), ('launch', S + 'simulator.py: run_function')],
  ['arguments given to the process launcher'], 'exhaustive enumeration of switch lists with a recording process launcher', 'exploration', 'No process is launched.')

P('C29', 'Schematic conversion keeps the circuit',
  'Converting an LTspice schematic to a QSPICE schematic keeps every component with its reference, value and '
  'connectivity, every wire, net label and directive, and the geometry consistent under the conversion scale; the '
  'converted file can be loaded and gives the same component values. A wire of a schematic touches exactly the points it '
  'passes through.',
  ['inputs'], 'all small schematics over component kinds, orientations, labels and directives',
  'No test converts more than one fixture.',
  ['spicelib/scripts/asc_to_qsch.py', ED + 'asy_reader.py', ED + 'qsch_editor.py', ED + 'asc_editor.py', ED + 'base_schematic.py'],
  [('conversion', 'spicelib/scripts/asc_to_qsch.py: convert_asc_to_qsch'), ('symbols', ED + 'asy_reader.py: AsyReader.to_qsch')],
  ['converted file'], 'exhaustive enumeration of bounded schematics, converted and compared record by record', 'exploration', '')


P('C30', 'Histograms and plots show the data asked for',
  'A histogram (script, or plot_histogram of a log) uses exactly the values of the requested trace, from a table, a log or the clipboard, that satisfy '
  'all the given conditions or belong to the given steps; the bars, the fitted curve, the limits and the printed statistics are those of these values under the '
  'given options. The script that plots RAW files shows each requested trace, for each step, against its axis; '
  'complex traces as magnitude and phase.',
  ['inputs', 'configurations'], 'all bounded tables, logs, conditions and option combinations; all RAW layouts and choices of traces',
  'No test runs these scripts.',
  ['spicelib/scripts/histogram.py', 'spicelib/scripts/rawplot.py', 'spicelib/log/logfile_data.py'],
  [('values and statistics', 'spicelib/scripts/histogram.py: main'), ('plots', 'spicelib/scripts/rawplot.py: main')],
  ['figures made by the scripts'], 'exhaustive enumeration of bounded inputs and options with an independent reference', 'exploration', '')


def main():
    claimed = []
    na = []
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                            'observe_at': p['observe'], 'hook_needed': None}}) + '\n')
            assert len(p['title']) <= 80, p['title']
            mods = glob.glob(os.path.join(HERE, 'checks', p['id'].lower() + '_*.py'))
            if mods and not p['na']:
                p['level'] = re.search(r"^LEVEL = '(\w+)'", open(mods[0]).read(), re.M).group(1)
                claimed.append(p)
            else:
                na.append({'property': p['id'], 'reason': p['na'] or 'check not built yet'})
    man = {'version': 1, 'setup_cmd': 'bash /verif/setup.sh',
           'checks': [{'property': p['id'], 'quick_cmd': f"bash check.sh {p['id']} quick",
                       'thorough_cmd': f"bash check.sh {p['id']} thorough",
                       'technique': p['technique'], 'level': p['level'], 'level_note': p['note'] or p['technique']}
                      for p in claimed],
           'not_applicable': na,
           'notes': 'All checks explore the real code directly from /repo (no hooks in /repo, no build products); see DESIGN.md.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    print(len(claimed), 'claimed', len(na), 'not claimed')


if __name__ == '__main__':
    main()
