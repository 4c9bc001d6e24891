#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json:  python3 tools/meta.py"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def P(id, title, statement, over, text, why, files, mech, level='proof', note='', technique=None, observe=None, na=None):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                level=level, note=note, technique=technique, observe=observe, na=na)


PROPS = [
P('C01', 'What the RAW writer saves, the RAW reader reads back',
  'Reading a file that was saved by the RAW writer gives the same variable names, kinds and order, the same plot name and '
  'point count, and for every variable the samples that were written, exactly for an axis stored in double precision and within the rounding of the storage type otherwise. '
  'This holds for transient, AC, DC, operating-point, noise and transfer-function data, real and complex, interleaved or fast-access.',
  ['inputs', 'configurations'], 'all data sets (names, number of variables, number of points, sample values), plot types, numeric types and layouts',
  'The tests write a handful of files of fixed size; the offsets, widths and orderings are functions of the number of variables, points and types.',
  ['spicelib/raw/raw_write.py', 'spicelib/raw/raw_read.py', 'spicelib/raw/plot_data.py', 'spicelib/raw/raw_classes.py'],
  [('header and binary block written', 'RawWrite.save, Trace'), ('header parsed, record layout decided', 'PlotData._read_header/read_trace_data'), ('sample decoding', 'plot_data read_float32/float64/complex, consume_*')]),
P('C02', 'RAW reading does not depend on which traces are asked for, when or in what order',
  'For one RAW file the samples of a variable are the same whether all variables, only that one, or any subset in any order is requested, and whether they are loaded when the file is opened or later. '
  'The same data stored as ASCII values, as binary records or in the fast-access layout reads as the same waves, and no request changes what earlier or later requests return.',
  ['inputs', 'histories', 'configurations'], 'all files, all subsets and orders of requested traces, all storage layouts',
  'Tests open each sample file once with a fixed selection; skipping of unrequested traces is exercised for very few positions.',
  ['spicelib/raw/plot_data.py', 'spicelib/raw/raw_read.py'],
  [('selective reading with skipped columns', 'PlotData.read_trace_data'), ('access to traces by name, alias or index', 'PlotData.get_trace/get_wave')]),
P('C03', 'Steps partition stepped data',
  'In stepped data, the per-step waves of every variable concatenated in step order are exactly the whole stored vector, every step starts where the axis returns to its first value, and the length reported for a step is the length of its wave. '
  'Point access by (step, index) returns the sample at that index of that step, axis and traces agree on where every step begins and ends, and asking for the steps with given parameter values gives exactly the steps that were run with them.',
  ['inputs'], 'all numbers of steps, all step lengths, all sample values, any step and point index',
  'Tests read two or three stepped files; boundaries between steps are index arithmetic over arbitrary lengths.',
  ['spicelib/raw/raw_classes.py', 'spicelib/raw/raw_read.py', 'spicelib/raw/plot_data.py'],
  [('step boundaries', 'Axis.set_steps, Axis.step_offset'), ('slices', 'Axis.get_wave, TraceRead.get_wave, get_len, get_point')]),
P('C04', 'Looking a value up on the axis interpolates between its neighbours',
  'Asking a trace for its value at a stored axis position returns the stored sample, between two stored positions it returns the linear interpolation of the two neighbours, and outside the range of the axis it raises an index error instead of returning a value. '
  'The position reported for an axis value is the index of the sample with that value, or the index of the lower neighbour plus the fraction travelled; in stepped data the lookup uses only the samples of the requested step.',
  ['inputs'], 'all ascending axes, all query points, all steps',
  'No test interpolates; correctness at the borders (first, last, duplicated, step boundaries) is a for-all over query points.',
  ['spicelib/raw/raw_classes.py'],
  [('position search', 'Axis.get_position'), ('interpolation', 'TraceRead.get_point_at')]),
P('C05', 'Engineering notation keeps the value',
  'Reading back the text produced for a number in engineering notation gives that number within the digits printed, for every finite number and sign, the mantissa carries the suffix of its power of 1000, and zero stays zero. '
  'Reading a value text with any documented SPICE suffix in any letter case (meg is mega, m is milli, and F alone is the unit farad), with trailing unit letters, as an embedded-multiplier form such as 4k7, or in plain or exponent notation gives the number it denotes; text that is not a number is returned unchanged where a fallback is offered and rejected otherwise.',
  ['inputs'], 'all finite floats, all suffixes, spellings and unit letters',
  'The tests format a short table of values; suffix selection and scaling must hold for every magnitude and text.',
  ['spicelib/utils/float_unit.py', 'spicelib/editor/editor_errors.py', 'spicelib/editor/primitives.py'],
  [('formatting', 'format_eng'), ('scanning', 'scan_eng, parse_value, to_float, convert_to_value'), ('typed component values', 'Primitive.value, scan_eng users')]),
P('C06', 'Sweep iterators enumerate exactly the progression between their limits',
  'A linear sweep yields start, start+step, start+2*step and so on, every item up to the limit and none beyond it, in the direction given by its limits or its negative step; a logarithmic sweep yields each item as the previous one times the ratio. '
  'The N-point variants yield exactly N items from start to stop, and iterating any of them again starts over with the same items.',
  ['inputs', 'histories'], 'all limits, steps, ratios, counts, and interrupted iterations',
  'Tests list a dozen sweeps; the number and value of items are a function of three numbers and of the iteration history.',
  ['spicelib/utils/sweep_iterators.py'],
  [('iterators', 'BaseIterator, sweep, sweep_n, sweep_log, sweep_log_n')]),
P('C07', 'Editing a component of a netlist changes that component and nothing else',
  'After a component value, model or parameter of a SPICE netlist is set, reading it returns what was set, in memory and after the netlist is saved and read again, and component renaming or removal affects only that component. '
  'Every other component, directive, comment and subcircuit of the netlist is unchanged, so are the other parameters of the component, and an untouched netlist is saved with the same statements it was loaded with.',
  ['inputs', 'histories'], 'all netlists of the supported statements, all component types, values, and sequences of edits',
  'Tests edit one netlist with a few values; the line grammar of every component prefix and the frame (all other lines) is a for-all.',
  ['spicelib/editor/spice_subcircuit.py', 'spicelib/editor/spice_components.py', 'spicelib/editor/spice_editor.py', 'spicelib/editor/spice_file.py', 'spicelib/editor/spice_utils.py', 'spicelib/editor/base_editor.py'],
  [('component grammar and line rewriting', 'SpiceComponent, component_replace_regexs'), ('lookup and netlist list', 'SpiceCircuit.get_component/set_component_*'), ('save', 'SpiceCircuit.save_netlist')]),
P('C08', 'Directives and parameters are added once, replaced and removed exactly',
  'After a parameter is set, reading it gives the value set whether or not it existed before and wherever it is on a shared line, and all other parameters keep their values. '
  'A unique simulation directive (.AC, .DC, .TRAN, .NOISE or .TF) replaces the previous one so that one analysis remains, other directives are added once and are found by removal in the same text, and directives always land before the end of the main circuit so that they survive saving.',
  ['inputs', 'histories'], 'all sequences of parameter and directive edits on SPICE netlists and schematics',
  'Tests perform a few edits on one circuit; interaction of edits (shared .PARAM lines, repeated and unique directives) grows with history.',
  ['spicelib/editor/spice_subcircuit.py', 'spicelib/editor/spice_editor.py', 'spicelib/editor/base_editor.py', 'spicelib/editor/spice_utils.py', 'spicelib/editor/asc_editor.py', 'spicelib/editor/qsch_editor.py'],
  [('parameters', 'SpiceCircuit.get_parameter/set_parameter'), ('directives', 'add_instruction, remove_instruction, remove_Xinstruction'), ('kind of directive', 'is_unique_instruction')]),
P('C09', 'The record of edits tells exactly what changed',
  'After any sequence of edits the list of updates holds one entry per edited item (the setting, or the deletion, of a parameter, component or component parameter under one name whatever its letter case; or an instruction) with the latest value, keeps the order in which items were first edited, and is empty after it is cleared or the circuit is reset. '
  'Looking an entry up returns the value last set for that item and nothing for items never edited.',
  ['histories'], 'all sequences of add, lookup and clear operations over all kinds of items',
  'Tests never look at the record after more than one edit; it is a history property.',
  ['spicelib/editor/updates.py', 'spicelib/editor/base_editor.py', 'spicelib/sim/run_task.py'],
  [('update list', 'Updates.add_update, Updates lookups'), ('recording', 'BaseEditor.add_update, netlist_updates')]),
P('C10', 'An LTspice schematic is saved with everything it was loaded with',
  'Loading an LTspice schematic and saving it writes back every sheet, wire, flag, symbol, attribute, window, text and drawing object with the same coordinates, rotation, size and text (blanks around a text and the DATAFLAG probes, which are documented as ignored, put apart), so that loading the saved file gives the same schematic. '
  'After setting a component value, attribute, parameter or position the saved file shows that change and every other line is unchanged.',
  ['inputs', 'histories'], 'all schematics of the supported ASC statements and all sequences of edits',
  'Tests compare a handful of schematics; every statement kind, alignment, rotation and order of items must survive.',
  ['spicelib/editor/asc_editor.py', 'spicelib/editor/base_schematic.py', 'spicelib/editor/ltspice_utils.py'],
  [('reader', 'AscEditor.reset_netlist'), ('writer', 'AscEditor.save_netlist'), ('edits', 'set_component_value, set_component_parameters, set_element_model, set_component_position')]),
P('C11', 'A QSPICE schematic is saved with everything it was loaded with',
  'Parsing a QSPICE schematic into its tree of tags and writing it back gives the same tree: the same tags, nesting, order and tokens, including quoted text with spaces and brackets (QSPICE texts themselves hold no double quotes). '
  'Setting a component value, model, parameter, position or instruction changes the tags of that item only, and reading it back from the saved file returns what was set.',
  ['inputs', 'histories'], 'all nested tag trees over all token kinds, all edits of components, parameters and instructions',
  'Tests compare a few schematics; the tag grammar is recursive and edits change offsets in nested lists.',
  ['spicelib/editor/qsch_editor.py', 'spicelib/editor/base_schematic.py'],
  [('tag grammar', 'QschTag.parse, QschTag.out'), ('typed access', 'get_attr, get_text, set_attr, set_text_attr'), ('edits', 'QschEditor.set_component_*, add_instruction')]),
P('C12', 'Schematic geometry is rigid',
  'Rotations add like angles in any order and grouping, the sum is mirrored when exactly one of them is, and a rotation followed by its opposite turns nothing. '
  'A wire touches exactly the points of its segment whatever the direction it was drawn in, two wires intercept exactly when an end of one lies on the other, scaling moves every coordinate of the sheet once to its rounded multiple plus the offset and changes nothing else, '
  'a component put at a position and rotation is read there again after saving, the pins of a QSPICE component in any of its sixteen orientations lie on the nets drawn at their turned places, and text alignment and rotation codes survive reading and writing.',
  ['inputs'], 'all integer coordinates, rotations, lines, scale factors and alignment codes',
  'No unit test touches the geometry; it is a finite-group and planar-geometry fact over all coordinates.',
  ['spicelib/editor/base_schematic.py', 'spicelib/editor/ltspice_utils.py', 'spicelib/editor/asc_editor.py', 'spicelib/editor/qsch_editor.py'],
  [('points, lines, rotation', 'Point, ERotation, Line'), ('codes', 'asc_text_align_set/get')]),
P('C13', 'Stepped simulations cover the Cartesian product exactly once',
  'Running a stepped simulation launches one simulation for every combination of the stepped values, each combination exactly once, with the first dimension added varying slowest and the last one fastest, and with the circuit carrying exactly the values of that combination when it is launched. '
  'The announced number of simulations, the recorded step table and the number of launches agree, and with no dimension exactly one simulation runs.',
  ['inputs', 'histories'], 'all numbers of step dimensions, all value lists, all kinds of stepped item (component, model, parameter)',
  'Tests run no stepping at all (they need simulators); the enumeration is a function of arbitrary dimension lists.',
  ['spicelib/sim/sim_stepping.py'],
  [('enumeration', 'SimStepper.run_all, total_number_of_simulations'), ('dimensions', 'add_param_sweep, add_value_sweep, add_model_sweep')]),
P('C14', 'Tolerance analyses visit the corners and stay within the tolerances',
  'Worst-case analysis simulates the nominal circuit and every minimum/maximum combination of the components under tolerance exactly once (4096 runs or more are refused), sensitivity analysis moves one component at a time, and the values of a uniform distribution are drawn from the whole interval given by its tolerance or limits and never leave it, an interval that is six deviations wide for a normal one. '
  'The minimum and maximum reported for a measurement are the extremes of its simulated values (for the fast analysis, of a circuit monotonic in every component, the extremes over all corners), components without a tolerance keep the value of the netlist or the one the user set, a specific tolerance takes precedence over the one of its prefix, and the sensitivity reported for a component is its share of the change of the measurement.',
  ['inputs', 'configurations'], 'all sets of components, tolerances (relative or limits), and circuits',
  'Tests run one Monte-Carlo netlist generation; combinations grow exponentially with components and depend on bit patterns.',
  ['spicelib/sim/tookit/worst_case.py', 'spicelib/sim/tookit/quick_sensitivity_analysis.py', 'spicelib/sim/tookit/fast_worst_case.py', 'spicelib/sim/tookit/montecarlo.py', 'spicelib/sim/tookit/tolerance_deviations.py', 'spicelib/sim/tookit/sim_analysis.py'],
  [('corner enumeration', 'WorstCaseAnalysis.run_analysis, prepare_testbench'), ('tolerances', 'ToleranceDeviations.get_component_value_deviation_type'), ('aggregation', 'get_min_max_measure_value')]),
P('C15', 'The runner completes every accepted simulation once and keeps its counts',
  'Every simulation handed to the runner gets its own run number and its own netlist and output files, is started once, and is reported as completed exactly once, either successful or failed; unless it is told not to wait for resources, never more than the allowed number run at the same time. '
  'Waiting for completion returns when all are done and tells whether all succeeded, the counts of started, active, successful and failed simulations add up at any moment, iterating yields the result of each successful simulation once whatever the completion order, and filtering by conditions gives exactly the successful runs whose edits match.',
  ['schedules', 'histories', 'fault_sequences'], 'all sequences of submissions, all completion orders and failures, all parallelism limits',
  'Tests need a simulator and run a few in sequence; the property is over schedules of concurrent completions and failures.',
  ['spicelib/sim/sim_runner.py', 'spicelib/sim/run_task.py', 'spicelib/sim/process_callback.py'],
  [('bookkeeping', 'SimRunner.run/_run_file_name/updated_stats/active_threads'), ('completion', 'wait_completion, __iter__, __next__')]),
P('C16', 'A finished run hands over its results and its callback value once',
  'A run whose simulator ends with an error code or an exception is reported as failed, without result file and with its log put aside, and one that ends with code 0 delivers the result and log files named after its netlist. '
  'The callback is called exactly once, after the simulation, with those files and the declared extra arguments as they were when the run was started, if the run succeeded and left its files or calls on errors were asked for, and its return value is what the caller receives; without callback the caller receives the files. '
  'When the simulator or the callback fails or its process dies the run still terminates and the caller receives no value, and extra arguments that do not match the callback are refused.',
  ['inputs', 'fault_sequences'], 'all exit codes, callback kinds and signatures, callback failures, result files present or missing',
  'Tests use real simulators on a happy path; the failure and callback combinations are not reached.',
  ['spicelib/sim/run_task.py', 'spicelib/sim/process_callback.py', 'spicelib/sim/sim_runner.py'],
  [('task life cycle', 'RunTask.run, get_results, wait_results'), ('callback arguments', 'SimRunner.validate_callback_args')]),
P('C17', 'A simulation server keeps clients apart and delivers each result once',
  'Every client session gets an identifier of its own, is offered only the simulations it started, and iterating a client yields each of them exactly once, after it has finished; the files it receives for a run are those of that run. '
  'Collecting a result or closing a session never removes, delays or duplicates the runs of another session, and once collected a run is not offered again.',
  ['schedules', 'histories'], 'all interleavings of sessions starting, finishing, polling, fetching and closing',
  'No unit test starts the server; isolation is over interleavings of several clients.',
  ['spicelib/client_server/sim_server.py', 'spicelib/client_server/srv_sim_runner.py', 'spicelib/client_server/sim_client.py'],
  [('sessions', 'SimServer.start_session/run/status/get_files/close_session'), ('task tables', 'ServerSimRunner'), ('client iteration', 'SimClient.__next__')]),
P('C18', 'Selecting log data by step conditions returns exactly the matching rows',
  'Every measurement and step variable of a log has one value per step, and selecting by step conditions returns the values of exactly the steps that satisfy all conditions, in step order. '
  'Minima, maxima and averages are those of the selected values, an export writes one row per step that holds the values of that step, and adding the data of another log with the same names appends its steps and measurements without altering the ones already there or the log that was added.',
  ['inputs', 'histories'], 'all step tables, measurement tables, conditions and merges',
  'Tests read a few logs; selection is over arbitrary tables and condition sets.',
  ['spicelib/log/logfile_data.py', 'spicelib/log/ltsteps.py', 'spicelib/log/qspice_log_reader.py', 'spicelib/log/semi_dev_op_reader.py'],
  [('selection', 'LogfileData.steps_with_conditions, get_measure_value(s)_at_steps'), ('aggregation', 'min/max/avg_measure_value'), ('merging', 'SimAnalysis.add_log_data, read_logfiles'), ('export', 'export_data'), ('readers', 'LTSpiceLogReader, QspiceLogReader, opLogReader')]),
P('C19', 'Numbers in logs and exports are converted to the number they denote',
  'A field of a log or export that denotes an integer, a real number or a complex number in magnitude/phase or rectangular form is converted to that number, and any other text stays text. '
  'Measurement lines yield their name, result and condition values (FROM, TO, AT), and a complex value read in dB and degrees has that magnitude, that phase and the real and imaginary parts they imply.',
  ['inputs'], 'all field texts, all number spellings, all magnitudes and phases',
  'Tests read a few log lines; the accepted spellings are a language and the conversion must hold on all of it.',
  ['spicelib/log/logfile_data.py', 'spicelib/log/ltsteps.py', 'spicelib/log/qspice_log_reader.py'],
  [('field conversion', 'try_convert_value, split_line_into_values'), ('complex values', 'LTComplex')]),
P('C20', 'Simulator command lines carry the requested options and the right netlist',
  'The command started for a netlist consists of the simulator executable, the batch options of that simulator, the switches that were requested in the order given, and that netlist, and each documented switch is translated into its documented command-line arguments. '
  'A switch that is not known is rejected or ignored as documented and never alters the options of later runs, and no netlist is reported as run when no simulator is available.',
  ['inputs', 'configurations', 'histories'], 'all simulators, switches, parameters, sequences of runs and path values',
  'Tests run no simulator; the option tables of four simulators and state shared between runs are never checked.',
  ['spicelib/sim/simulator.py', 'spicelib/simulators/ltspice_simulator.py', 'spicelib/simulators/ngspice_simulator.py', 'spicelib/simulators/qspice_simulator.py', 'spicelib/simulators/xyce_simulator.py'],
  [('switch translation', 'valid_switch of each simulator'), ('command line', 'run, create_netlist, run_function')]),
P('C21', 'Combining simulation results keeps every trace at its own samples',
  'Adding the traces of a RAW file to another data set, over the range that both axes cover, keeps the data set already there, adds exactly the requested traces under their requested names, and gives every added trace the value it had at each axis position, interpolated linearly where the axes differ. '
  'Traces of another file are never paired with the wrong axis positions and lengths always match the resulting axis.',
  ['inputs'], 'all pairs of data sets, axes, trace selections and renamings',
  'Tests merge no files with different axes; alignment of two arbitrary axes is a for-all.',
  ['spicelib/raw/raw_write.py'],
  [('merging', 'RawWrite.add_traces_from_raw, _interpolate, _consolidate')]),
P('C22', 'Exported tables hold the samples of the traces they name',
  'Exporting traces of a RAW file to a table, a CSV file or a data frame gives one column per requested trace with the axis first, added in front when it was not requested, one row per stored point in order, and in every cell the sample of that trace at that point. '
  'Exporting selected steps gives the rows of those steps only, and exporting never changes what is read from the file afterwards.',
  ['inputs', 'histories'], 'all files, column selections, step selections and repeated exports',
  'Tests check one export; column/row correspondence must hold for all selections and step counts.',
  ['spicelib/raw/plot_data.py', 'spicelib/raw/raw_read.py'],
  [('export', 'PlotData.export, to_csv, to_dataframe, to_excel')]),
P('C23', 'Text files are decoded with an encoding that reads them and found where they are',
  'The encoding chosen for a file decodes the whole file and satisfies the first-line pattern asked for, for text with or without byte-order marks in 8-bit, UTF-8 and UTF-16 encodings, and a file that no candidate can read raises the documented error. '
  'Searching for a file in a list of paths returns an existing file with that name, ignoring letter case only where the search says so, preferring earlier paths, and returns nothing when there is none.',
  ['inputs', 'configurations'], 'all file contents and encodings, all directory trees and search lists',
  'Tests use the encodings of a few sample files; the choice depends on file content and candidate order.',
  ['spicelib/utils/detect_encoding.py', 'spicelib/utils/file_search.py', 'spicelib/editor/base_editor.py'],
  [('detection', 'detect_encoding'), ('search', 'find_file_in_directory, search_file_in_containers')]),
P('C24', 'Editing inside one subcircuit instance leaves other instances alone',
  'Setting a value or parameter through an instance path changes what is read through that path and nothing read through any other instance of the same subcircuit. '
  'After saving and reading again the edited instance still shows the edit, the other instances still show the original, and the original subcircuit definition is intact.',
  ['inputs', 'histories'], 'all netlists with shared and nested subcircuits, all instance paths and sequences of edits',
  'Tests edit one instance of one circuit; isolation is over pairs of instances and nesting depths.',
  ['spicelib/editor/spice_subcircuit.py', 'spicelib/editor/spice_subcircuit_instance.py', 'spicelib/editor/spice_components.py', 'spicelib/editor/spice_file.py'],
  [('clone on modify', 'SpiceCircuitInstance, SpiceCircuit.clone, modified_subcircuits'), ('path resolution', 'get_component, get_subcircuit')]),
P('C25', 'The netlist of a QSPICE schematic is the circuit that is drawn',
  'The netlist saved for a QSPICE schematic has exactly one line per enabled component, in schematic order, holding its reference, the nets of its pins in pin order, its model or value and all its parameter texts; disabled components have no line. '
  'Two pins have the same net exactly when a wire or label at their place says so or they are at the same place; ground is 0, and the net of an unconnected pin is used by nothing else. '
  'Every line of every directive that is not a comment follows in order, each inner schematic is there once as a sub circuit with its ports, each library once, looked for beside the schematic and then in the library paths, and .end closes the netlist.',
  ['inputs', 'configurations'], 'all QSPICE schematics: components, wires, labels, texts and inner schematics in any number and at any place',
  'The tests compare the netlists of a few golden schematics; the nets and lines are functions of where every item is.',
  ['spicelib/editor/qsch_editor.py'],
  [('net of a place, names of the unconnected', 'QschEditor._find_net_at_position, _parse_qsch_stream'), ('lines of the netlist', 'QschEditor.write_spice_to_file, save_netlist')]),
]

TECH = 'contract-based deductive verification (symbolic execution of the real source with loop contracts, z3/cvc5), bounded contract runs where labelled'


def main():
    built = {p['id'] for p in PROPS if os.path.exists(os.path.join(ROOT, 'props', p['id'] + '.py'))}
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            d = dict(id=p['id'], title=p['title'], statement=p['statement'],
                     quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                     anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']]))
            assert len(p['title']) <= 80, (p['id'], len(p['title']))
            f.write(json.dumps(d) + '\n')
    checks, na = [], []
    for p in PROPS:
        if p['na']:
            na.append(dict(property=p['id'], reason=p['na']))
        elif p['id'] not in built:
            na.append(dict(property=p['id'], reason='check not built yet'))
        else:
            checks.append(dict(property=p['id'], quick_cmd=f"./check {p['id']} --tier quick",
                               thorough_cmd=f"./check {p['id']} --tier thorough",
                               technique=p['technique'] or TECH, level=p['level'],
                               level_note=p['note'] or 'see DESIGN.md'))
    m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
             hooks=dict(guard='none', enable='no hooks are needed: the checks instrument /repo\'s source when they load it', source_commits=[]),
             notes='Every check reads /repo\'s current source, proves the contracts of props/<id>.py over it with pyvc, and runs '
                   'the labelled bounded stand-ins on the unmodified package.')
    json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)


main()
