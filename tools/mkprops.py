"""Source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P = []
G = "pyGCodeDecode/"
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": [G + f for f in files],
        "state": [{"name": n, "meaning": m, "where": G + w} for n, m, w in state],
        "mechanism": [{"name": n, "where": G + w} for n, w in mech],
        "observe_at": list(observe), "hook_needed": None}})

prop("C01", "Every planned move is a physically consistent straight-line motion",
 "For every commanded move with positive feedrate and acceleration, the planner always finds a motion profile, and its phases follow one another without a gap or overlap in time, position or velocity, run in a straight line, and end exactly at the commanded 4D position (travel and extrusion stay proportional). In every phase the speed either changes at exactly the configured acceleration or is constant at the commanded feedrate, and it never exceeds the feedrate or becomes negative. The move starts with the previous move's final speed when that respects the feedrate and the distance suffices for braking, and otherwise with the lower speed that just does.",
 ["inputs", "configurations"],
 "all start/end positions, incoming speeds, feedrates > 0, accelerations > 0 and requested final speeds in [0, feedrate]; extrusion-only moves included (feedrate then limits the extrusion axis)",
 "The tests plan three moves along x from standstill with round numbers; the profile depends on five continuous parameters and a four-way case split.",
 ["planner_block.py", "utils.py"],
 [("planner_block.move_maker2 (trapezoid / triangle / single ramps)", "planner_block.py"), ("segment.self_check", "utils.py"), ("velocity.get_norm_dir", "utils.py")],
 [("segments", "phases of the move", "planner_block.py"), ("direction", "4D unit direction", "planner_block.py")],
 ["planner_block.get_segments()", "segment.t_begin/t_end/pos_begin/pos_end/vel_begin/vel_end"])

prop("C02", "Junction speed stays between zero and the commanded feedrate",
 "For every firmware model and every pair of consecutive moves, the planned speed at the junction is a real number between zero and the feedrate commanded for the incoming move; for the per-axis model (MKA) it is also not above the following move's feedrate. Without a firmware model, and whenever the incoming move does not travel in space, the junction speed is zero, and for the junction-deviation models (Marlin JD, Klipper) it is also zero when no travel follows. Computing it never fails for positive acceleration and non-negative jerk settings.",
 ["inputs", "configurations"],
 "all triples of states (including missing neighbours, zero-length moves, pure extrusion, reversals, collinear moves), all firmware choices, all settings with positive acceleration and feedrate and non-negative jerk",
 "Tests use one straight-line junction with one firmware; the formulas have singularities at reversal, collinearity and zero velocity that only particular inputs reach.",
 ["junction_handling.py"],
 [("junction_handling*.get_junction_vel", "junction_handling.py"), ("junction_handling.connect_state / calc_vel_next", "junction_handling.py")],
 observe=["junction_handling*.get_junction_vel()", "planner_block.JD"])

prop("C03", "Junction speed equals the selected firmware's published model",
 "Between two travelling moves, Marlin JD gives min(feedrate, sqrt(a*r)) with r = d*s/(1-s), d = 0.4*jerk^2/a and s the sine of half the junction angle, zero for junction angles of at most 18 degrees (near reversal) and the full feedrate from 162 degrees on; Klipper gives sqrt(min(a*r, a*L*tan/2, feedrate^2)) with d = jerk^2*(sqrt(2)-1)/a, L the shorter travel length of the two moves and tan that of half the junction angle, and zero at reversal (cosine limits 0.999999). Marlin classic jerk gives the incoming speed times min(1, 2*jerk/|velocity change|), and zero when jerk is zero but a velocity change exists. MKA gives the lower of both feedrates times the largest factor in (0, 1] for which no axis (extruder included) jumps by more than the jerk limit once the incoming velocity is scaled down to that shared speed; the junction considered is always the one with the next move that actually changes the position.",
 ["inputs", "configurations"],
 "all pairs of consecutive moves and settings, every firmware; lines without motion in between are skipped",
 "The existing tests never compare a junction speed with a reference for any angle other than 180 degrees.",
 ["junction_handling.py"],
 [("calc_JD", "junction_handling.py"), ("calc_j_vel / calc_j_delta (klipper, jerk, MKA)", "junction_handling.py"), ("calc_vel_next", "junction_handling.py")],
 observe=["junction_handling*.get_junction_vel()"])

prop("C04", "A simulated program yields one continuous trajectory starting at rest",
 "After a simulation (and after refreshing it) the sequence of all segments starts at time zero, at rest, at the initial position; each next segment begins at exactly the time and position at which the previous one ends, and consecutive travel speeds agree (up to the documented 1e-12 correction tolerance and floating-point rounding). Every commanded position is reached in program order, and block links are consistent with the block order. Planning and correction always terminate without an error for positive feedrates and accelerations.",
 ["programs", "configurations", "histories"],
 "all G-code programs with positive feedrate and acceleration, all firmware models, all correction histories (a correction may propagate arbitrarily far backwards)",
 "The end-to-end test only checks that output files exist; continuity depends on the whole history of backward corrections over arbitrarily long programs.",
 ["planner_block.py", "gcode_interpreter.py", "utils.py"],
 [("generate_planner_blocks", "gcode_interpreter.py"), ("trajectory_self_correct", "gcode_interpreter.py"), ("planner_block.self_correction / timeshift", "planner_block.py"), ("simulation.refresh", "gcode_interpreter.py")],
 [("prev_block/next_block", "doubly linked block list", "planner_block.py")],
 ["simulation.blocklist", "unpack_blocklist(simulation.blocklist)"])

prop("C05", "Positions follow G-code modal semantics",
 "The position after each line is the one prescribed by the modes in force: X/Y/Z/E words of G0/G1 are absolute or relative according to the last G90/G91 (X, Y, Z) and M82/M83 (E), in millimetres or inches according to the last G21/G20, relative to the origin set by the last G92, which never moves the machine. Axes without a word keep their position. The first state is the configured initial position.",
 ["programs"],
 "all sequences of supported commands with any subset of words and any numeric arguments, including several commands on one line",
 "The state generator test reads a few lines of one file; the position is a function of the whole command history.",
 ["state_generator.py"],
 [("dict_list_traveler", "state_generator.py")],
 [("virtual_machine", "modal state: mode flags, logical coordinates, offsets", "state_generator.py")],
 ["state.state_position of generate_states()"])

prop("C06", "One state per line, with the settings in force at that line",
 "The state list holds the initial state followed by exactly one state per G-code line in order, doubly linked to its neighbours and carrying the line number and comment of its line. Feedrate is the last F word divided by 60 (otherwise the preset), acceleration the last M204 P, jerk the last M205 X and axis maxima the last M203 words, each in millimetre units (values given after G20 are inches), and unit mode the last G20/G21. When a layer cue is configured, each line's layer number is the number of comments equal to the cue up to and including that line.",
 ["programs", "configurations"],
 "all programs and presets",
 "Tests check two positions of one file; settings, links, comments and layer counts over arbitrary histories are never checked.",
 ["state_generator.py", "state.py"],
 [("dict_list_traveler", "state_generator.py"), ("state, state.p_settings", "state.py")],
 observe=["generate_states()"])

prop("C07", "Dwells stand still for exactly the commanded time",
 "A dwell (G4) adds one standstill phase at the current position, beginning when the preceding motion has ended at zero speed, whose duration is P milliseconds or S seconds (S wins if both are given). This holds wherever the dwell stands: before the first move, between moves of any speed, and on the same line as a move, after which the dwell happens.",
 ["programs", "configurations"],
 "all programs with dwells at any place and any non-negative duration, all firmware models",
 "No test contains a dwell.",
 ["planner_block.py", "state_generator.py"],
 [("planner_block.__init__ (dwell functionality)", "planner_block.py"), ("dict_list_traveler (G4)", "state_generator.py")],
 observe=["simulation.blocklist segments"])

prop("C08", "Position and velocity queries are exact and independent of query history",
 "For any time from zero to the end of the trajectory, the reported velocity is the linear interpolation and the reported position the exact quadratic (integrated) interpolation inside the segment containing that time, the earlier one at a shared instant. The answer depends only on the trajectory and the time, not on which times were queried before. Outside the time span of a segment the segment refuses to answer.",
 ["inputs", "histories"],
 "all trajectories, all query times including segment boundaries, all orders of queries",
 "Tests query block start and end only, in one order; the search uses a cached index, so correctness is a property of all query histories.",
 ["utils.py", "gcode_interpreter.py"],
 [("segment.get_velocity / get_position", "utils.py"), ("find_current_segment", "gcode_interpreter.py"), ("simulation.get_values", "gcode_interpreter.py"), ("unpack_blocklist", "gcode_interpreter.py")],
 [("simulation.last_index", "search cache", "gcode_interpreter.py")],
 ["simulation.get_values(t)"])

prop("C09", "Unit systems scale every reported length consistently",
 "Values reported by the simulation (position and velocity queries, extrusion extent, maximum extrusion velocity, event series) are the internal millimetre values times 0.001 for SI, 1 for SImm and 1/25.4 for inch, where an explicitly requested unit system takes precedence over the simulation's own. An initial position entered in a unit system is stored in millimetres, as the exact inverse scaling. Unknown unit systems are rejected.",
 ["inputs", "configurations"],
 "all trajectories, values and unit-system choices",
 "No test uses any unit system other than the default.",
 ["gcode_interpreter.py", "abaqus_file_generator.py"],
 [("simulation.get_scaling_factor", "gcode_interpreter.py"), ("setup.get_scaling_factor / set_initial_position", "gcode_interpreter.py"), ("get_values / extrusion_extent / extrusion_max_vel", "gcode_interpreter.py")],
 observe=["simulation.get_values", "simulation.extrusion_extent", "simulation.extrusion_max_vel", "setup.get_dict"])

prop("C10", "The Abaqus event series reproduces the trajectory",
 "The event series has one entry at time zero for the start of the trajectory and one entry for the end of each segment in order, with the exact segment end time and scaled end position. The extrusion flag of an entry is 1 exactly if material is extruded (extrusion coordinate grows by more than the tolerance) on the way to the next entry, and 0 for the last entry. The written file contains the same rows, with positions rounded to 8 digits, and generating it does not change the trajectory.",
 ["inputs", "configurations"],
 "all trajectories, tolerances and unit systems",
 "The end-to-end test only checks that the file exists.",
 ["abaqus_file_generator.py"],
 [("generate_abaqus_event_series", "abaqus_file_generator.py")],
 observe=["return value and file of generate_abaqus_event_series"])

prop("C11", "Layer metrics account for the whole print",
 "With a layer cue configured, the layer metrics list the layers in increasing order; a layer lasts from the beginning of its first block (time zero for the first layer) to the beginning of the next layer's first block (the end of the print for the last layer). The travel distance of a layer is the sum of the travel distances of exactly its blocks, so durations and distances add up to print time and total travel, and the average speed is distance over duration. Without a layer cue nothing is reported.",
 ["programs", "inputs"],
 "all block lists with non-decreasing layer numbers, including skipped layers and layers that consist of a single block",
 "No stable test evaluates layer metrics; conservation is a statement about sums over arbitrarily long prints.",
 ["tools.py"],
 [("save_layer_metrics", "tools.py"), ("planner_block.get_block_travel", "planner_block.py")],
 observe=["return value and csv file of save_layer_metrics"])

prop("C12", "Extrusion extent, maximum velocity and summary are true extrema",
 "The extrusion extent is the tightest axis-aligned box around the start and end points of all moves during which material is extruded, and the maximum extrusion velocity is the largest, over those moves, of the norm of the per-axis maximum speeds reached within the move. Moves without positive net extrusion never contribute, and asking for the extent when nothing is extruded raises an error. The summary file states these numbers together with the end time of the last segment.",
 ["inputs"],
 "all block lists",
 "Tests only check that a summary file exists.",
 ["gcode_interpreter.py", "planner_block.py"],
 [("simulation.extrusion_extent / extrusion_max_vel / save_summary", "gcode_interpreter.py"), ("planner_block.extrusion_block_max_vel", "planner_block.py")],
 observe=["simulation.extrusion_extent()", "simulation.extrusion_max_vel()", "summary yaml"])

prop("C13", "Times at which the path reaches a point are exact",
 "For every distance between zero and the length of a travelling block, the reported time is the instant at which the simulated motion has covered exactly that distance, for accelerating, cruising and decelerating phases alike; distances beyond the block are rejected. The submodel tool reports, in increasing order, the time of every proper crossing of the control volume's boundary as entry or exit, the total process time and the number of entries, and works for trajectories that never enter the volume.",
 ["inputs", "programs"],
 "all blocks and distances; for the submodel tool all trajectories whose moves neither start nor end on the volume's boundary nor pass through its edges",
 "No test calls either function.",
 ["planner_block.py", "utils.py", "tools.py"],
 [("planner_block.inverse_time_at_pos", "planner_block.py"), ("segment._interpolate_time_to_space", "utils.py"), ("write_submodel_times", "tools.py")],
 observe=["planner_block.inverse_time_at_pos", "return value and yaml file of write_submodel_times"])

prop("C14", "Setup assembles the selected preset and rejects invalid ones",
 "The setup dictionary of the selected printer is its preset with explicitly set properties, initial position, layer cue and printer name laid over it, the last setting winning; selecting an unknown printer, setting a property without a selected printer or giving an incomplete initial position is rejected. A simulation accepts a setup exactly if all required keys are present and no unknown key is, and refuses a printer name that contradicts the setup or an unknown output unit system.",
 ["configurations", "histories"],
 "all preset dictionaries, all sequences of setup calls",
 "test_setup runs one fixed call sequence on one preset file.",
 ["gcode_interpreter.py"],
 [("setup", "gcode_interpreter.py"), ("simulation.check_initial_setup / __init__", "gcode_interpreter.py")],
 observe=["setup.get_dict()", "simulation.check_initial_setup()"])

prop("C15", "Parsing a line extracts exactly its commands, arguments and comment",
 "For every line made of known commands with their arguments, in any order, spacing or combination, parsing yields exactly those commands, each with exactly its argument words as numbers, and the comment text after the first semicolon; nothing inside a comment is treated as a command. A command whose name is the prefix of another (G2 and G20/G21/G28/G29, G1 and G10/G11, G9x, M20x) is never confused with it. Each line of a file yields one entry with its 1-based line number.",
 ["inputs"],
 "all lines over the supported and known-unsupported command table with decimal arguments and arbitrary comments",
 "One small file is parsed and only two resulting positions are checked.",
 ["state_generator.py"],
 [("arg_extract", "state_generator.py"), ("read_gcode_to_dict_list", "state_generator.py")],
 observe=["arg_extract()", "read_gcode_to_dict_list()"])

prop("C16", "4D vectors, positions and velocities obey vector algebra",
 "Addition and subtraction are component-wise with another vector of the same kind or any 4-element list, tuple or array; multiplication and division by int, float or numpy float scale every component; results are new objects of the same kind and operands are not modified. Norm and distance are Euclidean over x, y, z (plus e when requested), the direction is the vector over its travel norm (over its extrusion length for pure extrusion, None for zero), and equality means all four components agree within floating tolerance. Travel, extrusion and not-zero predicates are true exactly when a spatial component differs, the extrusion coordinate grows (or changes, if retracts count), or any component is non-zero.",
 ["inputs"],
 "all component values and operand types",
 "Tests use vectors only incidentally with a handful of values.",
 ["utils.py"],
 [("vector_4D / velocity / position", "utils.py")],
 observe=["public methods of position and velocity"])

prop("C17", "Extrusion width conserves volume",
 "For a time at which the nozzle moves, the reported extrusion width times layer height times travel speed equals the filament cross-section (pi*d^2/4) times the extrusion speed at that time, in the simulation's unit system; it is zero when the nozzle does not travel.",
 ["inputs"],
 "all trajectories, times, positive heights and filament diameters",
 "No test calls the function.",
 ["gcode_interpreter.py"],
 [("simulation.get_width", "gcode_interpreter.py")],
 observe=["simulation.get_width()"])

prop("C18", "Unsupported commands are all reported with their exact number",
 "The check for unsupported commands returns, for every known but unsupported command occurring in the program, the number of lines containing it, and nothing else. It never changes the parsed program.",
 ["programs"],
 "all parsed programs",
 "No test inspects the result.",
 ["state_generator.py"],
 [("check_for_unsupported_commands", "state_generator.py")],
 observe=["check_for_unsupported_commands()"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
