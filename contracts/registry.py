"""What decides each property."""

PROPERTIES = {
    "C01": {
        "level": "proof", "modules": ["c01"],
        "functions": ["planner_block.move_maker2"],
        "note": "Every obligation of move_maker2 (all profile shapes, travel and extrusion-only, with and without a preceding block) is discharged for all inputs in exact real arithmetic; floats are covered by the concrete search only. Trusted: the pyvc semantics of Python/numpy, z3, cvc5.",
        "assumptions": ["states, settings and the previous block's last segment are well formed (positive acceleration and feedrate, real components)"],
    },
    "C02": {
        "level": "proof", "modules": ["c02"],
        "functions": ["junction_handling (all five classes)", "junction_handling.connect_state", "junction_handling.calc_vel_next", "planner_block.__init__ (requested end speed)"],
        "note": "For every firmware model, every kind of incoming and following move (travel, extrusion, none) and any number of states in between, the bounds are discharged for all inputs in exact real arithmetic; the search for the next move by a loop invariant, the axis loop of MKA by another. Trusted: the pyvc semantics of Python/numpy, z3, cvc5.",
        "assumptions": ["acceleration and feedrates are positive, the jerk setting is not negative"],
    },
    "C03": {
        "level": "proof", "modules": ["c03"],
        "functions": ["junction_handling_marlin_jd", "junction_handling_marlin_jerk", "junction_handling_klipper", "junction_handling_MKA", "junction_handling.calc_vel_next", "planner_block.__init__ (choice of the model)"],
        "note": "The end speed which the planner requests equals the published formula for all displacements, feedrates and settings, in exact real arithmetic (sines of constants as decimal fractions; Marlin JD within 1e-9 of the two limit angles is left to the concrete search). Trusted: the pyvc semantics of Python/numpy, z3, cvc5.",
        "assumptions": ["acceleration and feedrates are positive, the jerk setting is not negative"],
    },
    "C04": {
        "level": "proof", "modules": ["c04"],
        "functions": ["generate_planner_blocks", "planner_block.__init__", "planner_block.move_maker2", "planner_block.self_correction and its helpers", "planner_block.timeshift", "segment.move_segment_time", "simulation.trajectory_self_correct", "simulation.refresh", "simulation.__init__ (order of the steps)", "unpack_blocklist"],
        "note": "For programs of any length: the planning loop by an invariant over the linked list (every new block continues the last one in time, position, speed and links), the correction of block n by an invariant over the backward walk and another over the alignment, from every state in which the blocks before n are corrected; correction of all blocks in order by induction over n. move_maker2 is assumed in these by a contract which is discharged against its real body here. Exact real arithmetic. Termination: the backward walk decreases the block number and never leaves the list (obligations). Trusted: the pyvc semantics of Python/numpy, z3, cvc5; the step from the per-iteration obligations to the whole list is induction on paper.",
        "assumptions": ["junction speeds are not negative and the velocity of a move is its direction times its feedrate (properties C02 and C03)", "acceleration and feedrates are positive", "a planner block has at most four phases (properties C01 and C07) for the time shift"],
    },
    "C05": {
        "level": "proof", "modules": ["c05"],
        "functions": ["generate_states", "dict_list_traveler", "state.__init__ and its setters"],
        "note": "The state list is verified against the modal recurrence of the property for programs of any length and any combination of commands per line: a loop invariant relates the virtual machine to ghost functions of the line number. Exact real arithmetic; rounding to ten decimals is a rounding error of at most half a unit. Reading the file is assumed by its contract, which the check of C15 covers. Trusted: the pyvc semantics of Python/numpy, z3, cvc5.",
        "assumptions": ["commands of one modal group on one line (G0/G1, G90/G91, M82/M83, G20/G21) take effect in ascending order of their numbers", "the parsed program is what C15 prescribes"],
    },
    "C06": {
        "level": "proof", "modules": ["c06"],
        "functions": ["generate_states", "dict_list_traveler", "state.__init__ and its setters", "state.p_settings.__init__"],
        "note": "Number, order, links, line numbers, comments, settings and layers of the states are verified for programs of any length and any combination of commands per line, by the same loop invariant as C05. Exact real arithmetic. Reading the file is assumed by its contract (C15). Trusted: the pyvc semantics of Python/numpy, z3, cvc5.",
        "assumptions": ["G20 and G21 on one line take effect in ascending order of their numbers", "the parsed program is what C15 prescribes"],
    },
    "C07": {
        "level": "proof", "modules": ["c07"],
        "functions": ["generate_states, dict_list_traveler (G4)", "generate_planner_blocks", "planner_block.__init__", "planner_block.self_correction and its helpers", "planner_block.timeshift"],
        "note": "The dwell time of every state is verified for programs of any length (loop invariant of C05/C06); the planning loop for every kind of line with a dwell, with and without earlier blocks; correction never plans a block again which ends at rest, and time shifts keep durations. Exact real arithmetic. Trusted: the pyvc semantics of Python/numpy, z3, cvc5.",
        "assumptions": ["move_maker2 plans motions as specified, in particular ends at rest when asked to (contract discharged by the check of C04)", "the parsed program is what C15 prescribes"],
    },
    "C08": {
        "level": "proof", "modules": ["c08"],
        "functions": ["segment.get_velocity", "segment.get_position", "find_current_segment (both modes)", "unpack_blocklist", "simulation.get_values"],
        "note": "Interpolation, search (loop invariants, any query history), unpacking and get_values are verified for all trajectories of any length in exact real arithmetic. Contiguity of the trajectory is the precondition (established by C01, C04, C07). Trusted: the pyvc semantics of Python/numpy, z3, cvc5.",
        "assumptions": ["the trajectory is contiguous in time and position and its times do not decrease (property C04)"],
    },
    "C09": {
        "level": "proof", "modules": ["c09"],
        "functions": ["simulation.__init__ (unit system)", "simulation.get_scaling_factor", "setup.get_scaling_factor", "setup.set_initial_position", "setup.get_dict", "simulation.get_values", "simulation.extrusion_extent", "simulation.extrusion_max_vel"],
        "note": "Scaling factors, rejection of unknown systems, stored initial positions and scaled queries are verified for all values, trajectories and unit-system choices in exact real arithmetic. Trusted: the pyvc semantics of Python/numpy, z3, cvc5.",
    },
    "C10": {
        "level": "proof", "modules": ["c10"],
        "functions": ["generate_abaqus_event_series"],
        "note": "Series and file are verified for trajectories of any length, all tolerances and unit-system choices in exact real arithmetic, rounding as an error of at most half a unit of the last digit; the flag loop by an invariant; mutation of the trajectory is a failed obligation. The unpacking of the blocks is assumed by its contract, which the check of C08 discharges. Trusted: the pyvc semantics of Python/numpy, z3, cvc5.",
        "assumptions": ["the trajectory is contiguous in time and position (properties C01, C04, C07)"],
    },
    "C11": {
        "level": "proof", "modules": ["c11"],
        "functions": ["save_layer_metrics", "planner_block.get_block_travel"],
        "note": "The records are verified for block lists of any length by a loop invariant over the grouping of blocks into layers, in exact real arithmetic; that the groups are exactly the layers, in increasing order, and that the sums come out are induction lemmas over the same grouping. Layer numbers never decrease (property C06). Trusted: the pyvc semantics of Python/numpy, z3, cvc5.",
        "assumptions": ["layer numbers of successive blocks never decrease (property C06)", "np.savetxt writes the table it is given (the concrete search reads the file back)"],
    },
    "C12": {
        "level": "proof", "modules": ["c12"],
        "functions": ["simulation.extrusion_extent", "simulation.extrusion_max_vel", "planner_block.extrusion_block_max_vel", "simulation.save_summary"],
        "note": "Extent and maximum velocity are verified as true extrema over block lists of any length (upper bound for an arbitrary block, attained by some block), the per-block maximum for blocks of one to four phases, which is all the planner makes (C01, C07), and the summary against these contracts, in exact real arithmetic. Trusted: the pyvc semantics of Python/numpy (amax, amin, asarray as specified), z3, cvc5.",
        "assumptions": ["a planner block has between one and four phases (properties C01 and C07)", "yaml.dump writes the dictionary it is given (the concrete search reads the file back)"],
    },
    "C13": {
        "level": "proof", "modules": ["c13"],
        "functions": ["planner_block.inverse_time_at_pos", "segment._interpolate_time_to_space", "write_submodel_times and its local functions"],
        "note": "The time at a distance is verified for blocks of one to three phases of motion, which is all the planner makes (C01), with and without a dwell behind them. The submodel tool is verified for trajectories of any length: a loop invariant says that the rows are exactly the crossings of the blocks passed, each face of the volume and each direction of motion (27 sign patterns) by its own obligation; what the numpy calls afterwards select and sort is followed symbolically. Exact real arithmetic. Trusted: the pyvc semantics of Python, the contracts of argsort, indexing and reshape of numpy, z3, cvc5.",
        "assumptions": ["a planner block has between one and three phases of motion (property C01)", "moves neither start nor end on the volume's boundary nor pass through its edges (part of the property)", "yaml.dump writes the dictionary it is given (the concrete search reads the file back)"],
    },
    "C14": {
        "level": "proof", "modules": ["c14"],
        "functions": ["setup.__init__", "setup.select_printer", "setup.set_property", "setup.set_initial_position", "setup.get_dict", "simulation.check_initial_setup", "simulation.__init__ (names, units, use of the setup)"],
        "note": "Setups are verified for every presets file, every combination of present and missing keys and every value: each method against its contract, from any state which earlier calls can leave behind. Two or three printer names and one unknown key stand for all, as the code can only compare names. Trusted: the pyvc semantics of Python/numpy, z3, cvc5.",
        "assumptions": ["yaml.load returns the presets the file holds (the concrete search reads real files)", "an initial position given as a dictionary has no keys besides X, Y, Z and E", "every preset is a dictionary of its own"],
    },
    "C15": {
        "level": "proof", "modules": ["c15"],
        "functions": ["arg_extract (for the table of commands and for the arguments of every command)", "read_gcode_to_dict_list"],
        "note": "arg_extract is verified for texts of any length in which the words of its table occur anywhere, in any order and spacing and with any comment: one obligation set per command, for the comment, and per argument letter of every command; the recursion is cut at its contract. The loop which removes shorter matches is cut by a specification (it removes nothing). Texts are described by where words occur, not by their characters; spaces and line ends inside an argument are followed by the operations applied to it. read_gcode_to_dict_list is verified against that contract for files of any length. Trusted: the pyvc semantics of Python, the model of re.search for a literal with or without a following (?!\\d), z3, cvc5.",
        "assumptions": ["each known command stands at most once on a line outside of the comment, each letter at most once among the arguments of a command", "where the words of the table occur in a text follows from their spelling (checked for the table of the code: no two words begin or overlap at one place unless one continues the number of the other)", "float() accepts the decimal numbers of the arguments, spaces and line ends removed, and no text holding a letter of an argument word", "a file is read line by line (the concrete search reads real files)"],
    },
    "C16": {
        "level": "proof", "modules": ["c16"],
        "functions": ["vector_4D, position, velocity: all public methods"],
        "note": "Every public method of vector_4D, position and velocity is verified for all numeric operands in exact real arithmetic. Trusted: the pyvc semantics of Python/numpy, z3, cvc5.",
    },
    "C17": {
        "level": "proof", "modules": ["c17"],
        "functions": ["simulation.get_width"],
        "note": "get_width is verified for all positive heights and diameters and all reported velocities, in every unit system, in exact real arithmetic; the values it asks for are assumed by the contract of get_values, which the checks of C08 and C09 discharge. Trusted: the pyvc semantics of Python/numpy, z3, cvc5.",
    },
    "C18": {
        "level": "proof", "modules": ["c18"],
        "functions": ["check_for_unsupported_commands"],
        "note": "The report is verified against the count of lines for programs of any length and any combination of commands, by a loop invariant; the parsed program is frozen, so that any change of it is a failed obligation. Trusted: the pyvc semantics of Python/numpy, z3, cvc5.",
        "assumptions": ["the parsed program is what C15 prescribes"],
    },
}

NOT_APPLICABLE = {}
