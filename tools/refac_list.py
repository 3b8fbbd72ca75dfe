PB, GI, SG, JH, TO, UT, AB = (
    "planner_block.py", "gcode_interpreter.py", "state_generator.py", "junction_handling.py", "tools.py", "utils.py", "abaqus_file_generator.py"
)

GUARD = "            if pos_end.is_travel(pos_begin) or pos_end.is_extruding(pos_begin, ignore_retract=False):\n"

EDITS = {
    "shift_index": ("C04 C08", [(PB, """        if len(self.segments) > 0:
            for segm in self.segments:
                segm.move_segment_time(delta_t)
""", """        for n in range(len(self.segments)):
            self.segments[n].move_segment_time(delta_t)
""")]),
    "correct_early": ("C04", [(PB, """        flag_correct = False
        if self.next_block is not None:
            same_vel = (
                self.get_segments()[-1].vel_end.get_norm() == self.next_block.get_segments()[0].vel_begin.get_norm()
            )
            if not same_vel:
                error_vel = abs(
                    self.get_segments()[-1].vel_end.get_norm() - self.next_block.get_segments()[0].vel_begin.get_norm()
                )
                if error_vel > tolerance:
                    flag_correct = True

        # Correct error by recalculating velocitys with new vel_end
        if self.next_block is not None and flag_correct:
            vel_end = self.next_block.get_segments()[0].vel_begin.get_norm()
            self.move_maker2(v_end=vel_end)

        return flag_correct
""", """        if self.next_block is None:
            return False
        following = self.next_block.get_segments()[0].vel_begin.get_norm()
        if abs(following - self.get_segments()[-1].vel_end.get_norm()) <= tolerance:
            return False
        self.move_maker2(v_end=following)
        return True
""")]),
    "align_merged": ("C04", [(PB, """            delta_t = self.get_segments()[-1].t_end - self.next_block.get_segments()[0].t_begin
            self.next_block.timeshift(delta_t=delta_t)

        # Check continuity in Position
        if self.next_block is not None:
            same_position = self.get_segments()[-1].pos_end == self.next_block.get_segments()[0].pos_begin
""", """            last = self.get_segments()[-1]
            first = self.next_block.get_segments()[0]
            self.next_block.timeshift(delta_t=last.t_end - first.t_begin)
            same_position = last.pos_end == first.pos_begin
""")]),
    "firmware_table": ("C03 C07", [(PB, """        if firmware == "marlin_jd":
            junction = junction_handling_marlin_jd(state_A=self.state_A, state_B=self.state_B)
        elif firmware == "klipper":
            junction = junction_handling_klipper(state_A=self.state_A, state_B=self.state_B)
        elif firmware == "marlin_jerk":
            junction = junction_handling_marlin_jerk(state_A=self.state_A, state_B=self.state_B)
        elif firmware == "MKA":
            junction = junction_handling_MKA(state_A=self.state_A, state_B=self.state_B)
        else:
            junction = junction_handling(state_A=self.state_A, state_B=self.state_B)
""", """        handlers = {
            "marlin_jd": junction_handling_marlin_jd,
            "klipper": junction_handling_klipper,
            "marlin_jerk": junction_handling_marlin_jerk,
            "MKA": junction_handling_MKA,
        }
        handler = handlers.get(firmware, junction_handling)
        junction = handler(state_A=self.state_A, state_B=self.state_B)
""")]),
    "append_helper": ("C01 C03", [(PB, '        extrusion_only = False  # flag\n', '''        def keep(piece):
            begin, end = piece.pos_begin, piece.pos_end
            if end.is_travel(begin) or end.is_extruding(begin, ignore_retract=False):
                self.segments.append(piece)

        extrusion_only = False  # flag
''')] + [(PB, GUARD + "                self.segments.append(segment_%s)\n" % x, "            keep(segment_%s)\n" % x) for x in "ABC"]),
    "dwell_helper": ("C07 C04", [(PB, """            if len(self.segments) > 0:  # dwell after the move of the same line
                previous_segment = self.segments[-1]
            elif self.prev_block is not None:
                previous_segment = self.prev_block.segments[-1]
            else:  # dwell before the first move
                previous_segment = segment.create_initial(initial_position=self.state_B.state_position)
            self.segments.append(
                segment(
                    t_begin=previous_segment.t_end,
                    t_end=previous_segment.t_end + self.state_B.pause,
                    pos_begin=previous_segment.pos_end,
                    pos_end=previous_segment.pos_end,
                    vel_begin=velocity(0, 0, 0, 0),
                    vel_end=velocity(0, 0, 0, 0),
                )
            )
""", """            self._add_dwell(self.state_B.pause)

    def _add_dwell(self, duration):
        if self.segments:
            before = self.segments[-1]
        elif self.prev_block is None:
            before = segment.create_initial(initial_position=self.state_B.state_position)
        else:
            before = self.prev_block.get_segments()[-1]
        t0, at = before.t_end, before.pos_end
        rest = velocity(0, 0, 0, 0)
        self.segments.append(segment(t0, t0 + duration, at, rest, at, rest))
""")]),
    "inverse_remaining": ("C13", [(PB, """        for segm in self.segments:
            cum_dist += segm.get_segm_len()  # len with current segment
            # last_cum_dist = len, without curr segm; dist_local >= last_cum_dist and ; last_cum_dist = cum_dist
            if dist_local <= cum_dist:
                segm_local_dist = segm.get_segm_len() - (cum_dist - dist_local)

                time_of_isect""", """        for segm in self.segments:
            before = cum_dist
            cum_dist = before + segm.get_segm_len()
            if not dist_local > cum_dist:
                segm_local_dist = dist_local - before
                time_of_isect""")]),
    "submodel_hoist": ("C13", [(TO, """        p_eval_A = point_eval(block.state_A.state_position.get_vec(), control_volume.get_plane_lim())
        p_eval_B = point_eval(block.state_B.state_position.get_vec(), control_volume.get_plane_lim())
""", """        limits = control_volume.get_plane_lim()
        point_A = block.state_A.state_position.get_vec()
        p_eval_A = point_eval(point_A, limits)
        p_eval_B = point_eval(pl_lim=limits, point=block.state_B.state_position.get_vec())
"""), (TO, "                if isec is not None and point_inside(p_eval=point_eval(isec, control_volume.get_plane_lim())):\n", """                if isec is None:
                    continue
                if point_inside(p_eval=point_eval(isec, limits)):
"""), (TO, """                    p0=block.state_A.state_position.get_vec(),
                    p1=b""", """                    p0=point_A,
                    p1=b""")]),
    "submodel_sorted": ("C13", [(TO, """    timetable = np.asarray(timetable).reshape(-1, 2)  # convert list to array for sorting
    timetable = timetable[timetable[:, 0].argsort()]  # sort array by first column

    time_in = timetable[:, 0][np.asarray(timetable[:, 1], dtype=bool)]  # filter the data for entering the CV
    time_out = timetable[:, 0][~np.asarray(timetable[:, 1], dtype=bool)]  # filter the data for exiting the CV
""", """    time_in = np.asarray(sorted(t for t, entering in timetable if entering))
    time_out = np.asarray(sorted(t for t, entering in timetable if not entering))
""")]),
    "submodel_point_eval": ("C13", [(TO, """        p_eval = []
        for lim_n, p_n in zip(pl_lim, point):
            inters_pl = [
                p_n <= lim_n[0],
                p_n >= lim_n[1],
            ]  # check if point is inside of [CV+, CV-]
            p_eval.append(inters_pl)
        return p_eval
""", """        return [[p_n <= upper, p_n >= lower] for (upper, lower), p_n in zip(pl_lim, point)]
"""), (TO, """        return all([all(p_ev_ax) for p_ev_ax in p_eval])
""", """        for below, above in p_eval:
            if not (below and above):
                return False
        return True
""")]),
    "generate_while": ("C04 C09", [(GI, """    for i, this_state in enumerate(states):
        prev_block = block_list[-1] if len(block_list) > 0 else None  # grab prev block from block_list
        new_block = planner_block(state=this_state, prev_block=prev_block, firmware=firmware)  # generate new block
        if len(new_block.get_segments()) > 0:
            if new_block.prev_block is not None:
                new_block.prev_block.next_block = new_block  # update nb list
            block_list.append(new_block)
""", """    prev_block = None
    for i, this_state in enumerate(states):
        new_block = planner_block(state=this_state, prev_block=prev_block, firmware=firmware)  # generate new block
        if new_block.get_segments():
            if prev_block is not None:
                prev_block.next_block = new_block  # update nb list
            block_list.append(new_block)
            prev_block = new_block
""")]),
    "next_vel_while": ("C03 C04", [(JH, """        while True:
            if (
                next_next_state.next_state is None
                or self.state_B.state_position.get_t_distance(next_next_state.state_position, withExtrusion=True) > 0
            ):
                vel_next = self.connect_state(
                    state_A=self.state_B, state_B=next_next_state
                )  # target velocity for next planner block
                break
            else:
                next_next_state = next_next_state.next_state
        return vel_next
""", """        here = self.state_B.state_position
        while (
            next_next_state.next_state is not None
            and not here.get_t_distance(next_next_state.state_position, withExtrusion=True) > 0
        ):
            next_next_state = next_next_state.next_state
        return self.connect_state(state_A=self.state_B, state_B=next_next_state)
""")]),
    "mka_loop": ("C03", [(JH, """            jerk = (
                ((v_exit - v_entry) if (v_entry > 0 or v_exit < 0) else max(v_exit, -v_entry))
                if (v_exit > v_entry)
                else (v_entry - v_exit if (v_entry < 0 or v_exit > 0) else max(-v_exit, v_entry))
            )  # calc logic taken from MKA firmware
""", """            if v_exit > v_entry:
                if v_entry > 0 or v_exit < 0:
                    jerk = v_exit - v_entry
                else:
                    jerk = max(v_exit, -v_entry)
            elif v_entry < 0 or v_exit > 0:
                jerk = v_entry - v_exit
            else:
                jerk = max(-v_exit, v_entry)
""")]),
    "parse_comp": ("C15", [(SG, """    for key in key_dict.keys():  # look for each key in the dictionary
        # regex search for key in string, a command number ends with its last digit
        match = re.search(key + r"(?!\\d)" if key[-1].isdigit() else key, string)
        if match is not None:
            matches.append(match)  # append found matches
""", """    patterns = [key + r"(?!\\d)" if key[-1].isdigit() else key for key in key_dict]
    matches = [found for found in (re.search(pattern, string) for pattern in patterns) if found]
""")]),
    "parse_compile": ("C15", [(SG, """        match = re.search(key + r"(?!\\d)" if key[-1].isdigit() else key, string)
        if match is not None:
""", """        pattern = re.compile(key + (r"(?!\\d)" if key[-1].isdigit() else ""))
        match = pattern.search(string)
        if match:
""")]),
    "parse_nextlarger": ("C15", [(SG, """    next_larger = lambda lst, num: min(  # noqa: E731
        filter(lambda x: x >= num, lst), default=len(string)
    )  # function to find next largest occurrence in list, default to eol
    comment_begin = min(
        [start.start() for start in list(filter(lambda x: x.group() == ";", [match for match in matches]))],
        default=len(string),
    )  # find first comment, default to eol
""", """    comment_begin = len(string)
    for match in matches:
        if match.group() == ";" and match.start() < comment_begin:
            comment_begin = match.start()

    def next_larger(lst, num):
        result = len(string)
        for x in lst:
            if x >= num and x < result:
                result = x
        return result

""")]),
    "parse_strip": ("C15", [(SG, """            arg = arg.replace(" ", "")  # remove spaces if argument is not a comment
            arg = arg.replace("\\n", "")  # remove \\n if argument is not a comment
""", """            arg = arg.replace("\\n", "").replace(" ", "")
""")]),
    "abaqus_flags": ("C10 C09", [(AB, """    # figure out if extrusion happens from this to the next step, if yes -> 1, if no -> 0
    for id in range(len(pos) - 1):
        if pos[id + 1][3] - pos[id][3] > tolerance:
            pos[id][3] = 1
        else:
            pos[id][3] = 0
    pos[-1][3] = 0
""", """    # figure out if extrusion happens from this to the next step, if yes -> 1, if no -> 0
    flags = [1 if after[3] - before[3] > tolerance else 0 for before, after in zip(pos[:-1], pos[1:])]
    flags.append(0)
"""), (AB, "        for time, pos in zip(time, pos):", "        for time, pos, flag in zip(time, pos, flags):"), (AB, ",{pos[3]}", ",{flag}"),
        (AB, "scaling * pos[2], pos[3]))", "scaling * pos[2], flag))")]),
    "abaqus_helper": ("C10", [(AB, """    for id in range(len(pos) - 1):
        if pos[id + 1][3] - pos[id][3] > tolerance:
            pos[id][3] = 1
        else:
            pos[id][3] = 0
""", """    def extrudes(before, after):
        return after[3] - before[3] > tolerance

    for index, entry in enumerate(pos[:-1]):
        entry[3] = int(extrudes(entry, pos[index + 1]))
""")]),
    "layers_inline": ("C11", [(TO, """            save_layer(duration=block_begin - last_layer_time)

            # set variables for next layer
            travel = 0
            last_layer_time = block_begin
            current_layer = next_layer

        # add travel distance of current block
        travel += block.get_block_travel()
""", """            save_layer(duration=block_begin - last_layer_time)
            current_layer, last_layer_time, travel = next_layer, block_begin, 0

        travel = travel + block.get_block_travel()
"""), (TO, """        average_speed = travel / duration if duration != 0 else "NaN"

        layers.append(current_layer)
        durations.append(duration)
        travel_distances.append(travel)
        avg_speeds.append(average_speed)
""", """        if duration == 0:
            avg_speeds.append("NaN")
        else:
            avg_speeds.append(travel / duration)
        travel_distances.append(travel)
        durations.append(duration)
        layers.append(current_layer)
""")]),
    "layers_after": ("C11", [(TO, """        if block.next_block is None:  # last block of the print
            save_layer(duration=block.segments[-1].t_end - last_layer_time)
""", ""), (TO, """    # write the layer info to a csv if a filepath is given
""", """    if simulation.blocklist:
        save_layer(duration=simulation.blocklist[-1].segments[-1].t_end - last_layer_time)

    # write the layer info to a csv if a filepath is given
""")]),
    "extent_loop": ("C12 C09", [(GI, """        all_positions_extruding = np.asarray(
            [block.state_A.state_position.get_vec() for block in self.blocklist if block.is_extruding]
            + [block.state_B.state_position.get_vec() for block in self.blocklist if block.is_extruding]
        )

        if len(all_positions_extruding) > 0:
""", """        extruding = [block for block in self.blocklist if block.is_extruding]
        begins = [block.state_A.state_position.get_vec() for block in extruding]
        ends = [block.state_B.state_position.get_vec() for block in extruding]
        all_positions_extruding = np.asarray(begins + ends)

        if len(extruding) > 0:
""")]),
    "maxvel_max": ("C12 C09", [(GI, """        all_blocks_max_vel = np.asarray(
            [np.linalg.norm(block.extrusion_block_max_vel()[:3]) for block in self.blocklist if block.is_extruding]
        )
        max_vel = np.amax(all_blocks_max_vel, axis=0)

        scaling = self.get_scaling_factor(output_unit_system=output_unit_system)

        return scaling * max_vel
""", """        scaling = self.get_scaling_factor(output_unit_system=output_unit_system)
        speeds = []
        for block in self.blocklist:
            if not block.is_extruding:
                continue
            speeds.append(np.linalg.norm(block.extrusion_block_max_vel()[:3]))

        return np.amax(np.asarray(speeds)) * scaling
""")]),
    "values_helper": ("C08 C09 C17", [(GI, """        tmp_vel = segm.get_velocity(t=t).get_vec(withExtrusion=True)
        tmp_pos = segm.get_position(t=t).get_vec(withExtrusion=True)

        scaling = self.get_scaling_factor(output_unit_system=output_unit_system)

        # scale to required unit system
        tmp_vel = [scaling * num for num in tmp_vel]
        tmp_pos = [scaling * num for num in tmp_pos]

        return tmp_vel, tmp_pos
""", """        scaling = self.get_scaling_factor(output_unit_system=output_unit_system)

        def scaled(vector):
            return [component * scaling for component in vector.get_vec(withExtrusion=True)]

        return scaled(segm.get_velocity(t)), scaled(segm.get_position(t))
"""), (GI, """        width = (
            (flow_rate * filament_cross_sec) / (extrusion_h * feed_rate) if feed_rate > 0 else 0
        )  # calculate width, zero if no movement.

        return width
""", """        if not feed_rate > 0:
            return 0  # no movement
        return flow_rate * filament_cross_sec / feed_rate / extrusion_h
""")]),
    "setup_checks": ("C14", [(GI, """        for key in initial_machine_setup:
            if key not in valid_keys:
                raise ValueError(
""", """        for key in initial_machine_setup.keys():
            known = key in req_keys or key in optional_keys
            if not known:
                raise ValueError(
"""), (GI, """        for key in req_keys:
            if key not in initial_machine_setup:
                raise ValueError(
""", """        missing = [key for key in req_keys if key not in initial_machine_setup]
        for key in missing:
                raise ValueError(
""")]),
    "setup_dict": ("C14 C09", [(GI, """        return_dict = self.setup_dict[self.printer_select]  # create dict
        return_dict.update(self.initial_position)  # add initial position
        if self.layer_cue is not None:
            return_dict.update({"layer_cue": self.layer_cue})  # add layer cue
        return_dict.update({"printer_name": self.printer_select})  # add printer name

        return return_dict
""", """        return_dict = self.setup_dict[self.printer_select]  # create dict
        return_dict["printer_name"] = self.printer_select
        for key, value in self.initial_position.items():
            return_dict[key] = value
        if self.layer_cue is not None:
            return_dict["layer_cue"] = self.layer_cue

        return return_dict
"""), (GI, """        if self.printer_select is not None:
            self.setup_dict[self.printer_select].update(property_dict)
        else:
            raise ValueError("No printer is selected. Select printer through select_printer() beforehand.")
""", """        if self.printer_select is None:
            raise ValueError("No printer is selected. Select printer through select_printer() beforehand.")
        selected = self.setup_dict[self.printer_select]
        selected.update(property_dict)
"""), (GI, """            self.initial_position = {
                "X": scaling * initial_position[0],
                "Y": scaling * initial_position[1],
                "Z": scaling * initial_position[2],
                "E": scaling * initial_position[3],
            }
""", """            self.initial_position = {key: scaling * value for key, value in zip(["X", "Y", "Z", "E"], initial_position)}
""")]),
    "vector_helper": ("C16 C08", [(UT, """        if isinstance(other, self.__class__):
            x = self.x + other.x
            y = self.y + other.y
            z = self.z + other.z
            e = self.e + other.e
            return self.__class__(x, y, z, e)
        elif (isinstance(other, np.ndarray) or isinstance(other, list) or isinstance(other, tuple)) and len(other) == 4:
            x = self.x + other[0]
            y = self.y + other[1]
            z = self.z + other[2]
            e = self.e + other[3]
            return self.__class__(x, y, z, e)
        else:
""", """        values = self._values_of(other)
        if values is not None:
            return self.__class__(*[a + b for a, b in zip(self.get_vec(withExtrusion=True), values)])
        else:
"""), (UT, """    def __sub__(self, other):
""", """    def _values_of(self, other):
        \"\"\"Return the four values of another operand, None if it is none.\"\"\"
        if isinstance(other, self.__class__):
            return [other.x, other.y, other.z, other.e]
        if isinstance(other, (np.ndarray, list, tuple)) and len(other) == 4:
            return [other[0], other[1], other[2], other[3]]
        return None

    def __sub__(self, other):
"""), (UT, """        if type(other) is float or type(other) is np.float64 or type(other) is int:
            x = self.x / other
            y = self.y / other
            z = self.z / other
            e = self.e / other
        else:
            raise TypeError("Division of 4D Vectors only supports float and int.")
        return self.__class__(x, y, z, e)
""", """        if type(other) not in (float, np.float64, int):
            raise TypeError("Division of 4D Vectors only supports float and int.")
        return self.__class__(self.x / other, self.y / other, self.z / other, self.e / other)
"""), (UT, """        return True if np.linalg.norm(self.get_vec(withExtrusion=True)) > 0 else False
""", """        return bool(self.get_norm(withExtrusion=True) > 0)
"""), (UT, """        extrusion = other.e - self.e if ignore_retract else abs(other.e - self.e)

        if extrusion > 0:
            return True
        else:
            return False
""", """        extrusion = other.e - self.e
        if not ignore_retract:
            extrusion = abs(extrusion)
        return bool(extrusion > 0)
""")]),
    "segment_early": ("C08", [(UT, """        if t < self.t_begin or t > self.t_end:
            raise ValueError("Segment not defined for this point in time.")
        else:
            # linear interpolation of velocity in Segment
            delt_vel = self.vel_end - self.vel_begin
            delt_t = self.t_end - self.t_begin
            slope = delt_vel / delt_t if delt_t > 0 else velocity(0, 0, 0, 0)
            current_vel = self.vel_begin + slope * (t - self.t_begin)
            return current_vel
""", """        if not self.t_begin <= t <= self.t_end:
            raise ValueError("Segment not defined for this point in time.")
        duration = self.get_segm_duration()
        if duration > 0:
            return self.vel_begin + (self.vel_end - self.vel_begin) / duration * (t - self.t_begin)
        return self.vel_begin
"""), (UT, """            current_vel = self.get_velocity(t=t)
            position = self.pos_begin + ((self.vel_begin + current_vel) * (t - self.t_begin) / 2.0).get_vec(
                withExtrusion=True
            )
            return position
""", """            mean_vel = (self.vel_begin + self.get_velocity(t=t)) / 2.0
            way = mean_vel * (t - self.t_begin)
            return self.pos_begin + way.get_vec(withExtrusion=True)
""")]),
    "find_helper": ("C08", [(GI, """            for last_index, segm in enumerate(path):
                if t >= segm.t_begin and t <= segm.t_end:
                    return segm, last_index
        else:
            for id, segm in enumerate(path[last_index:]):
                if t >= segm.t_begin and t <= segm.t_end:
                    return segm, last_index + id
            raise ValueError("nothing found")
""", """            last_index = 0
        for index in range(last_index, len(path)):
            segm = path[index]
            if segm.t_begin <= t <= segm.t_end:
                return segm, index
        raise ValueError("nothing found")
""")]),
    "find_while": ("C08", [(GI, """            for last_index, segm in enumerate(path):
                if t >= segm.t_begin and t <= segm.t_end:
                    return segm, last_index
        else:
            for id, segm in enumerate(path[last_index:]):
""", """            last_index = 0
            while not path[last_index].t_begin <= t <= path[last_index].t_end:
                last_index += 1
            return path[last_index], last_index
        else:
            for id, segm in enumerate(path[last_index:]):
""")]),
    "unpack_extend": ("C08", [(GI, """    for block in blocklist:
        path.extend(block.get_segments()[:])
""", """    for block in blocklist:
        path += block.get_segments()
""")]),
    "states_helper": ("C05 C06 C07", [(SG, """        for command in movement_commands:  # treat G0 and G1 the same
            if command in line_dict:
                # look for xyz movement commands and apply abs/rel
                for key in pos_keys:
                    if key in line_dict[command]:
                        if virtual_machine["absolute_position"] is True:
                            virtual_machine[key] = unit_scaling * line_dict[command][key]
                        elif virtual_machine["absolute_position"] is False:  # redundant
                            virtual_machine[key] = virtual_machine[key] + unit_scaling * line_dict[command][key]

                # look for extrusion commands and apply abs/rel
                if "E" in line_dict[command]:
                    if virtual_machine["absolute_extrusion"] is True:
                        virtual_machine["E"] = unit_scaling * line_dict[command]["E"]
                    if virtual_machine["absolute_extrusion"] is False:  # redundant
                        virtual_machine["E"] = virtual_machine["E"] + unit_scaling * line_dict[command]["E"]
                if "F" in line_dict[command]:
                    virtual_machine["p_vel"] = unit_scaling * line_dict[command]["F"] / 60
""", """        for command in movement_commands:  # treat G0 and G1 the same
            if command not in line_dict:
                continue
            args = line_dict[command]
            for key in pos_keys + ["E"]:
                if key not in args:
                    continue
                absolute = virtual_machine["absolute_extrusion" if key == "E" else "absolute_position"]
                value = unit_scaling * args[key]
                virtual_machine[key] = value if absolute else virtual_machine[key] + value
            if "F" in args:
                virtual_machine["p_vel"] = unit_scaling * args["F"] / 60
""")]),
    "states_position": ("C05 C06", [(SG, """        state_position = position(
            round(virtual_machine["X"] + virtual_machine["_X"], 10),
            round(virtual_machine["Y"] + virtual_machine["_Y"], 10),
            round(virtual_machine["Z"] + virtual_machine["_Z"], 10),
            round(virtual_machine["E"] + virtual_machine["_E"], 10),
        )

        p_settings""", """        state_position = position([round(virtual_machine[axis] + virtual_machine["_" + axis], 10) for axis in "XYZE"])

        p_settings"""), (SG, """        # units
        if "G20" in line_dict:
            virtual_machine["units"] = "inch"
        if "G21" in line_dict:
            virtual_machine["units"] = "SImm"
""", """        # units
        for command, units in (("G20", "inch"), ("G21", "SImm")):
            if command in line_dict:
                virtual_machine["units"] = units
"""), (SG, """        # dwell
        pause_duration = None
        if "G4" in line_dict:
            if "P" in line_dict["G4"]:
                pause_duration = line_dict["G4"]["P"] / 1000.0
            if "S" in line_dict["G4"]:
                pause_duration = line_dict["G4"]["S"]
""", """        # dwell
        dwell = line_dict.get("G4", {})
        if "S" in dwell:
            pause_duration = dwell["S"]
        else:
            pause_duration = dwell["P"] / 1000.0 if "P" in dwell else None
""")]),
    "states_link": ("C06", [(SG, """        if len(state_list) > 0:
            new_state.prev_state = state_list[-1]
            state_list[-1].next_state = new_state

        state_list.append(new_state)
    return state_list
""", """        previous = state_list[-1]
        previous.next_state = new_state
        new_state.prev_state = previous
        state_list.append(new_state)
    return state_list
"""), (SG, """        # parse comment
        new_state.comment = line_dict[";"].strip() if ";" in line_dict else None
""", """        # parse comment
        if ";" in line_dict:
            new_state.comment = line_dict[";"].strip()
""")]),
    "unsupported_loop": ("C18", [(SG, """    unsupported_commands_found = []
    for line_dict in line_dict_list:
        for key in line_dict.keys():
            if key in unsupported_commands.keys():
                unsupported_commands_found.append(key)

    unsupported_command_counts = {
        command: unsupported_commands_found.count(command) for command in unsupported_commands_found
    }

    if unsupported_commands_found != []:
""", """    unsupported_command_counts = {}
    for line_dict in line_dict_list:
        for key in line_dict:
            if key in unsupported_commands:
                unsupported_command_counts[key] = unsupported_command_counts.get(key, 0) + 1

    if unsupported_command_counts:
""")]),
    "jerk_early": ("C02 C03", [(JH, """        if self.jerk == 0 and jerk_move > 0:
            self.junction_vel = 0  # no instantaneous velocity change is allowed
        elif scale >= 1:
            self.junction_vel = (vel_0 / scale).get_norm()
        else:
            self.junction_vel = vel_0.get_norm()
""", """        if scale < 1:
            stop = self.jerk == 0 and jerk_move > 0
            self.junction_vel = 0 if stop else vel_0.get_norm()
            return
        self.junction_vel = vel_0.get_norm() / scale
""")]),
    "klipper_dot": ("C02 C03", [(JH, """        j_cos_theta = -(
            dir0[0] * dir1[0] + dir0[1] * dir1[1] + dir0[2] * dir1[2]
        )  # cos""", """        j_cos_theta = -sum(
            a * b for a, b in zip(dir0, dir1)
        )  # cos"""), (JH, """        self.junction_vel = math.sqrt(
            min(self.state_B.state_p_settings.p_acc * j_R, move_centripetal_v2, self.state_B.state_p_settings.speed**2)
        )
""", """        settings = self.state_B.state_p_settings
        squares = [settings.p_acc * j_R, move_centripetal_v2, settings.speed**2]
        self.junction_vel = math.sqrt(min(squares))
""")]),
    "jd_flat": ("C02 C03", [(JH, """        if JD_sin_theta_half < np.sin(JD_maxAngle * np.pi / (2 * 180)):  # smaller than max angle
            if JD_sin_theta_half > np.sin(
                JD_minAngle * np.pi / (2 * 180)
            ):  # and larger than min angle --> apply Junction Deviation Calculation
                # calculate scalar junction velocity
                JD_Radius = JD_delta * JD_sin_theta_half / (1 - JD_sin_theta_half)
                JD_velocity_scalar = np.sqrt(JD_acc * JD_Radius)

                # return JD_velocity_scalar if JD_velocity_scalar < vel_0.get_norm() else vel_0.get_norm()
                return JD_velocity_scalar if JD_velocity_scalar < p_settings.speed else p_settings.speed
            else:
                return 0  # angle smaller than min angle, stop completely
        else:
            return p_settings.speed  # angle larger than max angle, full speed pass
""", """        limit_max = np.sin(JD_maxAngle * np.pi / (2 * 180))
        limit_min = np.sin(JD_minAngle * np.pi / (2 * 180))
        if JD_sin_theta_half >= limit_max:
            return p_settings.speed  # angle larger than max angle, full speed pass
        if JD_sin_theta_half <= limit_min:
            return 0  # angle smaller than min angle, stop completely
        JD_Radius = JD_delta * JD_sin_theta_half / (1 - JD_sin_theta_half)
        return min(np.sqrt(JD_acc * JD_Radius), p_settings.speed)
""")]),
    "connect_sign": ("C02 C03 C01", [(JH, """        travel_direction = np.asarray((state_B.state_position - state_A.state_position).get_vec(withExtrusion=True))
        self.t_distance = np.linalg.norm(travel_direction[:3])
        e_len = travel_direction[3]
""", """        way = state_B.state_position - state_A.state_position
        travel_direction = np.asarray(way.get_vec(withExtrusion=True))
        self.t_distance = way.get_norm()
        e_len = way.e
""")]),
}
