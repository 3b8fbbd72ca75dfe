PROPERTY = 'C04'
NEEDS = 'a program with more than a thousand moves, some of which need correction'
BREAKS = 'blocks between two steps of the progress display are not corrected'
EDITS = [('gcode_interpreter.py', '            if progress > last_progress_update:\n                update_progress((n + 1) / len(self.blocklist), name="Block Correction")\n                last_progress_update = progress\n\n            block.self_correction()\n', '            if progress >= last_progress_update + 0.001 or n_max <= 1000:\n                update_progress((n + 1) / len(self.blocklist), name="Block Correction")\n                last_progress_update = progress\n\n                block.self_correction()\n')]
DEMO = 'import tempfile\nfrom pyGCodeDecode.gcode_interpreter import setup, simulation, unpack_blocklist\n\n\ndef simulate(text, firmware="marlin_jd", acc=1000):\n    with tempfile.TemporaryDirectory() as d:\n        g, p = os.path.join(d, "a.gcode"), os.path.join(d, "p.yaml")\n        open(g, "w").write(text)\n        open(p, "w").write(f"m:\\n  p_vel: 35\\n  p_acc: {acc}\\n  jerk: 10\\n  vX: 180\\n  vY: 180\\n  vZ: 30\\n  vE: 33\\n  firmware: {firmware}\\n")\n        return simulation(gcode_path=g, initial_machine_setup=setup(presets_file=p, printer="m"))\n\n\ndef gaps(sim):\n    segs = unpack_blocklist(sim.blocklist)\n    r = [abs(segs[0].t_begin), segs[0].vel_begin.get_norm()]\n    for a, b in zip(segs, segs[1:]):\n        r += [abs(a.t_end - b.t_begin), abs(a.vel_end.get_norm() - b.vel_begin.get_norm()), (b.pos_begin - a.pos_end).get_t_distance()]\n    return max(r)\n\n\nshort = simulate("G1 X10 F3000\\nG1 X20\\nG1 X20.5\\n")\nlong = simulate("G1 F3000\\n" + "G1 X10\\nG1 X10.1\\nG1 X0\\n" * 500)\nprint("largest gap", gaps(short), gaps(long))\nsys.exit(0 if max(gaps(short), gaps(long)) < 1e-9 else 1)\n'
