PROPERTY = 'C04'
NEEDS = 'a correction which changes the duration of a move by less than 0.1 ms'
BREAKS = 'time gaps between the moves'
EDITS = [('planner_block.py', '        if len(self.segments) > 0:\n            for segm in self.segments:\n', '        if len(self.segments) > 0 and abs(delta_t) > 1e-4:  # skip negligible shifts\n            for segm in self.segments:\n')]
DEMO = 'import tempfile\nfrom pyGCodeDecode.gcode_interpreter import setup, simulation, unpack_blocklist\n\n\ndef simulate(text, firmware="marlin_jd", acc=1000):\n    with tempfile.TemporaryDirectory() as d:\n        g, p = os.path.join(d, "a.gcode"), os.path.join(d, "p.yaml")\n        open(g, "w").write(text)\n        open(p, "w").write(f"m:\\n  p_vel: 35\\n  p_acc: {acc}\\n  jerk: 10\\n  vX: 180\\n  vY: 180\\n  vZ: 30\\n  vE: 33\\n  firmware: {firmware}\\n")\n        return simulation(gcode_path=g, initial_machine_setup=setup(presets_file=p, printer="m"))\n\n\ndef gaps(sim):\n    segs = unpack_blocklist(sim.blocklist)\n    r = [abs(segs[0].t_begin), segs[0].vel_begin.get_norm()]\n    for a, b in zip(segs, segs[1:]):\n        r += [abs(a.t_end - b.t_begin), abs(a.vel_end.get_norm() - b.vel_begin.get_norm()), (b.pos_begin - a.pos_end).get_t_distance()]\n    return max(r)\n\n\nsim = simulate("G1 X10 F3000\\nG1 X20\\nG1 X21.2\\n")\nprint("largest gap", gaps(sim))\nsys.exit(0 if gaps(sim) < 1e-9 else 1)\n'
