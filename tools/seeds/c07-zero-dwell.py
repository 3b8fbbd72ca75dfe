PROPERTY = 'C07'
NEEDS = 'a dwell of zero duration (G4 P0), as used to wait for the moves to finish'
BREAKS = 'a dwell of zero duration makes no standstill phase'
EDITS = [('planner_block.py', '        if self.state_B.pause is not None:\n            self.JD = [0, 0, 0, 0]\n', '        if self.state_B.pause:\n            self.JD = [0, 0, 0, 0]\n')]
DEMO = 'import tempfile\nfrom pyGCodeDecode.gcode_interpreter import setup, simulation, unpack_blocklist\n\n\ndef simulate(text, firmware="marlin_jd", acc=1000):\n    with tempfile.TemporaryDirectory() as d:\n        g, p = os.path.join(d, "a.gcode"), os.path.join(d, "p.yaml")\n        open(g, "w").write(text)\n        open(p, "w").write(f"m:\\n  p_vel: 35\\n  p_acc: {acc}\\n  jerk: 10\\n  vX: 180\\n  vY: 180\\n  vZ: 30\\n  vE: 33\\n  firmware: {firmware}\\n")\n        return simulation(gcode_path=g, initial_machine_setup=setup(presets_file=p, printer="m"))\n\n\nsim = simulate("G1 X10 F3000\\nG4 P0\\nG1 X20\\n")\nstill = [s for b in sim.blocklist for s in b.get_segments() if s.t_begin == s.t_end and s.vel_begin.get_norm() == 0]\nprint(len(still), "standstill phases")\nsys.exit(0 if len(still) == 1 else 1)\n'
