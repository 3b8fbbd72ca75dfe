PROPERTY = 'C07'
NEEDS = 'a dwell with both a P and an S word'
BREAKS = 'P wins over S'
EDITS = [('state_generator.py', '            if "S" in line_dict["G4"]:\n', '            elif "S" in line_dict["G4"]:\n')]
DEMO = 'import tempfile\nfrom pyGCodeDecode.gcode_interpreter import setup, simulation, unpack_blocklist\n\n\ndef simulate(text, firmware="marlin_jd", acc=1000):\n    with tempfile.TemporaryDirectory() as d:\n        g, p = os.path.join(d, "a.gcode"), os.path.join(d, "p.yaml")\n        open(g, "w").write(text)\n        open(p, "w").write(f"m:\\n  p_vel: 35\\n  p_acc: {acc}\\n  jerk: 10\\n  vX: 180\\n  vY: 180\\n  vZ: 30\\n  vE: 33\\n  firmware: {firmware}\\n")\n        return simulation(gcode_path=g, initial_machine_setup=setup(presets_file=p, printer="m"))\n\n\nsim = simulate("G1 X10 F3000\\nG4 P500 S2\\nG1 X20\\n")\nd = [s.t_end - s.t_begin for b in sim.blocklist for s in b.get_segments() if s.vel_begin.get_norm() == 0 and s.vel_end.get_norm() == 0]\nprint("standstill", d)\nsys.exit(0 if len(d) == 1 and abs(d[0] - 2) < 1e-9 else 1)\n'
