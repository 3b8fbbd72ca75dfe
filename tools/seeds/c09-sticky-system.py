PROPERTY = "C09"
NEEDS = "a query with an explicit unit system followed by one without"
BREAKS = "an explicitly requested unit system sticks to the simulation"
EDITS = [("gcode_interpreter.py", """        # set the output unit system to the one for the simulation
        if output_unit_system is None:
            output_unit_system = self.output_unit_system

        return""", """        # set the output unit system to the one for the simulation
        if output_unit_system is not None:
            self.output_unit_system = output_unit_system
        output_unit_system = self.output_unit_system

        return""")]
DEMO = '''
from pyGCodeDecode.gcode_interpreter import simulation

sim = simulation.__new__(simulation)
sim.available_unit_systems = {"SI": 1e-3, "SImm": 1.0, "inch": 1 / 25.4}
sim.output_unit_system = "SImm"
a = sim.get_scaling_factor("inch"), sim.get_scaling_factor()
print(a)
sys.exit(0 if a == (1 / 25.4, 1.0) else 1)
'''
