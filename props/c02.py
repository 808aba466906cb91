from kemvc import mlkem as m, units
def run(c):
    return m.unit_property(c, units.compress_units)
