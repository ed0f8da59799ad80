SPECIFICATION Spec
INVARIANTS Multiplies Prints Widens Caps BitsOf Cache1 Cache2 Cache3 Rom RomX RomG Capacity Dates Voltages Confs
CHECK_DEADLOCK FALSE
