"""symx: dynamic symbolic execution of the real pymgrid code with z3."""
