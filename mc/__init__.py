"""Model-checking machinery for EMC2 (see /verif/DESIGN.md)."""
