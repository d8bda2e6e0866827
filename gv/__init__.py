"""gv - contract checker for graphix (see /verif/DESIGN.md)."""
