"""Symbolic execution of the real calkulate code (numpy object arrays of symbolic
reals), path exploration and SMT discharge.  See DESIGN.md."""
