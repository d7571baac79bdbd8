"""Runtime monitors for trusspy (see /verif/DESIGN.md)."""
