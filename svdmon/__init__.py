"""Runtime-monitoring machinery for SVDSuite (see /verif/DESIGN.md)."""
