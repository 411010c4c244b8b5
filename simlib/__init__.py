"""Deterministic simulation harness for OpenCLSim (see /verif/DESIGN.md)."""
