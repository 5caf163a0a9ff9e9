"""Deterministic simulation framework for UnarySim (see /verif/DESIGN.md)."""
