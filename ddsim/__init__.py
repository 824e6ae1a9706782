"""Deterministic simulation with fault injection for diff-diff (see /verif/DESIGN.md)."""
