"""Deterministic simulation of torch-harmonics (see ../DESIGN.md)."""
