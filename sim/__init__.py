"""Deterministic simulation of qopt with fault injection (see ../DESIGN.md)."""
