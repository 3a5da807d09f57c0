"""Deterministic simulation of bare-script-py with fault injection."""
