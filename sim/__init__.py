"""Deterministic simulation of marsh with fault injection."""
