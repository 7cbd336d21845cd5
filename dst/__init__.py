"""Deterministic simulation framework used by every check in /verif."""
