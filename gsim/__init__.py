"""Deterministic simulation of gconv with fault injection."""
