"""Symbolic execution of the real Python code of /repo (see DESIGN.md)."""
