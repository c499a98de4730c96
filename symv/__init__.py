"""Bounded symbolic execution of the pySailingVLM source (see DESIGN.md)."""
