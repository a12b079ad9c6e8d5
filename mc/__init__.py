"""Bounded model checking harness for gdspy (see DESIGN.md)."""
