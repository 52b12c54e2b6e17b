"""Explicit-state model checking of surface_potential_analysis."""
