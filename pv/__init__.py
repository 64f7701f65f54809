"""Property-based checks for protosym (see /verif/DESIGN.md)."""
