"""Property-based checks of openconcept (see /verif/DESIGN.md)."""
