"""Property-based testing machinery for PuncturedFEM (see DESIGN.md)."""
