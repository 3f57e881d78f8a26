"""Runtime monitors for probnum (see DESIGN.md)."""
