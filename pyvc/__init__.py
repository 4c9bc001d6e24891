"""pyvc: a small deductive verifier for the real Python code of /repo (see DESIGN.md)."""
