"""Static value-flow analysis for ssspy (no code of ssspy is imported or executed)."""
