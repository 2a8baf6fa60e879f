"""Static analysis of frequenz.channels (see ../DESIGN.md)."""
