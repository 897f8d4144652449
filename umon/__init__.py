"""umon: runtime monitors for UnarySim (see ../DESIGN.md)."""
