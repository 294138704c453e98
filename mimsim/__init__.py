"""mimsim: a deterministic simulator around MIMOSA (see ../DESIGN.md)."""
