"""vsa: path-partitioned abstract interpretation of vblf's source (see ../DESIGN.md)."""
