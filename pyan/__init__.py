"""Static analyser for pyuff (see ../DESIGN.md).  Never imports or runs pyuff."""
