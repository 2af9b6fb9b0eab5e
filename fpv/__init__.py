"""fpv: runtime monitors for forcepho.  See /verif/DESIGN.md."""
