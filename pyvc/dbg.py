"""developer driver: python3-vt -m pyvc.dbg module Contract cls..."""
