MODULES = ["replacement", "detection", "statistics", "numerics", "signalproc", "cross"]
