def enable_python():
    raise RuntimeError("scripts are not available")
