"""Static analyses for PyDynamic (source level; nothing of the package is executed)."""
