"""Static analysis of jsonpickle's source (never imports or runs it)."""
