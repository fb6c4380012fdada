"""pyvc: a deductive verifier for the Python/numpy subset used by task_models."""
