"""Property harnesses."""
