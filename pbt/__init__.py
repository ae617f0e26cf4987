"""Property-based checks of pyoptmat."""
