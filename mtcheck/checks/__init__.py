"""One module per family of properties."""
