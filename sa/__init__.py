"""Static analyses of the wafo source tree (nothing of wafo is imported or run)."""
