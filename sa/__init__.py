"""Static analyses for gpmp (nothing here imports or runs the analysed code)."""
