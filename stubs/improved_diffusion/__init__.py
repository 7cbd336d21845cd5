"""Stand-in for improved_diffusion (not installed here)."""
