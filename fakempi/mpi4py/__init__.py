"""A small mpi4py over a socket to the harness, for real processes."""
