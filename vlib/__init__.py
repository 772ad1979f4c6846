"""Runtime-verification framework for f-dangel/singd."""
