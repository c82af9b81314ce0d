"""Runtime monitors for xrd_simulator: reference-model oracles over executions of the real code."""
