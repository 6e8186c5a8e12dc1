"""Runtime monitors for kerncraft: workload generators, reference models and online oracles."""
