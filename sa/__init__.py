"""Static analyser for do-mpc: gated value graph construction and rules."""
