"""One module per property: generate(rng, index, tier), run(scn, stats), and what the evidence says about it."""
