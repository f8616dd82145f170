"""Static analysis of omegaconf: a disjunctive abstract interpreter over the syntax tree."""
