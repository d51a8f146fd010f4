"""Static analyser for CQCL/lambeq (stdlib `ast` only; never imports lambeq)."""
