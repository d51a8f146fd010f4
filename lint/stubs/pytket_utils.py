def probs_from_counts(counts):
    total = sum(counts.values())
    return {k: v / total for k, v in counts.items()}
