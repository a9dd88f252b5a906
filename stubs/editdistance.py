"""Stand-in for the editdistance package: the Levenshtein distance."""


def eval(a, b):
    row = list(range(len(b) + 1))
    for i, x in enumerate(a, 1):
        prev, row[0] = row[0], i
        for j, y in enumerate(b, 1):
            prev, row[j] = row[j], min(
                row[j] + 1, row[j - 1] + 1, prev + (x != y))
    return row[-1]
