"""Number of runs of the quick check and minutes of the thorough check per property."""

_RULE = ('one plan per seed: devices, links, operations, timings and faults are drawn from a PRNG seeded with VERIF_SEED:property:index; '
         'a run is non-trivial when at least one exchange with a device or port happened or one of the conditions listed as rare was reached (saved, '
         'loaded or compared documents and objects where there is no device); two runs are distinct when the sequence of '
         '(operation, outcome, faults that struck it) differs')

COUNTS = {'C01': 20000, 'C02': 20000, 'C03': 20000, 'C04': 16000, 'C05': 16000, 'C06': 16000, 'C07': 16000, 'C08': 16000, 'C09': 10000, 'C10': 12000, 'C11': 16000, 'C12': 12000, 'C13': 16000, 'C14': 16000, 'C15': 10000, 'C16': 8000, 'C17': 12000, 'C18': 3500, 'C19': 9000, 'C20': 11000, 'C21': 16000, 'C23': 9000, 'C24': 16000, 'C25': 6000, 'C26': 5000, 'C27': 9000}

RUNS = dict((p, (n, 10)) for p, n in COUNTS.items())
RULES = dict((p, _RULE) for p in COUNTS)
