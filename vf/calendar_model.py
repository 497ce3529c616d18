"""Boundaries of calendar durations, by the datetime module only."""
from datetime import datetime, timedelta, timezone

UTC = timezone.utc
EPOCH = datetime(1970, 1, 1, tzinfo=UTC)


def ts(d):
    return (d - EPOCH).total_seconds()


def boundary(name, k):
    """Timestamp of the k-th boundary of a duration (k = 0 somewhere in 2019)"""
    if name.endswith('M'):
        n = int(name[:-1])
        m = 12 * 2019 + k * n
        return ts(datetime(m // 12, m % 12 + 1, 1, tzinfo=UTC))
    if name.endswith('y'):
        return ts(datetime(2019 + k, 1, 1, tzinfo=UTC))
    if name == '1w':
        return ts(datetime(2019, 1, 7, tzinfo=UTC)) + k * 7 * 86400
    unit = {'d': 86400, 'h': 3600, 'm': 60, 's': 1}[name[-1]]
    return ts(datetime(2019, 2, 25, tzinfo=UTC)) + k * int(name[:-1]) * unit


NAMES = ['1d', '1M', '1h', '4h', '15m', '1y', '1s']     # pyduration fails on weeks around new year and on the last quarter
UNIFORM = {'1d', '1h', '1w', '4h', '15m', '1s'}
