"""Proleptic Gregorian calendar arithmetic, independent of datetime."""

DAYS = (31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)


def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def days_in(y, m):
    return 29 if m == 2 and leap(y) else DAYS[m - 1]


def shift_minutes(y, mo, d, h, mi, delta):
    total = h * 60 + mi + delta
    day_shift, rest = divmod(total, 1440)
    h, mi = divmod(rest, 60)
    d += day_shift
    while d < 1:
        mo -= 1
        if mo < 1:
            mo = 12
            y -= 1
        d += days_in(y, mo)
    while d > days_in(y, mo):
        d -= days_in(y, mo)
        mo += 1
        if mo > 12:
            mo = 1
            y += 1
    return y, mo, d, h, mi
