"""The statutory amounts the library promises (its published values circa 2017), written down apart from
the code, so that an oracle computed from them notices when the code's own table no longer says them."""
import copy

TABLE = dict(
    RRSP_ACCRUAL_RATE=0.18,
    RRSP_ACCRUAL_MAX={2017: 25750.55},
    RRSP_WITHHOLDING_TAX_RATE={2017: {0: 0.1, 5000: 0.2, 15000: 0.3}},
    RRSP_RRIF_CONVERSION_AGE=71,
    RRSP_RRIF_WITHDRAWAL_MIN={
        71: 0.0528, 72: 0.0540, 73: 0.0553, 74: 0.0567, 75: 0.0582, 76: 0.0598, 77: 0.0617, 78: 0.0636,
        79: 0.0658, 80: 0.0682, 81: 0.0708, 82: 0.0738, 83: 0.0771, 84: 0.0808, 85: 0.0851, 86: 0.0899,
        87: 0.0955, 88: 0.1021, 89: 0.1099, 90: 0.1192, 91: 0.1306, 92: 0.1449, 93: 0.1634, 94: 0.1879,
        95: 0.2000},
    TFSA_ANNUAL_ACCRUAL={2009: 5000, 2010: 5000, 2011: 5000, 2012: 5000, 2013: 5500, 2014: 5500, 2015: 10000,
                         2016: 5500, 2017: 5500},
    TFSA_ELIGIBILITY_AGE=18,
    TFSA_ACCRUAL_ROUNDING_FACTOR=500,
    TAX_PERSONAL_DEDUCTION={'Federal': {2017: 11635}, 'BC': {2017: 10208}},
    TAX_PENSION_CREDIT={'Federal': {2017: 2000}, 'BC': {2017: 1000}},
    TAX_CREDIT_RATE={'Federal': {2017: 0.15}, 'BC': {2017: 0.0506}},
    TAX_BRACKETS={j: {2017: {0: 0.15, 45961.23: 0.205, 91921.45: 0.26, 142493.82: 0.29, 203000.00: 0.33}}
                  for j in ('Federal', 'BC')},
    TAX_SPOUSAL_AMOUNT={'Federal': {2017: 11635}, 'BC': {2017: 9614}},
)


def listed(promised, real):
    """`promised`, and the amounts of further years the library may have come to list."""
    if not (isinstance(promised, dict) and isinstance(real, dict)):
        return copy.deepcopy(promised)
    later = {y: v for y, v in real.items() if isinstance(y, int) and y > 1900 and all(
        isinstance(x, int) and x > 1900 and x < y for x in promised)}
    return {x: listed(v, real.get(x)) for x, v in promised.items()} | copy.deepcopy(later)


class Statute:
    """The table (changed by `over`), and in `.real` the library's own constants changed the same way."""

    def __init__(self, real, over=None):
        for k in ('TAX_REFUND_TIMING', 'TAX_PAYMENT_TIMING'):
            setattr(self, k, getattr(real, k))          # assumptions of the library, not amounts fixed by law
        for k, v in TABLE.items():
            setattr(self, k, listed(v, getattr(real, k, None)))
        for k, v in (over or {}).items():
            setattr(self, k, copy.deepcopy(v))
            setattr(real, k, v)
        self.real = real
