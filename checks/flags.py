"""Bit flags and packed flag words."""
from vlib import build, bits, pairs
from .common import driver, run_pairs


def run(ck, drv, rule, site, inc, defs=()):
    try:
        m = pairs.load(driver(drv), [], defs=defs, dinc=inc)
    except build.ToolError as e:
        ck.ob(rule, site, 'undecided', 'driver %s does not compile against the current interface: %s' % (drv, str(e)[-700:]))
        return
    ck.unit(site)
    for f in m['functions']:
        n = pairs.fname(f)
        if n.startswith('impl_'):
            bits.compare(ck, m, n[5:], rule, site)


def flags(ck):
    ck.assume('an event flag holds the twelve declared events', 'the values printed while setting a flag are not part of the property')
    V = ['-I' + build.REPO + '/var']
    run(ck, 'sp3flag', 'event flag', 'var/flags.cc', V)
    run(ck, 'bitset', 'enumeration bitset', 'src/enum_bitset.hpp', ['-I' + build.REPO + '/src'])
    run(ck, 'compound', 'packed flag word', 'var/compound_measurement.cc', V)
    run_pairs(ck, 'compound', [], 'flagged measurement', 'var/compound_measurement.cc', defs=('-DVALUES',), inc=V, names=lambda n: n.startswith('value'))
