"""C07: equivalent objects are recognised and used again."""
import vlib
from objects import *

PARTS = {'reuse': (reuse_driver, 'ObjectsTrace')}


def main(c):
    quick = vlib.tier() == 'quick'
    c.model('MCObjects', 'MCObjects.cfg' if quick else 'MCObjects_thorough.cfg')
    base = vlib.seed() * 1000033
    c.conform('reuse', reuse_driver, [{'seed': base + i} for i in range(6000 if quick else 80000)], 'ObjectsTrace')
