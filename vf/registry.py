"""property id -> deciding analysis"""
from . import tokchecks
from . import memchecks
from . import parsechecks
from . import serchecks
from . import appchecks
from . import bigchecks
from . import flochecks
from . import rmchecks

CHECKS = {}
for m in (tokchecks, memchecks, parsechecks, serchecks, appchecks, bigchecks, flochecks, rmchecks):
    CHECKS.update(m.CHECKS)
