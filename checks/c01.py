from checks.machine_common import *  # noqa
from checks.machine_common import execute  # noqa
RULE = "each state of each replayed behaviour: recorded currents, flags, control vector and recovered ampere-turns equal the specification state"
